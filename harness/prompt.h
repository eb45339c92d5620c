// What one prompt offers, shows and accepts (from the documentation of Choice).
#pragma once
#include "h.h"
#include <map>
#include <optional>
struct Ask {
  Str msg;
  std::map<char, Str> choices;
  std::optional<std::pair<char, char>> range;
  std::optional<char> def;
  bool useQuit{true};
  int form{}; // which overload is called
};
struct Quit { std::optional<char> c; Str text; };
inline bool printable(char c) { return c >= ' ' && c <= '~'; }
// the offered choices, or why the prompt is refused
inline Str offered(const Ask& a, const Quit& q, std::map<char, Str>& all) {
  all = a.choices;
  if (a.range) {
    const auto [f, l] = *a.range;
    if (!printable(f) || !printable(l) || f > l) return "range";
    for (int c = f; c <= l; ++c) if (!all.emplace((char)c, "").second) return "overlap";
  }
  const auto base = all;
  if (q.c) { if (base.count(*q.c)) return "quit"; if (a.useQuit) all.emplace(*q.c, q.text); }
  if (all.empty()) return "none";
  for (auto& [c, t] : all) if (!printable(c)) return "unprintable";
  if (a.def && !all.count(*a.def)) return "default";
  return "";
}
inline Str promptText(const Ask& a, const std::map<char, Str>& all) {
  Strs parts;
  std::vector<std::pair<char, char>> run; // current run of choices without text
  auto flush = [&] { if (!run.empty()) { parts.push_back(run[0].first == run[0].second ? Str(1, run[0].first) : Str{run[0].first, '-', run[0].second}); run.clear(); } };
  for (auto& [c, t] : all)
    if (!t.empty()) { flush(); parts.push_back(Str(1, c) + "=" + t); }
    else if (!run.empty() && c == run[0].second + 1) run[0].second = c;
    else { flush(); run.push_back({c, c}); }
  flush();
  Str s = a.msg + (a.msg.empty() ? "(" : " (");
  for (size_t i = 0; i < parts.size(); ++i) s += (i ? ", " : "") + parts[i];
  return s + (a.def ? Str(") def '") + *a.def + "': " : Str("): "));
}

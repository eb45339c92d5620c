// C01-C04: kanjiStats, judged against an independent counter.
#include "world.h"
using namespace w;
static const char* warm() { return warmWorlds(48, 5000); }

// ---- the character model ------------------------------------------------------------
static bool hiraCp(uint32_t c) { return in(c, 0x3040, 0x309f); }
static bool kataCp(uint32_t c) { return in(c, 0x30a0, 0x30ff) || in(c, 0x31f0, 0x31ff); }
static bool punctCp(uint32_t c) { return in(c, 0x2000, 0x206f) || in(c, 0x3000, 0x303f) || in(c, 0xfff0, 0xffff); }
static bool symCp(uint32_t c) { return in(c, 0x2100, 0x214f) || in(c, 0x2190, 0x21ff) || in(c, 0x2200, 0x22ff) || in(c, 0x2500, 0x257f) || in(c, 0x25a0, 0x25ff) || in(c, 0x2600, 0x26ff) || in(c, 0x2ff0, 0x2fff) || in(c, 0x3190, 0x319f) || in(c, 0x31c0, 0x31ef); }
static bool letterCp(uint32_t c) { return in(c, 0x80, 0xff) || in(c, 0x100, 0x17f) || in(c, 0x180, 0x24f) || in(c, 0x2150, 0x218f) || in(c, 0x2460, 0x24ff) || in(c, 0x2c60, 0x2c7f) || in(c, 0xff00, 0xffef); }
static const std::map<uint32_t, std::pair<uint32_t, uint32_t>>& accents() { // plain kana -> with dakuten, with han-dakuten
  static const auto m = [] {
    std::map<uint32_t, std::pair<uint32_t, uint32_t>> r;
    for (uint32_t k : {0x304bu, 0x304du, 0x304fu, 0x3051u, 0x3053u, 0x3055u, 0x3057u, 0x3059u, 0x305bu, 0x305du, 0x305fu, 0x3061u, 0x3064u, 0x3066u, 0x3068u}) r[k] = {k + 1, 0}, r[k + 0x60] = {k + 0x61, 0};
    for (uint32_t k = 0x306f; k <= 0x307b; k += 3) r[k] = {k + 1, k + 2}, r[k + 0x60] = {k + 0x61, k + 0x62};
    r[0x3046] = {0x3094, 0}; r[0x30a6] = {0x30f4, 0};
    return r;
  }();
  return m;
}
struct Text { // how one piece of text is seen by the counter
  Strs tokens;
  size_t errors{}, variants{}, marks{};
};
static void tokenise(const Str& full, Text& t) {
  const Str s = full.c_str(); // text ends at a NUL
  for (size_t i = 0; i < s.size();) {
    if (!((unsigned char)s[i] & 0x80)) { ++i; continue; }
    uint32_t c, d;
    const size_t n = mbLen(s, i, &c);
    if (!n) { ++t.errors; ++i; continue; }
    const size_t at = i;
    i += n;
    if (isVS(c) || c == 0x3099 || c == 0x309a) { ++t.errors; continue; }
    const size_t m = mbLen(s, i, &d);
    if (m && isVS(d)) { ++t.variants; i += m; t.tokens.push_back(s.substr(at, n + m)); continue; }
    if (m && (d == 0x3099 || d == 0x309a)) {
      i += m;
      auto a = accents().find(c);
      const uint32_t x = a == accents().end() ? 0 : d == 0x3099 ? a->second.first : a->second.second;
      if (x) { ++t.marks; t.tokens.push_back(u8(x)); } else { ++t.errors; t.tokens.push_back(s.substr(at, n)); }
      continue;
    }
    t.tokens.push_back(s.substr(at, n));
  }
}
static std::vector<uint32_t> decodeLoose(const Str& full) { // with replacement characters for errors
  const Str s = full.c_str();
  std::vector<uint32_t> r;
  const auto cont = [&](size_t k) { return k < s.size() && ((unsigned char)s[k] & 0xc0) == 0x80; };
  for (size_t i = 0; i < s.size();) {
    const unsigned c = (unsigned char)s[i];
    if (c < 0x80) { r.push_back(c); ++i; continue; }
    const size_t n = c < 0xc0 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf8 ? 4 : 1;
    if (n == 1) { r.push_back(0xfffd); ++i; continue; }
    size_t k = 1;
    while (k < n && cont(i + k)) ++k;
    if (k < n) { r.push_back(0xfffd); i += k; continue; }
    uint32_t v;
    r.push_back(mbLen(s, i, &v) ? v : 0xfffd);
    i += n;
  }
  return r;
}
static Str removeFurigana(const Str& s) {
  const auto v = decodeLoose(s);
  Str r;
  for (size_t i = 0; i < v.size();) {
    r += u8(v[i]);
    size_t next = i + 1;
    if ((isKanjiRangeCp(v[i]) || in(v[i], 0xff00, 0xffef)) && i + 1 < v.size() && v[i + 1] == 0xff08) {
      size_t k = i + 2;
      while (k < v.size() && isKanaCp(v[k])) ++k;
      if (k > i + 2 && k < v.size() && v[k] == 0xff09) next = k + 1;
    }
    i = next;
  }
  return r;
}

// ---- counting a tree -----------------------------------------------------------------
struct Counter {
  bool regex{}, tagging{}, sorted{};
  std::map<Str, size_t> n;
  std::map<Str, std::map<Str, size_t>> tags;
  size_t errors{}, variants{}, marks{}, repl{}, files{}, dirs{};
  Str lastTag, dbg;
  void add(const Str& s, const Str& tag) {
    Str x = s;
    if (regex) {
      x = removeFurigana(s);
      if (x != s) {
        ++repl;
        if (tagging && tag != lastTag) { dbg += "Tag '" + tag + "'\n"; lastTag = tag; }
        const Str c = num(repl);
        dbg += "  " + c + " : " + s + "\n" + Str(c.size() + 3, ' ') + ": " + x + "\n";
      }
    }
    Text t;
    tokenise(x, t);
    errors += t.errors; variants += t.variants; marks += t.marks;
    for (auto& k : t.tokens) { ++n[k]; ++tags[k][tag]; }
  }
  static bool unclosed(const Str& l) { const size_t o = l.rfind("（"), c = l.rfind("）"); return o != Str::npos && (c == Str::npos || c < o); }
  void file(const Str& data, const Str& tag) {
    const Strs ls = split(data, '\n');
    if (!regex) { for (auto& l : ls) add(l, tag); return; }
    Str pending;
    for (auto& l : ls) {
      if (pending.empty()) { pending = l; continue; }
      const size_t o = l.find("（"), c = l.find("）");
      const bool join = unclosed(pending) ? c != Str::npos && (o == Str::npos || c < o) : o == 0 && c != Str::npos;
      if (join) { add(pending + l.substr(0, c + 3), tag); pending = l.substr(c + 3); }
      else { add(pending, tag); pending = l; }
    }
    if (!pending.empty()) add(pending, tag);
  }
  void walk(const Str& path, const Str& name, Node* nd) {
    if (nd->dir) {
      ++dirs;
      Strs order = served_order(path);
      if (sorted) std::sort(order.begin(), order.end());
      for (auto& k : order) {
        Node* c = nullptr;
        for (auto* x : nd->kids) if (x->name == k) c = x;
        if (c && !c->link) walk(path + "/" + k, k, c);
      }
    } else { ++files; file(nd->data, name); }
    add(name, name);
  }
};
struct Cnt { size_t n; Str name; KP k; uint32_t f; int t; bool operator<(const Cnt& o) const { return n != o.n ? n > o.n : f != o.f ? f < o.f : t != o.t ? t < o.t : name < o.name; } };
static Str fmt(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

struct Expect { Str out; bool err{}; Str why; };
static bool g_breakdown, g_verbose, g_sorted; // g_sorted: directories are walked in name order
static bool reportOne(const Model& m, const Str& top, const Str& abs, Expect& e) {
  Node* nd = lookup(abs);
  if (!nd) { e.err = true; e.why = "file not found: " + top; return false; }
  const Str last = top.substr(top.rfind('/') == Str::npos ? 0 : top.rfind('/') + 1);
  Counter rx, raw;
  rx.regex = true;
  rx.tagging = g_verbose;
  raw.tagging = true;
  rx.sorted = raw.sorted = g_sorted;
  rx.walk(abs, last, nd);
  raw.walk(abs, last, nd);
  const auto one = [](const Str& t, auto pred) { uint32_t c; return oneChar(t, c) && pred(c); };
  static const char* const Names[]{"Hiragana", "Katakana", "Common Kanji", "Rare Kanji", "Non-UCD Kanji", "MB-Punctuation", "MB-Symbol", "MB-Letter", "Unrecognized"};
  size_t totals[9]{};
  Str& o = e.out;
  for (int p = 0; p < 9; ++p) {
    const bool isR = p < 2 || p == 7, kanji = p >= 2 && p <= 4;
    Counter& c = isR ? rx : raw;
    if (p == 0) {
      if (g_verbose) o += ">>> Showing all Furigana replacements:\n" + c.dbg;
      Str nm = last;
      if (nm.empty()) { Str q = top; while (q.size() > 1 && q.back() == '/') q.pop_back(); nm = q.substr(q.rfind('/') == Str::npos ? 0 : q.rfind('/') + 1); }
      o += ">>> Stats for: '" + nm + "'";
      if (c.files > 1) { o += " (" + num(c.files) + " files"; if (c.dirs > 1) o += " from " + num(c.dirs) + " directories"; o += ")"; }
      o += " - showing top 5 Kanji per type";
      if (c.repl || c.marks || c.variants) o += "\n>>> Furigana Removed: " + num(c.repl) + ", Combining Marks Replaced: " + num(c.marks) + ", Variation Selectors: " + num(c.variants);
      if (c.errors) o += ", Errors: " + num(c.errors);
      o += "\n";
    }
    std::vector<Cnt> v;
    for (auto& [t, n] : c.n) {
      bool y = false;
      switch (p) {
      case 0: y = one(t, hiraCp); break;
      case 1: y = one(t, kataCp); break;
      case 2: y = one(t, commonKanjiCp) && m.findUcd(t); break;
      case 3: y = one(t, rareKanjiCp) && m.findUcd(t); break;
      case 4: y = one(t, [](uint32_t x) { return commonKanjiCp(x) || rareKanjiCp(x); }) && !m.findUcd(t); break;
      case 5: y = t.compare(0, 3, "　") && one(t, punctCp); break;
      case 6: y = one(t, symCp); break;
      case 7: y = one(t, letterCp); break;
      case 8: y = !one(t, [](uint32_t x) { return hiraCp(x) || kataCp(x) || commonKanjiCp(x) || rareKanjiCp(x) || punctCp(x) || symCp(x) || letterCp(x); }); break;
      }
      if (!y) continue;
      KP k = kanji ? m.find(t) : nullptr;
      v.push_back({n, t, k, k ? (k->freq ? k->freq : m.maxFreq) : m.maxFreq + 1, k ? k->type : NoType});
      totals[p] += n;
    }
    std::sort(v.begin(), v.end());
    const auto tu = [&](const char* nm, size_t t, size_t u) { o += fmt(">>> %16s: %6zu, unique: %4zu", nm, t, u); };
    if (!totals[p]) continue;
    tu(Names[p], totals[p], v.size());
    if (p == 2) {
      o += ", 100.00%\n";
      for (int t = 0; t <= NoType; ++t) {
        size_t tot = 0, un = 0;
        Str ex;
        for (auto& x : v) if (x.t == t) { tot += x.n; if (un++ < 5) ex += (ex.empty() ? "" : ", ") + x.name + " " + num(x.n); }
        if (!un) continue;
        tu(fmt("[%s] ", t == NoType ? "None" : TypeName[t]).c_str(), tot, un);
        o += fmt(", %6.2f%%  (", (double)tot * 100. / (double)totals[p]) + ex + ")\n";
      }
    } else if (kanji) {
      o += Str(11, ' ') + "(";
      for (size_t i = 0; i < v.size() && i < 5; ++i) o += (i ? ", " : "") + v[i].name + " " + num(v[i].n);
      o += ")\n";
    } else o += "\n";
    if (p == 8 || (kanji && g_breakdown)) {
      o += Str(">>> Showing Breakdown for '") + Names[p] + "':\n  Rank  [Val Num]" + (p == 2 || p == 3 ? " Freq, LV, Type" : ", Unicode, Highest Count File") + "\n";
      size_t rank = 0;
      for (auto& x : v) {
        o += "  ";
        if (g_breakdown) o += fmt("%-5zu ", ++rank);
        o += "[" + x.name + fmt(" %4zu]", x.n);
        if (x.k) o += fmt("%5u, ", x.k->freq) + (x.k->level >= 0 ? LevelName[x.k->level] : "--") + ", " + TypeName[x.k->type];
        else {
          Str u;
          for (auto cp : cps(x.name)) u += (u.empty() ? "U+" : " ") + hex4(cp);
          o += ", " + (u.size() < 7 ? Str(7 - u.size(), ' ') : Str()) + u;
          Str best;
          size_t mx = 0;
          for (auto& [f, n] : c.tags[x.name]) if (n > mx) { mx = n; best = f; }
          o += ", " + best;
        }
        o += "\n";
      }
    }
  }
  size_t kk = totals[2] + totals[3] + totals[4], all = kk + totals[0] + totals[1];
  o += ">>> Total Kana+Kanji: " + num(all);
  if (all) {
    o += " (";
    for (int p = 0; p < 2; ++p) if (totals[p]) o += fmt("%s: %.1f%%, ", Names[p], (double)totals[p] * 100. / (double)all);
    o += fmt("Kanji: %.1f%%)", (double)kk * 100. / (double)all);
  }
  o += "\n";
  return true;
}

// ---- generated text ----------------------------------------------------------------------
struct Pool { Strs names, kana, vs; };
static Str anyCp() { // often the first or last of a block, or its neighbour
  static const uint32_t E[]{0x80, 0xff, 0x100, 0x17f, 0x180, 0x24f, 0x2000, 0x206f, 0x2100, 0x214f, 0x2150, 0x218f, 0x2190, 0x21ff, 0x2200, 0x22ff, 0x2460, 0x24ff, 0x2500, 0x257f, 0x25a0,
    0x25ff, 0x2600, 0x26ff, 0x2c60, 0x2c7f, 0x2e80, 0x2eff, 0x2ff0, 0x2fff, 0x3000, 0x303f, 0x3040, 0x309f, 0x30a0, 0x30ff, 0x3190, 0x319f, 0x31c0, 0x31ef, 0x31f0, 0x31ff, 0x3400, 0x4dbf,
    0x4e00, 0x9fff, 0xf900, 0xfaff, 0xff00, 0xffef, 0xfff0, 0xffff, 0x20000, 0x2a6df, 0x2a700, 0x2ebef, 0x2f800, 0x2fa1f, 0x30000, 0x3134f};
  uint32_t c;
  switch (draw(4)) {
  case 0: c = E[draw(std::size(E))]; break;
  case 1: c = E[draw(std::size(E))] + draw(3) - 1; break;
  case 2: c = range(0x80, 0xffff); break;
  default: c = range(0x10000, 0x10ffff);
  }
  if (in(c, 0xd800, 0xdfff)) c = 0x4e00 + (c & 0xff);
  return u8(std::max(c, 0x80u));
}
static Str piece(const Pool& p) {
  static const Strs Kana{"か", "き", "あ", "が", "ン", "カ", "ー", "ぱ", "ヴ", "ㇱ", "ゝ", "う"};
  static const Strs Punct{"、", "。", "　", "「", "”", "\uFEFF", "—", "\uFFFD"};
  static const Strs Sym{"℃", "→", "○", "☆", "⿱", "㆑", "㇁"};
  static const Strs Let{"Ａ", "é", "Ⅳ", "⑦", "ﾊ", "～", "Ā", "（", "）"};
  static const Strs Odd{"가", "ก", "😀", "\U000e0100", "㈱", "\u0301", "龘", "㐂", "𠮟", "𪜈", "⺀", "\uFB01"};
  static const Strs Bad{"\xe3", "\xff", "\xe3\x82", "\xc0\xaf", "\xed\xa0\x80", "\xf8\x88\x80\x80\x80", "\x80", "\xf4\x90\x80\x80", "\xf0\x8f\xbf\xbf", "\xe0\x9f\xbf", "\xc1\xbf", "\xf4\x8f\xbf\xbf", "\xed\x9f\xbf", "\xee\x80\x80", "\xf0\x90\x80\x80", "\xe0\xa0\x80", "\xc2\x80", "\xdf\xbf", "\xf3\xa0\x84\x80"};
  auto kj = [&] { return pick(p.names); };
  auto kn = [&] { Str s; for (uint32_t n = range(1, 3); n--;) s += pick(Kana); return s; };
  switch (draw(26)) {
  case 0: case 1: case 2: return kj();
  case 3: { Str k = kj(); return k + k; }
  case 4: case 5: return kn();
  case 6: case 7: return kj() + "（" + kn() + "）";
  case 8: return "（";
  case 9: return "）";
  case 10: return pick(Let) + "（" + kn() + "）";
  case 11: return kj() + "（" + kn();
  case 12: return "（" + kn() + "）";
  case 13: return kn() + "）" + (draw(2) ? kj() : "");
  case 14: return pick(Punct);
  case 15: return pick(Sym);
  case 16: return pick(Let);
  case 17: return pick(Odd);
  case 23: return anyCp();
  case 24: { const uint32_t k = draw(5); return k == 0 ? anyCp() + "（" + kn() + "）" : k == 1 ? kj() + "（" + anyCp() + "）" : k == 2 ? anyCp() + u8(0xfe00 + draw(16)) : k == 3 ? anyCp() + "\u3099" : anyCp() + anyCp(); }
  case 18: return p.vs.empty() || draw(2) ? kj() + u8(0xfe00 + draw(16)) : pick(p.vs);
  case 19: return pick(Kana) + (draw(2) ? "\u3099" : "\u309a");
  case 20: return draw(2) ? "\u3099" : "\ufe01";
  case 21: return pick(Bad);
  case 22: return draw(2) ? Str("abc 1.") : Str(1, "\r\0\x7f\x01\t"[draw(5)]);
  default: { Str s, k = kj(); for (uint32_t n = range(2, 30); n--;) s += k; return s; }
  }
}
static Str lineOf(const Pool& p, bool longer) {
  Str s;
  const uint32_t n = draw(8) == 7 ? 0 : range(1, longer ? 14 : 5);
  for (uint32_t i = 0; i < n; ++i) s += piece(p);
  if (s.size() > 1500) s.resize(1500);
  s.erase(std::remove(s.begin(), s.end(), '\n'), s.end());
  return s;
}
static Str textOf(const Pool& p, int size) {
  Str s;
  const uint32_t n = draw(6) == 5 ? 0 : range(1, size == 0 ? 2 : size == 1 ? 6 : 24);
  for (uint32_t i = 0; i < n; ++i) s += lineOf(p, size > 0) + (i + 1 == n && draw(3) == 2 ? "" : "\n");
  if (size == 2 && draw(6) == 5) { const Str pad = s; while (s.size() < 12000 && !pad.empty()) s += pad; } // more than one buffer
  return s;
}
static Str nameOf(const Pool& p, uint32_t i) {
  switch (draw(11)) {
  case 0: case 1: case 2: return "f" + num(i);
  case 8: return "." + Str(draw(2) ? "h" : "漢") + num(i);
  case 9: return "a b~" + num(i) + (draw(2) ? ".bak" : ".TXT");
  case 10: return Str(range(60, 220), 'n') + num(i);
  case 3: return "t.txt";
  case 4: return pick(p.names) + "（かな）" + num(i);
  case 5: return "ひら" + pick(p.names);
  case 6: return "-b" + num(i);
  default: return "\xff名" + num(i);
  }
}
static void fill(const Str& dir, const Pool& p, int size, int depth, uint32_t& budget) {
  const uint32_t n = size == 0 ? range(1, 2) : draw(5);
  for (uint32_t i = 0; i < n && budget; ++i) {
    --budget;
    const Str path = dir + "/" + nameOf(p, i);
    if (lookup(path, false)) continue;
    switch (draw(10)) {
    case 7: case 8: if (depth < 3) { mkdirs(path); fill(path, p, size, depth + 1, budget); break; } [[fallthrough]];
    case 9: if (draw(2)) { put_link(path, draw(2) ? "/sim/in" : "/sim/other.txt"); break; } [[fallthrough]];
    default: put_file(path, textOf(p, size));
    }
  }
}
// now and then: a long chain of directories, a crowded directory, or counts that need more than 16 bits
static void large(const Str& dir, const Pool& p) {
  const Str big = dir + "/big";
  if (lookup(big, false)) return;
  switch (draw(6)) {
  case 5: { // very long furigana, closed or not: finding it may not need stack for every character
    Str l = pick(p.names) + "（";
    const Str k = draw(2) ? "か" : "ー";
    for (uint32_t n = range(34'000, 40'000); n--;) l += k;
    put_file(big, l + (draw(3) ? "）" : "") + pick(p.names) + (draw(2) ? "\n" : ""));
    probe("very long furigana");
    break;
  }
  case 3: case 4: { // many different characters, every one of them many times
    Str s, l;
    for (uint32_t n = range(6, 16); n--;) {
      const Str k = draw(3) ? u8(draw(2) ? range(0x3400, 0x4dbf) : range(0x20000, 0x2a6df)) : draw(2) ? pick(p.names) : anyCp();
      for (uint32_t c = draw(3) ? range(90, 130) : range(2, 1100); c--;) {
        l += k;
        if (l.size() > 400) { s += l + "\n"; l.clear(); }
      }
    }
    put_file(big, s + l);
    break;
  }
  case 0: { Str d = big; for (uint32_t n = range(5, 40); n--;) { d += "/" + Str(1, (char)('a' + draw(3))); mkdirs(d); if (draw(2)) put_file(d + "/f", lineOf(p, false)); } put_file(d + "/z", pick(p.names)); break; }
  case 1: mkdirs(big); for (uint32_t n = range(30, 300), i = 0; i < n; ++i) put_file(big + "/" + num(i), draw(4) ? pick(p.names) : Str("か")); break;
  default: {
    const Str k = draw(4) ? pick(p.names) : Str(draw(2) ? "ア" : "℃");
    Str l, s;
    for (uint32_t i = 0; i < 500; ++i) l += k;
    for (uint32_t i = range(131, 140); i--;) s += l + "\n";
    put_file(big, s + pick(p.names));
  }
  }
}
// builds the disk and the argument vector; fills in what must be printed
static Strs g_args;
static Expect g_exp;
static Str g_alt; // the replacements shown by -v may also come in name order
static World* g_world;
static void setup(int size, bool odd) {
  World& wd = pickWorld();
  g_world = &wd;
  putWorld("/sim/d", wd.files);
  Pool p;
  { // a few kanji, often repeated, so that counts tie
    std::vector<KP> all;
    for (auto& [n, k] : wd.m.names) { all.push_back(k); if (hasVS(n)) p.vs.push_back(n); }
    Strs some;
    const uint32_t k = range(1, size == 0 ? 4 : 24);
    for (uint32_t i = 0; i < k; ++i) { KP x = all[draw((uint32_t)all.size())]; p.names.push_back(draw(6) == 5 ? x->compat : x->name); }
  }
  set_cwd("/sim/in");
  put_file("/sim/other.txt", textOf(p, size));
  mkdirs("/sim/in/tree");
  uint32_t budget = size == 0 ? 3 : 14;
  fill("/sim/in/tree", p, size, 0, budget);
  put_file("/sim/in/a.txt", textOf(p, size));
  if (size == 2 && odd && draw(80) == 79) { large("/sim/in/tree", p); probe("large input"); }
  g_args = {"kanjiStats", "-data", "/sim/d"};
  g_breakdown = g_verbose = false;
  std::vector<std::pair<Str, Str>> tops;
  const uint32_t nt = size == 0 ? 1 : range(1, 3);
  bool ended = false, help = false, illegal = false;
  Str ill;
  auto opt = [&] {
    static const Strs O{"-b", "-v", "-bv", "-h", "-", "-x"};
    const uint32_t k = draw(12);
    if (k == 1 || k == 3) g_args.push_back("-b"), g_breakdown |= !ended;
    else if (k == 2 || k == 4) g_args.push_back("-v"), g_verbose |= !ended;
    else if (odd && k == 5 && draw(4) == 3) { const Str x = pick(O); g_args.push_back(x); if (x == "-b") g_breakdown = true; else if (x == "-v") g_verbose = true; else if (x == "-h") help = true; else illegal = true, ill = x; }
  };
  for (uint32_t i = 0; i < nt && !help && !illegal; ++i) {
    if (!ended) opt();
    if (help || illegal) break;
    if (!ended && draw(6) == 5) { g_args.push_back("--"); ended = true; }
    Str t, a;
    switch (draw(odd ? 12 : 4)) {
    case 0: case 1: t = "tree"; a = "/sim/in/tree"; break;
    case 2: t = a = "/sim/other.txt"; break;
    case 3: t = "a.txt"; a = "/sim/in/a.txt"; break;
    case 4: t = "tree/"; a = "/sim/in/tree"; break;
    case 5: t = "./tree/."; a = "/sim/in/tree"; break;
    case 6: t = "tree/.."; a = "/sim/in"; break;
    case 7: if (!lookup("/sim/in/ln", false)) put_link("/sim/in/ln", draw(2) ? "tree" : "../other.txt"); t = "ln"; a = lookup("/sim/in/ln")->dir ? "/sim/in/tree" : "/sim/other.txt"; break;
    case 8: t = "/sim/in//tree"; a = "/sim/in/tree"; break;
    case 9: t = "none.txt"; a = "/sim/in/none.txt"; break;
    case 10: if (ended) { put_file("/sim/in/-b", textOf(p, size)); t = "-b"; a = "/sim/in/-b"; } else { t = "../other.txt"; a = "/sim/other.txt"; } break;
    default: t = "."; a = "/sim/in"; break;
    }
    g_args.push_back(t);
    tops.push_back({t, a});
  }
  if (odd && !ended && draw(30) == 29) { tops.clear(); while (g_args.size() > 3) g_args.pop_back(); g_breakdown = g_verbose = help = illegal = false; }
  g_dir_order_fixed = true;
  g_exp = {};
  g_alt.clear();
  if (help) { g_exp.out = "kanjiStats [-bhv] file [file ...]:\n  -b: show full Kanji breakdown for 'file' (instead of just a summary)\n  -h: show help message for command-line options\n  -v: show 'before' and 'after' versions of lines changed by Furigana removal\n"; return; }
  if (illegal) { g_exp.err = true; g_exp.why = "illegal option '" + ill + "' use -h for help"; return; }
  if (tops.empty()) { g_exp.err = true; g_exp.why = "please specify at least one option or '-h' for help"; return; }
  g_sorted = false;
  bool ok = true;
  for (auto& [t, a] : tops) if (ok) ok = reportOne(wd.m, t, a, g_exp);
  g_alt = g_exp.out;
  if (g_verbose) {
    Expect x;
    g_sorted = true;
    for (auto& [t, a] : tops) if (!reportOne(wd.m, t, a, x)) break;
    g_alt = x.out;
  }
}
static void note() { for (auto& a : g_args) event("arg %s", a.c_str()); }
static uint64_t inputHash() { uint64_t h = disk_hash(); for (auto& a : g_args) h = hash_str(a, h); return h; }

// the run must be the exact report, or (if something was made to fail) a clean failure
static void judge(const Result& r, bool mayFail, const char* wrong) {
  if (disk_modified()) violation("input-modified", "kanjiStats wrote to the disk");
  if (r.threw) violation("escaped-exception", "main threw %s", r.what.c_str());
  const Str &out = screen().out, &err = screen().err;
  if (r.status != 0 && mayFail && !g_exp.err) {
    if (err.empty()) violation("no-message", "exit status %d without a message", r.status);
    probe("failure reported");
    return;
  }
  if (mayFail && g_exp.err && r.status != 0) { if (err.empty()) violation("no-message", "exit status %d without a message", r.status); return; }
  if ((r.status != 0) != g_exp.err) violation(mayFail ? wrong : "wrong-status", "exit status %d; stderr: %s", r.status, clip(err).c_str());
  if (out != g_exp.out && (g_alt.empty() || out != g_alt)) violation(wrong, "the report is not the one for the input: %s", diff(g_exp.out, out).c_str());
  if (g_exp.err && err != g_exp.why + "\n") violation("wrong-message", "expected message '%s', got '%s'", g_exp.why.c_str(), clip(err).c_str());
  if (!g_exp.err && !err.empty()) { // data warnings go to stderr; nothing else may
    for (auto& l : split(err, '\n')) if (l.find("ERROR[") == Str::npos) violation("unexpected-message", "stderr: %s", clip(err).c_str());
  }
}

static void run_C01() {
  set_step_limit(1'500'000'000);
  setup(draw(4) == 3 ? 1 : 0, false);
  note();
  enable_threads(true);
  draw_strategy();
  if (draw(3) == 2) set_rate(F_SPURIOUS_WAKE, 20000);
  if (draw(4) == 3) set_rate(F_SHORT_READ, 20000);
  const auto r = run_program(g_args, run_stats_main);
  distinct("interleaving", sched_hash());
  if (threads_created() > 1) probe("report made by several threads");
  judge(r, false, "wrong-report");
}
static void run_C02() {
  set_step_limit(1'500'000'000);
  setup(draw(3) == 0 ? 1 : 2, true);
  note();
  enable_threads(true);
  set_strategy(S_NONE, 0, 0, 0);
  if (draw(2)) { set_rate(F_SHORT_READ, draw(2) ? 3000 : 40000); set_rate(F_EINTR_READ, draw(3) == 2 ? 6000 : 0); }
  if (draw(2)) set_rate(F_DIR_ORDER, 65536);
  if (draw(3) == 2) set_rate(F_DTYPE_UNKNOWN, 32768);
  if (draw(3) == 2) { each_file(lookup("/sim/in"), "", [](const Str&, Node* n) { n->readonly = true; }); fired(F_READONLY_FILE); }
  distinct("input", inputHash());
  const auto r = run_program(g_args, run_stats_main);
  judge(r, any_fired({F_EINTR_READ}), "wrong-report"); // an interrupted read may be reported as one that failed
  const Str& o = g_exp.out;
  if (o.find("Furigana Removed: 0") == Str::npos && o.find("Furigana Removed") != Str::npos) probe("furigana removed");
  if (o.find("directories)") != Str::npos) probe("several directories");
  if (o.find("Unrecognized") != Str::npos) probe("unrecognized characters");
  if (o.find("Breakdown for 'Common") != Str::npos) probe("breakdown");
  if (o.find("Errors:") != Str::npos) probe("malformed text");
  if (o.find("Tag '") != Str::npos) probe("replacements shown");
  if (g_exp.err) probe("refused command line");
}
static void run_C03() {
  set_step_limit(1'500'000'000);
  const bool large = draw(3) == 2;
  setup(large ? 2 : 1, false);
  note();
  enable_threads(true);
  if (!large && draw(2)) draw_strategy(); else set_strategy(S_NONE, 0, 0, 0);
  if (draw(2)) { set_rate(F_SHORT_READ, draw(2) ? 3000 : 40000); set_rate(F_EINTR_READ, draw(3) == 2 ? 6000 : 0); }
  if (draw(2)) set_rate(F_DIR_ORDER, 65536);
  if (draw(3) == 2) set_rate(F_DTYPE_UNKNOWN, 32768);
  // reads of the data directory come first: 40 opens or so, a few hundred reads
  std::vector<Node*> fs, ds;
  std::function<void(Node*)> go = [&](Node* n) { (n->dir ? ds : fs).push_back(n); for (auto* k : n->kids) if (!k->link) go(k); };
  go(lookup("/sim/in"));
  fs.push_back(lookup("/sim/other.txt"));
  const uint32_t base = 36, kind = draw(9);
  switch (kind) {
  case 0: { Node* n = pick(fs); n->bad_off = (int64_t)draw((uint32_t)n->data.size() + 1); break; }
  case 1: pick(fs)->unreadable = true; break;
  case 2: pick(ds)->unreadable = true; break;
  case 3: set_nth(F_OPEN_FAIL, range(base, base + 90), draw(3) == 2 ? 1000 : 1); break;
  case 4: set_nth(F_STAT_FAIL, range(50, 400), draw(3) == 2 ? 1000 : 1); break;
  case 5: set_nth(F_OPENDIR_FAIL, range(1, 40), draw(3) == 2 ? 1000 : 1); break;
  case 6: set_nth(F_READDIR_FAIL, range(30, 160), draw(3) == 2 ? 1000 : 1); break;
  case 7: set_nth(F_EIO_READ, range(60, 300), draw(3) == 2 ? 1000 : 1); break;
  default: set_rate(draw(2) ? F_EIO_READ : F_OPEN_FAIL, 400); break;
  }
  distinct("fault plan", inputHash() ^ kind << 8);
  const auto r = run_program(g_args, run_stats_main);
  const bool f = any_fired({F_EINTR_READ, F_EIO_READ, F_BAD_SECTOR, F_UNREADABLE_FILE, F_OPEN_FAIL, F_STAT_FAIL, F_OPENDIR_FAIL, F_READDIR_FAIL});
  if (f && r.status == 0) probe("exact report in spite of a failure");
  judge(r, f, f ? "silent-partial" : "wrong-report");
}
static void run_C04() {
  set_step_limit(1'500'000'000);
  setup(draw(3) == 2 ? 1 : 0, false);
  note();
  enable_threads(true);
  draw_strategy();
  const uint32_t kind = draw(4);
  if (kind == 0) set_nth(F_THREAD_EAGAIN, range(1, 20), draw(3) == 2 ? 1000 : 1);
  else if (kind == 1) set_rate(F_THREAD_EAGAIN, 8000);
  else {
    // loading the data makes most of the allocations: aim at the counting half the time
    const uint32_t base = g_world->big == 2 ? 8000 : g_world->big ? 3000 : 1700;
    set_alloc_window(1 + (draw(3) ? base + draw(1200) : draw(base)), draw(3) == 2 ? 50 : 1);
  }
  const auto r = run_program(g_args, run_stats_main);
  event("allocations %llu", (unsigned long long)alloc_count());
  const bool f = any_fired({F_THREAD_EAGAIN, F_BAD_ALLOC});
  distinct("failure point", inputHash() ^ sched_hash());
  if (any_fired({F_THREAD_EAGAIN})) probe("thread could not be started");
  if (any_fired({F_BAD_ALLOC})) probe("out of memory");
  if (f && r.status == 0) probe("exact report in spite of a failure");
  judge(r, f, f ? "silent-partial" : "wrong-report");
}
PROPS({"C01", warm, run_C01}, {"C02", warm, run_C02}, {"C03", warm, run_C03}, {"C04", warm, run_C04})

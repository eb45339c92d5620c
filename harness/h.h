// shared by the harnesses: program entry points, UTF-8 helpers, text tokens
#pragma once
#include "sim/rt.h"
#include <algorithm>
#include <cstring>
#include <string>
#include <vector>
using namespace sim;
using Str = std::string;
using Strs = std::vector<Str>;
// the programs' own main functions (renamed when compiled); either spelling of argv
#define KT_MAIN(N)                                                     \
  __attribute__((weak)) int N(int, const char**);                      \
  __attribute__((weak)) int N(int, char**);                            \
  inline int run_##N(int c, const char** v) {                          \
    int (*a)(int, const char**) = N;                                   \
    int (*b)(int, char**) = N;                                         \
    return a ? a(c, v) : b(c, const_cast<char**>(v));                  \
  }
KT_MAIN(convert_main)
KT_MAIN(format_main)
KT_MAIN(quiz_main)
KT_MAIN(stats_main)

inline Str u8(uint32_t c) {
  Str s;
  if (c < 0x80) s += (char)c;
  else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  return s;
}
inline uint32_t u8len(unsigned char c) { return c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; }
inline std::vector<uint32_t> cps(const Str& s) { // valid UTF-8 only
  std::vector<uint32_t> r;
  for (size_t i = 0; i < s.size();) {
    const unsigned char c = (unsigned char)s[i];
    const uint32_t n = u8len(c);
    uint32_t v = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
    for (uint32_t k = 1; k < n && i + k < s.size(); ++k) v = v << 6 | ((unsigned char)s[i + k] & 63);
    r.push_back(v);
    i += n;
  }
  return r;
}
inline bool in(uint32_t c, uint32_t a, uint32_t b) { return c >= a && c <= b; }
inline bool isKanjiRangeCp(uint32_t c) { // what the documentation calls KanjiRange
  return in(c, 0x3400, 0x4dbf) || in(c, 0x4e00, 0x9fff) || in(c, 0xf900, 0xfaff) || in(c, 0x20000, 0x2a6df) ||
         in(c, 0xfe00, 0xfe0f) || in(c, 0x2e80, 0x2eff) || in(c, 0x2a700, 0x2ebef) || in(c, 0x2f800, 0x2fa1f) || in(c, 0x30000, 0x3134f);
}
inline bool isKanaCp(uint32_t c) { return in(c, 0x3040, 0x30ff) || in(c, 0x31f0, 0x31ff); }
inline Str clip(const Str& s, size_t n = 900) { return s.size() <= n ? s : s.substr(0, n / 2) + " ...[" + std::to_string(s.size() - n) + " bytes]... " + s.substr(s.size() - n / 2); }
inline Str diff(const Str& want, const Str& got) {
  size_t i = 0;
  while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
  while (i && i < want.size() && ((unsigned char)want[i] & 0xc0) == 0x80) --i;
  size_t ln = 1 + (size_t)std::count(want.begin(), want.begin() + (long)std::min(i, want.size()), '\n');
  const size_t b = i > 60 ? i - 60 : 0;
  auto cut = [&](const Str& s) { return b < s.size() ? s.substr(b, 200) : Str{}; };
  return "first difference at byte " + std::to_string(i) + " (line " + std::to_string(ln) + "); expected ..." + cut(want) + "... got ..." + cut(got) + "...";
}
#define PROPS(...) const Prop g_props[] = {__VA_ARGS__}; const int g_nprops = sizeof g_props / sizeof *g_props;

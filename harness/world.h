// Synthetic Kanji data sets, and an independent model of what loading them means.
#pragma once
#include "h.h"
#include <array>
#include <cerrno>
#include <map>
#include <memory>
#include <optional>
#include <set>
namespace w {

struct Rng { // private generator of the data sets (not the run's choice tape)
  uint64_t s;
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; }
  uint32_t n(uint32_t k) { return k ? (uint32_t)(next() % k) : 0; }
  uint32_t r(uint32_t a, uint32_t b) { return a + n(b - a + 1); }
  bool p(uint32_t num, uint32_t den) { return n(den) < num; }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[n((uint32_t)v.size())]; }
  template <typename T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[n((uint32_t)i)]); }
};

// ---- small text helpers --------------------------------------------------------
inline Strs split(const Str& s, char d) { // like repeated getline
  Strs r;
  size_t i = 0;
  while (i < s.size()) {
    const size_t j = s.find(d, i);
    if (j == Str::npos) { r.push_back(s.substr(i)); break; }
    r.push_back(s.substr(i, j - i));
    i = j + 1;
  }
  return r;
}
inline Str join(const Strs& v, const Str& d) { Str r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += d; r += v[i]; } return r; }
inline Str hex4(uint32_t c) { char b[16]; snprintf(b, sizeof b, "%04X", c); return b; }
inline Str num(uint64_t n) { return std::to_string(n); }
// one strict decoding step: length of a valid multi-byte sequence at s[i], 0 if none
inline size_t mbLen(const Str& s, size_t i, uint32_t* cp = nullptr) {
  const auto b = [&](size_t k) -> unsigned { return k < s.size() ? (unsigned char)s[k] : 0; };
  const unsigned c = b(i);
  const auto cont = [&](size_t k) { return (b(k) & 0xc0) == 0x80; };
  uint32_t v{};
  size_t n{};
  if (c >= 0xc2 && c < 0xe0) { if (!cont(i + 1)) return 0; n = 2; v = (c & 31) << 6 | (b(i + 1) & 63); }
  else if (c >= 0xe0 && c < 0xf0) { if (!cont(i + 1) || !cont(i + 2)) return 0; n = 3; v = (c & 15) << 12 | (b(i + 1) & 63) << 6 | (b(i + 2) & 63); if (v < 0x800 || (v >= 0xd800 && v < 0xe000)) return 0; }
  else if (c >= 0xf0 && c < 0xf8) { if (!cont(i + 1) || !cont(i + 2) || !cont(i + 3)) return 0; n = 4; v = (c & 7) << 18 | (b(i + 1) & 63) << 12 | (b(i + 2) & 63) << 6 | (b(i + 3) & 63); if (v < 0x10000 || v > 0x10ffff) return 0; }
  else return 0;
  if (cp) *cp = v;
  return n;
}
inline bool isVS(uint32_t c) { return in(c, 0xfe00, 0xfe0f); }
// first code point the way the program decodes it (an error gives U+FFFD)
inline uint32_t firstCp(const Str& s) { if (s.empty()) return 0; if (!((unsigned char)s[0] & 0x80)) return (unsigned char)s[0]; uint32_t c; return mbLen(s, 0, &c) ? c : 0xfffd; }
inline bool commonKanjiCp(uint32_t c) { return in(c, 0x3400, 0x4dbf) || in(c, 0x4e00, 0x9fff) || in(c, 0xf900, 0xfaff) || in(c, 0x20000, 0x2a6df); }
inline bool rareKanjiCp(uint32_t c) { return in(c, 0x2e80, 0x2eff) || in(c, 0x2a700, 0x2ebef) || in(c, 0x2f800, 0x2fa1f) || in(c, 0x30000, 0x3134f); }
inline bool oneChar(const Str& s, uint32_t& cp) { // a single character, possibly with a following non-spacing one
  const size_t n = mbLen(s, 0, &cp);
  if (!n) return false;
  if (n == s.size()) return true;
  uint32_t c2;
  const size_t m = mbLen(s, n, &c2);
  return m && n + m == s.size() && (isVS(c2) || c2 == 0x3099 || c2 == 0x309a);
}
inline bool kanjiStr(const Str& s) { uint32_t c; return oneChar(s, c) && (commonKanjiCp(c) || rareKanjiCp(c)); }
inline Str baseOf(const Str& s) { // without variation selector
  if (s.size() >= 5 && s.size() <= 7) { uint32_t c; if (mbLen(s, s.size() - 3, &c) == 3 && isVS(c)) return s.substr(0, s.size() - 3); }
  return s;
}
inline bool hasVS(const Str& s) { return baseOf(s).size() != s.size(); }
inline Str toHira(const Str& k) { Str r; for (auto c : cps(k)) r += u8(in(c, 0x30a1, 0x30f6) ? c - 0x60 : c); return r; }

// ---- kana <-> romaji for the readings in the Unicode file ------------------------
struct Syl { const char* rom; const char* kata; };
inline const std::vector<Syl>& syllables() {
  static const std::vector<Syl> v{{"a", "ア"}, {"i", "イ"}, {"u", "ウ"}, {"e", "エ"}, {"o", "オ"}, {"ka", "カ"}, {"ki", "キ"}, {"ku", "ク"}, {"ke", "ケ"}, {"ko", "コ"}, {"sa", "サ"}, {"shi", "シ"}, {"su", "ス"}, {"se", "セ"}, {"so", "ソ"}, {"ta", "タ"}, {"chi", "チ"}, {"tsu", "ツ"}, {"te", "テ"}, {"to", "ト"}, {"na", "ナ"}, {"ni", "ニ"}, {"nu", "ヌ"}, {"ne", "ネ"}, {"no", "ノ"}, {"ha", "ハ"}, {"hi", "ヒ"}, {"fu", "フ"}, {"he", "ヘ"}, {"ho", "ホ"}, {"ma", "マ"}, {"mi", "ミ"}, {"mu", "ム"}, {"me", "メ"}, {"mo", "モ"}, {"ya", "ヤ"}, {"yu", "ユ"}, {"yo", "ヨ"}, {"ra", "ラ"}, {"ri", "リ"}, {"ru", "ル"}, {"re", "レ"}, {"ro", "ロ"}, {"wa", "ワ"}, {"ga", "ガ"}, {"gi", "ギ"}, {"gu", "グ"}, {"go", "ゴ"}, {"za", "ザ"}, {"ji", "ジ"}, {"zu", "ズ"}, {"da", "ダ"}, {"do", "ド"}, {"ba", "バ"}, {"bi", "ビ"}, {"bo", "ボ"}, {"kya", "キャ"}, {"kyo", "キョ"}, {"sha", "シャ"}, {"sho", "ショ"}, {"cha", "チャ"}, {"cho", "チョ"}, {"ryo", "リョ"}, {"ryu", "リュ"}};
  return v;
}
// romaji list ("KA KU") to katakana joined by the kana comma; nullopt if not plain
inline std::optional<Str> romToKata(const Str& s) {
  Str r, t;
  for (char c : s) t += (char)(c >= 'A' && c <= 'Z' ? c + 32 : c);
  for (size_t i = 0; i < t.size();) {
    if (t[i] == ' ' || t[i] == ',') { r += "、"; ++i; continue; }
    bool ok = false;
    for (size_t n = 3; n && !ok; --n)
      for (auto& y : syllables())
        if (strlen(y.rom) == n && !t.compare(i, n, y.rom)) { r += y.kata; i += n; ok = true; break; }
    if (ok) continue;
    if (t[i] == 'n' && (i + 1 == t.size() || t[i + 1] == ' ' || t[i + 1] == ',')) { r += "ン"; ++i; continue; }
    return {};
  }
  return r;
}

// ---- model of loaded data -----------------------------------------------------------
enum Type { Jouyou, Jinmei, LinkedJinmei, LinkedOld, Frequency, Extra, Kentei, UcdT, NoType };
inline const char* const TypeName[]{"Jouyou", "Jinmei", "LinkedJinmei", "LinkedOld", "Frequency", "Extra", "Kentei", "Ucd"};
inline const char* const GradeName[]{"G1", "G2", "G3", "G4", "G5", "G6", "S"};
inline const char* const LevelName[]{"N5", "N4", "N3", "N2", "N1"};
inline const char* const KyuName[]{"K10", "K9", "K8", "K7", "K6", "K5", "K4", "K3", "KJ2", "K2", "KJ1", "K1"};
inline const char* const ReasonName[]{"Names", "Print", "Variant", "Moved", "Simple", "Other"};
inline const char* const LinkTypeName[]{"Compatibility*", "Definition*", "Jinmei*", "Semantic*", "Simplified*", "Traditional*", "Compatibility", "Definition", "Jinmei", "Simplified", "Traditional"};
enum InfoBits { I_Rad = 1, I_Str = 2, I_Pin = 4, I_Grade = 8, I_Level = 16, I_Freq = 32, I_New = 64, I_Old = 128, I_Kyu = 256, I_All = 511 };
inline const Str Legend{".=常用 '=JLPT \"=Freq ^=人名用 ~=LinkJ %=LinkO +=Extra @=検定 #=1級 *=Ucd"};

struct Moro { uint32_t id{}; int kind{}; bool operator<(const Moro& o) const { return id != o.id ? id < o.id : kind < o.kind; } bool operator==(const Moro& o) const { return id == o.id && kind == o.kind; }
  Str str() const { Str s = id ? num(id) : ""; return kind == 1 ? s + "P" : kind == 2 ? s + "PP" : kind == 3 ? "H" + s : s; } };
struct Ucd {
  uint32_t code{}, radical{}, strokes{}, vstrokes{};
  Str name, block, version, pinyin, nelson, sources, jsource, meaning, on, kun;
  Moro moro;
  bool joyo{}, jinmei{};
  Strs links; int linkType{-1};
  bool trad() const { return linkType == 5 || linkType == 10; }
};
struct Rad { uint32_t number{}; Str name, longName, reading; Strs alt; };
struct K {
  Str name, compat, pinyin, meaning, reading;
  Type type{NoType};
  Rad rad;
  uint32_t strokes{}, vstrokes{}, freq{}, year{}, number{};
  int grade{-1}, kyu{-1}, level{-1}, reason{-1};
  Moro moro;
  std::vector<uint32_t> nelson;
  Strs oldNames;
  std::optional<Str> newName;
  bool linkedReadings{}, readingKnown{true};
  const K* link{};
  const K& lk() const { return link ? *link : *this; }
  Str rd() const { return lk().reading; }
  Str mean() const { return lk().meaning; }
  uint32_t freqMax() const { return freq ? freq : 65535; }
  int rank() const { return type == Jouyou ? 0 : level >= 0 ? 1 : freq ? 2 : type == Jinmei ? 3 : type == LinkedJinmei ? 4 : type == LinkedOld ? 5 : type == Extra ? 6 : type == UcdT ? 9 : kyu != 11 ? 7 : 8; }
  Str qual() const { return name + ".'\"^~%+@#*"[rank()]; }
  Str info(int f = I_All) const {
    Strs v;
    if (f & I_Rad) v.push_back("Rad " + rad.name + "(" + num(rad.number) + ")");
    if (f & I_Str) v.push_back("Strokes " + num(strokes));
    if (f & I_Pin && !pinyin.empty()) v.push_back(pinyin);
    if (f & I_Grade && grade >= 0) v.push_back(GradeName[grade]);
    if (f & I_Level && level >= 0) v.push_back(LevelName[level]);
    if (f & I_Freq && freq) v.push_back("Frq " + num(freq));
    if (newName) { if (f & I_New) v.push_back("New " + *newName + (linkedReadings ? "*" : "")); }
    else if (f & I_Old && !oldNames.empty()) { Str s = oldNames[0] + (linkedReadings ? "*" : ""); for (size_t i = 1; i < oldNames.size(); ++i) s += "／" + oldNames[i]; v.push_back("Old " + s); }
    if (f & I_Kyu && kyu >= 0) v.push_back(KyuName[kyu]);
    return join(v, ", ");
  }
  std::optional<Str> extra() const {
    if (type != Jouyou && type != Jinmei && type != Extra) return {};
    Str s = "#" + num(number);
    if (type != Extra && year) s += " " + num(year);
    if (type == Jinmei) s += Str(" [") + ReasonName[reason] + "]";
    return s;
  }
  Str typeInfo() const { Str s = Str(", ") + TypeName[type]; if (auto e = extra()) s += " (" + *e + ")"; return s; }
};
using KP = const K*;
struct Grp { uint32_t number{}; Str name; std::vector<KP> members; int pattern{3}; // 0 family 1 peer 2 reading 3 none
  Str header() const { return (pattern == 1 ? "[Peers " + members[0]->name : Str("[")) + name + "]"; } };
struct Juk { Str name, reading; int grade; Str str() const { return name + "（" + reading + "）"; } };
struct Refuse { Str why; };

inline Str uni(const Str& s) { Strs v; for (auto c : cps(s)) v.push_back(hex4(c)); return join(v, " "); }
inline bool byStrokes(const K& a, const K& b) {
  if (a.strokes != b.strokes) return a.strokes < b.strokes;
  if (a.vstrokes != b.vstrokes) return a.vstrokes < b.vstrokes;
  if (a.freqMax() != b.freqMax()) return a.freqMax() < b.freqMax();
  return uni(a.compat) < uni(b.compat);
}
inline bool byQual(KP a, KP b) { return a->rank() != b->rank() ? a->rank() < b->rank() : byStrokes(*a, *b); }

using Files = std::map<Str, Str>; // path below the data directory -> contents

struct Model {
  std::map<Str, Ucd> ucd;
  std::vector<Rad> rads;
  std::map<Str, size_t> radByName;
  std::map<Str, Str> linkedJinmei; // base name -> jinmei name
  std::map<Str, std::unique_ptr<K>> owned; // insertion-independent storage, by name
  std::vector<std::unique_ptr<K>> dupes;   // entries that lost a name clash but stay in a type list
  std::map<Str, KP> names;
  std::map<Str, Str> compat;
  std::array<std::vector<KP>, 8> types;
  std::array<std::vector<KP>, 7> grades;
  std::array<std::vector<KP>, 5> levels;
  std::array<std::vector<KP>, 12> kyus;
  std::array<std::vector<KP>, 10> freqs;
  std::map<Moro, std::vector<KP>> moro;
  std::map<uint32_t, std::vector<KP>> nelson;
  std::vector<KP> byFreq; // index 0 = frequency 1
  std::vector<Grp> meaning, pattern;
  std::multimap<Str, size_t> meaningOf; // kanji -> index in meaning
  std::map<Str, size_t> patternOf;
  std::map<Str, std::vector<Juk>> jukugo;
  uint32_t maxFreq{}; // one more than the highest frequency (0 if none)
  uint32_t sanityErrors{};
  std::map<Str, uint32_t> freqIdx; std::map<Str, int> levelIdx, kyuIdx; // raw lists

  KP find(const Str& s) const { auto i = compat.find(s); auto j = names.find(i == compat.end() ? s : i->second); return j == names.end() ? nullptr : j->second; }
  const Ucd* findUcd(const Str& s) const {
    Str r = s;
    if (hasVS(s)) { auto i = linkedJinmei.find(baseOf(s)); if (i == linkedJinmei.end()) return nullptr; r = i->second; }
    auto i = ucd.find(r);
    return i == ucd.end() ? nullptr : &i->second;
  }
  void load(const Files& f, bool quiz = true);
  static Moro toMoro(const Str& s);

private:
  [[noreturn]] static void refuse(const Str& s) { throw Refuse{s}; }
  struct Table { std::vector<Strs> rows; std::map<Str, size_t> col;
    const Str& get(const Strs& r, const char* c) const { return r[col.at(c)]; } };
  static Table table(const Str& text, const Strs& cols);
  static uint64_t toNum(const Str& s, uint64_t max);
  static uint32_t toCode(const Str& s);
  static Strs lines(const Str& t) { return split(t, '\n'); }
  KP insert(std::unique_ptr<K> k, bool& ok, const Ucd* known = nullptr);
  void base(K& k, const Ucd* u, bool needUcd) const;
  std::optional<Str> ucdReading(const Ucd* u) const;
  void other(K& k, const Ucd* u, const Str* reading) const;
};

inline Model::Table Model::table(const Str& text, const Strs& cols) {
  Table t;
  const Strs ls = lines(text);
  if (ls.empty()) refuse("missing header row");
  const Strs head = split(ls[0], '\t');
  for (size_t i = 0; i < head.size(); ++i) {
    if (std::find(cols.begin(), cols.end(), head[i]) == cols.end()) refuse("unrecognized header");
    if (!t.col.emplace(head[i], i).second) refuse("duplicate header");
  }
  if (t.col.size() != cols.size()) refuse("column not found");
  for (size_t i = 1; i < ls.size(); ++i) {
    Strs v = split(ls[i], '\t');
    if (v.size() > cols.size()) refuse("too many columns");
    if (v.size() + 1 == cols.size() && (v.empty() ? ls[i].empty() : ls[i].back() == '\t')) v.push_back("");
    if (v.size() < cols.size()) refuse("not enough columns");
    t.rows.push_back(v);
  }
  return t;
}
inline uint64_t Model::toNum(const Str& s, uint64_t max) {
  const char* b = s.c_str();
  char* e;
  errno = 0;
  const unsigned long v = strtoul(b, &e, 10);
  if (e == b || errno == ERANGE) refuse("not a number '" + s + "'");
  if (max && v > max) refuse("number too big");
  return v;
}
inline Moro Model::toMoro(const Str& s) {
  Moro m;
  if (s.empty()) return m;
  auto ends = [&](const char* x) { const size_t n = strlen(x); return s.size() >= n && !s.compare(s.size() - n, n, x); };
  size_t a = 0, b = 0;
  if (ends("PP") || ends("''")) m.kind = 2, b = 2;
  else if (ends("P") || ends("'")) m.kind = 1, b = 1;
  else if (s[0] == 'H') m.kind = 3, a = 1;
  if (s.size() == a + b) refuse("morohashi");
  for (size_t i = a; i < s.size() - b; ++i) {
    if (s[i] < '0' || s[i] > '9') refuse("morohashi");
    m.id = m.id * 10 + (uint32_t)(s[i] - '0');
    if (m.id > 65535) refuse("morohashi");
  }
  if ((a || b) && !m.id) refuse("morohashi");
  return m;
}
inline uint32_t Model::toCode(const Str& s) {
  if (s.size() < 4 || s.size() > 5) refuse("code size");
  for (char c : s) if (!((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'))) refuse("code hex");
  return (uint32_t)strtoul(s.c_str(), nullptr, 16);
}
inline bool validOne(const Str& s) { return !s.empty() && mbLen(s, 0) == s.size(); }
inline std::optional<Str> Model::ucdReading(const Ucd* u) const {
  if (!u) return Str{};
  auto a = romToKata(u->on), b = romToKata(u->kun);
  if (!a || !b) return {};
  return *a + (u->kun.empty() ? "" : (a->empty() ? "" : "、") + toHira(*b));
}
inline void Model::base(K& k, const Ucd* u, bool needUcd) const {
  if (!u && needUcd) refuse("UCD entry not found: " + k.name);
  { // names are exactly one character
    size_t n = 0;
    for (size_t i = 0; i < k.name.size();) {
      uint32_t c;
      if (mbLen(k.name, i, &c) == 3 && (isVS(c) || c == 0x3099 || c == 0x309a)) { i += 3; continue; }
      n += ((unsigned char)k.name[i++] & 0xc0) == 0xc0;
    }
    if (n != 1) refuse("name is not one character");
  }
  k.compat = u && u->name != k.name ? u->name : k.name;
  if (!u) return;
  k.pinyin = u->pinyin;
  k.moro = u->moro;
  Str s = u->nelson;
  std::replace(s.begin(), s.end(), ',', ' ');
  for (const char* p = s.c_str();;) {
    while (*p == ' ') ++p;
    char* e;
    const bool neg = *p == '-';
    if (neg || *p == '+') ++p;
    if (*p < '0' || *p > '9') break;
    const unsigned long v = strtoul(p, &e, 10);
    if (v > 65535) break;
    k.nelson.push_back((uint32_t)(neg ? (65536 - v) & 0xffff : v)); // as the streams library reads it
    p = e;
  }
}
inline KP Model::insert(std::unique_ptr<K> k, bool& ok, const Ucd* known) {
  const Str name = k->name;
  KP p = k.get();
  ok = names.emplace(name, p).second;
  if (!ok) { ++sanityErrors; dupes.push_back(std::move(k)); return p; }
  owned[name] = std::move(k);
  const Ucd* u = known ? known : findUcd(name);
  if (!u) ++sanityErrors;
  else if (p->type == Jouyou && !u->joyo) ++sanityErrors;
  else if ((p->type == Jinmei || p->type == LinkedJinmei) && !u->jinmei) ++sanityErrors;
  else if (p->type == LinkedJinmei && u->links.empty()) ++sanityErrors;
  if (p->grade >= 0) grades[(size_t)p->grade].push_back(p);
  if (hasVS(name) && !compat.emplace(p->compat, name).second) ++sanityErrors;
  if (p->moro.id) moro[p->moro].push_back(p);
  for (auto i : p->nelson) nelson[i].push_back(p);
  return p;
}
inline void Model::other(K& k, const Ucd* u, const Str* reading) const {
  base(k, u, true);
  if (u->radical > rads.size()) refuse("radical number");
  k.rad = rads[u->radical - 1];
  k.strokes = u->strokes; k.vstrokes = u->vstrokes;
  k.meaning = u->meaning;
  if (reading) k.reading = *reading;
  else if (auto r = ucdReading(u)) k.reading = *r;
  else k.readingKnown = false;
  if (!u->links.empty()) { if (u->trad()) k.oldNames = u->links; else k.newName = u->links[0]; }
  k.linkedReadings = u->linkType >= 0 && u->linkType < 6;
}

inline void Model::load(const Files& f, bool quiz) {
  auto text = [&](const Str& n) -> const Str& { auto i = f.find(n); if (i == f.end()) refuse("missing " + n); return i->second; };
  // -- lists
  auto list = [&](const Str& n, bool one, std::set<Str>& seen) {
    Strs r;
    std::set<Str> mine;
    bool dup = false;
    for (auto& l : lines(text(n)))
      for (auto& t : split(l, ' ')) {
        if (one && t != l) refuse("multiple tokens");
        if (!validOne(t.c_str())) refuse("invalid token");
        if (!mine.insert(t).second) refuse("duplicate");
        if (!seen.insert(t).second) { dup = true; mine.erase(t); } else r.push_back(t);
      }
    if (dup) refuse("duplicates across lists");
    return r;
  };
  std::set<Str> s1, s2, s3;
  std::array<Strs, 5> lv;
  std::array<Strs, 12> ky;
  for (size_t i = 0; i < 5; ++i) { Str n = LevelName[i]; n[0] = 'n'; lv[i] = list("jlpt/" + n + ".txt", false, s1); for (auto& k : lv[i]) levelIdx.emplace(k, (int)i); }
  for (size_t i = 0; i < 12; ++i) { Str n = KyuName[i]; n[0] = 'k'; ky[i] = list("kentei/" + n + ".txt", false, s2); for (auto& k : ky[i]) kyuIdx.emplace(k, (int)i); }
  const Strs fq = list("frequency.txt", true, s3);
  for (size_t i = 0; i < fq.size(); ++i) freqIdx[fq[i]] = (uint32_t)i + 1;
  auto lvl = [&](const Str& n) { auto i = levelIdx.find(n); return i == levelIdx.end() ? -1 : i->second; };
  auto kyu = [&](const Str& n) { auto i = kyuIdx.find(n); return i == kyuIdx.end() ? -1 : i->second; };
  auto frq = [&](const Str& n) { auto i = freqIdx.find(n); return i == freqIdx.end() ? 0u : i->second; };
  // -- ucd
  {
    const Table t = table(text("ucd.txt"), {"Code", "Name", "Block", "Version", "Radical", "Strokes", "VStrokes", "Pinyin", "MorohashiId", "NelsonIds", "Sources", "JSource", "Joyo", "Jinmei", "LinkCodes", "LinkNames", "LinkType", "Meaning", "On", "Kun", "Japanese"});
    for (auto& r : t.rows) {
      auto g = [&](const char* c) -> const Str& { return t.get(r, c); };
      auto b = [&](const char* c) { const Str& s = g(c); if (s == "Y" || s == "T") return true; if (!s.empty() && s != "N" && s != "F") refuse("bool"); return false; };
      Ucd u;
      u.name = g("Name"); u.on = g("On"); u.kun = g("Kun"); u.meaning = g("Meaning"); u.jsource = g("JSource");
      if (u.on.empty() && u.kun.empty() && g("MorohashiId").empty() && u.jsource.empty()) refuse("ucd needs reading or id");
      if (u.name.size() > 4) refuse("ucd name size");
      const uint64_t rad = toNum(g("Radical"), 0);
      if (rad < 1 || rad > 214) refuse("ucd radical");
      u.radical = (uint32_t)rad;
      u.joyo = b("Joyo"); u.jinmei = b("Jinmei");
      if (u.joyo && (u.jinmei || u.meaning.empty())) refuse("ucd joyo");
      if (!g("LinkNames").empty()) {
        const Strs n = split(g("LinkNames"), ','), c = split(g("LinkCodes"), ',');
        for (size_t i = 0; i < n.size(); ++i) {
          if (i >= c.size()) refuse("link codes");
          if (toCode(c[i]) != firstCp(n[i]) || !kanjiStr(n[i])) refuse("link code");
          u.links.push_back(n[i]);
        }
        if (u.joyo || g("LinkType").empty()) refuse("links");
      } else if (!g("LinkType").empty() || !g("LinkCodes").empty()) refuse("link type");
      for (auto& l : u.links)
        if (u.jinmei && !linkedJinmei.emplace(l, u.name).second) refuse("jinmei link");
      u.strokes = (uint32_t)toNum(g("Strokes"), 255);
      if (!g("VStrokes").empty()) {
        u.vstrokes = (uint32_t)toNum(g("VStrokes"), 255);
        if (u.strokes < 2 || u.strokes > 64 || u.vstrokes < 3 || u.vstrokes > 33 || u.strokes == u.vstrokes) refuse("strokes");
      } else if (!u.strokes || u.strokes > 64) refuse("strokes");
      u.code = toCode(g("Code"));
      if (!kanjiStr(u.name) || u.code != firstCp(u.name)) refuse("ucd name");
      u.block = g("Block"); u.version = g("Version"); u.pinyin = g("Pinyin"); u.nelson = g("NelsonIds");
      u.moro = toMoro(g("MorohashiId"));
      if (g("Sources").size() > 6) refuse("sources");
      for (char c : Str("GHJKTV")) {
        const auto n = std::count(g("Sources").begin(), g("Sources").end(), c);
        if (n > 1) refuse("sources");
        if (n) u.sources += c;
      }
      if (u.sources.size() != g("Sources").size()) refuse("sources");
      if (!g("LinkType").empty()) {
        for (int i = 0; i < 11; ++i) if (g("LinkType") == LinkTypeName[i]) u.linkType = i;
        if (u.linkType < 0) refuse("link type name");
      }
      if (!ucd.emplace(u.name, u).second) refuse("duplicate ucd");
    }
  }
  // -- radicals
  {
    const Table t = table(text("radicals.txt"), {"Number", "Name", "LongName", "Reading"});
    for (auto& r : t.rows) {
      Rad x;
      x.number = (uint32_t)toNum(t.get(r, "Number"), 255);
      if (x.number != rads.size() + 1) refuse("radical order");
      for (auto& k : split(t.get(r, "Name"), ' ')) if (x.name.empty()) x.name = k; else x.alt.push_back(k);
      x.longName = t.get(r, "LongName"); x.reading = t.get(r, "Reading");
      radByName[x.name] = rads.size();
      rads.push_back(x);
    }
  }
  std::map<Str, Str> freqReading;
  {
    const Table t = table(text("frequency-readings.txt"), {"Name", "Reading"});
    for (auto& r : t.rows) if (!freqReading.emplace(t.get(r, "Name"), t.get(r, "Reading")).second) refuse("duplicate name");
  }
  bool ok;
  auto numbered = [&](K& k, const Table& t, const Strs& r, bool needUcd) {
    k.name = t.get(r, "Name");
    const Ucd* u = findUcd(k.name);
    base(k, u, needUcd);
    if (rads.empty()) refuse("no radicals");
    auto i = radByName.find(t.get(r, "Radical"));
    if (i == radByName.end()) refuse("radical name");
    k.rad = rads[i->second];
    k.reading = t.get(r, "Reading");
    k.number = (uint32_t)toNum(t.get(r, "Number"), 65535);
    k.kyu = kyu(k.name);
    return u;
  };
  auto strokes = [&](K& k, const Str& s) { k.strokes = (uint32_t)toNum(s, 255); if (!k.strokes || k.strokes > 64) refuse("strokes"); };
  { // jouyou: the whole file is read before anything is inserted
    const Table t = table(text("jouyou.txt"), {"Number", "Name", "Radical", "Reading", "OldNames", "Year", "Strokes", "Grade", "Meaning"});
    std::vector<std::unique_ptr<K>> v;
    for (auto& r : t.rows) {
      auto k = std::make_unique<K>();
      k->type = Jouyou;
      numbered(*k, t, r, false);
      strokes(*k, t.get(r, "Strokes"));
      k->meaning = t.get(r, "Meaning");
      k->oldNames = split(t.get(r, "OldNames"), ',');
      k->freq = frq(k->name); k->level = lvl(k->name);
      if (const Str& y = t.get(r, "Year"); !y.empty()) k->year = (uint32_t)toNum(y, 65535);
      Str g = t.get(r, "Grade");
      if (g.empty() || g[0] != 'S') g = "G" + g;
      for (int i = 0; i < 7; ++i) if (g == GradeName[i]) k->grade = i;
      if (k->grade < 0) refuse("grade");
      v.push_back(std::move(k));
    }
    for (auto& k : v) types[Jouyou].push_back(insert(std::move(k), ok));
  }
  auto linked = [&](Type ty, const Str& name, KP to) {
    if (to->type != Jouyou && (ty == LinkedOld || to->type != Jinmei)) refuse("link type");
    auto k = std::make_unique<K>();
    k->type = ty;
    k->name = name;
    const Ucd* u = findUcd(name);
    base(*k, u, true);
    if (u->radical > rads.size()) refuse("radical number");
    k->rad = rads[u->radical - 1];
    k->strokes = u->strokes; k->vstrokes = u->vstrokes;
    k->freq = frq(name); k->kyu = kyu(name);
    k->newName = to->name;
    k->linkedReadings = true;
    k->link = to;
    KP p = insert(std::move(k), ok);
    if (ok) types[ty].push_back(p);
  };
  for (auto& l : lines(text("linked-jinmei.txt"))) {
    const Strs v = split(l, '\t');
    if (v.size() < 2) refuse("bad line");
    auto i = names.find(v[0]);
    if (i == names.end()) refuse("not found");
    linked(LinkedJinmei, v[1], i->second);
  }
  for (auto i = names.begin(); i != names.end(); ++i) {
    const Strs old = i->second->oldNames;
    for (auto& j : old) if (!find(j)) linked(LinkedOld, j, i->second);
  }
  {
    const Table t = table(text("jinmei.txt"), {"Number", "Name", "Radical", "Reading", "OldNames", "Year", "Reason"});
    std::vector<std::unique_ptr<K>> v;
    for (auto& r : t.rows) {
      auto k = std::make_unique<K>();
      k->type = Jinmei;
      const Ucd* u = numbered(*k, t, r, true);
      k->strokes = u->strokes; k->vstrokes = u->vstrokes; k->meaning = u->meaning;
      k->oldNames = split(t.get(r, "OldNames"), ',');
      k->freq = frq(k->name); k->level = lvl(k->name);
      if (const Str& y = t.get(r, "Year"); !y.empty()) k->year = (uint32_t)toNum(y, 65535);
      for (int i = 0; i < 6; ++i) if (t.get(r, "Reason") == ReasonName[i]) k->reason = i;
      if (k->reason < 0) refuse("reason");
      v.push_back(std::move(k));
    }
    for (auto& k : v) {
      const Strs old = k->oldNames;
      KP p = insert(std::move(k), ok);
      types[Jinmei].push_back(p);
      for (auto& j : old) linked(LinkedJinmei, j, p);
    }
  }
  {
    const Table t = table(text("extra.txt"), {"Number", "Name", "Radical", "Reading", "Strokes", "Meaning"});
    std::vector<std::unique_ptr<K>> v;
    for (auto& r : t.rows) {
      auto k = std::make_unique<K>();
      k->type = Extra;
      const Ucd* u = numbered(*k, t, r, false);
      strokes(*k, t.get(r, "Strokes"));
      k->meaning = t.get(r, "Meaning");
      if (u && !u->links.empty()) { if (u->trad()) k->oldNames = u->links; else k->newName = u->links[0]; }
      v.push_back(std::move(k));
    }
    for (auto& k : v) types[Extra].push_back(insert(std::move(k), ok));
  }
  auto process = [&](const Strs& l, bool kentei, int level, int kyuNo) {
    for (size_t i = 0; i < l.size(); ++i) {
      KP p = find(l[i]);
      if (!p) {
        auto k = std::make_unique<K>();
        k->name = l[i];
        k->type = kentei ? Kentei : Frequency;
        auto r = kentei ? freqReading.end() : freqReading.find(l[i]);
        other(*k, findUcd(l[i]), r == freqReading.end() ? nullptr : &r->second);
        k->kyu = kentei ? kyuNo : kyu(l[i]);
        if (!kentei) k->freq = (uint32_t)i + 1;
        p = insert(std::move(k), ok);
        if (ok) types[kentei ? Kentei : Frequency].push_back(p);
      }
      if (kentei) { if (p->kyu < 0) refuse("kyu"); kyus[(size_t)p->kyu].push_back(p); }
      else if (level >= 0) { if (p->level < 0) refuse("level"); levels[(size_t)p->level].push_back(p); }
      else {
        if (!p->freq) refuse("frequency");
        freqs[std::min<size_t>((p->freq - 1) / 250, 9)].push_back(p);
        byFreq.push_back(p);
        if (p->freq >= maxFreq) maxFreq = p->freq + 1;
      }
    }
  };
  for (size_t i = 0; i < 5; ++i) process(lv[i], false, (int)i, -1);
  process(fq, false, -1, -1);
  for (size_t i = 0; i < 12; ++i) process(ky[i], true, -1, (int)i);
  for (auto& [n, u] : ucd)
    if (!find(n)) {
      auto k = std::make_unique<K>();
      k->name = n;
      k->type = UcdT;
      other(*k, &u, nullptr);
      KP p = insert(std::move(k), ok, &u);
      if (ok) types[UcdT].push_back(p);
    }
  if (!quiz) return;
  // -- groups
  for (int pat = 0; pat < 2; ++pat) {
    const Table t = table(text(pat ? "pattern-groups.txt" : "meaning-groups.txt"), {"Number", "Name", "Members"});
    for (auto& r : t.rows) {
      Grp g;
      g.name = t.get(r, "Name");
      const Str& m = t.get(r, "Members");
      if (g.name.empty()) refuse("group name");
      for (char c : g.name) if (!(c & 0x80)) refuse("group name");
      if (!m.empty() && m.back() == ',') refuse("members");
      Strs ns;
      if (pat) {
        g.pattern = g.name.rfind("：", 0) == 0 ? 1 : g.name.find("：") != Str::npos ? 0 : 2;
        if (g.pattern == 0) { size_t b = 0, n = 0; uint32_t c; while (b < g.name.size() && (!(n = mbLen(g.name, b, &c)) || isVS(c) || c == 0x3099 || c == 0x309a)) b += n ? n : 1; if (mbLen(g.name, b + n, &c) == 3 && isVS(c)) n += 3; ns.push_back(g.name.substr(b, n)); }
      }
      for (auto& x : split(m, ',')) ns.push_back(x);
      std::set<Str> seen;
      for (auto& x : ns) { KP p = find(x); if (!p) refuse("group member"); g.members.push_back(p); if (!seen.insert(p->name).second) refuse("group dup"); }
      g.number = (uint32_t)toNum(t.get(r, "Number"), 65535);
      if (g.members.size() < 2 || g.members.size() > 58) refuse("group size");
      auto& l = pat ? pattern : meaning;
      for (auto p : g.members)
        if (!pat) meaningOf.emplace(p->name, l.size());
        else if (!patternOf.emplace(p->name, l.size()).second) ++sanityErrors;
      l.push_back(g);
    }
  }
  // -- jukugo
  std::map<std::pair<Str, Str>, int> uniq;
  auto juk = [&](const Str& l, int g, bool one) {
    const size_t o = l.find('('), c = l.find(')');
    if (o == Str::npos || c == Str::npos) refuse("jukugo bracket");
    if (one && (o < 2 || l[o - 1] != ' ' || c != l.size() - 1)) refuse("jukugo bracket");
    const Str n = l.substr(0, one ? o - 1 : o), r = l.substr(o + 1, c > o ? c - o - 1 : Str::npos);
    auto i = uniq.find({n, r});
    if (i != uniq.end()) { if (i->second != g) refuse("jukugo dup"); return; }
    Strs ks;
    size_t k = 0;
    auto walk = [&](const Str& s, auto fn) { // characters as the program sees them
      for (size_t p = 0; p < s.size() && s[p];) {
        uint32_t cp, c2;
        const size_t q = mbLen(s, p, &cp);
        if (!q) { ++p; continue; }
        Str ch = s.substr(p, q);
        p += q;
        if (isVS(cp) || cp == 0x3099 || cp == 0x309a) continue;
        if (mbLen(s, p, &c2) == 3 && isVS(c2)) { ch += s.substr(p, 3); p += 3; }
        fn(ch, cp);
      }
    };
    walk(n, [&](const Str& ch, uint32_t) { if (kanjiStr(ch)) ++k, ks.push_back(ch); });
    if (k < 2) refuse("jukugo kanji");
    walk(r, [&](const Str& ch, uint32_t cp) { if (!in(cp, 0x3040, 0x309f) && ch != "ー") refuse("jukugo reading"); });
    for (auto& x : ks) jukugo[x].push_back({n, r, g});
    uniq[{n, r}] = g;
  };
  for (int g = 0; g < 6; ++g) for (auto& l : lines(text("jukugo/g" + num((uint64_t)g + 1) + ".txt"))) juk(l, g, true);
  for (auto& l : lines(text("jukugo/other.txt"))) {
    const size_t i = l.find("...");
    if (i == Str::npos) refuse("jukugo dots");
    if (i + 4 > l.size()) refuse("jukugo dots end");
    for (auto& x : split(l.substr(i + 4), ' ')) juk(x, 6, false);
  }
}

// ---- generated worlds -------------------------------------------------------------------
struct World { Files files; Model m; uint32_t seed{}; int big{}; }; // big: 1 long lists, 2 also as many frequency entries as the real data, or more

inline Files gen(Rng& g, int big) {
  Files f;
  std::set<uint32_t> used;
  auto fresh = [&](int kind) { // 0 common, 1 any block, 2 compatibility block
    for (;;) {
      const uint32_t k = kind == 1 ? g.n(12) : 0;
      const uint32_t c = kind == 2 ? g.r(0xf900, 0xfa6d) : k == 1 ? g.r(0x3400, 0x4dbf) : k == 2 ? g.r(0x20000, 0x2a6df) : k == 3 ? g.r(0x2a700, 0x2b000) : k == 4 ? g.r(0x2e80, 0x2e90) : k == 5 ? g.r(0x30000, 0x3134f) : k == 6 ? g.r(0x2f800, 0x2fa1d) : g.r(0x4e00, 0x9fff);
      if (used.insert(c).second) return u8(c);
    }
  };
  auto code = [](const Str& s) { return hex4(cps(s)[0]); };
  struct R { Str name, links, codes, ltype, meaning, on, kun, moro, nelson, jsource; bool joyo{}, jinmei{}; uint32_t rad{}, st{}, vst{}; };
  std::vector<R> ucd;
  const uint32_t NR = g.r(6, 24);
  Strs rad, radLine;
  for (uint32_t i = 0; i < NR; ++i) { rad.push_back(fresh(0)); Str alt; if (g.p(1, 4)) alt = " " + fresh(0) + (g.p(1, 3) ? " " + u8(0x2e80 + 0x20 + i) : ""); char b[8]; snprintf(b, sizeof b, "%03u", i + 1); radLine.push_back(Str(b) + "\t" + rad[i] + alt + "\t" + rad[i] + "部（" + "ぶ" + "）\tよみ" + num(i)); }
  Strs readPool;
  auto kata = [&](uint32_t lo, uint32_t hi, Str* rom = nullptr) {
    Str s;
    for (uint32_t n = g.r(lo, hi); n; --n) { auto& y = g.pick(syllables()); s += y.kata; if (rom) *rom += y.rom; }
    if (g.p(1, 6)) { s += "ン"; if (rom) *rom += "n"; }
    return s;
  };
  auto reading = [&]() {
    if (!readPool.empty() && g.p(1, 6)) return g.pick(readPool); // shared reading
    Strs v;
    for (uint32_t n = g.r(0, 2); n; --n) v.push_back(kata(1, 3));
    for (uint32_t n = g.r(v.empty() ? 1 : 0, 2); n; --n) { Str h = toHira(kata(1, 3)); if (g.p(1, 2)) h += "-" + toHira(kata(1, 1)); v.push_back(h); }
    readPool.push_back(join(v, "、"));
    return readPool.back();
  };
  static const Strs Words{"river", "mountain", "to see", "gold; money", "light", "two, three", "jōyō", "deep", "sub-", "a"};
  auto meaningOf = [&]() { return g.pick(Words) + (g.p(2, 3) ? " " + num(g.n(40)) : ""); };
  std::vector<uint32_t> moros;
  auto ucdRow = [&](const Str& name) -> R& {
    R r;
    r.name = name; r.rad = g.r(1, NR); r.st = g.r(1, g.p(1, 8) ? 40 : 6);
    if (g.p(1, 10)) { r.st = g.r(2, 20); r.vst = g.r(3, 20); if (r.vst == r.st) r.vst = 0; }
    if (g.p(3, 4)) r.meaning = meaningOf();
    for (uint32_t n = g.n(3); n; --n) { Str rom; kata(1, 2, &rom); for (auto& c : rom) c = (char)toupper(c); r.on += (r.on.empty() ? "" : " ") + rom; }
    for (uint32_t n = g.p(1, 12) ? g.r(3, 9) : g.n(3); n; --n) { Str rom; kata(1, g.p(1, 12) ? 8 : 3, &rom); for (auto& c : rom) c = (char)toupper(c); r.kun += (r.kun.empty() ? "" : " ") + rom; }
    if (g.p(4, 5)) { uint32_t id = !moros.empty() && g.p(1, 12) ? g.pick(moros) : g.r(1, g.p(1, 3) ? 60 : g.p(1, 10) ? 65535 : 49964); moros.push_back(id); const uint32_t k = g.n(16); r.moro = (k == 0 ? "H" : "") + Str(g.p(1, 12) ? g.r(1, 3) : 0, '0') + num(id) + (k == 1 ? "P" : k == 2 ? "PP" : k == 3 ? "'" : ""); }
    if (g.p(1, 2)) { r.nelson = num(g.r(1, g.p(1, 3) ? 60 : 5446)); for (uint32_t n = g.p(1, 6) ? g.p(1, 3) ? g.r(2, 9) : 1 : 0; n; --n) r.nelson += (g.p(1, 2) ? " " : ",") + num(g.r(1, 5446)); }
    if (g.p(3, 4) || (r.on.empty() && r.kun.empty() && r.moro.empty())) r.jsource = "J" + num(g.n(4)) + "-" + hex4(g.n(65536));
    ucd.push_back(r);
    return ucd.back();
  };
  auto link = [&](R& r, const Str& to, const char* type) { r.links += (r.links.empty() ? "" : ",") + to; r.codes += (r.codes.empty() ? "" : ",") + code(to); r.ltype = type; };
  auto ensureReading = [&](R& r) { if (r.on.empty() && r.kun.empty()) { Str rom; kata(2, 3, &rom); for (auto& c : rom) c = (char)toupper(c); r.on = rom; } };
  // jouyou
  struct J { Str name, old; uint32_t grade; };
  std::vector<J> jo;
  std::vector<uint32_t> grades;
  for (uint32_t i = 0; i < 7; ++i) if (g.p(1, 2)) grades.push_back(i);
  if (grades.empty()) grades.push_back(g.n(7));
  if (!big) while (grades.size() > 4) grades.erase(grades.begin() + g.n((uint32_t)grades.size()));
  for (auto gr : grades) for (uint32_t n = big ? g.r(20, 60) : g.r(12, 18); n; --n) { J j; j.name = fresh(0); j.grade = gr; R& r = ucdRow(j.name); r.joyo = true; if (r.meaning.empty()) r.meaning = meaningOf(); jo.push_back(j); }
  g.shuffle(jo);
  // old forms and their official variants
  Strs linkedLines, vsNames, linkedNames, oldPlain;
  for (auto& j : jo) {
    if (!g.p(1, 5)) continue;
    const uint32_t n = g.p(1, 8) ? 3 : 1;
    bool jinTaken = false;
    for (uint32_t i = 0; i < n; ++i) {
      Str o, oldShown;
      const uint32_t kind = g.n(4); // 0: variation selector, 1: linked jinmei, 2,3: just old
      if (kind == 0 && !jinTaken) { const Str c = fresh(2); R& r = ucdRow(c); r.jinmei = true; link(r, j.name, g.p(1, 2) ? "Jinmei*" : "Compatibility"); o = j.name + u8(0xfe00 + g.n(3)); linkedLines.push_back(j.name + "\t" + o); vsNames.push_back(o); jinTaken = true; if (g.p(1, 6)) oldShown = c; }
      else if (kind == 3 && !oldPlain.empty() && g.p(1, 5)) oldShown = g.pick(oldPlain); // an old form of two Kanji
      else if (kind == 1 && !jinTaken) { o = fresh(0); R& r = ucdRow(o); r.jinmei = true; link(r, j.name, g.p(1, 2) ? "Jinmei*" : "Jinmei"); linkedLines.push_back(j.name + "\t" + o); jinTaken = true; }
      else { o = fresh(0); R& r = ucdRow(o); oldPlain.push_back(o); if (g.p(1, 2)) link(r, j.name, g.p(1, 2) ? "Traditional" : "Simplified*"); }
      if (!o.empty()) linkedNames.push_back(o);
      j.old += (j.old.empty() ? "" : ",") + (oldShown.empty() ? o : oldShown);
    }
  }
  // jinmei
  struct N { Str name, old; };
  std::vector<N> ji;
  for (uint32_t n = g.r(6, big ? 40 : 18); n; --n) {
    N x; x.name = fresh(0); R& r = ucdRow(x.name); r.jinmei = true; if (r.meaning.empty() && g.p(2, 3)) r.meaning = meaningOf();
    if (g.p(1, 8)) { const Str o = fresh(0); R& q = ucdRow(o); q.jinmei = true; link(q, x.name, "Jinmei*"); x.old = o; linkedNames.push_back(o); }
    ji.push_back(x);
  }
  Strs ex, fk, kk, uk;
  static const Strs LT{"Traditional", "Traditional*", "Simplified", "Simplified*", "Semantic*", "Definition", "Definition*", "Compatibility"};
  auto maybeLink = [&](R& r) { if (g.p(1, 4)) { const Str t = g.pick(LT); link(r, jo[g.n((uint32_t)jo.size())].name, t.c_str()); for (uint32_t more = g.p(1, 4) ? g.p(1, 4) ? g.r(2, 6) : 1 : 0; more--;) link(r, g.p(1, 4) ? jo[g.n((uint32_t)jo.size())].name : ji[g.n((uint32_t)ji.size())].name, t.c_str()); } };
  for (uint32_t n = g.r(2, 10); n; --n) { ex.push_back(fresh(g.p(1, 4))); maybeLink(ucdRow(ex.back())); }
  Strs freqReadings;
  for (uint32_t n = big == 2 ? 3200 : g.r(2, big ? 120 : 10); n; --n) { fk.push_back(fresh(0)); R& r = ucdRow(fk.back()); maybeLink(r); const bool own = g.p(1, 4); if (own) freqReadings.push_back(fk.back() + "\t" + reading()); if (!own || big == 2) ensureReading(r); }
  for (uint32_t n = g.r(4, 30); n; --n) { kk.push_back(fresh(g.p(1, 4))); R& r = ucdRow(kk.back()); maybeLink(r); ensureReading(r); }
  for (uint32_t n = g.r(2, 20); n; --n) { uk.push_back(fresh(1)); maybeLink(ucdRow(uk.back())); }
  // files
  auto shuffled = [&](Strs cols) { if (g.p(1, 3)) g.shuffle(cols); return cols; };
  auto rows = [&](const char* file, const Strs& cols0, std::vector<std::map<Str, Str>>& rs) {
    const Strs cols = shuffled(cols0);
    Str s = join(cols, "\t");
    for (auto& r : rs) { s += "\n"; for (size_t i = 0; i < cols.size(); ++i) s += (i ? "\t" : "") + r[cols[i]]; }
    f[file] = s + (g.p(1, 4) && !(rs.size() && rs.back()[cols.back()].empty()) ? "" : "\n");
  };
  g.shuffle(ucd);
  std::vector<std::map<Str, Str>> t;
  for (auto& r : ucd) {
    std::map<Str, Str> x{{"Code", code(r.name)}, {"Name", r.name}, {"Block", g.pick(Strs{"CJK", "CJK_Ext_A", "CJK_Compat_Ideographs"})}, {"Version", g.pick(Strs{"1.1", "3.0", "13.0"})}, {"Radical", num(r.rad)}, {"Strokes", num(r.st)}, {"VStrokes", r.vst ? num(r.vst) : ""}, {"Pinyin", g.p(5, 6) ? g.pick(Strs{"yī", "guó", "shuǐ", "a", "zhuàng", "lǜ", "mín"}) : Str{}}, {"MorohashiId", r.moro}, {"NelsonIds", r.nelson}, {"JSource", r.jsource}, {"Joyo", r.joyo ? g.p(1, 3) ? "T" : "Y" : g.p(1, 2) ? g.p(1, 3) ? "F" : "N" : ""}, {"Jinmei", r.jinmei ? g.p(1, 3) ? "T" : "Y" : g.p(1, 3) ? "F" : ""}, {"LinkCodes", r.codes}, {"LinkNames", r.links}, {"LinkType", r.ltype}, {"Meaning", r.meaning}, {"On", r.on}, {"Kun", r.kun}, {"Japanese", ""}};
    Str src; for (char c : Str("GHJKTV")) if (g.p(1, 2)) src += c;
    x["Sources"] = src;
    t.push_back(x);
  }
  rows("ucd.txt", {"Code", "Name", "Block", "Version", "Radical", "Strokes", "VStrokes", "Pinyin", "MorohashiId", "NelsonIds", "Sources", "JSource", "Joyo", "Jinmei", "LinkCodes", "LinkNames", "LinkType", "Meaning", "On", "Kun", "Japanese"}, t);
  f["radicals.txt"] = "Number\tName\tLongName\tReading\n" + join(radLine, "\n") + "\n";
  f["frequency-readings.txt"] = "Name\tReading\n" + (freqReadings.empty() ? Str{} : join(freqReadings, "\n") + "\n");
  t.clear();
  for (size_t i = 0; i < jo.size(); ++i) t.push_back({{"Number", num(i + 1)}, {"Name", jo[i].name}, {"Radical", g.pick(rad)}, {"OldNames", jo[i].old}, {"Year", g.p(1, 5) ? num(g.r(1946, 2017)) : ""}, {"Strokes", num(g.r(1, 24))}, {"Grade", jo[i].grade == 6 ? "S" : num(jo[i].grade + 1)}, {"Meaning", meaningOf()}, {"Reading", reading()}});
  rows("jouyou.txt", {"Number", "Name", "Radical", "OldNames", "Year", "Strokes", "Grade", "Meaning", "Reading"}, t);
  t.clear();
  for (size_t i = 0; i < ji.size(); ++i) t.push_back({{"Number", num(i + 1)}, {"Name", ji[i].name}, {"Radical", g.pick(rad)}, {"OldNames", ji[i].old}, {"Year", g.p(4, 5) ? num(g.r(1946, 2017)) : ""}, {"Reason", ReasonName[g.n(6)]}, {"Reading", reading()}});
  rows("jinmei.txt", {"Number", "Name", "Radical", "OldNames", "Year", "Reason", "Reading"}, t);
  t.clear();
  for (size_t i = 0; i < ex.size(); ++i) t.push_back({{"Number", num(i + 1)}, {"Name", ex[i]}, {"Radical", g.pick(rad)}, {"Strokes", num(g.r(1, 30))}, {"Meaning", meaningOf()}, {"Reading", reading()}});
  rows("extra.txt", {"Number", "Name", "Radical", "Strokes", "Meaning", "Reading"}, t);
  f["linked-jinmei.txt"] = linkedLines.empty() ? "" : join(linkedLines, "\n") + "\n";
  // lists
  Strs joji, plain; // candidates
  for (auto& j : jo) joji.push_back(j.name);
  for (auto& j : ji) joji.push_back(j.name);
  for (auto& l : linkedNames) if (!hasVS(l) || g.p(1, 4)) plain.push_back(l);
  auto listText = [&](const Strs& v) { Str s; for (size_t i = 0; i < v.size(); ++i) { s += v[i]; s += i % 10 == 9 || i + 1 == v.size() ? (g.p(1, 2) ? " \n" : "\n") : " "; } return s; };
  {
    Strs c = joji;
    g.shuffle(c);
    size_t p = 0;
    for (auto n : {"n1", "n2", "n3", "n4", "n5"}) { Strs v; if (g.p(1, 2) && p + 12 <= c.size()) { const size_t q = std::min(c.size(), p + g.r(12, 16)); v.assign(c.begin() + (long)p, c.begin() + (long)q); p = q; } f[Str("jlpt/") + n + ".txt"] = listText(v); }
  }
  {
    Strs c;
    for (auto& x : joji) if (g.p(4, 5)) c.push_back(x);
    for (auto& x : fk) c.push_back(x);
    for (auto& x : plain) if (g.p(1, 6)) c.push_back(x);
    g.shuffle(c);
    if (big == 2) c.resize(g.p(1, 2) ? g.r(2498, 2504) : g.p(1, 2) ? g.r(2740, 3000) : g.r(3001, 3195));
    f["frequency.txt"] = join(c, "\n") + "\n";
  }
  {
    Strs c = kk;
    for (auto& x : joji) if (g.p(9, 10)) c.push_back(x);
    for (auto& x : fk) if (g.p(1, 2)) c.push_back(x);
    for (auto& x : ex) if (g.p(1, 2)) c.push_back(x);
    for (auto& x : plain) if (g.p(1, 2)) c.push_back(x);
    g.shuffle(c);
    Strs order{"k10", "k9", "k8", "k7", "k6", "k5", "k4", "k3", "kJ2", "k2", "kJ1", "k1"};
    g.shuffle(order);
    size_t p = 0;
    for (size_t i = 0; i < order.size(); ++i) {
      Strs v;
      if (p + 12 <= c.size()) { size_t q = std::min(c.size(), p + g.r(12, 18)); if (c.size() - q < 12 || i + 1 == order.size()) q = c.size(); v.assign(c.begin() + (long)p, c.begin() + (long)q); p = q; }
      f["kentei/" + order[i] + ".txt"] = listText(v);
    }
  }
  // groups
  Strs all = joji;
  for (auto* v : {&plain, &vsNames, &ex, &fk, &kk, &uk}) all.insert(all.end(), v->begin(), v->end());
  auto sample = [&](Strs& from, uint32_t n, bool take) { g.shuffle(from); Strs r(from.begin(), from.begin() + (long)std::min<size_t>(n, from.size())); if (take) from.erase(from.begin(), from.begin() + (long)r.size()); return r; };
  auto gsize = [&]() { return g.p(1, 7) ? g.p(1, 4) ? g.r(57, 58) : g.r(24, 58) : g.r(2, 7); };
  const uint32_t gnoFrom = g.p(1, 3) ? g.r(1, 65000) : 0; // group numbers need not start at one
  auto gno = [&](uint32_t i) { return num(i + gnoFrom); };
  Str mg = "Number\tName\tMembers\n", pg = mg;
  static const Strs GN{"方向", "数字", "色", "時間：曜日", "動物", "体", "家族", "木"};
  for (uint32_t i = 0, n = g.r(3, 9); i < n; ++i) { Strs pool = g.p(1, 3) ? joji : all; mg += gno(i + 1) + "\t" + g.pick(GN) + (g.p(1, 3) ? "（" + g.pick(GN) + "）" : "") + "\t" + join(sample(pool, gsize(), false), ",") + "\n"; }
  Strs left = all;
  uint32_t no = 0;
  const Strs heads{"ア", "カ", "サ", "タ", "ハ", "ヤ"};
  const std::vector<Strs> more{{"イ", "オウ"}, {"ガ", "キ", "コウ"}, {"シ", "ジ"}, {"チ", "ナ", "ノウ"}, {"ヒ", "マ", "ミ"}, {"ユウ", "ラ", "ワ"}};
  for (size_t b = 0; b < 6; ++b)
    for (uint32_t i = 0, n = g.r(1, 3); i < n; ++i) {
      if (left.size() < 3) break;
      const Str rd = i ? g.pick(more[b]) : heads[b] + (g.p(1, 2) ? "、" + g.pick(more[b]) : g.p(1, 2) ? "ク" : "");
      Strs v = sample(left, std::max(2u, gsize()), true);
      if (v.size() < 2) break;
      const uint32_t kind = i ? g.n(3) : g.n(2);
      Str name;
      if (kind == 1) name = "：" + rd;
      else if (kind == 2) name = rd;
      else { size_t q = 0; while (q < v.size() && hasVS(v[q])) ++q; if (q == v.size()) name = "：" + rd; else { name = v[q] + "：" + rd; v.erase(v.begin() + (long)q); if (v.empty()) v = sample(left, 1, true); } }
      if (v.empty()) break;
      pg += gno(++no) + "\t" + name + "\t" + join(v, ",") + "\n";
    }
  f["meaning-groups.txt"] = mg;
  f["pattern-groups.txt"] = pg;
  // jukugo
  std::set<Str> jn;
  auto jukName = [&]() { for (;;) { Strs v = joji; v = sample(v, g.p(1, 5) ? 3 : g.p(1, 14) ? 6 : 2, false); Str s = g.p(1, 6) ? v[0] + "り" + v[1] + "し" : join(v, ""); if (jn.insert(s).second) return s; } };
  const Str hot = joji[g.n((uint32_t)joji.size())];
  auto jr = [&]() { return toHira(kata(2, 5)) + (g.p(1, 12) ? "ー" : ""); };
  for (int i = 1; i <= 6; ++i) {
    Str s;
    for (uint32_t n = g.n(8); n; --n) { const Str nm = g.p(1, 3) ? [&] { for (;;) { Str x = hot + joji[g.n((uint32_t)joji.size())]; if (x != hot + hot && jn.insert(x).second) return x; } }() : jukName(); const Str rd = jr(); s += nm + " (" + rd + ")\n"; if (g.p(1, 10)) s += nm + " (" + rd + ")\n"; if (g.p(1, 10)) s += nm + " (" + jr() + "っ)\n"; }
    f["jukugo/g" + num((uint64_t)i) + ".txt"] = s;
  }
  Str o;
  for (uint32_t n = g.n(6); n; --n) { const Str k = joji[g.n((uint32_t)joji.size())]; o += k + " ..."; for (uint32_t q = g.r(1, 5); q; --q) o += " " + jukName() + "(" + jr() + ")"; o += "\n"; }
  f["jukugo/other.txt"] = o;
  return f;
}

// every list a quiz can ask from has either no entry or readings for nine choices
inline Str unfit(const Model& m) {
  if (m.sanityErrors) return "sanity errors";
  auto chk = [](const std::vector<KP>& l) { if (l.empty()) return true; std::set<Str> s; for (auto k : l) { if (k->rd().empty() || !k->readingKnown) return false; s.insert(k->rd()); } return s.size() >= 9; };
  for (auto& l : m.grades) if (!chk(l)) return "grade list";
  for (auto& l : m.levels) if (!chk(l)) return "level list";
  for (auto& l : m.kyus) if (!chk(l)) return "kyu list";
  for (auto& l : m.freqs) if (!chk(l)) return "frequency list";
  return "";
}
inline std::vector<World*>& worlds() { static std::vector<World*> v; return v; }
inline const char* warmWorlds(uint32_t count, uint32_t salt = 0) {
  static Str err;
  uint64_t seed = 1000 + salt;
  for (uint32_t i = 0; i < count; ++i) {
    for (int tries = 0;; ++tries) {
      auto* x = new World;
      x->big = i % 48 == 47 ? 2 : i % 16 == 15;
      x->seed = (uint32_t)seed;
      Rng g{seed++ * 7919};
      x->files = gen(g, x->big);
      try { x->m.load(x->files); err = unfit(x->m); } catch (Refuse& r) { err = r.why; }
      if (err.empty()) { worlds().push_back(x); break; }
      if (tries > 60) return err.c_str();
      delete x;
    }
  }
  return nullptr;
}
inline World& pickWorld() { // big worlds are rarer than their share
  auto& v = worlds();
  uint32_t i = draw((uint32_t)v.size());
  if (v[i]->big && !chance(1, v[i]->big == 2 ? 4 : 3)) i = (i + 1) % (uint32_t)v.size();
  return *v[i];
}
inline void putWorld(const Str& dir, const Files& f) { for (auto& [n, t] : f) put_file(dir + "/" + n, t); }
} // namespace w

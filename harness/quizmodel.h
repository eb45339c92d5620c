// An independent model of a whole kanjiQuiz session: it reads the transcript next
// to the keys that were typed and accepts exactly what the documentation allows;
// where the program may choose (shuffles, wrong answers) it follows the choice and
// checks that it is a legal one.
#pragma once
#include "prompt.h"
#include "world.h"
namespace w {
struct InputEnded {};
inline size_t columns(const Str& s) { size_t n = 0; for (auto c : cps(s)) n += isVS(c) || c == 0x3099 || c == 0x309a ? 0 : c >= 0x1100 ? 2 : 1; return n; }
inline Str padTo(const Str& s, size_t n) { const size_t c = columns(s); return c < n ? s + Str(n - c, ' ') : s; }
inline Str right(const Str& s, size_t n) { return s.size() < n ? Str(n - s.size(), ' ') + s : s; }

struct QuizOpts { int mode{}, order{}; uint32_t start{}; char type{}, list{}; bool meanings{}; }; // mode 1 review 2 test; order 1 begin 2 end 3 random

struct Play {
  const Model& m;
  const Str& out;
  const Str& keys;
  bool hung{};
  size_t at{}, k{};
  bool usedRandomOrder{};
  uint32_t questions{};
  // what a launch chose, for comparing launches (first view of every question)
  struct Chosen { uint32_t pos; int item, right; uint32_t nc; Strs answers; std::vector<int> left, rite; Strs readings; };
  std::vector<Chosen> chosen;
  size_t total{};
  Play(const Model& mm, const Str& o, const Str& ks, bool h) : m{mm}, out{o}, keys{ks}, hung{h} {}

  [[noreturn]] void bad(const char* cls, const Str& what) const {
    const size_t b = at > 300 ? at - 300 : 0;
    violation(cls, "%s; after ...%s<<< the program printed >>>%s; keys so far %s", what.c_str(), out.substr(b, at - b).c_str(), clip(out.substr(std::min(at, out.size())), 400).c_str(), clip(keys.substr(0, k), 200).c_str());
  }
  bool next(const Str& s) const { return out.compare(at, s.size(), s) == 0; }
  void expect(const Str& s, const char* cls = "wrong-text") { if (!next(s)) bad(cls, "expected '" + clip(s, 400) + "'"); at += s.size(); }
  Str line() { const size_t e = out.find('\n', at); if (e == Str::npos) bad("wrong-text", "expected a whole line"); Str s = out.substr(at, e - at); at = e + 1; return s; }

  // score of the quiz that is running (empty if none)
  struct Score { bool on{}, quiz{}; uint32_t pos{}, right{}; Strs wrong; } sc;
  Str finalScore() const {
    if (!sc.on || !sc.quiz) return "";
    Str s = "\nFinal score: " + num(sc.right) + "/" + num(sc.pos);
    if (sc.pos) {
      const size_t skipped = sc.pos - sc.right - sc.wrong.size();
      if (skipped) s += ", skipped: " + num(skipped);
      if (!sc.wrong.empty()) { s += " - mistakes:"; for (auto& i : sc.wrong) s += " " + i; }
      else if (!skipped) s += " - Perfect!";
    }
    return s + "\n";
  }
  bool onlyScoreLeft() const { return at == out.size() || out.substr(at) == finalScore(); }
  char ask(const Ask& a) {
    std::map<char, Str> all;
    if (Str r = offered(a, Quit{'/', "quit"}, all); !r.empty()) internal_error("model prompt %s: %s", a.msg.c_str(), r.c_str());
    const Str p = promptText(a, all);
    for (;;) {
      expect(p, "wrong-prompt");
      if (k >= keys.size() || (hung && onlyScoreLeft())) throw InputEnded{};
      const char c = keys[k++];
      expect("\n", "wrong-prompt");
      if (c == '\n' && a.def) return *a.def;
      if (c != '\n' && all.count(c)) return c;
      probe("prompt repeated");
    }
  }
  char ask(const Str& msg, const std::map<char, Str>& c, std::optional<char> def = {}, std::optional<std::pair<char, char>> r = {}, bool quit = true) { Ask a; a.msg = msg; a.choices = c; a.def = def; a.range = r; a.useQuit = quit; return ask(a); }

  // ---- details ---------------------------------------------------------------
  static Str legend(int fields = I_All) {
    Strs f;
    if (fields & I_Level) f.push_back(" N[1-5]=JLPT Level");
    if (fields & I_Kyu) f.push_back(" K[1-10]=Kentei Kyu");
    if (fields & I_Grade) f.push_back(" G[1-6]=Grade (S=Secondary School)");
    return ">>> Legend:\nFields:" + join(f, ",") + "\nSuffix: " + Legend + "\n";
  }
  static Str meaning(const K& x, bool nl, bool show) { return (show && !x.mean().empty() ? (nl ? "\n    Meaning: " : " : ") + x.mean() : Str{}) + "\n"; }
  static Str jukugoLines(const Str& name, const std::vector<Juk>& l) {
    Str s = "    " + name + ":";
    if (l.size() <= 3) { for (auto& j : l) s += " " + j.str(); return s + "\n"; }
    s += " " + num(l.size());
    size_t wd[3]{};
    for (size_t i = 0; i < l.size(); ++i) wd[i % 3] = std::max(wd[i % 3], std::min<size_t>(30, columns(l[i].str()) + 2));
    for (size_t i = 0; i < l.size(); ++i) s += (i % 3 ? "" : "\n") + padTo(l[i].str(), wd[i % 3]);
    return s + "\n";
  }
  Str reviewDetails(const K& x) const {
    Str s = "    Reading: " + x.rd() + "\n";
    if (auto i = m.patternOf.find(x.name); i != m.patternOf.end() && m.pattern[i->second].pattern != 2) {
      auto v = m.pattern[i->second].members;
      std::sort(v.begin(), v.end(), byQual);
      s += "    Similar:";
      for (auto p : v) if (p->name != x.name) s += " " + p->qual();
      s += "\n";
    }
    if (x.moro.id) s += "  Morohashi: " + x.moro.str() + "\n";
    if (!x.nelson.empty()) { s += x.nelson.size() == 1 ? "  Nelson ID:" : " Nelson IDs:"; for (auto i : x.nelson) s += " " + num(i); s += "\n"; }
    Strs cat;
    for (auto [i, e] = m.meaningOf.equal_range(x.name); i != e; ++i) cat.push_back("[" + m.meaning[i->second].name + "]");
    if (!cat.empty()) s += (cat.size() == 1 ? "   Category: " : " Categories: ") + join(cat, ", ") + "\n";
    if (auto i = m.jukugo.find(x.name); i != m.jukugo.end() && !i->second.empty()) {
      auto& l = i->second;
      std::vector<Juk> same, other;
      if (x.grade >= 0 && l.size() > 3) for (auto& j : l) (j.grade == x.grade ? same : other).push_back(j);
      if (other.empty()) s += jukugoLines(" Jukugo", l);
      else s += jukugoLines("Same Grade Jukugo", same) + jukugoLines("Other Grade Jukugo", other);
    }
    return s + "\n";
  }
  Str details(const Str& arg, bool showLegend = true) const {
    Str s = showLegend ? legend() + "Sources: G=China / Singapore, H=Hong Kong, J=Japan, K=Korea, T=Taiwan, V=Vietnam\n\n" : Str{};
    Strs code;
    for (auto c : cps(arg)) code.push_back(hex4(c));
    s += arg + " [" + join(code, " ") + "]";
    const Ucd* u = m.findUcd(arg);
    if (!u) return s + " --- Not found in 'ucd.txt'\n";
    s += ", Blk " + u->block + ", Ver " + u->version;
    if (!u->sources.empty()) { s += ", Sources " + u->sources; if (!u->jsource.empty()) s += " (" + u->jsource + ")"; }
    KP p = m.find(arg);
    if (!p) return s + " --- Kanji not loaded'\n"; // a variation selector no loaded Kanji uses
    return s + p->typeInfo() + "\n" + p->info() + meaning(*p, true, true) + reviewDetails(*p);
  }
  Str detailsList(const std::vector<KP>& l, const Str& what, const Str& id) const {
    Str s;
    if (l.size() != 1) s = (l.size() > 1 ? legend() + "\n" : Str{}) + "Found " + num(l.size()) + " matches for " + what + " ID " + id + (l.empty() ? "\n" : ":\n\n");
    for (auto p : l) s += details(p->name, l.size() == 1);
    return s;
  }
  static bool digits(const Str& s) { for (char c : s) if (c < '0' || c > '9') return false; return true; }
  static uint32_t id16(const Str& s) { if (s.empty()) throw Refuse{"no number"}; uint64_t v = 0; for (char c : s) { v = v * 10 + (uint64_t)(c - '0'); if (v > 65535) throw Refuse{"number too big"}; } return (uint32_t)v; }
  Str kanjiArg(const Str& a) const {
    if (digits(a)) { const uint32_t f = id16(a); if (!f || f >= m.maxFreq) throw Refuse{"frequency"}; return details(m.byFreq[f - 1]->name); }
    const Str r = a.substr(1);
    if (a[0] == 'm') { const Moro id = Model::toMoro(r); auto i = id.id ? m.moro.find(id) : m.moro.end(); return detailsList(i == m.moro.end() ? std::vector<KP>{} : i->second, "Morohashi", id.str()); }
    if (a[0] == 'n') { if (r.empty() || !digits(r)) throw Refuse{"nelson"}; auto i = m.nelson.find(id16(r)); return detailsList(i == m.nelson.end() ? std::vector<KP>{} : i->second, "Nelson", r); }
    if (a[0] == 'u') {
      if (r.size() < 4 || r.size() > 5 || (r.size() == 5 && r[0] != '1' && r[0] != '2')) throw Refuse{"code"};
      for (char c : r) if (!isxdigit((unsigned char)c)) throw Refuse{"code"};
      uint32_t c = (uint32_t)strtoul(r.c_str(), nullptr, 16);
      if (c >= 0xd800 && c < 0xe000) c = 0xfffd;
      return details(u8(c));
    }
    if (!kanjiStr(a)) throw Refuse{"not a kanji"};
    return details(a);
  }

  // ---- list quiz ------------------------------------------------------------------
  void begin(uint32_t start, size_t n, const Str& what) {
    if (start > n) throw Refuse{"start beyond the list"};
    sc.pos = start ? start - 1 : 0;
    expect(">>>\n>>> Starting " + Str(sc.quiz ? "quiz" : "review") + " for " + num(n) + " " + what + "\n", "wrong-list");
  }
  std::map<char, Str> common(size_t n, bool meanings) const {
    std::map<char, Str> c{{'-', meanings ? "hide meanings" : "show meanings"}, {'.', sc.pos + 1 == n ? "finish" : sc.quiz ? "skip" : "next"}};
    if (!sc.quiz && sc.pos) c[','] = "prev";
    return c;
  }
  void listQuiz(const QuizOpts& o, const std::vector<KP>& list, int exclude) {
    uint32_t nc = 1;
    bool k2r = true;
    const bool quiz = o.mode == 2;
    if (quiz) {
      const char c = ask("Number of choices", {}, '4', std::pair<char, char>{'2', '9'});
      if (c == '/') return;
      nc = (uint32_t)(c - '0');
      const char t = ask("Quiz style", {{'k', "kanji to reading"}, {'r', "reading to kanji"}}, 'k');
      if (t == '/') return;
      k2r = t == 'k';
      std::set<Str> rs;
      for (auto p : list) rs.insert(p->rd());
      if (!list.empty() && rs.size() < nc) throw Refuse{"not enough readings"};
    }
    const size_t n = list.size();
    bool mean = o.meanings;
    sc = {true, quiz, 0, 0, {}};
    begin(o.start, n, "kanji");
    expect(">>>\n");
    const int fields = I_All ^ exclude;
    if (k2r) expect(legend(fields));
    total = n;
    std::vector<int> perm(n, -1);
    std::vector<bool> used(n);
    if (o.order != 3) for (size_t i = 0; i < n; ++i) perm[i] = (int)(o.order == 1 ? i : n - 1 - i);
    else usedRandomOrder = n > 1;
    while (sc.pos < n) {
      ++questions;
      auto ch = common(n, mean);
      int item = perm[sc.pos];
      std::vector<Str> answers;
      int right1 = -1;
      bool first = true;
      for (;;) {
        expect(Str(quiz ? "\nQuestion " : "\n") + num(sc.pos + 1) + "/" + num(n) + ":  ", "wrong-position");
        auto text = [&](KP p) {
          if (!k2r) return "Reading:  " + p->rd() + meaning(*p, false, mean);
          const Str i = p->info(fields);
          return p->name + (i.empty() ? "" : "  " + i) + (quiz ? "" : p->typeInfo()) + meaning(*p, !quiz, mean);
        };
        std::vector<int> cand;
        if (item >= 0) { if (next(text(list[(size_t)item]))) cand.push_back(item); }
        else for (size_t i = 0; i < n; ++i) if (!used[i] && next(text(list[i]))) cand.push_back((int)i);
        if (cand.empty()) {
          for (size_t i = 0; i < n; ++i) if (next(text(list[i]))) bad("wrong-order", "position " + num(sc.pos + 1) + " of the " + (o.order == 1 ? "list" : o.order == 2 ? "reversed list" : "shuffled list") + " shows item " + num(i + 1) + (item >= 0 ? " instead of " + num((uint32_t)item + 1) : Str(" again")));
          bad("wrong-question", "no item of the list has this question");
        }
        at += text(list[(size_t)cand[0]]).size();
        if (quiz) {
          std::vector<Str> got;
          for (uint32_t i = 1; i <= nc; ++i) { expect("    " + num(i) + ".  ", "wrong-choices"); got.push_back(line()); }
          if (first) {
            answers = got;
            std::set<Str> rs;
            const Str want = list[(size_t)cand[0]]->rd();
            for (uint32_t i = 0; i < nc; ++i) {
              Str rd;
              bool known = false;
              for (auto p : list) if ((k2r ? p->rd() : p->name) == got[i]) { rd = p->rd(); known = true; }
              if (!known) bad("wrong-choices", "'" + got[i] + "' is no answer from this list");
              if (!rs.insert(rd).second) bad("wrong-choices", "two choices have the same reading");
              if (rd == want) right1 = (int)i;
            }
            if (right1 < 0) bad("wrong-choices", "no choice is the right one");
            if (item < 0) {
              if (k2r) item = cand[0];
              else for (int c : cand) if (list[(size_t)c]->name == got[(size_t)right1]) item = c;
              if (item < 0) bad("wrong-order", "position " + num(sc.pos + 1) + " of the shuffled list shows an item again");
            }
            if (!k2r && list[(size_t)item]->name != got[(size_t)right1]) bad("wrong-choices", "the right choice is another Kanji than the one asked for");
            chosen.push_back({sc.pos, item, right1, nc, answers, {}, {}, {}});
          } else if (got != answers) bad("wrong-choices", "the choices of one question changed");
        } else {
          if (item < 0) item = cand[0];
          expect(reviewDetails(*list[(size_t)item]), "wrong-details");
        }
        if (perm[sc.pos] < 0) { perm[sc.pos] = item; used[(size_t)item] = true; }
        if (first && !quiz) chosen.push_back({sc.pos, item, -1, 0, {}, {}, {}, {}});
        first = false;
        const char c = quiz ? ask(k2r ? "  Select correct reading" : "  Select correct kanji", ch, {}, std::pair<char, char>{'1', (char)('0' + nc)}) : ask("  Select", ch);
        if (c == '-') { mean = !mean; ch['-'] = mean ? "hide meanings" : "show meanings"; probe("meanings toggled"); continue; }
        if (c == '/') { probe("quit inside a quiz"); expect(finalScore(), "wrong-score"); sc.on = false; return; }
        if (c == ',') { --sc.pos; probe("moved back"); break; }
        if (c == '.') { probe(quiz ? "skipped" : "moved on"); }
        else if (c == '1' + right1) { expect("  Correct! (" + num(++sc.right) + "/" + num(sc.pos + 1) + ")\n", "wrong-score"); probe("answered right"); }
        else { expect("  Incorrect (correct answer is " + Str(1, (char)('1' + right1)) + ")\n", "wrong-score"); sc.wrong.push_back(list[(size_t)item]->name); probe("answered wrong"); }
        ++sc.pos;
        break;
      }
    }
    probe("whole list done");
    if (quiz && n && sc.right == n) probe("perfect score");
    expect(finalScore(), "wrong-score");
    sc.on = false;
  }

  // ---- group quiz -----------------------------------------------------------------
  static bool included(const K& x, int type) { return !x.rd().empty() && (x.type == Jouyou || (type > 1 && x.level >= 0) || (type > 2 && x.freq) || type > 3); }
  struct Cand { int gi; std::vector<KP> mem; std::vector<std::set<int>> L, R; };
  static bool matching(const std::vector<std::set<int>>& v, size_t n) {
    std::vector<int> owner(n, -1);
    std::vector<bool> seen;
    std::function<bool(size_t)> go = [&](size_t i) { for (int j : v[i]) if (!seen[(size_t)j]) { seen[(size_t)j] = true; if (owner[(size_t)j] < 0 || go((size_t)owner[(size_t)j])) { owner[(size_t)j] = (int)i; return true; } } return false; };
    for (size_t i = 0; i < v.size(); ++i) { seen.assign(n, false); if (!go(i)) return false; }
    return true;
  }
  Str groupLeft(const K& x, bool quiz, bool meaningGroups) const {
    Str s = x.qual() + padTo(x.pinyin.empty() ? "" : "  (" + x.pinyin + ")", 12);
    if (!quiz) {
      if (meaningGroups) { if (auto i = m.patternOf.find(x.name); i != m.patternOf.end()) s += "p:" + num(m.pattern[i->second].number); }
      else if (auto i = m.meaningOf.find(x.name); i != m.meaningOf.end()) s += "m:" + num(m.meaning[i->second].number);
    }
    return padTo(s, 22);
  }
  void groupQuiz(const QuizOpts& o, bool meaningGroups) {
    static const std::map<char, Str> KindChoices{{'1', "Jōyō"}, {'2', "1+JLPT"}, {'3', "2+Freq."}, {'4', "all"}};
    const char kc = o.list ? o.list : ask("Kanji type", KindChoices, '2');
    if (kc == '/') return;
    const int type = kc - '0';
    const auto& all = meaningGroups ? m.meaning : m.pattern;
    const bool quiz = o.mode == 2;
    sc = {true, quiz, 0, 0, {}};
    if (all.empty()) throw Refuse{"no groups"};
    size_t lo = 0, hi = all.size();
    if (!meaningGroups) {
      const char c = ask("Pattern name", {{'1', "ア"}, {'2', "カ"}, {'3', "サ"}, {'4', "タ、ナ"}, {'5', "ハ、マ"}, {'6', "ヤ、ラ、ワ"}}, '1');
      if (c == '/') { expect(finalScore(), "wrong-score"); sc.on = false; return; }
      static const Strs Starts{"：カ", "：サ", "：タ", "：ハ", "：ヤ"};
      const size_t b = (size_t)(c - '1');
      auto first = [&](const Str& s, size_t from) { while (from < all.size() && all[from].name.find(s) == Str::npos) ++from; return from; };
      if (b) lo = first(Starts[b - 1], 0);
      if (b < 5) hi = std::min(all.size(), first(Starts[b], b ? lo + 1 : 0));
      hi = std::max(lo, hi);
    }
    std::vector<size_t> list; // groups with two or more members of the wanted kind
    for (size_t i = lo; i < hi; ++i) { size_t c = 0; for (auto p : all[i].members) c += included(*p, type); if (c > 1) list.push_back(i); }
    if (o.order == 2) std::reverse(list.begin(), list.end());
    const size_t n = list.size();
    bool mean = o.meanings;
    begin(o.start, n, Str(meaningGroups ? "Meaning" : "Pattern") + " groups");
    if (type > 1) expect(">>>   " + Legend + "\n");
    if (o.order == 3 && n > 1) usedRandomOrder = true;
    total = n;
    std::map<uint32_t, std::set<int>> where; // position -> possible entries of list
    while (sc.pos < n) {
      ++questions;
      std::vector<Cand> cand;
      for (size_t i = 0; i < n; ++i) {
        if (o.order != 3 && i != sc.pos) continue;
        if (auto w = where.find(sc.pos); w != where.end() && !w->second.count((int)i)) continue;
        Cand c{(int)i, {}, {}, {}};
        for (auto p : all[list[i]].members) if (included(*p, type)) c.mem.push_back(p);
        c.L.resize(c.mem.size()); c.R.resize(c.mem.size());
        cand.push_back(std::move(c));
      }
      auto ch = common(n, mean);
      Str given; // answers so far
      bool first = true, again = true, back = false;
      size_t sz = 0;
      std::map<char, int> letterRow;
      while (again) {
        again = false;
        expect(Str(quiz ? "\nQuestion " : "\n") + num(sc.pos + 1) + "/" + num(n) + ":  ", "wrong-position");
        std::vector<Cand> ok;
        size_t used = 0;
        Str why = "no group of the list has this heading";
        for (auto& c : cand) {
          const Grp& g = all[list[(size_t)c.gi]];
          const size_t k0 = c.mem.size();
          const Str head = g.header() + ", " + (k0 == g.members.size() ? num(k0) : "showing " + num(k0) + " out of " + num(g.members.size())) + " members\n";
          if (!next(head)) continue;
          size_t p = at + head.size();
          bool good = true;
          auto c2 = c;
          for (size_t r = 0; r < k0 && good; ++r) {
            const size_t e = out.find('\n', p);
            if (e == Str::npos) { good = false; break; }
            const Str ln = out.substr(p, e - p);
            p = e + 1;
            const char letter = quiz ? (char)(r < 26 ? 'a' + r : 'A' + (r - 26)) : ' ';
            const size_t g0 = given.find(letter);
            const Str mark = (quiz && g0 != Str::npos ? right(num(g0 + 1), 2) + "->" : Str("    ")) + letter + ":  ";
            std::set<int> L, R;
            for (size_t i = 0; i < k0; ++i) {
              if (!quiz && i != r) continue;
              const Str left = right(num(r + 1), 4) + ":  " + groupLeft(*c.mem[i], quiz, meaningGroups) + mark;
              if (ln.compare(0, left.size(), left)) continue;
              for (size_t j = 0; j < k0; ++j) {
                if (!quiz && j != r) continue;
                const K& x = *c.mem[j];
                if (ln.substr(left.size()) + "\n" == x.rd() + meaning(x, false, mean)) { L.insert((int)i); R.insert((int)j); }
              }
            }
            if (!first) { std::set<int> a, b; for (int i : L) if (c2.L[r].count(i)) a.insert(i); for (int j : R) if (c2.R[r].count(j)) b.insert(j); L = a; R = b; }
            if (L.empty() || R.empty()) { good = false; why = "row " + num(r + 1) + " '" + ln + "' fits no member" + (first ? "" : " shown there before"); }
            c2.L[r] = L; c2.R[r] = R;
          }
          if (good && !matching(c2.L, k0)) { good = false; why = "a member is shown twice"; }
          if (good && !matching(c2.R, k0)) { good = false; why = "a reading is not the one of exactly one shown member"; }
          if (good && out.compare(p, 1, "\n")) { good = false; why = "more rows than members"; }
          if (!good) continue;
          used = p + 1;
          sz = k0;
          ok.push_back(std::move(c2));
        }
        if (ok.empty()) bad("wrong-group", why);
        cand = std::move(ok);
        at = used;
        { std::set<int> s; for (auto& c : cand) s.insert(c.gi); where[sc.pos] = s; }
        { std::vector<std::set<int>> v; for (auto& [p, s] : where) v.push_back(s); if (!matching(v, n)) bad("wrong-order", "a group is shown at two positions"); }
        if (first && quiz) for (size_t r = 0; r < sz; ++r) { const char l = (char)(r < 26 ? 'a' + r : 'A' + (r - 26)); ch[l] = ""; letterRow[l] = (int)r; }
        if (first && cand.size() == 1) {
          Chosen x{sc.pos, cand[0].gi, -1, 0, {}, {}, {}, {}};
          if (quiz) for (size_t r = 0; r < sz; ++r) { x.left.push_back(*cand[0].L[r].begin()); x.rite.push_back(*cand[0].R[r].begin()); x.readings.push_back(cand[0].mem[(size_t)x.rite[r]]->rd()); }
          chosen.push_back(std::move(x));
        }
        first = false;
        if (sz > 26) probe("more than 26 members");
        bool group = true;
        while (group && (!quiz || given.size() < sz)) {
          if (!given.empty()) { Str s = "   "; for (size_t i = 0; i < given.size(); ++i) s += " " + num(i + 1) + "->" + given[i]; expect(s + "\n", "wrong-answers"); }
          const char c = ask(quiz ? "  Reading for: " + num(given.size() + 1) : Str("  Select"), ch);
          if (c == '/') { probe("quit inside a quiz"); expect(finalScore(), "wrong-score"); sc.on = false; return; }
          if (c == '-' || c == '\'') {
            if (c == '-') { mean = !mean; ch['-'] = mean ? "hide meanings" : "show meanings"; probe("meanings toggled"); } else probe("refreshed");
            again = true; group = false;
          } else if (c == '.') { probe(quiz ? "skipped" : "moved on"); group = false; given = "."; }
          else if (c == ',') { probe("moved back"); back = true; group = false; }
          else if (c == '*') {
            size_t e = 0;
            if (given.size() > 1) { std::map<char, Str> v; for (char g : given) v[g] = ""; e = given.find(ask("    Answer to edit: ", v, {}, {}, false)); }
            ch[given[e]] = "";
            auto v = ch;
            for (char x : {'*', '-', '\'', '.'}) v.erase(x);
            const char a = ask("    New reading for Entry: " + num(e + 1), v, given[e], {}, false);
            if (a != given[e]) probe("answer changed by an edit");
            given[e] = a;
            ch.erase(a);
            probe("answer edited");
          } else {
            given += c;
            ch.erase(c);
            if (given.size() == 1) { ch['*'] = "edit"; ch['\''] = "refresh"; }
          }
        }
        if (again) continue;
        if (back) break;
        if (given == ".") break;
        if (!quiz) break;
        size_t good = 0;
        for (size_t i = 0; i < sz; ++i) {
          const Cand& c = cand[0];
          const K &q = *c.mem[(size_t)*c.L[i].begin()], &r = *c.mem[(size_t)*c.R[(size_t)letterRow.at(given[i])].begin()];
          good += q.rd() == r.rd() && (!mean || q.mean() == r.mean());
        }
        const Grp& g = all[list[(size_t)cand[0].gi]];
        if (good == sz) { expect("  Correct! (" + num(++sc.right) + "/" + num(sc.pos + 1) + ")\n", "wrong-score"); probe("group right"); if (sz > 26) probe("group beyond 26 right"); }
        else { expect("  Incorrect (got " + num(good) + " right out of " + num(sz) + ")\n", "wrong-score"); sc.wrong.push_back(g.name); probe("group wrong"); }
      }
      if (back) --sc.pos; else ++sc.pos;
    }
    probe("whole list done");
    expect(finalScore(), "wrong-score");
    sc.on = false;
  }

  // ---- the program ------------------------------------------------------------------
  // Returns true if the arguments lead to a quiz; otherwise everything is done.
  bool arguments(const Strs& args, QuizOpts& o) {
    bool end = false, dbg = false;
    for (size_t i = 1; i < args.size(); ++i) if (args[i] == "-debug" || args[i] == "-info") dbg = true;
    for (size_t i = 1; i < args.size(); ++i) {
      const Str& a = args[i];
      if (a == "-data") { ++i; continue; }
      if (a == "-debug" || a == "-info") continue;
      if (end || a.size() < 2 || a[0] != '-') { const Str t = kanjiArg(a); if (!dbg) expect(t, "wrong-details"); probe("details shown"); return false; }
      if (a == "-h") { if (!dbg) { expect("kanjiQuiz [-hs]", "wrong-help"); at = out.size(); } probe("help shown"); return false; }
      if (a == "--") { end = true; continue; }
      if (a == "-s") { o.meanings = true; continue; }
      const Str v = a.substr(2);
      auto type = [&](const Str& values) {
        if (o.type) throw Refuse{"two types"};
        o.type = a[1];
        if (v.empty()) return;
        if (v.size() != 1 || values.find(v[0]) == Str::npos) throw Refuse{"bad list"};
        o.list = v[0];
      };
      switch (a[1]) {
      case 'r': case 't': {
        if (o.mode) throw Refuse{"two modes"};
        o.mode = a[1] == 'r' ? 1 : 2;
        if (v.empty()) break;
        if (v == "0") { o.order = 3; break; }
        o.order = v[0] == '-' ? 2 : 1;
        const Str n = v[0] == '-' || v[0] == '+' ? v.substr(1) : v;
        if (n.empty() || !digits(n)) throw Refuse{"bad number"};
        o.start = id16(n);
        break;
      }
      case 'f': type("0123456789"); break;
      case 'g': type("123456s"); break;
      case 'k': type("123456789abc"); break;
      case 'l': type("12345"); break;
      case 'm': case 'p': type("1234"); break;
      default: throw Refuse{"unknown option"};
      }
    }
    return !dbg;
  }
  void quizzes(QuizOpts o) {
    if (!o.mode) { const char c = ask("Mode", {{'r', "review"}, {'t', "test"}}, 't'); if (c == '/') return; o.mode = c == 'r' ? 1 : 2; }
    if (!o.order) { const char c = ask("List order", {{'b', "from beginning"}, {'e', "from end"}, {'r', "random"}}, 'r'); if (c == '/') return; o.order = c == 'b' ? 1 : c == 'e' ? 2 : 3; }
    const char t = o.type ? o.type : ask("Type", {{'f', "freq"}, {'g', "grade"}, {'k', "kyu"}, {'l', "JLPT"}, {'m', "meaning"}, {'p', "pattern"}}, 'g');
    using R = std::pair<char, char>;
    char c = o.list;
    switch (t) {
    case 'f': if (!c) c = ask("Choose frequency list", {{'0', "top 250 Kanji"}}, {}, R{'1', '9'}); if (c != '/') listQuiz(o, m.freqs[(size_t)(c - '0')], I_Freq); break;
    case 'g': if (!c) c = ask("Choose grade", {{'s', "Secondary School"}}, '6', R{'1', '6'}); if (c != '/') listQuiz(o, m.grades[c == 's' ? 6 : (size_t)(c - '1')], I_Grade); break;
    case 'k': if (!c) c = ask("Choose kyu", {{'a', "10"}, {'b', "準１級"}, {'c', "準２級"}}, '2', R{'1', '9'}); if (c != '/') { static const Str Kyus = "a9876543c2b1"; listQuiz(o, m.kyus[Kyus.find(c)], I_Kyu); } break;
    case 'l': if (!c) c = ask("Choose level", {{'1', "N1"}, {'2', "N2"}, {'3', "N3"}, {'4', "N4"}, {'5', "N5"}}); if (c != '/') listQuiz(o, m.levels[(size_t)('5' - c)], I_Level); break;
    case 'm': groupQuiz(o, true); break;
    case 'p': groupQuiz(o, false); break;
    }
  }
  enum End { Finished, Refused, Ended };
  // judges the transcript; after that everything printed is accounted for
  End run(const Strs& args) {
    try {
      QuizOpts o;
      if (arguments(args, o)) quizzes(o);
      for (auto& a : args) if (a == "-debug" || a == "-info") at = out.size();
      if (at != out.size()) bad("wrong-text", "nothing more should be printed");
      return Finished;
    } catch (const Refuse& r) {
      for (auto& a : args) if (a == "-debug" || a == "-info") at = out.size();
      const Str rest = out.substr(at);
      if (!rest.empty() && rest != "\nFinal score: 0/0\n") bad("wrong-text", "a refusal (" + r.why + ") should end the program here");
      return Refused;
    } catch (const InputEnded&) {
      if (!onlyScoreLeft()) bad("wrong-score", "input has ended: expected '" + finalScore() + "' or nothing");
      return Ended;
    }
  }
};
} // namespace w

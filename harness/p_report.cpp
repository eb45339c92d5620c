// C17: the -info and -debug reports tell the truth about the loaded data
#include "world.h"
using namespace w;
static Str dirOf(const World& x) { return "/sim/w" + num(x.seed) + "/data"; }
static const char* warm() {
  if (auto e = warmWorlds(400, 21000)) return e;
  for (auto* x : worlds()) putWorld(dirOf(*x), x->files);
  return nullptr;
}
// padding is not what the report is about: runs of (wide) spaces count as one, numbers in
// brackets may be padded, and a list may end in a separator
static Str plain(const Str& s) {
  Str a, r;
  for (size_t i = 0; i < s.size();) {
    if (!s.compare(i, 3, "　")) { a += ' '; i += 3; } else a += s[i++];
  }
  for (size_t i = 0; i < a.size(); ++i) {
    const char c = a[i];
    if (c == ' ' && (r.empty() || r.back() == ' ' || r.back() == '[' || r.back() == '(' || r.back() == '\n')) continue;
    if (c == '0' && !r.empty() && r.back() == '[' && i + 1 < a.size() && a[i + 1] != ']') { // zero padding of a short number
      size_t k = i;
      while (k < a.size() && a[k] >= '0' && a[k] <= '9') ++k;
      if (k < a.size() && a[k] == ']' && k - i < 4) continue;
    }
    if (c == ']' || c == ')' || c == '\n') while (!r.empty() && (r.back() == ' ' || (c == ')' && r.back() == ','))) r.pop_back();
    r += c;
  }
  return r;
}
static Str code(const Str& s) { return "[" + uni(s) + "] " + s; }
using Pred = std::function<bool(KP)>;

struct Report {
  const Model& m;
  bool full;
  Str o;
  static Str typesHead() { Str s; for (int t = 0; t < 8; ++t) s += (t ? " " : "") + Str(TypeName[t]); return s; }
  void log(const Str& s) { o += ">>> " + s; }
  void found(const Strs& l, const Str& type, const Str& group) {
    if (l.empty()) return;
    log("Found " + num(l.size()) + " " + type + " in " + group + ":");
    for (auto& i : l) o += " " + i;
    o += "\n";
  }
  size_t cnt(int t, const Pred& p) const { return (size_t)std::count_if(m.types[(size_t)t].begin(), m.types[(size_t)t].end(), p); }
  void lists() {
    for (int lv = 0; lv < 5; ++lv) list(m.levels[(size_t)lv], LevelName[lv], true);
    list(m.byFreq, "Frequency", false);
  }
  void list(const std::vector<KP>& l, const Str& name, bool jlpt) {
    Strs f[9];
    for (auto k : l) if (k->type != Jouyou) f[k->type].push_back(tokenOf(k, jlpt));
    found(f[LinkedOld], "Linked Old", name);
    found(f[Frequency], Str("non-Jouyou/Jinmei") + (jlpt ? "" : "/JLPT"), name);
    if (jlpt) { found(f[Jinmei], "Jinmei", name); found(f[LinkedJinmei], "Linked Jinmei", name); return; }
    for (int k = 0; k < 2; ++k) {
      Strs a, b;
      for (auto& n : f[k ? LinkedJinmei : Jinmei]) (m.levelIdx.count(n) ? a : b).push_back(n);
      found(a, Str("JLPT ") + (k ? "Linked " : "") + "Jinmei", name);
      found(b, Str("non-JLPT ") + (k ? "Linked " : "") + "Jinmei", name);
    }
  }
  Str tokenOf(KP k, bool jlpt) const { // the list's own spelling
    if (!hasVS(k->name)) return k->name;
    return (jlpt ? m.levelIdx.count(k->name) : m.freqIdx.count(k->name)) ? k->name : k->compat;
  }
  void count(const Str& name, const Pred& p, size_t examples = 0) {
    Strs v;
    size_t total = 0;
    for (int t = 0; t < 8; ++t) {
      const size_t n = cnt(t, p);
      if (!n) continue;
      total += n;
      Str s = Str(TypeName[t]) + " " + num(n);
      size_t e = 0;
      for (auto k : m.types[(size_t)t]) if (p(k) && e < examples) s += " " + k->name, ++e;
      v.push_back(s);
    }
    if (total) log(name + " " + num(total) + " (" + join(v, ", ") + ")\n");
  }
  void grades() {
    log("Grade breakdown:\n");
    size_t all = 0;
    for (int g = 0; g < 7; ++g) {
      const size_t n = cnt(Jouyou, [&](KP k) { return k->grade == g; });
      if (!n) continue;
      all += n;
      const size_t nf = cnt(Jouyou, [&](KP k) { return k->grade == g && !k->freq; });
      Strs v;
      for (int l = 0; l <= 5; ++l) if (const size_t c = cnt(Jouyou, [&](KP k) { return k->grade == g && k->level == (l < 5 ? l : -1); })) v.push_back((l < 5 ? Str(LevelName[l]) : "None") + " " + num(c));
      log(Str("Total for grade ") + GradeName[g] + ": " + num(n) + (nf ? " (nf " + num(nf) + ")" : "") + " (" + join(v, ", ") + ")\n");
    }
    log("Total for all grades: " + num(all) + "\n");
  }
  void stats(const Str& name, int n, const char* const* names, int K::*field, bool nf) {
    log(name + " breakdown:\n");
    size_t total = 0;
    for (int j = 0; j <= n; ++j) {
      const int i = j < n ? j : -1;
      Strs v;
      size_t s = 0;
      for (int t = 0; t < 8; ++t) {
        const size_t c = cnt(t, [&](KP k) { return k->*field == i; }), z = cnt(t, [&](KP k) { return k->*field == i && !k->freq; });
        if (!c) continue;
        s += c;
        v.push_back(Str(TypeName[t]) + " " + num(c) + (nf && z ? " nf " + num(z) : ""));
      }
      if (!s) continue;
      total += s;
      log("Total for " + name + " " + (i < 0 ? "None" : names[i]) + ": " + num(s) + " (" + join(v, ", ") + ")\n");
    }
    log("Total for all " + name + "s: " + num(total) + "\n");
  }
  static Str four(size_t n) { char b[24]; snprintf(b, sizeof b, "%4zu", n); return b; }
  static Str radical(const Rad& r) { char b[24]; snprintf(b, sizeof b, "[%03u] ", r.number); return b + r.name; }
  void radicals() {
    log("Common Kanji Radicals (" + typesHead() + "):\n");
    std::map<uint32_t, std::vector<KP>> by;
    for (auto& [n, k] : m.names) { uint32_t c; if (oneChar(n, c) && commonKanjiCp(c)) by[k->rad.number].push_back(k); }
    size_t total[8]{}, all = 0;
    for (auto& [r, v] : by) {
      std::sort(v.begin(), v.end(), [](KP a, KP b) { return byStrokes(*a, *b); });
      size_t c[8]{};
      for (auto k : v) ++c[k->type], ++total[k->type], ++all;
      o += radical(v[0]->rad) + ":" + four(v.size()) + " (";
      for (auto x : c) o += four(x);
      o += ") :";
      for (size_t i = 0; i < v.size() && i < 12; ++i) o += " " + v[i]->name;
      o += v.size() > 12 ? " ...\n" : "\n";
    }
    log("Total for " + num(by.size()) + " radicals: " + num(all) + " (");
    for (int t = 0; t < 8; ++t) o += (t ? " " : "") + num(total[t]);
    o += ")\n";
    Strs miss;
    for (auto& r : m.rads) if (!by.count(r.number)) miss.push_back(radical(r));
    if (!miss.empty()) log("Found " + num(miss.size()) + " radical" + (miss.size() > 1 ? "s" : "") + " with no Kanji: " + join(miss, " ") + "\n");
  }
  void ucd() {
    log("Kanji Loaded from Unicode 'ucd' file:\n");
    static const char* const N[]{"Total", "Links", "VStrokes", "Meanings", "On Readings", "Kun Readings", "Morohashi Ids", "Nelson Ids"};
    size_t c[8][3]{};
    for (auto& [n, u] : m.ucd) {
      const int w = u.joyo ? 0 : u.jinmei ? 1 : 2;
      const bool y[]{true, !u.links.empty(), u.vstrokes != 0, !u.meaning.empty(), !u.on.empty(), !u.kun.empty(), u.moro.id != 0, !u.nelson.empty()};
      for (int i = 0; i < 8; ++i) c[i][w] += y[i];
    }
    for (int i = 0; i < 8; ++i) log(Str(N[i]) + ": " + num(c[i][0] + c[i][1] + c[i][2]) + " (Jouyou " + num(c[i][0]) + ", Jinmei " + num(c[i][1]) + ", Other " + num(c[i][2]) + ")\n");
    const auto links = [](const Ucd& u) { Strs v; for (auto& l : u.links) v.push_back("[" + hex4(cps(l)[0]) + "] " + l); return join(v, ", "); };
    for (int t : {(int)Frequency, (int)Extra}) {
      Str s;
      size_t n = 0;
      for (auto k : m.types[(size_t)t]) {
        auto i = m.ucd.find(k->name);
        if (i == m.ucd.end()) s += "  ERROR: " + k->name + " not found in UCD\n";
        else if (!i->second.links.empty()) { ++n; s += "  " + code(i->second.name) + " -> " + links(i->second) + " " + LinkTypeName[i->second.linkType] + "\n"; }
      }
      log(Str(TypeName[t]) + " Kanji with links " + num(n) + ":\n" + s);
    }
    log("  Standard Kanji with 'Variation Selectors' vs UCD Variants:\n");
    log("    #      Standard Kanji with Selector    UCD Compatibility Kanji\n");
    log("    -      ----------------------------    -----------------------\n");
    size_t n = 0;
    for (auto& [name, k] : m.names) {
      if (!hasVS(name)) continue;
      const Ucd* u = m.findUcd(name);
      log("    " + num(++n) + "    " + code(name) + " variant of " + baseOf(name) + "    " + code(u->name) + (u->links.empty() ? "" : " variant of " + links(*u)) + "\n");
    }
  }
  void groups(const std::vector<Grp>& l, bool pat) {
    log("Loaded " + num(pat ? m.patternOf.size() : m.meaningOf.size()) + " kanji into " + num(l.size()) + " groups\n");
    if (full) log(Legend + "\nName (number of entries)   Parent Member : Other Members\n");
    std::set<Str> seen[9];
    std::map<Str, size_t> times;
    for (auto& g : l) {
      if (full) o += "[" + num(g.number) + "] " + g.name + (pat ? "(" : " (") + num(g.members.size()) + ")" + (pat ? " " : " :");
      for (auto k : g.members) {
        const bool first = k == g.members[0];
        if (full) o += !pat || !first ? " " + k->qual() : g.pattern == 1 ? " : " + k->qual() : g.pattern == 2 ? k->qual() : k->qual() + ":";
        seen[k->type].insert(k->name);
        ++times[k->name];
      }
      if (full) o += "\n";
    }
    if (!pat && times.size() < m.meaningOf.size()) {
      size_t most = 0, multi = 0;
      for (auto& [k, n] : times) { most = std::max(most, n); multi += n > 1; }
      log("Unique kanji: " + num(times.size()) + " (once " + num(times.size() - multi) + ", multi " + num(multi) + ")\n");
      for (size_t i = 2; i <= most; ++i) {
        o += "  Kanji in " + num(i) + " groups:";
        for (auto& [k, n] : times) if (n == i) o += " " + k;
        o += "\n";
      }
    }
    o += "Type Breakdown (showing up to 12 missing examples per type)\n";
    for (int t = 0; t < 8; ++t) {
      if (seen[t].empty()) continue;
      auto& all = m.types[(size_t)t];
      o += Str(TypeName[t]) + ": " + num(seen[t].size()) + " / " + num(all.size());
      Strs miss;
      for (auto k : all) if (!seen[t].count(k->name) && miss.size() < 12) miss.push_back(k->name);
      o += (miss.empty() ? "" : " (" + join(miss, " ") + ")") + "\n";
    }
  }
  void jukugo() {
    std::set<std::pair<Str, Str>> by[7];
    size_t total = 0;
    Strs types[9];
    for (auto& [k, v] : m.jukugo) {
      for (auto& j : v) total += by[j.grade].insert({j.name, j.reading}).second;
      KP p = m.find(k);
      types[p ? p->type : NoType].push_back(k);
    }
    o += ">>>\n>>> Begin Loading Jukugo\n>>>\n";
    for (int g = 0; g < 7; ++g) log("Loaded " + num(by[g].size()) + " for Grade: " + GradeName[g] + "\n");
    log("Total Kanji with Jukugo: " + num(m.jukugo.size()) + ", unique jukugo: " + num(total) + "\n");
    for (int t = 0; t < 9; ++t) {
      if (types[t].empty()) continue;
      o += Str(t == NoType ? "None" : TypeName[t]) + ": " + num(types[t].size()) + " (";
      for (size_t i = 0; i < types[t].size() && i < 12; ++i) o += (i ? " " : "") + types[t][i];
      o += ")\n";
    }
  }
  Str make(bool quiz) {
    if (full) {
      o += ">>>\n>>> Begin Loading Data\n>>>\n";
      lists();
      for (int t = 0; t < 8; ++t) {
        Strs v;
        for (auto k : m.types[(size_t)t]) if (const Ucd* u = m.findUcd(k->name); u && u->strokes != k->strokes) v.push_back(k->name);
        found(v, Str(TypeName[t]) + " Kanji with different strokes", "_ucd");
      }
      o += ">>>\n>>> Finished Loading Data\n>>>\n";
    }
    Strs v;
    for (int t = 0; t < 8; ++t) v.push_back(Str(TypeName[t]) + " " + num(m.types[(size_t)t].size()));
    log("Loaded " + num(m.names.size()) + " Kanji (" + join(v, " ") + ")\n");
    if (full) {
      count("Has JLPT level", [](KP k) { return k->level >= 0; });
      count("Has frequency and not in Jouyou or JLPT", [](KP k) { return k->freq && k->type != Jouyou && k->level < 0; });
      count("Jinmei with no frequency and not JLPT", [](KP k) { return k->type == Jinmei && !k->freq && k->level < 0; });
      count("NF (no-frequency)", [](KP k) { return !k->freq; });
      count("Has Variant Strokes", [](KP k) { return k->vstrokes != 0; });
      count("Has Variation Selectors", [](KP k) { return hasVS(k->name); }, 5);
      count("Old Forms", [](KP k) { return !k->oldNames.empty(); });
    }
    grades();
    if (full) {
      stats("Level", 5, LevelName, &K::level, true);
      stats("Kyu", 12, KyuName, &K::kyu, false);
      radicals();
      ucd();
    }
    if (quiz) { groups(m.meaning, false); groups(m.pattern, true); jukugo(); }
    return o;
  }
};

static void run_C17() {
  set_step_limit(1'500'000'000);
  enable_threads(false);
  World& wd = pickWorld();
  const Str dir = dirOf(wd);
  const bool quiz = draw(3) != 2, full = draw(3) != 2;
  Strs a{quiz ? "kanjiQuiz" : "kanjiStats", full ? "-debug" : "-info"};
  if (draw(4) == 3) { mkdirs(dir.substr(0, dir.size() - 5) + "/x/y"); set_cwd(dir.substr(0, dir.size() - 5) + (draw(2) ? "/x/y" : "")); }
  else { a.insert(a.begin() + 1 + draw(2), {"-data", dir}); set_cwd("/sim"); }
  set_stdin(draw(2) ? IN_NULL : IN_TTY);
  set_user([](Str&) { return false; });
  if (draw(2)) { set_rate(F_SHORT_READ, draw(2) ? 3000 : 30000); set_rate(F_EINTR_READ, draw(3) == 2 ? 5000 : 0); }
  if (draw(2)) set_rate(F_STDOUT_SHORT, draw(2) ? 4000 : 40000);
  if (draw(3) == 2) { set_rate(F_DIR_ORDER, 65536); set_rate(F_DTYPE_UNKNOWN, 32768); }
  if (draw(4) == 3) {
    std::vector<Node*> fs;
    each_file(lookup(dir), "", [&](const Str&, Node* n) { fs.push_back(n); });
    switch (draw(4)) {
    case 0: { Node* n = pick(fs); n->bad_off = (int64_t)draw((uint32_t)n->data.size() + 1); break; }
    case 1: pick(fs)->unreadable = true; break;
    case 2: set_nth(F_EIO_READ, range(1, 160), 1); break;
    default: set_nth(F_OPEN_FAIL, range(1, 44), 1); break;
    }
  }
  for (auto& x : a) event("arg %s", x.c_str());
  const auto r = run_program(a, quiz ? run_quiz_main : run_stats_main);
  const bool f = any_fired({F_BAD_SECTOR, F_UNREADABLE_FILE, F_EINTR_READ, F_EIO_READ, F_OPEN_FAIL});
  if (disk_modified()) violation("data-modified", "reporting wrote to the data files");
  if (r.threw) violation("escaped-exception", "main threw %s", r.what.c_str());
  if (r.status != 0) {
    if (!f) violation("wrong-status", "exit status %d; stderr: %s", r.status, clip(screen().err).c_str());
    if (screen().err.empty()) violation("no-message", "exit status %d without a message", r.status);
    probe("failure reported");
    return;
  }
  Report want{wd.m, full, {}};
  const Str w = plain(want.make(quiz)), got = plain(screen().out);
  distinct("report", hash_str(got));
  if (w != got) violation(f ? "silent-partial" : "wrong-report", "the report is not true of the data: %s", diff(w, got).c_str());
  if (!screen().err.empty()) violation("unexpected-message", "stderr: %s", clip(screen().err).c_str());
  probe(full ? (quiz ? "full quiz report" : "full stats report") : "summary report");
  if (w.find("with no Kanji") != Str::npos) probe("radicals with no Kanji");
  if (w.find("Unique kanji") != Str::npos) probe("kanji in several groups");
  if (w.find("different strokes") != Str::npos) probe("different strokes");
  if (w.find("Linked Jinmei in") != Str::npos) probe("lists with linked Kanji");
}
PROPS({"C17", warm, run_C17})

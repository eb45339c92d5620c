// C05 concurrent queries, C12 load faults, C13 exact loading
#include "loaded.h"
#include <kt_kana/Converter.h>
#include <kt_kana/DisplaySize.h>
#include <kt_kana/Kana.h>
#include <kt_kana/Utf8Char.h>
#include <kt_utils/UnicodeBlock.h>
#include <thread>
using namespace w;

static const char* warm() { return warmWorlds(96); }
// where the data directory is and how the program finds it
static Str place(Strs& args, const Files& f, bool* notData = nullptr) {
  Str dir;
  switch (draw(8)) {
  default: dir = "/sim/d"; args = {"prog", "-data", "/sim/d"}; break;
  case 2: dir = "/sim/w/rel"; args = {"prog", "-data", "rel"}; set_cwd("/sim/w"); mkdirs("/sim/w"); break;
  case 3: dir = "/sim/a/data"; args = {"prog"}; mkdirs("/sim/a/b/c"); set_cwd("/sim/a/b/c"); break;
  case 4: dir = "/sim/a/data"; args = {"prog", "-x"}; put_file("/sim/a/b/data/one.txt", "x"); set_cwd("/sim/a/b"); break; // a 'data' directory of something else is nearer
  case 6: dir = "/sim/a/data"; args = {"prog"}; putWorld("/sim/a/b/data", f); put_file("/sim/a/b/data/z.txt", ""); set_cwd("/sim/a/b"); break; // the nearer one has too many files
  case 5: dir = "/sim/app/data"; args = {"/sim/app/out/prog"}; mkdirs("/sim/app/out"); mkdirs("/sim/else"); set_cwd("/sim/else"); break;
  }
  putWorld(dir, f);
  if (notData && draw(24) == 23) { // one data file too many or too few
    if (draw(2)) put_file(dir + "/x" + (draw(2) ? ".y" : "") + ".txt", ""); else remove_node(dir + "/" + pick(Strs{"jouyou.txt", "pattern-groups.txt", "ucd.txt"}));
    *notData = true;
  }
  if (draw(4) == 3) put_file(dir + "/README.md", "notes");
  if (draw(6) == 5) mkdirs(dir + "/old");
  return dir;
}
static Strs paths(const Files& f) { Strs v; for (auto& [n, t] : f) v.push_back(n); return v; }

static void run_C13() {
  enable_threads(false);
  set_step_limit(900'000'000);
  World& wd = pickWorld();
  Strs args;
  bool notData = false;
  const Str dir = place(args, wd.files, &notData);
  Model own;
  const Model* m = &wd.m;
  Str refused;
  bool nul = false;
  if (notData) { refused = "not a data directory"; distinct("data set", ~(uint64_t)wd.seed); }
  else if (draw(3)) { // damage one or two files
    Files f = wd.files;
    const Strs names = paths(f);
    for (uint32_t n = draw(5) == 4 ? 2 : 1; n--;) {
      const Str& nm = pick(names);
      Str& t = f[nm];
      if (t.empty()) continue;
      switch (draw(8)) {
      case 5: case 6: { // a misdirected write: one value replaced by another of the data
        auto tokens = [](const Str& x) { std::vector<std::pair<size_t, size_t>> v; for (size_t b = 0, e; b <= x.size(); b = e + 1) { e = std::min(x.find_first_of("\t\n ,()", b), x.size()); v.push_back({b, e - b}); } return v; };
        const Str& from = draw(2) ? t : f[pick(names)];
        const auto a = tokens(t), b = tokens(from);
        const auto x = pick(a), y = pick(b);
        Str to = from.substr(y.first, y.second);
        if (draw(3) == 2 && !wd.m.compat.empty()) { auto c = wd.m.compat.begin(); std::advance(c, draw((uint32_t)wd.m.compat.size())); to = draw(2) ? c->first : draw(2) ? c->second : baseOf(c->second); }
        t = t.substr(0, x.first) + to + t.substr(x.first + x.second);
        fired(F_MISDIRECTED);
        break;
      }
      case 4: { // a line lost, written twice, or two lines exchanged
        Strs ls = split(t, '\n');
        const uint32_t i = draw((uint32_t)ls.size()), k = draw(3);
        if (k == 0) ls.erase(ls.begin() + i); else if (k == 1) ls.insert(ls.begin() + draw((uint32_t)ls.size() + 1), ls[i]); else std::swap(ls[i], ls[draw((uint32_t)ls.size())]);
        t = ls.empty() ? "" : join(ls, "\n") + "\n";
        fired(F_LOST_BLOCK);
        break;
      }
      case 7: { // a line of a file of the same kind lands here, or a line ends in another's list
        Strs kin;
        for (auto& x : names) if (x != nm && nm.size() > 5 && x.size() > 5 && (nm.find('/') != Str::npos ? x.substr(0, 5) == nm.substr(0, 5) : nm.find("groups") != Str::npos && x.find("groups") != Str::npos)) kin.push_back(x);
        const Strs from = split(kin.empty() ? t : f[pick(kin)], '\n');
        if (from.empty()) continue;
        Strs ls = split(t, '\n');
        if (kin.empty() || draw(3) == 2) { // glued: the end of one line repeated after another
          const Str& src = from[draw((uint32_t)from.size())];
          Str& dst = ls[draw((uint32_t)ls.size())];
          const size_t c = src.find_last_of("\t, ");
          dst += (nm.find("groups") != Str::npos ? "," : nm.find('/') != Str::npos ? " " : ",") + (c == Str::npos ? src : src.substr(c + 1));
        } else ls.insert(ls.begin() + draw((uint32_t)ls.size() + 1), from[draw((uint32_t)from.size())]);
        t = join(ls, "\n") + "\n";
        fired(F_MISDIRECTED);
        break;
      }
      case 0: t.resize(draw((uint32_t)t.size())); fired(F_TRUNCATED_FILE); break;
      case 1: case 2: {
        const uint32_t at = draw((uint32_t)t.size());
        static const Str any("0123456789\t\n ,()PH'-SGYN.xA\xe3\x80\xff", 32);
        t[at] = draw(2) ? (char)((unsigned char)t[at] ^ (1u << draw(8))) : any[draw((uint32_t)any.size())];
        fired(F_CORRUPT_BYTE);
        break;
      }
      case 3: {
        const uint32_t bs = draw(2) ? 512 : 64, at = draw((uint32_t)(t.size() / bs) + 1) * bs, len = (uint32_t)std::min<size_t>(bs, t.size() - std::min<size_t>(at, t.size()));
        if (draw(3) == 2) t.replace(std::min<size_t>(at, t.size()), len, len, '\0'); else t.erase(std::min<size_t>(at, t.size()), len);
        fired(F_LOST_BLOCK);
        break;
      }
      }
      if (t.find('\0') != Str::npos) nul = true;
      lookup(dir + "/" + nm)->data = t;
      event("damaged %s", nm.c_str());
    }
    try { own.load(f); } catch (Refuse& r) { refused = r.why; }
    m = &own;
    Str all; for (auto& [n, t] : f) all += t;
    distinct("data set", hash_str(all));
  } else distinct("data set", wd.seed);
  Loaded l;
  const auto r = run_lib([&] { l.load(args, true); });
  if (disk_modified()) violation("data-modified", "loading wrote to the data files");
  if (r.threw) {
    if (r.what.empty()) violation("no-message", "loading failed without a message");
    if (refused.empty() && !nul) violation("refused-good-data", "loading refuses well-formed data: %s", r.what.c_str());
    probe(notData ? "not a data directory" : "damaged data refused");
    return;
  }
  if (nul) { probe("damage with NUL bytes"); return; }
  if (!refused.empty()) violation("accepted-bad-data", "loading accepts data which is not well-formed (%s)", refused.c_str());
  Str bad;
  run_lib([&] { bad = compare(l, *m); });
  if (!bad.empty()) violation("wrong-data", "%s", bad.c_str());
  probe(m == &own ? "damaged data loaded as it says" : "complete data compared");
}

static void run_C12() {
  enable_threads(false);
  set_step_limit(900'000'000);
  World& wd = pickWorld();
  Strs args;
  const Str dir = place(args, wd.files);
  const Strs names = paths(wd.files);
  bool missing = false;
  const uint32_t kind = draw(13);
  if (kind >= 1) { set_rate(F_SHORT_READ, draw(2) ? 3000 : 30000); set_rate(F_EINTR_READ, draw(3) == 2 ? 6000 : 0); }
  if (draw(3) == 2) set_rate(F_DTYPE_UNKNOWN, 32768);
  if (draw(3) == 2) set_rate(F_DIR_ORDER, 65536);
  auto nd = [&] { return lookup(dir + "/" + pick(names)); };
  switch (kind) {
  case 2: case 3: { Node* n = nd(); n->bad_off = (int64_t)draw((uint32_t)n->data.size() + 1); break; }
  case 4: set_nth(F_EIO_READ, range(1, 90)); break;
  case 5: nd()->unreadable = true; break;
  case 6: for (uint32_t n = range(1, 4); n--;) { nd()->readonly = true; fired(F_READONLY_FILE); } break;
  case 7: set_nth(F_OPEN_FAIL, range(1, 40), draw(3) == 2 ? 1000 : 1); break;
  case 8: set_nth(F_STAT_FAIL, range(1, 90), draw(3) == 2 ? 1000 : 1); break;
  case 9: set_nth(draw(2) ? F_OPENDIR_FAIL : F_READDIR_FAIL, range(1, 14)); break;
  case 10: { const Str p = dir + "/" + pick(names); remove_node(p); if (draw(3) == 2) put_link(p, "nowhere"); else if (draw(3) == 2) mkdirs(p); missing = true; fired(F_MISSING_FILE); break; }
  case 12: set_alloc_window(1 + draw(wd.big == 2 ? 9000 : wd.big ? 3500 : 2000), draw(3) == 2 ? 20 : 1); break;
  case 11: { const Str nm = pick(names), p = dir + "/" + nm; remove_node(p); put_file("/sim/elsewhere/" + nm, wd.files.at(nm)); put_link(p, "/sim/elsewhere/" + nm); probe("data file behind a link"); break; }
  }
  distinct("fault plan", hash_str(num(wd.seed) + ":" + num(kind)) ^ disk_hash());
  Loaded l;
  const auto r = run_lib([&] { l.load(args, true); });
  const bool err = missing || any_fired({F_BAD_ALLOC, F_EINTR_READ, F_EIO_READ, F_BAD_SECTOR, F_UNREADABLE_FILE, F_OPEN_FAIL, F_STAT_FAIL, F_OPENDIR_FAIL, F_READDIR_FAIL});
  if (disk_modified()) violation("data-modified", "loading wrote to the data files");
  if (r.threw) {
    if (!err) violation("spurious-failure", "loading fails without any error: %s", r.what.c_str());
    if (r.what.empty()) violation("no-message", "loading failed without a message");
    probe("load error reported");
    return;
  }
  Str bad;
  run_lib([&] { bad = compare(l, wd.m); });
  if (!bad.empty()) violation(err ? "silent-partial" : "wrong-data", "data loaded %swithout complaint differs from the files: %s", err ? "after an error " : "", bad.c_str());
  probe(err ? "error tolerated with complete data" : "complete data compared");
}

// ---- C05 -----------------------------------------------------------------------
struct Op { int kind; Str s; uint32_t a, b, c; };
static const Strs Texts{"ka", "kyou", "shinnyuu", "っか", "きゃー", "カタカナ", "ヴ", "tōkyō", "kan'i", "nn", "づつゞ", "がぎ", "ﾊ", "漢字", "ヽヾ", "(a)、b", "wo-", "ゐゑ"};
static Str exec(const Op& o, const Loaded& l) {
  const auto* d = l.d.get();
  switch (o.kind) {
  case 0: { auto p = d->findByName(o.s); return p ? describe(*p, (int)o.a) : "-"; }
  case 1: { auto p = d->findByFrequency((uint16_t)o.a); return p ? p->qualifiedName() + p->info((kt::Kanji::Info)o.b) : "-"; }
  case 2: return names(d->findByMorohashiId(o.s));
  case 3: return names(d->findByNelsonId((uint16_t)o.a));
  case 4: { auto u = d->findUcd(o.s); return u ? describe(*u) + u->codeAndName() + u->linkCodeAndNames() : "-"; }
  case 5: { kt::KanjiData::List v; size_t n = 0; for (auto& [k, p] : d->nameMap()) { if (n++ % o.b == o.a) v.push_back(p); if (v.size() > 8) break; } if (o.c) std::stable_sort(v.begin(), v.end(), kt::KanjiData::OrderByStrokes); else std::stable_sort(v.begin(), v.end(), kt::KanjiData::OrderByQualifiedName); return names(v); }
  case 6: { kt::Converter c{(kt::CharType)(o.a % 3), (kt::ConvertFlags)o.b}; Str r = c.convert(o.s); c.flags((kt::ConvertFlags)o.c); return r + "|" + c.convert((kt::CharType)(o.a / 3 % 3), o.s, (kt::CharType)(o.b % 3)) + c.flagString(); }
  case 7: return num(kt::isKanji(o.s)) + num(kt::isKana(o.s)) + num(kt::isMBPunctuation(o.s)) + num(kt::isRecognizedUtf8(o.s)) + num(kt::isAllKana(o.s)) + num((uint32_t)kt::validateUtf8(o.s)) + num(kt::isValidMBUtf8(o.s, true)) + kt::toUnicode(o.s, kt::BracketType::Square) + num(kt::displaySize(kt::fromUtf8(o.s))) + num((uint32_t)kt::wideSetw(o.s, 30));
  case 8: { kt::Utf8Char u{o.s}; Str r, x; while (u.next(x, o.a)) r += x + "/"; return r + num(u.errors()) + num(u.variants()) + num(u.combiningMarks()) + num(u.size()) + num(kt::Utf8Char::size(o.s)); }
  case 9: { auto& jl = l.j->find(o.s); auto mi = l.g->meaningMap().find(o.s); auto pi = l.g->patternMap().find(o.s); std::ostringstream os; if (mi != l.g->meaningMap().end()) os << *mi->second << mi->second->toString(); if (pi != l.g->patternMap().end()) os << *pi->second << names(pi->second->members()); return cat(jl, [](auto& j) { return j->nameAndReading(); }) + os.str(); }
  case 10: { Str r; for (auto& p : d->levels()[kt::AllJlptLevels[o.a % 5]]) r += p->name(); for (auto& p : d->frequencyList(o.b % 11)) r += p->name(); for (auto& p : d->grades()[kt::AllKanjiGrades[o.c % 7]]) r += p->qualifiedName(); return r + num((uint32_t)d->getType(o.s)) + kt::toString(d->level(o.s)) + kt::toString(d->kyu(o.s)) + num(d->frequency(o.s)); }
  case 11: { auto& km = kt::Kana::getMap((kt::CharType)(o.a % 3)); auto i = km.lower_bound(o.s); if (i == km.end()) i = km.begin(); auto& k = *i->second; return k.romaji() + k.hiragana() + k.katakana() + k.getRomaji((kt::ConvertFlags)o.b) + k.dakuten(kt::CharType::Hiragana).value_or("-") + num(k.isSmall()) + kt::Kana::findDakuten(o.s).value_or("-") + kt::Kana::findHanDakuten(o.s).value_or("-"); }
  }
  return "";
}
static void run_C05() {
  set_step_limit(900'000'000);
  World& wd = pickWorld();
  const bool bare = draw(4) == 3; // no data: converters and classifiers only, from first use
  Loaded l;
  if (!bare) {
    putWorld("/sim/d", wd.files);
    enable_threads(false);
    const auto r = run_lib([&] { l.load({"prog", "-data", "/sim/d"}, true); });
    if (r.threw) violation("load", "loading failed: %s", r.what.c_str());
  }
  Strs names_;
  for (auto& [n, k] : wd.m.names) names_.push_back(n);
  const uint32_t nt = range(2, 4);
  std::vector<std::vector<Op>> plan(nt);
  auto name = [&] { return draw(8) == 7 ? pick(Texts) : pick(names_); };
  auto text = [&] { Str s; for (uint32_t n = range(1, 4); n--;) s += draw(3) ? pick(Texts) : draw(2) ? pick(names_) : draw(2) ? Str("\xe3\x82") : Str("か\u3099"); return s; };
  for (auto& p : plan)
    for (uint32_t n = range(1, 8); n--;) {
      static const Strs none;
      Op o{(int)draw(12), "", 0, 0, 0};
      if (bare) { static const int k[]{6, 7, 8, 11}; o.kind = k[(uint32_t)o.kind % 4]; }
      switch (o.kind) {
      case 0: o.s = name(); o.a = draw(512); break;
      case 1: o.a = draw(wd.m.maxFreq + 1); o.b = draw(512); break;
      case 2: { o.s = "77"; if (!wd.m.moro.empty()) { auto i = wd.m.moro.begin(); std::advance(i, draw((uint32_t)wd.m.moro.size())); o.s = i->first.str(); } break; }
      case 3: { o.a = 9; if (!wd.m.nelson.empty()) { auto i = wd.m.nelson.begin(); std::advance(i, draw((uint32_t)wd.m.nelson.size())); o.a = i->first; } break; }
      case 4: o.s = name(); break;
      case 5: o.b = range(3, 30); o.a = draw(o.b); o.c = draw(2); break;
      case 6: o.s = pick(Texts); o.a = draw(9); o.b = draw(16); o.c = draw(16); break;
      case 7: o.s = draw(2) ? name() : text(); break;
      case 8: o.s = text(); o.a = draw(2); break;
      case 9: o.s = name(); break;
      case 10: o.a = draw(5); o.b = draw(11); o.c = draw(7); o.s = name(); break;
      case 11: o.a = draw(3); o.b = draw(16); o.s = pick(Texts).substr(0, 3); break;
      }
      p.push_back(o);
    }
  enable_threads(true);
  draw_strategy();
  std::vector<Strs> got(nt);
  const auto r = run_lib([&] {
    std::vector<std::thread> ts;
    for (uint32_t t = 0; t < nt; ++t) ts.emplace_back([&, t] { for (auto& o : plan[t]) { Str s; try { s = exec(o, l); } catch (const std::exception& e) { s = Str("threw ") + e.what(); } got[t].push_back(s); } });
    for (auto& t : ts) t.join();
  });
  if (r.threw) violation("escaped-exception", "concurrent queries threw %s", r.what.c_str());
  enable_threads(false);
  distinct("interleaving", sched_hash());
  for (uint32_t t = 0; t < nt; ++t)
    for (size_t i = 0; i < plan[t].size(); ++i) {
      const Op& o = plan[t][i];
      Str want;
      run_lib([&] { try { want = exec(o, l); } catch (const std::exception& e) { want = Str("threw ") + e.what(); } });
      if (got[t][i] != want) violation("wrong-result", "query %d(%s,%u,%u,%u) answered differently while other threads were running: %s", o.kind, o.s.c_str(), o.a, o.b, o.c, diff(want, got[t][i]).c_str());
      // and against the model where it knows the answer
      const Model& m = wd.m;
      if (o.kind == 0) { auto p = m.find(o.s); want = p ? describe(*p, (int)o.a) : "-"; }
      else if (o.kind == 1) want = o.a && o.a < m.maxFreq ? m.byFreq[o.a - 1]->qual() + m.byFreq[o.a - 1]->info((int)o.b) : "-";
      else if (o.kind == 2) { auto k = m.moro.begin(); while (k != m.moro.end() && k->first.str() != o.s) ++k; want = k == m.moro.end() ? "" : names(k->second); }
      else if (o.kind == 3) { auto k = m.nelson.find(o.a); want = k == m.nelson.end() ? "" : names(k->second); }
      if (got[t][i] != want) violation("wrong-result", "query %d(%s,%u) differs from the data files: %s", o.kind, o.s.c_str(), o.a, diff(want, got[t][i]).c_str());
    }
  probe(bare ? "first use from several threads" : "queries on loaded data from several threads");
}
PROPS({"C05", warm, run_C05}, {"C12", warm, run_C12}, {"C13", warm, run_C13})

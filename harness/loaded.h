// Comparison of really loaded data with the model, through the public interface.
#pragma once
#include "world.h"
#include <kt_kanji/TextKanjiData.h>
#include <kt_quiz/GroupData.h>
#include <kt_quiz/JukugoData.h>
#include <sstream>
namespace w {
namespace kt = kanji_tools;
struct Loaded {
  std::ostringstream out, err;
  std::shared_ptr<const kt::TextKanjiData> d;
  std::shared_ptr<const kt::GroupData> g;
  std::shared_ptr<const kt::JukugoData> j;
  std::vector<const char*> av;
  void load(const Strs& args, bool quiz) {
    for (auto& a : args) av.push_back(a.c_str());
    d = std::make_shared<kt::TextKanjiData>(kt::Args{(int)av.size(), av.data()}, out, err);
    if (quiz) { g = std::make_shared<kt::GroupData>(d); j = std::make_shared<kt::JukugoData>(d); }
  }
};
template <typename V, typename F> Str cat(const V& v, F f) { Str s; for (auto& x : v) { if (!s.empty()) s += ','; s += f(x); } return s; }
inline Str field(const char* n, const Str& v) { return Str(" ") + n + "=" + v; }
inline Str describe(const K& k, int info = I_All, bool reading = true) {
  Str s = k.name + field("type", TypeName[k.type]);
  if (k.grade >= 0) s += field("grade", GradeName[k.grade]);
  if (k.level >= 0) s += field("level", LevelName[k.level]);
  if (k.kyu >= 0) s += field("kyu", KyuName[k.kyu]);
  s += field("freq", num(k.freq)) + field("year", num(k.year)) + field("reason", k.reason >= 0 ? ReasonName[k.reason] : "-") + field("rad", num(k.rad.number) + k.rad.name + k.rad.longName + k.rad.reading + join(k.rad.alt, " ")) +
       field("strokes", num(k.strokes) + "/" + num(k.vstrokes)) + field("pinyin", k.pinyin) + field("moro", k.moro.str()) + field("nelson", cat(k.nelson, [](uint32_t i) { return num(i); })) + field("old", join(k.oldNames, ",")) + field("new", k.newName.value_or("-")) +
       field("lr", num(k.linkedReadings)) + field("link", k.link ? k.link->name : "-") + field("meaning", k.mean()) + field("compat", k.compat) + field("variant", num(hasVS(k.name))) + field("base", baseOf(k.name)) + field("extra", k.extra().value_or("-")) +
       field("info", k.info(info)) + field("q", k.qual());
  if (reading) s += field("reading", k.rd());
  return s;
}
inline Str describe(const kt::Kanji& k, int info = I_All, bool reading = true) {
  Str s = k.name() + field("type", kt::toString(k.type()));
  if (k.hasGrade()) s += field("grade", kt::toString(k.grade()));
  if (k.hasLevel()) s += field("level", kt::toString(k.level()));
  if (k.hasKyu()) s += field("kyu", kt::toString(k.kyu()));
  kt::RadicalRef r = k.radical();
  s += field("freq", num(k.frequency())) + field("year", num(k.year())) + field("reason", kt::hasValue(k.reason()) ? kt::toString(k.reason()) : "-") + field("rad", num(r.number()) + r.name() + r.longName() + r.reading() + join(r.altForms(), " ")) +
       field("strokes", num(k.strokes().value()) + "/" + num(k.strokes().variant())) + field("pinyin", k.pinyin().name()) + field("moro", k.morohashiId().toString()) + field("nelson", cat(k.nelsonIds(), [](auto i) { return num(i); })) + field("old", join(k.oldNames(), ",")) + field("new", k.newName().value_or("-")) +
       field("lr", num(k.linkedReadings())) + field("link", k.link() ? k.link()->name() : "-") + field("meaning", k.meaning()) + field("compat", k.compatibilityName()) + field("variant", num(k.variant())) + field("base", k.nonVariantName()) + field("extra", k.extraTypeInfo().value_or("-")) +
       field("info", k.info((kt::Kanji::Info)info)) + field("q", k.qualifiedName());
  if (reading) s += field("reading", k.reading());
  return s;
}
inline Str describe(const Ucd& u) {
  return u.name + field("code", hex4(u.code)) + field("block", u.block) + field("ver", u.version) + field("rad", num(u.radical)) + field("strokes", num(u.strokes) + "/" + num(u.vstrokes)) + field("pinyin", u.pinyin) + field("moro", u.moro.str()) + field("nelson", u.nelson) + field("src", u.sources) + field("jsrc", u.jsource) +
         field("joyo", num(u.joyo)) + field("jinmei", num(u.jinmei)) + field("links", join(u.links, ",")) + field("lt", u.linkType < 0 ? "-" : LinkTypeName[u.linkType]) + field("meaning", u.meaning) + field("on", u.on) + field("kun", u.kun);
}
inline Str describe(const kt::Ucd& u) {
  return u.name() + field("code", hex4(u.code())) + field("block", u.block().name()) + field("ver", u.version().name()) + field("rad", num(u.radical())) + field("strokes", num(u.strokes().value()) + "/" + num(u.strokes().variant())) + field("pinyin", u.pinyin().name()) + field("moro", u.morohashiId().toString()) + field("nelson", u.nelsonIds()) + field("src", u.sources()) + field("jsrc", u.jSource()) +
         field("joyo", num(u.joyo())) + field("jinmei", num(u.jinmei())) + field("links", cat(u.links(), [](auto& l) { return l.name(); })) + field("lt", kt::hasValue(u.linkType()) ? kt::toString(u.linkType()) : "-") + field("meaning", u.meaning()) + field("on", u.onReading()) + field("kun", u.kunReading());
}
inline Str names(const std::vector<KP>& v) { return cat(v, [](KP k) { return k->name; }); }
inline Str names(const kt::KanjiData::List& v) { return cat(v, [](auto& k) { return k->name(); }); }

// empty if everything agrees, otherwise what differs first
struct Cmp {
  Str bad;
  bool operator()(const Str& what, const Str& want, const Str& got) { if (bad.empty() && want != got) bad = what + ": " + diff(want, got); return want == got; }
};
inline Str compare(const Loaded& l, const Model& m) {
  Cmp c;
  const auto& d = *l.d;
  if (!c("number of Kanji", num(m.names.size()), num(d.nameMap().size()))) {
    for (auto& [n, k] : m.names) if (!d.nameMap().count(n)) c.bad += "; missing " + n;
    for (auto& [n, k] : d.nameMap()) if (!m.names.count(n)) c.bad += "; unexpected " + n;
    return c.bad;
  }
  for (auto& [n, k] : m.names) {
    auto p = d.findByName(n);
    auto q = m.find(n);
    if (!p) return "findByName(" + n + ") finds nothing";
    if (!c("Kanji " + n, describe(*q, I_All, q->lk().readingKnown), describe(*p, I_All, q->lk().readingKnown))) return c.bad;
    if (d.getType(n) != p->type()) return "getType(" + n + ")";
    auto it = d.nameMap().find(n);
    if (it == d.nameMap().end() || it->second->name() != k->name) return "nameMap entry " + n;
  }
  for (auto& [from, to] : m.compat) { auto p = d.findByName(from); auto q = m.find(from); c("findByName(" + from + ")", q ? q->name : "-", p ? p->name() : "-"); }
  for (auto n : {"", "x", "々", "あ", "日︀"}) if (!m.find(n)) c(Str("findByName(") + n + ")", "-", d.findByName(n) ? d.findByName(n)->name() : "-");
  auto typ = [&](size_t i) { return d.types()[kt::AllKanjiTypes[i]]; };
  for (size_t i = 0; i < 8; ++i) c(Str("type list ") + TypeName[i], names(m.types[i]), names(typ(i)));
  for (size_t i = 0; i < 7; ++i) c(Str("grade list ") + GradeName[i], names(m.grades[i]), names(d.grades()[kt::AllKanjiGrades[i]]));
  for (size_t i = 0; i < 5; ++i) c(Str("level list ") + LevelName[i], names(m.levels[i]), names(d.levels()[kt::AllJlptLevels[i]]));
  for (size_t i = 0; i < 12; ++i) c(Str("kyu list ") + KyuName[i], names(m.kyus[i]), names(d.kyus()[kt::AllKenteiKyus[i]]));
  for (size_t i = 0; i < 10; ++i) c("frequency list " + num(i), names(m.freqs[i]), names(d.frequencyList(i)));
  if (!d.frequencyList(10).empty()) return "frequencyList(10)";
  if (!c.bad.empty()) return c.bad;
  c("maxFrequency", num(m.maxFreq), num(kt::KanjiData::maxFrequency()));
  if (m.maxFreq == m.byFreq.size() + 1)
    for (uint32_t i = 0; i < m.maxFreq + 2; ++i) { auto p = d.findByFrequency((uint16_t)i); c("findByFrequency(" + num(i) + ")", i && i < m.maxFreq ? m.byFreq[i - 1]->name : "-", p ? p->name() : "-"); }
  for (auto& [id, v] : m.moro) c("findByMorohashiId(" + id.str() + ")", names(v), names(d.findByMorohashiId(id.str())));
  for (auto& [id, v] : m.nelson) c("findByNelsonId(" + num(id) + ")", names(v), names(d.findByNelsonId((uint16_t)id)));
  for (uint32_t id : {0u, 5447u, 65535u}) if (!m.nelson.count(id) && !d.findByNelsonId((uint16_t)id).empty()) return "findByNelsonId of an unused id";
  if (!m.moro.count({65535, 0}) && !d.findByMorohashiId("65535").empty()) return "findByMorohashiId of an unused id";
  c("number of Unicode entries", num(m.ucd.size()), num(d.ucd().map().size()));
  for (auto& [n, u] : m.ucd) { auto p = d.findUcd(n); if (!p) return "findUcd(" + n + ") finds nothing"; if (!c("findUcd", describe(u), describe(*p))) return c.bad; }
  for (auto& [n, k] : m.names) { auto p = d.findUcd(n); auto u = m.findUcd(n); c("findUcd(" + n + ")", u ? u->name : "-", p ? p->name() : "-"); }
  for (auto& [n, u] : m.ucd) if (!hasVS(n) && !u.links.empty()) for (const Str q : {u.links[0] + "\ufe00", n + "\ufe01"}) { auto p = d.findUcd(q); auto x = m.findUcd(q); c("findUcd(" + q + ")", x ? x->name : "-", p ? p->name() : "-"); }
  for (auto& [n, f] : m.freqIdx) c("frequency(" + n + ")", num(f), num(d.frequency(n)));
  for (auto& [n, x] : m.levelIdx) c("level(" + n + ")", LevelName[x], kt::toString(d.level(n)));
  for (auto& [n, x] : m.kyuIdx) c("kyu(" + n + ")", KyuName[x], kt::toString(d.kyu(n)));
  if (!c.bad.empty()) return c.bad;
  if (l.g)
    for (int pat = 0; pat < 2; ++pat) {
      auto& want = pat ? m.pattern : m.meaning;
      auto& got = pat ? l.g->patternGroups() : l.g->meaningGroups();
      if (!c("number of groups", num(want.size()), num(got.size()))) return c.bad;
      for (size_t i = 0; i < want.size(); ++i) {
        const Str what = Str(pat ? "pattern" : "meaning") + " group " + num(i);
        std::ostringstream os;
        os << *got[i];
        c(what, num(want[i].number) + want[i].name + " " + num((uint32_t)want[i].pattern) + names(want[i].members) + want[i].header(), num(got[i]->number()) + got[i]->name() + " " + num((uint32_t)got[i]->patternType()) + names(got[i]->members()) + os.str());
        c(what + " type", pat ? "1" : "0", num((uint32_t)got[i]->type()));
      }
    }
  if (l.g) {
    auto mm = [](auto& x, auto f) { std::multiset<Str> s; for (auto& [n, v] : x) s.insert(n + ":" + f(v)); return join(Strs(s.begin(), s.end()), ","); };
    c("meaning map", mm(m.meaningOf, [](size_t i) { return num(i + 1); }), mm(l.g->meaningMap(), [&](auto& g) { return num((uint64_t)(std::find(l.g->meaningGroups().begin(), l.g->meaningGroups().end(), g) - l.g->meaningGroups().begin()) + 1); }));
    c("pattern map", mm(m.patternOf, [](size_t i) { return num(i + 1); }), mm(l.g->patternMap(), [&](auto& g) { return num((uint64_t)(std::find(l.g->patternGroups().begin(), l.g->patternGroups().end(), g) - l.g->patternGroups().begin()) + 1); }));
  }
  if (l.j) {
    std::set<Str> all;
    for (auto& [n, k] : m.names) all.insert(n);
    for (auto& [n, k] : m.jukugo) all.insert(n);
    for (auto& n : all) {
      auto i = m.jukugo.find(n);
      c("jukugo of " + n, i == m.jukugo.end() ? "" : cat(i->second, [](auto& j) { return j.str() + num((uint32_t)j.grade); }), cat(l.j->find(n), [](auto& j) { return j->nameAndReading() + num((uint32_t)j->grade()); }));
    }
  }
  size_t errs = 0;
  const Str e = l.err.str();
  for (size_t p = 0; (p = e.find("ERROR[", p)) != Str::npos; ++p) ++errs;
  c("number of sanity errors", num(m.sanityErrors), num(errs));
  return c.bad;
}
} // namespace w

// C08 list quiz, C09 group quiz, C10 orders and review, C11 menus, options and details
#include "quizmodel.h"
#include <iostream>
#include <kt_kanji/TextKanjiData.h>
#include <kt_quiz/GroupData.h>
#include <kt_quiz/JukugoData.h>
#include <kt_quiz/QuizLauncher.h>
#include <termios.h>
using namespace w;
namespace kt = kanji_tools;

// ---- worlds, loaded once (from the simulated disk) before the runs fork ---------------
struct Ready {
  std::shared_ptr<const kt::TextKanjiData> d;
  std::shared_ptr<const kt::GroupData> g;
  std::shared_ptr<const kt::JukugoData> j;
};
static std::vector<Ready> g_ready;
static Str dirOf(const World& x) { return "/sim/w" + num(x.seed) + "/data"; }
// lists with too few different readings for some (or any) number of choices
static void shrinkLists(World& x, Rng& g) {
  for (auto& [n, t] : x.files) {
    if (n.rfind("jlpt/", 0) && n.rfind("kentei/", 0)) continue;
    Strs toks;
    for (auto& l : split(t, '\n')) for (auto& k : split(l, ' ')) toks.push_back(k);
    if (toks.empty() || !g.p(1, 2)) continue;
    toks.resize(std::min<size_t>(toks.size(), g.r(1, 9)));
    t = join(toks, " ") + "\n";
  }
  x.m.~Model();
  new (&x.m) Model;
  x.m.load(x.files);
}
static const char* warmUp(bool load) {
  if (auto e = warmWorlds(48, 9000)) return e;
  Rng g{99};
  for (size_t i = 0; i < worlds().size(); i += 5) shrinkLists(*worlds()[i], g);
  enable_threads(false);
  for (auto* x : worlds()) {
    putWorld(dirOf(*x), x->files);
    g_ready.emplace_back();
    if (!load) continue;
    const Str dir = dirOf(*x);
    const char* av[]{"kanjiQuiz", "-data", dir.c_str()};
    Ready r;
    run_lib([&] { r.d = std::make_shared<kt::TextKanjiData>(kt::Args{3, av}); r.g = std::make_shared<kt::GroupData>(r.d); r.j = std::make_shared<kt::JukugoData>(r.d); });
    if (r.j) g_ready.back() = r; // (a world that fails to load is run as a whole program, which reports it)
  }
  screen() = {};
  return nullptr;
}
static const char* warmLoaded() { return warmUp(true); }
static const char* warmFiles() { return warmUp(false); }

// ---- the user: reads the screen, types keys ---------------------------------------------
struct Bot {
  const Model* m{};
  std::map<Str, Str> steer; // start of a prompt -> keys to choose from
  uint32_t right{60}, wrong{15}, skip{8}, meanings{4}, edit{8}, refresh{3}, quit{1}, prev{20}, junk{3};
  uint32_t left{60};
  int ending{}; // 0 end of input, 1 quit keys first
  uint32_t quits{8};
  bool ahead{true}; // may type ahead
  Str typed;
  mutable Str unseen; // what the screen ended with when a key was awaited without a prompt
  static std::map<char, Str> offeredBy(const Str& prompt, char* def) {
    std::map<char, Str> r;
    *def = 0;
    size_t e = prompt.rfind(") def '");
    if (e != Str::npos && e + 7 < prompt.size()) *def = prompt[e + 7];
    else e = prompt.rfind("): ");
    if (e == Str::npos) return r;
    size_t b = prompt.find('(');
    if (b == Str::npos || b > e) return r;
    const Str in = prompt.substr(b + 1, e - b - 1);
    for (size_t i = 0; i < in.size();) {
      size_t j = in.find(", ", i + 1);
      if (j == Str::npos) j = in.size();
      const Str t = in.substr(i, j - i);
      if (t.size() > 1 && t[1] == '=') r[t[0]] = t.substr(2);
      else if (t.size() == 3 && t[1] == '-') for (int c = t[0]; c <= t[2]; ++c) r[(char)c] = "";
      else if (!t.empty()) r[t[0]] = "";
      i = j + 2;
    }
    return r;
  }
  // the key that is (or is not) the right answer, if it can be seen on the screen
  char answer(const Str& out, const Str& prompt, const std::map<char, Str>& all, bool good) const {
    Strs letters;
    Str okay, no;
    const size_t q = out.rfind("\nQuestion ");
    if (q != Str::npos && prompt.rfind("  Select correct", 0) == 0) {
      const Str blk = out.substr(q + 1);
      size_t c = blk.find(":  ");
      if (c == Str::npos) return 0;
      Str rd;
      const Strs ls = split(blk.substr(c + 3), '\n');
      const bool k2r = prompt.find("reading") != Str::npos;
      if (k2r) { const Str& l = ls[0]; for (size_t n = std::min<size_t>(l.size(), 7); n; --n) if (KP p = m->names.count(l.substr(0, n)) ? m->names.at(l.substr(0, n)) : nullptr) { rd = p->rd(); break; } }
      else rd = ls[0].substr(std::min<size_t>(10, ls[0].size()));
      for (auto& l : ls) if (l.size() > 8 && !l.compare(0, 4, "    ") && l[5] == '.') { const Str a = l.substr(8); const Str r2 = k2r ? a : m->find(a) ? m->find(a)->rd() : ""; (rd == r2 || (!k2r && rd.rfind(r2 + " : ", 0) == 0) ? okay : no) += l[4]; }
    } else if (size_t e = prompt.rfind("  Reading for: ", 0) == 0 ? 15 : prompt.rfind("    New reading for Entry: ", 0) == 0 ? 27 : 0; q != Str::npos && e) {
      const uint32_t want = (uint32_t)atoi(prompt.c_str() + e);
      Str rd;
      std::vector<std::pair<char, Str>> rows;
      for (auto& l : split(out.substr(q + 1), '\n')) {
        if (l.size() < 12 || l.compare(4, 3, ":  ")) continue;
        const size_t c = l.find(":  ", 7);
        if (c == Str::npos) continue;
        const uint32_t n = (uint32_t)atoi(l.c_str());
        if (n == want) for (size_t k = 7; k > 2; --k) if (m->names.count(l.substr(7, k))) { rd = m->names.at(l.substr(7, k))->rd(); break; }
        Str t = l.substr(c + 3);
        if (const size_t x = t.find(" : "); x != Str::npos) t.resize(x);
        rows.push_back({l[c - 1], t});
      }
      for (auto& [c, t] : rows) if (all.count(c)) (t == rd ? okay : no) += c;
    }
    const Str& s = good ? okay : no;
    return s.empty() ? 0 : s[draw((uint32_t)s.size())];
  }
  char key(const Str& out) const {
    const size_t nl = out.rfind('\n');
    const Str prompt = nl == Str::npos ? out : out.substr(nl + 1);
    char def;
    const auto all = offeredBy(prompt, &def);
    if (all.empty() && unseen.empty()) unseen = "'" + clip(prompt) + "'";
    if (all.empty()) return "x\n/1"[draw(4)];
    for (auto& [p, ks] : steer) if (!prompt.compare(0, p.size(), p) && (!ahead || draw(16) < 15)) { const char c = ks[draw((uint32_t)ks.size())]; return c; }
    const bool menu = prompt[0] != ' ';
    struct W { uint32_t w; int what; };
    const W ws[]{{menu ? 0 : right, 0}, {menu ? 0 : wrong, 1}, {menu ? 0 : skip, 2}, {menu ? 0 : meanings, 3}, {menu ? 0 : edit, 4}, {menu ? 0 : refresh, 5}, {quit, 6}, {menu ? 0 : prev, 7}, {junk, 8}, {menu ? 30u : 4u, 9}, {def ? 12u : 0u, 10}};
    uint32_t sum = 0;
    for (auto& x : ws) sum += x.w;
    uint32_t r = draw(sum);
    int what = 0;
    for (auto& x : ws) { if (r < x.w) { what = x.what; break; } r -= x.w; }
    char c = 0;
    switch (what) {
    case 0: c = answer(out, prompt, all, true); break;
    case 1: c = answer(out, prompt, all, false); break;
    case 2: c = '.'; break;
    case 3: c = '-'; break;
    case 4: c = '*'; break;
    case 5: c = '\''; break;
    case 6: return '/';
    case 7: c = ','; break;
    case 8: fired(F_TTY_JUNK); return (char)(draw(3) ? '!' + draw(94) : 1 + draw(255));
    case 10: return '\n';
    }
    if (c && all.count(c)) return c;
    auto i = all.begin();
    std::advance(i, draw((uint32_t)all.size()));
    if (i->first == '/' && draw(4)) return all.begin()->first;
    return i->first;
  }
  bool type(Str& keys) {
    const Str& out = screen().out;
    if (!left) {
      if (ending == 1 && quits) { --quits; keys += '/'; typed += '/'; return true; }
      fired(F_STDIN_EOF);
      return false;
    }
    --left;
    Str k(1, key(out));
    if (ahead && draw(24) == 23) { for (uint32_t n = range(1, 3); n--;) k += "1.-2/a\n,*'b3"[draw(12)]; fired(F_TTY_TYPEAHEAD); }
    keys += k;
    typed += k;
    return true;
  }
};

static Bot* g_bot;
// plays one session and judges it
static Play::End session(World& wd, const Ready* ready, const Strs& args, Bot& bot, bool tty, bool* random = nullptr) {
  bot.m = &wd.m;
  g_bot = &bot;
  set_stdin(tty ? IN_TTY : IN_PIPE);
  set_stdout(draw(2) ? OUT_TTY : OUT_FILE);
  tty_init(tty_default());
  set_user([](Str& k) { return g_bot->type(k); });
  if (draw(3) == 2) set_rate(F_TTY_EINTR, 4000);
  if (draw(4) == 3) set_rate(F_TCSET_EINTR, 4000);
  if (draw(4) == 3) set_rate(F_STDOUT_SHORT, 20000);
  if (tty && draw(12) == 11) set_nth(F_TTY_HANGUP, range(1, 40));
  if (draw(4) == 3) set_rng_burst(true);
  Result r;
  if (ready && ready->j) {
    std::vector<const char*> av;
    for (auto& a : args) av.push_back(a.c_str());
    r = run_lib([&] { kt::QuizLauncher{kt::Args{(int)av.size(), av.data()}, ready->d, ready->g, ready->j}; std::cout.flush(); });
    if (r.threw) r.status = 1;
  } else {
    r = run_program(args, run_quiz_main);
    if (r.threw) violation("escaped-exception", "kanjiQuiz ended with an exception: %s", r.what.c_str());
  }
  if (disk_modified()) violation("data-modified", "kanjiQuiz wrote to the data files");
  if (!bot.unseen.empty()) violation("prompt-not-shown", "a key is awaited while the screen ends with %s, which is no prompt", bot.unseen.c_str());
  Play p{wd.m, screen().out, bot.typed, tty_hung()};
  const auto end = p.run(args);
  if (end == Play::Finished && r.status) violation("spurious-failure", "the session was in order but the exit status is %d: %s%s", r.status, clip(screen().err).c_str(), r.what.c_str());
  if (end != Play::Finished && !r.status) violation("silent-failure", "kanjiQuiz exits with status 0 %s", end == Play::Refused ? "for a request it cannot do" : "although its input ended before the session did");
  if (end != Play::Finished && r.what.empty() && screen().err.empty()) violation("no-message", "kanjiQuiz fails without a message");
  if (random) *random = p.usedRandomOrder;
  distinct("session", hash_str(screen().out));
  if (end == Play::Ended) probe("input ended inside a session");
  if (tty_hung()) probe("terminal hung up");
  probe("questions asked", p.questions);
  return end;
}
static Str startArg(const char* f, uint32_t max) {
  switch (draw(6)) {
  default: return f;
  case 1: return f + Str("0");
  case 2: return f + num(range(1, max));
  case 3: return f + Str("-") + (draw(2) ? num(range(1, max)) : "0");
  case 4: return f + Str("+") + num(draw(max) + 1);
  }
}
static void budget(Bot& b) {
  b.left = draw(8) == 7 ? range(1, 12) : draw(3) ? range(20, 120) : range(120, 500);
  b.ending = (int)draw(2);
  if (draw(3) == 2) b.junk = 0;
  b.quit = draw(3) == 2 ? 1 : 0;
}
static void options(Strs& a, bool quiz, const Str& types, Bot& b, bool full, uint32_t big = 60) { // mode, type and list by options or by menu
  if (draw(2)) a.push_back(startArg(quiz ? "-t" : "-r", draw(6) == 5 ? big : 16)); else b.steer["Mode"] = quiz ? "t\n" : "r";
  if (draw(2)) a.push_back("-s");
  const char t = types[draw((uint32_t)types.size())];
  if (draw(2)) {
    const Str v = t == 'f' ? "0123" : t == 'g' ? "123456s" : t == 'k' ? "123456789abc" : t == 'l' ? "12345" : "1234";
    a.push_back(Str("-") + t + (draw(2) ? Str(1, v[draw((uint32_t)v.size())]) : ""));
  } else { b.steer["Type"] = types; b.steer["Choose frequency list"] = "01"; }
  if (full) { a.insert(a.begin() + 1 + (long)draw((uint32_t)a.size()), "-data"); }
}
static void setup(bool bigSteps = false) {
  enable_threads(false);
  set_step_limit(bigSteps ? 2'000'000'000 : 900'000'000);
}
static World& pickIdx(size_t& i) {
  World& wd = pickWorld();
  for (i = 0; worlds()[i] != &wd;) ++i;
  return wd;
}
static void addData(Strs& a, const World& wd) { // the data directory by option
  for (size_t i = 1; i < a.size(); ++i) if (a[i] == "-data") { a.insert(a.begin() + (long)i + 1, dirOf(wd)); return; }
}

static void run_C08() {
  setup();
  size_t i;
  World& wd = pickIdx(i);
  Bot b;
  Strs a{"kanjiQuiz"};
  budget(b);
  if (draw(4) == 3) { b.wrong = b.skip = b.quit = b.junk = 0; b.left = 300; } // somebody who knows everything
  b.prev = b.edit = b.refresh = 0;
  options(a, true, "fgkl", b, false, wd.big == 2 ? 900 : 60);
  session(wd, &g_ready[i], a, b, draw(6) != 5);
}
static void run_C09() {
  setup();
  size_t i;
  World& wd = pickIdx(i);
  Bot b;
  Strs a{"kanjiQuiz"};
  budget(b);
  b.left *= 2;
  if (draw(3) == 2) { b.wrong = b.skip = b.quit = b.junk = 0; b.left = 600; b.edit = draw(2) ? 6 : 0; }
  if (draw(3) == 2) b.edit = 40;
  b.prev = 0;
  options(a, true, "mp", b, false);
  session(wd, &g_ready[i], a, b, draw(6) != 5);
}
// the same session again and again in one process: what is drawn must differ
static void launches(World& wd, const Ready& ready) {
  Strs a{"kanjiQuiz"};
  Bot steady;
  const bool groups = draw(3) == 2, test = draw(3) != 0;
  const uint32_t order = draw(3); // 0 random, 1 beginning, 2 end
  a.push_back(Str(test ? "-t" : "-r") + (order == 0 ? "0" : order == 1 ? "1" : "-1"));
  if (groups) { a.push_back(Str(draw(2) ? "-m" : "-p") + num(range(1, 4))); steady.steer["Pattern name"] = Str(1, (char)('1' + draw(6))); }
  else {
    Strs fit;
    auto add = [&](const std::vector<KP>& l, const Str& o) { if (l.size() >= 12 && l.size() <= 80) fit.push_back(o); };
    for (size_t i = 0; i < 7; ++i) add(wd.m.grades[i], Str("-g") + "123456s"[i]);
    for (size_t i = 0; i < 5; ++i) add(wd.m.levels[i], "-l" + num(5 - i));
    for (size_t i = 0; i < 12; ++i) add(wd.m.kyus[i], Str("-k") + "a9876543c2b1"[i]);
    for (size_t i = 0; i < 10; ++i) add(wd.m.freqs[i], "-f" + num(i));
    if (fit.empty()) return;
    a.push_back(pick(fit));
    steady.steer["Number of choices"] = Str(1, (char)('2' + draw(8)));
    steady.steer["Quiz style"] = draw(2) ? "k" : "r";
  }
  steady.m = &wd.m;
  steady.ahead = false;
  steady.right = steady.wrong = steady.meanings = steady.edit = steady.refresh = steady.quit = steady.prev = steady.junk = 0;
  steady.skip = 1'000'000;
  steady.left = 400;
  steady.ending = 1;
  steady.quits = 1000;
  set_stdin(IN_TTY);
  set_stdout(OUT_TTY);
  tty_init(tty_default());
  set_user([](Str& k) { return g_bot->type(k); });
  const uint32_t count = groups ? 24 : 12;
  std::vector<std::vector<Play::Chosen>> all;
  size_t n = 0;
  bool random = false;
  std::vector<const char*> av;
  for (auto& x : a) av.push_back(x.c_str());
  for (uint32_t l = 0; l < count; ++l) {
    Bot b = steady;
    g_bot = &b;
    screen() = {};
    if (l && rng_fixed_used()) break;
    if (l) rng_relaunch();
    const Result r = run_lib([&] { kt::QuizLauncher{kt::Args{(int)av.size(), av.data()}, ready.d, ready.g, ready.j}; std::cout.flush(); });
    Play p{wd.m, screen().out, b.typed, false};
    const auto end = p.run(a);
    if (end != Play::Finished || r.threw) return; // (judged by the other sessions)
    all.push_back(p.chosen);
    n = p.total;
    random = p.usedRandomOrder;
  }
  if (rng_fixed_used()) violation("not-random", "what is drawn at random is the same in every launch: its random numbers are not seeded from the system");
  probe("launches compared");
  // order: no position may show the same item every time, and no chain of items may repeat
  auto same = [&](const char* what, auto&& f) { // f(chosen) is never the same in every launch
    std::map<uint32_t, std::pair<uint32_t, bool>> seen;
    std::map<uint32_t, std::decay_t<decltype(f(all[0][0]))>> first;
    for (auto& l : all) for (auto& c : l) {
      auto v = f(c);
      if (v.empty()) continue;
      const uint32_t k = groups || !random || what[0] == 'p' ? c.pos : 1'000'000 + (uint32_t)c.item;
      auto [i, fresh] = first.emplace(k, v);
      auto& s = seen[k];
      ++s.first;
      if (!fresh && i->second != v) s.second = true;
    }
    for (auto& [k, s] : seen) if (s.first >= count && !s.second) violation("not-random", "%s is the same in all of %u launches (%s %u of %zu, %s)", what, count, k < 1'000'000 ? "position" : "item", k % 1'000'000 + 1, n, join(a, " ").c_str());
  };
  if (random && n >= (groups ? 4 : 12)) {
    same("position's item", [](const Play::Chosen& c) { return std::vector<int>{c.item}; });
    if (!groups) {
      std::map<int, int> nextOf;
      uint32_t agree = 0, differ = 0, beside = 0, pairs = 0;
      for (auto& l : all) for (size_t i = 0; i + 1 < l.size(); ++i) {
        if (l[i + 1].pos != l[i].pos + 1) continue;
        ++pairs;
        beside += abs(l[i].item - l[i + 1].item) == 1;
        auto [x, fresh] = nextOf.emplace(l[i].item, l[i + 1].item);
        if (!fresh) ++(x->second == l[i + 1].item ? agree : differ);
      }
      if ((agree >= 24 && !differ) || (pairs >= 48 && beside * 4 > pairs * 3)) violation("not-random", "the random order always keeps the same neighbours together (%s)", join(a, " ").c_str());
    }
  }
  if (test && !groups) {
    uint32_t q = 0, nc = 0;
    std::map<int, uint32_t> at;
    for (auto& l : all) for (auto& c : l) { ++q; nc = c.nc; ++at[c.right]; }
    double p = nc;
    for (uint32_t i = 0; i < q; ++i) p *= 1 - 1.0 / nc;
    if (nc && p < 1e-12) for (uint32_t i = 0; i < nc; ++i) if (!at.count((int)i)) violation("not-random", "in %u questions the right choice was never number %u of %u (%s)", q, i + 1, nc, join(a, " ").c_str());
    if (nc > 2) { // enough other readings to choose from?
      std::set<Str> rs;
      for (auto& l : all) for (auto& c : l) rs.insert(c.answers.begin(), c.answers.end());
      if (rs.size() >= nc + 8) same("set of choices", [](const Play::Chosen& c) { Strs v = c.answers; std::sort(v.begin(), v.end()); return v; });
    }
  }
  if (test && groups && !random) {
    auto fit = [](const Play::Chosen& c) { std::set<Str> s(c.readings.begin(), c.readings.end()); return s.size() >= 4; };
    same("arrangement of the members", [&](const Play::Chosen& c) { return fit(c) ? c.left : std::vector<int>{}; });
    same("arrangement of the readings", [&](const Play::Chosen& c) { return fit(c) ? c.readings : Strs{}; });
    same("pairing of members and readings", [&](const Play::Chosen& c) { std::map<int, int> v; if (fit(c)) for (size_t i = 0; i < c.left.size(); ++i) v[c.left[i]] = c.rite[i]; return v; });
  }
}
static void run_C10() {
  setup();
  size_t i;
  World& wd = pickIdx(i);
  if (g_ready[i].j && wd.big < 2 && draw(40) == 39) return launches(wd, g_ready[i]);
  Bot b;
  Strs a{"kanjiQuiz"};
  budget(b);
  const bool review = draw(4) != 3;
  if (review) { b.right = b.wrong = 0; b.skip = range(20, 60); b.prev = draw(3) ? range(1, 60) : 0; b.meanings = draw(2) * 8; }
  else { b.right = b.wrong = 0; b.skip = 80; b.edit = b.refresh = 0; b.left = 400; }
  options(a, !review, "fgklmp", b, false, wd.big == 2 ? 900 : 60);
  bool random = false;
  session(wd, &g_ready[i], a, b, draw(6) != 5, &random);
  if (random) {
    if (rng_fixed_used()) violation("not-random", "the random order is the same in every launch: its random numbers are not seeded from the system");
    probe("random order");
  }
  probe(review ? "review" : "test in order");
}
static void run_C11() {
  setup();
  size_t i;
  World& wd = pickIdx(i);
  const Model& m = wd.m;
  Bot b;
  Strs a{draw(8) == 7 ? dirOf(wd).substr(0, dirOf(wd).size() - 4) + "out/kanjiQuiz" : Str("kanjiQuiz")};
  budget(b);
  b.left = draw(2) ? range(1, 12) : range(12, 60);
  b.quit = 2;
  const uint32_t kind = draw(6);
  Strs names;
  auto anyName = [&] { if (names.empty()) for (auto& [n, k] : m.names) names.push_back(n); return names[draw((uint32_t)names.size())]; };
  auto kanji = [&]() -> Str {
    switch (draw(10)) {
    default: return anyName();
    case 2: return num(range(1, m.maxFreq + 1));
    case 3: { auto x = m.moro.begin(); std::advance(x, draw((uint32_t)m.moro.size())); return "m" + (draw(8) ? x->first.str() : x->first.str() + "P"); }
    case 4: { if (m.nelson.empty()) return "n1"; auto x = m.nelson.begin(); std::advance(x, draw((uint32_t)m.nelson.size())); return "n" + num(draw(8) ? x->first : x->first + 1); }
    case 5: { Str c = hex4(cps(anyName())[0]); if (draw(2)) for (auto& x : c) x = (char)tolower(x); return "u" + c; }
    case 6: { static const Strs odd{"0", "70000", "m", "mX", "m1H", "mP", "m99999", "m65537", "m131074", "n65537", "n131073", "65537", "4294967297", "n4294967298", "m4294967297", "u1F600", "u20000", "u1B001", "u10000", "u2A700", "n", "nx", "n70000", "n00001", "u", "u12", "u4E0", "uD800", "u30000", "u2FFFF", "u4e00", "u00g1", "u0041", "か", "ab", "-", "あい", "字字", "\xe5\xad", "亜\xef\xb8\x80", "x-1", "1x", "m+5"}; return pick(odd); }
    case 7: return u8(0x4e00 + draw(0x51ff));
    case 8: return baseOf(anyName()) + u8(0xfe00 + draw(2));
    case 9: { static const Strs t{"1", "2", "3", "m1", "m2", "n1", "n2", "n3", "n10"}; return pick(t); }
    }
  };
  auto option = [&]() -> Str {
    switch (draw(8)) {
    case 0: return startArg(draw(2) ? "-t" : "-r", 30);
    case 1: { static const Strs t{"-f", "-g", "-k", "-l", "-m", "-p"}; return pick(t); }
    case 2: { const char t = "fgklmp"[draw(6)]; return Str("-") + t + "0123456789abcds"[draw(15)]; }
    case 3: return "-s";
    case 4: return "-h";
    case 5: { static const Strs odd{"--", "-x", "-ss", "-t-", "-t+", "-r-", "-t1x", "-t65535", "-t65536", "-t99999999999999999999", "-t4294967297", "-r-4294967298", "-r65537", "-t+65538", "-f10", "-gS", "-ls", "-m5", "-m0", "-p0", "-", "-r-3", "-t00", "-H", "--help", "-k0", "-data2"}; return pick(odd); }
    case 6: return kanji();
    default: return "-s";
    }
  };
  Strs o;
  switch (kind) {
  case 0: break;                                    // menus only
  case 1: case 2: o.push_back(kanji()); break;
  case 3: case 4: for (uint32_t n = range(1, 4); n--;) o.push_back(option()); break;
  case 5: o.push_back(option()); o.push_back("--"); o.push_back(draw(2) ? kanji() : option()); break;
  }
  if (draw(20) == 19) o.push_back(draw(2) ? "-debug" : "-info");
  a.insert(a.end(), o.begin(), o.end());
  if (a[0] == "kanjiQuiz") {
    if (draw(3)) { a.insert(a.begin() + 1 + (long)draw((uint32_t)a.size()), "-data"); addData(a, wd); }
    else { const Str up = dirOf(wd).substr(0, dirOf(wd).size() - 5); mkdirs(up + "/x/y"); set_cwd(draw(2) ? up : up + "/x/y"); }
  } else { mkdirs(a[0].substr(0, a[0].size() - 10)); mkdirs("/sim/elsewhere"); set_cwd("/sim/elsewhere"); }
  event("arguments: %s", join(a, " ").c_str());
  const auto end = session(wd, nullptr, a, b, draw(6) != 5);
  if (end == Play::Refused) probe("refused");
}
PROPS({"C08", warmLoaded, run_C08}, {"C09", warmLoaded, run_C09}, {"C10", warmLoaded, run_C10}, {"C11", warmFiles, run_C11})

// C16 standard output fails at some byte: all four programs
#include "textmodel.h"
#include "world.h"
using namespace w;

static Str dirOf(const World& x) { return "/sim/w" + num(x.seed) + "/data"; }
static const char* warm() {
  if (auto e = warmWorlds(24, 16000)) return e;
  for (auto* x : worlds()) putWorld(dirOf(*x), x->files);
  return nullptr;
}
// a user with a script of keys who then only wants to leave
static void typist(Strs script, bool leave) {
  auto pos = std::make_shared<size_t>(0);
  set_user([=](Str& k) {
    if (*pos < script.size()) { k = script[(*pos)++]; return true; }
    if (!leave || *pos > script.size() + 4000) return false;
    const size_t n = *pos - script.size();
    ++*pos;
    k = n % 3 ? Str(1, (char)('a' + n / 3 % 26)) : "/"; // some prompts offer no way out
    return true;
  });
}
struct Job {
  const char* name;
  Strs argv;
  std::function<int(int, const char**)> main;
  bool exact{}; // want is everything it prints
  Str want;
  bool fails{}; // it ends with a failure anyway
  uint32_t scale{2000}; // rough size of its output
};
static Job formatJob() {
  Job j{"kanjiFormat", {"kanjiFormat", "in.txt"}, run_format_main};
  Str text;
  for (uint32_t n = draw(6) == 5 ? range(100, 600) : range(0, 30); n--;) text += format_line() + "\n";
  if (draw(3) == 2 && !text.empty()) text.pop_back();
  put_file("/sim/work/in.txt", text);
  set_cwd("/sim/work");
  if (draw(3) == 2) set_rate(F_SHORT_READ, 20000);
  j.exact = true;
  j.want = format_model(text);
  return j;
}
static Job convertJob() {
  Job j{"kanaConvert", {"kanaConvert"}, run_convert_main};
  Opt o;
  for (uint32_t n = draw(3); n--;)
    if (draw(2)) { static const Strs a{"-k", "-h", "-r", "-K", "-H", "-R"}; j.argv.push_back(pick(a)); typeArg(o, j.argv.back()); }
    else { static const Strs a{"h", "k", "n", "r"}; j.argv.push_back("-f"); j.argv.push_back(pick(a)); o.flags |= flagBit(j.argv.back()[0]); }
  auto line = [] { return repeat_tok(ConvTok, range(0, 9)); };
  switch (draw(4)) {
  case 0: { // a stream
    set_stdin(IN_PIPE);
    Str data;
    j.exact = true;
    for (uint32_t n = draw(4) == 3 ? range(50, 400) : range(0, 20); n--;) {
      const Str l = line();
      data += l + "\n";
      if (l == "q") break;
      try { j.want += conv(o, l) + "\n"; } catch (const std::exception&) { j.fails = true; break; }
    }
    if (draw(2)) set_rate(F_STDIN_CHUNK, 40000);
    set_stdin_data(data);
    break;
  }
  case 1: // arguments
    for (uint32_t n = range(1, 4); n--;) { Str s; for (uint32_t k = range(1, 8); k--;) { static const Strs t{"か", "ア", "shi", "kya", "日", "o", "ッ", "ん"}; s += pick(t); } j.argv.push_back(s); }
    j.scale = 60;
    break;
  case 2: // a person
    j.argv.push_back("-i");
    set_stdin(IN_TTY);
    tty_init(tty_default());
    {
      Strs s;
      for (uint32_t n = draw(12); n--;) {
        static const Strs c{"c", "h", "-k", "-r", "-x", "", "-H"};
        const uint32_t k = draw(5);
        if (k == 0) { s.push_back("f\n"); static const Strs f{"h", "k", "n", "r"}; s.push_back(pick(f)); }
        else s.push_back((k < 3 ? pick(c) : line()) + "\n");
      }
      if (draw(2)) s.push_back("q\n");
      typist(s, false);
    }
    break;
  case 3: { static const Strs h{"-h", "-u", "-p", "-m", "-?"}; j.argv.push_back(pick(h)); j.scale = 12000; } break;
  }
  return j;
}
static void dataArgs(Strs& a, const World& wd) {
  if (draw(4) == 3) set_cwd(dirOf(wd).substr(0, dirOf(wd).size() - 5));
  else { a.push_back("-data"); a.push_back(dirOf(wd)); set_cwd("/sim"); }
  if (draw(8) == 7) a.push_back(draw(2) ? "-info" : "-debug");
}
static Job statsJob() {
  World& wd = pickWorld();
  Job j{"kanjiStats", {"kanjiStats"}, run_stats_main};
  dataArgs(j.argv, wd);
  std::vector<Str> names;
  for (auto& [n, k] : wd.m.names) names.push_back(n);
  auto text = [&] { Str s; for (uint32_t n = range(0, 60); n--;) s += draw(3) ? names[draw((uint32_t)names.size())] : draw(2) ? "か" : "\n"; return s; };
  const uint32_t nf = range(1, 3);
  if (draw(12) == 11) { j.argv.push_back("-h"); j.scale = 500; }
  if (draw(4) == 3) j.argv.push_back("-b");
  if (draw(4) == 3) j.argv.push_back("-v");
  for (uint32_t i = 0; i < nf; ++i) { const Str p = "/sim/t/f" + num(i); put_file(p, text()); j.argv.push_back(p); }
  j.scale = 4000;
  enable_threads(true);
  set_strategy(S_NONE, 0, 0, 0);
  return j;
}
static Job quizJob() {
  World& wd = pickWorld();
  Job j{"kanjiQuiz", {"kanjiQuiz"}, run_quiz_main};
  dataArgs(j.argv, wd);
  std::vector<Str> names;
  for (auto& [n, k] : wd.m.names) names.push_back(n);
  switch (draw(4)) {
  case 0: j.argv.push_back(names[draw((uint32_t)names.size())]); return j;
  case 1: if (draw(3) == 2) { j.argv.push_back("-h"); return j; } break;
  case 2: { static const Strs m{"-r1", "-t1", "-r+1", "-t-1", "-r", "-t"}, t{"-f0", "-g1", "-k2", "-l5", "-m1", "-p2", "-g", "-m"}; j.argv.push_back(pick(m)); if (draw(2)) j.argv.push_back(pick(t)); } break;
  default: break;
  }
  const bool tty = draw(3) != 2;
  set_stdin(tty ? IN_TTY : IN_PIPE);
  tty_init(tty_default());
  Strs s;
  for (uint32_t n = draw(40); n--;) { static const Strs k{"1", "2", "3", "4", "a", "b", "c", ".", "-", ",", "r", "t", "\n", "*", "f", "g", "m", "k", "l", "p"}; s.push_back(pick(k) + (tty ? "" : "\n")); }
  typist(s, true);
  if (!tty) { // a stream of lines
    Str all;
    for (auto& x : s) all += x;
    for (uint32_t n = 0; n < 2000; ++n) { all += n % 3 ? Str(1, (char)('a' + n / 3 % 26)) : "/"; all += '\n'; }
    set_user(nullptr);
    set_stdin_data(all);
  }
  j.scale = 6000;
  return j;
}
static void run_C16() {
  enable_threads(false);
  set_step_limit(2'000'000'000);
  const uint32_t which = draw(4);
  Job j = which == 0 ? formatJob() : which == 1 ? convertJob() : which == 2 ? statsJob() : quizJob();
  set_stdout(draw(2) ? OUT_TTY : OUT_FILE);
  if (draw(3) == 2) set_rate(F_STDOUT_SHORT, 20000);
  const uint32_t size = j.exact ? (uint32_t)j.want.size() : j.scale;
  int64_t lim = -1;
  switch (draw(6)) {
  case 0: break;
  case 1: lim = draw(16); break;
  case 2: lim = 4096 * (int64_t)draw(1 + size / 4096) + (draw(3) ? (int64_t)draw(3) : 0); break;
  case 3: lim = j.exact && size ? size - 1 - (int64_t)draw(std::min(size, 40u)) : (int64_t)draw(size + 1); break;
  default: lim = (int64_t)draw(size + size / 8 + 1); break;
  }
  static const Fault How[]{F_STDOUT_ENOSPC, F_STDOUT_EPIPE, F_STDOUT_EIO};
  uint32_t times = 0;
  if (lim >= 0) {
    const Fault how = How[draw(3)];
    times = draw(4) == 3 ? range(1, 3) : 0;
    set_stdout_limit(lim, how, times);
  }
  event("arguments: %s; output fails after %lld bytes%s", join(j.argv, " ").c_str(), (long long)lim, times ? ", then recovers" : "");
  const auto r = run_program(j.argv, j.main);
  if (r.threw) violation("escaped-exception", "%s let an exception escape: %s", j.name, r.what.c_str());
  const bool lost = any_fired({F_STDOUT_ENOSPC, F_STDOUT_EPIPE, F_STDOUT_EIO});
  distinct("loss", hash_str(join(j.argv, " "), hash_str(screen().out)) ^ (uint64_t)lim);
  if (lost && !r.status) violation("silent-loss", "%s exits with status 0 although its output was cut after %zu bytes", j.name, screen().out.size());
  if (lost && screen().err.empty()) violation("no-message", "%s lost its output and says nothing", j.name);
  if (j.exact && !times) {
    const Str& got = screen().out;
    if (lost || j.fails ? j.want.compare(0, got.size(), got) != 0 : j.want != got)
      violation("wrong-output", "%s %s: %s", j.name, lost ? "printed text that is no start of its output" : "accepted every byte but printed something else", diff(j.want, got).c_str());
  }
  if (!lost && j.exact && !j.fails && r.status) violation("spurious-failure", "%s exits %d although every byte was accepted: %s", j.name, r.status, screen().err.c_str());
  static const char* P[]{"kanjiFormat output lost", "kanaConvert output lost", "kanjiStats output lost", "kanjiQuiz output lost"};
  if (lost) probe(P[which]);
  if (lost && times) probe("space came back");
  if (lost && lim == 0) probe("nothing could be written");
  if (!lost && !r.status) probe("everything was written");
}
PROPS({"C16", warm, run_C16})

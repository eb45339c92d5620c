// Zygote process: every simulated run happens in a fork of this process, so each
// run starts from byte-identical memory and a crash ends only that run.
#include "rt_int.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
using namespace sim;

static const Prop* prop;
static void say(int fd, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void say(int fd, const char* fmt, ...) {
  static char b[16384];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  for (int o = 0; o < n;) {
    const auto k = write(fd, b + o, (size_t)(n - o));
    if (k <= 0) _exit(9);
    o += (int)k;
  }
}
[[noreturn]] static void die(const char* m) { say(2, "worker: %s\n", m); _exit(2); }
static uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a + 0x9e3779b97f4a7c15ull * (b + 1);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
namespace sim { const char* where_is(uintptr_t pc); }
static void on_crash(int sig, siginfo_t*, void* uc) {
  ++t_inrt;
  ktsim_on = false;
  signal(sig, SIG_DFL);
  const char* w = "";
  if (sig != SIGABRT) w = where_is((uintptr_t)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]);
  auto& e = screen().err;
  const size_t n = e.size();
  violation("crash", "the process was killed by signal %d (%s)%s%s%s%.400s", sig, strsignal(sig), *w ? " in " : "", w,
      n ? "; last error output: " : "", n ? e.c_str() + (n > 400 ? n - 400 : 0) : "");
}
static ucontext_t ctx_main, ctx_run;
static void child_body() {
  rt_child_init();
  prop->run();
  finish_ok();
}
static char* altstk;
static char* runstk;
constexpr size_t RunStk = 16u << 20;
static void child() {
  stack_t ss{};
  ss.ss_sp = altstk;
  ss.ss_size = 256 << 10;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = on_crash;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  signal(SIGPIPE, SIG_IGN);
  const rlimit core{0, 0};
  setrlimit(RLIMIT_CORE, &core);
  alarm(120);
  getcontext(&ctx_run);
  ctx_run.uc_stack.ss_sp = runstk;
  ctx_run.uc_stack.ss_size = RunStk;
  ctx_run.uc_link = nullptr;
  makecontext(&ctx_run, child_body, 0);
  swapcontext(&ctx_main, &ctx_run);
  _exit(7);
}
static void reset() { // everything but the big arrays
  memset((void*)g_sh, 0, offsetof(Shared, log));
}
static void one_run() {
  const pid_t p = fork();
  if (p < 0) die("fork failed");
  if (!p) child();
  int st = 0;
  while (waitpid(p, &st, 0) < 0) if (errno != EINTR) die("waitpid failed");
  auto& s = *g_sh;
  if (s.verdict == 0) {
    if (WIFSIGNALED(st)) {
      const int sg = WTERMSIG(st);
      if (sg == SIGSEGV || sg == SIGBUS || sg == SIGABRT || sg == SIGFPE || sg == SIGILL) {
        s.verdict = 2;
        snprintf(s.cls, sizeof s.cls, "crash");
        snprintf(s.msg, sizeof s.msg, "the process was killed by signal %d", sg);
        s.hash = mix(s.hash, (uint64_t)sg);
        return;
      }
      s.verdict = 3;
      snprintf(s.msg, sizeof s.msg, "run ended by signal %d", sg);
    } else {
      s.verdict = 3;
      snprintf(s.msg, sizeof s.msg, "run ended without a verdict, status %d", st);
    }
  }
}
static uint64_t run_seed(uint64_t seed, uint64_t i) { return mix(mix(seed, hash_bytes(prop->id, strlen(prop->id))), i); }

static void dump_tape(const char* path) {
  const int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd < 0) die("cannot write tape");
  const char* p = (const char*)g_sh->tape;
  for (size_t o = 0, n = g_sh->tapelen * 4ul; o < n;) {
    const auto k = write(fd, p + o, n - o);
    if (k <= 0) die("cannot write tape");
    o += (size_t)k;
  }
  close(fd);
}
static bool read_all(int fd, void* b, size_t n) {
  for (size_t o = 0; o < n;) {
    const auto k = read(fd, (char*)b + o, n - o);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    o += (size_t)k;
  }
  return true;
}
static void* anon(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) die("mmap");
  return p;
}

int main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("KTSIM_REEXEC")) {
    setenv("KTSIM_REEXEC", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  const char *pid = nullptr, *out = nullptr, *tdir = nullptr, *mode = argc > 1 ? argv[1] : "";
  uint64_t seed = 1, start = 0, step = 1, count = 1, maxv = 12;
  double wall = 0;
  bool lines = false;
  for (int i = 2; i + 1 < argc; i += 2) {
    const char *a = argv[i], *v = argv[i + 1];
    if (!strcmp(a, "--prop")) pid = v;
    else if (!strcmp(a, "--seed")) seed = strtoull(v, nullptr, 10);
    else if (!strcmp(a, "--start")) start = strtoull(v, nullptr, 10);
    else if (!strcmp(a, "--step")) step = strtoull(v, nullptr, 10);
    else if (!strcmp(a, "--count")) count = strtoull(v, nullptr, 10);
    else if (!strcmp(a, "--wall")) wall = strtod(v, nullptr);
    else if (!strcmp(a, "--out")) out = v;
    else if (!strcmp(a, "--tapes")) tdir = v;
    else if (!strcmp(a, "--lines")) lines = *v == '1';
    else if (!strcmp(a, "--maxv")) maxv = strtoull(v, nullptr, 10);
    else die("bad option");
  }
  if (!strcmp(mode, "list")) {
    for (int i = 0; i < g_nprops; ++i) say(1, "%s\n", g_props[i].id);
    return 0;
  }
  if (pid) for (int i = 0; i < g_nprops; ++i) if (!strcmp(g_props[i].id, pid)) prop = &g_props[i];
  if (!prop) die("unknown property");
  g_sh = (Shared*)anon(sizeof(Shared));
  static uint32_t* tin = (uint32_t*)anon(TapeCap * 4ul);
  altstk = (char*)mmap(nullptr, 256 << 10, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  runstk = (char*)mmap((void*)0x600000000000, RunStk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (runstk == MAP_FAILED) die("no stack");
  if (prop->warm) {
    reset();
    const char* e = prop->warm();
    if (e) { say(1, "WARM %s\n", e); return 3; }
  }
  if (!strcmp(mode, "batch")) {
    const int fd = out ? open(out, O_CREAT | O_TRUNC | O_WRONLY, 0644) : 1;
    if (fd < 0) die("cannot write output");
    static uint64_t tot_f[F_COUNT], tot_steps, tot_sw, tot_ns, tot_draws, runs, fault_runs;
    static struct { char name[56]; uint64_t n, runs; } pr[MaxProbes];
    static uint32_t npr;
    timespec t0{}, t1{};
    clock_gettime(CLOCK_MONOTONIC, &t0);
    uint64_t nv = 0;
    static char path[4096];
    for (uint64_t k = 0; k < count; ++k) {
      const uint64_t i = start + k * step;
      if (wall > 0) {
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if (double(t1.tv_sec - t0.tv_sec) + double(t1.tv_nsec - t0.tv_nsec) / 1e9 > wall) break;
      }
      reset();
      tape_random(run_seed(seed, i));
      one_run();
      auto& s = *g_sh;
      ++runs;
      tot_steps += s.steps; tot_sw += s.switches; tot_ns += s.sim_ns; tot_draws += s.draws;
      bool anyf = false;
      for (int f = 0; f < F_COUNT; ++f) { tot_f[f] += s.faults[f]; anyf |= s.faults[f] && f != F_PREEMPT && f != F_DIR_ORDER && f != F_STDIN_CHUNK; }
      fault_runs += anyf;
      for (uint32_t j = 0; j < s.nprobes; ++j) {
        uint32_t q = 0;
        for (; q < npr; ++q) if (!strcmp(pr[q].name, s.probes[j].name)) break;
        if (q == npr) { if (npr == MaxProbes) continue; memcpy(pr[npr++].name, s.probes[j].name, 56); }
        pr[q].n += s.probes[j].n;
        ++pr[q].runs;
      }
      for (uint32_t j = 0; j < s.nfps; ++j) say(fd, "F %s %016lx\n", s.fpname[s.fps[j].kind], s.fps[j].fp);
      if (lines) say(fd, "R %lu %016lx %lu %d\n", i, s.hash, s.steps, s.verdict);
      if (s.verdict != 1) {
        if (tdir) { snprintf(path, sizeof path, "%s/%s-%lu-%lu.tape", tdir, prop->id, seed, i); dump_tape(path); }
        for (char* c = s.msg; *c; ++c) if (*c == '\n') *c = '\x01';
        say(fd, "%c %lu %016lx %u %s %s %s\n", s.verdict == 2 ? 'V' : 'E', i, s.hash, s.tapelen, tdir ? path : "-", s.verdict == 2 ? s.cls : "internal", s.msg);
        if (++nv >= maxv) { break; }
      }
    }
    say(fd, "S runs %lu\nS steps %lu\nS switches %lu\nS sim_ns %lu\nS draws %lu\nS fault_runs %lu\n", runs, tot_steps, tot_sw, tot_ns, tot_draws, fault_runs);
    for (int f = 0; f < F_COUNT; ++f) if (tot_f[f]) say(fd, "X %s %lu\n", FaultName[f], tot_f[f]);
    for (uint32_t q = 0; q < npr; ++q) say(fd, "P %s %lu %lu\n", pr[q].name, pr[q].n, pr[q].runs);
    say(fd, "END\n");
    return 0;
  }
  if (!strcmp(mode, "serve")) { // requests: u32 length, tape; reply: one line, then message and log on demand
    uint32_t n;
    while (read_all(0, &n, 4)) {
      const bool want = n >> 31;
      n &= 0x7fffffff;
      if (n > TapeCap || !read_all(0, tin, n * 4ul)) die("bad request");
      reset();
      tape_replay(tin, n);
      one_run();
      auto& s = *g_sh;
      const uint32_t ml = (uint32_t)strlen(s.msg);
      say(1, "%d %s %016lx %lu %u %u %u\n", s.verdict, *s.cls ? s.cls : "-", s.hash, s.steps, s.tapelen, want ? ml : 0, want ? s.loglen : 0);
      if (want) {
        for (auto& [p, l] : {std::pair<const char*, size_t>{s.msg, ml}, {s.log, s.loglen}, {(const char*)s.tape, s.tapelen * 4ul}})
          for (size_t o = 0; o < l;) { const auto k = write(1, p + o, l - o); if (k <= 0) _exit(9); o += (size_t)k; }
      }
    }
    return 0;
  }
  if (!strcmp(mode, "one")) { // one seeded run, with its log, for debugging
    reset();
    tape_random(run_seed(seed, start));
    one_run();
    auto& s = *g_sh;
    write(1, s.log, s.loglen);
    say(1, "verdict %d class %s hash %016lx steps %lu switches %lu tape %u\n%s\n", s.verdict, s.cls, s.hash, s.steps, s.switches, s.tapelen, s.msg);
    for (uint32_t j = 0; j < s.nprobes; ++j) say(1, "probe %s %lu\n", s.probes[j].name, s.probes[j].n);
    for (int f = 0; f < F_COUNT; ++f) if (s.faults[f]) say(1, "fault %s %lu\n", FaultName[f], s.faults[f]);
    return s.verdict == 1 ? 0 : s.verdict == 2 ? 1 : 3;
  }
  die("bad mode");
}

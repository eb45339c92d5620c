// choice tape, reporting, scheduler, race detector, allocator seam
#include "rt_int.h"
#include <execinfo.h>
#include <cerrno>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <random>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ctime>
#include <unistd.h>
#include <unordered_map>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
}

namespace sim {

const char* const FaultName[F_COUNT] = {"short_read", "eintr_read", "eio_read",
    "open_fail", "stat_fail", "opendir_fail", "readdir_fail", "dir_order",
    "dtype_unknown", "bad_sector", "readonly_file", "unreadable_file",
    "truncated_file", "corrupt_byte", "lost_block", "misdirected_write", "missing_file",
    "stdout_enospc", "stdout_epipe", "stdout_eio", "stdout_short_write",
    "stdin_chunk", "stdin_eof", "tty_eintr", "tty_hangup", "tty_typeahead",
    "tty_junk_key", "tcgetattr_fail", "tcsetattr_eintr", "thread_create_eagain",
    "bad_alloc", "spurious_wakeup", "preemption", "stalled_thread", "rng_burst"};

Shared* g_sh;
extern "C" { bool ktsim_on; }
__thread int t_inrt = 1;
InRt::InRt() { ++t_inrt; }
InRt::~InRt() { --t_inrt; }

// ---- tape -------------------------------------------------------------------
static struct { uint64_t s[4]; bool replay; const uint32_t* v; uint32_t n; } tp;
static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t rotl(uint64_t x, int k) { return x << k | x >> (64 - k); }
static uint64_t xo() {
  auto* s = tp.s;
  const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}
void tape_random(uint64_t seed) {
  tp.replay = false;
  for (auto& i : tp.s) i = splitmix(seed);
}
void tape_replay(const uint32_t* v, uint32_t n) { tp.replay = true; tp.v = v; tp.n = n; }
uint32_t draw(uint32_t n) {
  if (n == 1) return 0;
  uint32_t v;
  const uint32_t i = g_sh->tapelen;
  if (tp.replay) {
    v = i < tp.n ? tp.v[i] : 0;
    if (n) v %= n;
  } else {
    const uint64_t r = xo() >> 32;
    v = n ? (uint32_t)(r * n >> 32) : (uint32_t)r;
  }
  if (i >= TapeCap - 1) violation("no-progress", "the run needs more than %u simulator decisions", TapeCap);
  g_sh->tape[i] = v;
  g_sh->tapelen = i + 1;
  return v;
}
bool chance(uint32_t num, uint32_t den) {
  if (!num) return false;
  if (num >= den) return true;
  return draw(den) >= den - num;
}
uint64_t geometric(double mean) {
  const uint32_t r = draw(0);
  if (!r) return UINT64_MAX / 4;
  const double u = r / 4294967296.0;
  return 1 + (uint64_t)(-std::log(u) * mean);
}

// ---- reporting ----------------------------------------------------------------
static void mixh(uint64_t v) {
  g_sh->hash = (g_sh->hash ^ v) * 0x100000001b3ull;
  g_sh->hash ^= g_sh->hash >> 29;
}
void note_hash(uint64_t v) { mixh(v); }
uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
  auto* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ull;
  return h;
}
static void log_raw(const char* s, size_t n) {
  mixh(hash_bytes(s, n));
  if (g_sh->loglen + n + 1 >= LogCap) { g_sh->logtrunc = true; return; }
  memcpy(g_sh->log + g_sh->loglen, s, n);
  g_sh->loglen += (uint32_t)n;
  g_sh->log[g_sh->loglen++] = '\n';
}
void event(const char* fmt, ...) {
  InRt g;
  char b[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  log_raw(b, (size_t)n);
}
void probe(const char* name, uint64_t n) {
  auto& s = *g_sh;
  for (uint32_t i = 0; i < s.nprobes; ++i)
    if (!strcmp(s.probes[i].name, name)) { s.probes[i].n += n; return; }
  if (s.nprobes == MaxProbes) return;
  auto& p = s.probes[s.nprobes++];
  snprintf(p.name, sizeof p.name, "%s", name);
  p.n = n;
}
void distinct(const char* what, uint64_t fp) {
  auto& s = *g_sh;
  uint32_t k = 0;
  for (; k < s.nfpname; ++k) if (!strcmp(s.fpname[k], what)) break;
  if (k == s.nfpname) {
    if (k == 16) return;
    snprintf(s.fpname[s.nfpname++], 40, "%s", what);
  }
  if (s.nfps < MaxFps) s.fps[s.nfps++] = {k, fp};
}

static void final_numbers();
void violation(const char* cls, const char* fmt, ...) {
  ++t_inrt;
  ktsim_on = false;
  va_list ap;
  va_start(ap, fmt);
  snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
  vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap);
  va_end(ap);
  mixh(hash_bytes(cls, strlen(cls)));
  mixh(hash_bytes(g_sh->msg, strlen(g_sh->msg)));
  final_numbers();
  g_sh->verdict = 2;
  _exit(0);
}
void internal_error(const char* fmt, ...) {
  ++t_inrt;
  ktsim_on = false;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap);
  va_end(ap);
  g_sh->verdict = 3;
  _exit(0);
}
void finish_ok() {
  final_numbers();
  g_sh->verdict = 1;
  _exit(0);
}

// ---- faults ---------------------------------------------------------------------
static uint32_t f_rate[F_COUNT];
static uint64_t f_nth[F_COUNT], f_seen[F_COUNT];
static uint32_t f_rep[F_COUNT];
void set_rate(Fault f, uint32_t r) { f_rate[f] = r; }
void set_nth(Fault f, uint64_t n, uint32_t rep) { f_nth[f] = n; f_rep[f] = rep; }
void fired(Fault f) { ++g_sh->faults[f]; }
uint64_t fired_count(Fault f) { return g_sh->faults[f]; }
bool any_fired(std::initializer_list<Fault> l) {
  for (auto f : l) if (g_sh->faults[f]) return true;
  return false;
}
bool hit(Fault f) {
  const auto k = ++f_seen[f];
  bool h = false;
  if (f_nth[f] && k >= f_nth[f] && k < f_nth[f] + f_rep[f]) h = true;
  else if (f_rate[f] && chance(f_rate[f], 65536)) h = true;
  if (h) {
    ++g_sh->faults[f];
    if (f != F_PREEMPT && f != F_SHORT_READ && f != F_STDIN_CHUNK && f != F_DIR_ORDER)
      event("fault %s at eligible op %llu step %llu", FaultName[f],
          (unsigned long long)k, (unsigned long long)steps());
    else
      mixh(k * 64 + f);
  }
  return h;
}

// ---- scheduler ------------------------------------------------------------------
constexpr int MAXT = 160;
struct VC { uint32_t c[MAXT]; };
struct Thr {
  int id{}, st{}; // 0 runnable 1 blocked 2 finished
  pthread_t pt{};
  uint32_t go{};
  const void* waddr{};
  uint64_t deadline{};
  bool timed{}, timedout{}, joined{}, detached{}, once_done{};
  int prio{};
  VC vc{};
  void* (*fn)(void*){};
  void *arg{}, *ret{};
  uintptr_t slo{}, shi{};
};
static Thr* g_thr[MAXT];
static int g_nthr, g_live = 1;
static __thread Thr* t_self;
static Thr* g_cur;
static bool g_threads; // scheduler enabled
static int64_t g_countdown = INT64_MAX / 2, g_budget0;
static uint64_t g_steps_base, g_limit = 400'000'000ull, g_clock_extra, g_nswitch, g_schedhash = 1469598103934665603ull;
static Strategy g_strat = S_NONE;
static double g_quantum = 1000;
static std::vector<uint64_t>* g_pct;
static int g_stall = -1;
static uint64_t g_next_preempt = UINT64_MAX / 4; // in steps
static uint64_t g_sync_left = UINT64_MAX / 4;
static int g_lowprio = -1;
static bool g_racing;

uint64_t steps() { return g_steps_base + (uint64_t)(g_budget0 - g_countdown); }
uint64_t switches() { return g_nswitch; }
uint64_t sim_ns() { return steps() * 10 + g_clock_extra; }
uint64_t sched_hash() { return g_schedhash; }
int threads_created() { return g_nthr ? g_nthr - 1 : 0; }
bool multi() { return g_threads && g_live > 1; }
void set_step_limit(uint64_t n) { g_limit = n; }
static void final_numbers() {
  g_sh->steps = steps();
  g_sh->switches = g_nswitch;
  g_sh->sim_ns = sim_ns();
  g_sh->draws = g_sh->tapelen;
}
static void rearm() {
  const uint64_t s = steps();
  g_steps_base = s;
  uint64_t left = g_limit > s ? g_limit - s : 0;
  if (multi() && g_next_preempt < UINT64_MAX / 8 && g_next_preempt > s)
    left = std::min(left, g_next_preempt - s);
  g_budget0 = g_countdown = (int64_t)left;
}
static long sysfutex(uint32_t* a, int op, uint32_t v) {
  long r;
  register long r10 asm("r10") = 0;
  register long r8 asm("r8") = 0;
  register long r9 asm("r9") = 0;
  asm volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"((long)v), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void park(Thr* t) {
  while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) sysfutex(&t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void unpark(Thr* t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  sysfutex(&t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}
static void ensure_main() {
  if (g_nthr) return;
  auto* t = new Thr;
  t->id = 0;
  t->vc.c[0] = 1;
  t->prio = 1000;
  g_thr[g_nthr++] = t;
  t_self = g_cur = t;
}
// choose who runs next; self excluded if it is not runnable
static Thr* choose(bool avoid_self) {
  for (;;) {
    Thr* c[MAXT];
    int n = 0;
    for (int i = 0; i < g_nthr; ++i)
      if (g_thr[i]->st == 0) c[n++] = g_thr[i];
    if (!n) {
      Thr* e = nullptr;
      for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i]->st == 1 && g_thr[i]->timed && (!e || g_thr[i]->deadline < e->deadline)) e = g_thr[i];
      if (e) {
        const auto now = sim_ns();
        if (e->deadline > now) g_clock_extra += e->deadline - now;
        e->st = 0;
        e->timedout = true;
        event("clock jumps to %llu ns for a timed wait", (unsigned long long)sim_ns());
        continue;
      }
      std::string s;
      for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i]->st == 1) s += " T" + std::to_string(i);
      violation("deadlock", "no thread can run; blocked:%s", s.c_str());
    }
    if (n == 1) return c[0];
    if (avoid_self) {
      int m = 0;
      for (int i = 0; i < n; ++i) if (c[i] != g_cur) c[m++] = c[i];
      n = m;
      if (n == 1) return c[0];
    }
    if (g_stall >= 0) { // a stalled thread runs only if nothing else can
      int m = 0;
      for (int i = 0; i < n; ++i) if (c[i]->id != g_stall) c[m++] = c[i];
      if (m && m < n) { n = m; ++g_sh->faults[F_STALL]; }
      if (n == 1) return c[0];
    }
    if (g_strat == S_PCT) {
      Thr* b = c[0];
      for (int i = 1; i < n; ++i) if (c[i]->prio > b->prio) b = c[i];
      return b;
    }
    return c[draw((uint32_t)n)];
  }
}
static void handoff(Thr* to) {
  Thr* me = t_self;
  if (to == me) return;
  ++g_nswitch;
  g_schedhash = (g_schedhash ^ (uint64_t)(to->id + 1) ^ (steps() << 8)) * 0x100000001b3ull;
  mixh(g_schedhash);
  if (g_sh->loglen < 60000) event("switch T%d -> T%d at step %llu", me->id, to->id, (unsigned long long)steps());
  g_cur = to;
  unpark(to);
  park(me);
}
static void next_quantum() {
  const uint64_t s = steps();
  g_next_preempt = UINT64_MAX / 4;
  g_sync_left = UINT64_MAX / 4;
  if (g_strat == S_RANDOM) g_next_preempt = s + std::min<uint64_t>(geometric(g_quantum), UINT64_MAX / 8);
  else if (g_strat == S_SYNC) g_sync_left = geometric(g_quantum);
  else if (g_strat == S_PCT && g_pct)
    for (auto i : *g_pct) if (i > s && i < g_next_preempt) g_next_preempt = i;
}
static void preempt() {
  ++g_sh->faults[F_PREEMPT];
  if (g_strat == S_PCT) t_self->prio = g_lowprio--;
  Thr* to = choose(g_strat != S_PCT);
  next_quantum();
  rearm();
  handoff(to);
  rearm();
}
void slow_path() {
  ++t_inrt;
  const uint64_t s = steps();
  if (s >= g_limit)
    violation("no-progress", "run exceeded its budget of %llu simulated steps", (unsigned long long)g_limit);
  if (multi() && s >= g_next_preempt) preempt();
  rearm();
  --t_inrt;
}
void advance_clock(uint64_t ns) { g_clock_extra += ns; }
void sync_point() { // call with t_inrt raised
  if (!ktsim_on || !multi()) return;
  if (steps() >= g_limit)
    violation("no-progress", "run exceeded its budget of %llu simulated steps", (unsigned long long)g_limit);
  if (g_sync_left < UINT64_MAX / 8 && !--g_sync_left) preempt();
}
static void make_runnable(Thr* t) { if (t->st == 1) { t->st = 0; t->waddr = nullptr; } }
void block_on(const void* addr, int64_t rel, bool* to) {
  ensure_main();
  Thr* me = t_self;
  me->st = 1;
  me->waddr = addr;
  me->timed = rel >= 0;
  me->timedout = false;
  if (me->timed) me->deadline = sim_ns() + (uint64_t)rel;
  Thr* n = choose(false);
  if (n != me) { next_quantum(); rearm(); handoff(n); rearm(); }
  me->timed = false;
  if (to) *to = me->timedout;
}
int wake_n(const void* addr, int n) {
  int k = 0;
  while (k < n) {
    Thr* c[MAXT];
    int m = 0;
    for (int i = 0; i < g_nthr; ++i)
      if (g_thr[i]->st == 1 && g_thr[i]->waddr == addr) c[m++] = g_thr[i];
    if (!m) break;
    make_runnable(c[m == 1 || n >= m ? 0 : draw((uint32_t)m)]);
    ++k;
  }
  return k;
}
void wake_all(const void* addr) { wake_n(addr, INT_MAX); }
void set_strategy(Strategy s, double q, int changes, uint64_t span) {
  g_strat = s;
  g_quantum = q;
  if (s == S_PCT) {
    g_pct = new std::vector<uint64_t>;
    for (int i = 0; i < changes; ++i) g_pct->push_back(1 + draw((uint32_t)span));
  }
}
void draw_strategy() {
  static const double Q[]{30, 100, 400, 2000, 10000, 60000};
  switch (draw(6)) {
  case 0: set_strategy(S_NONE, 0, 0, 0); event("strategy none"); break;
  case 1: case 2: case 3: { const int k = (int)draw(6); set_strategy(S_RANDOM, Q[k], 0, 0); event("strategy random walk, mean quantum %.0f", Q[k]); break; }
  case 4: { const int d = (int)range(1, 12); set_strategy(S_PCT, 0, d, 3'000'000); event("strategy priorities, %d change points", d); break; }
  case 5: { const double q = 1 + draw(30); set_strategy(S_SYNC, q, 0, 0); event("strategy sync points, mean %.0f", q); break; }
  }
  if (chance(1, 8)) g_stall = (int)range(1, 9);
  if (chance(1, 4)) set_rate(F_SPURIOUS_WAKE, 6000);
}
void enable_threads(bool on) { g_threads = on; }

// ---- happens-before race detector -----------------------------------------------
struct Rd { uint16_t t; uint8_t m; uint32_t c; uint32_t pc; };
struct Cell { uint8_t wm, nr; uint16_t wt; uint32_t wc, wpc; Rd r[10]; };
// cells come in blocks of 16 (128 bytes of program memory), handed out in order so
// that a run touches few pages
constexpr uint32_t CellBlk = 16, MaxBlk = 1u << 16, BlkBits = 17;
struct BlkKey { uint64_t key; uint32_t gen, no; };
static Cell* g_cells;
static BlkKey* g_blk;
static uint32_t g_gen = 1, g_nblk;
static uint64_t g_lastkey;
static Cell* g_lastblk;
static std::map<uintptr_t, VC>* g_sync;
extern "C" char __executable_start;
static Cell* cell(uint64_t g, bool create) {
  const uint64_t key = g / CellBlk;
  if (g_lastblk && g_lastkey == key) return g_lastblk + g % CellBlk;
  if (!g_cells) {
    auto map = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) internal_error("no memory for shadow cells"); return p; };
    g_cells = (Cell*)map(sizeof(Cell) * (size_t)CellBlk * MaxBlk);
    g_blk = (BlkKey*)map(sizeof(BlkKey) << BlkBits);
  }
  uint32_t h = (uint32_t)((key * 0x9e3779b97f4a7c15ull) >> (64 - BlkBits));
  for (;; h = (h + 1) & ((1u << BlkBits) - 1)) {
    auto& b = g_blk[h];
    if (b.gen == g_gen) {
      if (b.key != key) continue;
      g_lastkey = key; g_lastblk = g_cells + (size_t)b.no * CellBlk;
      break;
    }
    if (!create || g_nblk >= MaxBlk) return nullptr;
    b.gen = g_gen; b.key = key; b.no = g_nblk++;
    g_lastkey = key; g_lastblk = g_cells + (size_t)b.no * CellBlk;
    for (uint32_t i = 0; i < CellBlk; ++i) { auto& c = g_lastblk[i]; c.wm = c.nr = 0; c.wt = 0; c.wc = 0; }
    break;
  }
  return g_lastblk + g % CellBlk;
}
static std::string sym(uint32_t pc) {
  char b[64];
  snprintf(b, sizeof b, "exe+0x%x", pc);
  return b;
}
const char* where_is(uintptr_t pc) {
  static char b[64];
  snprintf(b, sizeof b, "code+0x%lx", (unsigned long)pc);
  return b;
}
static void report_race(bool w1, int t1, uint32_t pc1, bool w2, int t2, uint32_t pc2) {
  // addresses are left out: they are not part of the reproducible description
  violation("data-race", "unsynchronised %s by T%d at %s and %s by T%d at %s", w1 ? "write" : "read", t1,
      sym(pc1).c_str(), w2 ? "write" : "read", t2, sym(pc2).c_str());
}
static void race_access(uintptr_t a, size_t n, bool w, uintptr_t pcabs) {
  Thr* me = t_self;
  if (!me || !n) return;
  if (me->id && a >= me->slo && a < me->shi) return; // own stack
  const uint32_t pc = (uint32_t)(pcabs - (uintptr_t)&__executable_start);
  const uintptr_t e = a + n;
  for (uintptr_t g = a >> 3; g <= (e - 1) >> 3; ++g) {
    const uintptr_t lo = std::max(a, g << 3) - (g << 3), hi = std::min(e, (g + 1) << 3) - (g << 3);
    const uint8_t m = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
    Cell* c = cell(g, true);
    if (!c) return;
    if (c->wm & m && c->wt != me->id && c->wc > me->vc.c[c->wt]) report_race(true, c->wt, c->wpc, w, me->id, pc);
    const uint32_t clk = me->vc.c[me->id];
    if (w) {
      for (int i = 0; i < c->nr; ++i)
        if (c->r[i].m & m && c->r[i].t != me->id && c->r[i].c > me->vc.c[c->r[i].t])
          report_race(false, c->r[i].t, c->r[i].pc, true, me->id, pc);
      if (c->wm && c->wt == me->id && c->wc == clk) c->wm |= m;
      else { c->wt = (uint16_t)me->id; c->wc = clk; c->wm = m; }
      c->wpc = pc;
      int k = 0;
      for (int i = 0; i < c->nr; ++i) if (c->r[i].m & ~m) c->r[k++] = c->r[i];
      c->nr = (uint8_t)k;
    } else {
      int k = 0;
      for (; k < c->nr; ++k) if (c->r[k].t == me->id) break;
      if (k == c->nr) {
        if (c->nr < 10) ++c->nr;
        else {
          k = 0;
          for (int i = 0; i < c->nr; ++i) if (c->r[i].c <= me->vc.c[c->r[i].t]) { k = i; break; }
        }
        c->r[k] = {(uint16_t)me->id, 0, clk, pc};
      }
      auto& r = c->r[k];
      if (r.c == clk) r.m |= m; else { r.c = clk; r.m = m; }
      r.pc = pc;
    }
  }
}
void race_clear(const void* p, size_t n) {
  if (!g_racing || !n) return;
  const auto a = (uintptr_t)p;
  const uintptr_t last = (a + n - 1) >> 3;
  for (uintptr_t g = a >> 3; g <= last;) { // block by block: most big blocks of memory have no cells
    const uintptr_t end = std::min(last, g | (CellBlk - 1));
    if (Cell* c = cell(g, false)) for (; g <= end; ++g, ++c) c->wm = c->nr = 0;
    g = end + 1;
  }
  if (g_sync && !g_sync->empty()) g_sync->erase(g_sync->lower_bound(a), g_sync->lower_bound(a + n));
}
static void merge(VC& d, const VC& s) { for (int i = 0; i < g_nthr; ++i) if (s.c[i] > d.c[i]) d.c[i] = s.c[i]; }
void hb_acquire(const void* p) {
  if (!g_racing || !t_self || !g_sync) return;
  if (auto i = g_sync->find((uintptr_t)p); i != g_sync->end()) merge(t_self->vc, i->second);
}
void hb_release(const void* p) {
  if (!g_racing || !t_self) return;
  if (!g_sync) g_sync = new std::map<uintptr_t, VC>;
  merge((*g_sync)[(uintptr_t)p], t_self->vc);
  ++t_self->vc.c[t_self->id];
}

static inline __attribute__((always_inline)) void access(const void* a, size_t n, bool w, void* pc) {
  if (__builtin_expect(!ktsim_on, 0) || t_inrt) return;
  if (__builtin_expect(--g_countdown <= 0, 0)) slow_path();
  if (g_racing) { ++t_inrt; race_access((uintptr_t)a, n, w, (uintptr_t)pc); --t_inrt; }
}

static pthread_key_t g_key;
static void thr_exit(void* p) { // the last thing a simulated thread does
  auto* t = (Thr*)p;
  ++t_inrt;
  if (t->once_done) return;
  t->once_done = true;
  t->st = 2;
  ++t->vc.c[t->id];
  wake_all(t);
  Thr* n = choose(false);
  event("T%d ends, T%d runs at step %llu", t->id, n->id, (unsigned long long)steps());
  ++g_nswitch;
  g_schedhash = (g_schedhash ^ (uint64_t)(n->id + 1) ^ (steps() << 8)) * 0x100000001b3ull;
  next_quantum();
  rearm();
  g_cur = n;
  unpark(n);
}
static void* tramp(void* p) {
  auto* t = (Thr*)p;
  t_self = t;
  t_inrt = 1;
  int here;
  t->shi = (uintptr_t)&here + 4096;
  t->slo = (uintptr_t)&here - (7u << 20);
  park(t);
  rearm();
  t_inrt = 0;
  t->ret = t->fn(t->arg);
  t_inrt = 1;
  pthread_setspecific(g_key, t);
  return t->ret;
}
void rt_child_init() {
  pthread_key_create(&g_key, thr_exit);
  ensure_main();
  g_nswitch = 0;
  g_steps_base = 0;
  g_budget0 = g_countdown = (int64_t)g_limit;
}
template <typename F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
} // namespace sim

using namespace sim;

extern "C" {
// ---- compiler instrumentation callbacks -----------------------------------------
#define PC __builtin_return_address(0)
#define RW(N)                                                                                     \
  void __tsan_read##N(void* a) { access(a, N, false, PC); }                                       \
  void __tsan_write##N(void* a) { access(a, N, true, PC); }                                       \
  void __tsan_unaligned_read##N(void* a) { access(a, N, false, PC); }                             \
  void __tsan_unaligned_write##N(void* a) { access(a, N, true, PC); }                             \
  void __tsan_volatile_read##N(void* a) { access(a, N, false, PC); }                              \
  void __tsan_volatile_write##N(void* a) { access(a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { access(a, n, true, PC); }
void __tsan_vptr_update(void** a, void*) { access(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, false, PC); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}

#define SYNC_BEGIN const bool s_ = ktsim_on && !t_inrt; if (s_) { if (--g_countdown <= 0) slow_path(); ++t_inrt; sync_point();
#define SYNC_ACQ hb_acquire((const void*)a);
#define SYNC_REL hb_release((const void*)a);
#define SYNC_END --t_inrt; }
#define ATOMIC(B, T)                                                                              \
  T __tsan_atomic##B##_load(const volatile T* a, int) { SYNC_BEGIN SYNC_ACQ SYNC_END return __atomic_load_n(a, 5); } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { SYNC_BEGIN SYNC_REL SYNC_END __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { SYNC_BEGIN SYNC_ACQ SYNC_REL SYNC_END return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { SYNC_BEGIN SYNC_ACQ SYNC_REL SYNC_END return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { SYNC_BEGIN SYNC_ACQ SYNC_REL SYNC_END return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { SYNC_BEGIN SYNC_ACQ SYNC_REL SYNC_END return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { SYNC_BEGIN SYNC_ACQ SYNC_REL SYNC_END return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { SYNC_BEGIN SYNC_ACQ SYNC_REL SYNC_END return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { SYNC_BEGIN SYNC_ACQ SYNC_REL SYNC_END return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { SYNC_BEGIN SYNC_ACQ SYNC_REL SYNC_END return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { SYNC_BEGIN SYNC_ACQ SYNC_REL SYNC_END return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int, int) { SYNC_BEGIN SYNC_ACQ SYNC_REL SYNC_END __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- bulk memory functions (linked with --wrap) ------------------------------------
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
size_t __real_strlen(const char*);
#define BULK(a, n, w) if (g_racing && ktsim_on && !t_inrt) { ++t_inrt; race_access((uintptr_t)(a), std::min<size_t>(n, 4096), w, (uintptr_t)PC); --t_inrt; }
void* __wrap_memcpy(void* d, const void* s, size_t n) { BULK(s, n, false) BULK(d, n, true) return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { BULK(s, n, false) BULK(d, n, true) return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { BULK(d, n, true) return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { BULK(a, n, false) BULK(b, n, false) return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char* a) { const size_t n = __real_strlen(a); BULK(a, n + 1, false) return n; }

// ---- threads ------------------------------------------------------------------------
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) noexcept {
  static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!ktsim_on || !g_threads || t_inrt) return r(out, at, fn, arg);
  InRt g;
  ensure_main();
  sync_point();
  if (hit(F_THREAD_EAGAIN)) return EAGAIN;
  if (g_nthr == MAXT) return EAGAIN;
  auto* t = new Thr;
  t->id = g_nthr;
  t->fn = fn;
  t->arg = arg;
  if (g_live == 1) { // nothing else is alive: everything so far happens before
    ++g_gen;
    g_nblk = 0; g_lastblk = nullptr;
    if (g_sync) g_sync->clear();
  }
  t->vc = t_self->vc;
  t->vc.c[t->id] = 1;
  ++t_self->vc.c[t_self->id];
  if (g_strat == S_PCT) t->prio = (int)range(1, 2000);
  if (const int e = r(&t->pt, at, tramp, t)) { delete t; internal_error("real pthread_create failed: %d", e); }
  g_thr[g_nthr++] = t;
  *out = t->pt;
  ++g_live;
  g_racing = true;
  event("T%d creates T%d at step %llu", t_self->id, t->id, (unsigned long long)steps());
  if (g_live == 2) { next_quantum(); }
  rearm();
  if (g_strat == S_NONE) { /* creator keeps running */ }
  else if (g_strat == S_PCT) { Thr* n = choose(false); if (n != t_self) { handoff(n); rearm(); } }
  else if (chance(1, 3)) preempt();
  return 0;
}
static Thr* find_thr(pthread_t p) {
  for (int i = 1; i < g_nthr; ++i) if (!g_thr[i]->joined && pthread_equal(g_thr[i]->pt, p)) return g_thr[i];
  return nullptr;
}
int pthread_join(pthread_t p, void** ret) {
  static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
  Thr* t = ktsim_on && !t_inrt ? find_thr(p) : nullptr;
  if (!t) return r(p, ret);
  InRt g;
  sync_point();
  while (t->st != 2) block_on(t, -1, nullptr);
  merge(t_self->vc, t->vc);
  t->joined = true;
  --g_live;
  if (g_live == 1) g_racing = false;
  rearm();
  return r(p, ret);
}
int pthread_detach(pthread_t p) noexcept {
  static auto r = real<int (*)(pthread_t)>("pthread_detach");
  Thr* t = ktsim_on && !t_inrt ? find_thr(p) : nullptr;
  if (t) t->detached = true;
  return r(p);
}

struct Mtx { int owner{-1}, count{}; };
static std::unordered_map<const void*, Mtx>* g_mtx;
static std::unordered_map<const void*, std::pair<int, int>>* g_rw; // writer, readers
static bool simmed() { return ktsim_on && g_threads && !t_inrt; }
static int mx_lock(pthread_mutex_t* m, int64_t rel, bool try_) {
  InRt g;
  ensure_main();
  sync_point();
  if (!g_mtx) g_mtx = new std::unordered_map<const void*, Mtx>;
  const bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  for (;;) {
    auto& x = (*g_mtx)[m];
    if (x.owner < 0) { x.owner = t_self->id; x.count = 1; break; }
    if (x.owner == t_self->id && rec) { ++x.count; break; }
    if (try_) return EBUSY;
    bool to = false;
    block_on(m, rel, &to);
    if (to) return ETIMEDOUT;
  }
  hb_acquire(m);
  return 0;
}
static void mx_unlock(pthread_mutex_t* m) {
  InRt g;
  if (!g_mtx) return;
  auto& x = (*g_mtx)[m];
  hb_release(m);
  if (--x.count <= 0) { x.owner = -1; x.count = 0; wake_all(m); }
  sync_point();
}
static int64_t rel_of(const timespec* t, clockid_t) {
  const int64_t abs = t->tv_sec * 1000000000ll + t->tv_nsec;
  const int64_t now = (int64_t)sim_ns() + 1'700'000'000ll * 1000000000ll;
  return std::max<int64_t>(0, abs - now);
}
#define REAL(name, ...) static auto r = real<decltype(&name)>(#name); if (!simmed()) return r(__VA_ARGS__);
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_lock, m) return mx_lock(m, -1, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_trylock, m) return mx_lock(m, -1, true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) noexcept { REAL(pthread_mutex_timedlock, m, t) return mx_lock(m, rel_of(t, 0), false); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) noexcept { REAL(pthread_mutex_clocklock, m, c, t) return mx_lock(m, rel_of(t, c), false); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_unlock, m) mx_unlock(m); return 0; }
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, int64_t rel) {
  InRt g;
  bool to = false;
  // release the mutex and sleep in one step, as the real call does
  auto& x = (*g_mtx)[m];
  hb_release(m);
  x.owner = -1; x.count = 0;
  wake_all(m);
  if (!hit(F_SPURIOUS_WAKE)) block_on(c, rel, &to);
  hb_acquire(c);
  mx_lock(m, -1, false);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { REAL(pthread_cond_wait, c, m) return cwait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { REAL(pthread_cond_timedwait, c, m, t) return cwait(c, m, rel_of(t, 0)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { REAL(pthread_cond_clockwait, c, m, k, t) return cwait(c, m, rel_of(t, k)); }
int pthread_cond_signal(pthread_cond_t* c) noexcept { REAL(pthread_cond_signal, c) InRt g; hb_release(c); wake_n(c, 1); sync_point(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { REAL(pthread_cond_broadcast, c) InRt g; hb_release(c); wake_all(c); sync_point(); return 0; }
static int rwl(pthread_rwlock_t* l, bool w, bool try_) {
  InRt g;
  ensure_main();
  sync_point();
  if (!g_rw) g_rw = new std::unordered_map<const void*, std::pair<int, int>>;
  for (;;) {
    auto& x = (*g_rw)[l];
    if (!x.first && (!w || !x.second)) { if (w) x.first = t_self->id + 1; else ++x.second; break; }
    if (try_) return EBUSY;
    block_on(l, -1, nullptr);
  }
  hb_acquire(l);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { REAL(pthread_rwlock_rdlock, l) return rwl(l, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { REAL(pthread_rwlock_wrlock, l) return rwl(l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { REAL(pthread_rwlock_tryrdlock, l) return rwl(l, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { REAL(pthread_rwlock_trywrlock, l) return rwl(l, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
  REAL(pthread_rwlock_unlock, l)
  InRt g;
  auto& x = (*g_rw)[l];
  if (x.first) x.first = 0; else if (x.second) --x.second;
  hb_release(l);
  wake_all(l);
  sync_point();
  return 0;
}
static std::map<const void*, int>* g_once; // 1 running
int pthread_once(pthread_once_t* o, void (*f)()) {
  static auto r = real<int (*)(pthread_once_t*, void (*)())>("pthread_once");
  if (!simmed()) return r(o, f);
  ++t_inrt;
  sync_point();
  if (!g_once) g_once = new std::map<const void*, int>;
  for (;;) {
    if (*o == 2) { hb_acquire(o); --t_inrt; return 0; }
    int& s = (*g_once)[o];
    if (!s) { s = 1; break; }
    block_on(o, -1, nullptr);
  }
  --t_inrt;
  try { f(); }
  catch (...) {
    ++t_inrt; g_once->erase(o); wake_all(o); --t_inrt;
    throw;
  }
  ++t_inrt;
  hb_release(o);
  *o = 2;
  g_once->erase(o);
  wake_all(o);
  --t_inrt;
  return 0;
}
// function-local statics
static std::map<const void*, int>* g_guard;
int ktsim_guard_acquire(uint64_t*) asm("__cxa_guard_acquire");
void ktsim_guard_release(uint64_t*) asm("__cxa_guard_release");
void ktsim_guard_abort(uint64_t*) asm("__cxa_guard_abort");
int ktsim_guard_acquire(uint64_t* gp) {
  auto* b = (char*)gp;
  if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) {
    if (simmed()) { ++t_inrt; hb_acquire(gp); --t_inrt; }
    return 0;
  }
  ++t_inrt;
  if (!g_guard) g_guard = new std::map<const void*, int>;
  const int me = t_self ? t_self->id + 1 : 1;
  for (;;) {
    if (*b) { hb_acquire(gp); --t_inrt; return 0; }
    int& s = (*g_guard)[gp];
    if (!s) { s = me; break; }
    if (s == me || !g_threads) violation("recursive-static-init", "recursive initialisation of a function-local static");
    block_on(gp, -1, nullptr);
  }
  if (ktsim_on && t_inrt == 1) sync_point();
  --t_inrt;
  return 1;
}
void ktsim_guard_release(uint64_t* gp) {
  ++t_inrt;
  hb_release(gp);
  __atomic_store_n((char*)gp, 1, __ATOMIC_RELEASE);
  if (g_guard) g_guard->erase(gp);
  wake_all(gp);
  --t_inrt;
}
void ktsim_guard_abort(uint64_t* gp) {
  ++t_inrt;
  if (g_guard) g_guard->erase(gp);
  wake_all(gp);
  --t_inrt;
}

// futexes (std::future, std::atomic::wait, semaphores, latches)
long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (auto& i : a) i = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && ktsim_on && g_threads && !t_inrt) {
    InRt g;
    ensure_main();
    auto* addr = (uint32_t*)a[0];
    const int op = (int)a[1] & 127, full = (int)a[1];
    sync_point();
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (__atomic_load_n(addr, 5) != (uint32_t)a[2]) { errno = EAGAIN; return -1; }
      if (hit(F_SPURIOUS_WAKE)) { errno = EINTR; return -1; }
      int64_t rel = -1;
      if (auto* t = (const timespec*)a[3]; t) {
        if (op == FUTEX_WAIT) rel = t->tv_sec * 1000000000ll + t->tv_nsec;
        else rel = rel_of(t, full & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC);
      }
      bool to = false;
      block_on(addr, rel, &to);
      hb_acquire(addr);
      if (to) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      hb_release(addr);
      return wake_n(addr, (int)a[2]);
    }
  }
  long r;
  register long r10 asm("r10") = a[3];
  register long r8 asm("r8") = a[4];
  register long r9 asm("r9") = a[5];
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
// simulated clock (the code has no timers today; any clock it reads is this one)
static void entropy_used();
int clock_gettime(clockid_t c, timespec* t) noexcept {
  static auto r = real<int (*)(clockid_t, timespec*)>("clock_gettime");
  if (!ktsim_on || t_inrt) { if (!t_inrt) entropy_used(); return r(c, t); }
  entropy_used();
  const uint64_t ns = sim_ns() + 1'700'000'000ull * 1000000000ull;
  t->tv_sec = (time_t)(ns / 1000000000ull);
  t->tv_nsec = (long)(ns % 1000000000ull);
  return 0;
}
int gettimeofday(timeval* __restrict t, void* __restrict) noexcept {
  timespec s{};
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* o) noexcept {
  timespec s{};
  clock_gettime(CLOCK_REALTIME, &s);
  if (o) *o = s.tv_sec;
  return s.tv_sec;
}
static int sim_sleep(int64_t ns) {
  InRt g;
  bool to;
  static char slot[MAXT];
  ensure_main();
  block_on(&slot[t_self->id], ns, &to);
  return 0;
}
int nanosleep(const timespec* a, timespec* b) {
  static auto r = real<int (*)(const timespec*, timespec*)>("nanosleep");
  if (!ktsim_on || t_inrt) return r(a, b);
  return sim_sleep(a->tv_sec * 1000000000ll + a->tv_nsec);
}
int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b) {
  static auto r = real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep");
  if (!ktsim_on || t_inrt) return r(c, fl, a, b);
  return sim_sleep(fl & TIMER_ABSTIME ? rel_of(a, c) : a->tv_sec * 1000000000ll + a->tv_nsec);
}
int usleep(useconds_t u) { const timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
int sched_yield() noexcept {
  if (ktsim_on && !t_inrt && multi()) { InRt g; if (steps() >= g_limit) slow_path(); --g_countdown; preempt(); }
  return 0;
}

// ---- allocator seam -------------------------------------------------------------------
constexpr size_t QN = 512;
static void* g_quar[QN];
static size_t g_qpos;
void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  if (ktsim_on && !t_inrt && p) {
    ++t_inrt;
    const size_t u = malloc_usable_size(p);
    __real_memset(p, 0xCD, u < 1024 ? u : 1024);
    race_clear(p, u);
    --t_inrt;
  }
  return p;
}
void free(void* p) {
  if (ktsim_on && !t_inrt && p) {
    ++t_inrt;
    const size_t u = malloc_usable_size(p);
    race_clear(p, u);
    __real_memset(p, 0xDD, u < 1024 ? u : 1024);
    void* old = g_quar[g_qpos];
    g_quar[g_qpos] = p;
    g_qpos = (g_qpos + 1) % QN;
    p = old;
    --t_inrt;
  }
  if (p) __libc_free(p);
}
void* calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { return __libc_realloc(p, n); }

// ---- randomness seam --------------------------------------------------------------------
constexpr uint32_t MaxRng = 1 << 16;
static struct { uint64_t seed; bool entropy; uint64_t state; bool started; uint32_t from; } g_rng[MaxRng];
static uint32_t g_nrng;
static uint64_t g_entropy_draws, g_entropy_seen;
static bool g_burst;
static uint64_t g_entropy_state = 0x243f6a8885a308d3ull;
static void entropy_used() { ++g_entropy_draws; }
uint32_t ktsim_rng_new() { if (g_nrng == MaxRng) g_nrng = MaxRng - 1; return g_nrng++; }
void ktsim_rng_seed(uint32_t id, uint64_t s) {
  auto& r = g_rng[id];
  r.seed = s;
  r.entropy = g_entropy_draws > g_entropy_seen;
  g_entropy_seen = g_entropy_draws;
  r.started = false;
  r.from = id;
}
uint32_t ktsim_rng_copy(uint32_t id) { const uint32_t n = ktsim_rng_new(); g_rng[n] = g_rng[id]; return n; } // the same numbers again
static uint64_t g_launch; // counts simulated program starts within a run
uint64_t ktsim_rng_next(uint32_t id) {
  InRt g;
  auto& r = g_rng[id];
  static uint64_t runseed, last;
  static uint32_t burst_left;
  static bool have;
  if (!g_sh) { uint64_t x = r.state += 0x1234567; return splitmix(x); }
  if (!have) { have = true; runseed = draw(0); runseed = runseed << 32 | draw(0); }
  if (!r.started) {
    r.started = true;
    uint64_t x = r.entropy ? runseed ^ g_launch * 0xda942042e4dd58b5ull ^ (r.from * 0x9e3779b97f4a7c15ull + 77) : r.seed * 0xd1342543de82ef95ull + 1;
    r.state = splitmix(x);
  }
  if (g_burst) {
    if (burst_left) { --burst_left; fired(F_RNG_BURST); return last; }
    if (chance(1, 24)) burst_left = range(1, 12);
  }
  return last = splitmix(r.state);
}
int rand() noexcept { InRt g; if (!g_sh) return 4; return (int)(draw(0) >> 1); }
void srand(unsigned) noexcept {}
long random() noexcept { return rand(); }
unsigned arc4random() noexcept { InRt g; entropy_used(); return g_sh ? draw(0) : 7; }
} // extern "C"

namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
  InRt g;
  entropy_used();
  if (ktsim_on) return draw(0) ^ (result_type)splitmix(g_entropy_state); // (never constant, whatever the tape)
  return (result_type)splitmix(g_entropy_state); // before the fork: engines seeded here follow the run's seed
}
random_device::result_type random_device::_M_getval_pretr1() { return _M_getval(); }
double random_device::_M_getentropy() const noexcept { return 32; }
} // namespace std
extern "C" {
ssize_t getrandom(void* b, size_t n, unsigned) {
  InRt g;
  entropy_used();
  for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = (unsigned char)((ktsim_on ? draw(0) : 0) ^ splitmix(g_entropy_state));
  return (ssize_t)n;
}
int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }
} // extern "C"

namespace sim {
void set_rng_burst(bool on) { g_burst = on; }
void rng_relaunch() { ++g_launch; for (uint32_t i = 0; i < g_nrng; ++i) g_rng[i].started = false; }
int rng_engines() { return (int)g_nrng; }
bool rng_fixed_used() {
  for (uint32_t i = 0; i < g_nrng; ++i) if (g_rng[i].started && !g_rng[i].entropy) return true;
  return false;
}
bool rng_entropy_everywhere() {
  for (uint32_t i = 0; i < g_nrng; ++i) if (!g_rng[i].entropy) return false;
  return true;
}
// ---- operator new: allocation failure ---------------------------------------------------
static uint64_t g_nalloc, g_fail_at;
static uint32_t g_fail_n;
void set_alloc_window(uint64_t s, uint32_t n) { void* b[2]; backtrace(b, 2); // (loads the unwinder now)
  g_fail_at = g_nalloc + s; g_fail_n = n; }
uint64_t alloc_count() { return g_nalloc; }
// libstdc++ itself terminates when its directory iterator can't extend a path:
// an allocation made below that code is not failed (the next one is instead)
static bool in_dir_iterator() {
  ++t_inrt;
  void* b[64];
  const int n = backtrace(b, 64);
  bool r = false;
  Dl_info di;
  for (int i = 0; i < n && !r; ++i) r = dladdr(b[i], &di) && di.dli_sname && strstr(di.dli_sname, "directory_iterator");
  --t_inrt;
  return r;
}
static void* do_new(size_t n) {
  if (ktsim_on && !t_inrt) {
    ++g_nalloc;
    if (g_fail_n && g_nalloc >= g_fail_at && !in_dir_iterator()) {
      --g_fail_n;
      ++t_inrt;
      fired(F_BAD_ALLOC);
      event("fault bad_alloc: allocation %llu of %zu bytes at step %llu", (unsigned long long)g_nalloc, n, (unsigned long long)steps());
      --t_inrt;
      throw std::bad_alloc{};
    }
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc{};
  return p;
}
} // namespace sim
void* operator new(size_t n) { return do_new(n); }
void* operator new[](size_t n) { return do_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return do_new(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return do_new(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

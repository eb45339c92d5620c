// Simulator runtime: one seed (the choice tape) decides every schedule, fault,
// delivery and generated operation of a run. See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ---- faults -------------------------------------------------------------
enum Fault {
  F_SHORT_READ, F_EINTR_READ, F_EIO_READ, F_OPEN_FAIL, F_STAT_FAIL,
  F_OPENDIR_FAIL, F_READDIR_FAIL, F_DIR_ORDER, F_DTYPE_UNKNOWN, F_BAD_SECTOR,
  F_READONLY_FILE, F_UNREADABLE_FILE, F_TRUNCATED_FILE, F_CORRUPT_BYTE, F_LOST_BLOCK, F_MISDIRECTED,
  F_MISSING_FILE, F_STDOUT_ENOSPC, F_STDOUT_EPIPE, F_STDOUT_EIO, F_STDOUT_SHORT,
  F_STDIN_CHUNK, F_STDIN_EOF, F_TTY_EINTR, F_TTY_HANGUP, F_TTY_TYPEAHEAD,
  F_TTY_JUNK, F_TCGET_FAIL, F_TCSET_EINTR, F_THREAD_EAGAIN, F_BAD_ALLOC,
  F_SPURIOUS_WAKE, F_PREEMPT, F_STALL, F_RNG_BURST, F_COUNT
};
extern const char* const FaultName[F_COUNT];

// ---- choice tape ----------------------------------------------------------
uint32_t draw(uint32_t n);            // [0,n), 0 = simplest; n==0: full 32 bits
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); }
bool chance(uint32_t num, uint32_t den); // true with num/den, false is simplest
uint64_t geometric(double mean);      // steps to next event; 0 on tape = never
template <typename T> const T& pick(const std::vector<T>& v) { return v[draw((uint32_t)v.size())]; }

// ---- fault switches ---------------------------------------------------------
void set_rate(Fault f, uint32_t per64k); // independent chance per eligible op
void set_nth(Fault f, uint64_t n, uint32_t repeat = 1); // exactly the n-th eligible op (1-based)
bool hit(Fault f);                    // consult (and count) a fault
void fired(Fault f);                  // count a fault applied by the harness itself
uint64_t fired_count(Fault f);
bool any_fired(std::initializer_list<Fault> l);

// ---- reporting --------------------------------------------------------------
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void internal_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void event(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // goes to log + hash
void note_hash(uint64_t v);
void probe(const char* name, uint64_t n = 1);
void distinct(const char* what, uint64_t fp);  // record a reached-state fingerprint
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
inline uint64_t hash_str(const std::string& s, uint64_t h = 0xcbf29ce484222325ull) { return hash_bytes(s.data(), s.size(), h); }

// ---- disk -------------------------------------------------------------------
struct Node {
  bool dir{}, link{};
  std::string name, data; // data: contents, or link target
  std::vector<Node*> kids; // directory order as stored
  Node* parent{};
  bool readonly{}, unreadable{};
  int64_t bad_off{-1};
  uint64_t ino{};
};
Node* mkdirs(const std::string& path);
Node* put_file(const std::string& path, const std::string& data);
Node* put_link(const std::string& path, const std::string& target);
Node* lookup(const std::string& path, bool follow = true);
void remove_node(const std::string& path);
void set_cwd(const std::string& path);
bool disk_modified();
uint64_t disk_hash();
void each_file(Node* n, const std::string& prefix, const std::function<void(const std::string&, Node*)>& f);
extern bool g_dir_order_fixed; // one order per directory for the whole run
std::vector<std::string> served_order(const std::string& dir); // names in the fixed order

// ---- standard streams / terminal ----------------------------------------------
struct Screen { std::string out, err; };
Screen& screen();                      // bytes that reached fd 1 / fd 2
// user callback: called when the program wants input and none is pending; appends
// bytes; returns false for end-of-file / hang-up.
using User = std::function<bool(std::string& keys)>;
void set_user(User u);
enum StdinKind { IN_PIPE, IN_TTY, IN_NULL };
enum StdoutKind { OUT_FILE, OUT_TTY };
void set_stdin(StdinKind k);
size_t stdin_left();                   // bytes sent but not yet read
void set_stdin_data(const std::string& s); // pipe contents
void set_stdout(StdoutKind k);
void set_stdout_limit(int64_t bytes, Fault how, uint32_t times = 0); // -1: unlimited; times: failures before space returns (0: never)
struct TtyState { unsigned iflag, oflag, cflag, lflag; unsigned char cc[32]; };
void tty_init(const TtyState& t);
TtyState tty_now();
struct TtyStats { uint64_t gets, sets, reads, raw_reads, cooked_reads, echoed, set_fail, get_fail; };
TtyStats& tty_stats();
bool tty_hung();
TtyState tty_default();               // an ordinary interactive terminal

// ---- running ------------------------------------------------------------------
struct Result { int status{-1}; bool threw{}; std::string what; };
// run a program's main (or any callable returning int) under the simulator
Result run_program(const std::vector<std::string>& argv, const std::function<int(int, const char**)>& main);
Result run_lib(const std::function<void()>& f); // as above, for library calls (streams not flushed)
void enable_threads(bool on); // schedule/race seams (only while run_* is executing)
enum Strategy { S_NONE, S_RANDOM, S_PCT, S_SYNC };
void set_strategy(Strategy s, double mean_quantum, int pct_changes, uint64_t pct_span);
void draw_strategy();         // swarm: choose a scheduling strategy from the tape
void set_step_limit(uint64_t n);
void set_alloc_window(uint64_t start, uint32_t count); // fail count allocations from start-th
uint64_t alloc_count();
uint64_t steps();
uint64_t switches();
uint64_t sim_ns();
uint64_t sched_hash();
int threads_created();
void set_rng_burst(bool on);
bool rng_entropy_everywhere();  // every engine constructed so far was seeded from entropy
bool rng_fixed_used(); // numbers of an engine with a fixed seed were used in this run
int rng_engines();
void rng_relaunch();            // as if the program were started again: fresh entropy, fixed seeds as they were

struct InRt { InRt(); ~InRt(); };  // harness code called from program context

} // namespace sim

struct Prop {
  const char* id;
  const char* (*warm)(); // once, before forking (may be null)
  void (*run)();         // one simulated run, in its own forked process
};
extern const Prop g_props[];
extern const int g_nprops;

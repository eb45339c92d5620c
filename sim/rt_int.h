// internals shared between the runtime's own files
#pragma once
#include "rt.h"
#include <sys/types.h>
namespace sim {
constexpr uint32_t TapeCap = 1u << 19, LogCap = 1u << 18, MaxProbes = 192, MaxFps = 64;
struct ProbeRec { char name[56]; uint64_t n; };
struct FpRec { uint32_t kind; uint64_t fp; };
struct Shared { // one run's record, visible to the parent even if the run dies
  int verdict; // 0 running, 1 ok, 2 violation, 3 internal error
  char cls[64];
  char msg[8192];
  uint64_t hash, steps, switches, sim_ns, draws;
  uint64_t faults[F_COUNT];
  ProbeRec probes[MaxProbes]; uint32_t nprobes;
  char fpname[16][40]; uint32_t nfpname;
  FpRec fps[MaxFps]; uint32_t nfps;
  uint32_t loglen; bool logtrunc;
  uint32_t tapelen; bool tapefull;
  char log[LogCap];
  uint32_t tape[TapeCap];
};
extern Shared* g_sh;
void tape_random(uint64_t seed);
void tape_replay(const uint32_t* v, uint32_t n);
extern "C" bool ktsim_on;                     // program under simulation is running
extern __thread int t_inrt;                   // >0: simulator/harness code is running
void rt_child_init();
void finish_ok();
// scheduler services used by the other runtime files
struct VC;
void sync_point();
void slow_path();
void advance_clock(uint64_t ns);
void block_on(const void* addr, int64_t rel_ns, bool* timed_out); // -1: no timeout
void wake_all(const void* addr);
int wake_n(const void* addr, int n);
void hb_acquire(const void* addr);
void hb_release(const void* addr);
void race_clear(const void* p, size_t n);
bool multi();
// vfs hooks
ssize_t fd0_read(void* b, size_t n);
ssize_t fd12_write(int fd, const void* b, size_t n);
void streams_install();
void streams_exit_flush();
uint64_t stream_state_hash();
constexpr int SimFd = 5000;
} // namespace sim

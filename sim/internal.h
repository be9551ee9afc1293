#pragma once
#include "sim.h"
#include <cerrno>
namespace sim { extern u8 junk;
static const u32 MAXC = 1u<<17;
static const u32 TRACEMAX = 1u<<18;
enum Status { ST_RUNNING=0, ST_PASS=1, ST_VIOLATION=2, ST_OTHER=3, ST_ENDED=4, ST_OVERFLOW=5 };
struct Shm {
  u32 status; u32 nchoices; u64 hash; u64 rng; u64 blocks; u64 steps; u64 simtime;
  u32 replay_n; u32 pos; u32 replaying; u32 tracing; u32 tracelen; u32 nspans; u32 in_lib; u32 hard; u32 anyfault; u32 resyncs;
  char prop[8]; char rule[96]; char msg[4096]; char report[6000]; char scen[40];
  char other_prop[8]; char other_rule[96];
  u64 fired[F_NKINDS]; u64 opp[F_NKINDS];
  u32 op_fault_mask[F_NKINDS];
  char probes[64][48]; u64 probe_n[64];
  u32 choices[MAXC]; u32 replay[MAXC];
  u32 span_b[8192], span_e[8192];
  char trace[TRACEMAX];
};
extern Shm *S;                 // this run
extern u8 *cov;                // coverage bitmap (shared by all runs of a worker)
static const u32 COVN = 1u<<18;
extern const char *active_prop;
extern u64 block_budget, step_budget;
void core_begin_run(Shm *s);
void step(const char *what);   // count a system call
void sys_done(const char *what);
[[noreturn]] void finish(u32 st);
extern bool pure_child;        // running inside a simulated child process (after sim_fork)
size_t leaked_desc(std::string &out, u64 mark);
void kernel_reset();
extern u64 clock_us;
void *raw_alloc(size_t n);
}

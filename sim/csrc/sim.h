// Deterministic simulator: libc-level interposition. See /verif/DESIGN.md.
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>

enum { // decision kinds. Every nondeterministic choice of a run is one of these.
  D_SCHED = 0,     // which runnable thread continues at a scheduling point
  D_PREEMPT,       // preemption in the middle of straight-line code (keyed by tick)
  D_STALL,         // the current thread is stalled for a while (slow node)
  D_SPURIOUS,      // a condition wait returns without a signal
  D_OPEN_ERR,      // open fails (EIO/EMFILE/EACCES)
  D_READ_EIO,
  D_READ_SHORT,
  D_READ_EINTR,
  D_WRITE_EIO,
  D_WRITE_ENOSPC,
  D_WRITE_SHORT,
  D_WRITE_EINTR,
  D_STAT_ERR,
  D_READDIR_ERR,
  D_META_ERR,      // mkdir/rename/unlink/... fails
  D_DISK_STALL,    // a disk operation takes simulated milliseconds to minutes
  D_WATCH_ERR,     // inotify_add_watch fails (ENOSPC)
  D_INOTIFY_LOSS,  // inotify queue overflows: events dropped, IN_Q_OVERFLOW queued
  D_SPAWN_ERR,     // process spawn fails
  D_CLOCK_JUMP,    // the wall clock (not the monotonic one) jumps
  D_KILL,          // the simulated process is killed at this point
  D_SCHED_TIME,    // a runnable thread loses the CPU until the clock moved
  D_PIPE_SHORT,    // short pipe read/write
  D_NKINDS
};

#define SIM_MAXTHREADS 256
#define SIM_LOGCAP 200000
#define SIM_MSGCAP 16384

typedef struct { uint32_t kind; uint64_t idx; uint32_t val; } SimDecision;

typedef struct {
  uint64_t seed;
  uint32_t replay;              // 1: decisions come from `table` only
  const SimDecision *table; uint64_t ntable;
  uint32_t sched_prob;          // chance (of 65536) that a scheduling point considers a switch
  uint32_t policy;              // 0 random walk, 1 priorities with change points, 2 run to block
  uint64_t preempt_mean;        // mean ticks between preemption points, 0 = off
  uint64_t max_ticks;           // progress bound: instrumented edges
  uint64_t max_points;          // progress bound: scheduling points
  uint32_t prob[D_NKINDS];      // chance of 65536 per opportunity
  uint32_t max[D_NKINDS];       // budget per run (0 = unlimited)
  uint32_t inotify_queue;       // max queued events before overflow (0: 16384)
  uint32_t ns_per_tick;
  uint32_t trace;               // write an event trace to fd 2
  uint64_t disk_bytes;          // 0 = unlimited disk
} SimConfig;

enum { SIM_OK = 0, SIM_RUNNING, SIM_DEADLOCK, SIM_LIVELOCK, SIM_VIOLATION, SIM_HARNESS, SIM_PANIC };

typedef struct {                // lives in shared memory, read by the worker
  volatile uint32_t status;
  uint32_t nlog; uint32_t overflow;
  uint64_t ticks, points, switches, preempts, sim_ns, trace_hash, order_hash, nthreads;
  uint64_t fired[D_NKINDS], asked[D_NKINDS];
  uint64_t edges;               // distinct instrumented edges reached
  uint64_t probes[64];
  uint64_t escapes;             // destructive calls outside the simulated tree, refused
  uint64_t opcount;
  char msg[SIM_MSGCAP];
  SimDecision log[SIM_LOGCAP];
} SimShared;

#endif

#ifndef CORE_H
#define CORE_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <pthread.h>
#include <errno.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
enum { T_RUN = 1, T_BLOCK, T_DONE, T_DEAD };
typedef struct Thread {
  int id; int state; const void *wait_obj; uint64_t deadline; int timed_out; uint32_t go;
  pthread_t real; void *(*fn)(void *); void *arg; void *ret; int joined; int dtor_rounds;
  uint64_t stall_until; uint64_t faults; uint32_t prio; int proc; int role_main; int nosched;
  const char *why; uint64_t why_h;
} Thread;
extern SimConfig sim_cfg; extern SimShared *sim_sh; extern int sim_active; extern __thread Thread *sim_self; extern uint64_t sim_hash_seed;
extern Thread *sim_threads[]; extern int sim_nthreads; extern int64_t sim_wall_off;
long sim_raw(long, long, long, long, long, long, long);
void sim_trace(const char *, ...);
uint32_t sim_decide(uint32_t);
void sim_ev(uint64_t, uint64_t);
uint64_t sim_now(void);
void sim_point(const char *, uint64_t);
int sim_block(const void *, uint64_t, const char *);
int sim_wake(const void *, int);
void sim_sleep(uint64_t);
void sim_finish(int, const char *, ...);
void sim_maybe_kill(void);
void *sim_calloc(size_t);
uint64_t sim_hash3(uint64_t, uint64_t, uint64_t);
void sim_init_real(void);
void sim_vfs_init_real(void);
void sim_vfs_proc_gone(int);
int sim_vfs_syscall(long, long, long, long, long, long, long, long *);
uint64_t sim_edge_count(void);
void sim_slow_tick(void);
#endif

// Deterministic simulator core: scheduler, virtual clock, decisions, pthread/futex layer,
// deterministic allocator. The file system, pipes, epoll, inotify and processes are in vfs.c.
#include "core.h"
#include <sys/personality.h>

SimConfig sim_cfg;
SimShared *sim_sh;
int sim_active = 0;
Thread *sim_threads[SIM_MAXTHREADS];
int sim_nthreads = 0;
__thread Thread *sim_self = 0;
Thread *sim_cur = 0;
static uint64_t now_off = 0;
uint64_t sim_seqno = 0;
int64_t sim_wall_off = 0;
int64_t sim_budget = INT64_MAX; // ticks left before the slow path runs
static int64_t budget_start = INT64_MAX;
static uint64_t ticks_done = 0;
static uint64_t dec_count[D_NKINDS];
int sim_in_core = 0;

// ---------- raw system calls ----------
long sim_raw(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static void raw_write(const char *s, size_t n) { sim_raw(SYS_write, 2, (long)s, n, 0, 0, 0); }
void sim_trace(const char *fmt, ...) {
  char b[1024]; va_list ap; va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n'; raw_write(b, n);
}

// ---------- hashing, decisions ----------
static inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
uint64_t sim_hash3(uint64_t a, uint64_t b, uint64_t c) { return mix(mix(mix(a) ^ b) ^ c); }

static int dcmp(const void *x, const void *y) {
  const SimDecision *a = x, *b = y;
  if (a->kind != b->kind) return a->kind < b->kind ? -1 : 1;
  return a->idx < b->idx ? -1 : a->idx > b->idx;
}
static const SimDecision *dfind(uint32_t kind, uint64_t idx) {
  SimDecision k = {kind, idx, 0};
  return bsearch(&k, sim_cfg.table, sim_cfg.ntable, sizeof k, dcmp);
}
static void dlog(uint32_t kind, uint64_t idx, uint32_t val) {
  if (sim_sh->nlog < SIM_LOGCAP) sim_sh->log[sim_sh->nlog++] = (SimDecision){kind, idx, val};
  else sim_sh->overflow = 1;
}
// A fault opportunity: 0 = does not fire, otherwise a nonzero value that selects its shape.
uint32_t sim_decide(uint32_t kind) {
  if (!sim_active || !sim_self) return 0;
  if (!((sim_self->faults >> kind) & 1)) return 0;
  uint64_t i = dec_count[kind]++;
  sim_sh->asked[kind]++;
  uint32_t v = 0;
  if (sim_cfg.replay) { const SimDecision *d = dfind(kind, i); if (d) v = d->val; }
  else if (sim_cfg.prob[kind] && !(sim_cfg.max[kind] && sim_sh->fired[kind] >= sim_cfg.max[kind])) {
    uint64_t h = sim_hash3(sim_cfg.seed, kind + 1000, i);
    if ((h & 0xffff) < sim_cfg.prob[kind]) v = ((h >> 20) & 0xffffff) | 1;
  }
  if (v) { sim_sh->fired[kind]++; dlog(kind, i, v); sim_ev(0x4000 + kind, v); if (sim_cfg.trace) sim_trace("  ! fault kind=%u #%lu val=%u thread=%d", kind, i, v, sim_self->id); }
  return v;
}

void sim_ev(uint64_t a, uint64_t b) {
  sim_seqno++;
  sim_sh->trace_hash = mix(sim_sh->trace_hash ^ mix(a * 0x10001 + b) ^ ((uint64_t)(sim_self ? sim_self->id : 0) << 48));
}

// ---------- time ----------
static inline uint64_t ticks_now(void) { return ticks_done + (uint64_t)(budget_start - sim_budget); }
uint64_t sim_now(void) { return 1000000000ull * 1000 + now_off + ticks_now() * sim_cfg.ns_per_tick + sim_sh->points * 200; }
static void advance_to(uint64_t t) { uint64_t n = sim_now(); if (t > n) now_off += t - n; }
void sim_advance(uint64_t ns) { now_off += ns; }

static void plan_budget(void) {
  // fold consumed ticks and choose the next tick at which the slow path runs
  ticks_done = ticks_now();
  uint64_t next = UINT64_MAX;
  if (sim_cfg.replay) {
    for (uint64_t k = 0; k < sim_cfg.ntable; k++)
      if (sim_cfg.table[k].kind == D_PREEMPT && sim_cfg.table[k].idx > ticks_done && sim_cfg.table[k].idx < next) next = sim_cfg.table[k].idx;
  } else if (sim_cfg.preempt_mean) {
    uint64_t h = sim_hash3(sim_cfg.seed, 77, ticks_done);
    // skewed: mostly near the mean, sometimes a burst of very close preemptions
    uint64_t m = sim_cfg.preempt_mean;
    if ((h & 7) == 0) m = m / 64 + 1;
    next = ticks_done + 1 + (h >> 8) % (2 * m);
  }
  if (sim_cfg.max_ticks && next > sim_cfg.max_ticks + 1) next = sim_cfg.max_ticks + 1;
  int64_t b = next == UINT64_MAX ? INT64_MAX / 2 : (int64_t)(next - ticks_done);
  if (b < 1) b = 1;
  sim_budget = budget_start = b;
}

// ---------- ending a run ----------
void sim_finish(int status, const char *fmt, ...) {
  if (sim_sh->status == SIM_RUNNING || sim_sh->status == SIM_OK) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(sim_sh->msg, SIM_MSGCAP, fmt, ap); va_end(ap);
    sim_sh->ticks = ticks_now(); sim_sh->sim_ns = sim_now() - 1000000000ull * 1000; sim_sh->nthreads = sim_nthreads;
    sim_sh->edges = sim_edge_count();
    sim_sh->status = status;
  }
  sim_raw(SYS_exit_group, status == SIM_OK ? 0 : 3, 0, 0, 0, 0, 0);
  for (;;) ;
}

// ---------- threads and scheduling ----------
static void fut_wait(uint32_t *p) { while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) sim_raw(SYS_futex, (long)p, 128 /*WAIT|PRIVATE*/, 0, 0, 0, 0); __atomic_store_n(p, 0, __ATOMIC_RELEASE); }
static void fut_go(uint32_t *p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); sim_raw(SYS_futex, (long)p, 129, 1, 0, 0, 0); }

static Thread *thread_new(void) {
  if (sim_nthreads >= SIM_MAXTHREADS) sim_finish(SIM_HARNESS, "too many threads");
  Thread *t = sim_calloc(sizeof(Thread));
  t->id = sim_nthreads; sim_threads[sim_nthreads++] = t;
  t->prio = (uint32_t)sim_hash3(sim_cfg.seed, 55, t->id) | 1;
  return t;
}
static const char *wait_name(Thread *t) { return t->why ? t->why : "?"; }

static int runnable(Thread *t, uint64_t now) {
  if (t->state == T_RUN) return t->stall_until <= now;
  if (t->state == T_BLOCK && t->deadline && t->deadline <= now) return 1;
  return 0;
}
static void describe_blocked(char *b, size_t n) {
  size_t o = 0; b[0] = 0;
  for (int i = 0; i < sim_nthreads; i++) { Thread *t = sim_threads[i];
    if (t->state == T_BLOCK && o + 80 < n) o += snprintf(b + o, n - o, " t%d:%s", t->id, wait_name(t)); }
}
// Chooses and switches to the next thread. `self_can` tells whether the caller may continue.
static void schedule(int self_can, int preempt_pt) {
  Thread *self = sim_self;
  for (;;) {
    uint64_t now = sim_now();
    Thread *cand[SIM_MAXTHREADS]; int n = 0;
    if (self_can && runnable(self, now)) cand[n++] = self;
    // rotate: the default after a block is the next thread in id order
    for (int k = 1; k <= sim_nthreads; k++) {
      Thread *t = sim_threads[(self->id + k) % sim_nthreads];
      if (t == self && (self_can || t->state == T_DONE)) continue;
      if (runnable(t, now)) cand[n++] = t;
    }
    if (n == 0) {
      uint64_t dl = UINT64_MAX;
      for (int i = 0; i < sim_nthreads; i++) { Thread *t = sim_threads[i];
        if (t->state == T_RUN && t->stall_until > now && t->stall_until < dl) dl = t->stall_until;
        if (t->state == T_BLOCK && t->deadline && t->deadline < dl) dl = t->deadline; }
      if (dl == UINT64_MAX) { char b[4096]; describe_blocked(b, sizeof b); sim_finish(SIM_DEADLOCK, "every thread is blocked forever:%s", b); }
      if (getenv("SIM_DEBUG_TIME")) sim_trace("jump to %lu", dl);
      advance_to(dl); sim_ev(0x2000, dl);
      continue;
    }
    Thread *next = cand[0];
    uint32_t v = 0;
    if (n > 1) {
      if (preempt_pt) {
        uint64_t at = ticks_done;
        if (sim_cfg.replay) { const SimDecision *d = dfind(D_PREEMPT, at); if (d) v = d->val; }
        else { uint64_t h = sim_hash3(sim_cfg.seed, 78, at); v = (h >> 8) % n; }
        if (v >= (uint32_t)n) v = v % n;
        if (v) { dlog(D_PREEMPT, at, v); sim_sh->fired[D_PREEMPT]++; sim_sh->preempts++; }
      } else {
        uint64_t i = dec_count[D_SCHED]++;
        if (sim_cfg.replay) { const SimDecision *d = dfind(D_SCHED, i); if (d) v = d->val; }
        else {
          uint64_t h = sim_hash3(sim_cfg.seed, D_SCHED, i);
          if (sim_cfg.policy == 1) {
            if (((h >> 40) & 0xffff) < sim_cfg.sched_prob) cand[0]->prio = (uint32_t)h | 1; // change point
            uint32_t best = 0; for (int k = 0; k < n; k++) if (cand[k]->prio > best) { best = cand[k]->prio; v = k; }
          } else if (sim_cfg.policy == 2 && cand[0] == self) v = 0;
          else if (cand[0] != self || (h & 0xffff) < sim_cfg.sched_prob) v = (h >> 20) % n;
        }
        if (v >= (uint32_t)n) v = v % n;
        if (v) { dlog(D_SCHED, i, v); sim_sh->fired[D_SCHED]++; }
      }
      next = cand[v];
    }
    if (next->state == T_BLOCK) { next->timed_out = 1; next->state = T_RUN; next->wait_obj = 0; next->deadline = 0; }
    if (next == self) return;
    sim_sh->switches++;
    sim_sh->order_hash = mix(sim_sh->order_hash ^ ((uint64_t)next->id << 32) ^ (self->why_h));
    sim_ev(0x1000, next->id);
    if (sim_cfg.trace > 1) sim_trace("  -> t%d (from t%d at %s) now=%lu tick=%lu", next->id, self->id, wait_name(self), now, ticks_now());
    sim_cur = next;
    int gone = self->state == T_DONE;
    fut_go(&next->go);
    if (gone) return;
    fut_wait(&self->go);
    return;
  }
}

static void step_checks(void) {
  if (sim_cfg.max_points && sim_sh->points > sim_cfg.max_points) { char b[4096]; describe_blocked(b, sizeof b); sim_finish(SIM_LIVELOCK, "no progress within %lu scheduling points; blocked:%s", (unsigned long)sim_cfg.max_points, b); }
}

void sim_point(const char *why, uint64_t h) {
  if (!sim_active || !sim_self || sim_self->nosched) return;
  sim_self->why = why; sim_self->why_h = h;
  sim_sh->points++;
  sim_ev(h, 1);
  step_checks();
  uint32_t v = sim_decide(D_STALL);
  if (v) {
    static const uint64_t dur[] = {1000000, 20000000, 300000000, 2500000000ull, 15000000000ull};
    sim_self->stall_until = sim_now() + dur[v % 5] + (v >> 4) % 1000000;
  }
  sim_maybe_kill();
  schedule(1, 0);
}

// Blocks the calling thread on obj until sim_wake(obj) or the deadline. Returns 1 on timeout.
int sim_block(const void *obj, uint64_t deadline, const char *why) {
  Thread *t = sim_self;
  t->wait_obj = obj; t->deadline = deadline; t->timed_out = 0; t->why = why; t->state = T_BLOCK; t->why_h = 0x77;
  sim_sh->points++;
  sim_ev(0x3000, 0);
  step_checks();
  schedule(0, 0);
  return t->timed_out;
}
int sim_wake(const void *obj, int max) {
  int n = 0;
  for (int i = 0; i < sim_nthreads && n < max; i++) { Thread *t = sim_threads[i];
    if (t->state == T_BLOCK && t->wait_obj == obj) { t->state = T_RUN; t->wait_obj = 0; t->deadline = 0; n++; } }
  return n;
}
void sim_sleep(uint64_t ns) {
  if (!sim_active || !sim_self) return;
  sim_block((void *)&sim_self->id, sim_now() + (ns ? ns : 1), "sleep");
}

void sim_slow_tick(void) {
  if (!sim_active || !sim_self || sim_self != sim_cur) { sim_budget = budget_start = INT64_MAX / 2; return; }
  plan_budget();
  if (sim_cfg.max_ticks && ticks_done > sim_cfg.max_ticks) { char b[2048]; describe_blocked(b, sizeof b); sim_finish(SIM_LIVELOCK, "no progress within %lu steps of one run; running t%d; blocked:%s", (unsigned long)sim_cfg.max_ticks, sim_self->id, b); }
  if (sim_self->nosched) return;
  sim_self->why = "preempted"; sim_self->why_h = 0x99;
  schedule(1, 1);
}

// ---------- killing a simulated process ----------
void sim_maybe_kill(void) {
  if (!sim_self->proc) return;
  if (sim_decide(D_KILL)) {
    int p = sim_self->proc;
    sim_vfs_proc_gone(p);
    for (int i = 0; i < sim_nthreads; i++) if (sim_threads[i]->proc == p && sim_threads[i]->state != T_DONE) sim_threads[i]->state = T_DEAD;
    sim_ev(0x5000, p);
    sim_wake((void *)(uintptr_t)(0x1000 + p), 1000);
    sim_self->why = "killed";
    schedule(0, 0); // never returns: nothing makes a dead thread runnable
    for (;;) fut_wait(&sim_self->go);
  }
}
void sim_set_proc(int p) { sim_self->proc = p; }
// 1 when every thread of the process ended or the process was killed
int sim_proc_state(int p) { // 0 alive, 1 ended, 2 killed
  int alive = 0, dead = 0;
  for (int i = 0; i < sim_nthreads; i++) { Thread *t = sim_threads[i]; if (t->proc == p && t->role_main) { if (t->state == T_DEAD) dead = 1; else if (t->state != T_DONE) alive = 1; } }
  return dead ? 2 : alive ? 0 : 1;
}
int sim_wait_proc(int p) {
  for (;;) { int s = sim_proc_state(p); if (s) return s; sim_block((void *)(uintptr_t)(0x1000 + p), sim_now() + 50000000, "wait for process"); }
}
void sim_mark_main(void) { sim_self->role_main = 1; }

// ---------- pthread layer ----------
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_detach)(pthread_t);
static pthread_key_t exit_key;

static void thread_end(Thread *t) {
  t->state = T_DONE; t->why = "exit"; t->why_h = 0x88;
  sim_ev(0x6000, t->id);
  sim_wake(t, 1000);
  if (t->proc && t->role_main) sim_wake((void *)(uintptr_t)(0x1000 + t->proc), 1000);
  schedule(0, 0);
  sim_self = 0;
}
static void exit_dtor(void *p) {
  Thread *t = p;
  if (t->dtor_rounds++ < 2) { pthread_setspecific(exit_key, p); return; }
  thread_end(t);
}
static void *trampoline(void *p) {
  Thread *t = p;
  sim_self = t;
  fut_wait(&t->go);
  pthread_setspecific(exit_key, t);
  t->ret = t->fn(t->arg);
  return t->ret;
}
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!real_create) sim_init_real();
  if (!sim_active) return real_create(out, attr, fn, arg);
  Thread *t = thread_new();
  t->fn = fn; t->arg = arg; t->faults = sim_self->faults; t->proc = sim_self->proc; t->state = T_RUN;
  t->stall_until = 0;
  int r = real_create(&t->real, attr, trampoline, t);
  if (r) sim_finish(SIM_HARNESS, "pthread_create failed: %d", r);
  *out = t->real;
  sim_ev(0x6100, t->id);
  sim_point("spawn", 0x6100);
  return 0;
}
static Thread *by_real(pthread_t r) {
  for (int i = sim_nthreads - 1; i >= 0; i--) if (sim_threads[i]->fn && pthread_equal(sim_threads[i]->real, r) && !sim_threads[i]->joined) return sim_threads[i];
  return 0;
}
int pthread_join(pthread_t r, void **ret) {
  Thread *t = sim_active ? by_real(r) : 0;
  if (!t) return real_join(r, ret);
  sim_point("join", 0x6200);
  while (t->state != T_DONE) sim_block(t, 0, "join");
  t->joined = 1;
  return real_join(r, ret);
}
int pthread_detach(pthread_t r) {
  Thread *t = sim_active ? by_real(r) : 0;
  if (t) t->joined = 1;
  return real_detach(r);
}

typedef struct { uint32_t owner; uint32_t count; uint32_t recursive; uint32_t waiters; } SMutex; // owner = id+1
_Static_assert(sizeof(SMutex) <= sizeof(pthread_mutex_t), "");
static uint32_t me(void) { return sim_self ? (uint32_t)sim_self->id + 1 : 0xffff; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  memset(m, 0, sizeof *m);
  int ty = 0; if (a) pthread_mutexattr_gettype(a, &ty);
  ((SMutex *)m)->recursive = ty == PTHREAD_MUTEX_RECURSIVE;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
static int mtx_lock(SMutex *m) {
  if (m->owner == me()) {
    if (m->recursive) { m->count++; return 0; }
    if (!sim_active) abort();
    // self deadlock: block forever, the scheduler reports it
    for (;;) { m->waiters++; sim_block(m, 0, "mutex it already holds"); m->waiters--; if (!m->owner) break; }
  }
  while (m->owner) {
    if (!sim_active) abort();
    m->waiters++; sim_block(m, 0, "mutex"); m->waiters--;
  }
  m->owner = me(); m->count = 1;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { sim_point("lock", 0x10); return mtx_lock((SMutex *)m); }
int pthread_mutex_trylock(pthread_mutex_t *pm) {
  SMutex *m = (SMutex *)pm; sim_point("trylock", 0x11);
  if (m->owner == me() && m->recursive) { m->count++; return 0; }
  if (m->owner) return EBUSY;
  m->owner = me(); m->count = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *pm) {
  SMutex *m = (SMutex *)pm;
  if (--m->count) return 0;
  m->owner = 0;
  if (m->waiters) sim_wake(m, 1000);
  sim_point("unlock", 0x12);
  return 0;
}

typedef struct { uint32_t clock; uint32_t seq; } SCond;
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
  memset(c, 0, sizeof *c);
  clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k);
  ((SCond *)c)->clock = k;
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
static int cond_wait(SCond *c, SMutex *m, uint64_t deadline) {
  int timed = 0;
  m->owner = 0; uint32_t cnt = m->count; m->count = 0;
  if (m->waiters) sim_wake(m, 1000);
  if (!sim_decide(D_SPURIOUS)) timed = sim_block(c, deadline, "condvar");
  else sim_point("spurious wakeup", 0x14);
  mtx_lock(m); m->count = cnt ? cnt : 1;
  return timed ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { sim_point("cond wait", 0x13); return cond_wait((SCond *)c, (SMutex *)m, 0); }
static uint64_t abs_to_mono(clockid_t clk, const struct timespec *ts) {
  int64_t t = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
  if (clk == CLOCK_REALTIME) t -= sim_wall_off;
  uint64_t n = sim_now();
  return t <= (int64_t)n ? n + 1 : (uint64_t)t;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  sim_point("cond timedwait", 0x15);
  return cond_wait((SCond *)c, (SMutex *)m, abs_to_mono(((SCond *)c)->clock, ts));
}
int pthread_cond_signal(pthread_cond_t *c) {
  // which waiter gets the signal is a logged scheduling decision
  Thread *w[SIM_MAXTHREADS]; int n = 0;
  if (sim_active && sim_self) for (int i = 0; i < sim_nthreads; i++) { Thread *t = sim_threads[i]; if (t->state == T_BLOCK && t->wait_obj == c) w[n++] = t; }
  if (n) {
    uint32_t v = 0;
    if (n > 1) {
      uint64_t i = dec_count[D_SCHED]++;
      if (sim_cfg.replay) { const SimDecision *d = dfind(D_SCHED, i); if (d) v = d->val; }
      else v = (sim_hash3(sim_cfg.seed, D_SCHED, i) >> 20) % n;
      v %= n;
      if (v) { dlog(D_SCHED, i, v); sim_sh->fired[D_SCHED]++; }
    }
    Thread *t = w[v]; t->state = T_RUN; t->wait_obj = 0; t->deadline = 0;
  }
  sim_point("signal", 0x16); return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) { if (sim_active) sim_wake(c, 1000); sim_point("broadcast", 0x17); return 0; }

typedef struct { uint32_t writer; uint32_t readers; uint32_t waiters; } SRw;
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { (void)a; memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *l) { (void)l; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *pl) {
  SRw *l = (SRw *)pl; sim_point("rdlock", 0x20);
  while (l->writer) { if (!sim_active) abort(); l->waiters++; sim_block(l, 0, "rwlock read"); l->waiters--; }
  l->readers++; return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *pl) { SRw *l = (SRw *)pl; sim_point("tryrdlock", 0x21); if (l->writer) return EBUSY; l->readers++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *pl) {
  SRw *l = (SRw *)pl; sim_point("wrlock", 0x22);
  while (l->writer || l->readers) { if (!sim_active) abort(); l->waiters++; sim_block(l, 0, "rwlock write"); l->waiters--; }
  l->writer = me(); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *pl) { SRw *l = (SRw *)pl; sim_point("trywrlock", 0x23); if (l->writer || l->readers) return EBUSY; l->writer = me(); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *pl) {
  SRw *l = (SRw *)pl;
  if (l->writer) l->writer = 0; else if (l->readers) l->readers--;
  if (l->waiters) sim_wake(l, 1000);
  sim_point("rwunlock", 0x24); return 0;
}

int sched_yield(void) {
  if (!sim_active || !sim_self) return 0;
  // let somebody else run: the thread sits out for a moment
  sim_self->stall_until = sim_now() + 300;
  sim_point("yield", 0x25);
  return 0;
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  (void)rm;
  if (!sim_active || !sim_self) return (int)sim_raw(SYS_nanosleep, (long)rq, 0, 0, 0, 0, 0);
  sim_sleep((uint64_t)rq->tv_sec * 1000000000ull + rq->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *rq, struct timespec *rm) {
  if (fl & TIMER_ABSTIME) { sim_block((void *)&sim_self->id, abs_to_mono(c, rq), "sleep"); return 0; }
  return nanosleep(rq, rm);
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!sim_active) return (int)sim_raw(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
    uint32_t v = sim_decide(D_CLOCK_JUMP);
    if (v) { static const int64_t j[] = {3600, -3600, 86400ll * 365, -86400ll * 30, -2, 2}; sim_wall_off += j[v % 6] * 1000000000ll; }
  }
  int64_t t = (int64_t)sim_now();
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) t += sim_wall_off;
  ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll;
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) { (void)tz; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t *p) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }

static uint64_t rnd_ctr = 0;
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (!sim_active) { // deterministic even before the run: hash seeds of warmed-up state
    for (size_t i = 0; i < n; i++) ((uint8_t *)buf)[i] = (uint8_t)sim_hash3(42, 7, rnd_ctr++); return n; }
  (void)fl;
  for (size_t i = 0; i < n; i++) ((uint8_t *)buf)[i] = (uint8_t)sim_hash3(sim_hash_seed, 8, rnd_ctr++);
  return n;
}
uint64_t sim_hash_seed = 1;

long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_getrandom) return getrandom((void *)a, b, c);
  if (sim_active && sim_self) {
    if (n == SYS_futex) {
      int op = (int)b & 127;
      if (op == 0 || op == 9) {
        sim_point("futex", 0x30);
        if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; }
        uint64_t dl = 0; struct timespec *ts = (void *)d;
        if (ts) dl = op == 0 ? sim_now() + ts->tv_sec * 1000000000ull + ts->tv_nsec + 1 : abs_to_mono(CLOCK_MONOTONIC, ts);
        if (sim_decide(D_SPURIOUS)) return 0;
        if (sim_block((void *)a, dl, "futex")) { errno = ETIMEDOUT; return -1; }
        return 0;
      }
      if (op == 1 || op == 10) { int k = sim_wake((void *)a, (int)c); sim_point("futex wake", 0x31); return k; }
    }
    long r;
    if (sim_vfs_syscall(n, a, b, c, d, e, f, &r)) return r;
  }
  long r = sim_raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

// ---------- deterministic allocator (Rust global allocator of the harness) ----------
#define ARENA_BASE ((char *)0x200000000000ull)
#define ARENA_SIZE (8ull << 30)
static char *ar_ptr = 0, *ar_end = 0;
static void *freel[64];
int sim_arena_on = 0;
static int cls(size_t n) { // size classes: 16,32,48,64, then 4 per power of two
  if (n <= 64) return (int)((n + 15) / 16) - 1 < 0 ? 0 : (int)((n + 15) / 16) - 1;
  int lg = 63 - __builtin_clzll(n - 1); // 2^lg < n <= 2^(lg+1)
  size_t q = ((n - 1) >> (lg - 2)) & 3;
  return 4 + (lg - 6) * 4 + (int)q;
}
static size_t cls_size(int c) {
  if (c < 4) return (size_t)(c + 1) * 16;
  int lg = (c - 4) / 4 + 6, q = (c - 4) % 4;
  return ((size_t)1 << lg) + ((size_t)(q + 1) << (lg - 2));
}
static uint64_t ar_live = 0, ar_peak = 0;
void *sim_alloc(size_t n, size_t align) {
  if (!sim_arena_on) { void *p = 0; if (align <= 16) return malloc(n); return posix_memalign(&p, align, n) ? 0 : p; }
  if (!ar_ptr) {
    ar_ptr = mmap(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (ar_ptr == MAP_FAILED) { raw_write("arena mmap failed\n", 18); abort(); }
    ar_end = ar_ptr + ARENA_SIZE;
  }
  if (align > 16) { // rare: over-allocate, never reused across classes
    n += align;
  }
  if (n == 0) n = 1;
  int c = cls(n);
  if (c >= 64) { // > 2^21: bump only, rounded to pages
    size_t sz = (n + 4095) & ~4095ull;
    char *p = (char *)(((uintptr_t)ar_ptr + 63) & ~63ull);
    if (p + sz > ar_end) { if (sim_active) sim_finish(SIM_LIVELOCK, "unbounded memory growth: the 8 GB arena is full"); return 0; }
    ar_ptr = p + sz;
    return align > 16 ? (void *)(((uintptr_t)p + align - 1) & ~(align - 1)) : p;
  }
  void *p = align > 16 ? 0 : freel[c];
  size_t sz = cls_size(c);
  ar_live += sz; if (ar_live > ar_peak) ar_peak = ar_live;
  if (p) { freel[c] = *(void **)p; return p; }
  char *q = ar_ptr; if (q + sz > ar_end) { if (sim_active) sim_finish(SIM_LIVELOCK, "unbounded memory growth: the 8 GB arena is full"); return 0; }
  ar_ptr += sz;
  return align > 16 ? (void *)(((uintptr_t)q + align - 1) & ~(align - 1)) : q;
}
void sim_free(void *p, size_t n, size_t align) {
  if ((char *)p < ARENA_BASE || (char *)p >= ARENA_BASE + ARENA_SIZE) { free(p); return; }
  if (align > 16) return;
  if (n == 0) n = 1;
  int c = cls(n);
  if (c >= 64) { if (n >= (1 << 22)) { uintptr_t a = ((uintptr_t)p + 4095) & ~4095ull, e = ((uintptr_t)p + n) & ~4095ull; if (e > a) madvise((void *)a, e - a, MADV_DONTNEED); } return; }
  ar_live -= cls_size(c);
  *(void **)p = freel[c]; freel[c] = p;
}
size_t sim_usable(size_t n) { int c = cls(n ? n : 1); return c >= 64 ? (n + 4095) & ~4095ull : cls_size(c); }
uint64_t sim_mem_peak(void) { return ar_peak; }
// simulator-private memory (never shared with the Rust arena)
static char *pv_ptr, *pv_end;
void *sim_calloc(size_t n) {
  n = (n + 15) & ~15ull;
  if (pv_ptr + n > pv_end) {
    size_t ch = n > (64u << 20) ? n : (64u << 20);
    pv_ptr = mmap(0, ch, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); pv_end = pv_ptr + ch;
  }
  void *p = pv_ptr; pv_ptr += n; return p;
}

// ---------- instrumentation callbacks (sancov) ----------
static uint32_t nguards = 1;
static uint8_t *edge_bits; // one byte per guard, reset per run by fork
static uint32_t edge_cap = 0;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { if (a == b || *a) return; while (a < b) *a++ = nguards++; }
void sim_edges_prepare(void) { edge_cap = nguards; edge_bits = sim_calloc(nguards + 1); }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (edge_bits) edge_bits[*g] = 1;
  if (--sim_budget <= 0) sim_slow_tick();
}
uint64_t sim_edge_count(void) { uint64_t n = 0; for (uint32_t i = 0; i < edge_cap; i++) n += edge_bits[i]; return n; }
void sim_edges_merge(uint8_t *into, uint64_t cap) { for (uint64_t i = 0; i < edge_cap && i < cap; i++) into[i] |= edge_bits[i]; }
uint64_t sim_edges_total(void) { return nguards; }
static uint8_t *edge_shared; static uint64_t edge_shared_cap;
void sim_edges_share(uint8_t *p, uint64_t cap) { edge_shared = p; edge_shared_cap = cap; }

// ---------- setup ----------
void sim_init_real(void) {
  real_create = dlsym(RTLD_NEXT, "pthread_create");
  real_join = dlsym(RTLD_NEXT, "pthread_join");
  real_detach = dlsym(RTLD_NEXT, "pthread_detach");
}
void sim_preinit(void) {
  sim_init_real(); sim_vfs_init_real();
  pthread_key_create(&exit_key, exit_dtor);
}
int sim_noaslr(char **argv) { // re-executes once with address randomisation off
  int p = personality(0xffffffff);
  if (p == -1 || (p & ADDR_NO_RANDOMIZE) || getenv("SIM_NOASLR")) return p != -1 && (p & ADDR_NO_RANDOMIZE) ? 1 : 0;
  if (personality(p | ADDR_NO_RANDOMIZE) == -1) return 0;
  setenv("SIM_NOASLR", "1", 1);
  execv("/proc/self/exe", argv);
  return 0;
}
void sim_start(const SimConfig *cfg, SimShared *sh, uint64_t hash_seed) {
  sim_cfg = *cfg; sim_sh = sh; sim_hash_seed = hash_seed;
  if (cfg->replay && cfg->ntable) { SimDecision *t = sim_calloc(cfg->ntable * sizeof *t); memcpy(t, cfg->table, cfg->ntable * sizeof *t); qsort(t, cfg->ntable, sizeof *t, dcmp); sim_cfg.table = t; }
  rnd_ctr = 0;
  if (edge_bits) memset(edge_bits, 0, edge_cap);
  Thread *t = thread_new();
  t->state = T_RUN; sim_self = sim_cur = t; t->real = pthread_self();
  sim_sh->status = SIM_RUNNING;
  ticks_done = 0; sim_budget = budget_start = 0;
  sim_active = 1;
  plan_budget();
}
void sim_end(void) {
  if (edge_shared) sim_edges_merge(edge_shared, edge_shared_cap);
  sim_finish(SIM_OK, "ok");
}
void sim_fail(const char *msg) {
  if (edge_shared) sim_edges_merge(edge_shared, edge_shared_cap);
  sim_finish(SIM_VIOLATION, "%s", msg);
}
void sim_harness_error(const char *msg) { sim_finish(SIM_HARNESS, "%s", msg); }
void sim_set_faults(uint64_t mask) { if (sim_self) sim_self->faults = mask; }
uint64_t sim_get_faults(void) { return sim_self ? sim_self->faults : 0; }
void sim_faults_off_all(void) { for (int i = 0; i < sim_nthreads; i++) { sim_threads[i]->faults = 0; sim_threads[i]->stall_until = 0; } }
void sim_set_nosched(int v) { if (sim_self) sim_self->nosched = v; }
void sim_probe(int i) { if (sim_sh) sim_sh->probes[i]++; }
uint64_t sim_seq(void) { return sim_seqno; }
int sim_thread_id(void) { return sim_self ? sim_self->id : -1; }
uint64_t sim_ticks(void) { return ticks_now(); }
int sim_is_active(void) { return sim_active; }
void sim_note(const char *s) { uint64_t h = 0; for (const char *p = s; *p; p++) h = h * 131 + (uint8_t)*p; sim_ev(0x7000, h); if (sim_cfg.trace) sim_trace("[%lu us t%d] %s", (sim_now() - 1000000000000ull) / 1000, sim_self->id, s); }
uint64_t sim_choose(uint64_t salt, uint64_t n) { return n ? sim_hash3(sim_cfg.seed, salt, 0xabc) % n : 0; }

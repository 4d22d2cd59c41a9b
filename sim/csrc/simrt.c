/*
 * Deterministic simulation runtime.
 *
 * Linked into the harness executable in front of libc, it takes over every source of
 * nondeterminism that the library under test can reach: thread creation and scheduling (pthread_*,
 * futex, sched_yield, sleeping, TLS destructors), clocks, randomness and file I/O.  Real OS threads
 * are used, but exactly one of them runs at any time: it holds the baton, and passes it on only at
 * points where a seeded (or replayed) decision says so.  Code compiled with edge instrumentation
 * (osm-io, command-executor, text-file-sort, crossbeam, the workloads) can be preempted at every
 * edge.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include "simrt.h"

#define MAXT 512
#define MAXFD 1024
#define MAXKEY 512

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static long sysret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

/* ---------------------------------------------------------------- threads */
enum { T_FREE = 0, T_RUN, T_FUTEX, T_SLEEP, T_JOIN, T_DONE };

struct dtor { void (*f)(void *); void *arg; };

struct sthread {
  int id, state, detached;
  volatile int baton;
  uint32_t *addr;        /* futex */
  uint32_t bitset;
  uint64_t deadline;     /* 0: none */
  int wake_reason;       /* 0 woken, 1 timeout, 2 spurious */
  int join_on;
  uint64_t wait_seq;     /* FIFO order of futex waiters */
  uint64_t stall_until;  /* in yields */
  pthread_t pt;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  struct dtor *dt;
  int ndt, cdt;
};

static struct sthread T[MAXT];
static int nT;
static struct sthread *cur;
static volatile int active;      /* simulation running */
static int fair;                 /* fair mode: no more deviations or faults */
static __thread struct sthread *self __attribute__((tls_model("initial-exec")));
static __thread int in_rt __attribute__((tls_model("initial-exec")));

static struct sim_cfg C;
static struct sim_shared *S;
struct sim_shared *sim_shared_ptr(void) { return S; }

static uint64_t rs_sched, rs_fault, rs_os;
static uint64_t sm(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static int chance(uint64_t *s, uint32_t ppm) { return ppm && (sm(s) % 1000000u) < ppm; }

static uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdull;
}
static void evh(uint64_t a, uint64_t b) { S->event_hash = mix(mix(S->event_hash, a), b); }

static uint64_t mono_ns, wall_off;
#define SLICE 20000ull /* time slice, in instrumented edges */
static uint64_t edges, next_preempt, draw_at, slice_end, last_edge;
static uint64_t yields, next_jump, prog_yield, prog_edge, fair_start;
static uint64_t wait_seq;
static uint64_t crash_step_at, crash_io_at;
static uint64_t thread_creates;

static struct sim_ev *rp[16];
static uint64_t rpn[16], rpi[16];

static void trace(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char *b = S->trace[S->ntrace % TRACECAP];
  int k = snprintf(b, 160, "[y%llu e%llu t%d] ", (unsigned long long)yields, (unsigned long long)edges, cur ? cur->id : -1);
  vsnprintf(b + k, (size_t)(160 - k), fmt, ap);
  va_end(ap);
  S->ntrace++;
}

static void log_ev(uint32_t kind, uint32_t a, uint64_t at, int64_t c) {
  if (S->nev < EVCAP) {
    struct sim_ev *e = &S->ev[S->nev++];
    e->kind = kind; e->a = a; e->at = at; e->c = c;
  } else S->ev_overflow++;
}

/* next replay event of `kind` due at `at` (drops the ones that were passed over) */
static struct sim_ev *due(uint32_t kind, uint64_t at) {
  while (rpi[kind] < rpn[kind]) {
    struct sim_ev *e = &rp[kind][rpi[kind]];
    if (e->at > at) return NULL;
    rpi[kind]++;
    if (e->at == at) return e;
  }
  return NULL;
}

static void flush_stats(void) {
  S->edges = edges; S->yields = yields; S->sim_ns = mono_ns; S->nthreads = (uint32_t)nT;
}

static void finish(int verdict, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  if (S->verdict == V_NONE) {
    vsnprintf(S->msg, MSGCAP, fmt, ap);
    S->verdict = (uint32_t)verdict;
  }
  va_end(ap);
  flush_stats();
  raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}

static void describe_threads(char *b, size_t n) {
  static const char *nm[] = {"free", "runnable", "futex-wait", "sleep", "join", "done"};
  size_t k = 0;
  for (int i = 0; i < nT && k + 48 < n; i++)
    if (T[i].state != T_DONE)
      k += (size_t)snprintf(b + k, n - k, "t%d:%s%s ", i, nm[T[i].state], &T[i] == cur ? "*" : "");
}

static void hang(const char *what) {
  char b[600];
  b[0] = 0;
  describe_threads(b, sizeof b);
  finish(V_HANG, "%s (threads: %s)", what, b);
}

static void progress(void) { prog_yield = yields; prog_edge = edges; if (fair == 1) { fair = 0; } }

static void baton_wait(struct sthread *t) {
  while (__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE) == 0)
    raw6(SYS_futex, (long)&t->baton, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  t->baton = 0;
}
static void baton_give(struct sthread *t) {
  __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&t->baton, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static void switch_to(struct sthread *t) {
  struct sthread *me = cur;
  if (t == me) return;
  S->switches++;
  S->ileave_hash = mix(S->ileave_hash, ((uint64_t)me->id << 48) ^ ((uint64_t)t->id << 32) ^ last_edge);
  evh(((uint64_t)me->id << 32) | (uint64_t)t->id, edges);
  cur = t;
  int done = me->state == T_DONE;
  baton_give(t);
  if (!done) baton_wait(me);
}

static int runnable(struct sthread *t) { return t->state == T_RUN; }

/* wake timed waiters that are due; when nothing can run, advance the clock to the earliest deadline */
static void fire_timers(void) {
  for (int i = 0; i < nT; i++) {
    struct sthread *t = &T[i];
    if ((t->state == T_FUTEX || t->state == T_SLEEP) && t->deadline && t->deadline <= mono_ns) {
      t->wake_reason = t->state == T_FUTEX ? 1 : 0;
      t->state = T_RUN;
    }
  }
}
static int any_runnable(void) {
  for (int i = 0; i < nT; i++) if (runnable(&T[i])) return 1;
  return 0;
}

static struct sthread *default_next(int from) {
  /* next runnable, un-stalled thread in rotation order; if all are stalled, any runnable one */
  for (int pass = 0; pass < 2; pass++)
    for (int k = 1; k <= nT; k++) {
      int i = C.policy == 1 ? (from - k + 2 * nT) % nT : (from + k) % nT;
      if (runnable(&T[i]) && (pass == 1 || fair || T[i].stall_until <= yields)) return &T[i];
    }
  return NULL;
}

static struct sthread *pick_random(void) {
  int cand[MAXT], n = 0;
  for (int i = 0; i < nT; i++) if (runnable(&T[i])) cand[n++] = i;
  if (!n) return NULL;
  return &T[cand[sm(&rs_sched) % (uint64_t)n]];
}

static void bump_yield(void) {
  yields++;
  slice_end = edges + SLICE;
  mono_ns += 1000;
  /* far beyond what any workload needs: something goes round in circles that looks like work */
  if (yields > 8000000 || S->ioops > 2000000 || edges > 3000000000ull) hang("no end: the work done is out of all proportion");
  if (!fair && yields - prog_yield > C.noprog_yields) { fair = 1; fair_start = yields; trace("fair mode"); }
  if (fair && yields - prog_yield > 3 * C.noprog_yields && yields - fair_start > C.noprog_yields)
    hang("no progress: every thread only spins or waits");
  /* threads that only spin let time pass: the next timeout or sleep ends */
  if (yields - prog_yield > 2000 && yields >= next_jump) {
    uint64_t best = 0;
    for (int i = 0; i < nT; i++)
      if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline && (!best || T[i].deadline < best)) best = T[i].deadline;
    if (best > mono_ns) mono_ns = best;
    next_jump = yields + 1000;
  }
  /* environment events tied to the step counter */
  if (fair) return;
  if (C.replay) {
    struct sim_ev *e;
    if ((e = due(EV_STALL, yields)) && (int)e->a < nT) {
      T[e->a].stall_until = yields + (uint64_t)e->c; S->injected[F_STALL]++;
      trace("stall t%u for %lld steps", e->a, (long long)e->c);
    }
    if ((e = due(EV_CLOCK, yields))) { wall_off += (uint64_t)e->c; S->injected[F_CLOCK]++; trace("clock jump"); }
    if ((e = due(EV_SPURIOUS, yields)) && (int)e->a < nT && T[e->a].state == T_FUTEX) {
      T[e->a].state = T_RUN; T[e->a].wake_reason = 2; S->injected[F_SPURIOUS]++;
    }
  } else {
    if (chance(&rs_fault, C.fault_ppm[F_STALL])) {
      uint32_t v = (uint32_t)(sm(&rs_fault) % (uint64_t)nT);
      uint64_t len = 1 + sm(&rs_fault) % (C.stall_len ? C.stall_len : 1);
      T[v].stall_until = yields + len; S->injected[F_STALL]++;
      log_ev(EV_STALL, v, yields, (int64_t)len);
      trace("stall t%u for %llu steps", v, (unsigned long long)len);
    }
    if (chance(&rs_fault, C.fault_ppm[F_CLOCK])) {
      int64_t d = (int64_t)(sm(&rs_fault) % 7200000000000ull) - 3600000000000ll;
      wall_off += (uint64_t)d; S->injected[F_CLOCK]++;
      log_ev(EV_CLOCK, 0, yields, d);
    }
    if (chance(&rs_fault, C.fault_ppm[F_SPURIOUS])) {
      uint32_t v = (uint32_t)(sm(&rs_fault) % (uint64_t)nT);
      if (T[v].state == T_FUTEX) {
        T[v].state = T_RUN; T[v].wake_reason = 2; S->injected[F_SPURIOUS]++;
        log_ev(EV_SPURIOUS, v, yields, 0);
      }
    }
  }
}

/* scheduling point. kind 0: voluntary (default: rotate); 1: blocked/exited (must switch);
 * 2: soft (default: stay) */
static void sched(int kind) {
  bump_yield();
  fire_timers();
  while (!any_runnable()) {
    uint64_t best = 0;
    for (int i = 0; i < nT; i++)
      if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline && (!best || T[i].deadline < best))
        best = T[i].deadline;
    if (!best) hang("deadlock: every thread is blocked");
    if (best > mono_ns) mono_ns = best;
    fire_timers();
  }
  if (!fair) {
    /* when all that could run is stalled, time passes: the next timeout comes first */
    uint64_t best = 0;
    int awake = 0;
    for (int i = 0; i < nT; i++) {
      struct sthread *t = &T[i];
      if (runnable(t) && t->stall_until <= yields) awake = 1;
      if ((t->state == T_FUTEX || t->state == T_SLEEP) && t->deadline && (!best || t->deadline < best)) best = t->deadline;
    }
    if (!awake && best) {
      if (best > mono_ns) mono_ns = best;
      fire_timers();
    }
  }
  struct sthread *d;
  if (kind == 2 && (fair || cur->stall_until <= yields)) d = cur;
  else d = default_next(cur->id);
  if (kind == 2 && !runnable(d)) d = default_next(cur->id);
  struct sthread *n = d;
  if (!fair) {
    if (C.replay) {
      struct sim_ev *e = due(EV_YIELD, yields);
      if (e && (int)e->a < nT && runnable(&T[e->a])) n = &T[e->a];
    } else if (chance(&rs_sched, C.yield_ppm)) {
      n = pick_random();
      if (n != d) log_ev(EV_YIELD, (uint32_t)n->id, yields, 0);
    }
  }
  switch_to(n);
}

static void set_next_preempt(int redraw) {
  if (C.replay) {
    next_preempt = rpi[EV_PREEMPT] < rpn[EV_PREEMPT] ? rp[EV_PREEMPT][rpi[EV_PREEMPT]].at : UINT64_MAX;
  } else {
    if (redraw) draw_at = C.preempt_mean ? edges + 1 + sm(&rs_sched) % (2ull * C.preempt_mean) : UINT64_MAX;
    next_preempt = draw_at;
  }
  if (crash_step_at > edges && crash_step_at < next_preempt) next_preempt = crash_step_at;
  if (slice_end < next_preempt) next_preempt = slice_end;
  uint64_t lim = prog_edge + C.max_edges;
  if (lim < next_preempt) next_preempt = lim;
  if (next_preempt <= edges) next_preempt = edges + 1;
}

static void preempt(void) {
  if (edges == crash_step_at && !fair) {
    S->injected[F_CRASH_STEP]++;
    if (!C.replay) log_ev(EV_CRASH_STEP, 0, edges, 0);
    trace("process killed at edge %llu", (unsigned long long)edges);
    finish(V_CRASHED, "killed at edge %llu", (unsigned long long)edges);
  }
  if (edges - prog_edge >= C.max_edges) hang("no progress: a thread computes without end");
  struct sthread *n = NULL;
  int drawn = !C.replay && edges >= draw_at;
  if (!fair) {
    if (C.replay) {
      struct sim_ev *e = due(EV_PREEMPT, edges);
      if (e && (int)e->a < nT && runnable(&T[e->a])) n = &T[e->a];
    } else if (drawn) {
      n = pick_random();
      if (n == cur) n = pick_random();
      if (n && n != cur && n->stall_until <= yields) log_ev(EV_PREEMPT, (uint32_t)n->id, edges, 0);
      else n = NULL;
    }
  }
  /* the bookkeeping comes first: once the baton is gone this thread must not touch it */
  if (n && n != cur) { bump_yield(); set_next_preempt(drawn); switch_to(n); }
  else if (edges >= slice_end) { set_next_preempt(drawn); sched(0); set_next_preempt(0); }
  else set_next_preempt(drawn);
}

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  static uint32_t next = 1;
  if (a == b || *a) return;
  for (uint32_t *p = a; p < b; p++) *p = next++;
}
uint32_t sim_guard_total(void) { return 0; }

void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (!active || in_rt || !self) return;
  edges++;
  last_edge = *g;
  S->cov[*g & (COVBYTES - 1)] = 1;
  if (__builtin_expect(edges >= next_preempt, 0)) {
    int e = errno;
    in_rt = 1;
    preempt();
    in_rt = 0;
    errno = e;
  }
}

/* Every atomic operation of the instrumented crates comes here: the point before it is one more
 * place a thread can be preempted at, also where inlining has left no branch between two of them
 * (a load followed by a store, say). Executed one at a time, sequentially consistent. */
static inline void atomic_point(void) {
  if (!active || in_rt || !self) return;
  edges++;
  if (__builtin_expect(edges >= next_preempt, 0)) {
    int e = errno;
    in_rt = 1;
    preempt();
    in_rt = 0;
    errno = e;
  }
}
#define SC __ATOMIC_SEQ_CST
#define ATOMICS(B, T) \
  T __tsan_atomic##B##_load(const volatile T *p, int m) { (void)m; atomic_point(); return __atomic_load_n(p, SC); } \
  void __tsan_atomic##B##_store(volatile T *p, T v, int m) { (void)m; atomic_point(); __atomic_store_n(p, v, SC); } \
  T __tsan_atomic##B##_exchange(volatile T *p, T v, int m) { (void)m; atomic_point(); return __atomic_exchange_n(p, v, SC); } \
  T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int m) { (void)m; atomic_point(); return __atomic_fetch_add(p, v, SC); } \
  T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int m) { (void)m; atomic_point(); return __atomic_fetch_sub(p, v, SC); } \
  T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int m) { (void)m; atomic_point(); return __atomic_fetch_and(p, v, SC); } \
  T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int m) { (void)m; atomic_point(); return __atomic_fetch_or(p, v, SC); } \
  T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int m) { (void)m; atomic_point(); return __atomic_fetch_xor(p, v, SC); } \
  T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int m) { (void)m; atomic_point(); return __atomic_fetch_nand(p, v, SC); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T c, T v, int m, int f) { (void)m; (void)f; atomic_point(); \
    __atomic_compare_exchange_n(p, &c, v, 0, SC, SC); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int m) { (void)m; __atomic_signal_fence(SC); }

#define ON() (active && self && !in_rt)
#define ENTER() do { in_rt = 1; } while (0)
#define LEAVE() do { in_rt = 0; } while (0)

/* ---------------------------------------------------------------- TLS destructors and keys */
static void (*keydtor[MAXKEY])(void *);
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
  static int (*real)(pthread_key_t *, void (*)(void *));
  if (!real) real = dlsym(RTLD_NEXT, "pthread_key_create");
  int r = real(k, NULL);
  if (r == 0 && *k < MAXKEY) keydtor[*k] = d;
  return r;
}
int __cxa_thread_atexit_impl(void (*f)(void *), void *arg, void *dso) {
  (void)dso;
  if (!self) return 0; /* harness threads outlive the process */
  if (self->ndt == self->cdt) {
    self->cdt = self->cdt ? 2 * self->cdt : 16;
    self->dt = realloc(self->dt, sizeof(struct dtor) * (size_t)self->cdt);
  }
  self->dt[self->ndt].f = f;
  self->dt[self->ndt++].arg = arg;
  return 0;
}
static void run_tls_dtors(void) {
  for (int round = 0; round < 5; round++) {
    int any = 0;
    while (self->ndt > 0) {
      struct dtor d = self->dt[--self->ndt];
      any = 1;
      d.f(d.arg);
    }
    for (unsigned k = 0; k < MAXKEY; k++)
      if (keydtor[k]) {
        void *v = pthread_getspecific((pthread_key_t)k);
        if (v) { pthread_setspecific((pthread_key_t)k, NULL); any = 1; keydtor[k](v); }
      }
    if (!any) break;
  }
}

/* ---------------------------------------------------------------- pthread */
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_detach)(pthread_t);

static void *tmain(void *p) {
  struct sthread *t = p;
  self = t;
  in_rt = 1;
  baton_wait(t);
  in_rt = 0;
  t->ret = t->fn(t->arg);
  run_tls_dtors();
  in_rt = 1;
  trace("thread t%d exits", t->id);
  t->state = T_DONE;
  progress();
  for (int i = 0; i < nT; i++)
    if (T[i].state == T_JOIN && T[i].join_on == t->id) T[i].state = T_RUN;
  evh(0xdead, (uint64_t)t->id);
  void *ret = t->ret;
  sched(1);
  return ret;
}

static struct sthread *new_thread(void *(*fn)(void *), void *arg) {
  if (nT >= MAXT) finish(V_ERROR, "too many threads");
  struct sthread *t = &T[nT];
  memset(t, 0, sizeof *t);
  t->id = nT++;
  t->fn = fn; t->arg = arg;
  t->state = T_RUN;
  return t;
}

int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!ON()) return real_create(pt, at, fn, arg);
  ENTER();
  thread_creates++;
  int failit = 0;
  if (C.replay) failit = due(EV_THREAD_FAIL, thread_creates) != NULL;
  else if (chance(&rs_fault, C.fault_ppm[F_THREAD_FAIL])) { failit = 1; log_ev(EV_THREAD_FAIL, 0, thread_creates, 0); }
  if (failit && !fair) {
    S->injected[F_THREAD_FAIL]++;
    trace("pthread_create fails (EAGAIN)");
    evh(0xfa11, thread_creates);
    LEAVE();
    return EAGAIN;
  }
  struct sthread *t = new_thread(fn, arg);
  int r = real_create(pt, at, tmain, t);
  if (r) finish(V_ERROR, "pthread_create failed: %d", r);
  t->pt = *pt;
  progress();
  trace("creates thread t%d", t->id);
  evh(0xc4ea, (uint64_t)t->id);
  sched(2);
  LEAVE();
  return 0;
}
int pthread_join(pthread_t pt, void **ret) {
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (!ON()) return real_join(pt, ret);
  ENTER();
  struct sthread *t = NULL;
  for (int i = 0; i < nT; i++) if (T[i].pt == pt && !T[i].detached) t = &T[i];
  if (!t) finish(V_ERROR, "join of unknown thread");
  if (t->state != T_DONE) {
    cur->state = T_JOIN; cur->join_on = t->id;
    sched(1);
  }
  int r = real_join(pt, ret);
  t->detached = 1;
  LEAVE();
  return r;
}
int pthread_detach(pthread_t pt) {
  if (!real_detach) real_detach = dlsym(RTLD_NEXT, "pthread_detach");
  if (ON()) for (int i = 0; i < nT; i++) if (T[i].pt == pt) T[i].detached = 1;
  return real_detach(pt);
}

/* ---------------------------------------------------------------- futex, random, misc syscalls */
static uint64_t wall_now(void) { return 1700000000000000000ull + mono_ns + wall_off; }

static long do_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t val3) {
  int cmd = op & 127;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    S->futex_waits++;
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { sched(2); errno = EAGAIN; return -1; }
    struct sthread *me = cur;
    me->state = T_FUTEX;
    me->addr = addr;
    me->bitset = cmd == FUTEX_WAIT_BITSET ? val3 : 0xffffffffu;
    me->wait_seq = ++wait_seq;
    me->deadline = 0;
    if (ts) {
      uint64_t t = (uint64_t)ts->tv_sec > 9000000000ull ? 9000000000000000000ull
                                                       : (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
      if (cmd == FUTEX_WAIT) t += mono_ns;
      else if (op & FUTEX_CLOCK_REALTIME) t = t > wall_now() ? mono_ns + (t - wall_now()) : mono_ns;
      me->deadline = t ? t : 1;
    }
    evh(0xf0, (uint64_t)me->id);
    sched(1);
    int r = me->wake_reason;
    me->wake_reason = 0;
    if (r == 1) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    uint32_t bs = cmd == FUTEX_WAKE_BITSET ? val3 : 0xffffffffu;
    long n = 0;
    struct sthread *last = NULL;
    while (n < (long)val) {
      struct sthread *best = NULL;
      struct sthread *cand[MAXT];
      int nc = 0;
      for (int i = 0; i < nT; i++)
        if (T[i].state == T_FUTEX && T[i].addr == addr && (T[i].bitset & bs)) {
          cand[nc++] = &T[i];
          if (!best || T[i].wait_seq < best->wait_seq) best = &T[i];
        }
      if (!best) break;
      if (nc > 1 && !fair) {
        uint64_t k = yields * 64 + (uint64_t)n;
        if (C.replay) {
          struct sim_ev *e = due(EV_WAKESEL, k);
          if (e && (int)e->a < nT && T[e->a].state == T_FUTEX && T[e->a].addr == addr) best = &T[e->a];
        } else if (chance(&rs_sched, C.wakesel_ppm)) {
          struct sthread *o = cand[sm(&rs_sched) % (uint64_t)nc];
          if (o != best) { log_ev(EV_WAKESEL, (uint32_t)o->id, k, 0); best = o; }
        }
      }
      best->state = T_RUN;
      best->wake_reason = 0;
      last = best;
      n++;
    }
    evh(0xf1, (uint64_t)n);
    if (n) {
      if (C.policy == 2 && last && !fair) { bump_yield(); if (runnable(last)) switch_to(last); }
      else sched(2);
    }
    return n;
  }
  finish(V_ERROR, "unsupported futex op %d", op);
  return -1;
}

static long os_random(void *buf, size_t n) {
  unsigned char *p = buf;
  for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(sm(&rs_os) >> 32);
  return (long)n;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
       f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_getrandom) return os_random((void *)a, (size_t)b);
  if (ON()) {
    if (n == SYS_futex) {
      ENTER();
      long r = do_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
      LEAVE();
      return r;
    }
  }
  return sysret(raw6(n, a, b, c, d, e, f));
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) { (void)fl; return os_random(buf, n); }
int getentropy(void *buf, size_t n) { os_random(buf, n); return 0; }

int sched_yield(void) {
  if (ON()) { ENTER(); sched(0); LEAVE(); return 0; }
  return (int)sysret(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
}
static int sim_sleep(uint64_t ns) {
  ENTER();
  cur->state = T_SLEEP;
  cur->deadline = mono_ns + (ns ? ns : 1);
  sched(1);
  LEAVE();
  return 0;
}
int nanosleep(const struct timespec *r, struct timespec *m) {
  if (ON()) return sim_sleep((uint64_t)r->tv_sec * 1000000000ull + (uint64_t)r->tv_nsec);
  return (int)sysret(raw6(SYS_nanosleep, (long)r, (long)m, 0, 0, 0, 0));
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *r, struct timespec *m) {
  if (ON()) {
    uint64_t t = (uint64_t)r->tv_sec * 1000000000ull + (uint64_t)r->tv_nsec;
    if (flags & TIMER_ABSTIME) {
      uint64_t now = id == CLOCK_REALTIME ? wall_now() : mono_ns;
      t = t > now ? t - now : 1;
    }
    return sim_sleep(t);
  }
  long x = raw6(SYS_clock_nanosleep, id, flags, (long)r, (long)m, 0, 0);
  return x < 0 ? (int)-x : 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!ON()) return (int)sysret(raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0));
  ENTER();
  /* reading the clock is a voluntary point: spin loops in the system under test read it */
  sched(0);
  uint64_t t = id == CLOCK_REALTIME ? wall_now() : mono_ns;
  LEAVE();
  ts->tv_sec = (time_t)(t / 1000000000ull);
  ts->tv_nsec = (long)(t % 1000000000ull);
  return 0;
}
int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (!active) return (int)(sysret(raw6(SYS_sched_getaffinity, pid, (long)sz, (long)set, 0, 0, 0)) < 0 ? -1 : 0);
  memset(set, 0, sz);
  for (unsigned i = 0; i < C.ncpu && i < sz * 8; i++) CPU_SET_S(i, sz, set);
  return 0;
}

/* ---------------------------------------------------------------- file I/O */
struct fdinfo { int in; int match; int sticky_eio; char name[96]; };
static struct fdinfo FD[MAXFD];
static uint64_t ioop;
static int disk_full;
static uint64_t nfaults;

static int in_scope(const char *p) { return C.scope[0] && strncmp(p, C.scope, strlen(C.scope)) == 0; }
static const char *rel(const char *p) { return in_scope(p) ? p + strlen(C.scope) : p; }
static int matches(const char *p) { return !C.filter[0] || strstr(p, C.filter) != NULL; }

/* decides what happens to this I/O call: returns fault kind or -1; *arg = extra */
static int io_decide(int n, const int *kinds, int match, int64_t *arg, const char *what, const char *name, size_t len) {
  ioop++;
  S->ioops++;
  progress();
  mono_ns += 20000;
  int k = -1;
  *arg = 0;
  if (!fair) {
    if (C.replay) {
      struct sim_ev *e = due(EV_IO, ioop);
      if (e) for (int i = 0; i < n; i++) if (kinds[i] == (int)e->a) { k = (int)e->a; *arg = e->c; }
      if (due(EV_SLOW_IO, ioop)) { S->injected[F_SLOW_IO]++; mono_ns += 50000000; bump_yield(); struct sthread *t = default_next(cur->id); if (t) switch_to(t); }
    } else {
      for (int i = 0; i < n && k < 0; i++) {
        int f = kinds[i];
        if (f == F_CRASH_IO) { if (crash_io_at == ioop) k = f; continue; }
        if (!C.fault_ppm[f]) continue;
        int failing = f != F_SHORT_READ && f != F_SHORT_WRITE && f != F_EINTR;
        if (failing && (nfaults >= C.fault_max || !match)) continue;
        if (chance(&rs_fault, C.fault_ppm[f])) { k = f; if (failing) nfaults++; }
      }
      if (k >= 0) { *arg = (int64_t)(sm(&rs_fault) >> 1); log_ev(EV_IO, (uint32_t)k, ioop, *arg); }
      if (chance(&rs_fault, C.fault_ppm[F_SLOW_IO])) {
        log_ev(EV_SLOW_IO, 0, ioop, 0);
        S->injected[F_SLOW_IO]++;
        mono_ns += 50000000;
        bump_yield();
        struct sthread *t = default_next(cur->id);
        if (t) switch_to(t);
      }
    }
  }
  if (k >= 0) { S->injected[k]++; trace("io#%llu %s %s len=%zu FAULT %d", (unsigned long long)ioop, what, name, len, k); }
  else trace("io#%llu %s %s len=%zu", (unsigned long long)ioop, what, name, len);
  evh(0x10, ioop ^ ((uint64_t)len << 32) ^ ((uint64_t)(k + 1) << 60));
  return k;
}

static long do_open(int dirfd, const char *path, int flags, mode_t mode) {
  /* the number of CPUs of a run is the case's: no CPU quota of the machine the check happens to run on */
  if (ON() && (!strcmp(path, "/proc/self/cgroup") || !strcmp(path, "/proc/self/mountinfo"))) { errno = ENOENT; return -1; }
  if (!ON() || !in_scope(path)) {
    long r = sysret(raw6(SYS_openat, dirfd, (long)path, flags | O_LARGEFILE, mode, 0, 0));
    if (r >= 0 && r < MAXFD) FD[r].in = 0;
    return r;
  }
  ENTER();
  static const int kinds[] = {F_CRASH_IO, F_OPEN_FAIL, F_EINTR};
  int64_t arg;
  int k = io_decide(3, kinds, matches(path), &arg, "open", rel(path), 0);
  long r;
  if (k == F_CRASH_IO) finish(V_CRASHED, "killed in open of %s", rel(path));
  if (k == F_OPEN_FAIL) {
    static const int er[] = {EMFILE, EACCES, EIO, ENFILE};
    errno = (flags & O_CREAT) && (arg & 4) ? ENOSPC : er[arg & 3];
    r = -1;
  } else if (k == F_EINTR) {
    errno = EINTR;
    r = -1;
  } else {
    r = sysret(raw6(SYS_openat, dirfd, (long)path, flags | O_LARGEFILE, mode, 0, 0));
    if (r >= 0 && r < MAXFD) {
      memset(&FD[r], 0, sizeof FD[r]);
      FD[r].in = 1;
      FD[r].match = matches(path);
      snprintf(FD[r].name, sizeof FD[r].name, "%s", rel(path));
    }
  }
  int e = errno;
  sched(2);
  LEAVE();
  errno = e;
  return r;
}
#define OPENBODY(dfd, flags) \
  mode_t mode = 0; \
  if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
  return (int)do_open(dfd, path, flags, mode);
int open(const char *path, int flags, ...) { OPENBODY(AT_FDCWD, flags) }
int open64(const char *path, int flags, ...) { OPENBODY(AT_FDCWD, flags) }
int openat(int d, const char *path, int flags, ...) { OPENBODY(d, flags) }
int openat64(int d, const char *path, int flags, ...) { OPENBODY(d, flags) }
int creat(const char *path, mode_t m) { return (int)do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int fdin(int fd) { return fd >= 0 && fd < MAXFD && FD[fd].in; }

static size_t part(int64_t arg, size_t len) { /* 1 .. len-1 */
  return len <= 1 ? len : 1 + (size_t)((uint64_t)arg % (len - 1));
}

static long sim_read(int fd, long nr, void *buf, size_t len, off_t off) {
  ENTER();
  static const int kinds[] = {F_CRASH_IO, F_READ_EIO, F_READ_EIO_STICKY, F_EINTR, F_SHORT_READ};
  int64_t arg;
  int k = io_decide(5, kinds, FD[fd].match, &arg, "read", FD[fd].name, len);
  long r;
  if (k == F_CRASH_IO) finish(V_CRASHED, "killed in read of %s", FD[fd].name);
  if (k == F_READ_EIO_STICKY) FD[fd].sticky_eio = 1;
  static const int er[] = {EIO, EIO, ESTALE, EAGAIN};
  if (FD[fd].sticky_eio) { errno = EIO; r = -1; }
  else if (k == F_READ_EIO) { errno = er[arg & 3]; r = -1; }
  else if (k == F_EINTR) { errno = EINTR; r = -1; }
  else {
    size_t l = k == F_SHORT_READ ? part(arg, len) : len;
    r = sysret(raw6(nr, fd, (long)buf, (long)l, off, 0, 0));
    if (r > 0) S->io_bytes += (uint64_t)r;
  }
  int e = errno;
  sched(2);
  LEAVE();
  errno = e;
  return r;
}
static long sim_write(int fd, long nr, const void *buf, size_t len, off_t off) {
  ENTER();
  static const int kinds[] = {F_CRASH_IO, F_WRITE_EIO, F_ENOSPC, F_ENOSPC_ONCE, F_EINTR, F_SHORT_WRITE};
  int64_t arg;
  int k = io_decide(6, kinds, FD[fd].match, &arg, "write", FD[fd].name, len);
  long r;
  if (k == F_CRASH_IO) {
    size_t l = len ? (size_t)((uint64_t)arg % (len + 1)) : 0;
    if (l) raw6(nr, fd, (long)buf, (long)l, off, 0, 0);
    finish(V_CRASHED, "killed in write of %s after %zu of %zu bytes", FD[fd].name, l, len);
  }
  if (k == F_ENOSPC && !disk_full) {
    disk_full = 1;
    if ((arg & 1) && len > 1) { /* the last free bytes are still accepted */
      r = sysret(raw6(nr, fd, (long)buf, (long)part(arg >> 1, len), off, 0, 0));
      goto out;
    }
  }
  static const int er[] = {EIO, EDQUOT, EFBIG, EAGAIN};
  if (k == F_WRITE_EIO) { errno = er[arg & 3]; r = -1; }
  else if (k == F_ENOSPC_ONCE || (disk_full && FD[fd].match)) { errno = ENOSPC; r = -1; }
  else if (k == F_EINTR) { errno = EINTR; r = -1; }
  else {
    size_t l = k == F_SHORT_WRITE ? part(arg, len) : len;
    r = sysret(raw6(nr, fd, (long)buf, (long)l, off, 0, 0));
    if (r > 0) S->io_bytes += (uint64_t)r;
  }
out:;
  int e = errno;
  sched(2);
  LEAVE();
  errno = e;
  return r;
}
ssize_t read(int fd, void *buf, size_t len) {
  if (ON() && fdin(fd)) return sim_read(fd, SYS_read, buf, len, 0);
  return sysret(raw6(SYS_read, fd, (long)buf, (long)len, 0, 0, 0));
}
ssize_t write(int fd, const void *buf, size_t len) {
  if (ON() && fdin(fd)) return sim_write(fd, SYS_write, buf, len, 0);
  return sysret(raw6(SYS_write, fd, (long)buf, (long)len, 0, 0, 0));
}
ssize_t pread64(int fd, void *buf, size_t len, off_t off) {
  if (ON() && fdin(fd)) return sim_read(fd, SYS_pread64, buf, len, off);
  return sysret(raw6(SYS_pread64, fd, (long)buf, (long)len, off, 0, 0));
}
ssize_t pread(int fd, void *buf, size_t len, off_t off) { return pread64(fd, buf, len, off); }
ssize_t pwrite64(int fd, const void *buf, size_t len, off_t off) {
  if (ON() && fdin(fd)) return sim_write(fd, SYS_pwrite64, buf, len, off);
  return sysret(raw6(SYS_pwrite64, fd, (long)buf, (long)len, off, 0, 0));
}
ssize_t pwrite(int fd, const void *buf, size_t len, off_t off) { return pwrite64(fd, buf, len, off); }
ssize_t readv(int fd, const struct iovec *v, int n) {
  if (ON() && fdin(fd)) {
    for (int i = 0; i < n; i++) if (v[i].iov_len) return sim_read(fd, SYS_read, v[i].iov_base, v[i].iov_len, 0);
    return 0;
  }
  return sysret(raw6(SYS_readv, fd, (long)v, n, 0, 0, 0));
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (ON() && fdin(fd)) {
    for (int i = 0; i < n; i++) if (v[i].iov_len) return sim_write(fd, SYS_write, v[i].iov_base, v[i].iov_len, 0);
    return 0;
  }
  return sysret(raw6(SYS_writev, fd, (long)v, n, 0, 0, 0));
}
int close(int fd) {
  if (ON() && fdin(fd)) {
    ENTER();
    trace("close %s", FD[fd].name);
    progress();
    FD[fd].in = 0;
    int r = (int)sysret(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
    sched(2);
    LEAVE();
    return r;
  }
  if (fd >= 0 && fd < MAXFD) FD[fd].in = 0;
  return (int)sysret(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
}

static int meta(const char *what, const char *path) { /* 0: go on, -1: injected failure */
  static const int kinds[] = {F_CRASH_IO, F_META_FAIL};
  int64_t arg;
  int k = io_decide(2, kinds, matches(path), &arg, what, rel(path), 0);
  if (k == F_CRASH_IO) finish(V_CRASHED, "killed in %s of %s", what, rel(path));
  if (k == F_META_FAIL) { static const int er[] = {EIO, EACCES, ENOSPC, EMFILE}; errno = er[arg & 3]; return -1; }
  return 0;
}
#define META(what, path, call) \
  do { \
    if (ON() && in_scope(path)) { \
      ENTER(); \
      int r_ = meta(what, path); \
      if (r_ == 0) r_ = (int)(call); \
      int e_ = errno; \
      sched(2); \
      LEAVE(); \
      errno = e_; \
      return r_; \
    } \
    return (int)(call); \
  } while (0)
int unlink(const char *p) { META("unlink", p, sysret(raw6(SYS_unlink, (long)p, 0, 0, 0, 0, 0))); }
int rmdir(const char *p) { META("rmdir", p, sysret(raw6(SYS_rmdir, (long)p, 0, 0, 0, 0, 0))); }
int mkdir(const char *p, mode_t m) { META("mkdir", p, sysret(raw6(SYS_mkdir, (long)p, m, 0, 0, 0, 0))); }
int rename(const char *p, const char *q) { META("rename", p, sysret(raw6(SYS_rename, (long)p, (long)q, 0, 0, 0, 0))); }
int ftruncate64(int fd, off_t l) {
  if (ON() && fdin(fd)) META("ftruncate", C.scope, sysret(raw6(SYS_ftruncate, fd, l, 0, 0, 0, 0)));
  return (int)sysret(raw6(SYS_ftruncate, fd, l, 0, 0, 0, 0));
}
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
static int syncop(int fd, long nr) {
  if (ON() && fdin(fd)) META("fsync", C.scope, sysret(raw6(nr, fd, 0, 0, 0, 0, 0)));
  return (int)sysret(raw6(nr, fd, 0, 0, 0, 0, 0));
}
int fsync(int fd) { return syncop(fd, SYS_fsync); }
int fdatasync(int fd) { return syncop(fd, SYS_fdatasync); }
/* limits of the process the simulator lives in are not the simulated program's to change */
int setrlimit(__rlimit_resource_t r, const struct rlimit *l) { (void)r; (void)l; return 0; }
int setrlimit64(__rlimit_resource_t r, const struct rlimit64 *l) { (void)r; (void)l; return 0; }
/* kernel-side copies are refused so that std falls back to read/write, which are simulated */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
  (void)a; (void)b; (void)c; (void)d; (void)n; (void)f;
  errno = ENOSYS;
  return -1;
}
ssize_t sendfile64(int a, int b, off64_t *c, size_t n) { (void)a; (void)b; (void)c; (void)n; errno = ENOSYS; return -1; }

/* ---------------------------------------------------------------- memory
 * All allocations of a run come from a region at a fixed address that starts empty, so that no
 * address (and no alignment-dependent loop) depends on what the parent process did before. */
#define ARENA ((unsigned char *)0x600000000000ull)
#define ARENA_SZ (24ull << 30)
static unsigned char *ap;
static void *bins[64 + 48];
static volatile int alock;
/* A run that never stops allocating must not take the machine with it: memory that is really used is
 * limited (a big buffer that is only reserved is not counted), the allocation then fails. */
#define USED_MAX (3ull << 30)
static uint64_t aused;
/* bytes asked for and not given back, and the most there were since the last mark */
static uint64_t alive, apeak, atotal;
static void acount(size_t n) { atotal += n; uint64_t v = __atomic_add_fetch(&alive, n, __ATOMIC_RELAXED); if (v > apeak) apeak = v; }
uint64_t sim_heap(int mark) { if (mark) apeak = alive; return mark ? alive : apeak; }
void sim_arena_on(void) {
  void *m = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (m != (void *)ARENA) { static const char e[] = "arena\n"; raw6(SYS_write, 2, (long)e, 6, 0, 0, 0); raw6(SYS_exit_group, 99, 0, 0, 0, 0, 0); }
  ap = ARENA;
}
static size_t aclass(size_t n, size_t al, int *bin) {
  if (n == 0) n = 1;
  if (al <= 16 && n <= 1024) { *bin = (int)((n + 15) / 16) - 1; return (n + 15) / 16 * 16; }
  if (n < al) n = al;
  int b = 64 - __builtin_clzll((unsigned long long)n - 1 | 1);
  *bin = 64 + b;
  return (size_t)1 << b;
}
void *sim_alloc(size_t n, size_t al, int zero) {
  if (!ap) {
    void *p = NULL;
    if (al <= 16) return zero ? calloc(1, n) : malloc(n);
    if (posix_memalign(&p, al, n)) return NULL;
    if (zero) memset(p, 0, n);
    return p;
  }
  int b;
  size_t c = aclass(n, al, &b);
  while (__atomic_exchange_n(&alock, 1, __ATOMIC_ACQUIRE)) raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  void *r = bins[b];
  int fresh = r == NULL;
  if (!fresh) bins[b] = *(void **)r;
  else {
    if (b >= 64) { size_t a = c < 4096 ? c : 4096; if (a < al) a = al; ap = (unsigned char *)(((uintptr_t)ap + a - 1) & ~(uintptr_t)(a - 1)); }
    if (c < (16u << 20)) aused += c;
    if (aused > USED_MAX || c > ARENA_SZ || ap + c > ARENA + ARENA_SZ) { __atomic_store_n(&alock, 0, __ATOMIC_RELEASE); return NULL; }
    r = ap;
    ap += c;
  }
  acount(n);
  __atomic_store_n(&alock, 0, __ATOMIC_RELEASE);
  if (zero && !fresh) memset(r, 0, n);
  return r;
}
void sim_free(void *p, size_t n, size_t al) {
  if (!ap || (unsigned char *)p < ARENA || (unsigned char *)p >= ARENA + ARENA_SZ) {
    if (!ap) free(p);
    return;
  }
  int b;
  aclass(n, al, &b);
  while (__atomic_exchange_n(&alock, 1, __ATOMIC_ACQUIRE)) raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  *(void **)p = bins[b];
  bins[b] = p;
  __atomic_sub_fetch(&alive, n, __ATOMIC_RELAXED);
  __atomic_store_n(&alock, 0, __ATOMIC_RELEASE);
}
void *sim_realloc(void *p, size_t old, size_t al, size_t n) {
  if (!ap && al <= 16) return realloc(p, n);
  if (ap && (unsigned char *)p >= ARENA && (unsigned char *)p < ARENA + ARENA_SZ) {
    int b1, b2;
    aclass(old, al, &b1);
    aclass(n, al, &b2);
    if (b1 == b2) {
      __atomic_sub_fetch(&alive, old, __ATOMIC_RELAXED);
      atotal -= old < n ? old : n;
      acount(n);
      return p;
    }
  }
  if (ap && old < n && old > USED_MAX / 4) return NULL;
  void *q = sim_alloc(n, al, 0);
  if (!q) return NULL;
  memcpy(q, p, old < n ? old : n);
  sim_free(p, old, al);
  return q;
}

/* ---------------------------------------------------------------- control */
static void *root_main(void *p) {
  struct sthread *t = p;
  self = t;
  in_rt = 1;
  baton_wait(t);
  in_rt = 0;
  t->fn(t->arg);
  finish(V_ERROR, "workload returned without a verdict");
  return NULL;
}

/* called in the forked child; never returns */
void sim_run(struct sim_shared *sh, const struct sim_cfg *cfg, void *(*fn)(void *), void *arg) {
  S = sh;
  C = *cfg;
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (!real_detach) real_detach = dlsym(RTLD_NEXT, "pthread_detach");
  uint64_t s = cfg->seed;
  rs_sched = sm(&s); rs_fault = sm(&s); rs_os = sm(&s);
  S->event_hash = 1; S->ileave_hash = 1;
  mono_ns = 1000000000ull;
  crash_step_at = UINT64_MAX; crash_io_at = UINT64_MAX;
  for (uint64_t i = 0; i < C.nev; i++) {
    uint32_t k = C.ev[i].kind & 15;
    if (!rpn[k]) rp[k] = &C.ev[i];
    rpn[k]++;
  }
  if (C.replay) {
    if (rpn[EV_CRASH_STEP]) crash_step_at = rp[EV_CRASH_STEP][0].at;
  } else {
    uint64_t span = C.crash_hi > C.crash_lo ? C.crash_hi - C.crash_lo : 1;
    if (chance(&rs_fault, C.fault_ppm[F_CRASH_IO])) crash_io_at = C.crash_lo + sm(&rs_fault) % span;
    else if (chance(&rs_fault, C.fault_ppm[F_CRASH_STEP])) crash_step_at = 1 + sm(&rs_fault) % (C.crash_hi ? C.crash_hi * 200 : 1);
  }
  struct sthread *t = new_thread(fn, arg);
  cur = t;
  slice_end = SLICE;
  set_next_preempt(1);
  active = 1;
  pthread_t pt;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 16u << 20);
  if (real_create(&pt, &at, root_main, t)) finish(V_ERROR, "cannot create root thread");
  t->pt = pt;
  baton_give(t);
  for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
}

/* freezes the simulated world: the calling thread goes on alone, outside the simulation */
void sim_freeze(void) { active = 0; flush_stats(); }
int sim_is_active(void) { return active; }
void sim_progress(void) { if (ON()) progress(); }
/* the harness records history without scheduling points */
void sim_hold(int on) { if (active && self) in_rt = on; }
/* voluntary point of a workload */
void sim_yield(void) { if (ON()) { ENTER(); sched(0); LEAVE(); } }
/* the same; basic blocks the other threads have gone through meanwhile */
uint64_t sim_yield_work(void) { uint64_t e = edges; sim_yield(); return edges - e; }
void sim_point(void) { if (ON()) { ENTER(); sched(2); LEAVE(); } }
int sim_tid(void) { return self ? self->id : -1; }
uint64_t sim_yields(void) { return yields; }
/* threads that have been started and not ended, files of the scratch folder that are open */
int sim_live_threads(void) { int n = 0; for (int i = 0; i < nT; i++) if (T[i].state != T_DONE) n++; return n; }
int sim_open_files(char *names, size_t cap) {
  int n = 0;
  size_t l = 0;
  if (cap) names[0] = 0;
  for (int i = 0; i < MAXFD; i++) if (FD[i].in) {
    n++;
    if (l + 100 < cap) l += (size_t)snprintf(names + l, cap - l, " %s", FD[i].name);
  }
  return n;
}
uint64_t sim_ioops(void) { return ioop; }
/* work done so far: basic blocks, bytes read and written, bytes allocated */
uint64_t sim_work(int k) { return k == 0 ? edges : k == 1 ? S->io_bytes : atotal; }
uint64_t sim_injected(int k) { return S->injected[k]; }
void sim_disk_heal(void) { disk_full = 0; }
void sim_faults_off(void) { memset(C.fault_ppm, 0, sizeof C.fault_ppm); rpn[EV_IO] = 0; disk_full = 0; }
void sim_note(const char *m) { if (S) { int w = in_rt; in_rt = 1; trace("%s", m); in_rt = w; } }
void sim_verdict(int v, const char *m) {
  if (S->verdict == V_NONE) { snprintf(S->msg, MSGCAP, "%s", m); S->verdict = (uint32_t)v; }
  flush_stats();
  raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
}
void sim_panic_note(const char *m, size_t n) {
  size_t k = strnlen(S->panics, MSGCAP);
  if (k + n + 2 < MSGCAP) { memcpy(S->panics + k, m, n); S->panics[k + n] = '\n'; S->panics[k + n + 1] = 0; }
}
size_t sim_sizeof_shared(void) { return sizeof(struct sim_shared); }
size_t sim_sizeof_cfg(void) { return sizeof(struct sim_cfg); }

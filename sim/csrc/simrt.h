/* Deterministic simulation runtime: shared definitions (mirrored in src/rt.rs). */
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>

enum {
  F_SHORT_READ = 0,   /* read returns fewer bytes than asked (>=1) */
  F_SHORT_WRITE = 1,  /* write accepts fewer bytes than asked (>=1) */
  F_EINTR = 2,        /* read/write interrupted */
  F_READ_EIO = 3,     /* read fails with EIO, once */
  F_READ_EIO_STICKY = 4, /* this and every later read of the same file fails */
  F_WRITE_EIO = 5,    /* write fails with EIO, once */
  F_ENOSPC = 6,       /* disk full: this and every later write fails; a prefix may be written */
  F_ENOSPC_ONCE = 7,  /* disk full for one write only */
  F_OPEN_FAIL = 8,    /* open fails: EMFILE/EACCES/EIO/ENOSPC */
  F_CRASH_IO = 9,     /* process dies inside an I/O call; a write may be torn */
  F_CRASH_STEP = 10,  /* process dies at an arbitrary instrumented point */
  F_STALL = 11,       /* a thread gets no CPU for a while */
  F_CLOCK = 12,       /* wall clock jumps (backwards or forwards) */
  F_SPURIOUS = 13,    /* spurious futex wake-up */
  F_THREAD_FAIL = 14, /* thread creation fails with EAGAIN */
  F_SLOW_IO = 15,     /* an I/O call takes long: caller is descheduled */
  F_META_FAIL = 16,   /* mkdir/rename/unlink/ftruncate fails */
  NFAULT = 17
};

enum { EV_PREEMPT = 1, EV_YIELD = 2, EV_STALL = 3, EV_IO = 4, EV_CLOCK = 5, EV_SPURIOUS = 6,
       EV_WAKESEL = 7, EV_THREAD_FAIL = 8, EV_CRASH_STEP = 9, EV_SLOW_IO = 10 };

enum { V_NONE = 0, V_OK = 1, V_VIOLATION = 2, V_HANG = 3, V_CRASHED = 4, V_ERROR = 5, V_SKIP = 6 };

struct sim_ev { uint32_t kind; uint32_t a; uint64_t at; int64_t c; };

struct sim_cfg {
  uint64_t seed;
  uint32_t replay;            /* 1: apply only `events` */
  uint32_t policy;            /* 0 round robin up, 1 round robin down, 2 prefer just-woken thread */
  uint32_t preempt_mean;      /* mean instrumented edges between forced preemptions; 0 = never */
  uint32_t yield_ppm;         /* chance of a random choice at a voluntary point */
  uint32_t wakesel_ppm;
  uint32_t fault_ppm[NFAULT];
  uint32_t fault_max;         /* bound on I/O faults of the failing kind */
  uint32_t ncpu;
  uint32_t stall_len;
  uint64_t crash_lo, crash_hi; /* window of io ops / edges in which the crash point is drawn */
  uint64_t noprog_yields;     /* no-progress bound */
  uint64_t max_edges;         /* no-progress bound in instrumented edges */
  char scope[256];            /* scratch prefix: only files below it are simulated storage */
  char filter[64];            /* substring a path must contain for failing faults */
  uint64_t nev;
  struct sim_ev *ev;          /* replay events (sorted by kind, at) */
};

#define COVBYTES (1u << 16)
#define EVCAP 600000u
#define MSGCAP 8192u
#define TRACECAP 256

struct sim_shared {
  uint32_t verdict;
  uint32_t nthreads;
  char msg[MSGCAP];
  char panics[MSGCAP];
  char trace[TRACECAP][160];  /* ring of the last notable steps */
  uint32_t ntrace;
  uint32_t pad;
  uint64_t edges, yields, switches, ioops, futex_waits, sim_ns, io_bytes;
  uint64_t ileave_hash, event_hash;
  uint64_t injected[NFAULT];
  uint64_t nev;
  uint64_t ev_overflow;
  uint64_t user[8];           /* counters of the workload: see src */
  struct sim_ev ev[EVCAP];
  unsigned char cov[COVBYTES];
};
#endif

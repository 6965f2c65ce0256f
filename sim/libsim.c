// libsim: a deterministic whole-process simulator, loaded with LD_PRELOAD.
//
// Real threads, one baton.  Once sim_start() has been called in a process that has a single
// thread, every further thread is registered, exactly one thread runs at any time, and every
// blocking or ordering primitive the process uses (pthread mutex/cond/rwlock/sem/join, futex(2)
// through libc's syscall(), sched_yield, sleeps, clocks, entropy, and file I/O below the
// simulated disk's root) is decided here, from a seeded PRNG or from a replay file's list.
// Code of the extension module is compiled with -sanitizer-coverage trace-pc-guard, so each
// basic-block edge of it is a preemption point as well.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define MAXT 192
#define MAXDEC (1 << 20)
#define MAXFAULTLOG 65536
#define COVN (1 << 19)

enum { T_FREE = 0, T_RUN = 1, T_BLOCK = 2, T_DONE = 3 };
enum { K_EDGE = 1, K_SYNC = 2, K_YIELD = 3, K_BLOCK = 4, K_SPAWN = 5, K_EXIT = 6, K_ALLOC = 7, K_IO = 8, K_USER = 9 };
// faults
enum {
  F_STALL = 0, F_SPURIOUS, F_TIMEJUMP, F_SPAWN, F_ENTROPY_INTR, F_ENTROPY_SHORT, F_ENTROPY_FAIL, F_ENOSPC, F_EIO_W,
  F_SHORT_W, F_EINTR_W, F_EIO_R, F_SHORT_R, F_EINTR_R, F_OPEN, F_FSYNC, F_CLOSE, F_CRASH, F_RENAME, F_WALLJUMP,
  F_POISON, F_WAKEORDER, F_STAT, F_ENTROPY_CONST, NFAULT
};

typedef struct {
  uint64_t seed;
  uint32_t mode;           // 0 sticky, 1 random walk, 2 PCT, 3 round robin, 9 replay
  uint32_t p_sync;         // switch probability at a sync event, of 65536
  uint32_t edge_gap;       // mean edges between preemptions, 0 none
  uint32_t pct_depth;
  uint32_t pct_len;        // estimated run length in events
  uint32_t ns_per_event;   // virtual nanoseconds per event
  uint32_t ncpu;           // what sched_getaffinity / sysconf report
  uint32_t p_fault[NFAULT];// of 65536
  uint32_t fault_max[NFAULT]; // at most this many of each kind
  uint64_t max_events;
  uint32_t poison;         // byte pattern seed, 0 = off
  uint32_t alloc_yield;    // allocation is a sync event
  uint32_t stall_len;
  uint32_t pad;
  int64_t wall_base_ns;
  char disk_root[256];
} SimCfg;

typedef struct { uint64_t ev; uint32_t tid; uint32_t kind; } Dec; // kind 0 = switch, 1 = wake pick
typedef struct { uint32_t kind; uint32_t n; uint64_t arg; } FaultRec;

typedef struct {
  volatile uint32_t status;  // 0 running, 1 finished, 2 deadlock, 3 livelock, 4 crash fault, 5 heap corruption, 6 bad use
  uint32_t nthreads, max_runnable;
  uint64_t ev, edges, syncs, allocs, switches, preempts, decisions;
  uint64_t vtime;
  uint64_t hash;       // over the whole event log
  uint64_t ihash;      // over the context-switch sequence: the interleaving
  uint32_t ndec, dec_overflow;
  uint32_t nfaultlog, marker;
  uint64_t fault_opp[NFAULT], fault_hit[NFAULT];
  uint64_t cov_edges;
  uint32_t entropy_calls, clock_calls, huge_refused;
  uint64_t poison_bytes;
  char msg[512];
  Dec dec[MAXDEC];
  FaultRec faults[MAXFAULTLOG];
  uint8_t cov[COVN];
  uint32_t req_len, res_len;
  uint8_t req[16 << 20], res[16 << 20]; // the scenario, and what came of it
} Shared;

static Shared *S;
static SimCfg C;
static Dec *rdec; static uint32_t nrdec, irdec;
static FaultRec *rflt; static uint32_t nrflt;
static int active;
static uint32_t ncov = 1;

typedef struct {
  int state;
  volatile int baton;
  const void *addr;     // what it is blocked on
  int wkind;            // kind of wait
  uint64_t deadline;    // virtual monotonic ns, 0 none
  int timedout;
  uint64_t prio;
  uint64_t stalled_until;
  uint64_t waitseq;
  pthread_t pt;
  pid_t ktid;
  void *(*fn)(void *); void *arg;
  int joined_waited;
} Th;
static Th T[MAXT];
static int nT, cur;
static volatile pid_t exiting_ktid;
static __thread int me __attribute__((tls_model("initial-exec"))) = -1;
static __thread int insim __attribute__((tls_model("initial-exec"))) = 0;
static pthread_key_t exitkey;
static uint64_t slice0, vadd, ev, next_preempt, max_ev, waitseq;
static uint64_t rs, rs_ent, rs_flt; // PRNG states
static int64_t wall_off;
// virtual time is a function of the event count and of the jumps made, so that a replay, which
// takes fewer scheduling decisions, sees the same times
// Until the parent process has settled (imports done) its clock and entropy are fixed too: state
// drawn from them while importing (hash seeds) is inherited by every simulated process.
static int PRE = 1;
EXPORT void sim_settled(void) { PRE = 0; }
#define NOW() (vadd + ev * (uint64_t)C.ns_per_event)
static uint64_t pct_points[64]; static int n_pct, i_pct; static uint64_t pct_low;

static long rawsys(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static uint64_t sm(uint64_t *s) { uint64_t z = (*s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t rnd(uint64_t n) { return n ? sm(&rs) % n : 0; }

#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__)
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
REAL(int, pthread_join, pthread_t, void **);
REAL(int, pthread_mutex_lock, pthread_mutex_t *);
REAL(int, pthread_mutex_trylock, pthread_mutex_t *);
REAL(int, pthread_mutex_timedlock, pthread_mutex_t *, const struct timespec *);
REAL(int, pthread_mutex_unlock, pthread_mutex_t *);
REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *);
REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
REAL(int, pthread_cond_signal, pthread_cond_t *);
REAL(int, pthread_cond_broadcast, pthread_cond_t *);
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *);
REAL(int, sem_wait, sem_t *);
REAL(int, sem_trywait, sem_t *);
REAL(int, sem_timedwait, sem_t *, const struct timespec *);
REAL(int, sem_clockwait, sem_t *, clockid_t, const struct timespec *);
REAL(int, sem_post, sem_t *);
REAL(int, clock_gettime, clockid_t, struct timespec *);
REAL(int, sched_getaffinity, pid_t, size_t, cpu_set_t *);
REAL(long, sysconf, int);
REAL(int, open64, const char *, int, ...);
REAL(int, openat64, int, const char *, int, ...);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, read, int, void *, size_t);
REAL(int, close, int);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, rename, const char *, const char *);
REAL(int, unlink, const char *);
REAL(int, ftruncate64, int, off64_t);
REAL(off64_t, lseek64, int, off64_t, int);

static int init_done;
__attribute__((constructor)) static void init(void) {
  if (init_done) return;
  init_done = 1;
#define L(name) r_##name = dlsym(RTLD_NEXT, #name)
  L(pthread_create); L(pthread_join); L(pthread_mutex_lock); L(pthread_mutex_trylock); L(pthread_mutex_timedlock);
  L(pthread_mutex_unlock); L(pthread_cond_wait); L(pthread_cond_timedwait); L(pthread_cond_clockwait);
  L(pthread_cond_signal); L(pthread_cond_broadcast); L(pthread_rwlock_rdlock); L(pthread_rwlock_tryrdlock);
  L(pthread_rwlock_wrlock); L(pthread_rwlock_trywrlock); L(pthread_rwlock_unlock); L(sem_wait); L(sem_trywait);
  L(sem_timedwait); L(sem_clockwait); L(sem_post); L(clock_gettime); L(sched_getaffinity); L(sysconf);
  L(open64); L(openat64); L(write); L(read); L(close); L(fsync); L(fdatasync); L(rename); L(unlink); L(ftruncate64); L(lseek64);
  const char *shm = getenv("SIM_SHM"); // the zygote shares this with its coordinator
  S = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | (shm ? 0 : MAP_ANONYMOUS), shm ? atoi(shm) : -1, 0);
}
#define ENSURE() do { if (__builtin_expect(!init_done, 0)) init(); } while (0)
#define ON (active && me >= 0 && !insim)

static void hash2(uint64_t *h, uint64_t v) { *h = (*h ^ v) * 0x100000001b3ull; *h ^= *h >> 29; }

static void finish(int status, const char *msg) __attribute__((noreturn));
static void finish(int status, const char *msg) {
  S->status = status; S->ev = ev; S->vtime = NOW();
  if (msg && msg != S->msg) { strncpy(S->msg, msg, sizeof S->msg - 1); }
  rawsys(SYS_exit_group, status == 1 ? 0 : 100 + status, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}

// ---------------------------------------------------------------- faults
static int fault(int kind, uint64_t *arg) {
  uint32_t n = S->fault_opp[kind]++;
  if (C.mode == 9) {
    for (uint32_t i = 0; i < nrflt; i++)
      if (rflt[i].kind == (uint32_t)kind && rflt[i].n == n) { if (arg) *arg = rflt[i].arg; goto hit; }
    return 0;
  }
  if (!C.p_fault[kind] || S->fault_hit[kind] >= C.fault_max[kind]) return 0;
  if ((sm(&rs_flt) & 65535) >= C.p_fault[kind]) return 0;
  if (arg) *arg = sm(&rs_flt) >> 16;
hit:
  S->fault_hit[kind]++;
  if (S->nfaultlog < MAXFAULTLOG) S->faults[S->nfaultlog++] = (FaultRec){kind, n, arg ? *arg : 0};
  hash2(&S->hash, 0xF000 + kind); hash2(&S->hash, n);
  return 1;
}

// ---------------------------------------------------------------- scheduler
static void baton_wait(Th *t) {
  while (!__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE)) rawsys(SYS_futex, (long)&t->baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  t->baton = 0;
  pid_t k = exiting_ktid;
  if (k) { // let the thread that just ended really leave, so that nothing of it runs beside us
    while (rawsys(SYS_tgkill, getpid(), k, 0, 0, 0, 0) == 0) rawsys(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    exiting_ktid = 0;
  }
}
static void baton_give(Th *t) {
  __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE);
  rawsys(SYS_futex, (long)&t->baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void new_gap(void) {
  if (!C.edge_gap) { next_preempt = UINT64_MAX; return; }
  // geometric with a heavy tail of short gaps
  uint64_t r = rnd(4);
  uint64_t m = r == 0 ? (C.edge_gap / 16 + 1) : C.edge_gap;
  next_preempt = ev + 1 + rnd(2 * m);
}
static uint64_t new_prio(void) { return (1ull << 40) + rnd(1ull << 40); }

static void record(uint64_t e, uint32_t tid, uint32_t kind) {
  if (S->ndec < MAXDEC) S->dec[S->ndec++] = (Dec){e, tid, kind}; else S->dec_overflow = 1;
}
static int replay_pick(uint64_t e, uint32_t kind, uint32_t *tid) {
  while (irdec < nrdec && (rdec[irdec].ev < e)) irdec++;
  for (uint32_t i = irdec; i < nrdec && rdec[i].ev == e; i++)
    if (rdec[i].kind == kind) { *tid = rdec[i].tid; return 1; }
  return 0;
}
static int runnable(int i) { return T[i].state == T_RUN; }
static int timers(void) {
  int fired = 0;
  uint64_t now = NOW();
  for (int i = 0; i < nT; i++)
    if (T[i].state == T_BLOCK && T[i].deadline && T[i].deadline <= now) {
      T[i].state = T_RUN; T[i].timedout = 1; fired = 1;
      if (C.mode == 2) T[i].prio = pct_low--; // a thread that polls lets others in
    }
  return fired;
}

// picks the next thread; `stay` says whether the current thread may go on
static int pick(int kind) {
  int list[MAXT], n = 0, fired = 0;
  for (;;) {
    fired |= timers();
    n = 0;
    for (int i = 0; i < nT; i++) if (runnable(i)) list[n++] = i;
    if (n) break;
    uint64_t best = 0;
    for (int i = 0; i < nT; i++) if (T[i].state == T_BLOCK && T[i].deadline && (!best || T[i].deadline < best)) best = T[i].deadline;
    if (!best) {
      int k = snprintf(S->msg, sizeof S->msg, "deadlock: no thread can run and no timer is pending:");
      for (int i = 0; i < nT && k < 440; i++) if (T[i].state == T_BLOCK) k += snprintf(S->msg + k, sizeof S->msg - k, " t%d(w%d)", i, T[i].wkind);
      finish(2, S->msg);
    }
    uint64_t now = NOW();
    if (best > now) vadd += best - now;
  }
  if ((uint32_t)n > S->max_runnable) S->max_runnable = n;
  // a timed wait that has run out already lets others in, and nobody keeps the processor for ever
  if (kind == K_BLOCK && runnable(cur)) kind = K_YIELD;
  // default: stay, else the next one in cyclic order
  int def = -1;
  if (runnable(cur) && kind != K_YIELD) def = cur;
  else for (int d = 1; d <= nT; d++) { int i = (cur + d) % nT; if (runnable(i)) { def = i; break; } }
  int choice = def;
  S->decisions++;
  if (C.mode == 9) {
    uint32_t t;
    if (replay_pick(ev, 0, &t) && t < (uint32_t)nT && runnable(t)) choice = t;
  } else {
    // a stalled thread does not run until its window ends, unless nothing else can
    int m = 0, l2[MAXT];
    for (int i = 0; i < n; i++) if (T[list[i]].stalled_until <= ev) l2[m++] = list[i];
    if (!m) { memcpy(l2, list, n * sizeof(int)); m = n; }
    int ok_def = 0; for (int i = 0; i < m; i++) ok_def |= l2[i] == def;
    switch (C.mode) {
    case 0: choice = ok_def ? def : l2[0]; break;
    case 1: {
      int forced = !(runnable(cur) && kind != K_YIELD) || !ok_def || kind == K_EDGE || kind == K_USER;
      if (forced || (rnd(65536) < C.p_sync)) choice = l2[rnd(m)]; else choice = def;
      break; }
    case 2: {
      uint64_t bp = 0;
      if (kind == K_YIELD && runnable(cur)) T[cur].prio = pct_low--; // a spinning thread lets others in
      while (i_pct < n_pct && pct_points[i_pct] <= ev) { T[cur].prio = pct_low--; i_pct++; }
      for (int i = 0; i < m; i++) if (T[l2[i]].prio > bp) { bp = T[l2[i]].prio; choice = l2[i]; }
      break; }
    case 3: {
      if (kind == K_EDGE || kind == K_YIELD || !runnable(cur) || rnd(65536) < C.p_sync)
        for (int d = 1; d <= nT; d++) { int i = (cur + d) % nT, ok = 0; for (int j = 0; j < m; j++) ok |= l2[j] == i; if (ok) { choice = i; break; } }
      break; }
    }
  }
  if (C.mode != 9 && n > 1 && choice == cur && ev - slice0 > 400000) {
    if (C.mode == 2) T[cur].prio = pct_low--;
    for (int d = 1; d <= nT; d++) { int i = (cur + d) % nT; if (runnable(i)) { choice = i; break; } }
    slice0 = ev;
  }
  if (choice != def || (fired && (kind == K_EDGE || kind == K_ALLOC))) record(ev, choice, 0);
  return choice;
}
static void tick(void) {
  if (ev > max_ev) finish(3, "no progress: the step bound was reached");
}
static void sched(int kind) {
  int self = me;
  insim = 1;
  tick();
  uint64_t a;
  if (kind == K_SYNC && fault(F_STALL, &a)) T[self].stalled_until = ev + 1 + a % (C.stall_len + 1);
  if (kind == K_SYNC && fault(F_TIMEJUMP, &a)) vadd += 1000000ull * (a % 20000);
  int c = pick(kind);
  if (c != self) {
    if (runnable(self)) S->preempts++;
    S->switches++;
    hash2(&S->ihash, c * 16 + kind);
    hash2(&S->hash, ev); hash2(&S->hash, c);
    cur = c; slice0 = ev;
    baton_give(&T[c]);
    baton_wait(&T[self]);
  }
  if (kind == K_EDGE || ev >= next_preempt) new_gap();
  insim = 0;
}
static inline void point(int kind) { ev++; S->syncs++; sched(kind); }

static void block_on(const void *addr, int wkind, uint64_t deadline) {
  T[me].state = T_BLOCK; T[me].addr = addr; T[me].wkind = wkind; T[me].deadline = deadline; T[me].timedout = 0;
  T[me].waitseq = ++waitseq;
  ev++;
  hash2(&S->hash, 0xB10C + wkind);
  sched(K_BLOCK);
  T[me].addr = 0; T[me].deadline = 0;
}
static void wake_all(const void *addr, int wkind) {
  for (int i = 0; i < nT; i++) if (T[i].state == T_BLOCK && T[i].addr == addr && T[i].wkind == wkind) T[i].state = T_RUN;
}
// wakes up to n waiters; which ones is the scheduler's choice
static int wake_n(const void *addr, int wkind, int n, int (*match)(int, uint32_t), uint32_t bits) {
  int done = 0;
  while (done < n) {
    int list[MAXT], m = 0;
    for (int i = 0; i < nT; i++) if (T[i].state == T_BLOCK && T[i].addr == addr && T[i].wkind == wkind) list[m++] = i;
    if (!m) break;
    (void)match; (void)bits;
    int def = list[0];
    for (int i = 1; i < m; i++) if (T[list[i]].waitseq < T[def].waitseq) def = list[i];
    int w = def;
    if (m > 1 && n == 1) {
      if (C.mode == 9) { uint32_t t; if (replay_pick(ev, 1, &t)) for (int i = 0; i < m; i++) if ((uint32_t)list[i] == t) w = t; }
      else if (C.mode == 1 || C.mode == 2) { w = list[rnd(m)]; }
      if (w != def) { record(ev, w, 1); S->fault_hit[F_WAKEORDER]++; }
    }
    T[w].state = T_RUN; done++;
  }
  return done;
}

// ---------------------------------------------------------------- time
static uint64_t ts2ns(const struct timespec *t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
static int64_t wall(void) { return C.wall_base_ns + (int64_t)NOW() + wall_off; }
static uint64_t abs_deadline(clockid_t clk, const struct timespec *t) {
  int64_t ns = (int64_t)ts2ns(t);
  if (clk == -1) clk = t->tv_sec > 500000000 ? CLOCK_REALTIME : CLOCK_MONOTONIC;
  if (clk == CLOCK_REALTIME) ns -= C.wall_base_ns + wall_off;
  return ns <= 0 ? 1 : (uint64_t)ns;
}
EXPORT int clock_gettime(clockid_t c, struct timespec *t) {
  ENSURE();
  if (!ON && PRE) { static uint64_t pre; pre += 1000; int64_t ns = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? 1600000000000000000ll : 1000000000ll) + (int64_t)pre; t->tv_sec = ns / 1000000000; t->tv_nsec = ns % 1000000000; return 0; }
  if (!ON) return r_clock_gettime ? r_clock_gettime(c, t) : (int)rawsys(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
  vadd += 37; S->clock_calls++;
  uint64_t a;
  int64_t ns = (int64_t)NOW();
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { if (fault(F_WALLJUMP, &a)) wall_off += ((int64_t)(a % 7200) - 3600) * 1000000000ll; ns = wall(); }
  t->tv_sec = ns / 1000000000; t->tv_nsec = ns % 1000000000;
  return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz; struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
  if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; }
  return 0;
}
EXPORT time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
static int do_sleep(uint64_t deadline) { while (NOW() < deadline) block_on(&T[me], 9, deadline); return 0; }
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *rm) {
  ENSURE();
  if (!ON) { long r = rawsys(SYS_clock_nanosleep, c, flags, (long)rq, (long)rm, 0, 0); return r < 0 ? (int)-r : 0; }
  if (!(flags & TIMER_ABSTIME) && ts2ns(rq) == 0) { point(K_YIELD); return 0; }
  return do_sleep((flags & TIMER_ABSTIME) ? abs_deadline(c, rq) : NOW() + ts2ns(rq));
}
EXPORT int nanosleep(const struct timespec *rq, struct timespec *rm) {
  int r = clock_nanosleep(CLOCK_MONOTONIC, 0, rq, rm);
  if (r) { errno = r; return -1; }
  return 0;
}
EXPORT int usleep(useconds_t us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000}; return nanosleep(&t, 0); }
EXPORT int sched_yield(void) { ENSURE(); if (ON) { point(K_YIELD); return 0; } return (int)rawsys(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
  ENSURE();
  if (!ON || !C.ncpu) return r_sched_getaffinity(p, n, s);
  memset(s, 0, n);
  for (uint32_t i = 0; i < C.ncpu; i++) CPU_SET_S(i, n, s);
  return 0;
}
EXPORT long sysconf(int k) {
  ENSURE();
  if (ON && C.ncpu && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return C.ncpu;
  return r_sysconf(k);
}
EXPORT int sched_getcpu(void) { if (ON) return 0; return (int)({ unsigned c = 0; rawsys(SYS_getcpu, (long)&c, 0, 0, 0, 0, 0); (long)c; }); }

// ---------------------------------------------------------------- entropy
static long pre_entropy(void *b, size_t n) { static uint64_t s = 12345; uint8_t *p = b; for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(sm(&s) >> 24); return (long)n; }
static uintptr_t sut_lo, sut_hi; // where the extension's own code lies
static long entropy(void *buf, size_t n, void *ra) {
  S->entropy_calls++;
  uint64_t a = 0;
  if (fault(F_ENTROPY_INTR, &a)) return -EINTR;
  // only the extension is refused entropy, in a 32-byte request, which is a generator being seeded
  if (n == 32 && (uintptr_t)ra >= sut_lo && (uintptr_t)ra < sut_hi && fault(F_ENTROPY_FAIL, &a)) return -EIO;
  if (n > 1 && fault(F_ENTROPY_SHORT, &a)) n = 1 + a % (n - 1);
  uint8_t *p = buf;
  if (fault(F_ENTROPY_CONST, &a)) { memset(buf, (int)(a & 1) * 0xFF, n); return (long)n; }
  for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(sm(&rs_ent) >> 24);
  return (long)n;
}
static ssize_t ret_errno(long r) { if (r < 0) { errno = (int)-r; return -1; } return r; }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) { ENSURE(); if (ON) { (void)f; return ret_errno(entropy(b, n, __builtin_return_address(0))); } if (PRE) return pre_entropy(b, n); return ret_errno(rawsys(SYS_getrandom, (long)b, n, f, 0, 0, 0)); }
EXPORT int getentropy(void *b, size_t n) {
  uint8_t *p = b; size_t k = 0;
  while (k < n) { ssize_t r = getrandom(p + k, n - k, 0); if (r < 0) { if (errno == EINTR) continue; return -1; } k += r; }
  return 0;
}

// ---------------------------------------------------------------- futex and friends
static long sim_futex(uint32_t *uaddr, int op, uint32_t val, const struct timespec *to, uint32_t *uaddr2, uint32_t val3) {
  int cmd = op & FUTEX_CMD_MASK;
  (void)uaddr2; (void)val3;
  uint64_t a;
  switch (cmd) {
  case FUTEX_WAIT: case FUTEX_WAIT_BITSET: {
    point(K_SYNC);
    if (__atomic_load_n(uaddr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
    if (fault(F_SPURIOUS, &a)) return (a & 1) ? -EINTR : 0;
    uint64_t dl = 0;
    if (to) { if (cmd == FUTEX_WAIT) dl = NOW() + ts2ns(to); else dl = abs_deadline((op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, to); if (!dl) dl = 1; }
    block_on(uaddr, 1, dl);
    return T[me].timedout ? -ETIMEDOUT : 0; }
  case FUTEX_WAKE: case FUTEX_WAKE_BITSET: {
    ev++;
    int n = wake_n(uaddr, 1, val > MAXT ? MAXT : (int)val, 0, 0);
    sched(K_SYNC);
    return n; }
  }
  snprintf(S->msg, sizeof S->msg, "unsupported futex op %d", op);
  finish(6, S->msg);
}
EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  ENSURE();
  long r;
  if (ON && n == SYS_futex) r = sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f);
  else if (ON && n == SYS_getrandom) r = entropy((void *)a, (size_t)b, __builtin_return_address(0));
  else if (PRE && n == SYS_getrandom) r = pre_entropy((void *)a, (size_t)b);
  else if (ON && n == SYS_sched_yield) { point(K_YIELD); r = 0; }
  else r = rawsys(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ---------------------------------------------------------------- pthreads
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
  ENSURE();
  if (!ON) return r_pthread_mutex_lock(m);
  point(K_SYNC);
  for (;;) { int r = r_pthread_mutex_trylock(m); if (r != EBUSY) return r; block_on(m, 2, 0); }
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) { ENSURE(); if (ON) point(K_SYNC); return r_pthread_mutex_trylock(m); }
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) {
  ENSURE();
  if (!ON) return r_pthread_mutex_timedlock(m, t);
  point(K_SYNC);
  uint64_t dl = abs_deadline(CLOCK_REALTIME, t);
  for (;;) { int r = r_pthread_mutex_trylock(m); if (r != EBUSY) return r; if (NOW() >= dl) return ETIMEDOUT; block_on(m, 2, dl); }
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
  ENSURE();
  int r = r_pthread_mutex_unlock(m);
  if (ON) { wake_all(m, 2); point(K_SYNC); }
  return r;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t dl) {
  uint64_t a;
  point(K_SYNC);
  r_pthread_mutex_unlock(m); wake_all(m, 2);
  int r = 0;
  if (!fault(F_SPURIOUS, &a)) { block_on(c, 3, dl); if (T[me].timedout) r = ETIMEDOUT; }
  for (;;) { int q = r_pthread_mutex_trylock(m); if (q != EBUSY) break; block_on(m, 2, 0); }
  return r;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { ENSURE(); if (!ON) return r_pthread_cond_wait(c, m); return cond_wait(c, m, 0); }
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { ENSURE(); if (!ON) return r_pthread_cond_timedwait(c, m, t); return cond_wait(c, m, abs_deadline(-1, t)); }
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { ENSURE(); if (!ON) return r_pthread_cond_clockwait(c, m, k, t); return cond_wait(c, m, abs_deadline(k, t)); }
EXPORT int pthread_cond_signal(pthread_cond_t *c) { ENSURE(); if (!ON) return r_pthread_cond_signal(c); ev++; wake_n(c, 3, 1, 0, 0); sched(K_SYNC); return 0; }
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) { ENSURE(); if (!ON) return r_pthread_cond_broadcast(c); wake_all(c, 3); point(K_SYNC); return 0; }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *m) { ENSURE(); if (!ON) return r_pthread_rwlock_rdlock(m); point(K_SYNC); for (;;) { int r = r_pthread_rwlock_tryrdlock(m); if (r != EBUSY) return r; block_on(m, 4, 0); } }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *m) { ENSURE(); if (!ON) return r_pthread_rwlock_wrlock(m); point(K_SYNC); for (;;) { int r = r_pthread_rwlock_trywrlock(m); if (r != EBUSY) return r; block_on(m, 4, 0); } }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *m) { ENSURE(); int r = r_pthread_rwlock_unlock(m); if (ON) { wake_all(m, 4); point(K_SYNC); } return r; }
static int sem_w(sem_t *s, uint64_t dl) {
  uint64_t a;
  point(K_SYNC);
  for (;;) {
    if (r_sem_trywait(s) == 0) return 0;
    if (errno != EAGAIN) return -1;
    if (dl && NOW() >= dl) { errno = ETIMEDOUT; return -1; }
    if (fault(F_SPURIOUS, &a)) { errno = EINTR; return -1; }
    block_on(s, 5, dl);
  }
}
EXPORT int sem_wait(sem_t *s) { ENSURE(); return ON ? sem_w(s, 0) : r_sem_wait(s); }
EXPORT int sem_timedwait(sem_t *s, const struct timespec *t) { ENSURE(); return ON ? sem_w(s, abs_deadline(CLOCK_REALTIME, t)) : r_sem_timedwait(s, t); }
EXPORT int sem_clockwait(sem_t *s, clockid_t k, const struct timespec *t) { ENSURE(); return ON ? sem_w(s, abs_deadline(k, t)) : r_sem_clockwait(s, k, t); }
EXPORT int sem_trywait(sem_t *s) { ENSURE(); if (ON) point(K_SYNC); return r_sem_trywait(s); }
EXPORT int sem_post(sem_t *s) { ENSURE(); int r = r_sem_post(s); if (ON) { wake_all(s, 5); point(K_SYNC); } return r; }

static void thread_gone(void *v) {
  long n = (long)v;
  if (n < PTHREAD_DESTRUCTOR_ITERATIONS) { pthread_setspecific(exitkey, (void *)(n + 1)); return; }
  // last round of destructors: this thread's code is over
  insim = 1;
  int self = me;
  T[self].state = T_DONE;
  wake_all(&T[self], 6);
  ev++;
  tick();
  hash2(&S->hash, 0xE417);
  int c = pick(K_EXIT);
  S->switches++;
  hash2(&S->ihash, c * 16 + K_EXIT); hash2(&S->hash, ev); hash2(&S->hash, c);
  cur = c; slice0 = ev;
  exiting_ktid = T[self].ktid;
  baton_give(&T[c]);
}
static void *tramp(void *v) {
  Th *t = v;
  me = (int)(t - T);
  t->ktid = (pid_t)rawsys(SYS_gettid, 0, 0, 0, 0, 0, 0);
  insim = 1;
  baton_wait(t);
  insim = 0;
  pthread_setspecific(exitkey, (void *)1L);
  return t->fn(t->arg);
}
EXPORT int pthread_create(pthread_t *p, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  ENSURE();
  if (!ON) return r_pthread_create(p, at, fn, arg);
  uint64_t a;
  if (fault(F_SPAWN, &a)) return EAGAIN;
  int i = nT;
  if (i >= MAXT) finish(6, "too many threads");
  T[i] = (Th){0};
  T[i].fn = fn; T[i].arg = arg; T[i].state = T_RUN; T[i].prio = new_prio();
  int r = r_pthread_create(p, at, tramp, &T[i]);
  if (r) return r;
  T[i].pt = *p;
  nT++;
  S->nthreads = nT;
  point(K_SPAWN);
  return 0;
}
EXPORT int pthread_join(pthread_t p, void **ret) {
  ENSURE();
  if (ON) {
    int i;
    for (i = nT - 1; i >= 0; i--) if (T[i].fn && pthread_equal(T[i].pt, p) && !T[i].joined_waited) break;
    if (i >= 0) { point(K_SYNC); while (T[i].state != T_DONE) block_on(&T[i], 6, 0); T[i].joined_waited = 1; }
  }
  return r_pthread_join(p, ret);
}

// ---------------------------------------------------------------- coverage edges
static int find_sut(struct dl_phdr_info *i, size_t n, void *g) {
  (void)n;
  uintptr_t lo = ~0ul, hi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
    uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
    if (a < lo) lo = a;
    if (b > hi) hi = b;
  }
  if ((uintptr_t)g >= lo && (uintptr_t)g < hi) { sut_lo = lo; sut_hi = hi; return 1; }
  return 0;
}
EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  if (a == b || *a) return;
  if (!sut_lo) dl_iterate_phdr(find_sut, a);
  for (uint32_t *p = a; p < b; p++) *p = ncov < COVN - 1 ? ncov++ : COVN - 1;
}
static inline void edge_point(void) {
  ev++; S->edges++;
  if (__builtin_expect(ev >= next_preempt, 0)) { sched(K_EDGE); return; }
  if (C.mode == 9 && irdec < nrdec && rdec[irdec].ev <= ev) {
    while (irdec < nrdec && rdec[irdec].ev < ev) irdec++;
    if (irdec < nrdec && rdec[irdec].ev == ev && rdec[irdec].kind == 0) { sched(K_EDGE); return; }
  }
  if (__builtin_expect((ev & 4095) == 0, 0)) { if (ev > max_ev) finish(3, "no progress: the step bound was reached"); }
}
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (__builtin_expect(!active, 0) || insim || me < 0) return;
  if (!S->cov[*g]) { S->cov[*g] = 1; S->cov_edges++; }
  edge_point();
}
// Before each store of the extension's own code that is not to the thread's stack: between the load
// and the store of a read-modify-write another thread may run.
static inline void store_point(void *a) {
  if (__builtin_expect(!active, 0) || insim || me < 0) return;
  if ((uintptr_t)a - ((uintptr_t)__builtin_frame_address(0) - 4096) < (1u << 18)) return;
  edge_point();
}
EXPORT void __sanitizer_cov_store1(void *a) { store_point(a); }
EXPORT void __sanitizer_cov_store2(void *a) { store_point(a); }
EXPORT void __sanitizer_cov_store4(void *a) { store_point(a); }
EXPORT void __sanitizer_cov_store8(void *a) { store_point(a); }
EXPORT void __sanitizer_cov_store16(void *a) { store_point(a); }

// ---------------------------------------------------------------- allocator handed to the extension
#define CAN 0xA5
#define HDR 64
typedef struct { uint64_t magic; size_t size; size_t align; void *raw; } Hd;
static void fill(uint8_t *p, size_t n, uint64_t *st) {
  size_t i = 0;
  uint64_t v = sm(st);
  if (C.poison == 2) v = 0x7ff8dead7ff8deadull;      // NaN patterns
  else if (C.poison == 3) v = 0x4141414141414141ull; // ascii / plausible floats
  else if (C.poison == 4) v = 0;
  for (; i + 8 <= n; i += 8) { memcpy(p + i, &v, 8); if (C.poison == 1 && (i & 63) == 0) v = sm(st); }
  for (; i < n; i++) p[i] = (uint8_t)v;
}
static uint64_t rs_poison = 88172645463325252ull;
static void *a_alloc_(size_t size, size_t align, int zero) {
  if (align < 16) align = 16;
  size_t extra = HDR + align + 32;
  if (active && size > (1ul << 30)) { S->huge_refused++; return 0; }  // the simulated machine has no block that large
  uint8_t *raw = malloc(size + extra);
  if (!raw) return 0;
  uint8_t *u = (uint8_t *)(((uintptr_t)raw + HDR + align - 1) & ~(uintptr_t)(align - 1));
  Hd *h = (Hd *)(u - HDR);
  h->magic = 0x51A110C8D00DF00Dull; h->size = size; h->align = align; h->raw = raw;
  memset(u - 16, CAN, 16);
  memset(u + size, CAN, 16);
  if (zero) memset(u, 0, size);
  else if (active && C.poison) { fill(u, size, &rs_poison); S->poison_bytes += size; }
  return u;
}
static void a_check(uint8_t *u) {
  Hd *h = (Hd *)(u - HDR);
  if (h->magic != 0x51A110C8D00DF00Dull) finish(5, h->magic == 0xDEADull ? "double free" : "free of a pointer the allocator did not give out, or header overwritten");
  for (int i = 0; i < 16; i++) {
    if (u[-16 + i] != CAN) finish(5, "write before the start of a heap block");
    if (u[h->size + i] != CAN) finish(5, "write past the end of a heap block");
  }
}
static void alloc_point(void) { S->allocs++; if (ON && C.alloc_yield) {
    ev++;
    uint32_t t;
    if (C.mode == 9 ? replay_pick(ev, 0, &t) : rnd(65536) < C.alloc_yield) sched(K_ALLOC);
  } }
static void *a_alloc(size_t size, size_t align) { alloc_point(); return a_alloc_(size, align, 0); }
static void *a_zeroed(size_t size, size_t align) { alloc_point(); return a_alloc_(size, align, 1); }
static void a_free(uint8_t *u, size_t size, size_t align) {
  (void)align;
  a_check(u);
  Hd *h = (Hd *)(u - HDR);
  if (h->size != size) finish(5, "dealloc with a layout other than the allocation's");
  h->magic = 0xDEAD;
  if (active && C.poison) { size_t n = h->size; memset(u, 0xFB, n > 4096 ? 4096 : n); }
  free(h->raw);
}
static void *a_realloc(uint8_t *u, size_t size, size_t align, size_t nsize) {
  a_check(u);
  void *n = a_alloc_(nsize, align, 0);
  if (!n) return 0;
  memcpy(n, u, size < nsize ? size : nsize);
  a_free(u, size, align);
  return n;
}
typedef struct { void *(*alloc)(size_t, size_t); void (*dealloc)(uint8_t *, size_t, size_t); void *(*alloc_zeroed)(size_t, size_t); void *(*realloc)(uint8_t *, size_t, size_t, size_t); } Capsule;
static Capsule capsule = {a_alloc, a_free, a_zeroed, a_realloc};
EXPORT void *sim_allocator(void) { return &capsule; }

// ---------------------------------------------------------------- simulated disk
// Files below C.disk_root.  Their current content is the real file's; what a crash may take away
// is tracked here: the image of the last fsync and the writes since.
#define MAXF 64
#define MAXOPS 512
typedef struct { int type; off64_t off; size_t len; uint8_t *data; } Op; // 1 write 2 truncate
typedef struct { char path[200]; uint8_t *dur; long durlen; /* -1 absent */ Op ops[MAXOPS]; int nops; } DF;
static DF *DFS; static int nDF;
static int fdmap[1024];
static int in_disk(const char *p) { size_t n = strlen(C.disk_root); return n && !strncmp(p, C.disk_root, n); }
static uint8_t *slurp(const char *path, long *len) {
  int fd = (int)rawsys(SYS_open, (long)path, O_RDONLY, 0, 0, 0, 0);
  if (fd < 0) { *len = -1; return 0; }
  struct stat st; rawsys(SYS_fstat, fd, (long)&st, 0, 0, 0, 0);
  uint8_t *b = mmap(0, st.st_size + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  long k = 0, r;
  while (k < st.st_size && (r = rawsys(SYS_read, fd, (long)(b + k), st.st_size - k, 0, 0, 0)) > 0) k += r;
  rawsys(SYS_close, fd, 0, 0, 0, 0, 0);
  *len = k; return b;
}
static int df_get(const char *path, int pre_exists_snapshot) {
  (void)pre_exists_snapshot;
  for (int i = 0; i < nDF; i++) if (!strcmp(DFS[i].path, path)) return i;
  if (!DFS) DFS = mmap(0, sizeof(DF) * MAXF, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (nDF >= MAXF) finish(6, "too many simulated files");
  DF *d = &DFS[nDF];
  strncpy(d->path, path, sizeof d->path - 1);
  d->dur = slurp(path, &d->durlen);
  d->nops = 0;
  return nDF++;
}
static void df_op(int i, int type, off64_t off, const void *data, size_t len) {
  DF *d = &DFS[i];
  if (d->nops >= MAXOPS) finish(6, "too many simulated writes");
  Op *o = &d->ops[d->nops++];
  o->type = type; o->off = off; o->len = len; o->data = 0;
  if (len && data) { o->data = mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy(o->data, data, len); }
}
static void df_sync(int i) { DF *d = &DFS[i]; d->dur = slurp(d->path, &d->durlen); d->nops = 0; }
static void crash_now(uint64_t a) __attribute__((noreturn));
static void crash_now(uint64_t a) {
  uint64_t st = a | 1;
  for (int i = 0; i < nDF; i++) {
    DF *d = &DFS[i];
    if (!d->nops) continue;
    // the durable image, then an arbitrary prefix or subset of the unsynced operations, the last torn
    size_t cap = (d->durlen > 0 ? d->durlen : 0) + 16;
    for (int k = 0; k < d->nops; k++) if (d->ops[k].off + d->ops[k].len + 16 > cap) cap = d->ops[k].off + d->ops[k].len + 16;
    uint8_t *b = mmap(0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    long len = d->durlen;
    if (len > 0) memcpy(b, d->dur, len);
    int style = sm(&st) % 4; // 0 all lost, 1 prefix with torn end, 2 subset, 3 all kept
    int upto = style == 0 ? 0 : style == 1 ? (int)(sm(&st) % (d->nops + 1)) : d->nops;
    for (int k = 0; k < upto; k++) {
      Op *o = &d->ops[k];
      if (style == 2 && o->type == 1 && (sm(&st) & 1)) continue;
      if (len < 0) len = 0;
      if (o->type == 2) { if (o->off < len) memset(b + o->off, 0, len - o->off); len = o->off; continue; }
      size_t n = o->len;
      if (style == 1 && k == upto - 1) n = n ? sm(&st) % (n + 1) : 0;
      memcpy(b + o->off, o->data, n);
      if (o->off + (long)n > len) len = o->off + (long)n;
    }
    if (len < 0) rawsys(SYS_unlink, (long)d->path, 0, 0, 0, 0, 0);
    else {
      int fd = (int)rawsys(SYS_open, (long)d->path, O_WRONLY | O_CREAT | O_TRUNC, 0644, 0, 0, 0);
      long k = 0, r;
      while (k < len && (r = rawsys(SYS_write, fd, (long)(b + k), len - k, 0, 0, 0)) > 0) k += r;
      rawsys(SYS_close, fd, 0, 0, 0, 0, 0);
    }
  }
  finish(4, "crash fault");
}
static void maybe_crash(void) { uint64_t a; if (fault(F_CRASH, &a)) crash_now(a); }
static int do_open(int dfd, const char *path, int flags, mode_t mode) {
  if (ON && path && in_disk(path)) {
    uint64_t a;
    point(K_IO);
    maybe_crash();
    if (fault(F_OPEN, &a)) { static const int es[] = {EMFILE, EACCES, EIO, ENOSPC, EROFS}; errno = es[a % 5]; return -1; }
    int w = (flags & O_ACCMODE) != O_RDONLY;
    int i = -1;
    if (w) i = df_get(path, 1);
    long r = rawsys(SYS_openat, dfd, (long)path, flags | O_LARGEFILE, mode, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    if (w && (flags & O_TRUNC)) df_op(i, 2, 0, 0, 0);
    if (r < 1024) fdmap[r] = w ? i + 2 : 1;
    return (int)r;
  }
  long r = rawsys(SYS_openat, dfd, (long)path, flags, mode, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return (int)r;
}
#define OPEN_BODY(dfd) mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } return do_open(dfd, path, flags, mode);
EXPORT int open64(const char *path, int flags, ...) { ENSURE(); OPEN_BODY(AT_FDCWD) }
EXPORT int open(const char *path, int flags, ...) { ENSURE(); OPEN_BODY(AT_FDCWD) }
EXPORT int openat64(int dfd, const char *path, int flags, ...) { ENSURE(); OPEN_BODY(dfd) }
EXPORT int openat(int dfd, const char *path, int flags, ...) { ENSURE(); OPEN_BODY(dfd) }
// event loops (polars' streaming engine): readiness is real, the waiting is simulated
static char evwait;
static int poll_sim(long (*probe)(void *), void *arg, int64_t ms) {
  uint64_t dl = ms < 0 ? 0 : NOW() + (uint64_t)ms * 1000000ull;
  point(K_SYNC);
  for (;;) {
    long r = probe(arg);
    if (r != 0) return (int)ret_errno(r);
    if (ms >= 0 && NOW() >= dl) return 0;
    block_on(&evwait, 10, dl);
  }
}
typedef struct { int fd; struct epoll_event *e; int n; } EpA;
static long ep_probe(void *v) { EpA *a = v; return rawsys(SYS_epoll_wait, a->fd, (long)a->e, a->n, 0, 0, 0); }
EXPORT int epoll_wait(int fd, struct epoll_event *e, int n, int ms) {
  ENSURE();
  if (!ON) return (int)ret_errno(rawsys(SYS_epoll_wait, fd, (long)e, n, ms, 0, 0));
  EpA a = {fd, e, n};
  return poll_sim(ep_probe, &a, ms);
}
typedef struct { struct pollfd *p; nfds_t n; } PoA;
static long po_probe(void *v) { PoA *a = v; return rawsys(SYS_poll, (long)a->p, a->n, 0, 0, 0, 0); }
EXPORT int poll(struct pollfd *p, nfds_t n, int ms) {
  ENSURE();
  if (!ON) return (int)ret_errno(rawsys(SYS_poll, (long)p, n, ms, 0, 0, 0));
  PoA a = {p, n};
  return poll_sim(po_probe, &a, ms);
}
#define SIMFD(fd) (ON && (fd) >= 0 && (fd) < 1024 && fdmap[fd])
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  ENSURE();
  if (!SIMFD(fd)) {
    long r = rawsys(SYS_write, fd, (long)b, n, 0, 0, 0);
    if (ON && r > 0) wake_all(&evwait, 10);
    return ret_errno(r);
  }
  uint64_t a;
  point(K_IO);
  maybe_crash();
  if (fault(F_EINTR_W, &a)) { errno = EINTR; return -1; }
  if (fault(F_ENOSPC, &a)) { errno = ENOSPC; return -1; }
  if (fault(F_EIO_W, &a)) { errno = EIO; return -1; }
  if (n > 1 && fault(F_SHORT_W, &a)) n = 1 + a % (n - 1);
  off64_t off = rawsys(SYS_lseek, fd, 0, SEEK_CUR, 0, 0, 0);
  long r = rawsys(SYS_write, fd, (long)b, n, 0, 0, 0);
  if (r > 0 && fdmap[fd] >= 2) df_op(fdmap[fd] - 2, 1, off, b, r);
  return ret_errno(r);
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
  ENSURE();
  if (!SIMFD(fd)) return ret_errno(rawsys(SYS_read, fd, (long)b, n, 0, 0, 0));
  uint64_t a;
  point(K_IO);
  if (fault(F_EINTR_R, &a)) { errno = EINTR; return -1; }
  if (fault(F_EIO_R, &a)) { errno = EIO; return -1; }
  if (n > 1 && fault(F_SHORT_R, &a)) n = 1 + a % (n - 1);
  return ret_errno(rawsys(SYS_read, fd, (long)b, n, 0, 0, 0));
}
EXPORT int fsync(int fd) {
  ENSURE();
  if (SIMFD(fd)) { uint64_t a; point(K_IO); maybe_crash(); if (fault(F_FSYNC, &a)) { errno = EIO; return -1; } if (fdmap[fd] >= 2) df_sync(fdmap[fd] - 2); return 0; }
  return (int)ret_errno(rawsys(SYS_fsync, fd, 0, 0, 0, 0, 0));
}
EXPORT int fdatasync(int fd) { return fsync(fd); }
EXPORT int close(int fd) {
  ENSURE();
  if (SIMFD(fd)) {
    uint64_t a;
    point(K_IO);
    maybe_crash();
    int w = fdmap[fd] >= 2;
    fdmap[fd] = 0;
    long r = rawsys(SYS_close, fd, 0, 0, 0, 0, 0);
    if (w && fault(F_CLOSE, &a)) { errno = (a & 1) ? EIO : ENOSPC; return -1; }
    return (int)ret_errno(r);
  }
  return (int)ret_errno(rawsys(SYS_close, fd, 0, 0, 0, 0, 0));
}
EXPORT int ftruncate64(int fd, off64_t l) {
  ENSURE();
  if (SIMFD(fd)) { point(K_IO); maybe_crash(); if (fdmap[fd] >= 2) df_op(fdmap[fd] - 2, 2, l, 0, 0); }
  return (int)ret_errno(rawsys(SYS_ftruncate, fd, l, 0, 0, 0, 0));
}
EXPORT int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
EXPORT int rename(const char *o, const char *n) {
  ENSURE();
  if (ON && in_disk(n)) {
    uint64_t a;
    point(K_IO);
    maybe_crash();
    if (fault(F_RENAME, &a)) { errno = EIO; return -1; }
    // The new name takes the old file's content; without a sync either may be what survives.
    int i = df_get(n, 1), j = df_get(o, 1);
    long len; uint8_t *img = slurp(o, &len);
    if (DFS[j].nops == 0) { df_op(i, 2, 0, 0, 0); if (len > 0) df_op(i, 1, 0, img, len); }
    else { df_op(i, 2, 0, 0, 0); if (len > 0) df_op(i, 1, 0, img, len); }
    DFS[j].nops = 0; DFS[j].durlen = -1;
  }
  return (int)ret_errno(rawsys(SYS_rename, (long)o, (long)n, 0, 0, 0, 0));
}

// ---------------------------------------------------------------- control
EXPORT int sim_start(const SimCfg *cfg, Dec *dec, uint32_t ndec, FaultRec *flt, uint32_t nflt) {
  ENSURE();
  if (active) return -1;
  C = *cfg;
  uint8_t *keep = S->cov; (void)keep;
  memset(S, 0, offsetof(Shared, dec));
  rdec = dec; nrdec = ndec; irdec = 0; rflt = flt; nrflt = nflt;
  rs = C.seed * 2 + 1; rs_ent = C.seed ^ 0xE117; rs_flt = C.seed ^ 0xFA017; rs_poison = C.seed ^ 0xB01501;
  for (int i = 0; i < 4; i++) { sm(&rs); sm(&rs_ent); sm(&rs_flt); }
  S->hash = S->ihash = 0xcbf29ce484222325ull;
  vadd = 1000000000ull + (C.seed % 1000) * 1000003; ev = 0; slice0 = 0; max_ev = C.max_events; waitseq = 0; wall_off = 0;
  pthread_key_create(&exitkey, thread_gone);
  memset(T, 0, sizeof T); nT = 1; cur = 0; me = 0;
  T[0].state = T_RUN; T[0].ktid = (pid_t)rawsys(SYS_gettid, 0, 0, 0, 0, 0, 0); T[0].prio = new_prio();
  pct_low = 1ull << 39;
  n_pct = i_pct = 0;
  if (C.mode == 2) {
    n_pct = C.pct_depth > 63 ? 63 : C.pct_depth;
    for (int i = 0; i < n_pct; i++) pct_points[i] = rnd(C.pct_len ? C.pct_len : 10000);
    for (int i = 0; i < n_pct; i++) for (int j = i + 1; j < n_pct; j++) if (pct_points[j] < pct_points[i]) { uint64_t x = pct_points[i]; pct_points[i] = pct_points[j]; pct_points[j] = x; }
  }
  if (C.mode == 9) next_preempt = UINT64_MAX; else new_gap();
  S->nthreads = 1;
  active = 1;
  return 0;
}
EXPORT void sim_yield(void) { if (ON) point(K_USER); }
EXPORT void sim_mark(uint32_t m) { S->marker = m; if (ON) hash2(&S->hash, 0x3A2C0000ull + m); }
EXPORT void sim_note(uint64_t v) { if (ON) hash2(&S->hash, v); }
EXPORT void sim_faults(uint32_t kind, uint32_t p, uint32_t max) { C.p_fault[kind] = p; C.fault_max[kind] = max; }
EXPORT void sim_finish(void) { finish(1, 0); }
EXPORT void *sim_shared(void) { ENSURE(); return S; }
EXPORT size_t sim_shared_size(void) { return sizeof(Shared); }
// The zygote: forks a child for every byte on its control pipe.  All in C, so that every child starts
// from the same memory image, whatever ran before it.
EXPORT int sim_zygote(int ctl, int out) {
  void (*before)(void) = dlsym(RTLD_DEFAULT, "PyOS_BeforeFork"), (*parent)(void) = dlsym(RTLD_DEFAULT, "PyOS_AfterFork_Parent"), (*child)(void) = dlsym(RTLD_DEFAULT, "PyOS_AfterFork_Child");
  if (!before || !parent || !child) return -1;
  for (;;) {
    char b; int st = 0;
    if (rawsys(SYS_read, ctl, (long)&b, 1, 0, 0, 0) != 1) _exit(0);
    before();
    int pid = fork();
    if (pid == 0) { child(); return 0; }
    parent();
    rawsys(SYS_write, out, (long)&pid, 4, 0, 0, 0);
    while (rawsys(SYS_wait4, pid, (long)&st, 0, 0, 0, 0) == -EINTR) {}
    rawsys(SYS_write, out, (long)&st, 4, 0, 0, 0);
  }
}
EXPORT uint64_t sim_vtime(void) { return NOW(); }
EXPORT uint64_t sim_ev(void) { return ev; }
EXPORT int sim_nfault(void) { return NFAULT; }
EXPORT uint32_t sim_covtotal(void) { return ncov - 1; }

// Deterministic simulation runtime.
//
// Linked into binaries built from /repo whose code was compiled with the sancov-module and tsan LLVM passes, so that
// every control-flow edge and every atomic operation calls in here.  Exactly one thread runs at any time; a seeded
// scheduler decides which.  Everything the decision maker does is recorded as deviations from a default schedule, so
// a run can be replayed (and minimised) without the random generator.
//
// Active only if a file "dst.cfg" exists in the current directory; results go to "dst.out" (mmapped, pre-created).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define NOINSTR __attribute__((no_sanitize("all")))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define EXPORT __attribute__((visibility("default")))

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

// ---------------------------------------------------------------- raw syscalls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
#define RAW(n, ...) RAW_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) raw6((long)(n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static inline long ret_errno(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ---------------------------------------------------------------- output block
enum { OUT_RUNNING = 0, OUT_DEADLOCK = 1, OUT_STEPLIMIT = 2, OUT_CRASHED = 3, OUT_EXITED = 4, OUT_INTERNAL = 5 };
enum {
  K_NONE = 0, K_RSHORT, K_REINTR, K_REIO, K_WSHORT, K_WEINTR, K_WEIO, K_WENOSPC, K_WEPIPE, K_OFAIL, K_SYNCEIO, K_RENFAIL,
  K_CRASHB, K_CRASHA, K_TORN, K_SPURIOUS, K_STALL, K_NOTHREAD, K_NOMEM, K_CLOCK, K_PREEMPT, K_OEINTR, K_WAKEPICK, K_MAX
};
#define MAXDEV 60000
#define TRACESZ (1 << 20)
struct dev { u64 at; u32 a, b; u32 type; u32 pad; };  // type: 'P' step->tid, 'F' nth forced->tid, 'W' nth wake->tid, 'S' step->tid spurious, 'I' ioop->kind,arg, 'C' nth create, 'M' nth alloc
struct out {
  u64 magic, outcome, steps, syncs, switches, forced, wakes, ioops, creates, allocs, sched_hash, nthreads, maxlive, clock_ns, ndev, devovf;
  u64 faults[32];
  u64 blocked_tid_mask, info[8];
  u64 pairmap[1024];  // 64k-bit map of (pc switched out, tid switched to)
  u64 tracelen;
  struct dev devs[MAXDEV];
  char trace[TRACESZ];
};
static struct out *O;
static struct out O_dummy_hdr;

// ---------------------------------------------------------------- config
static int active;
static u64 seed;
static int strat;  // 0 default only, 1 random(steps), 2 random(sync), 3 pct, 4 run-to-block random forced, 5 stall, 6 sweep-sync(prob per sync)
static u64 mean_gap = 1000;
static u64 pct_len = 100000;
static int pct_d = 3;
static u64 max_steps = 50000000, fair_after = 40000000;
static int ncpu = 4;
static int trace_on, journal_on;
static double p_spurious, p_wakepick;
static u64 stall_tid, stall_from, stall_to;
static u64 clock_step = 37;
static u64 use_script;
#define MAXSCRIPT 200000
static struct dev *script;
static u64 nscript, scriptP;  // sorted by driver: P/S by step
static u64 sp_i;              // next P/S script entry
#define MAXRULE 32
static struct { char name[64]; int kind; double p; int sticky; int errv; u32 arg; } rules[MAXRULE];
static int nrules;
static u64 crash_step;

// ---------------------------------------------------------------- rng
static u64 rs[4];
static inline u64 sm(u64 *x) { u64 z = (*x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static u64 r_sched, r_io, r_data, r_misc;
static inline double u01(u64 *s) { return (double)(sm(s) >> 11) * (1.0 / 9007199254740992.0); }
static u64 geom(u64 *s, u64 mean) {
  if (mean <= 1) return 1;
  double u = u01(s);
  if (u < 1e-12) u = 1e-12;
  extern double log(double);
  double g = -log(u) * (double)mean;
  u64 v = (u64)g;
  return v < 1 ? 1 : v;
}

// ---------------------------------------------------------------- threads
enum { T_FREE = 0, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_EXIT };
#define MAXT 128
struct thr {
  int id, state, sem, tid;
  u32 *faddr;
  u32 fmask;
  u64 deadline;  // 0 none
  int wres;      // result of wait: 0 ok, ETIMEDOUT, EINTR
  int joinee;
  pthread_t pt;
  int has_pt, joined;
  void *(*fn)(void *);
  void *arg;
  int dtors;
  int prio;
  u64 stall_until;
  u64 yielded;
};
static struct thr T[MAXT];
static int nT = 1;
static int cur;
static __thread struct thr *self_;
static pthread_key_t key;
static int exiting_tid;
static u64 steps, syncs, next_event = ~0ull, next_sync = ~0ull, next_rand = ~0ull;
static u64 clk_base = 1700000000ull * 1000000000ull, clk_adv;
static int nextprio = 1000000, lowprio = 1000;
static u64 pct_pts[16];
static int fair_mode;

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);

static void finish(int outcome, int code) __attribute__((noreturn));
static void sync_out(void) {
  if (!O) return;
  O->steps = steps; O->syncs = syncs; O->nthreads = nT; O->clock_ns = clk_adv + steps * clock_step;
}
static void finish(int outcome, int code) {
  sync_out();
  O->outcome = outcome;
  RAW(SYS_exit_group, code);
  __builtin_unreachable();
}
static void trace(const char *fmt, ...) {
  if (!trace_on || !O) return;
  char b[400];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  if (O->tracelen + n < TRACESZ) { memcpy(O->trace + O->tracelen, b, n); O->tracelen += n; }
}
static void record(u32 type, u64 at, u32 a, u32 b) {
  if (O->ndev < MAXDEV) { struct dev *d = &O->devs[O->ndev++]; d->type = type; d->at = at; d->a = a; d->b = b; }
  else O->devovf = 1;
}
static struct dev *script_find(u32 type, u64 at) {  // for F/W/I/C/M (few): linear from cursor-less list
  for (u64 i = scriptP; i < nscript; i++) if (script[i].type == type && script[i].at == at) return &script[i];
  return 0;
}
static inline u64 now_ns(void) { return clk_adv + steps * clock_step; }

static void park_self(struct thr *me) {
  while (!__atomic_load_n(&me->sem, __ATOMIC_ACQUIRE)) RAW(SYS_futex, &me->sem, FUTEX_WAIT_PRIVATE, 0, 0);
  __atomic_store_n(&me->sem, 0, __ATOMIC_RELAXED);
  if (exiting_tid) {  // wait until the previous thread is physically gone, so its teardown cannot race with us
    int t = exiting_tid;
    long pid_ = RAW(SYS_getpid);
    while (RAW(SYS_tgkill, pid_, t, 0) == 0) RAW(SYS_sched_yield);
    exiting_tid = 0;
  }
}
static void wake_thr(struct thr *t) {
  __atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE);
  RAW(SYS_futex, &t->sem, FUTEX_WAKE_PRIVATE, 1);
}
static void mixh(u64 kind, u64 at, u64 arg) {
  u64 h = O->sched_hash ^ (kind * 0x9E3779B97F4A7C15ull + at * 0xD6E8FEB86659FD93ull + arg);
  O->sched_hash = (h ^ (h >> 31)) * 0xBF58476D1CE4E5B9ull;
}
static void note_switch(struct thr *from, struct thr *to, void *pc) {
  O->switches++;
  u64 x = ((u64)(uintptr_t)pc) * 0x9E3779B97F4A7C15ull ^ ((u64)from->id << 48) ^ ((u64)to->id << 32);
  u64 h = O->sched_hash ^ x;
  O->sched_hash = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9ull;
  u64 bit = (x ^ (x >> 31)) & 65535;
  O->pairmap[bit >> 6] |= 1ull << (bit & 63);
}
static void recompute_next(void) {
  u64 n = max_steps;
  if (!fair_mode && fair_after < n && fair_after > steps) n = fair_after;
  if (crash_step && crash_step > steps && crash_step < n) n = crash_step;
  if (next_rand < n) n = next_rand;
  if (use_script && sp_i < scriptP && script[sp_i].at < n) n = script[sp_i].at;
  next_event = n;
}
static void switch_to(struct thr *me, struct thr *to, void *pc) {
  if (me == to) return;
  note_switch(me, to, pc);
  trace("%lu: T%d -> T%d\n", steps, me->id, to->id);
  cur = to->id;
  wake_thr(to);
  if (me->state != T_EXIT) park_self(me);
}
static int runnable(struct thr *t) { return t->state == T_RUN; }
static int stalled(struct thr *t) { return t->stall_until > steps; }

// wake expired timers; if nobody runnable, advance the clock to the earliest deadline
static int fire_timers(int force) {
  for (;;) {
    int any = 0;
    u64 best = ~0ull;
    for (int i = 0; i < nT; i++) {
      struct thr *t = &T[i];
      if ((t->state == T_FUTEX || t->state == T_SLEEP) && t->deadline) {
        if (t->deadline <= now_ns()) { t->wres = t->state == T_FUTEX ? ETIMEDOUT : 0; t->state = T_RUN; t->deadline = 0; any = 1; }
        else if (t->deadline < best) best = t->deadline;
      }
    }
    if (any) return 1;
    if (!force || best == ~0ull) return 0;
    clk_adv += best - now_ns();
  }
}
static void deadlock(void) {
  u64 m = 0;
  for (int i = 0; i < nT; i++) {
    if (T[i].state == T_FUTEX || T[i].state == T_JOIN || T[i].state == T_SLEEP) m |= 1ull << (i & 63);
    trace("deadlock: T%d state %d\n", i, T[i].state);
  }
  O->blocked_tid_mask = m;
  finish(OUT_DEADLOCK, 99);
}
static struct thr *default_pick(struct thr *me) {
  for (int pass = 0; pass < 2; pass++)
    for (int k = 1; k <= nT; k++) {
      struct thr *t = &T[(me->id + k) % nT];
      if (runnable(t) && (pass || !stalled(t))) return t;
    }
  return 0;
}
// choose who runs next when `me` cannot (or yields)
static struct thr *pick_forced(struct thr *me, int include_me) {
  fire_timers(0);
  int cnt = 0;
  struct thr *c[MAXT];
  for (int pass = 0; pass < 2 && !cnt; pass++)
    for (int i = 0; i < nT; i++)
      if (runnable(&T[i]) && (include_me || &T[i] != me) && (pass || !stalled(&T[i]))) c[cnt++] = &T[i];
  if (!cnt) {
    if (include_me) return me;
    if (runnable(me)) return me;
    if (fire_timers(1)) return pick_forced(me, include_me);
    deadlock();
  }
  u64 idx = O->forced++;
  struct thr *d = default_pick(me);
  if (!include_me && d == me) d = c[0];
  if (use_script) {
    struct dev *s = script_find('F', idx);
    if (s) for (int i = 0; i < cnt; i++) if (c[i]->id == (int)s->a) return c[i];
    int ok = 0;
    for (int i = 0; i < cnt; i++) if (c[i] == d) ok = 1;
    return ok ? d : c[0];
  }
  struct thr *p = d;
  if (fair_mode) {
    int in = 0;
    for (int i = 0; i < cnt; i++) if (c[i] == d) in = 1;
    return in ? d : c[0];
  }
  if (strat == 3) {
    p = c[0];
    for (int i = 1; i < cnt; i++) if (c[i]->prio > p->prio) p = c[i];
  } else if (strat != 0)
    p = c[sm(&r_sched) % cnt];
  int ok = 0;
  for (int i = 0; i < cnt; i++) if (c[i] == d) ok = 1;
  struct thr *dd = ok ? d : c[0];
  if (p != dd) record('F', idx, p->id, 0);
  return p;
}
static void arm_random(void) {
  if (use_script) return;
  next_rand = ~0ull;
  next_sync = ~0ull;
  if (fair_mode) { next_rand = steps + 200; recompute_next(); return; }
  if (strat == 1) next_rand = steps + geom(&r_sched, mean_gap);
  else if (strat == 2) next_sync = syncs + geom(&r_sched, mean_gap);
  else if (strat == 3) {
    u64 n = ~0ull;
    for (int i = 0; i < pct_d; i++) if (pct_pts[i] > steps && pct_pts[i] < n) n = pct_pts[i];
    next_rand = n;
  } else if (strat == 5) {
    if (stall_from > steps) next_rand = stall_from;
    else next_sync = syncs + geom(&r_sched, mean_gap);
  }
  recompute_next();
}
static void preempt_to(struct thr *me, struct thr *to, void *pc) {
  if (to == me) return;
  if (!use_script && !fair_mode) record('P', steps, to->id, 0);
  O->faults[K_PREEMPT]++;
  switch_to(me, to, pc);
}
static void do_spurious(struct thr *t) {
  t->wres = (sm(&r_misc) & 1) ? EINTR : 0;
  t->state = T_RUN;
  t->deadline = 0;
  O->faults[K_SPURIOUS]++;
  trace("%lu: spurious wake T%d\n", steps, t->id);
}
// slow path of a scheduling point
static __attribute__((noinline)) void sched_slow(void *pc) {
  struct thr *me = self_;
  if (!me) return;
  if (steps >= max_steps) {
    for (int i = 0; i < nT; i++) trace("steplimit: T%d state %d\n", i, T[i].state);
    finish(OUT_STEPLIMIT, 98);
  }
  if (crash_step && steps == crash_step) { O->faults[K_CRASHB]++; finish(OUT_CRASHED, 97); }
  if (!fair_mode && steps >= fair_after) fair_mode = 1;
  if (use_script) {
    while (sp_i < scriptP && script[sp_i].at < steps) sp_i++;
    struct thr *to = 0;
    while (sp_i < scriptP && script[sp_i].at == steps) {
      struct dev *s = &script[sp_i++];
      if (s->a < (u32)nT) {
        struct thr *t = &T[s->a];
        if (s->type == 'P') { if (runnable(t)) to = t; }
        else if (s->type == 'S') { if (t->state == T_FUTEX) do_spurious(t); }
        else if (s->type == 'T') { t->stall_until = steps + s->b; O->faults[K_STALL]++; }
      }
    }
    if (fair_mode) { if (!to) { fire_timers(0); to = default_pick(me); } next_rand = steps + 200; }
    recompute_next();
    if (to) preempt_to(me, to, pc);
    return;
  }
  fire_timers(0);
  if (!fair_mode && p_spurious > 0 && u01(&r_sched) < p_spurious) {
    int c[MAXT], n = 0;
    for (int i = 0; i < nT; i++) if (T[i].state == T_FUTEX) c[n++] = i;
    if (n) {
      int w = c[sm(&r_sched) % n];
      record('S', steps, w, 0);
      do_spurious(&T[w]);
    }
  }
  struct thr *to = me;
  if (fair_mode) {
    to = default_pick(me);
    if (!to) to = me;
  } else if (strat == 3) {
    for (int i = 0; i < pct_d; i++) if (pct_pts[i] == steps) me->prio = --lowprio;
    for (int i = 0; i < nT; i++) if (runnable(&T[i]) && T[i].prio > to->prio) to = &T[i];
  } else if (strat == 5 && steps == stall_from) {
    u64 v = stall_tid % (u64)nT;
    T[v].stall_until = stall_to;
    record('T', steps, (u32)v, (u32)(stall_to - steps));
    O->faults[K_STALL]++;
    if (&T[v] == me) to = pick_forced(me, 1);
  } else {
    struct thr *c[MAXT];
    int n = 0;
    for (int pass = 0; pass < 2 && !n; pass++)
      for (int i = 0; i < nT; i++) if (runnable(&T[i]) && (pass || !stalled(&T[i]))) c[n++] = &T[i];
    if (n) to = c[sm(&r_sched) % n];
  }
  u64 at = steps;
  (void)at;
  arm_random();
  if (to != me) preempt_to(me, to, pc);
}
static inline __attribute__((always_inline)) void sched_point(void *pc) {
  if (unlikely(++steps >= next_event)) sched_slow(pc);
}
static inline __attribute__((always_inline)) void sync_point(void *pc) {
  ++steps;
  ++syncs;
  if (unlikely(steps >= next_event || syncs >= next_sync)) sched_slow(pc);
}
// me is blocked (state already set): run others until it is made runnable again
static void block_self(struct thr *me, void *pc) {
  struct thr *n = pick_forced(me, 0);
  // fire_timers(1) may have made `me` runnable itself
  if (n == me) return;
  switch_to(me, n, pc);
}
static void on_wakeup(struct thr *me, struct thr *t, void *pc) {  // t became runnable
  if (use_script) return;
  if (strat == 3 && !fair_mode && t->prio > me->prio) { next_event = steps + 1; }
  (void)pc;
}

// ---------------------------------------------------------------- instrumentation callbacks
EXPORT void __sanitizer_cov_trace_pc_guard_init(u32 *start, u32 *stop) { (void)start; (void)stop; }
EXPORT void __sanitizer_cov_trace_pc_guard(u32 *guard) { (void)guard; sched_point(__builtin_return_address(0)); }
EXPORT void __tsan_init(void) {}
#define ATOMS(N, TY) \
  EXPORT TY __tsan_atomic##N##_load(const volatile TY *a, int mo) { (void)mo; sync_point(__builtin_return_address(0)); TY r = __atomic_load_n(a, __ATOMIC_SEQ_CST); return r; } \
  EXPORT void __tsan_atomic##N##_store(volatile TY *a, TY v, int mo) { (void)mo; sync_point(__builtin_return_address(0)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); sync_point(__builtin_return_address(0)); } \
  EXPORT TY __tsan_atomic##N##_exchange(volatile TY *a, TY v, int mo) { (void)mo; sync_point(__builtin_return_address(0)); TY r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); sync_point(__builtin_return_address(0)); return r; } \
  EXPORT TY __tsan_atomic##N##_fetch_add(volatile TY *a, TY v, int mo) { (void)mo; sync_point(__builtin_return_address(0)); TY r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); sync_point(__builtin_return_address(0)); return r; } \
  EXPORT TY __tsan_atomic##N##_fetch_sub(volatile TY *a, TY v, int mo) { (void)mo; sync_point(__builtin_return_address(0)); TY r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); sync_point(__builtin_return_address(0)); return r; } \
  EXPORT TY __tsan_atomic##N##_fetch_and(volatile TY *a, TY v, int mo) { (void)mo; sync_point(__builtin_return_address(0)); TY r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); sync_point(__builtin_return_address(0)); return r; } \
  EXPORT TY __tsan_atomic##N##_fetch_or(volatile TY *a, TY v, int mo) { (void)mo; sync_point(__builtin_return_address(0)); TY r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); sync_point(__builtin_return_address(0)); return r; } \
  EXPORT TY __tsan_atomic##N##_fetch_xor(volatile TY *a, TY v, int mo) { (void)mo; sync_point(__builtin_return_address(0)); TY r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); sync_point(__builtin_return_address(0)); return r; } \
  EXPORT TY __tsan_atomic##N##_fetch_nand(volatile TY *a, TY v, int mo) { (void)mo; sync_point(__builtin_return_address(0)); TY r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); sync_point(__builtin_return_address(0)); return r; } \
  EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int fmo) { (void)mo; (void)fmo; sync_point(__builtin_return_address(0)); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); sync_point(__builtin_return_address(0)); return r; } \
  EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int fmo) { (void)mo; (void)fmo; sync_point(__builtin_return_address(0)); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); sync_point(__builtin_return_address(0)); return r; } \
  EXPORT TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) { (void)mo; (void)fmo; sync_point(__builtin_return_address(0)); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); sync_point(__builtin_return_address(0)); return c; }
ATOMS(8, u8)
ATOMS(16, uint16_t)
ATOMS(32, u32)
ATOMS(64, u64)
EXPORT void __tsan_atomic_thread_fence(int mo) { (void)mo; sync_point(__builtin_return_address(0)); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
EXPORT void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ---------------------------------------------------------------- futex
static long sim_futex(u32 *addr, int op, u32 val, const struct timespec *ts, u32 *addr2, u32 val3, void *pc) {
  struct thr *me = self_;
  int cmd = op & 127 & ~FUTEX_PRIVATE_FLAG;
  cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  sync_point(pc);
  switch (cmd) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET: {
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
      me->faddr = addr;
      me->fmask = cmd == FUTEX_WAIT_BITSET ? val3 : ~0u;
      me->wres = 0;
      me->deadline = 0;
      if (ts) {
        u64 ns = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec;
        if (cmd == FUTEX_WAIT) me->deadline = now_ns() + ns;
        else if (op & FUTEX_CLOCK_REALTIME) me->deadline = ns > clk_base ? ns - clk_base : 1;
        else me->deadline = ns;
        if (me->deadline == 0) me->deadline = 1;
      }
      me->state = T_FUTEX;
      block_self(me, pc);
      me->faddr = 0;
      if (me->wres) { errno = me->wres; return -1; }
      return 0;
    }
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET: {
      u32 mask = cmd == FUTEX_WAKE_BITSET ? val3 : ~0u;
      long n = 0;
      while (n < (long)(int)val) {
        struct thr *c[MAXT];
        int k = 0;
        for (int i = 0; i < nT; i++) if (T[i].state == T_FUTEX && T[i].faddr == addr && (T[i].fmask & mask)) c[k++] = &T[i];
        if (!k) break;
        int w = 0;
        if (k > 1) {
          u64 idx = O->wakes++;
          if (use_script) { struct dev *s = script_find('W', idx); if (s) for (int i = 0; i < k; i++) if (c[i]->id == (int)s->a) w = i; }
          else if (strat != 0) { w = (int)(sm(&r_sched) % k); if (w) { record('W', idx, c[w]->id, 0); O->faults[K_WAKEPICK]++; } }
        }
        struct thr *t = c[w];
        t->state = T_RUN;
        t->deadline = 0;
        t->wres = 0;
        n++;
        on_wakeup(me, t, pc);
      }
      sync_point(pc);
      return n;
    }
    case FUTEX_REQUEUE:
    case FUTEX_CMP_REQUEUE: {
      if (cmd == FUTEX_CMP_REQUEUE && __atomic_load_n(addr, __ATOMIC_SEQ_CST) != val3) { errno = EAGAIN; return -1; }
      long n = 0, max2 = (long)(uintptr_t)ts, m = 0;
      for (int i = 0; i < nT; i++)
        if (T[i].state == T_FUTEX && T[i].faddr == addr) {
          if (n < (long)(int)val) { T[i].state = T_RUN; T[i].deadline = 0; T[i].wres = 0; n++; }
          else if (m < max2) { T[i].faddr = addr2; m++; }
        }
      return n + m;
    }
    default: finish(OUT_INTERNAL, 96);
  }
}
static void fill_random(void *buf, size_t n) {
  u8 *p = buf;
  for (size_t i = 0; i < n; i++) p[i] = (u8)(sm(&r_data) >> 24);
}
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (active && self_) {
    if (n == SYS_futex) return sim_futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (u32 *)e, (u32)f, __builtin_return_address(0));
    if (n == SYS_getrandom) { fill_random((void *)a, (size_t)b); return b; }
    if (n == SYS_gettid) return 1000 + self_->id;
    if (n == SYS_copy_file_range || n == SYS_sendfile || n == SYS_splice) { errno = ENOSYS; return -1; }
  }
  return ret_errno(raw6(n, a, b, c, d, e, f));
}
EXPORT ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (active) { fill_random(buf, n); return (ssize_t)n; }
  return ret_errno(RAW(SYS_getrandom, buf, n, fl));
}
EXPORT int getentropy(void *buf, size_t n) {
  if (active) { fill_random(buf, n); return 0; }
  return (int)ret_errno(RAW(SYS_getrandom, buf, n, 0)) < 0 ? -1 : 0;
}
EXPORT int sched_yield(void) {
  struct thr *me = self_;
  if (!active || !me) { RAW(SYS_sched_yield); return 0; }
  sync_point(__builtin_return_address(0));
  if (strat == 3) me->prio = --lowprio;
  struct thr *n = pick_forced(me, 0);
  if (n != me) switch_to(me, n, __builtin_return_address(0));
  return 0;
}
static int sim_sleep(u64 ns) {
  struct thr *me = self_;
  sync_point(__builtin_return_address(0));
  me->deadline = now_ns() + ns + 1;
  me->state = T_SLEEP;
  block_self(me, __builtin_return_address(0));
  return 0;
}
EXPORT int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (!active || !self_) return (int)ret_errno(RAW(SYS_nanosleep, r, rem));
  return sim_sleep((u64)r->tv_sec * 1000000000ull + (u64)r->tv_nsec);
}
EXPORT int clock_nanosleep(clockid_t id, int fl, const struct timespec *r, struct timespec *rem) {
  if (!active || !self_) return (int)-RAW(SYS_clock_nanosleep, id, fl, r, rem);
  u64 ns = (u64)r->tv_sec * 1000000000ull + (u64)r->tv_nsec;
  if (fl & TIMER_ABSTIME) { u64 n = now_ns() + (id == CLOCK_REALTIME ? clk_base : 0); ns = ns > n ? ns - n : 0; }
  return sim_sleep(ns);
}
EXPORT int usleep(useconds_t us) {
  struct timespec t = {us / 1000000, (us % 1000000) * 1000};
  return nanosleep(&t, 0);
}
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!active || !self_) return (int)ret_errno(RAW(SYS_clock_gettime, id, ts));
  sched_point(__builtin_return_address(0));
  u64 n = now_ns() + 1000000000ull * 5000;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) n = now_ns() + clk_base;
  ts->tv_sec = (time_t)(n / 1000000000ull);
  ts->tv_nsec = (long)(n % 1000000000ull);
  return 0;
}
EXPORT int sched_getaffinity(pid_t p, size_t sz, cpu_set_t *set) {
  if (!active) return (int)ret_errno(RAW(SYS_sched_getaffinity, p, sz, set)) < 0 ? -1 : 0;
  memset(set, 0, sz);
  for (int i = 0; i < ncpu; i++) CPU_SET_S(i, sz, set);
  return 0;
}
EXPORT long sysconf(int name) {
  static long (*real)(int);
  if (active && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return ncpu;
  if (!real) real = dlsym(RTLD_NEXT, "sysconf");
  return real(name);
}

// ---------------------------------------------------------------- threads
static void key_dtor(void *p) {
  struct thr *me = p;
  if (!active) return;
  if (++me->dtors < PTHREAD_DESTRUCTOR_ITERATIONS) { pthread_setspecific(key, me); return; }
  me->state = T_EXIT;
  for (int i = 0; i < nT; i++) if (T[i].state == T_JOIN && T[i].joinee == me->id) { T[i].state = T_RUN; }
  struct thr *n = pick_forced(me, 0);
  exiting_tid = me->tid;
  self_ = 0;
  switch_to(me, n, 0);
}
static void *thr_start(void *p) {
  struct thr *me = p;
  self_ = me;
  me->tid = (int)RAW(SYS_gettid);
  park_self(me);
  pthread_setspecific(key, me);
  return me->fn(me->arg);
}
EXPORT int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!active || !self_) return real_create(pt, at, fn, arg);
  sync_point(__builtin_return_address(0));
  u64 idx = O->creates++;
  int fail = script_find('C', idx) != 0;
  if (fail) { O->faults[K_NOTHREAD]++; mixh(K_NOTHREAD, O->creates, 0); trace("%lu: T%d pthread_create fails\n", steps, self_->id); return EAGAIN; }
  if (nT >= MAXT) finish(OUT_INTERNAL, 95);
  struct thr *t = &T[nT];
  memset(t, 0, sizeof *t);
  t->id = nT;
  t->fn = fn;
  t->arg = arg;
  t->state = T_RUN;
  t->prio = (int)(100000 + sm(&r_sched) % 800000);
  int r = real_create(pt, at, thr_start, t);
  if (r) return r;
  t->pt = *pt;
  t->has_pt = 1;
  nT++;
  int live = 0;
  for (int i = 0; i < nT; i++) if (T[i].state != T_EXIT) live++;
  if ((u64)live > O->maxlive) O->maxlive = live;
  trace("%lu: T%d creates T%d\n", steps, self_->id, t->id);
  on_wakeup(self_, t, 0);
  sync_point(__builtin_return_address(0));
  return 0;
}
EXPORT int pthread_join(pthread_t pt, void **ret) {
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  struct thr *me = self_;
  if (!active || !me) return real_join(pt, ret);
  sync_point(__builtin_return_address(0));
  for (int i = nT - 1; i >= 0; i--)
    if (T[i].has_pt && !T[i].joined && pthread_equal(T[i].pt, pt)) {
      T[i].joined = 1;
      if (T[i].state != T_EXIT) { me->joinee = i; me->state = T_JOIN; block_self(me, __builtin_return_address(0)); }
      break;
    }
  return real_join(pt, ret);
}
EXPORT int pthread_detach(pthread_t pt) {
  static int (*real)(pthread_t);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_detach");
  if (active)
    for (int i = nT - 1; i >= 0; i--) if (T[i].has_pt && !T[i].joined && pthread_equal(T[i].pt, pt)) { T[i].joined = 1; break; }
  return real(pt);
}

// ---------------------------------------------------------------- memory
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static int alloc_fails(void) {
  if (!active || !self_) return 0;
  u64 i = O->allocs++;
  if (use_script || nscript) { if (script_find('M', i)) { O->faults[K_NOMEM]++; mixh(K_NOMEM, i, 0); trace("%lu: allocation %lu fails\n", steps, i); return 1; } }
  return 0;
}
static int have_m;
// the live bytes of the heap, and their peak (info[0], info[1]): what was allocated before the start or outside of a simulated thread is not counted
static int64_t mem_live;
static void mem_add(void *p) {
  if (!p) return;
  mem_live += malloc_usable_size(p) + 16;
  if (mem_live > (int64_t)O->info[1]) O->info[1] = mem_live;
  O->info[0] = mem_live;
}
static void mem_sub(void *p) { if (p) mem_live -= malloc_usable_size(p) + 16; }
#define COUNTING (active && self_)
EXPORT void *malloc(size_t n) {
  if (unlikely(have_m) && alloc_fails()) { errno = ENOMEM; return 0; }
  if (!COUNTING) return __libc_malloc(n);
  if (!have_m) O->allocs++;
  void *r = __libc_malloc(n);
  mem_add(r);
  return r;
}
EXPORT void *calloc(size_t a, size_t b) {
  if (unlikely(have_m) && alloc_fails()) { errno = ENOMEM; return 0; }
  if (!COUNTING) return __libc_calloc(a, b);
  if (!have_m) O->allocs++;
  void *r = __libc_calloc(a, b);
  mem_add(r);
  return r;
}
EXPORT void *realloc(void *p, size_t n) {
  if (unlikely(have_m) && alloc_fails()) { errno = ENOMEM; return 0; }
  if (!COUNTING) return __libc_realloc(p, n);
  if (!have_m) O->allocs++;
  int64_t old = p ? malloc_usable_size(p) + 16 : 0;
  void *r = __libc_realloc(p, n);
  if (r || !n) mem_live -= old;
  mem_add(r);
  return r;
}
EXPORT void free(void *p) {
  if (COUNTING) mem_sub(p);
  __libc_free(p);
}
EXPORT int posix_memalign(void **r, size_t al, size_t n) {
  if (unlikely(have_m) && alloc_fails()) return ENOMEM;
  if (COUNTING && !have_m) O->allocs++;
  *r = __libc_memalign(al, n);
  if (COUNTING) mem_add(*r);
  return *r ? 0 : ENOMEM;
}
EXPORT void *aligned_alloc(size_t al, size_t n) {
  if (unlikely(have_m) && alloc_fails()) { errno = ENOMEM; return 0; }
  void *r = __libc_memalign(al, n);
  if (COUNTING) mem_add(r);
  return r;
}

// ---------------------------------------------------------------- file I/O
#define MAXFD 256
static struct { int used, writable; char name[64]; u64 ino; } F[MAXFD];
static char cwd[PATH_MAX];
static int cwdlen;
static struct { char name[64]; int err; } stickyw[16];
static int nsticky;
static int jfd = -1;

static const char *track_name(const char *path) {
  const char *p = path;
  if (p[0] == '/') {
    if (strncmp(p, cwd, cwdlen) || p[cwdlen] != '/') return 0;
    p += cwdlen + 1;
  }
  while (p[0] == '.' && p[1] == '/') p += 2;
  return p;
}
static int pseudo(const char *p) { return !strncmp(p, "/proc", 5) || !strncmp(p, "/sys", 4) || !strncmp(p, "/etc", 4); }
struct jrec { u32 magic, op; u64 idx, ino, off, len; char name[64], name2[64]; };
static void journal(u32 op, u64 ino, const char *name, const char *name2, u64 off, const void *data, u64 len) {
  if (jfd < 0) return;
  struct jrec r;
  memset(&r, 0, sizeof r);
  r.magic = 0x4a524e31; r.op = op; r.idx = O->ioops; r.ino = ino; r.off = off; r.len = data ? len : 0;
  if (!data) r.off = off, r.len = 0;
  if (name) strncpy(r.name, name, 63);
  if (name2) strncpy(r.name2, name2, 63);
  RAW(SYS_write, jfd, &r, sizeof r);
  if (data && len) RAW(SYS_write, jfd, data, len);
}
static u64 ino_of(int fd) {
  struct stat st;
  if (RAW(SYS_fstat, fd, &st) < 0) return 0;
  return st.st_ino;
}
static void crash_now(void) { finish(OUT_CRASHED, 97); }
// decide a fault for this op. class: 'r' read, 'w' write, 'o' open-read, 'O' open-write, 's' sync, 'n' rename/unlink/truncate
static int io_fault(int cls, const char *name, u32 *arg, int *errv) {
  struct thr *me = self_;
  if (!active || !me) return 0;
  sync_point(__builtin_return_address(0));
  u64 idx = O->ioops++;
  int kind = 0;
  *arg = 0;
  *errv = 0;
  if (nscript) { struct dev *s = script_find('I', idx); if (s) { kind = (int)(s->a & 0xff); *errv = (int)(s->a >> 8); *arg = s->b; } }
  if (!kind && cls == 'w')
    for (int i = 0; i < nsticky; i++) if (!strcmp(stickyw[i].name, name)) { *errv = stickyw[i].err; return K_WEIO; }
  if (!kind && !use_script)
    for (int i = 0; i < nrules; i++) {
      int k = rules[i].kind;
      int okc = 0;
      switch (k) {
        case K_RSHORT: case K_REINTR: case K_REIO: okc = cls == 'r'; break;
        case K_WSHORT: case K_WEINTR: case K_WEIO: case K_WENOSPC: case K_WEPIPE: okc = cls == 'w'; break;
        case K_OFAIL: case K_OEINTR: okc = cls == 'o' || cls == 'O'; break;
        case K_SYNCEIO: okc = cls == 's'; break;
        case K_RENFAIL: okc = cls == 'n'; break;
        case K_CRASHB: case K_CRASHA: okc = 1; break;
        case K_TORN: okc = cls == 'w'; break;
      }
      if (!okc) continue;
      if (strcmp(rules[i].name, "*") && strcmp(rules[i].name, name)) continue;
      if (u01(&r_io) < rules[i].p) {
        kind = k;
        *errv = rules[i].errv;
        *arg = (u32)sm(&r_io) & 0x7fffffff;
        record('I', idx, (u32)(kind | (*errv << 8) | (rules[i].sticky ? 1u << 30 : 0)), *arg);
        if (rules[i].sticky) *errv |= 1 << 22;
        break;
      }
    }
  int sticky = (*errv >> 22) & 1;
  *errv &= 0xffff;
  if (kind) {
    O->faults[kind]++;
    mixh(kind, idx, *arg);
    trace("%lu: T%d io %lu (%c %s) fault %d\n", steps, me->id, idx, cls, name, kind);
    if (sticky && (kind == K_WEIO || kind == K_WENOSPC || kind == K_WEPIPE) && nsticky < 16) {
      strncpy(stickyw[nsticky].name, name, 63);
      stickyw[nsticky++].err = *errv ? *errv : (kind == K_WENOSPC ? ENOSPC : kind == K_WEPIPE ? EPIPE : EIO);
    }
    if (kind == K_CRASHB) crash_now();
  } else
    trace("%lu: T%d io %lu (%c %s)\n", steps, me->id, idx, cls, name);
  return kind;
}
static int do_open(int dfd, const char *path, int flags, mode_t mode) {
  if (active && self_) {
    if (pseudo(path)) { errno = ENOENT; return -1; }
    const char *nm = track_name(path);
    if (nm && *nm) {
      u32 arg; int errv;
      int wr = (flags & O_ACCMODE) != O_RDONLY;
      int k = io_fault(wr ? 'O' : 'o', nm, &arg, &errv);
      if (k == K_OFAIL) { errno = errv ? errv : EMFILE; return -1; }
      if (k == K_OEINTR) { errno = EINTR; return -1; }
      long fd = RAW(SYS_openat, dfd, path, flags, mode);
      if (fd >= 0 && fd < MAXFD) {
        F[fd].used = 1;
        F[fd].writable = wr;
        strncpy(F[fd].name, nm, 63);
        F[fd].ino = ino_of((int)fd);
        if (wr) {
          if (flags & O_CREAT) journal('c', F[fd].ino, nm, 0, 0, 0, 0);
          if (flags & O_TRUNC) journal('t', F[fd].ino, nm, 0, 0, 0, 0);
        }
      }
      if (k == K_CRASHA) crash_now();
      return (int)ret_errno(fd);
    }
  }
  return (int)ret_errno(RAW(SYS_openat, dfd, path, flags, mode));
}
#define OPENBODY(dfd) mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return do_open(dfd, p, fl, m);
EXPORT int open(const char *p, int fl, ...) { OPENBODY(AT_FDCWD) }
EXPORT int open64(const char *p, int fl, ...) { OPENBODY(AT_FDCWD) }
EXPORT int openat(int d, const char *p, int fl, ...) { OPENBODY(d) }
EXPORT int openat64(int d, const char *p, int fl, ...) { OPENBODY(d) }
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static const char *fdname(int fd) {
  if (fd >= 0 && fd < MAXFD && F[fd].used) return F[fd].name;
  return 0;
}
EXPORT int close(int fd) {
  if (fd >= 0 && fd < MAXFD) F[fd].used = 0;
  return (int)ret_errno(RAW(SYS_close, fd));
}
static ssize_t do_read(int fd, void *buf, size_t n, off_t off, int pos) {
  const char *nm = active ? fdname(fd) : 0;
  if (nm && self_) {
    u32 arg; int errv;
    int k = io_fault('r', nm, &arg, &errv);
    if (k == K_REINTR) { errno = EINTR; return -1; }
    if (k == K_REIO) { errno = errv ? errv : EIO; return -1; }
    if (k == K_RSHORT && n > 1) n = 1 + arg % (n < 4096 ? n : (arg & 1 ? 64 : 4096));
    long r = pos ? RAW(SYS_pread64, fd, buf, n, off) : RAW(SYS_read, fd, buf, n);
    if (k == K_CRASHA) crash_now();
    return ret_errno(r);
  }
  return ret_errno(pos ? RAW(SYS_pread64, fd, buf, n, off) : RAW(SYS_read, fd, buf, n));
}
EXPORT ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, 0, 0);
  return 0;
}
static ssize_t do_write(int fd, const void *buf, size_t n, off_t off, int pos) {
  const char *nm = active ? fdname(fd) : 0;
  if (nm && self_) {
    u32 arg; int errv;
    int k = io_fault('w', nm, &arg, &errv);
    switch (k) {
      case K_WEINTR: errno = EINTR; return -1;
      case K_WEIO: errno = errv ? errv : EIO; return -1;
      case K_WENOSPC: errno = ENOSPC; return -1;
      case K_WEPIPE: errno = EPIPE; return -1;
      case K_WSHORT: if (n > 1) n = 1 + arg % (n - 1); break;
      case K_TORN: n = n ? arg % (n + 1) : 0; break;
    }
    u64 o = pos ? (u64)off : (u64)RAW(SYS_lseek, fd, 0, SEEK_CUR);
    long fl = RAW(SYS_fcntl, fd, F_GETFL);
    if (fl >= 0 && (fl & O_APPEND)) { struct stat st; if (RAW(SYS_fstat, fd, &st) == 0) o = st.st_size; }
    long r = pos ? RAW(SYS_pwrite64, fd, buf, n, off) : RAW(SYS_write, fd, buf, n);
    if (r > 0 && fd > 2) journal('w', F[fd].ino, nm, 0, o, buf, r);
    if (k == K_TORN || k == K_CRASHA) crash_now();
    return ret_errno(r);
  }
  return ret_errno(pos ? RAW(SYS_pwrite64, fd, buf, n, off) : RAW(SYS_write, fd, buf, n));
}
EXPORT ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  ssize_t tot = 0;
  if (!(active && self_ && fdname(fd))) return ret_errno(RAW(SYS_writev, fd, v, c));
  size_t all = 0;
  for (int i = 0; i < c; i++) all += v[i].iov_len;
  if (!all) return 0;
  // one operation: gather (so that a fault applies to the call as a whole)
  char *tmp = (char *)RAW(SYS_mmap, 0, all, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  size_t o = 0;
  for (int i = 0; i < c; i++) { memcpy(tmp + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
  tot = do_write(fd, tmp, all, 0, 0);
  int e = errno;
  RAW(SYS_munmap, tmp, all);
  errno = e;
  return tot;
}
static int do_sync(int fd, int nr) {
  const char *nm = active ? fdname(fd) : 0;
  if (nm && self_) {
    u32 arg; int errv;
    int k = io_fault('s', nm, &arg, &errv);
    if (k == K_SYNCEIO) { errno = errv ? errv : EIO; return -1; }
    long r = 0;  // durability is modelled by the journal, not by the scratch disk
    journal('s', F[fd].ino, nm, 0, 0, 0, 0);
    if (k == K_CRASHA) crash_now();
    return (int)ret_errno(r);
  }
  return (int)ret_errno(RAW(nr, fd));
}
EXPORT int fsync(int fd) { return do_sync(fd, SYS_fsync); }
EXPORT int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
EXPORT int syncfs(int fd) { return do_sync(fd, SYS_syncfs); }
static int do_rename(const char *a, const char *b) {
  const char *na = active && self_ ? track_name(a) : 0, *nb = na ? track_name(b) : 0;
  if (na && nb) {
    u32 arg; int errv;
    int k = io_fault('n', nb, &arg, &errv);
    if (k == K_RENFAIL) { errno = errv ? errv : EIO; return -1; }
    struct stat st;
    u64 ino = RAW(SYS_newfstatat, AT_FDCWD, a, &st, 0) == 0 ? st.st_ino : 0;
    long r = RAW(SYS_rename, a, b);
    if (r == 0) journal('r', ino, na, nb, 0, 0, 0);
    if (k == K_CRASHA) crash_now();
    return (int)ret_errno(r);
  }
  return (int)ret_errno(RAW(SYS_rename, a, b));
}
EXPORT int rename(const char *a, const char *b) { return do_rename(a, b); }
EXPORT int renameat(int d1, const char *a, int d2, const char *b) { (void)d1; (void)d2; return do_rename(a, b); }
EXPORT int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { (void)d1; (void)d2; (void)f; return do_rename(a, b); }
EXPORT int unlink(const char *p) {
  const char *nm = active && self_ ? track_name(p) : 0;
  if (nm) {
    u32 arg; int errv;
    int k = io_fault('n', nm, &arg, &errv);
    if (k == K_RENFAIL) { errno = errv ? errv : EIO; return -1; }
    struct stat st;
    u64 ino = RAW(SYS_newfstatat, AT_FDCWD, p, &st, 0) == 0 ? st.st_ino : 0;
    long r = RAW(SYS_unlink, p);
    if (r == 0) journal('u', ino, nm, 0, 0, 0, 0);
    if (k == K_CRASHA) crash_now();
    return (int)ret_errno(r);
  }
  return (int)ret_errno(RAW(SYS_unlink, p));
}
EXPORT int link(const char *a, const char *b) {
  const char *na = active && self_ ? track_name(a) : 0, *nb = na ? track_name(b) : 0;
  if (na && nb) {
    u32 arg; int errv;
    int k = io_fault('n', nb, &arg, &errv);
    if (k == K_RENFAIL) { errno = errv ? errv : EIO; return -1; }
    struct stat st;
    u64 ino = RAW(SYS_newfstatat, AT_FDCWD, a, &st, 0) == 0 ? st.st_ino : 0;
    long r = RAW(SYS_link, a, b);
    if (r == 0) journal('l', ino, na, nb, 0, 0, 0);
    if (k == K_CRASHA) crash_now();
    return (int)ret_errno(r);
  }
  return (int)ret_errno(RAW(SYS_link, a, b));
}
static int do_ftrunc(int fd, off_t n) {
  const char *nm = active ? fdname(fd) : 0;
  if (nm && self_) {
    u32 arg; int errv;
    int k = io_fault('n', nm, &arg, &errv);
    if (k == K_RENFAIL) { errno = errv ? errv : EIO; return -1; }
    long r = RAW(SYS_ftruncate, fd, n);
    if (r == 0) journal('T', F[fd].ino, nm, 0, (u64)n, 0, 0);
    if (k == K_CRASHA) crash_now();
    return (int)ret_errno(r);
  }
  return (int)ret_errno(RAW(SYS_ftruncate, fd, n));
}
EXPORT int ftruncate(int fd, off_t n) { return do_ftrunc(fd, n); }
EXPORT int ftruncate64(int fd, off_t n) { return do_ftrunc(fd, n); }
EXPORT ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
  if (active) { errno = ENOSYS; return -1; }
  return ret_errno(RAW(SYS_copy_file_range, a, b, c, d, e, f));
}
EXPORT ssize_t sendfile64(int a, int b, off64_t *c, size_t n) {
  if (active) { errno = ENOSYS; return -1; }
  return ret_errno(RAW(SYS_sendfile, a, b, c, n));
}
EXPORT ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
  if (active) { errno = EINVAL; return -1; }
  return ret_errno(RAW(SYS_splice, a, b, c, d, e, f));
}

// ---------------------------------------------------------------- start and end
static int cmpdev(const void *a, const void *b) {
  const struct dev *x = a, *y = b;
  int px = x->type == 'P' || x->type == 'S' || x->type == 'T', py = y->type == 'P' || y->type == 'S' || y->type == 'T';
  if (px != py) return py - px;
  if (!px) return 0;
  return x->at < y->at ? -1 : x->at > y->at;
}
static void at_end(void) {
  if (!active || !O) return;
  sync_out();
  if (O->outcome == OUT_RUNNING) O->outcome = OUT_EXITED;
}
__attribute__((constructor(101))) static void dst_init(void) {
  long fd = RAW(SYS_open, "dst.cfg", O_RDONLY, 0);
  if (fd < 0) return;
  long ofd = RAW(SYS_open, "dst.out", O_RDWR | O_CREAT, 0600);
  if (ofd < 0) return;
  RAW(SYS_ftruncate, ofd, sizeof(struct out));
  O = (struct out *)RAW(SYS_mmap, 0x500000000000ull, sizeof(struct out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED_NOREPLACE, ofd, 0);
  if ((long)O < 0 && (long)O > -4096) { O = 0; return; }
  RAW(SYS_close, ofd);
  O->magic = 0x4453543144535431ull;
  struct stat st;
  RAW(SYS_fstat, fd, &st);
  size_t sz = (size_t)st.st_size, msz = sz + 1;
  char *buf = (char *)RAW(SYS_mmap, 0x510000000000ull, msz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  size_t got = 0;
  while (got < sz) { long r = RAW(SYS_read, fd, buf + got, sz - got); if (r <= 0) break; got += (size_t)r; }
  buf[got] = 0;
  RAW(SYS_close, fd);
  script = (struct dev *)RAW(SYS_mmap, 0x520000000000ull, sizeof(struct dev) * MAXSCRIPT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  char *p = buf;
  while (*p) {
    char *e = strchr(p, '\n');
    if (e) *e = 0;
    char k[64];
    int off = 0;
    if (sscanf(p, "%63s %n", k, &off) == 1) {
      char *v = p + off;
#define NUM strtoull(v, 0, 0)
      if (!strcmp(k, "seed")) seed = NUM;
      else if (!strcmp(k, "strat")) strat = (int)NUM;
      else if (!strcmp(k, "gap")) mean_gap = NUM;
      else if (!strcmp(k, "pct_len")) pct_len = NUM;
      else if (!strcmp(k, "pct_d")) pct_d = (int)NUM;
      else if (!strcmp(k, "max_steps")) max_steps = NUM;
      else if (!strcmp(k, "fair_after")) fair_after = NUM;
      else if (!strcmp(k, "ncpu")) ncpu = (int)NUM;
      else if (!strcmp(k, "trace")) trace_on = (int)NUM;
      else if (!strcmp(k, "journal")) journal_on = (int)NUM;
      else if (!strcmp(k, "spurious")) p_spurious = strtod(v, 0);
      else if (!strcmp(k, "stall")) { unsigned long a, b, c; if (sscanf(v, "%lu %lu %lu", &a, &b, &c) == 3) { stall_tid = a; stall_from = b; stall_to = c; } }
      else if (!strcmp(k, "clock_step")) clock_step = NUM;
      else if (!strcmp(k, "clock_base")) clk_base = NUM;
      else if (!strcmp(k, "crash_step")) crash_step = NUM;
      else if (!strcmp(k, "script")) use_script = NUM;
      else if (!strcmp(k, "rule") && nrules < MAXRULE) {
        int kind = 0, sticky = 0, er = 0;
        double pr = 0;
        if (sscanf(v, "%63s %d %lf %d %d", rules[nrules].name, &kind, &pr, &sticky, &er) >= 3) { rules[nrules].kind = kind; rules[nrules].p = pr; rules[nrules].sticky = sticky; rules[nrules].errv = er; nrules++; }
      } else if (!strcmp(k, "dev") && nscript < MAXSCRIPT) {
        char t; unsigned long at; unsigned a = 0, b = 0;
        if (sscanf(v, "%c %lu %u %u", &t, &at, &a, &b) >= 2) { struct dev *d = &script[nscript++]; d->type = (u32)t; d->at = at; d->a = a; d->b = b; if (t == 'M') have_m = 1; }
      }
    }
    if (!e) break;
    p = e + 1;
  }
  // stable partition: P/S/T first sorted by step (they arrive in order), the rest after
  for (u64 i = 1; i < nscript; i++) {  // insertion sort; inputs are nearly sorted
    struct dev d = script[i];
    u64 j = i;
    while (j && cmpdev(&script[j - 1], &d) > 0) { script[j] = script[j - 1]; j--; }
    script[j] = d;
  }
  while (scriptP < nscript && (script[scriptP].type == 'P' || script[scriptP].type == 'S' || script[scriptP].type == 'T')) scriptP++;
  u64 s = seed;
  r_sched = sm(&s); r_io = sm(&s); r_data = sm(&s); r_misc = sm(&s);
  if (strat == 3) for (int i = 0; i < pct_d && i < 16; i++) pct_pts[i] = 1 + sm(&r_sched) % pct_len;
  long c = RAW(SYS_getcwd, cwd, sizeof cwd);
  cwdlen = c > 0 ? (int)strlen(cwd) : 0;
  if (journal_on) {
    jfd = (int)RAW(SYS_open, "dst.jrn", O_RDWR | O_CREAT | O_TRUNC, 0600);
    long hi = RAW(SYS_dup2, jfd, 250);
    if (hi == 250) { RAW(SYS_close, jfd); jfd = 250; }
  }
  for (int i = 1; i <= 2; i++) { F[i].used = i == 1; F[i].writable = 1; strcpy(F[i].name, i == 1 ? "<stdout>" : "<stderr>"); }
  pthread_key_create(&key, key_dtor);
  real_create = dlsym(RTLD_NEXT, "pthread_create");
  real_join = dlsym(RTLD_NEXT, "pthread_join");
  T[0].state = T_RUN;
  T[0].tid = (int)RAW(SYS_gettid);
  T[0].prio = (int)(100000 + sm(&r_sched) % 800000);
  self_ = &T[0];
  cur = 0;
  atexit(at_end);
  active = 1;
  arm_random();
  recompute_next();
}
EXPORT pid_t gettid(void) { return active && self_ ? 1000 + self_->id : (pid_t)RAW(SYS_gettid); }
EXPORT pid_t getpid(void) { return active ? 4242 : (pid_t)RAW(SYS_getpid); }
EXPORT int dst_active(void) { return active; }
EXPORT uint64_t dst_steps(void) { return steps; }
EXPORT uint64_t dst_rand(void) { return sm(&r_data); }
EXPORT int dst_tid(void) { return self_ ? self_->id : -1; }
EXPORT void dst_point(void) { sync_point(__builtin_return_address(0)); }
EXPORT void dst_info(int i, uint64_t v) { if (O && i >= 0 && i < 8) O->info[i] += v; }

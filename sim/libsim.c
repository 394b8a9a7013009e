/*
 * libsim: a deterministic simulator for one Linux process, at the libc seam.
 *
 * Preloaded into the system under test (the real `louis` binary or a small
 * driver linked with the real `louis` library), it owns every source of
 * nondeterminism the program can reach:
 *
 *   - thread scheduling   (one thread runs at a time; a seeded PRNG decides who
 *                          and, through the compiler's coverage callbacks, may
 *                          take the processor away at any basic block, load or
 *                          store of instrumented code, at any allocation and at
 *                          any intercepted call)
 *   - blocking            (futex wait/wake, join, sleep are simulated)
 *   - time                (clock_gettime & co. read a simulated clock)
 *   - entropy             (getrandom, hence every std hash seed)
 *   - the filesystem      (in memory; nothing real is ever reachable)
 *   - stdin/stdout/stderr (in memory)
 *   - the allocator       (own arena at a fixed address; can fail)
 *
 * and injects faults at all of these from an explicit plan. One plan file is
 * one exactly repeatable execution. Results go to a shared memory file, so
 * that nothing is lost whatever way the process dies.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <poll.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define NOSAN

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

/* ------------------------------------------------------------------ raw syscalls */
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
#define RAW(n, a, b, c) raw6(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)

/* ------------------------------------------------------------------ shared report */
#define OUT_CAP (8u << 20)
#define ERR_CAP (4u << 20)
#define EMIT_CAP (16u << 20)
#define LOG_CAP (2u << 20)
#define EDGE_CAP (256u << 10) /* bytes: one per guard */
#define DEC_CAP (64u << 10)   /* decisions (u64 each) */

enum { ST_RUN = 0, ST_EXIT = 1, ST_DEADLOCK = 2, ST_HANG = 3, ST_ABORT = 4, ST_INTERNAL = 5 };
enum {
  OP_OPEN, OP_READ, OP_STAT, OP_REALPATH, OP_OPENDIR, OP_READDIR, OP_CLOSE, OP_STDIN, OP_STDOUT, OP_STDERR,
  OP_GETRANDOM, OP_ALLOC, OP_THREAD, OP_SEEK, OP_FUTEX, OP_PHASE, OP_CWD, OP_N
};
static const char *op_name[OP_N] = {"open", "read", "stat", "realpath", "opendir", "readdir", "close", "stdin",
                                    "stdout", "stderr", "getrandom", "alloc", "thread", "seek", "futex", "phase", "cwd"};

struct hdr {
  u64 magic, status, ticks, switches, sched_hash, nthreads, events, open_fds, live_bytes, live_allocs;
  u64 peak_bytes, clock_ns, stdout_len, stderr_len, emit_len, log_len, ndec, mutating, foreign, edges_total;
  u64 fired_total, stdin_pos, bad_close, nguards, leaked_at_exit, rand_bytes, preemptions, maxfds;
  u64 op_count[24];
  u64 fired[24];      /* faults fired, by op */
  u64 chunked, eintrs, spurious, shuffled, dtunknown, muts, delays, jumps;
  u64 fault_fired[256]; /* by plan index */
};
static struct hdr *H;
static char *A_out, *A_err, *A_emit, *A_log;
static u8 *A_edge;
static u64 *A_dec;
static struct hdr dummy_hdr;
static u8 dummy_edge[EDGE_CAP];

/* ------------------------------------------------------------------ PRNG */
static u64 splitmix(u64 *s) {
  u64 z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static u64 rs_sched = 1, rs_ent = 2, rs_io = 3, rs_dir = 4, rs_wake = 5, rs_jump = 6;
static u64 rnd(u64 *s, u64 n) { return n ? splitmix(s) % n : 0; }

/* ------------------------------------------------------------------ plan */
#define MAXF 256
struct fault {
  int op;
  char *path; /* NULL: any */
  u64 from, to, seen;
  int act; /* 0 errno, 1 short, 2 delay, 3 eof */
  long arg;
};
struct mutn {
  int op;
  char *path;
  u64 nth, seen;
  int after, kind; /* 0 replace 1 write 2 unlink 3 symlink 4 chmod 5 mkdir 6 rename */
  char *target;
  char *data;
  size_t len;
  long mode;
  int done;
  char *again;
};
static u64 flap; /* lasting failures and changes come back every so many calls */
static struct fault faults[MAXF];
static int nfaults;
static struct mutn muts[MAXF];
static int nmuts;
static u64 anyenv;
static u64 maxticks = 200000000ull, maxmem = 1ull << 30;
static int policy = 0;
static u64 pol_mean = 1000, pol_depth = 3, pol_len = 100000;
#define MAXFORCED 65536
static u64 forced_tick[MAXFORCED];
static u8 forced_tid[MAXFORCED], forced_kind[MAXFORCED];
static int nforced, forced_i, use_forced;
static int ncpu = 4;
static char cwd[PATH_MAX] = "/";
static u64 clock_base = 1700000000ull * 1000000000ull, clock_off = 0, clock_base0, jump_pm = 0;
static u64 chunk_max = 0, eintr_pm = 0, spurious_pm = 0;
static int dtunk = 0, rdshuffle = 1, active = 0, urandom_only = 0, statx_off = 0;
static char *stdin_data;
static size_t stdin_len, stdin_pos;
static u32 *stdin_chunk;
static int nstdin_chunk, stdin_ci;
static size_t stdin_cleft;
static char *script_data;
static size_t script_len;

/* ------------------------------------------------------------------ log */
static void log_raw(const char *s, size_t n) {
  if (!H || !A_log) return;
  if (H->log_len + n > LOG_CAP) return;
  memcpy(A_log + H->log_len, s, n);
  H->log_len += n;
}
static char *fmt_u(char *p, u64 v) {
  char b[24];
  int i = 0;
  do { b[i++] = '0' + v % 10; v /= 10; } while (v);
  while (i) *p++ = b[--i];
  return p;
}

/* ------------------------------------------------------------------ allocator */
#define ARENA_BASE ((char *)0x200000000000ull)
#define ARENA_SIZE (6ull << 30)
struct blk { u64 size; u64 cls; };
static char *arena, *arena_top;
static u64 rs_heap; /* nonzero: addresses differ from run to run, in value and in relative order */
static u64 splitmix(u64 *);
static struct blk *freel[80];
static volatile int alock;
static __thread struct thr *self __attribute__((tls_model("initial-exec")));
static void fatal(int st, int code) __attribute__((noreturn));
static int fault_check(int op, const char *path, int *act, long *arg);
static void point(int kind);

static void lock_(void) { while (__atomic_exchange_n(&alock, 1, __ATOMIC_ACQUIRE)) {} }
static void unlock_(void) { __atomic_store_n(&alock, 0, __ATOMIC_RELEASE); }
static int cls_of(size_t n, size_t *sz) {
  /* 16-byte classes to 512, then 4 per power of two */
  if (n < 16) n = 16;
  if (n <= 512) { size_t k = (n + 15) / 16; *sz = k * 16; return (int)k; }
  int c = 33;
  size_t b = 512;
  while (b * 2 < n) { b *= 2; c += 1; }
  *sz = b * 2;
  return c;
}
/* Memory the C library takes for itself (thread start-up, program start-up) comes from elsewhere: when it
 * is taken and given back depends on real time, and must not move the program's own addresses. */
static void *side_alloc(size_t n, size_t align) {
  static char *cur, *end;
  size_t need = n + align + 64;
  lock_();
  if (cur + need > end) {
    size_t c = need > (8u << 20) ? need : (8u << 20);
    cur = (char *)raw6(SYS_mmap, 0, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    end = cur + c;
  }
  char *p = (char *)(((unsigned long)cur + sizeof(struct blk) + align - 1) & ~(align - 1));
  cur = p + n;
  unlock_();
  struct blk *b = (struct blk *)p - 1;
  b->size = n;
  b->cls = 78;
  return p;
}
static void *arena_alloc(size_t n, size_t align) {
  size_t sz;
  int c = cls_of(n, &sz);
  if (!active || !self) return side_alloc(n, align < 16 ? 16 : align);
  lock_();
  if (!arena) {
    void *p = (void *)raw6(SYS_mmap, (long)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if ((unsigned long)p > (unsigned long)-4096L) { unlock_(); RAW(SYS_exit_group, 99, 0, 0); }
    arena = arena_top = p;
    if (rs_heap) arena_top += 16 * (splitmix(&rs_heap) % 65536);
  }
  struct blk *b = NULL;
  if (rs_heap && !(splitmix(&rs_heap) & 7)) arena_top += 16 * (splitmix(&rs_heap) % 64);
  if (align <= 16 && freel[c] && !(rs_heap && (splitmix(&rs_heap) & 3) == 0)) {
    b = freel[c];
    freel[c] = *(struct blk **)(b + 1);
  } else {
    char *p = arena_top + sizeof(struct blk);
    if (align > 16) p = (char *)(((unsigned long)p + align - 1) & ~(align - 1));
    if (p + sz > ARENA_BASE + ARENA_SIZE) { unlock_(); return NULL; }
    b = (struct blk *)p - 1;
    arena_top = p + sz;
    b->cls = align > 16 ? 79 : (u64)c;
  }
  b->size = n;
  unlock_();
  H->live_bytes += n;
  H->live_allocs++;
  if (H->live_bytes > H->peak_bytes) H->peak_bytes = H->live_bytes;
  return b + 1;
}
static size_t cap_of(struct blk *b) {
  size_t sz;
  if (b->cls >= 78) return b->size;
  cls_of(b->size, &sz);
  return sz;
}
static void arena_free(void *p) {
  if (!p) return;
  struct blk *b = (struct blk *)p - 1;
  if (b->cls == 78) return;
  H->live_bytes -= b->size;
  H->live_allocs--;
  if (!self || b->cls == 79) return; /* outside the baton: keep addresses deterministic */
  lock_();
  *(struct blk **)(b + 1) = freel[b->cls];
  freel[b->cls] = b;
  unlock_();
}
static int alloc_fault(size_t n) {
  int act;
  long arg;
  if (!active || !self) return 0;
  if (fault_check(OP_ALLOC, NULL, &act, &arg)) return 1;
  if (H->live_bytes + n > maxmem) return 1;
  return 0;
}
EXPORT void *malloc(size_t n) {
  if (!H) H = &dummy_hdr;
  if (active && self) { point(1); if (alloc_fault(n)) { errno = ENOMEM; return NULL; } }
  return arena_alloc(n, 16);
}
EXPORT void free(void *p) {
  if (!H) H = &dummy_hdr;
  if (active && self) point(2);
  arena_free(p);
}
EXPORT void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
  void *p = malloc(n);
  if (p) memset(p, 0, n);
  return p;
}
EXPORT void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (active && self) { point(1); if (alloc_fault(n)) { errno = ENOMEM; return NULL; } }
  struct blk *b = (struct blk *)p - 1;
  size_t sz;
  if (b->cls < 78 && cls_of(n, &sz) == (int)b->cls) {
    H->live_bytes += n - b->size;
    b->size = n;
    return p;
  }
  size_t old = b->size;
  void *q = arena_alloc(n, 16);
  if (!q) { errno = ENOMEM; return NULL; }
  memcpy(q, p, old < n ? old : n);
  arena_free(p);
  return q;
}
EXPORT int posix_memalign(void **out, size_t al, size_t n) {
  if (active && self) { point(1); if (alloc_fault(n)) return ENOMEM; }
  void *p = arena_alloc(n, al < 16 ? 16 : al);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
EXPORT void *aligned_alloc(size_t al, size_t n) {
  void *p = NULL;
  int e = posix_memalign(&p, al, n);
  if (e) errno = e;
  return p;
}
EXPORT void *memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
EXPORT size_t malloc_usable_size(void *p) { return p ? cap_of((struct blk *)p - 1) : 0; }

/* simulator-private memory: never accounted, never faulted */
static void *priv_alloc(size_t n) {
  static char *cur, *end;
  n = (n + 15) & ~15ull;
  if (cur + n > end) {
    size_t c = n > (4u << 20) ? n : (4u << 20);
    cur = (char *)raw6(SYS_mmap, 0, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    end = cur + c;
  }
  char *p = cur;
  cur += n;
  return p;
}
static char *pstrdup(const char *s) {
  size_t n = strlen(s) + 1;
  return memcpy(priv_alloc(n), s, n);
}

/* ------------------------------------------------------------------ threads */
enum { T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
struct thr {
  int id, state, round, timedout, spur;
  volatile u32 go;
  u64 prio, deadline; /* deadline 0: none */
  u32 *addr;
  u32 bits;
  struct thr *join;
  void *(*fn)(void *);
  void *arg, *ret;
  pthread_t pt;
};
#define MAXT 128
static struct thr thr[MAXT];
static int nthr;
static pthread_key_t tkey;
static u64 next_stop = ~0ull, next_preempt = ~0ull;
static u64 pct_change[64];
static int npct, pct_i;
static u64 pct_low = 1000;

static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static int (*real_pthread_setspecific)(pthread_key_t, const void *);

static u64 now_ns(void) { return H->ticks * 5 + clock_off; }

static void fatal(int st, int code) {
  H->status = st;
  H->clock_ns = now_ns();
  RAW(SYS_exit_group, code, 0, 0);
  for (;;) {}
}
static void set_stop(void) {
  next_stop = maxticks;
  if (nthr > 1 && next_preempt < next_stop) next_stop = next_preempt;
}
static void plan_preempt(void) {
  next_preempt = ~0ull;
  if (use_forced) {
    while (forced_i < nforced && forced_tick[forced_i] < H->ticks) forced_i++;
    for (int i = forced_i; i < nforced && i < forced_i + 4; i++)
      if (forced_kind[i] == 7 && forced_tick[i] > H->ticks) { next_preempt = forced_tick[i]; break; }
    if (next_preempt == ~0ull && forced_i + 4 < nforced) next_preempt = forced_tick[forced_i + 3] + 1;
  } else if (policy == 1) {
    next_preempt = H->ticks + 1 + rnd(&rs_sched, pol_mean * 2);
  } else if (policy == 2) {
    if (pct_i < npct) next_preempt = pct_change[pct_i] > H->ticks ? pct_change[pct_i] : H->ticks + 1;
  }
  set_stop();
}
static void wait_go(struct thr *t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) raw6(SYS_futex, (long)&t->go, 0 | 128, 0, 0, 0, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}
static void give(struct thr *t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&t->go, 1 | 128, 1, 0, 0, 0);
}
static void record(struct thr *t, int kind) {
  if (H->ndec < DEC_CAP) A_dec[H->ndec++] = (H->ticks << 16) | ((u64)kind << 8) | (u64)t->id;
  /* a run of many switches goes on with fewer: work is bounded in real time as well */
  if (++H->switches % 200000 == 0 && pol_mean < (1u << 30)) pol_mean *= 4;
  H->sched_hash = (H->sched_hash ^ ((u64)t->id * 31 + kind + 1)) * 0x100000001b3ull;
}
/* choose who runs next; never returns NULL unless deadlocked */
static int forced_want(int kind) { /* the recorded decision for this very point, or -1 */
  while (forced_i < nforced && forced_tick[forced_i] < H->ticks) forced_i++;
  if (forced_i < nforced && forced_tick[forced_i] == H->ticks && forced_kind[forced_i] == kind) return forced_tid[forced_i++];
  return -1;
}
static struct thr *choose(int kind) {
  for (;;) {
    int run[MAXT], n = 0;
    for (int i = 0; i < nthr; i++)
      if (thr[i].state == T_RUN) run[n++] = i;
    if (n) {
      if (use_forced) {
        int want = forced_want(kind);
        for (int i = 0; i < n; i++)
          if (run[i] == want) return &thr[want];
        if (self && self->state == T_RUN) return self;
        return &thr[run[0]];
      }
      if (policy == 2) {
        int b = run[0];
        for (int i = 1; i < n; i++)
          if (thr[run[i]].prio > thr[b].prio) b = run[i];
        return &thr[b];
      }
      if (policy == 0) {
        if (self && self->state == T_RUN) return self;
        return &thr[run[0]];
      }
      return &thr[run[rnd(&rs_sched, n)]];
    }
    /* nothing runnable: jump the clock to the next timer */
    struct thr *best = NULL;
    for (int i = 0; i < nthr; i++)
      if ((thr[i].state == T_FUTEX || thr[i].state == T_SLEEP) && thr[i].deadline &&
          (!best || thr[i].deadline < best->deadline))
        best = &thr[i];
    if (!best) return NULL;
    if (best->deadline > now_ns()) clock_off += best->deadline - now_ns();
    best->timedout = 1;
    best->state = T_RUN;
    best->deadline = 0;
  }
}
static void switch_to(struct thr *t, int kind) {
  if (!t) fatal(ST_DEADLOCK, 97);
  struct thr *me = self;
  if (t == me) {
    if (kind == 6) record(t, kind);
    plan_preempt();
    return;
  }
  record(t, kind);
  plan_preempt();
  give(t);
  wait_go(me);
}
static void resched(int kind) { switch_to(choose(kind), kind); }
/* the current thread blocks (state already set) */
static void block(int kind) { resched(kind); }

static void slow_stop(void) {
  if (H->ticks >= maxticks) fatal(ST_HANG, 98);
  if (H->ticks >= next_preempt) {
    if (policy == 2 && !use_forced && pct_i < npct) {
      pct_i++;
      self->prio = pct_low--;
    }
    int e = errno;
    struct thr *t = choose(7);
    if (t && t != self) H->preemptions++;
    switch_to(t, 7);
    errno = e;
  }
  set_stop();
}
static inline void tick(void) {
  if (__builtin_expect(!self || !active, 0)) return;
  if (__builtin_expect(++H->ticks >= next_stop, 0)) slow_stop();
}
/* an explicit scheduling point (allocation, intercepted call) */
static void point(int kind) {
  if (!self || !active) return;
  tick();
  if (nthr > 1 && (use_forced || ((policy == 3 || (policy == 4 && kind > 2)) && rnd(&rs_sched, pol_mean) == 0))) {
    int e = errno;
    struct thr *t = choose(kind);
    if (t && t != self) H->preemptions++;
    switch_to(t, kind);
    errno = e;
  }
}

static void thread_done(void *p) {
  struct thr *t = p;
  if (t->round++ < 2) {
    real_pthread_setspecific(tkey, t);
    return;
  }
  t->state = T_DONE;
  for (int i = 0; i < nthr; i++)
    if (thr[i].state == T_JOIN && thr[i].join == t) thr[i].state = T_RUN;
  struct thr *n = choose(5);
  if (!n) fatal(ST_DEADLOCK, 97);
  record(n, 5);
  plan_preempt();
  self = NULL;
  give(n);
}
static void *tramp(void *p) {
  struct thr *t = p;
  wait_go(t);
  self = t;
  real_pthread_setspecific(tkey, t);
  return t->ret = t->fn(t->arg);
}
EXPORT int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!active || !self) return real_pthread_create(out, at, fn, arg);
  int act;
  long a;
  point(3);
  H->op_count[OP_THREAD]++;
  if (fault_check(OP_THREAD, NULL, &act, &a)) return (int)(act == 0 ? a : EAGAIN);
  if (nthr >= MAXT) return EAGAIN;
  struct thr *t = &thr[nthr];
  memset(t, 0, sizeof *t);
  t->id = nthr;
  t->fn = fn;
  t->arg = arg;
  t->state = T_RUN;
  t->prio = 2000 + rnd(&rs_sched, 1000000);
  int was = active;
  active = 0; /* libc's own allocations for the thread are not scheduling points */
  int r = real_pthread_create(&t->pt, at, tramp, t);
  active = was;
  if (r) return r;
  *out = t->pt;
  nthr++;
  H->nthreads = nthr;
  plan_preempt();
  if (use_forced || policy) resched(12);
  return 0;
}
EXPORT int pthread_join(pthread_t pt, void **ret) {
  if (active && self) {
    struct thr *t = NULL;
    for (int i = 0; i < nthr; i++)
      if (i && pthread_equal(thr[i].pt, pt)) t = &thr[i];
    if (t && t->state != T_DONE) {
      self->state = T_JOIN;
      self->join = t;
      block(21);
    }
  }
  return real_pthread_join(pt, ret);
}
EXPORT int sched_yield(void) {
  if (active && self) {
    tick();
    if (use_forced || policy == 0) {
      /* deterministic round robin so that spinning makes progress */
      if (use_forced) {
        int want = forced_want(6);
        if (want >= 0 && want < nthr && thr[want].state == T_RUN) { switch_to(&thr[want], 6); return 0; }
      }
      for (int k = 1; k <= nthr; k++) {
        struct thr *t = &thr[(self->id + k) % nthr];
        if (t->state == T_RUN) { switch_to(t, 6); return 0; }
      }
      return 0;
    }
    if (policy == 2) self->prio = pct_low--; /* a yielding thread must not starve the others */
    if (nthr > 1) resched(6);
  }
  return 0;
}
static int sleep_until(u64 when) {
  if (!active || !self) return 0;
  self->state = T_SLEEP;
  self->deadline = when ? when : 1;
  self->timedout = 0;
  block(22);
  return 0;
}
EXPORT int nanosleep(const struct timespec *r, struct timespec *rem) {
  (void)rem;
  return sleep_until(now_ns() + (u64)r->tv_sec * 1000000000ull + r->tv_nsec);
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
  (void)rem;
  u64 v = (u64)r->tv_sec * 1000000000ull + r->tv_nsec;
  if (fl & TIMER_ABSTIME) { if (c == CLOCK_REALTIME) v -= clock_base; return sleep_until(v); }
  return sleep_until(now_ns() + v);
}
EXPORT int usleep(useconds_t us) { return sleep_until(now_ns() + (u64)us * 1000); }

static long sim_futex(u32 *addr, int opf, u32 val, const struct timespec *ts, u32 bits) {
  int op = opf & 0x7f;
  point(9);
  H->op_count[OP_FUTEX]++;
  if (op == 0 || op == 9) {
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    if (spurious_pm && rnd(&rs_wake, 1000) < spurious_pm) { H->spurious++; return 0; }
    self->state = T_FUTEX;
    self->addr = addr;
    self->bits = op == 9 ? bits : ~0u;
    self->timedout = 0;
    self->deadline = 0;
    if (ts) {
      u64 v = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
      if (op == 0) v += now_ns();
      else if (opf & 256) v = v > clock_base ? v - clock_base : 1;
      self->deadline = v ? v : 1;
    }
    block(20);
    if (self->timedout) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (op == 1 || op == 10) {
    long woken = 0;
    while ((u32)woken < val) {
      int c[MAXT], n = 0;
      for (int i = 0; i < nthr; i++)
        if (thr[i].state == T_FUTEX && thr[i].addr == addr && (op == 1 || (thr[i].bits & bits))) c[n++] = i;
      if (!n) break;
      struct thr *t = &thr[c[rnd(&rs_wake, n)]];
      t->state = T_RUN;
      t->deadline = 0;
      woken++;
    }
    if (woken && (policy || use_forced)) resched(10);
    return woken;
  }
  errno = ENOSYS;
  return -1;
}

/* ------------------------------------------------------------------ faults */
static void apply_mut(struct mutn *m);
static void muts_at(int op, const char *path, int after) {
  for (int i = 0; i < nmuts; i++) {
    struct mutn *m = &muts[i];
    if (m->op != op || m->done) continue;
    if (m->path && (!path || strcmp(m->path, path))) continue;
    if (!after) m->seen++;
    if (m->seen >= m->nth && m->after == after && (m->seen - m->nth) % (flap ? flap : 1) == 0) {
      m->done = !flap || m->kind != 1;
      H->muts++;
      apply_mut(m);
    }
  }
}
static int fault_check(int op, const char *path, int *act, long *arg) {
  for (int i = 0; i < nfaults; i++) {
    struct fault *f = &faults[i];
    if (f->op != op) continue;
    if (f->path && (!path || strcmp(f->path, path))) continue;
    f->seen++;
    if (f->seen >= f->from && f->seen <= f->to && (!flap || f->to - f->from < 20 || (f->seen - f->from) % flap == 0)) {
      *act = f->act;
      *arg = f->arg;
      H->fired[op]++;
      H->fired_total++;
      H->fault_fired[i]++;
      return 1;
    }
  }
  return 0;
}
static void logev(int op, const char *path, long ret, int err, const char *extra) {
  char b[2 * PATH_MAX + 160], *p = b;
  H->events++;
  p = fmt_u(p, self ? (u64)self->id : 999);
  *p++ = ' ';
  strcpy(p, op_name[op]);
  p += strlen(p);
  *p++ = ' ';
  if (path) {
    size_t n = strlen(path);
    if (n > PATH_MAX) n = PATH_MAX;
    memcpy(p, path, n);
    p += n;
  } else
    *p++ = '-';
  *p++ = ' ';
  if (ret < 0) { *p++ = '!'; p = fmt_u(p, (u64)err); }
  else p = fmt_u(p, (u64)ret);
  if (extra) { *p++ = ' '; size_t n = strnlen(extra, PATH_MAX); memcpy(p, extra, n); p += n; }
  *p++ = '\n';
  log_raw(b, p - b);
}

/* ------------------------------------------------------------------ virtual filesystem */
enum { N_FILE = 1, N_DIR, N_LINK, N_NULL, N_URANDOM };
struct ino {
  int type;
  u32 mode;
  u64 no;
  char *data; /* file content, or link target */
  size_t len, cap;
};
struct ent { char *path; struct ino *i; u64 ph; };
static struct ent *ents;
static int nents, cents;
static u64 next_ino = 100;
static u64 hpath(const char *s) {
  u64 h = 1469598103934665603ull;
  while (*s) h = (h ^ (u8)*s++) * 1099511628211ull;
  return h;
}
static struct ent *ent_find(const char *p) {
  u64 h = hpath(p);
  for (int i = 0; i < nents; i++)
    if (ents[i].i && ents[i].ph == h && !strcmp(ents[i].path, p)) return &ents[i];
  return NULL;
}
static struct ino *mkino(int type, u32 mode, const char *d, size_t n) {
  struct ino *i = priv_alloc(sizeof *i);
  i->type = type;
  i->mode = mode;
  i->no = next_ino++;
  i->data = priv_alloc(n + 1);
  memcpy(i->data, d ? d : "", n);
  i->data[n] = 0;
  i->len = n;
  i->cap = n;
  return i;
}
static void ent_set(const char *p, struct ino *i) {
  struct ent *e = ent_find(p);
  if (e) { e->i = i; return; }
  if (nents == cents) {
    int c = cents ? cents * 2 : 256;
    struct ent *n = priv_alloc(sizeof(struct ent) * c);
    if (nents) memcpy(n, ents, sizeof(struct ent) * nents);
    ents = n;
    cents = c;
  }
  ents[nents].path = pstrdup(p);
  ents[nents].ph = hpath(p);
  ents[nents].i = i;
  nents++;
}
static void mkparents(const char *p) {
  char b[PATH_MAX];
  strncpy(b, p, PATH_MAX - 1);
  b[PATH_MAX - 1] = 0;
  if (!ent_find("/")) ent_set("/", mkino(N_DIR, 0755, NULL, 0));
  for (char *s = b + 1; *s; s++)
    if (*s == '/') {
      *s = 0;
      if (!ent_find(b)) ent_set(b, mkino(N_DIR, 0755, NULL, 0));
      *s = '/';
    }
}
static void apply_mut(struct mutn *m) {
  struct ent *e = ent_find(m->target);
  switch (m->kind) {
  case 0: mkparents(m->target); ent_set(m->target, mkino(N_FILE, 0644, m->data, m->len)); break;
  case 1:
    if (e && e->i->type == N_FILE) {
      if (m->again && e->i->data == m->again) {
        /* a file that keeps changing */
        e->i->len = e->i->len == m->len ? m->len / 2 : m->len;
        break;
      }
      char *d = priv_alloc(m->len + 1);
      memcpy(d, m->data, m->len);
      e->i->data = m->again = d;
      e->i->len = e->i->cap = m->len;
    }
    break;
  case 2: {
    size_t n = strlen(m->target);
    for (int i = 0; i < nents; i++)
      if (ents[i].i && !strncmp(ents[i].path, m->target, n) && (ents[i].path[n] == 0 || ents[i].path[n] == '/'))
        ents[i].i = NULL;
    /* compact so that listing order stays defined */
    int k = 0;
    for (int i = 0; i < nents; i++)
      if (ents[i].i) ents[k++] = ents[i];
    nents = k;
    break;
  }
  case 3: mkparents(m->target); ent_set(m->target, mkino(N_LINK, 0777, m->data, m->len)); break;
  case 4: if (e) e->i->mode = (u32)m->mode; break;
  case 5: mkparents(m->target); ent_set(m->target, mkino(N_DIR, 0755, NULL, 0)); break;
  }
  char b[64], *p = b;
  strcpy(p, "mut kind=");
  p += strlen(p);
  p = fmt_u(p, m->kind);
  *p = 0;
  logev(OP_PHASE, m->target, 0, 0, b);
}
/* Resolve `path` to a canonical absolute path; *ino set when it exists. Returns 0 or errno. */
static int resolve_at(const char *base, const char *path, int follow, char *out, struct ino **ino) {
  char todo[PATH_MAX * 2], cur[PATH_MAX];
  int hops = 0;
  *ino = NULL;
  out[0] = 0;
  if (!path[0]) return ENOENT;
  if (strlen(path) >= PATH_MAX) return ENAMETOOLONG;
  if (path[0] == '/') { strcpy(cur, ""); strcpy(todo, path); }
  else {
    strcpy(cur, strcmp(base, "/") ? base : "");
    strcpy(todo, path);
  }
  int wantdir = path[strlen(path) - 1] == '/';
  char *s = todo;
  struct ino *ci = NULL;
  for (;;) {
    while (*s == '/') s++;
    struct ent *ce = ent_find(cur[0] ? cur : "/");
    ci = ce ? ce->i : NULL;
    if (!*s) break;
    char *e = strchr(s, '/');
    size_t n = e ? (size_t)(e - s) : strlen(s);
    if (n > 255) return ENAMETOOLONG;
    if (!ci) return ENOENT;
    if (ci->type != N_DIR) return ENOTDIR;
    if (!(ci->mode & 0100)) { strcpy(out, cur); return EACCES; }
    if (n == 1 && s[0] == '.') { s += 1; continue; }
    if (n == 2 && s[0] == '.' && s[1] == '.') {
      char *l = strrchr(cur, '/');
      if (l) *l = 0;
      s += 2;
      continue;
    }
    char nx[PATH_MAX];
    size_t cl = strlen(cur);
    if (cl + n + 2 > PATH_MAX) return ENAMETOOLONG;
    memcpy(nx, cur, cl);
    nx[cl] = '/';
    memcpy(nx + cl + 1, s, n);
    nx[cl + 1 + n] = 0;
    s += n;
    int last = 1;
    for (char *q = s; *q; q++) if (*q != '/') last = 0;
    struct ent *ne = ent_find(nx);
    if (!ne) {
      strcpy(out, nx);
      return ENOENT;
    }
    if (ne->i->type == N_LINK && (!last || follow)) {
      if (++hops > 40) { strcpy(out, nx); return ELOOP; }
      char rest[PATH_MAX * 2];
      if (ne->i->len + strlen(s) + 2 >= PATH_MAX) return ENAMETOOLONG;
      strcpy(rest, ne->i->data);
      strcat(rest, s);
      strcpy(todo, rest);
      s = todo;
      if (ne->i->data[0] == '/') cur[0] = 0;
      continue;
    }
    strcpy(cur, nx);
    if (last) {
      strcpy(out, cur);
      *ino = ne->i;
      if (wantdir && ne->i->type != N_DIR) return ENOTDIR;
      return 0;
    }
  }
  strcpy(out, cur[0] ? cur : "/");
  *ino = ci;
  return ci ? 0 : ENOENT;
}
static int resolve(const char *path, int follow, char *out, struct ino **ino) {
  int r = resolve_at(cwd, path, follow, out, ino);
  if (r && !out[0]) { strncpy(out, path, PATH_MAX - 1); out[PATH_MAX - 1] = 0; }
  return r;
}

/* ------------------------------------------------------------------ descriptors */
#define MAXFD 1024
struct vfd { int used, kind; struct ino *i; u64 pos; char *path; int flags; };
enum { K_STDIN = 1, K_STDOUT, K_STDERR, K_FILE };
static struct vfd fds[MAXFD];
static u64 maxfds = MAXFD;
static int fd_new(struct ino *i, const char *path, int flags) {
  for (u64 k = 3; k < maxfds; k++)
    if (!fds[k].used) {
      fds[k] = (struct vfd){1, K_FILE, i, 0, pstrdup(path), flags};
      H->open_fds++;
      if (H->open_fds > H->maxfds) H->maxfds = H->open_fds;
      return (int)k;
    }
  errno = EMFILE;
  return -1;
}
static struct vfd *fd_get(int fd) {
  if (fd < 0 || fd >= MAXFD || !fds[fd].used) { errno = EBADF; return NULL; }
  return &fds[fd];
}
static void mutating(const char *what, const char *path) {
  H->mutating++;
  char b[64];
  strcpy(b, "MUTATE ");
  strncat(b, what, 40);
  logev(OP_PHASE, path, 0, 0, b);
}
/* common pre-call: scheduling point, counting, fault lookup. 1: fail with errno set; 2: other act */
static int pre(int op, const char *path, int *act, long *arg) {
  point(11);
  H->op_count[op]++;
  muts_at(op, path, 0);
  if (fault_check(op, path, act, arg)) {
    if (*act == 0) {
      errno = (int)*arg;
      logev(op, path, -1, (int)*arg, "FAULT");
      return 1;
    }
    if (*act == 2) { clock_off += (u64)*arg; H->delays++; return 0; }
    return 2;
  }
  return 0;
}
static int sim_open_at(const char *base, const char *path, int flags, mode_t mode) {
  char rp[PATH_MAX];
  struct ino *i;
  int act;
  long arg;
  int r = resolve_at(base, path, !(flags & O_NOFOLLOW), rp, &i);
  if (r && !rp[0]) { strncpy(rp, path, PATH_MAX - 1); rp[PATH_MAX - 1] = 0; }
  if (pre(OP_OPEN, rp, &act, &arg) == 1) return -1;
  r = resolve_at(base, path, !(flags & O_NOFOLLOW), rp, &i); /* the world may have changed */
  if (r && !rp[0]) { strncpy(rp, path, PATH_MAX - 1); rp[PATH_MAX - 1] = 0; }
  if (eintr_pm && rnd(&rs_io, 1000) < eintr_pm) { H->eintrs++; errno = EINTR; logev(OP_OPEN, rp, -1, EINTR, NULL); return -1; }
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC | O_APPEND));
  if ((flags & O_TMPFILE) == O_TMPFILE) { mutating("tmpfile", path); errno = EROFS; return -1; }
  if (wr && !(i && i->type == N_NULL)) {
    mutating("open", rp);
    if (r == ENOENT && (flags & O_CREAT)) {
      i = mkino(N_FILE, mode & 0777, NULL, 0);
      ent_set(rp, i);
      r = 0;
    } else if (!r && (flags & O_TRUNC) && i->type == N_FILE) { i->len = 0; }
  }
  if (!r && i->type == N_LINK) r = ELOOP;
  if (!r && !(i->mode & 0400)) r = EACCES;
  if (!r && (flags & O_DIRECTORY) && i->type != N_DIR) r = ENOTDIR;
  if (r) { errno = r; logev(OP_OPEN, rp, -1, r, path); return -1; }
  int fd = fd_new(i, rp, flags);
  char b[40] = "ino=";
  *fmt_u(b + 4, i->no) = 0;
  int e = errno;
  logev(OP_OPEN, rp, fd, e, b);
  muts_at(OP_OPEN, rp, 1);
  errno = e;
  return fd;
}
static const char *dirfd_base(int dfd) {
  if (dfd == AT_FDCWD) return cwd;
  struct vfd *f = fd_get(dfd);
  return f && f->path ? f->path : NULL;
}
EXPORT int open64(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); mode_t m = (fl & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap);
  return sim_open_at(cwd, p, fl, m);
}
EXPORT int open(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); mode_t m = (fl & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap);
  return sim_open_at(cwd, p, fl, m);
}
EXPORT int openat64(int d, const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); mode_t m = (fl & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap);
  const char *b = p[0] == '/' ? "/" : dirfd_base(d);
  if (!b) return -1;
  return sim_open_at(b, p, fl, m);
}
EXPORT int openat(int d, const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); mode_t m = (fl & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap);
  const char *b = p[0] == '/' ? "/" : dirfd_base(d);
  if (!b) return -1;
  return sim_open_at(b, p, fl, m);
}
EXPORT int creat(const char *p, mode_t m) { return sim_open_at(cwd, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t read_stdin(void *buf, size_t n) {
  int act;
  long arg;
  char b[64], *p = b;
  strcpy(p, "out=");
  p = fmt_u(p + 4, H->stdout_len);
  strcpy(p, " live=");
  p = fmt_u(p + 6, H->live_bytes);
  *p = 0;
  int r = pre(OP_STDIN, NULL, &act, &arg);
  if (r == 1) return -1;
  if (eintr_pm && rnd(&rs_io, 1000) < eintr_pm) { H->eintrs++; errno = EINTR; return -1; }
  size_t m = n;
  if (r == 2 && act == 1 && arg > 0 && m > (size_t)arg) m = (size_t)arg;
  if (r == 2 && act == 3) m = 0;
  if (stdin_cleft == 0) {
    if (stdin_ci < nstdin_chunk) stdin_cleft = stdin_chunk[stdin_ci++];
    else stdin_cleft = SIZE_MAX;
  }
  if (m > stdin_cleft) { m = stdin_cleft; H->chunked++; }
  if (m > stdin_len - stdin_pos) m = stdin_len - stdin_pos;
  memcpy(buf, stdin_data + stdin_pos, m);
  stdin_pos += m;
  if (stdin_cleft != SIZE_MAX) stdin_cleft -= m;
  H->stdin_pos = stdin_pos;
  logev(OP_STDIN, NULL, (long)m, 0, b);
  return (ssize_t)m;
}
static ssize_t read_file(struct vfd *f, void *buf, size_t n, u64 pos, int advance) {
  int act;
  long arg;
  if (f->i->type == N_DIR) { point(11); errno = EISDIR; logev(OP_READ, f->path, -1, EISDIR, NULL); return -1; }
  if (f->i->type == N_NULL) return 0;
  if (f->i->type == N_URANDOM) {
    for (size_t k = 0; k < n; k++) ((u8 *)buf)[k] = (u8)splitmix(&rs_ent);
    return (ssize_t)n;
  }
  int r = pre(OP_READ, f->path, &act, &arg);
  if (r == 1) return -1;
  if (eintr_pm && rnd(&rs_io, 1000) < eintr_pm) { H->eintrs++; errno = EINTR; return -1; }
  size_t m = n;
  size_t left = pos < f->i->len ? f->i->len - pos : 0;
  if (m > left) m = left;
  if (r == 2 && act == 1 && arg > 0 && m > (size_t)arg) m = (size_t)arg;
  if (r == 2 && act == 3) m = 0;
  if (chunk_max && m > 1) {
    size_t c = 1 + rnd(&rs_io, chunk_max);
    if (c < m) { m = c; H->chunked++; }
  }
  memcpy(buf, f->i->data + pos, m);
  if (advance) f->pos = pos + m;
  logev(OP_READ, f->path, (long)m, 0, NULL);
  muts_at(OP_READ, f->path, 1);
  return (ssize_t)m;
}
static ssize_t write_out(int which, const void *buf, size_t n) {
  int op = which == K_STDOUT ? OP_STDOUT : OP_STDERR;
  int act;
  long arg;
  int r = pre(op, NULL, &act, &arg);
  if (r == 1) return -1;
  if (eintr_pm && rnd(&rs_io, 1000) < eintr_pm) { H->eintrs++; errno = EINTR; return -1; }
  size_t m = n;
  if (r == 2 && act == 1 && arg >= 0 && m > (size_t)arg) m = (size_t)arg;
  if (r == 2 && act == 3) m = 0;
  u64 *len = which == K_STDOUT ? &H->stdout_len : &H->stderr_len;
  size_t cap = which == K_STDOUT ? OUT_CAP : ERR_CAP;
  char *d = which == K_STDOUT ? A_out : A_err;
  if (*len + m <= cap) { memcpy(d + *len, buf, m); *len += m; }
  logev(op, NULL, (long)m, 0, NULL);
  return (ssize_t)m;
}
static ssize_t write_file(struct vfd *f, const void *buf, size_t n) {
  if (f->i->type == N_NULL) return (ssize_t)n;
  if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  mutating("write", f->path);
  if (f->flags & O_APPEND) f->pos = f->i->len;
  size_t need = f->pos + n;
  if (need > f->i->cap) {
    char *d = priv_alloc(need * 2 + 1);
    memcpy(d, f->i->data, f->i->len);
    f->i->data = d;
    f->i->cap = need * 2;
  }
  memcpy(f->i->data + f->pos, buf, n);
  f->pos += n;
  if (f->pos > f->i->len) f->i->len = f->pos;
  return (ssize_t)n;
}
EXPORT ssize_t read(int fd, void *buf, size_t n) {
  struct vfd *f = fd_get(fd);
  if (!f) return -1;
  if (f->kind == K_STDIN) return read_stdin(buf, n);
  if (f->kind != K_FILE) { errno = EBADF; return -1; }
  return read_file(f, buf, n, f->pos, 1);
}
EXPORT ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
  struct vfd *f = fd_get(fd);
  if (!f) return -1;
  if (f->kind != K_FILE) { errno = ESPIPE; return -1; }
  return read_file(f, buf, n, (u64)off, 0);
}
EXPORT ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
EXPORT ssize_t write(int fd, const void *buf, size_t n) {
  struct vfd *f = fd_get(fd);
  if (!f) return -1;
  if (f->kind == K_STDOUT || f->kind == K_STDERR) return write_out(f->kind, buf, n);
  if (f->kind == K_STDIN) { errno = EBADF; return -1; }
  return write_file(f, buf, n);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  ssize_t tot = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return tot ? tot : r;
    tot += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return tot;
}
EXPORT ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
  struct vfd *f = fd_get(fd);
  if (!f) return -1;
  if (f->kind == K_FILE) { f->pos = (u64)off; return write_file(f, buf, n); }
  errno = ESPIPE;
  return -1;
}
EXPORT int close(int fd) {
  struct vfd *f = fd_get(fd);
  if (!f) { H->bad_close++; return -1; }
  int act;
  long arg;
  int kind = f->kind;
  const char *p = f->path;
  int r = kind == K_FILE ? pre(OP_CLOSE, p, &act, &arg) : 0;
  f->used = 0; /* Linux releases the descriptor whatever close() returns */
  if (kind == K_FILE) H->open_fds--;
  if (r == 1) return -1;
  logev(OP_CLOSE, p, 0, 0, NULL);
  return 0;
}
EXPORT off64_t lseek64(int fd, off64_t off, int wh) {
  struct vfd *f = fd_get(fd);
  if (!f) return -1;
  if (f->kind != K_FILE) { errno = ESPIPE; return -1; }
  int act;
  long arg;
  if (pre(OP_SEEK, f->path, &act, &arg) == 1) return -1;
  off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)f->pos : (off64_t)f->i->len;
  if (b + off < 0) { errno = EINVAL; return -1; }
  f->pos = (u64)(b + off);
  return b + off;
}
EXPORT off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }

static void fill_stat(struct stat64 *st, struct ino *i) {
  memset(st, 0, sizeof *st);
  st->st_dev = 7;
  st->st_ino = i->no;
  st->st_nlink = 1;
  st->st_uid = st->st_gid = 1000;
  st->st_blksize = 4096;
  switch (i->type) {
  case N_FILE: st->st_mode = S_IFREG | i->mode; st->st_size = (off64_t)i->len; break;
  case N_DIR: st->st_mode = S_IFDIR | i->mode; st->st_size = 4096; break;
  case N_LINK: st->st_mode = S_IFLNK | 0777; st->st_size = (off64_t)i->len; break;
  default: st->st_mode = S_IFCHR | 0666;
  }
  st->st_blocks = (st->st_size + 511) / 512;
  st->st_mtim.tv_sec = st->st_ctim.tv_sec = st->st_atim.tv_sec = (time_t)(clock_base0 / 1000000000ull) - 100000 + (time_t)(i->no % 50000);
}
static int stat_at(const char *base, const char *p, int follow, struct stat64 *st) {
  char rp[PATH_MAX];
  struct ino *i;
  int act;
  long arg;
  int r = resolve_at(base, p, follow, rp, &i);
  if (r && !rp[0]) { strncpy(rp, p, PATH_MAX - 1); rp[PATH_MAX - 1] = 0; }
  if (pre(OP_STAT, rp, &act, &arg) == 1) return -1;
  r = resolve_at(base, p, follow, rp, &i);
  if (r && !rp[0]) { strncpy(rp, p, PATH_MAX - 1); rp[PATH_MAX - 1] = 0; }
  if (r) { errno = r; logev(OP_STAT, rp, -1, r, p); return -1; }
  fill_stat(st, i);
  logev(OP_STAT, rp, i->type, 0, NULL);
  muts_at(OP_STAT, rp, 1);
  return 0;
}
static int fstat_(int fd, struct stat64 *st) {
  struct vfd *f = fd_get(fd);
  if (!f) return -1;
  if (f->kind != K_FILE) {
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFIFO | 0600;
    return 0;
  }
  int act;
  long arg;
  if (pre(OP_STAT, f->path, &act, &arg) == 1) return -1;
  fill_stat(st, f->i);
  return 0;
}
EXPORT int stat64(const char *p, struct stat64 *st) { return stat_at(cwd, p, 1, st); }
EXPORT int lstat64(const char *p, struct stat64 *st) { return stat_at(cwd, p, 0, st); }
EXPORT int fstat64(int fd, struct stat64 *st) { return fstat_(fd, st); }
EXPORT int stat(const char *p, struct stat *st) { return stat_at(cwd, p, 1, (struct stat64 *)st); }
EXPORT int lstat(const char *p, struct stat *st) { return stat_at(cwd, p, 0, (struct stat64 *)st); }
EXPORT int fstat(int fd, struct stat *st) { return fstat_(fd, (struct stat64 *)st); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int fl) {
  if ((fl & AT_EMPTY_PATH) && !p[0]) return fstat_(d, st);
  const char *b = p[0] == '/' ? "/" : dirfd_base(d);
  if (!b) return -1;
  return stat_at(b, p, !(fl & AT_SYMLINK_NOFOLLOW), st);
}
EXPORT int fstatat(int d, const char *p, struct stat *st, int fl) { return fstatat64(d, p, (struct stat64 *)st, fl); }
static int do_statx(int d, const char *p, int fl, unsigned mask, struct statx *sx) {
  struct stat64 st;
  (void)mask;
  if (statx_off) { errno = ENOSYS; return -1; }
  if (!sx) { errno = EFAULT; return -1; }
  if (!p) { errno = EFAULT; return -1; }
  if (fstatat64(d, p, &st, fl) < 0) return -1;
  memset(sx, 0, sizeof *sx);
  sx->stx_mask = STATX_BASIC_STATS;
  sx->stx_blksize = 4096;
  sx->stx_nlink = 1;
  sx->stx_uid = sx->stx_gid = 1000;
  sx->stx_mode = st.st_mode;
  sx->stx_ino = st.st_ino;
  sx->stx_size = st.st_size;
  sx->stx_blocks = st.st_blocks;
  sx->stx_mtime.tv_sec = sx->stx_ctime.tv_sec = sx->stx_atime.tv_sec = st.st_mtim.tv_sec;
  sx->stx_dev_minor = 7;
  return 0;
}
EXPORT int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict sx) {
  return do_statx(d, p, fl, mask, sx);
}
static int access_at(const char *b, const char *p, int m) {
  char rp[PATH_MAX];
  struct ino *i;
  int act;
  long arg;
  int r = resolve_at(b, p, 1, rp, &i);
  if (r && !rp[0]) { strncpy(rp, p, PATH_MAX - 1); rp[PATH_MAX - 1] = 0; }
  if (pre(OP_STAT, rp, &act, &arg) == 1) return -1;
  r = resolve_at(b, p, 1, rp, &i);
  if (!r && (m & R_OK) && !(i->mode & 0400)) r = EACCES;
  if (!r && (m & W_OK) && !(i->mode & 0200)) r = EACCES;
  if (r) { errno = r; return -1; }
  return 0;
}
EXPORT int access(const char *p, int m) { return access_at(cwd, p, m); }
EXPORT int faccessat(int d, const char *p, int m, int fl) {
  (void)fl;
  const char *b = p[0] == '/' ? "/" : dirfd_base(d);
  if (!b) return -1;
  return access_at(b, p, m);
}
EXPORT char *realpath(const char *p, char *out) {
  char rp[PATH_MAX];
  struct ino *i;
  int act;
  long arg;
  if (!p) { errno = EINVAL; return NULL; }
  int r = resolve(p, 1, rp, &i);
  if (pre(OP_REALPATH, rp, &act, &arg) == 1) return NULL;
  r = resolve(p, 1, rp, &i);
  if (r) { errno = r; logev(OP_REALPATH, rp, -1, r, p); return NULL; }
  logev(OP_REALPATH, rp, 0, 0, NULL);
  muts_at(OP_REALPATH, rp, 1);
  if (!out) {
    out = malloc(PATH_MAX);
    if (!out) return NULL;
  }
  return strcpy(out, rp);
}
EXPORT char *canonicalize_file_name(const char *p) { return realpath(p, NULL); }
EXPORT char *__realpath_chk(const char *p, char *out, size_t n) { (void)n; return realpath(p, out); }
static ssize_t rdlink(const char *b, const char *p, char *buf, size_t n) {
  char rp[PATH_MAX];
  struct ino *i;
  point(11);
  if (!strcmp(p, "/proc/self/exe")) {
    /* where the program is installed */
    const char *me = "/opt/louis/bin/louis";
    if (n > strlen(me)) n = strlen(me);
    memcpy(buf, me, n);
    return (ssize_t)n;
  }
  int r = resolve_at(b, p, 0, rp, &i);
  if (!r && i->type != N_LINK) r = EINVAL;
  if (r) { errno = r; return -1; }
  if (n > i->len) n = i->len;
  memcpy(buf, i->data, n);
  return (ssize_t)n;
}
EXPORT ssize_t readlink(const char *p, char *buf, size_t n) { return rdlink(cwd, p, buf, n); }
EXPORT ssize_t readlinkat(int d, const char *p, char *buf, size_t n) {
  const char *b = p[0] == '/' ? "/" : dirfd_base(d);
  if (!b) return -1;
  return rdlink(b, p, buf, n);
}
EXPORT char *getcwd(char *b, size_t n) {
  int act;
  long arg;
  if (pre(OP_CWD, NULL, &act, &arg) == 1) return NULL;
  size_t l = strlen(cwd) + 1;
  if (!b) { if (n < l) n = l; b = malloc(n); if (!b) return NULL; }
  if (n < l) { errno = ERANGE; return NULL; }
  return strcpy(b, cwd);
}
EXPORT int chdir(const char *p) {
  char rp[PATH_MAX];
  struct ino *i;
  int r = resolve(p, 1, rp, &i);
  if (!r && i->type != N_DIR) r = ENOTDIR;
  H->foreign++;
  logev(OP_PHASE, rp, 0, 0, "FOREIGN chdir");
  if (r) { errno = r; return -1; }
  strcpy(cwd, rp);
  return 0;
}

/* directories */
struct __dirstream { int fd; int n, k; char **names; u8 *types; u64 *inos; struct dirent64 de; char *path; };
static DIR *dir_build(int fd) {
  struct vfd *f = &fds[fd];
  DIR *d = priv_alloc(sizeof *d + 64);
  memset(d, 0, sizeof *d);
  d->fd = fd;
  d->path = f->path;
  int cap = nents + 2;
  d->names = priv_alloc(sizeof(char *) * cap);
  d->types = priv_alloc(cap);
  d->inos = priv_alloc(sizeof(u64) * cap);
  d->names[0] = "."; d->types[0] = DT_DIR; d->inos[0] = 1;
  d->names[1] = ".."; d->types[1] = DT_DIR; d->inos[1] = 1;
  d->n = 2;
  size_t l = strlen(f->path);
  if (l == 1) l = 0;
  for (int i = 0; i < nents; i++) {
    const char *p = ents[i].path;
    if (!ents[i].i || strncmp(p, f->path, l) || p[l] != '/' || !p[l + 1] || strchr(p + l + 1, '/')) continue;
    d->names[d->n] = (char *)p + l + 1;
    int t = ents[i].i->type;
    d->types[d->n] = dtunk ? DT_UNKNOWN : t == N_FILE ? DT_REG : t == N_DIR ? DT_DIR : t == N_LINK ? DT_LNK : DT_CHR;
    d->inos[d->n] = ents[i].i->no;
    d->n++;
  }
  if (rdshuffle) {
    H->shuffled++;
    for (int i = d->n - 1; i > 0; i--) {
      int j = (int)rnd(&rs_dir, i + 1);
      char *a = d->names[i]; d->names[i] = d->names[j]; d->names[j] = a;
      u8 b = d->types[i]; d->types[i] = d->types[j]; d->types[j] = b;
      u64 c = d->inos[i]; d->inos[i] = d->inos[j]; d->inos[j] = c;
    }
  }
  if (dtunk) H->dtunknown++;
  return d;
}
EXPORT DIR *opendir(const char *p) {
  char rp[PATH_MAX];
  struct ino *i;
  int act;
  long arg;
  int r = resolve(p, 1, rp, &i);
  if (pre(OP_OPENDIR, rp, &act, &arg) == 1) return NULL;
  r = resolve(p, 1, rp, &i);
  if (!r && i->type != N_DIR) r = ENOTDIR;
  if (!r && !(i->mode & 0400)) r = EACCES;
  if (r) { errno = r; logev(OP_OPENDIR, rp, -1, r, NULL); return NULL; }
  int fd = fd_new(i, rp, O_RDONLY | O_DIRECTORY);
  if (fd < 0) return NULL;
  logev(OP_OPENDIR, rp, fd, 0, NULL);
  DIR *d = dir_build(fd);
  muts_at(OP_OPENDIR, rp, 1);
  return d;
}
EXPORT DIR *fdopendir(int fd) {
  struct vfd *f = fd_get(fd);
  if (!f) return NULL;
  if (f->kind != K_FILE || f->i->type != N_DIR) { errno = ENOTDIR; return NULL; }
  return dir_build(fd);
}
EXPORT int dirfd(DIR *d) { return d->fd; }
EXPORT struct dirent64 *readdir64(DIR *d) {
  int act;
  long arg;
  if (d->k >= d->n) return NULL;
  if (pre(OP_READDIR, d->path, &act, &arg) == 1) return NULL;
  memset(&d->de, 0, sizeof d->de);
  d->de.d_ino = d->inos[d->k];
  d->de.d_type = d->types[d->k];
  strncpy(d->de.d_name, d->names[d->k], 255);
  d->de.d_reclen = sizeof d->de;
  d->de.d_off = d->k + 1;
  logev(OP_READDIR, d->path, d->k, 0, d->de.d_name);
  d->k++;
  return &d->de;
}
EXPORT struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
EXPORT void rewinddir(DIR *d) { d->k = 0; }
EXPORT int closedir(DIR *d) { return close(d->fd); }

/* environment: with anyenv, variables that are asked for by name but not set get a value all the same, except those
   whose values are chosen elsewhere */
extern char **environ;
EXPORT char *getenv(const char *name) {
  static const char *const vals[] = {"1", "0", "true", "debug", "/t", "x", "", "/home/u", "10", "off", "de_DE", "/elsewhere"};
  static const char *const known[] = {"LOUIS_TABLE_PATH", "RUST_", "RAYON_", "SIM_", "LD_", "LC_", "LANG", "NO_COLOR", "CLICOLOR", "TERM", "COLUMNS", "LINES", "TZ",
    "HOME", "PATH", "MALLOC_", "GCONV_", "LOCPATH", "NLSPATH", "TMPDIR", "PWD"};
  size_t n = strlen(name);
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  if (!active || !anyenv) return NULL;
  for (size_t k = 0; k < sizeof known / sizeof *known; k++)
    if (!strncmp(name, known[k], strlen(known[k]))) return NULL;
  u64 h = anyenv * 0x9e3779b97f4a7c15ull;
  for (const char *c = name; *c; c++) h = (h ^ (u8)*c) * 0x100000001b3ull;
  h ^= h >> 29;
  log_raw("getenv ", 7);
  log_raw(name, n);
  log_raw("\n", 1);
  return (char *)vals[h % (sizeof vals / sizeof *vals)];
}

/* misc descriptors */
static int ttys, ttycols = 80; /* which of the standard descriptors are terminals */
static int is_tty(int fd) { return fd >= 0 && fd < 3 && fds[fd].used && (ttys >> fd & 1); }
EXPORT int isatty(int fd) { if (is_tty(fd)) return 1; errno = ENOTTY; return 0; }
EXPORT int ioctl(int fd, unsigned long r, ...) {
  va_list ap; va_start(ap, r); void *p = va_arg(ap, void *); va_end(ap);
  if (is_tty(fd) && r == 0x5401) { memset(p, 0, 36); return 0; }
  if (is_tty(fd) && r == 0x5413) { unsigned short *w = p; w[0] = 24; w[1] = (unsigned short)ttycols; w[2] = w[3] = 0; return 0; }
  errno = ENOTTY;
  return -1;
}
EXPORT int tcgetattr(int fd, void *p) { return ioctl(fd, 0x5401, p); }
EXPORT int tcsetattr(int fd, int a, const void *p) { (void)a; (void)p; if (is_tty(fd)) return 0; errno = ENOTTY; return -1; }
EXPORT int poll(struct pollfd *p, nfds_t n, int t) { (void)t; for (nfds_t i = 0; i < n; i++) p[i].revents = 0; return 0; }
static int dup_from(int fd, int from) {
  struct vfd *f = fd_get(fd);
  if (!f) return -1;
  for (int k = from; k < MAXFD; k++)
    if (!fds[k].used) { fds[k] = *f; if (f->kind == K_FILE || k > 2) { if (f->kind == K_FILE) H->open_fds++; } return k; }
  errno = EMFILE;
  return -1;
}
EXPORT int dup(int fd) { return dup_from(fd, 0); }
EXPORT int dup2(int a, int b) { struct vfd *f = fd_get(a); if (!f) return -1; if (a != b) { if (fds[b].used) close(b); fds[b] = *f; if (f->kind == K_FILE) H->open_fds++; } return b; }
EXPORT int dup3(int a, int b, int fl) { (void)fl; return dup2(a, b); }
static int fcntl_(int fd, int cmd, long arg) {
  struct vfd *f = fd_get(fd);
  if (!f) return -1;
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return dup_from(fd, (int)arg);
  if (cmd == F_GETFL) return f->flags;
  return 0;
}
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_(fd, cmd, a); }
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_(fd, cmd, a); }
EXPORT void *mmap64(void *a, size_t n, int pr, int fl, int fd, off64_t off) {
  long r;
  if (fd >= 0 && !(fl & MAP_ANONYMOUS)) {
    struct vfd *f = fd_get(fd);
    if (!f) return MAP_FAILED;
    if (f->kind != K_FILE || f->i->type != N_FILE) { errno = ENODEV; return MAP_FAILED; }
    r = raw6(SYS_mmap, (long)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | (fl & MAP_FIXED), -1, 0);
    if ((unsigned long)r > (unsigned long)-4096L) { errno = (int)-r; return MAP_FAILED; }
    size_t l = f->i->len > (size_t)off ? f->i->len - (size_t)off : 0;
    memcpy((void *)r, f->i->data + off, l < n ? l : n);
    return (void *)r;
  }
  r = raw6(SYS_mmap, (long)a, n, pr, fl, fd, off);
  if ((unsigned long)r > (unsigned long)-4096L) { errno = (int)-r; return MAP_FAILED; }
  return (void *)r;
}
EXPORT void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t off) { return mmap64(a, n, pr, fl, fd, off); }
EXPORT ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = ENOSYS; return -1; }
EXPORT ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { (void)a; (void)b; (void)c; (void)d; errno = ENOSYS; return -1; }

/* calls that would change or leave the simulated world: recorded, and refused */
#define REFUSE(ret, name, proto, what, path) EXPORT ret name proto { mutating(what, path); errno = EPERM; return (ret)-1; }
REFUSE(int, unlink, (const char *p), "unlink", p)
REFUSE(int, unlinkat, (int d, const char *p, int f), "unlink", p)
REFUSE(int, rmdir, (const char *p), "rmdir", p)
REFUSE(int, remove, (const char *p), "remove", p)
REFUSE(int, rename, (const char *p, const char *q), "rename", p)
REFUSE(int, renameat, (int a, const char *p, int b, const char *q), "rename", p)
REFUSE(int, mkdir, (const char *p, mode_t m), "mkdir", p)
REFUSE(int, mkdirat, (int d, const char *p, mode_t m), "mkdir", p)
REFUSE(int, symlink, (const char *p, const char *q), "symlink", q)
REFUSE(int, symlinkat, (const char *p, int d, const char *q), "symlink", q)
REFUSE(int, link, (const char *p, const char *q), "link", q)
REFUSE(int, linkat, (int a, const char *p, int b, const char *q, int f), "link", q)
REFUSE(int, chmod, (const char *p, mode_t m), "chmod", p)
REFUSE(int, fchmod, (int fd, mode_t m), "fchmod", NULL)
REFUSE(int, chown, (const char *p, uid_t u, gid_t g), "chown", p)
REFUSE(int, truncate64, (const char *p, off64_t n), "truncate", p)
REFUSE(int, ftruncate64, (int fd, off64_t n), "ftruncate", NULL)
REFUSE(int, truncate, (const char *p, off_t n), "truncate", p)
REFUSE(int, ftruncate, (int fd, off_t n), "ftruncate", NULL)
REFUSE(int, utimensat, (int d, const char *p, const struct timespec t[2], int f), "utimens", p)
REFUSE(int, futimens, (int fd, const struct timespec t[2]), "utimens", NULL)
REFUSE(int, mkfifo, (const char *p, mode_t m), "mkfifo", p)
#define FOREIGN(ret, name, proto, what) EXPORT ret name proto { H->foreign++; logev(OP_PHASE, NULL, 0, 0, "FOREIGN " what); errno = EPERM; return (ret)-1; }
FOREIGN(int, socket, (int a, int b, int c), "socket")
FOREIGN(int, execve, (const char *p, char *const a[], char *const e[]), "exec")
FOREIGN(int, execvp, (const char *p, char *const a[]), "exec")
FOREIGN(int, posix_spawnp, (pid_t *a, const char *b, const void *c, const void *d, char *const e[], char *const f[]), "spawn")
FOREIGN(int, posix_spawn, (pid_t *a, const char *b, const void *c, const void *d, char *const e[], char *const f[]), "spawn")
FOREIGN(pid_t, fork, (void), "fork")
FOREIGN(int, kill, (pid_t p, int s), "kill")
FOREIGN(int, setenv, (const char *a, const char *b, int c), "setenv")
FOREIGN(int, unsetenv, (const char *a), "unsetenv")

/* ------------------------------------------------------------------ entropy, time, cpus */
static ssize_t sim_getrandom(void *b, size_t n) {
  int act;
  long arg;
  if (active && self) {
    int r = pre(OP_GETRANDOM, NULL, &act, &arg);
    if (r == 1) return -1;
    if (urandom_only) { errno = ENOSYS; return -1; }
    if (r == 2 && act == 1 && arg > 0 && n > (size_t)arg) n = (size_t)arg;
  }
  for (size_t i = 0; i < n; i++) ((u8 *)b)[i] = (u8)splitmix(&rs_ent);
  if (H) H->rand_bytes += n;
  return (ssize_t)n;
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned fl) { (void)fl; return sim_getrandom(b, n); }
EXPORT int getentropy(void *b, size_t n) { return sim_getrandom(b, n) < 0 ? -1 : 0; }
/* now and then the wall clock is set, and the process was stopped for a while */
static void clock_jump(int real) {
  if (!active || !jump_pm || rnd(&rs_jump, 1000) >= jump_pm) return;
  u64 mag = 1;
  for (u64 k = rnd(&rs_jump, 12); k; k--) mag *= 10;
  if (real && rnd(&rs_jump, 2)) {
    u64 d = rnd(&rs_jump, mag) * 1000000ull % (40ull * 365 * 86400 * 1000000000ull);
    if (rnd(&rs_jump, 2) && clock_base > d) clock_base -= d; else if (clock_base < 4000000000ull * 1000000000ull) clock_base += d;
  } else if (clock_off < 1000000ull * 1000000000ull) clock_off += rnd(&rs_jump, mag > 100000000ull ? 100000000ull : mag) * 1000ull;
  H->jumps++;
}
EXPORT int clock_gettime(clockid_t c, struct timespec *t) {
  clock_jump(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE);
  u64 v = now_ns() + ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? clock_base : 0);
  t->tv_sec = v / 1000000000ull;
  t->tv_nsec = v % 1000000000ull;
  if (active) H->foreign += 0;
  return 0;
}
EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  (void)tz;
  clock_jump(1);
  u64 v = now_ns() + clock_base;
  tv->tv_sec = v / 1000000000ull;
  tv->tv_usec = v % 1000000000ull / 1000;
  return 0;
}
EXPORT time_t time(time_t *t) {
  clock_jump(1);
  time_t v = (time_t)((now_ns() + clock_base) / 1000000000ull);
  if (t) *t = v;
  return v;
}
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
  (void)p;
  memset(s, 0, n);
  for (int i = 0; i < ncpu && i < (int)n * 8; i++) CPU_SET_S(i, n, s);
  return 0;
}
static long (*real_sysconf)(int);
EXPORT long sysconf(int k) {
  if (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF) return ncpu;
  if (!real_sysconf) real_sysconf = dlsym(RTLD_NEXT, "sysconf");
  return real_sysconf(k);
}
EXPORT int sched_getcpu(void) { return 0; }
EXPORT pid_t getpid(void) { return 4242; }

EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
       f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_getrandom) return sim_getrandom((void *)a, (size_t)b);
  if (n == SYS_futex && active && self)
    return sim_futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (u32)f);
  if (n == SYS_statx) return do_statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
  if (n == SYS_gettid) return 4242 + (self ? self->id : 0);
  if (n == SYS_copy_file_range) { errno = ENOSYS; return -1; }
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
EXPORT pid_t gettid(void) { return 4242 + (self ? self->id : 0); }

/* ------------------------------------------------------------------ compiler instrumentation */
EXPORT void __sanitizer_cov_trace_pc_guard_init(u32 *s, u32 *e) {
  static u32 n;
  if (s == e || *s) return;
  if (!H) H = &dummy_hdr;
  for (; s < e; s++) *s = ++n;
  dummy_hdr.nguards = n;
  if (H) H->nguards = n;
}
EXPORT void __sanitizer_cov_trace_pc_guard(u32 *g) {
  if (A_edge && *g < EDGE_CAP && !A_edge[*g]) A_edge[*g] = 1;
  tick();
}
#define LS(n) EXPORT void __sanitizer_cov_load##n(void *a) { (void)a; tick(); } EXPORT void __sanitizer_cov_store##n(void *a) { (void)a; tick(); }
LS(1) LS(2) LS(4) LS(8) LS(16)

/* every atomic operation of the program is a scheduling point */
#define AT_OP(bits, T, name, expr) \
  EXPORT T __tsan_atomic##bits##_##name(volatile T *a, T v, int mo) { (void)mo; point(13); return expr; }
#define AT(bits, T) \
  EXPORT T __tsan_atomic##bits##_load(const volatile T *a, int mo) { (void)mo; point(13); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  EXPORT void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { (void)mo; point(13); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  AT_OP(bits, T, exchange, __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST)) \
  AT_OP(bits, T, fetch_add, __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST)) \
  AT_OP(bits, T, fetch_sub, __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST)) \
  AT_OP(bits, T, fetch_and, __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST)) \
  AT_OP(bits, T, fetch_or, __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST)) \
  AT_OP(bits, T, fetch_xor, __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST)) \
  AT_OP(bits, T, fetch_nand, __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST)) \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { \
    (void)mo; (void)fmo; \
    point(13); \
    __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    return c; \
  }
AT(8, u8) AT(16, unsigned short) AT(32, u32) AT(64, u64)
EXPORT void __tsan_atomic_thread_fence(int mo) { (void)mo; point(13); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
EXPORT void __tsan_atomic_signal_fence(int mo) { (void)mo; }
EXPORT void __tsan_func_entry(void *pc) { (void)pc; }
EXPORT void __tsan_func_exit(void) {}

/* ------------------------------------------------------------------ driver interface */
EXPORT const char *sim_script(size_t *n) { *n = script_len; return script_data; }
EXPORT void sim_emit(const char *p, size_t n) {
  if (H->emit_len + n > EMIT_CAP) fatal(ST_INTERNAL, 96);
  memcpy(A_emit + H->emit_len, p, n);
  H->emit_len += n;
}
EXPORT void sim_phase(u64 k) {
  (void)k;
  int act;
  long arg;
  H->op_count[OP_PHASE]++;
  muts_at(OP_PHASE, NULL, 0);
  (void)act;
  (void)arg;
}
/* changes that the surrounding program makes, as opposed to the library */
EXPORT void sim_setenv(const char *k, const char *v) {
  static int (*set)(const char *, const char *, int), (*unset)(const char *);
  if (!set) { set = dlsym(RTLD_NEXT, "setenv"); unset = dlsym(RTLD_NEXT, "unsetenv"); }
  if (v) set(k, v, 1); else unset(k);
}
EXPORT void sim_chdir(const char *p) {
  char rp[PATH_MAX];
  struct ino *i;
  if (!resolve(p, 1, rp, &i) && i->type == N_DIR) strcpy(cwd, rp);
}
EXPORT u64 sim_open_fds(void) { return H->open_fds; }
EXPORT u64 sim_live_bytes(void) { return H->live_bytes; }
EXPORT u64 sim_live_allocs(void) { return H->live_allocs; }
EXPORT u64 sim_events(void) { return H->events; }
EXPORT u64 sim_ticks(void) { return H->ticks; }
EXPORT u64 sim_fired(void) { return H->fired_total; }
EXPORT u64 sim_threads(void) { u64 n = 0; for (int i = 0; i < nthr; i++) n += thr[i].state != T_DONE; return n; }

/* ------------------------------------------------------------------ plan parsing */
static char *plan, *pp, *pe;
static char *tok(void) {
  while (pp < pe && *pp == ' ') pp++;
  char *s = pp;
  while (pp < pe && *pp != ' ' && *pp != '\n') pp++;
  if (pp < pe && *pp == ' ') *pp++ = 0;
  else if (pp < pe) { /* newline: terminate but keep position marker */ *pp = 0; }
  return s;
}
static u64 num(void) {
  char *s = tok();
  u64 v = 0;
  int neg = *s == '-';
  if (neg) s++;
  while (*s >= '0' && *s <= '9') v = v * 10 + (u64)(*s++ - '0');
  return neg ? -v : v;
}
static int hv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static char *hex(size_t *n) {
  char *s = tok();
  if (s[0] == '*' && !s[1]) { if (n) *n = 0; return NULL; }
  if (s[0] == '-' && !s[1]) { if (n) *n = 0; return ""; }
  size_t l = strlen(s) / 2;
  char *o = priv_alloc(l + 1);
  for (size_t i = 0; i < l; i++) o[i] = (char)(hv(s[2 * i]) << 4 | hv(s[2 * i + 1]));
  o[l] = 0;
  if (n) *n = l;
  return o;
}
static int opid(const char *s) {
  for (int i = 0; i < OP_N; i++)
    if (!strcmp(op_name[i], s)) return i;
  return -1;
}
static void die(const char *m) {
  RAW(SYS_write, 2, m, strlen(m));
  RAW(SYS_exit_group, 95, 0, 0);
}
static void load_plan(const char *path) {
  int fd = (int)RAW(SYS_open, path, O_RDONLY, 0);
  if (fd < 0) die("libsim: no plan\n");
  struct stat64 st;
  RAW(SYS_fstat, fd, &st, 0);
  plan = priv_alloc((size_t)st.st_size + 1);
  size_t got = 0;
  while (got < (size_t)st.st_size) {
    long r = RAW(SYS_read, fd, plan + got, st.st_size - got);
    if (r <= 0) break;
    got += r;
  }
  plan[got] = 0;
  RAW(SYS_close, fd, 0, 0);
  pp = plan;
  pe = plan + got;
  while (pp < pe) {
    char *eol = memchr(pp, '\n', pe - pp);
    if (!eol) break;
    char *save_end = pe;
    pe = eol;
    *eol = 0;
    char *k = tok();
    if (!strcmp(k, "seed")) { u64 s = num(); rs_ent = s ^ 0x1111; rs_io = s ^ 0x2222; rs_dir = s ^ 0x3333; rs_sched = s ^ 0x4444; splitmix(&rs_ent); splitmix(&rs_io); splitmix(&rs_dir); splitmix(&rs_sched); rs_wake = s ^ 0x5555; splitmix(&rs_wake); rs_jump = s ^ 0x6666; splitmix(&rs_jump); }
    else if (!strcmp(k, "entropy")) { rs_ent = num(); splitmix(&rs_ent); }
    else if (!strcmp(k, "schedseed")) { rs_sched = num(); splitmix(&rs_sched); }
    else if (!strcmp(k, "dirseed")) { rs_dir = num(); splitmix(&rs_dir); }
    else if (!strcmp(k, "maxticks")) maxticks = num();
    else if (!strcmp(k, "maxmem")) maxmem = num();
    else if (!strcmp(k, "maxfds")) { maxfds = num(); if (maxfds > MAXFD) maxfds = MAXFD; }
    else if (!strcmp(k, "policy")) { policy = (int)num(); pol_mean = num(); if (!pol_mean) pol_mean = 1; pol_depth = num(); pol_len = num(); }
    else if (!strcmp(k, "useforced")) use_forced = 1;
    else if (!strcmp(k, "forced")) { if (nforced < MAXFORCED) { forced_tick[nforced] = num(); forced_kind[nforced] = (u8)num(); forced_tid[nforced] = (u8)num(); nforced++; } }
    else if (!strcmp(k, "stack")) { struct { u64 cur, max; } rl = { num(), ~0ull }; rl.max = rl.cur; syscall(SYS_prlimit64, 0, 3, &rl, NULL); }
    else if (!strcmp(k, "anyenv")) anyenv = num();
    else if (!strcmp(k, "flap")) flap = num();
    else if (!strcmp(k, "tty")) { ttys = (int)num(); ttycols = ttys >> 3; ttys &= 7; }
    else if (!strcmp(k, "ncpu")) ncpu = (int)num();
    else if (!strcmp(k, "cwd")) strncpy(cwd, hex(NULL), PATH_MAX - 1);
    else if (!strcmp(k, "clock")) clock_base = num();
    else if (!strcmp(k, "jump")) jump_pm = num();
    else if (!strcmp(k, "clockoff")) clock_off = num();
    else if (!strcmp(k, "chunk")) chunk_max = num();
    else if (!strcmp(k, "eintr")) eintr_pm = num();
    else if (!strcmp(k, "spurious")) spurious_pm = num();
    else if (!strcmp(k, "dtunknown")) dtunk = (int)num();
    else if (!strcmp(k, "rdshuffle")) rdshuffle = (int)num();
    else if (!strcmp(k, "urandom")) urandom_only = (int)num();
    else if (!strcmp(k, "nostatx")) statx_off = (int)num();
    else if (!strcmp(k, "heapskew")) rs_heap = num();
    else if (!strcmp(k, "file")) { char *p = hex(NULL); u32 m = (u32)num(); size_t n; char *d = hex(&n); mkparents(p); ent_set(p, mkino(N_FILE, m, d, n)); }
    else if (!strcmp(k, "dir")) { char *p = hex(NULL); u32 m = (u32)num(); mkparents(p); ent_set(p, mkino(N_DIR, m, NULL, 0)); }
    else if (!strcmp(k, "link")) { char *p = hex(NULL); size_t n; char *d = hex(&n); mkparents(p); ent_set(p, mkino(N_LINK, 0777, d, n)); }
    else if (!strcmp(k, "stdin")) { stdin_data = hex(&stdin_len); }
    else if (!strcmp(k, "stdinchunk")) {
      if (!stdin_chunk) stdin_chunk = priv_alloc(sizeof(u32) * 65536);
      if (nstdin_chunk < 65536) stdin_chunk[nstdin_chunk++] = (u32)num();
    }
    else if (!strcmp(k, "fault")) {
      if (nfaults < MAXF) {
        struct fault *f = &faults[nfaults++];
        f->op = opid(tok());
        f->path = hex(NULL);
        f->from = num();
        f->to = num();
        f->act = (int)num();
        f->arg = (long)num();
      }
    } else if (!strcmp(k, "mut")) {
      if (nmuts < MAXF) {
        struct mutn *m = &muts[nmuts++];
        m->op = opid(tok());
        m->path = hex(NULL);
        m->nth = num();
        m->after = (int)num();
        m->kind = (int)num();
        m->target = hex(NULL);
        m->mode = (long)num();
        m->data = hex(&m->len);
      }
    } else if (!strcmp(k, "script")) script_data = hex(&script_len);
    pe = save_end;
    pp = eol + 1;
  }
  clock_base0 = clock_base;
}

__attribute__((constructor(101))) static void sim_init(void) {
  const char *pl = getenv("SIM_PLAN"), *sh = getenv("SIM_SHM");
  real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  real_pthread_setspecific = dlsym(RTLD_NEXT, "pthread_setspecific");
  real_sysconf = dlsym(RTLD_NEXT, "sysconf");
  if (!pl || !sh) die("libsim: SIM_PLAN/SIM_SHM not set\n");
  size_t total = sizeof(struct hdr);
  total = (total + 4095) & ~4095ull;
  size_t o_out = total; total += OUT_CAP;
  size_t o_err = total; total += ERR_CAP;
  size_t o_emit = total; total += EMIT_CAP;
  size_t o_log = total; total += LOG_CAP;
  size_t o_edge = total; total += EDGE_CAP;
  size_t o_dec = total; total += DEC_CAP * 8;
  int fd = (int)RAW(SYS_open, sh, O_RDWR, 0);
  if (fd < 0) die("libsim: no shm\n");
  char *m = (char *)raw6(SYS_mmap, 0, total, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  RAW(SYS_close, fd, 0, 0);
  if ((unsigned long)m > (unsigned long)-4096L) die("libsim: mmap\n");
  struct hdr *h = (struct hdr *)m;
  memset(h, 0, sizeof *h);
  h->live_bytes = dummy_hdr.live_bytes;
  h->live_allocs = dummy_hdr.live_allocs;
  h->nguards = dummy_hdr.nguards;
  h->magic = 0x51aa51aa;
  A_out = m + o_out;
  A_err = m + o_err;
  A_emit = m + o_emit;
  A_log = m + o_log;
  A_edge = (u8 *)m + o_edge;
  A_dec = (u64 *)(m + o_dec);
  H = h;
  (void)dummy_edge;
  mkparents("/x");
  load_plan(pl);
  mkparents("/dev/x");
  ent_set("/dev/null", mkino(N_NULL, 0666, NULL, 0));
  ent_set("/dev/urandom", mkino(N_URANDOM, 0666, NULL, 0));
  ent_set("/dev/random", mkino(N_URANDOM, 0666, NULL, 0));
  { char t[PATH_MAX]; strcpy(t, cwd); strcat(t, "/x"); mkparents(t); }
  fds[0] = (struct vfd){1, K_STDIN, NULL, 0, NULL, 0};
  fds[1] = (struct vfd){1, K_STDOUT, NULL, 0, NULL, 1};
  fds[2] = (struct vfd){1, K_STDERR, NULL, 0, NULL, 1};
  pthread_key_create(&tkey, thread_done);
  if (policy == 2) {
    npct = pol_depth > 60 ? 60 : (int)pol_depth;
    for (int i = 0; i < npct; i++) pct_change[i] = rnd(&rs_sched, pol_len ? pol_len : 1);
    for (int i = 0; i < npct; i++)
      for (int j = i + 1; j < npct; j++)
        if (pct_change[j] < pct_change[i]) { u64 t = pct_change[i]; pct_change[i] = pct_change[j]; pct_change[j] = t; }
  }
  /* the simulator's own variables are not part of the world the program sees */
  extern char **environ;
  int k = 0;
  for (int i = 0; environ[i]; i++)
    if (strncmp(environ[i], "SIM_", 4) && strncmp(environ[i], "LD_", 3)) environ[k++] = environ[i];
  environ[k] = NULL;
  thr[0].id = 0;
  thr[0].state = T_RUN;
  thr[0].prio = 1500000;
  thr[0].pt = pthread_self();
  self = &thr[0];
  nthr = 1;
  H->nthreads = 1;
  RAW(SYS_alarm, 60, 0, 0);
  active = 1;
  plan_preempt();
}
__attribute__((destructor)) static void sim_fini(void) {
  if (H && H->magic) {
    H->status = ST_EXIT;
    H->clock_ns = now_ns();
    H->leaked_at_exit = H->open_fds;
  }
}
EXPORT void sim_layout(u64 *o) { (void)o; }

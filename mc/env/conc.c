/* Programs of library calls in several threads.  The library is compiled with
 * the calls of -fsanitize=thread, which this file receives.  Memory the library
 * could share between threads (its writable image, objects handed to several
 * threads, the heap) is known here; a first run in one thread tells which of it
 * a program reads and writes, and a scheduler then runs two programs with
 * preemptions at chosen accesses.  Every run is a process of its own. */

#define _GNU_SOURCE
#include <pthread.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <link.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAXT 2
#define MAXC 64  /* calls of a program */
#define MAXA 14  /* arguments of a call */
#define MAXO 64  /* outputs of a program */
#define MAXP 20000

/* One region: shared objects, the threads' own objects, two heaps. */
#define ARENA (64ul << 20)
#define OWN (64ul << 20)
#define HEAP (256ul << 20)
#define TOTAL (ARENA + OWN + 2 * HEAP)

typedef struct call_s {
  uint64_t fn;
  uint64_t nargs;
  uint64_t mask;           /* width of the result */
  uint64_t kind[MAXA];     /* 0 value, 1 result of a call, 2 word at */
  uint64_t arg[MAXA];
} call_t;

typedef struct prog_s {
  uint64_t ncalls, nouts;
  call_t call[MAXC];
  uint64_t out[MAXO], len[MAXO], init[MAXO];
} prog_t;

typedef struct result_s {
  int state; /* 1: done */
  char bad[200];
  uint64_t accesses;          /* to memory which could be shared */
  uint64_t hash[MAXT];        /* of results and outputs */
  uint64_t ret[MAXT][MAXC];
  size_t top[MAXT];           /* heap used */
  int points, preempted;
  unsigned char thread[MAXP]; /* who was running at a point */
} result_t;

static result_t *res;
static char *base, *ilo, *ihi; /* region; writable image of the library */
static unsigned char *rmap, *imap; /* per 8 bytes: 1, 2 read; 4, 8 written;
                                      16 of interest */
static size_t used, own = ARENA;
static int setup;
static _Thread_local int me = -1;
static int mode; /* 0 off, 1 record, 2 schedule */
static prog_t *progs[MAXT];

/*
 * Heap
 */

static void *avail[MAXT][48];

static void *
get(size_t n) {
  int t = me < 0 ? 0 : me;
  int c = 5;
  size_t *h;

  while (((size_t)1 << c) < n + 16)
    c++;

  if (setup) {
    h = (size_t *)(base + used);
    used += (n + 31) & ~15ul;
    if (used > ARENA)
      abort();
  } else if (avail[t][c]) {
    h = avail[t][c];
    avail[t][c] = *(void **)(h + 1);
  } else {
    h = (size_t *)(base + ARENA + OWN + t * HEAP + res->top[t]);
    res->top[t] += (size_t)1 << c;
    if (res->top[t] > HEAP)
      abort();
  }

  h[0] = n;
  h[1] = c;

  return h + 2;
}

static int
mine(char *p) {
  char *h = base + ARENA + OWN + (me < 0 ? 0 : me) * HEAP;
  return p >= h && p < h + HEAP;
}

void *__wrap_malloc(size_t n) { return get(n ? n : 1); }

void *
__wrap_calloc(size_t n, size_t s) {
  void *p = get(n * s ? n * s : 1);
  memset(p, 0, n * s);
  return p;
}

void
__wrap_free(void *p) {
  size_t *h;

  if (!p || setup || !mine(p))
    return;

  h = (size_t *)p - 2;
  if (h[1] < 48) {
    int t = me < 0 ? 0 : me;
    int c = h[1];
    *(void **)(h + 1) = avail[t][c];
    avail[t][c] = h;
  }
}

void *
__wrap_realloc(void *p, size_t n) {
  void *q = get(n ? n : 1);
  if (p) {
    size_t m = ((size_t *)p)[-2];
    memcpy(q, p, m < n ? m : n);
    __wrap_free(p);
  }
  return q;
}

/*
 * Scheduler
 */

static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t turn[MAXT];
static int cur = -1, alive[MAXT], at, every, streak;
static void *waits[MAXT];
static int plan[16], nplan; /* points with a preemption */

static void
done(const char *bad) {
  if (bad && !res->bad[0])
    snprintf(res->bad, sizeof(res->bad), "%s", bad);
  res->state = 1;
  _exit(0);
}

static int
runnable(int t) {
  return alive[t] && !waits[t];
}

static void
await(void) {
  while (cur != me)
    pthread_cond_wait(&turn[me], &big);
}

static void
pass(void) {
  if (!runnable(1 - me))
    done("deadlock");
  cur = 1 - me;
  pthread_cond_signal(&turn[cur]);
}

static void
point(void) {
  int p;

  if (me < 0 || mode != 2)
    return;

  pthread_mutex_lock(&big);
  p = res->points;

  if (p < MAXP) /* no preemption after that many */
    res->thread[res->points++] = me | (runnable(1 - me) ? 2 : 0);

  if (at < nplan && plan[at] == p) {
    at++;
    streak = 0;
    if (runnable(1 - me)) {
      res->preempted++;
      pass();
      await();
    }
  } else if (++streak > 100000 && runnable(1 - me)) {
    streak = 0; /* a thread waiting for the other */
    pass();
    await();
  }

  pthread_mutex_unlock(&big);
}

static void *held[64];
static int owner[64], nheld;

static int
lock_slot(void *m) {
  int i;
  for (i = 0; i < nheld; i++) {
    if (held[i] == m)
      return i;
  }
  held[nheld] = m;
  owner[nheld] = -1;
  return nheld++;
}

int
__wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  int i;

  if (me < 0 || mode != 2)
    return 0;

  point();
  pthread_mutex_lock(&big);
  i = lock_slot(m);

  if (owner[i] == me)
    done("a thread locks a lock it holds");

  while (owner[i] != -1) {
    waits[me] = m;
    pass();
    await();
  }

  owner[i] = me;
  pthread_mutex_unlock(&big);

  return 0;
}

int
__wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  int i, k;

  if (me < 0 || mode != 2)
    return 0;

  pthread_mutex_lock(&big);
  i = lock_slot(m);
  owner[i] = -1;
  for (k = 0; k < MAXT; k++) {
    if (waits[k] == m)
      waits[k] = NULL;
  }
  pthread_mutex_unlock(&big);
  point();

  return 0;
}

int
__wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  int i, r = 16;

  if (me < 0 || mode != 2)
    return 0;

  point();
  pthread_mutex_lock(&big);
  i = lock_slot(m);
  if (owner[i] == -1) {
    owner[i] = me;
    r = 0;
  }
  pthread_mutex_unlock(&big);

  return r;
}

int
__wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
  static pthread_mutex_t guard[8];
  static pthread_once_t *known[8];
  static int ran[8], n;
  int i;

  for (i = 0; i < n && known[i] != o; i++)
    ;

  if (i == n)
    known[n++] = o;

  __wrap_pthread_mutex_lock(&guard[i]);
  if (!ran[i]) {
    ran[i] = 1;
    f();
  }
  __wrap_pthread_mutex_unlock(&guard[i]);

  return 0;
}

/*
 * Accesses
 */

static void
touch(char *p, size_t n, int write) {
  unsigned char *m, *e, f;
  int hit = 0;

  if (!mode || me < 0 || !n)
    return;

  if (p >= base && p < base + TOTAL) {
    m = rmap + (p - base) / 8;
    e = rmap + (p + n - 1 - base) / 8;
  } else if (p >= ilo && p < ihi) {
    m = imap + (p - ilo) / 8;
    e = imap + (p + n - 1 - ilo) / 8;
  } else {
    return;
  }

  f = (write ? 4 : 1) << me;
  res->accesses++;

  for (; m <= e; m++) {
    hit |= *m & 16;
    if (mode == 1 && !(*m & f))
      *m |= f;
  }

  if (hit || (every && !(p >= base + ARENA && p < base + TOTAL)))
    point();
}

#define N(n) \
void __tsan_read##n(void *p) { touch(p, n, 0); } \
void __tsan_write##n(void *p) { touch(p, n, 1); } \
void __tsan_unaligned_read##n(void *p) { touch(p, n, 0); } \
void __tsan_unaligned_write##n(void *p) { touch(p, n, 1); } \
void __tsan_volatile_read##n(void *p) { touch(p, n, 0); } \
void __tsan_volatile_write##n(void *p) { touch(p, n, 1); } \
void __tsan_unaligned_volatile_read##n(void *p) { touch(p, n, 0); } \
void __tsan_unaligned_volatile_write##n(void *p) { touch(p, n, 1); }
N(1) N(2) N(4) N(8) N(16)

void __tsan_read_range(void *p, size_t n) { touch(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { touch(p, n, 1); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_atomic_thread_fence(int m) {}
void __tsan_atomic_signal_fence(int m) {}

#define ATOMIC(n, t)                                                          \
t __tsan_atomic##n##_load(volatile t *p, int m) {                             \
  touch((void *)p, n / 8, 0); return __atomic_load_n(p, 5); }                 \
void __tsan_atomic##n##_store(volatile t *p, t v, int m) {                    \
  touch((void *)p, n / 8, 1); __atomic_store_n(p, v, 5); }                    \
t __tsan_atomic##n##_exchange(volatile t *p, t v, int m) {                    \
  touch((void *)p, n / 8, 1); return __atomic_exchange_n(p, v, 5); }          \
t __tsan_atomic##n##_fetch_add(volatile t *p, t v, int m) {                   \
  touch((void *)p, n / 8, 1); return __atomic_fetch_add(p, v, 5); }           \
t __tsan_atomic##n##_fetch_sub(volatile t *p, t v, int m) {                   \
  touch((void *)p, n / 8, 1); return __atomic_fetch_sub(p, v, 5); }           \
t __tsan_atomic##n##_fetch_and(volatile t *p, t v, int m) {                   \
  touch((void *)p, n / 8, 1); return __atomic_fetch_and(p, v, 5); }           \
t __tsan_atomic##n##_fetch_or(volatile t *p, t v, int m) {                    \
  touch((void *)p, n / 8, 1); return __atomic_fetch_or(p, v, 5); }            \
t __tsan_atomic##n##_fetch_xor(volatile t *p, t v, int m) {                   \
  touch((void *)p, n / 8, 1); return __atomic_fetch_xor(p, v, 5); }           \
int __tsan_atomic##n##_compare_exchange_strong(volatile t *p, t *e, t v,      \
                                               int m, int f) {                \
  touch((void *)p, n / 8, 1);                                                 \
  return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); }                     \
int __tsan_atomic##n##_compare_exchange_weak(volatile t *p, t *e, t v,        \
                                             int m, int f) {                  \
  touch((void *)p, n / 8, 1);                                                 \
  return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); }                     \
t __tsan_atomic##n##_compare_exchange_val(volatile t *p, t e, t v, int m,     \
                                          int f) {                            \
  touch((void *)p, n / 8, 1);                                                 \
  __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }

ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)

void *
__wrap_memcpy(void *d, const void *s, size_t n) {
  touch((char *)s, n, 0);
  touch(d, n, 1);
  return memmove(d, s, n);
}

void *
__wrap_memmove(void *d, const void *s, size_t n) {
  touch((char *)s, n, 0);
  touch(d, n, 1);
  return memmove(d, s, n);
}

void *
__wrap_memset(void *d, int c, size_t n) {
  touch(d, n, 1);
  return memset(d, c, n);
}

int
__wrap_memcmp(const void *x, const void *y, size_t n) {
  touch((char *)x, n, 0);
  touch((char *)y, n, 0);
  return memcmp(x, y, n);
}

/*
 * Programs
 */

static uint64_t
fold(uint64_t h, const unsigned char *p, size_t n) {
  while (n--)
    h = (h ^ *p++) * 0x100000001b3ull;
  return h ^ (h >> 29);
}

static void
program(prog_t *q, int t) {
  uint64_t *r = res->ret[t], a[MAXA], h = 0xcbf29ce484222325ull;
  size_t i, j;

  for (i = 0; i < q->nouts; i++) {
    if (q->init[i])
      memcpy((void *)q->out[i], (void *)q->init[i], q->len[i]);
    else
      memset((void *)q->out[i], 0xa5, q->len[i]);
  }

  for (i = 0; i < q->ncalls; i++) {
    call_t *c = &q->call[i];
    void *f = (void *)c->fn;

    for (j = 0; j < MAXA; j++) {
      a[j] = c->arg[j];
      if (c->kind[j] == 1)
        a[j] = r[a[j]];
      else if (c->kind[j] == 2)
        a[j] = *(uint64_t *)a[j];
    }

    r[i] = ((uint64_t (*)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t,
                          uint64_t, uint64_t, uint64_t, uint64_t, uint64_t,
                          uint64_t, uint64_t, uint64_t, uint64_t))f)(
            a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9],
            a[10], a[11], a[12], a[13]);

    if (c->mask) {
      uint64_t v = r[i] & c->mask;
      h = fold(h, (unsigned char *)&v, 8);
    }
  }

  for (i = 0; i < q->nouts; i++)
    h = fold(h, (unsigned char *)q->out[i], q->len[i]);

  res->hash[t] = h;
}

static void *
body(void *p) {
  int t = (int)(intptr_t)p;

  me = t;
  pthread_mutex_lock(&big);
  await();
  pthread_mutex_unlock(&big);

  program(progs[t], t);

  pthread_mutex_lock(&big);
  alive[t] = 0;
  if (alive[1 - t]) {
    if (waits[1 - t])
      done("deadlock");
    cur = 1 - t;
    pthread_cond_signal(&turn[cur]);
  } else {
    done(NULL);
  }
  pthread_mutex_unlock(&big);

  return NULL;
}

static void
died(int s) {
  char m[40];
  snprintf(m, sizeof(m), "signal %d", s);
  done(m);
}

static pid_t
begin(void) {
  pid_t p;

  memset(res, 0, offsetof(result_t, thread));
  memset(avail, 0, sizeof(avail));
  p = fork();

  if (p == 0) {
    signal(SIGSEGV, died);
    signal(SIGBUS, died);
    signal(SIGFPE, died);
    signal(SIGABRT, died);
    signal(SIGALRM, died);
    alarm(120);
  }

  return p;
}

static int
finish(pid_t p) {
  int st;
  if (p < 0 || waitpid(p, &st, 0) != p)
    return -1;
  if (res->state != 1 && !res->bad[0])
    snprintf(res->bad, sizeof(res->bad), "the process ended");
  return 0;
}

/* One program in one thread, after `warm` runs of another one. */
int
conc_alone(prog_t *q, prog_t *before, int warm) {
  pid_t p = begin();

  if (p == 0) {
    char *copy = malloc(ihi - ilo), *acopy = malloc(used);
    size_t i;

    if (warm) {
      me = 0;
      program(before, 0);
    }

    memcpy(copy, ilo, ihi - ilo);
    memcpy(acopy, base, used);
    me = 0;
    mode = 1;
    program(q, 0);
    mode = 0;

    /* writes the instrumentation does not see */
    for (i = 0; i < used; i++) {
      if (acopy[i] != base[i])
        rmap[i / 8] |= 4;
    }
    for (i = 0; i < (size_t)(ihi - ilo); i++) {
      if (copy[i] != ilo[i])
        imap[i / 8] |= 4;
    }
    done(NULL);
  }

  return finish(p);
}

/* Two programs with preemptions at the given points.  all: points are all
 * accesses to what could be shared, not just those of interest. */
int
conc_pair(prog_t *q0, prog_t *q1, int first, int all, const int *pts, int n) {
  pid_t p = begin();

  if (p == 0) {
    pthread_t th[MAXT];
    int i;

    progs[0] = q0;
    progs[1] = q1;
    every = all;
    nplan = n;
    memcpy(plan, pts, n * sizeof(int));
    mode = 2;

    for (i = 0; i < MAXT; i++) {
      pthread_cond_init(&turn[i], NULL);
      alive[i] = 1;
    }
    for (i = 0; i < MAXT; i++)
      pthread_create(&th[i], NULL, body, (void *)(intptr_t)i);

    pthread_mutex_lock(&big);
    cur = first;
    pthread_cond_signal(&turn[first]);
    pthread_mutex_unlock(&big);

    for (;;)
      pause();
  }

  return finish(p);
}

/* Both programs one after the other, recording who touches what. */
int
conc_record(prog_t *q0, prog_t *q1) {
  pid_t p = begin();

  if (p == 0) {
    mode = 1;
    me = 0;
    program(q0, 0);
    me = 1;
    program(q1, 1);
    done(NULL);
  }

  return finish(p);
}

static int
mark(unsigned char *m, size_t n) {
  size_t i;
  int c, r = 0;

  for (i = 0; i < n; i++) {
    if (m[i]) {
      c = ((m[i] & 4) && (m[i] & 10)) || ((m[i] & 8) && (m[i] & 5));
      m[i] = c ? 16 : 0;
      r += c;
    }
  }

  return r;
}

/* Forget the record, and mark what is in conflict as of interest. */
int
conc_mark(void) {
  int r = mark(imap, (ihi - ilo + 7) / 8);
  r += mark(rmap, used / 8 + 1);
  r += mark(rmap + ARENA / 8, (own - ARENA) / 8 + 1);
  r += mark(rmap + (ARENA + OWN) / 8, res->top[0] / 8);
  r += mark(rmap + (ARENA + OWN + HEAP) / 8, res->top[1] / 8);
  return r;
}

/*
 * Access for the caller
 */

static int
phdr(struct dl_phdr_info *i, size_t n, void *self) {
  int k, here = 0;
  char *a;

  for (k = 0; k < i->dlpi_phnum; k++) {
    a = (char *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (char *)self >= a &&
        (char *)self < a + i->dlpi_phdr[k].p_memsz)
      here = 1;
  }

  for (k = 0; here && k < i->dlpi_phnum; k++) {
    a = (char *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) {
      ilo = (char *)((uintptr_t)a & ~7ul);
      ihi = a + i->dlpi_phdr[k].p_memsz;
    }
  }

  return here;
}

static void *
map(size_t n, int flags) {
  void *p = mmap(NULL, n, PROT_READ | PROT_WRITE,
                 MAP_ANONYMOUS | MAP_NORESERVE | flags, -1, 0);
  return p == MAP_FAILED ? NULL : p;
}

/* self: something in the library */
int
conc_start(void *self) {
  dl_iterate_phdr(phdr, self);
  if (!ilo)
    return 0;
  base = map(TOTAL, MAP_PRIVATE);
  rmap = map(TOTAL / 8, MAP_SHARED);
  imap = map((ihi - ilo) / 8 + 16, MAP_SHARED);
  res = map(sizeof(*res), MAP_SHARED);
  return base && rmap && imap && res;
}

result_t *conc_result(void) { return res; }
uint64_t conc_size(int what) {
  return what == 0 ? sizeof(prog_t) : what == 1 ? sizeof(call_t) :
         what == 2 ? (uint64_t)(ihi - ilo) : used;
}
void conc_setup(int on) { setup = on; me = -1; }

void *
conc_alloc(int shared, size_t n) {
  size_t *u = shared ? &used : &own;
  void *p = base + *u;
  *u += (n + 63) & ~63ul;
  if (used > ARENA || own > ARENA + OWN)
    abort();
  return p;
}

void
conc_clear(void) {
  madvise(rmap, TOTAL / 8, MADV_REMOVE);
  memset(imap, 0, (ihi - ilo) / 8 + 16);
}

/* Offsets of the words touched in the given way: of the arena, or of the
 * image (shifted). */
int
conc_words(int flag, uint64_t *out, int max) {
  size_t i;
  int n = 0;

  for (i = 0; i < used / 8 + 1 && n < max; i++) {
    if (rmap[i] & flag)
      out[n++] = i;
  }
  for (i = 0; i < (size_t)(ihi - ilo + 7) / 8 && n < max; i++) {
    if (imap[i] & flag)
      out[n++] = i + (1ul << 40);
  }

  return n;
}

/* Callbacks and helpers for programs. */
int
conc_accept(const unsigned char *pub) {
  return (pub[8] & 3) == 0;
}

uint64_t
conc_string(char *dst, const char *src, size_t n) {
  strncpy(dst, src, n);
  return 0;
}

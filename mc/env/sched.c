/* A deterministic scheduler for real threads: one thread runs at a time, and
 * may be preempted wherever the generator's code (compiled with the calls of
 * -fsanitize=thread) touches shared memory, locks, or enters the system.
 * Every schedule runs in a fresh process, so that the library starts from
 * nothing; the caller enumerates the schedules. */

#define _GNU_SOURCE
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>

int torsion_getrandom(void *dst, size_t size);
int torsion_random(uint32_t *num);
int torsion_uniform(uint32_t *num, uint32_t max);

void env_begin(long flip);
void env_fork(void);
extern void (*env_hook)(void);

#define MAXT 3
#define MAXP 20000
#define MAXW 2048

typedef struct result_s {
  int points;
  unsigned char others[MAXP]; /* threads which could run instead */
  int words;
  uint32_t word[MAXW];
  unsigned char thread[MAXW];
  int state; /* 1: done */
  char bad[200];
} result_t;

static result_t *res;
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t turn[MAXT];
static int cur = -1, nthreads, active;
static int alive[MAXT];
static void *waits[MAXT]; /* the lock a thread waits for */
static _Thread_local int me = -1;
static _Thread_local char *lo, *hi; /* the stack */
static const int *plan;             /* pairs: point, thread */
static int nplan, at, streak;

int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __real_pthread_mutex_unlock(pthread_mutex_t *m);

static void
done(const char *bad) {
  if (bad && !res->bad[0])
    snprintf(res->bad, sizeof(res->bad), "%s", bad);
  res->state = 1;
  _exit(0);
}

static int
others(void) {
  int i, m = 0;
  for (i = 0; i < nthreads; i++) {
    if (i != me && alive[i] && !waits[i])
      m |= 1 << i;
  }
  return m;
}

static void
give(int to) {
  cur = to;
  pthread_cond_signal(&turn[to]);
}

static void
await(void) {
  while (cur != me)
    pthread_cond_wait(&turn[me], &big);
}

static void
give_any(void) {
  int i, m = others();

  for (i = 1; i <= nthreads; i++) {
    int k = (me + i) % nthreads;
    if ((m >> k) & 1) {
      give(k);
      return;
    }
  }

  done("deadlock");
}

static void
point(void) {
  int p, m;

  if (me < 0 || !active)
    return;

  __real_pthread_mutex_lock(&big);

  p = res->points++;
  m = others();

  if (p >= MAXP)
    done("the threads do not terminate");

  res->others[p] = m;

  if (at < nplan && plan[at * 2] == p) {
    int to = plan[at * 2 + 1];
    at++;
    streak = 0;
    if (!((m >> to) & 1))
      done("schedule diverges");
    give(to);
    await();
  } else if (++streak > 3000 && m) {
    streak = 0;
    give_any();
    await();
  }

  __real_pthread_mutex_unlock(&big);
}

/* Locks: a waiting thread is not runnable. */
static void *held[64];
static int owner[64], nheld;

static int
lock_slot(void *m) {
  int i;
  for (i = 0; i < nheld; i++) {
    if (held[i] == m)
      return i;
  }
  held[nheld] = m;
  owner[nheld] = -1;
  return nheld++;
}

int
__wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  int i;

  if (me < 0 || !active)
    return __real_pthread_mutex_lock(m);

  point();
  __real_pthread_mutex_lock(&big);
  i = lock_slot(m);

  if (owner[i] == me)
    done("a thread locks a lock it holds");

  while (owner[i] != -1) {
    waits[me] = m;
    give_any();
    await();
  }

  owner[i] = me;
  __real_pthread_mutex_unlock(&big);

  return 0;
}

int
__wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  int i, k;

  if (me < 0 || !active)
    return __real_pthread_mutex_unlock(m);

  __real_pthread_mutex_lock(&big);
  i = lock_slot(m);

  if (owner[i] != me)
    done("a thread unlocks a lock it does not hold");

  owner[i] = -1;

  for (k = 0; k < nthreads; k++) {
    if (waits[k] == m)
      waits[k] = NULL;
  }

  __real_pthread_mutex_unlock(&big);
  point();

  return 0;
}

int
__wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  int i, r = 16; /* EBUSY */

  if (me < 0 || !active)
    return 0;

  point();
  __real_pthread_mutex_lock(&big);
  i = lock_slot(m);
  if (owner[i] == -1) {
    owner[i] = me;
    r = 0;
  }
  __real_pthread_mutex_unlock(&big);

  return r;
}

int
__wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
  static pthread_mutex_t guard[8];
  static pthread_once_t *known[8];
  static int ran[8], n;
  int i;

  for (i = 0; i < n && known[i] != o; i++)
    ;

  if (i == n)
    known[n++] = o;

  __wrap_pthread_mutex_lock(&guard[i]);
  if (!ran[i]) {
    ran[i] = 1;
    f();
  }
  __wrap_pthread_mutex_unlock(&guard[i]);

  return 0;
}

/*
 * Instrumentation
 */

static void
access1(void *p) {
  if ((char *)p >= lo && (char *)p < hi)
    return;
  point();
}

#define R(name) void __tsan_##name(void *p) { access1(p); }
R(read1) R(read2) R(read4) R(read8) R(read16)
R(write1) R(write2) R(write4) R(write8) R(write16)
R(unaligned_read2) R(unaligned_read4) R(unaligned_read8) R(unaligned_read16)
R(unaligned_write2) R(unaligned_write4) R(unaligned_write8)
R(unaligned_write16)
R(volatile_read1) R(volatile_read2) R(volatile_read4) R(volatile_read8)
R(volatile_write1) R(volatile_write2) R(volatile_write4) R(volatile_write8)
R(unaligned_volatile_read2) R(unaligned_volatile_read4)
R(unaligned_volatile_read8)
R(unaligned_volatile_write2) R(unaligned_volatile_write4)
R(unaligned_volatile_write8)
R(read1_pc) R(read8_pc)
void __tsan_read_range(void *p, size_t n) { access1(p); }
void __tsan_write_range(void *p, size_t n) { access1(p); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_atomic_thread_fence(int m) { point(); }
void __tsan_atomic_signal_fence(int m) {}

#define ATOMIC(n, t)                                                          \
t __tsan_atomic##n##_load(volatile t *p, int m) {                             \
  point(); return __atomic_load_n(p, 5); }                                    \
void __tsan_atomic##n##_store(volatile t *p, t v, int m) {                    \
  point(); __atomic_store_n(p, v, 5); }                                       \
t __tsan_atomic##n##_exchange(volatile t *p, t v, int m) {                    \
  point(); return __atomic_exchange_n(p, v, 5); }                             \
t __tsan_atomic##n##_fetch_add(volatile t *p, t v, int m) {                   \
  point(); return __atomic_fetch_add(p, v, 5); }                              \
t __tsan_atomic##n##_fetch_sub(volatile t *p, t v, int m) {                   \
  point(); return __atomic_fetch_sub(p, v, 5); }                              \
t __tsan_atomic##n##_fetch_and(volatile t *p, t v, int m) {                   \
  point(); return __atomic_fetch_and(p, v, 5); }                              \
t __tsan_atomic##n##_fetch_or(volatile t *p, t v, int m) {                    \
  point(); return __atomic_fetch_or(p, v, 5); }                               \
t __tsan_atomic##n##_fetch_xor(volatile t *p, t v, int m) {                   \
  point(); return __atomic_fetch_xor(p, v, 5); }                              \
int __tsan_atomic##n##_compare_exchange_strong(volatile t *p, t *e, t v,      \
                                               int m, int f) {                \
  point(); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); }            \
int __tsan_atomic##n##_compare_exchange_weak(volatile t *p, t *e, t v,        \
                                             int m, int f) {                  \
  point(); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); }            \
t __tsan_atomic##n##_compare_exchange_val(volatile t *p, t e, t v, int m,     \
                                          int f) {                            \
  point(); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }

ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)

/*
 * Programs: a string of g (16 bytes), b (600 bytes), r (word), u (bounded
 * word), p (forked: a new process id)
 */

static void
put(uint32_t w, int t) {
  if (res->words < MAXW) {
    res->word[res->words] = w;
    res->thread[res->words++] = t;
  }
}

static void
program(const char *s, int t) {
  uint32_t buf[160], w;
  int i;

  for (; *s; s++) {
    int n = 1;

    memset(buf, 0x5c, sizeof(buf));

    switch (*s) {
      case 'g':
        if (!torsion_getrandom(buf, 16))
          done("a request fails");
        n = 4;
        break;
      case 'b':
        if (!torsion_getrandom(buf, 600))
          done("a request fails");
        n = 150;
        break;
      case 'r':
        if (!torsion_random(buf))
          done("a request fails");
        break;
      case 'u':
        if (!torsion_uniform(buf, 0xfffffff1))
          done("a request fails");
        break;
      case 'p':
        env_fork();
        continue;
    }

    if (buf[n] != 0x5c5c5c5c)
      done("bytes beyond the request are written");

    if (me >= 0)
      __real_pthread_mutex_lock(&big);
    for (i = 0; i < n; i++)
      put(buf[i], t);
    if (me >= 0)
      __real_pthread_mutex_unlock(&big);
  }
}

static const char *progs[MAXT];

static void *
body(void *arg) {
  pthread_attr_t attr;
  void *base;
  size_t size;

  if (pthread_getattr_np(pthread_self(), &attr) != 0 ||
      pthread_attr_getstack(&attr, &base, &size) != 0)
    done("no stack");

  lo = base;
  hi = lo + size;
  me = (int)(intptr_t)arg;

  __real_pthread_mutex_lock(&big);
  await();
  __real_pthread_mutex_unlock(&big);

  program(progs[me], me + 1);

  __real_pthread_mutex_lock(&big);
  alive[me] = 0;

  if (others())
    give_any();
  else {
    int i;
    for (i = 0; i < nthreads; i++) {
      if (alive[i])
        done("deadlock");
    }
    done(NULL);
  }
  __real_pthread_mutex_unlock(&big);

  return NULL;
}

static void
hook(void) {
  point();
}

result_t *
sched_init(void) {
  res = mmap(NULL, sizeof(*res), PROT_READ | PROT_WRITE,
             MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return res == MAP_FAILED ? NULL : res;
}

/* Returns 1 if the schedule ran and all words are distinct. */
static int
sched_once(const char *before, const char **ps, int n, int first,
          const int *pl, int np) {
  pid_t child;
  int i, j, status;

  res->points = res->words = res->state = 0;
  res->bad[0] = 0;

  child = fork();

  if (child == 0) {
    pthread_attr_t attr;
    pthread_t t;

    alarm(20);
    env_begin(-1);
    program(before, 0);

    nthreads = n;
    plan = pl;
    nplan = np;
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, 1 << 20);

    for (i = 0; i < n; i++) {
      progs[i] = ps[i];
      alive[i] = 1;
      pthread_cond_init(&turn[i], NULL);
      if (pthread_create(&t, &attr, body, (void *)(intptr_t)i) != 0)
        done("no thread");
    }

    env_hook = hook;
    __real_pthread_mutex_lock(&big);
    active = 1;
    give(first);
    __real_pthread_mutex_unlock(&big);

    for (;;)
      pause();
  }

  if (child < 0 || waitpid(child, &status, 0) != child)
    exit(99);

  if (!res->state) {
    snprintf(res->bad, sizeof(res->bad), "the process ended with status %d",
             status);
    return 0;
  }

  if (res->bad[0])
    return 0;

  for (i = 0; i < res->words; i++) {
    for (j = 0; j < i; j++) {
      if (res->word[i] == res->word[j]) {
        snprintf(res->bad, sizeof(res->bad),
                 "word %08x is handed out twice, to thread %d and to "
                 "thread %d", res->word[i], res->thread[j], res->thread[i]);
        return 0;
      }
    }
  }

  return 1;
}

static int
sched_run(const char *before, const char **ps, int n, int first,
          const int *pl, int np) {
  int i, ok = 0;

  for (i = 0; i < 5; i++) {
    ok = sched_once(before, ps, n, first, pl, np);
    if (ok || strcmp(res->bad, "schedule diverges") != 0)
      break;
  }

  return ok;
}

/* All schedules with at most max preemptions from a first thread. */
static int
extend(const char *before, const char **ps, int n, int first, int *pl,
       int np, int max, int part, int parts, long *runs, long *steps) {
  unsigned char *snap;
  int i, t, points, from;

  if (!sched_run(before, ps, n, first, pl, np))
    return 0;

  (*runs)++;
  *steps += res->points;

  if (np == max)
    return 1;

  points = res->points;
  snap = malloc(points + 1);
  memcpy(snap, res->others, points);
  from = np ? pl[np * 2 - 2] + 1 : 0;

  for (i = from; i < points; i++) {
    if (np == 0 && i % parts != part)
      continue;
    for (t = 0; t < n; t++) {
      if (!((snap[i] >> t) & 1))
        continue;
      pl[np * 2] = i;
      pl[np * 2 + 1] = t;
      if (!extend(before, ps, n, first, pl, np + 1, max, part, parts, runs,
                  steps)) {
        free(snap);
        return 0;
      }
    }
  }

  free(snap);
  return 1;
}

int
sched_all(const char *before, const char **ps, int n, int first, int max,
          int part, int parts, int *pl, long *runs, long *steps, char *msg,
          size_t len) {
  int ok, i;

  memset(pl, -1, 16 * sizeof(int));
  ok = extend(before, ps, n, first, pl, 0, max, part, parts, runs, steps);

  if (!ok)
    snprintf(msg, len, "%s", res->bad);

  return ok;
}

/* Heap of an instrumented library, which refuses chosen requests (F01). */

#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

void *__real_malloc(size_t);
void __real_free(void *);
void __real_abort(void);

typedef struct head_s {
  struct head_s *prev, *next;
  uint64_t size;
  uint64_t live;
} head_t;

static head_t list = {&list, &list, 0, 0};
static sigjmp_buf env;
static volatile int on;
static uint64_t count, refused, fail_a, fail_b;
static int from_b;

static int
refuse(void) {
  if (!on)
    return 0;

  count += 1;

  if (count == fail_a || count == fail_b || (from_b && count > fail_b)) {
    refused += 1;
    return 1;
  }

  return 0;
}

void *
__wrap_malloc(size_t n) {
  head_t *h;

  if (refuse())
    return NULL;

  h = __real_malloc(n + sizeof(head_t));

  if (h == NULL)
    __real_abort();

  h->size = n;
  h->live = (on != 0);
  h->next = &list;
  h->prev = list.prev;
  list.prev->next = h;
  list.prev = h;
  memset(h + 1, 0xa5, n);

  return h + 1;
}

void *
__wrap_calloc(size_t n, size_t m) {
  void *p = __wrap_malloc(n * m);

  if (p != NULL)
    memset(p, 0, n * m);

  return p;
}

static void
drop(head_t *h) {
  h->prev->next = h->next;
  h->next->prev = h->prev;
  memset(h, 0x5a, sizeof(head_t) + h->size);
  __real_free(h);
}

void
__wrap_free(void *p) {
  if (p != NULL)
    drop((head_t *)p - 1);
}

void *
__wrap_realloc(void *p, size_t n) {
  void *q = __wrap_malloc(n);
  size_t m;

  if (p == NULL || q == NULL)
    return q;

  m = ((head_t *)p - 1)->size;
  memcpy(q, p, m < n ? m : n);
  ((head_t *)q - 1)->live = ((head_t *)p - 1)->live;
  __wrap_free(p);

  return q;
}

void
__wrap_abort(void) {
  if (on)
    siglongjmp(env, 1);
  __real_abort();
}

static void
crash(int sig) {
  (void)sig;
  if (on)
    siglongjmp(env, 2);
  signal(sig, SIG_DFL);
}

static void
handlers(void) {
  static const int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL};
  static unsigned char space[65536];
  struct sigaction sa;
  stack_t st;
  size_t i;

  memset(&st, 0, sizeof(st));
  st.ss_sp = space;
  st.ss_size = sizeof(space);
  sigaltstack(&st, NULL);

  memset(&sa, 0, sizeof(sa));
  sa.sa_handler = crash;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;

  for (i = 0; i < sizeof(sigs) / sizeof(sigs[0]); i++)
    sigaction(sigs[i], &sa, NULL);
}

/* Call `f', refusing the a-th request and the b-th (or all from the b-th).
 * out: how it ended (0 it returned, 1 stopped, 2 crashed), result,
 * requests, requests refused, blocks left, size. */
void
oom_call(uint64_t (*f)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t,
                       uint64_t, uint64_t, uint64_t, uint64_t, uint64_t,
                       uint64_t, uint64_t),
         const uint64_t *v, uint64_t a, uint64_t b, int all, uint64_t *out) {
  static int ready;
  head_t *h;
  int how;

  if (!ready) {
    handlers();
    ready = 1;
  }

  fail_a = a;
  fail_b = b;
  from_b = all;
  count = refused = 0;
  out[1] = 0;

  how = sigsetjmp(env, 1);

  if (how == 0) {
    on = 1;
    out[1] = f(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9],
               v[10], v[11]);
  }

  on = 0;
  out[0] = how;
  out[2] = count;
  out[3] = refused;
  out[4] = out[5] = 0;

  for (h = list.next; h != &list; h = h->next) {
    if (h->live) {
      out[4] += 1;
      out[5] += h->size;
    }
  }
}

/* Forget what the last call left. */
void
oom_sweep(void) {
  head_t *h, *n;

  for (h = list.next; h != &list; h = n) {
    n = h->next;
    if (h->live)
      drop(h);
  }
}

/* Functions for the check of the check. */
int
oom_good(unsigned char *out, const unsigned char *in, size_t n) {
  unsigned char *x = __wrap_malloc(n), *y = __wrap_malloc(n);
  int ret = 0;

  if (x != NULL && y != NULL) {
    memcpy(x, in, n);
    memcpy(y, x, n);
    memcpy(out, y, n);
    ret = 1;
  }

  __wrap_free(x);
  __wrap_free(y);
  return ret;
}

int
oom_stops(unsigned char *out, const unsigned char *in, size_t n) {
  unsigned char *x = __wrap_malloc(n);
  if (x == NULL)
    __wrap_abort();
  memcpy(out, in, n);
  __wrap_free(x);
  return 1;
}

int
oom_leaks(unsigned char *out, const unsigned char *in, size_t n) {
  unsigned char *x = __wrap_malloc(n), *y;
  if (x == NULL)
    return 0;
  y = __wrap_malloc(n);
  if (y == NULL)
    return 0;
  memcpy(out, in, n);
  __wrap_free(x);
  __wrap_free(y);
  return 1;
}

int
oom_writes(unsigned char *out, const unsigned char *in, size_t n) {
  unsigned char *volatile x = __wrap_malloc(n);
  memcpy(x, in, n);
  memcpy(out, x, n);
  __wrap_free(x);
  return 1;
}

int
oom_lies(unsigned char *out, const unsigned char *in, size_t n) {
  unsigned char *x = __wrap_malloc(n);
  if (x != NULL)
    memcpy(out, in, n);
  __wrap_free(x);
  return 1;
}

/* Records every basic block entered and every address touched by one call
 * into instrumented code.  The call runs on its own zeroed stack and heap, so
 * that two executions differ only if the code or its data makes them. */

#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>

typedef uint64_t u64;

#define STACK (1 << 20)
#define ARENA (16 << 20)
#define CHUNK 4096
#define MAXCHUNK (1 << 16)

static int on;
static u64 hash, count;
static u64 mark[MAXCHUNK];
static u64 log_from, log_to, *log_buf;
static unsigned char *stack, *arena;
static size_t used, high;
static int record_heap = 1;

static inline void
event(u64 pc, u64 addr) {
  if (!on)
    return;

  if (count >= log_from && count < log_to) {
    log_buf[2 * (count - log_from)] = pc;
    log_buf[2 * (count - log_from) + 1] = addr;
  }

  hash = (hash ^ pc) * UINT64_C(0x9e3779b97f4a7c15);
  hash ^= hash >> 29;
  hash = (hash ^ addr) * UINT64_C(0xbf58476d1ce4e5b9);
  hash ^= hash >> 32;
  count++;

  if (count % CHUNK == 0 && count / CHUNK < MAXCHUNK)
    mark[count / CHUNK - 1] = hash;
}

#define PC ((u64)__builtin_return_address(0))

void __sanitizer_cov_trace_pc(void) { event(PC, 0); }

#define A(n)                                                       \
  void __asan_load##n##_noabort(u64 p) { event(PC, p); }           \
  void __asan_store##n##_noabort(u64 p) { event(PC, p); }

A(1) A(2) A(4) A(8) A(16)

void __asan_loadN_noabort(u64 p, size_t n) { event(PC, p); event(n, p); }
void __asan_storeN_noabort(u64 p, size_t n) { event(PC, p); event(n, p); }
void __asan_handle_no_return(void) {}

/*
 * Library functions: their arguments are observable.
 */

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_realloc(void *, size_t);

void *
__wrap_memcpy(void *d, const void *s, size_t n) {
  event(PC, (u64)d);
  event((u64)s, n);
  return __real_memcpy(d, s, n);
}

void *
__wrap_memmove(void *d, const void *s, size_t n) {
  event(PC, (u64)d);
  event((u64)s, n);
  return __real_memmove(d, s, n);
}

void *
__wrap_memset(void *d, int c, size_t n) {
  event(PC, (u64)d);
  event(0, n);
  return __real_memset(d, c, n);
}

/* These stop at the first difference, as real ones do. */
int
__wrap_memcmp(const void *xp, const void *yp, size_t n) {
  const unsigned char *x = xp, *y = yp;
  size_t i;

  event(PC, (u64)x);
  event((u64)y, n);

  for (i = 0; i < n; i++) {
    event((u64)(x + i), (u64)(y + i));
    if (x[i] != y[i])
      return x[i] < y[i] ? -1 : 1;
  }

  return 0;
}

int
__wrap_bcmp(const void *x, const void *y, size_t n) {
  return __wrap_memcmp(x, y, n);
}

int
__wrap_strcmp(const char *x, const char *y) {
  event(PC, (u64)x);

  while (*x && *x == *y) {
    event((u64)x, (u64)y);
    x++;
    y++;
  }

  return (unsigned char)*x - (unsigned char)*y;
}

static void *
take(size_t n) {
  unsigned char *p;
  size_t step = record_heap ? 64 : 8192;

  n = (n + 16 + step - 1) / step * step;

  if (used + n > ARENA)
    abort();

  p = arena + used;
  *(size_t *)p = n - 16;
  used += n;

  if (used > high)
    high = used;

  return p + 16;
}

static int
mine(const void *p) {
  return (unsigned char *)p >= arena && (unsigned char *)p < arena + ARENA;
}

void *
__wrap_malloc(size_t n) {
  if (!on)
    return __real_malloc(n);

  if (record_heap)
    event(PC, n);

  return take(n);
}

void *
__wrap_calloc(size_t m, size_t n) {
  void *p = __wrap_malloc(m * n);
  return p != NULL ? __real_memset(p, 0, m * n) : NULL;
}

void *
__wrap_realloc(void *p, size_t n) {
  void *q;

  if (!on)
    return mine(p) ? NULL : __real_realloc(p, n);

  if (record_heap)
    event(PC, n);

  q = take(n);

  if (p != NULL) {
    size_t m = mine(p) ? ((size_t *)p)[-2] : n;
    __real_memcpy(q, p, m < n ? m : n);
  }

  return q;
}

void
__wrap_free(void *p) {
  if (mine(p)) {
    if (record_heap)
      event(PC, (u64)p);
    return;
  }

  if (!on)
    __real_free(p);
}

/*
 * Execution
 */

typedef u64 fn_t(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64);

static ucontext_t here, there;
static fn_t *fn;
static const u64 *arg;
static u64 result;

static void
enter(void) {
  result = fn(arg[0], arg[1], arg[2], arg[3], arg[4], arg[5],
              arg[6], arg[7], arg[8], arg[9], arg[10], arg[11]);
}

/* Runs f with 12 arguments; out: value, events, hash. */
void
trace_run(void *f, const u64 *args, u64 *out) {
  if (stack == NULL) {
    if (posix_memalign((void **)&stack, 4096, STACK) ||
        posix_memalign((void **)&arena, 4096, ARENA))
      abort();
    __real_memset(arena, 0, ARENA);
  }

  /* Calls use a small part of the stack. */
  __real_memset(stack + STACK - (STACK >> 2), 0, STACK >> 2);
  __real_memset(arena, 0, high);

  used = high = 0;
  hash = count = 0;
  fn = (fn_t *)f;
  arg = args;

  getcontext(&there);
  there.uc_stack.ss_sp = stack;
  there.uc_stack.ss_size = STACK;
  there.uc_link = &here;
  makecontext(&there, enter, 0);

  on = 1;
  swapcontext(&here, &there);
  on = 0;

  out[0] = result;
  out[1] = count;
  out[2] = hash;
}

/* Hash after each full chunk of the last run. */
const u64 *
trace_marks(void) {
  return mark;
}

void
trace_log(u64 from, u64 to, u64 *buf) {
  log_from = from;
  log_to = to;
  log_buf = buf;
}

void
trace_heap(int yes) {
  record_heap = yes;
}

/* Offset of a code address in this object, or -1. */
long
trace_offset(u64 pc) {
  Dl_info a, b;

  if (!dladdr((void *)trace_run, &a) || !dladdr((void *)pc, &b))
    return -1;

  if (a.dli_fbase != b.dli_fbase)
    return -1;

  return (long)(pc - (u64)a.dli_fbase);
}

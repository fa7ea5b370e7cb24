/* Calls a library function with every buffer in an allocation of its exact
 * size, twice, over different garbage, and compares what came out.  The
 * library is built with the address and undefined-behaviour sanitizers; this
 * file is not. */

#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef uint64_t u64;

typedef struct {
  u64 kind;
  u64 val;
  u64 len;
  unsigned char *copy;
} arg_t;

typedef struct {
  u64 ptr;
  u64 len;
} part_t;

enum { INT, IN, OUT, SIZE, PARTS };

enum { OK, RETURN, OUTPUT, INPUT, LEAK };

#define MAXARG 12
#define MAXPART 16

static int on;
static int fill = 0xa5;
static long live;

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
size_t malloc_usable_size(void *);

void *
__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);

  if (p != NULL) {
    live++;
    if (n > 0)
      memset(p, fill, n);
  }

  return p;
}

void *
__wrap_calloc(size_t m, size_t n) {
  void *p = __real_calloc(m, n);

  if (p != NULL)
    live++;

  return p;
}

void *
__wrap_realloc(void *p, size_t n) {
  size_t old = p != NULL ? malloc_usable_size(p) : 0;
  void *q = __real_realloc(p, n);

  if (p == NULL && q != NULL)
    live++;

  if (q != NULL && n > old)
    memset((char *)q + old, fill, n - old);

  return q;
}

void
__wrap_free(void *p) {
  if (p != NULL)
    live--;

  __real_free(p);
}

/* Exactly n bytes; with n == 0 no byte may be touched. */
static unsigned char *
block(size_t n) {
  unsigned char *p = __real_malloc(n ? n : 16);

  if (p == NULL)
    abort();

  return n ? p : p + 16;
}

static void
unblock(unsigned char *p, size_t n) {
  __real_free(n ? p : p - 16);
}

static __attribute__((noinline)) void
paint(int c) {
  volatile unsigned char buf[96 << 10];
  size_t i;

  memset((void *)buf, c, sizeof(buf));

  for (i = 0; i < sizeof(buf); i += 4096)
    (void)buf[i];
}

typedef u64 fn_t(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64);

typedef struct {
  unsigned char *p[MAXARG];
  unsigned char *q[MAXARG][MAXPART];
  u64 ret;
  long leak;
} run_t;

static void
one(fn_t *fn, const arg_t *args, int n, int c, run_t *r) {
  u64 a[MAXARG] = {0};
  long before;
  int i;
  u64 j;

  for (i = 0; i < n; i++) {
    const arg_t *d = &args[i];

    switch (d->kind) {
      case INT:
        a[i] = d->val;
        break;
      case IN:
        r->p[i] = block(d->len);
        if (d->len)
          memcpy(r->p[i], (void *)d->val, d->len);
        a[i] = (u64)r->p[i];
        break;
      case OUT:
        r->p[i] = block(d->len);
        if (d->len)
          memset(r->p[i], c, d->len);
        a[i] = (u64)r->p[i];
        break;
      case SIZE:
        r->p[i] = block(d->len);
        if (d->val == (u64)-1)
          memset(r->p[i], c, d->len);
        else
          memcpy(r->p[i], &d->val, d->len);
        a[i] = (u64)r->p[i];
        break;
      case PARTS: {
        const part_t *parts = (const part_t *)d->val;
        u64 *v;
        if (d->len > MAXPART)
          abort();
        r->p[i] = block(d->len * 8);
        v = (u64 *)r->p[i];
        for (j = 0; j < d->len; j++) {
          r->q[i][j] = block(parts[j].len);
          if (parts[j].len)
            memcpy(r->q[i][j], (void *)parts[j].ptr, parts[j].len);
          v[j] = (u64)r->q[i][j];
        }
        a[i] = (u64)v;
        break;
      }
    }
  }

  fill = c;
  paint(c);
  before = live;
  on = 1;
  r->ret = fn(a[0], a[1], a[2], a[3], a[4], a[5],
              a[6], a[7], a[8], a[9], a[10], a[11]);
  on = 0;
  r->leak = live - before;
}

/* flags: 1 the function returns nothing, 2 one run only, 4 may allocate
 * res: value, verdict, argument, offset */
void
guard_run(void *f, const arg_t *args, int n, int flags, u64 *res) {
  static run_t r[2];
  int runs = (flags & 2) ? 1 : 2;
  const int c[2] = {0xa5, 0x01};
  int i, k;
  u64 j, h;

  for (k = 0; k < runs; k++)
    one((fn_t *)f, args, n, c[k], &r[k]);

  res[0] = (flags & 1) ? 0 : (r[0].ret & 0xffffffff);
  res[1] = OK;
  res[2] = res[3] = 0;

  if (runs == 2 && !(flags & 1)
      && (uint32_t)r[0].ret != (uint32_t)r[1].ret) {
    res[1] = RETURN;
  }

  for (k = 0; k < runs; k++) {
    if (r[k].leak != 0 && !(flags & 4)) {
      res[1] = LEAK;
      res[3] = r[k].leak;
    }
  }

  for (i = 0; i < n; i++) {
    const arg_t *d = &args[i];

    switch (d->kind) {
      case IN:
        for (k = 0; k < runs; k++) {
          if (d->len && memcmp(r[k].p[i], (void *)d->val, d->len) != 0) {
            res[1] = INPUT;
            res[2] = i;
          }
          unblock(r[k].p[i], d->len);
        }
        break;
      case OUT:
      case SIZE:
        if (d->copy != NULL && d->len)
          memcpy(d->copy, r[0].p[i], d->len);
        if (runs == 2) {
          for (j = 0; j < d->len; j++) {
            int x = r[0].p[i][j], y = r[1].p[i][j];
            if (x != y && !(x == c[0] && y == c[1]) && res[1] == OK) {
              res[1] = OUTPUT;
              res[2] = i;
              res[3] = j;
            }
          }
        }
        for (k = 0; k < runs; k++)
          unblock(r[k].p[i], d->len);
        break;
      case PARTS:
        for (k = 0; k < runs; k++) {
          const part_t *parts = (const part_t *)d->val;
          for (h = 0; h < d->len; h++) {
            if (parts[h].len && memcmp(r[k].q[i][h], (void *)parts[h].ptr,
                                       parts[h].len) != 0) {
              res[1] = INPUT;
              res[2] = i;
            }
            unblock(r[k].q[i][h], parts[h].len);
          }
          unblock(r[k].p[i], d->len * 8);
        }
        break;
    }
  }
}

void *
guard_alloc(size_t n) {
  return memset(__real_malloc(n), 0, n);
}

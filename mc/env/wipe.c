/* Heap of an instrumented library, which looks for given values in every block
 * the library releases (W01).  Moving a block counts as releasing it. */

#include <stdint.h>
#include <stdlib.h>
#include <string.h>

void *__real_malloc(size_t);
void __real_free(void *);

typedef struct {
  uint64_t size;
  uint64_t pad;
} head_t;

#define SLOTS 65536

static uint64_t table[SLOTS];
static unsigned char used[SLOTS];
static unsigned char first[65536];

static uint64_t blocks, bytes, hits, hit, live;
static uint64_t digest;
static int on;

static uint64_t
mix(uint64_t x) {
  x ^= x >> 31;
  x *= UINT64_C(0x9e3779b97f4a7c15);
  x ^= x >> 29;
  return x;
}

static int
known(uint64_t v) {
  uint64_t i = mix(v) % SLOTS;

  while (used[i]) {
    if (table[i] == v)
      return 1;
    i = (i + 1) % SLOTS;
  }

  return 0;
}

void
wipe_clear(void) {
  memset(used, 0, sizeof(used));
  memset(first, 0, sizeof(first));
}

void
wipe_add(const uint64_t *v, size_t n) {
  size_t i, j;

  for (i = 0; i < n; i++) {
    if (known(v[i]))
      continue;
    j = mix(v[i]) % SLOTS;
    while (used[j])
      j = (j + 1) % SLOTS;
    used[j] = 1;
    table[j] = v[i];
    first[v[i] & 65535] = 1;
  }
}

void
wipe_begin(void) {
  blocks = bytes = hits = hit = live = 0;
  digest = 0;
  on = 1;
}

void
wipe_end(uint64_t *out) {
  on = 0;
  out[0] = blocks;
  out[1] = bytes;
  out[2] = hits;
  out[3] = hit;
  out[4] = digest;
  out[5] = live;
}

static void
look(const unsigned char *p, size_t n) {
  uint64_t v;
  size_t i;

  blocks += 1;
  bytes += n;

  for (i = 0; i < n; i++) {
    if (p[i] != 0)
      digest = mix(digest + i * 256 + p[i]);
  }

  for (i = 0; i + 8 <= n; i++) {
    if (!first[p[i] | (p[i + 1] << 8)])
      continue;

    memcpy(&v, p + i, 8);

    if (known(v)) {
      hits += 1;
      hit = v;
    }
  }
}

void *
__wrap_malloc(size_t n) {
  head_t *h = __real_malloc(n + sizeof(head_t));

  if (h == NULL)
    return NULL;

  h->size = n;
  memset(h + 1, 0, n);
  live += n * (on != 0);

  return h + 1;
}

void *
__wrap_calloc(size_t n, size_t m) {
  return __wrap_malloc(n * m);
}

void
__wrap_free(void *p) {
  head_t *h;

  if (p == NULL)
    return;

  h = (head_t *)p - 1;

  if (on)
    look(p, h->size);

  memset(p, 0, h->size);
  __real_free(h);
}

void *
__wrap_realloc(void *p, size_t n) {
  void *q;
  size_t m;

  if (p == NULL)
    return __wrap_malloc(n);

  q = __wrap_malloc(n);

  if (q == NULL)
    return NULL;

  m = ((head_t *)p - 1)->size;
  memcpy(q, p, m < n ? m : n);
  __wrap_free(p);

  return q;
}

/* Functions for the check of the check. */
static unsigned char *
copy(const unsigned char *p, size_t n) {
  unsigned char *q = __wrap_malloc(n + 5);
  memcpy(q + 3, p, n);
  return q;
}

void
wipe_leaks(const unsigned char *p, size_t n) {
  unsigned char *q = copy(p, n);
  memset(q + 3, 0, n - 8);
  __wrap_free(q);
}

void
wipe_moves(const unsigned char *p, size_t n) {
  unsigned char *q = __wrap_realloc(copy(p, n), 3 * n);
  memset(q, 0, 3 * n);
  __wrap_free(q);
}

void
wipe_clean(const unsigned char *p, size_t n) {
  unsigned char *q = copy(p, n);
  memset(q + 3, 0, n);
  __wrap_free(q);
}

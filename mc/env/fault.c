/* Functions with known faults (and one without), compiled and linked like a part
 * of the library: the search has to tell them apart. */

#include <pthread.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

static unsigned char table[64];
static int ready;

void
fault_static(unsigned char *out, const unsigned char *in, size_t n) {
  static unsigned char tmp[64];
  size_t i;
  for (i = 0; i < n; i++)
    tmp[i] = in[i] ^ 0x5a;
  for (i = 0; i < n; i++)
    out[i] = tmp[n - 1 - i];
}

void
fault_heap(unsigned char *out, const unsigned char *in, size_t n) {
  static unsigned char *tmp;
  if (!tmp)
    tmp = malloc(64);
  memcpy(tmp, in, n);
  out[0] = tmp[0] ^ tmp[n - 1];
  out[1] = tmp[0];
}

/* The input is changed and restored. */
void
fault_input(unsigned char *out, unsigned char *in, size_t n) {
  size_t i;
  in[0] ^= 0x80;
  for (i = 0; i < n; i++)
    out[i] = in[i] + 1;
  in[0] ^= 0x80;
}

void
fault_early(unsigned char *out, size_t j) {
  size_t i;
  if (!ready) {
    ready = 1;
    for (i = 0; i < 64; i++)
      table[i] = i * 7 + 1;
  }
  out[0] = table[j];
}

static void
fill(void) {
  size_t i;
  for (i = 0; i < 64; i++)
    table[i] = i * 7 + 1;
}

void
fault_none(unsigned char *out, size_t j) {
  static pthread_once_t once = PTHREAD_ONCE_INIT;
  pthread_once(&once, fill);
  out[0] = table[j];
}

void
fault_locked(unsigned char *out, const unsigned char *in, size_t n) {
  static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
  static unsigned char tmp[64];
  pthread_mutex_lock(&lock);
  memcpy(tmp, in, n);
  memcpy(out, tmp, n);
  pthread_mutex_unlock(&lock);
}

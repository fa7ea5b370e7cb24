/* Plain Eksblowfish as described by Provos and Mazieres.  The initial tables
 * (hexadecimal digits of pi) are handed in by the caller. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>

static uint32_t P0[18], S0[1024];
static uint32_t P[18], S[1024];

void ref_tables(const uint32_t *t) {
  memcpy(P0, t, sizeof(P0));
  memcpy(S0, t + 18, sizeof(S0));
}

static void enc(uint32_t *l, uint32_t *r) {
  uint32_t a = *l, b = *r, t;
  int i;
  for (i = 0; i < 16; i++) {
    a ^= P[i];
    b ^= ((S[a >> 24] + S[256 + ((a >> 16) & 255)])
          ^ S[512 + ((a >> 8) & 255)]) + S[768 + (a & 255)];
    t = a; a = b; b = t;
  }
  t = a; a = b; b = t;
  b ^= P[16];
  a ^= P[17];
  *l = a;
  *r = b;
}

static uint32_t word(const uint8_t *d, size_t n, size_t *pos) {
  uint32_t w = 0;
  int i;
  for (i = 0; i < 4; i++) {
    w = (w << 8) | d[*pos % n];
    *pos = (*pos + 1) % n;
  }
  return w;
}

static void expand(const uint8_t *salt, size_t sn, const uint8_t *key,
                   size_t kn) {
  uint32_t l = 0, r = 0;
  size_t pos = 0;
  int i;
  for (i = 0; i < 18; i++)
    P[i] ^= word(key, kn, &pos);
  pos = 0;
  for (i = 0; i < 18 + 1024; i += 2) {
    uint32_t *p = i < 18 ? &P[i] : &S[i - 18];
    if (salt) {
      l ^= word(salt, sn, &pos);
      r ^= word(salt, sn, &pos);
    }
    enc(&l, &r);
    p[0] = l;
    p[1] = r;
  }
}

/* order 0: bcrypt (key then salt), order 1: bcrypt-pbkdf (salt then key) */
void ref_eks(uint8_t *out, const uint8_t *key, size_t kn, const uint8_t *salt,
             size_t sn, int cost, const uint8_t *text, int words, int order) {
  uint32_t c[8];
  uint64_t i;
  int j, k;
  memcpy(P, P0, sizeof(P));
  memcpy(S, S0, sizeof(S));
  expand(salt, sn, key, kn);
  for (i = 0; i < ((uint64_t)1 << cost); i++) {
    if (order == 0) {
      expand(NULL, 0, key, kn);
      expand(NULL, 0, salt, sn);
    } else {
      expand(NULL, 0, salt, sn);
      expand(NULL, 0, key, kn);
    }
  }
  for (j = 0; j < words; j++)
    c[j] = ((uint32_t)text[4 * j] << 24) | (text[4 * j + 1] << 16)
         | (text[4 * j + 2] << 8) | text[4 * j + 3];
  for (k = 0; k < 64; k++)
    for (j = 0; j < words; j += 2)
      enc(&c[j], &c[j + 1]);
  for (j = 0; j < words; j++) {
    for (k = 0; k < 4; k++) {
      int sh = order == 0 ? 24 - 8 * k : 8 * k;
      out[4 * j + k] = (c[j] >> sh) & 255;
    }
  }
}

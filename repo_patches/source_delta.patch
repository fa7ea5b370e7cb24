From abc908c1c24668ac049c4bbfb7bc3f533b1d9e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:23 +0000
Subject: [PATCH 01/15] fix: terminate iterated OpenPGP derivation for empty
 salt and password

With an empty salt and an empty password the loop that repeats their
concatenation made no progress and never ended. There is nothing to
repeat in that case, so hash an empty stream instead.
---
 src/kdf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kdf.c b/src/kdf.c
index d9ac09b..b1692d4 100644
--- a/src/kdf.c
+++ b/src/kdf.c
@@ -897,6 +897,10 @@ pgpdf_derive_iterated(unsigned char *out,
   if (count < total)
     count = total;
 
+  /* Nothing to repeat. */
+  if (total == 0)
+    count = 0;
+
   i = 0;
 
   while (len > 0) {
@@ -907,7 +911,7 @@ pgpdf_derive_iterated(unsigned char *out,
 
     left = count;
 
-    while (left >= total) {
+    while (left > 0 && left >= total) {
       hash_update(&hash, salt, salt_len);
       hash_update(&hash, pass, pass_len);
 
-- 
2.43.0


From d14c2a00097f8083303e9e5a13e6dd97cf746309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:01 +0000
Subject: [PATCH 02/15] fix: derive the CCM length field from the nonce length

RFC 3610 sets L = 15 - len(nonce). The code sized the length field from the
message alone, so nonces of 7 to 12 bytes gave non-standard ciphertexts and
tags for messages shorter than that field allows.
---
 src/cipher.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cipher.c b/src/cipher.c
index 659f392..47f84fe 100644
--- a/src/cipher.c
+++ b/src/cipher.c
@@ -6874,9 +6874,8 @@ ccm_setup(ccm_t *mode, const cipher_t *cipher,
   size_t Adata = (aad_len > 0);
   size_t lm = msg_len;
   size_t L = ccm_log256(lm);
-  size_t N = 15 - L;
   size_t M = tag_len;
-  size_t i;
+  size_t N, i;
 
   /* Sanity checks (should already be initialized). */
   if (cipher->size != 16)
@@ -6885,6 +6884,12 @@ ccm_setup(ccm_t *mode, const cipher_t *cipher,
   if (iv_len < 7 || iv_len > 13)
     return 0;
 
+  /* The nonce and the length field fill the block. */
+  if (L < 15 - iv_len)
+    L = 15 - iv_len;
+
+  N = 15 - L;
+
   if (N < 7 || N > 13)
     return 0;
 
-- 
2.43.0


From 7db4f70290b0da002cd8ee607d20afa7f0c47753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:37 +0000
Subject: [PATCH 03/15] fix: follow RFC 2268 for effective key sizes of 1017 to
 1023 bits

The first byte of the expanded key went through the substitution table twice
when the reduction started at that byte.
---
 src/cipher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cipher.c b/src/cipher.c
index 47f84fe..04585a3 100644
--- a/src/cipher.c
+++ b/src/cipher.c
@@ -1099,8 +1099,6 @@ arc2_init(arc2_t *ctx,
   for (i = key_len; i < 128; i++)
     L[i] = PI[(L[i - key_len] + L[i - 1]) & 0xff];
 
-  L[0] = PI[L[0]];
-
   if (ekb > 0 && ekb < 1024) {
     len = (ekb + 7) >> 3;
 
@@ -1113,6 +1111,8 @@ arc2_init(arc2_t *ctx,
       x = PI[x ^ L[i + len]];
       L[i] = x;
     }
+  } else {
+    L[0] = PI[L[0]];
   }
 
   for (i = 0; i < 64; i++)
-- 
2.43.0


From 7ff05abcfd7415de37317f48c931e307e579d27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:22 +0000
Subject: [PATCH 04/15] fix: do not shift table bytes into the sign bit in AES
 decryption

A byte above 0x7f promoted to int and shifted left by 24 is undefined.
---
 src/cipher.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cipher.c b/src/cipher.c
index 04585a3..0007379 100644
--- a/src/cipher.c
+++ b/src/cipher.c
@@ -990,25 +990,25 @@ aes_decrypt(const aes_t *ctx, unsigned char *dst, const unsigned char *src) {
        ^ K[3];
   }
 
-  s0 = (TD4[(t0 >> 24) & 0xff] << 24)
+  s0 = ((uint32_t)TD4[(t0 >> 24) & 0xff] << 24)
      ^ (TD4[(t3 >> 16) & 0xff] << 16)
      ^ (TD4[(t2 >>  8) & 0xff] <<  8)
      ^ (TD4[(t1 >>  0) & 0xff] <<  0)
      ^ K[0];
 
-  s1 = (TD4[(t1 >> 24) & 0xff] << 24)
+  s1 = ((uint32_t)TD4[(t1 >> 24) & 0xff] << 24)
      ^ (TD4[(t0 >> 16) & 0xff] << 16)
      ^ (TD4[(t3 >>  8) & 0xff] <<  8)
      ^ (TD4[(t2 >>  0) & 0xff] <<  0)
      ^ K[1];
 
-  s2 = (TD4[(t2 >> 24) & 0xff] << 24)
+  s2 = ((uint32_t)TD4[(t2 >> 24) & 0xff] << 24)
      ^ (TD4[(t1 >> 16) & 0xff] << 16)
      ^ (TD4[(t0 >>  8) & 0xff] <<  8)
      ^ (TD4[(t3 >>  0) & 0xff] <<  0)
      ^ K[2];
 
-  s3 = (TD4[(t3 >> 24) & 0xff] << 24)
+  s3 = ((uint32_t)TD4[(t3 >> 24) & 0xff] << 24)
      ^ (TD4[(t2 >> 16) & 0xff] << 16)
      ^ (TD4[(t1 >>  8) & 0xff] <<  8)
      ^ (TD4[(t0 >>  0) & 0xff] <<  0)
-- 
2.43.0


From f8da27081b0260268238cd92388ec515560d0a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:17 +0000
Subject: [PATCH 05/15] fix: keep the operand sign when gcdext outputs overlap
 its inputs

With one operand zero, the sign of the other was read after the gcd had
been stored, possibly over that operand, which gave a wrong cofactor.
---
 src/mpi.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 4c1a0d1..9c0d277 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -7484,8 +7484,11 @@ mpz_gcdext(mpz_ptr g, mpz_ptr s, mpz_ptr t, mpz_srcptr x, mpz_srcptr y) {
    */
   mpz_t u, v, A, B, C, D, up, vp;
   mp_bits_t uz, vz, shift;
+  int sign;
 
   if (x->size == 0) {
+    sign = mpz_sgn(y);
+
     if (g != NULL)
       mpz_abs(g, y);
 
@@ -7493,17 +7496,19 @@ mpz_gcdext(mpz_ptr g, mpz_ptr s, mpz_ptr t, mpz_srcptr x, mpz_srcptr y) {
       s->size = 0;
 
     if (t != NULL)
-      mpz_set_si(t, mpz_sgn(y));
+      mpz_set_si(t, sign);
 
     return;
   }
 
   if (y->size == 0) {
+    sign = mpz_sgn(x);
+
     if (g != NULL)
       mpz_abs(g, x);
 
     if (s != NULL)
-      mpz_set_si(s, mpz_sgn(x));
+      mpz_set_si(s, sign);
 
     if (t != NULL)
       t->size = 0;
-- 
2.43.0


From 9f3e4d639ab992c2316235f1fe95293af81e7f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:33 +0000
Subject: [PATCH 06/15] fix: return the preceding Fibonacci and Lucas numbers
 for n = 0

F[-1] is 1 and L[-1] is -1; both were reported as zero.
---
 src/mpi.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 9c0d277..dbfc349 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -8398,8 +8398,9 @@ mpz_fib2_ui(mpz_ptr fn, mpz_ptr fn1, mp_limb_t n) {
   mp_bits_t i;
 
   if (n == 0) {
+    /* F[-1] = 1 */
     if (fn1 != NULL)
-      fn1->size = 0;
+      mpz_set_ui(fn1, 1);
 
     fn->size = 0;
 
@@ -8457,8 +8458,9 @@ mpz_lucnum2_ui(mpz_ptr ln, mpz_ptr ln1, mp_limb_t n) {
   mpz_t fn, fn1;
 
   if (n == 0) {
+    /* L[-1] = -1 */
     if (ln1 != NULL)
-      ln1->size = 0;
+      mpz_set_si(ln1, -1);
 
     mpz_set_ui(ln, 2);
 
-- 
2.43.0


From 3bdf475b7a10d73c6a4d7b7ba8bb8543766e4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:16 +0000
Subject: [PATCH 07/15] fix: set and clear bits of negative integers in two's
 complement

When all lower bits were zero, changing the magnitude's bit gave a wrong
value, e.g. clearing bit 2 of -4 returned 0 instead of -8.
---
 src/mpi.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index dbfc349..c80c793 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -7248,18 +7248,34 @@ mpz_clrbit_abs(mpz_ptr z, mp_bits_t pos) {
 
 void
 mpz_setbit(mpz_ptr z, mp_bits_t pos) {
-  if (z->size < 0 && !mpz_divisible_2exp_p(z, pos))
-    mpz_clrbit_abs(z, pos);
-  else
+  mpz_t t;
+
+  if (z->size < 0) {
+    if (!mpz_tstbit(z, pos)) {
+      mpz_init(t);
+      mpz_setbit_abs(t, pos);
+      mpz_add(z, z, t);
+      mpz_clear(t);
+    }
+  } else {
     mpz_setbit_abs(z, pos);
+  }
 }
 
 void
 mpz_clrbit(mpz_ptr z, mp_bits_t pos) {
-  if (z->size < 0 && !mpz_divisible_2exp_p(z, pos))
-    mpz_setbit_abs(z, pos);
-  else
+  mpz_t t;
+
+  if (z->size < 0) {
+    if (mpz_tstbit(z, pos)) {
+      mpz_init(t);
+      mpz_setbit_abs(t, pos);
+      mpz_sub(z, z, t);
+      mpz_clear(t);
+    }
+  } else {
     mpz_clrbit_abs(z, pos);
+  }
 }
 
 void
-- 
2.43.0


From 84feb252a7c5cff0ddf62aaa74365b1a25b28d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:24 +0000
Subject: [PATCH 08/15] fix: reject the zero preimage in the SSWU inverse

The point with x = -b / a inverted to u = 0 for two of the four hints.
u = 0 maps to x = b / (z * a), so the preimage was wrong on P192 and P384.
---
 src/ecc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index 9a869c6..809324e 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -4942,6 +4942,9 @@ wei_sswui(const wei_t *ec, fe_t u, const wge_t *p, unsigned int hint) {
 
   ret &= fe_isqrt(fe, u, n0, d0);
 
+  /* u = 0 never maps to x = -b / a. */
+  ret &= fe_is_zero(fe, u) ^ 1;
+
   fe_set_odd(fe, u, u, fe_is_odd(fe, p->y));
 
   ret &= p->inf ^ 1;
-- 
2.43.0


From 37f7edf0a095462e243e505b6de03721ef0916de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:24 +0000
Subject: [PATCH 09/15] fix: reject the zero preimage of odd points in the SVDW
 inverse

The sign of u carries the parity of y, but zero has no sign.
u = 0 was returned for a point with an odd y and mapped to its negation.
---
 src/ecc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index 809324e..87b8311 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -5167,6 +5167,9 @@ wei_svdwi(const wei_t *ec, fe_t u, const wge_t *p, unsigned int hint) {
 
   ret &= fe_equal(fe, n0, p->x);
 
+  /* u = 0 only maps to an even y. */
+  ret &= (fe_is_zero(fe, u) & fe_is_odd(fe, p->y)) ^ 1;
+
   fe_set_odd(fe, u, u, fe_is_odd(fe, p->y));
 
   ret &= p->inf ^ 1;
-- 
2.43.0


From 6f98b26276ca17969920ad1330a8c47c6a62c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:24 +0000
Subject: [PATCH 10/15] fix: reject wrong zero preimages in the Edwards
 Elligator inverse

u = 0 maps to (-A, y) with an even y whenever g(-A) is square.
On Ed1174 it was also returned for the odd y and for the 2-torsion point.
---
 src/ecc.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index 87b8311..f8ac19d 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -7760,6 +7760,14 @@ edwards_invert2(const edwards_t *ec, fe_t u,
 
   ret &= fe_isqrt(fe, u, n, d);
 
+  /* u = 0 maps to (-A, y) with an even y if g(-A) is square. */
+  fe_neg(fe, d, ec->A0);
+  edwards_solve_y0(ec, d, d);
+
+  ret &= (fe_is_zero(fe, u)
+        & fe_is_square(fe, d)
+        & (fe_is_zero(fe, x0) | fe_is_odd(fe, y0))) ^ 1;
+
   fe_set_odd(fe, u, u, fe_is_odd(fe, y0));
 
   ret &= m.inf ^ 1;
-- 
2.43.0


From fb5b89bf6936c274db21715c73511deef9949176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:17 +0000
Subject: [PATCH 11/15] fix: follow the map's definition at zero in the
 Ristretto Elligator

The map is documented to take the second formula when r = 0. On Ed1174
the first one has a square root there as well, so zero was sent to another
element than the identity, and the inverse returned zero as a preimage of
the identity.
---
 src/ecc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index f8ac19d..c31bd4c 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -7982,6 +7982,9 @@ ristretto_elligator(const edwards_t *ec, rge_t *p0, const fe_t r0) {
   /* S = sqrt(NS / D) */
   sqr = fe_rsqrt(fe, s, ns, d);
 
+  /* Prefer the second formula if R = 0 */
+  sqr &= fe_is_zero(fe, r) ^ 1;
+
   /* S' = S * R0 */
   fe_mul(fe, sp, s, r0);
 
-- 
2.43.0


From f2f3fe1deac66a6a51299c95909b51d600356eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:17 +0000
Subject: [PATCH 12/15] fix: start the Ristretto key grinding from a zero tweak

The counter was incremented without having been initialised.
---
 src/ecc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index c31bd4c..8635de2 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -14636,6 +14636,8 @@ ristretto_pubkey_grind(const edwards_t *ec,
   if (!rge_import(ec, &A, pub))
     return 0;
 
+  sc_zero(sc, t);
+
   do {
     xge_mixed_add(ec, &A, &A, &ec->g);
 
-- 
2.43.0


From 8b0e0a0082aec00ed0533ac3591996a7641d71d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:17 +0000
Subject: [PATCH 13/15] fix: use the field's width for the Ed448 Ristretto
 constants

The constants were padded to 64 bytes but are read as 56 bytes, so every
one of them had a wrong value and the Ed448 hash-to-group maps gave
encodings which could not be decoded.
---
 src/ecc.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/ecc.c b/src/ecc.c
index 8635de2..9f06906 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -9644,7 +9644,6 @@ static const ristretto_def_t ristretto_ed25519 = {
 
 static const ristretto_def_t ristretto_ed448 = {
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
@@ -9654,7 +9653,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xdd, 0x26, 0x9d, 0x04, 0x14, 0xdb, 0x08, 0x97,
     0xc4, 0x09, 0x72, 0x8d, 0xd0, 0x5d, 0x95, 0x5f,
     0x5e, 0x0e, 0x58, 0x47, 0x5a, 0x47, 0x2a, 0xb4,
@@ -9664,7 +9662,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0x69, 0xbd, 0x10, 0xf0, 0xba, 0xa8, 0xd8, 0xc9
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0x12, 0xfe, 0xc0, 0xc0, 0xb2, 0x5b, 0x7a, 0x49,
     0x44, 0x3b, 0x87, 0x48, 0x73, 0x4a, 0xdc, 0xac,
     0x46, 0x28, 0xc5, 0xf6, 0x56, 0xa4, 0x9f, 0x7b,
@@ -9674,7 +9671,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0x79, 0xd2, 0xe2, 0x18, 0x36, 0x74, 0x9f, 0x46
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xdf, 0x64, 0x97, 0xe8, 0x36, 0xd1, 0x56, 0x79,
     0x5a, 0x71, 0x30, 0xf4, 0x3e, 0x77, 0x86, 0x9a,
     0x11, 0x73, 0xae, 0x0c, 0x1e, 0x2c, 0x4c, 0x2b,
@@ -9684,7 +9680,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0x5a, 0x06, 0x38, 0xbe, 0xa7, 0x8f, 0x0f, 0xeb
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0x18, 0xa4, 0xc3, 0x28, 0x4c, 0xb8, 0xad, 0x25,
     0xad, 0xee, 0xea, 0x76, 0x1f, 0x20, 0xf6, 0x83,
     0xbf, 0x3a, 0x1e, 0x14, 0xa5, 0xcf, 0x79, 0x00,
-- 
2.43.0


From a11a3347d1e6a70ec6b78a0a545b70284b873c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:08 +0000
Subject: [PATCH 14/15] fix: report failure of the hardware source when rdrand
 never succeeds

A processor with rdrand but without rdseed whose rdrand keeps failing made
the entropy request return success with a buffer of zeros.
---
 src/entropy/hw.c | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/entropy/hw.c b/src/entropy/hw.c
index a8d1b3a..3d82f0e 100644
--- a/src/entropy/hw.c
+++ b/src/entropy/hw.c
@@ -574,16 +574,24 @@ torsion_rdseed_step(step_word_t *z) {
  * Polling
  */
 
-static step_word_t
-torsion_rdrand(void) {
-  step_word_t z = 0;
+static int
+torsion_rdrand_retry(step_word_t *z) {
   int i;
 
   for (i = 0; i < 10; i++) {
-    if (torsion_rdrand_step(&z))
-      break;
+    if (torsion_rdrand_step(z))
+      return 1;
   }
 
+  return 0;
+}
+
+static step_word_t
+torsion_rdrand(void) {
+  step_word_t z = 0;
+
+  torsion_rdrand_retry(&z);
+
   return z;
 }
 
@@ -697,8 +705,8 @@ torsion_hwrand(void *dst, size_t size) {
   unsigned char *data = (unsigned char *)dst;
   int has_rdrand = torsion_has_rdrand();
   int has_rdseed = torsion_has_rdseed();
-  step_word_t x;
-  int i;
+  step_word_t x, z;
+  int i, ok;
 
   if (!has_rdrand && !has_rdseed)
     goto fail;
@@ -711,10 +719,20 @@ torsion_hwrand(void *dst, size_t size) {
       x = torsion_rdseed();
     } else {
       x = 0;
+      ok = 0;
 
       /* Idea from Bitcoin Core: force rdrand to reseed. */
-      for (i = 0; i < 1024; i++)
-        x ^= torsion_rdrand();
+      for (i = 0; i < 1024; i++) {
+        if (torsion_rdrand_retry(&z)) {
+          x ^= z;
+          ok = 1;
+        }
+      }
+
+      if (!ok) {
+        size += data - (unsigned char *)dst;
+        goto fail;
+      }
     }
 
     if (size < sizeof(x)) {
-- 
2.43.0


From e517c5a66eefc693400081c885e68d387c433fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:58:09 +0000
Subject: [PATCH 15/15] fix: keep the DSA nonce out of memory released while
 signing

Blinding multiplied the nonce in place. The product is longer, so the
number had to be moved and its old block was released with the nonce in it.
Multiply into another number instead.
---
 src/dsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsa.c b/src/dsa.c
index 6630504..366138e 100644
--- a/src/dsa.c
+++ b/src/dsa.c
@@ -1381,8 +1381,8 @@ dsa_sign(unsigned char *out, size_t *out_len,
       continue;
 
     /* Blind. */
-    mpz_mul(k, k, b);
-    mpz_mod(k, k, priv.q);
+    mpz_mul(s, k, b);
+    mpz_mod(k, s, priv.q);
     mpz_mul(bx, priv.x, b);
     mpz_mod(bx, bx, priv.q);
     mpz_mul(bm, m, b);
-- 
2.43.0


From 238f2bc061b23db1ec65fd8fb2c4dd293a3a95a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 01/58] fix: comba multiplication and squaring kept the stale
 sign of the destination

---
 src/mpi/mpi_mul_comba.c | 1 +
 src/mpi/mpi_sqr_comba.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mpi/mpi_mul_comba.c b/src/mpi/mpi_mul_comba.c
index 11804c3..08c0fd0 100644
--- a/src/mpi/mpi_mul_comba.c
+++ b/src/mpi/mpi_mul_comba.c
@@ -61,6 +61,7 @@ int cry_mpi_mul_comba(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
         cry_mpi_swap(r, dst);
         cry_mpi_clear(dst);
     }
+    r->sign = 0;
     cry_mpi_adjust(r);
     return 0;
 }
diff --git a/src/mpi/mpi_sqr_comba.c b/src/mpi/mpi_sqr_comba.c
index f0d1e95..f0d8f63 100644
--- a/src/mpi/mpi_sqr_comba.c
+++ b/src/mpi/mpi_sqr_comba.c
@@ -85,6 +85,7 @@ int cry_mpi_sqr_comba(cry_mpi *r, const cry_mpi *a)
         cry_mpi_swap(r, dst);
         cry_mpi_clear(dst);
     }
+    r->sign = 0;
     cry_mpi_adjust(r);
 
     return res;
-- 
2.43.0


From d1b61c55333d2f9824d9498c708908f390a9b58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 02/58] fix: gcd with a zero operand returned 0 and read
 uninitialised digits

---
 src/mpi/mpi_gcd.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mpi/mpi_gcd.c b/src/mpi/mpi_gcd.c
index de43d33..790cf14 100644
--- a/src/mpi/mpi_gcd.c
+++ b/src/mpi/mpi_gcd.c
@@ -27,6 +27,11 @@ int cry_mpi_gcd(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
     cry_mpi tx, ty;
     size_t lz, lzt;
 
+    if (cry_mpi_is_zero(x))
+        return cry_mpi_abs(r, y);
+    if (cry_mpi_is_zero(y))
+        return cry_mpi_abs(r, x);
+
     if ((res = cry_mpi_init_list(&tx, &ty, (cry_mpi *)NULL)) != 0)
         return res;
 
-- 
2.43.0


From 35ee9c8d49dbeabac2868028fd178718e847f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 03/58] fix: gcd dropped errors of its inner steps

---
 src/mpi/mpi_gcd.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mpi/mpi_gcd.c b/src/mpi/mpi_gcd.c
index 790cf14..7dfa6fd 100644
--- a/src/mpi/mpi_gcd.c
+++ b/src/mpi/mpi_gcd.c
@@ -51,19 +51,20 @@ int cry_mpi_gcd(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
     while (!cry_mpi_is_zero(&tx)) {
         if ((res = cry_mpi_shr(&tx, &tx, cry_mpi_lsb(&tx))) != 0 ||
             (res = cry_mpi_shr(&ty, &ty, cry_mpi_lsb(&ty))) != 0)
-            break;
+            goto e;
 
         if (cry_mpi_cmp_abs(&tx, &ty) >= 0) {
             if ((res = cry_mpi_sub_abs(&tx, &tx, &ty)) != 0 ||
                 (res = cry_mpi_shr(&tx, &tx, 1)) != 0)
-                break;
+                goto e;
         } else {
             if ((res = cry_mpi_sub_abs(&ty, &ty, &tx)) != 0 ||
                 (res = cry_mpi_shr(&ty, &ty, 1)) != 0)
-                break;
+                goto e;
         }
     }
-    res = cry_mpi_shl(&ty, &ty, lz);
+    if ((res = cry_mpi_shl(&ty, &ty, lz)) != 0)
+        goto e;
     cry_mpi_swap(r, &ty);
 e:  cry_mpi_clear_list(&tx, &ty, (cry_mpi *)NULL);
     return res;
-- 
2.43.0


From 9b5699e9ea6ab26ddfbfbf04b4dd32a25122b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 04/58] fix: modular inverse ignored errors and could report a
 wrong inverse as success

---
 src/mpi/mpi_inv.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/mpi/mpi_inv.c b/src/mpi/mpi_inv.c
index ae0d6c5..02f34c8 100644
--- a/src/mpi/mpi_inv.c
+++ b/src/mpi/mpi_inv.c
@@ -17,19 +17,22 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *a, const cry_mpi *m)
                                  (cry_mpi *)NULL)) != 0)
         return ret;
 
-    cry_mpi_copy(&r0, a);
-    cry_mpi_copy(&r1, m);
-    cry_mpi_set_int(&s0, 1);
-    cry_mpi_set_int(&s1, 0);
+    if ((ret = cry_mpi_copy(&r0, a)) != 0 ||
+        (ret = cry_mpi_copy(&r1, m)) != 0 ||
+        (ret = cry_mpi_set_int(&s0, 1)) != 0)
+        goto e;
+    cry_mpi_zero(&s1);
 
     while (!cry_mpi_is_zero(&r1)) {
         /* r2 = r0 - q1*r1 */
-        cry_mpi_div(&q, &r0, &r0, &r1);
+        if ((ret = cry_mpi_div(&q, &r0, &r0, &r1)) != 0)
+            goto e;
         cry_mpi_swap(&r0, &r1);
 
         /* s2 = s0 - q1*s1 */
-        cry_mpi_mul(&q, &q, &s1);
-        cry_mpi_sub(&s0, &s0, &q);
+        if ((ret = cry_mpi_mul(&q, &q, &s1)) != 0 ||
+            (ret = cry_mpi_sub(&s0, &s0, &q)) != 0)
+            goto e;
         cry_mpi_swap(&s0, &s1);
 
         cry_mpi_zero(&q);
@@ -37,14 +40,13 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *a, const cry_mpi *m)
 
     /* Check that the GCD is 1, necessary condition */
     if (r0.used == 1 && r0.sign == 0 && r0.data[0] == 1) {
+        if (s0.sign && (ret = cry_mpi_mod(&s0, &s0, m)) != 0)
+            goto e;
         cry_mpi_swap(r, &s0);
-        if (r->sign)
-            cry_mpi_mod(r, r, m);
     } else {
-        cry_mpi_zero(&s0);
         ret = -1;
     }
-    cry_mpi_clear_list(&r0, &r1, &s0, &s1, &q, (cry_mpi *)NULL);
+e:  cry_mpi_clear_list(&r0, &r1, &s0, &s1, &q, (cry_mpi *)NULL);
     return ret;
 }
 
-- 
2.43.0


From 88bf1207dbe69b3d77281dc3e0f88b80de513bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 05/58] fix: modular exponentiation went on with an
 uninitialised accumulator

---
 src/mpi/mpi_mod_exp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_mod_exp.c b/src/mpi/mpi_mod_exp.c
index ee15d00..9cbca8c 100644
--- a/src/mpi/mpi_mod_exp.c
+++ b/src/mpi/mpi_mod_exp.c
@@ -13,7 +13,8 @@ int cry_mpi_mod_exp(cry_mpi *r, const cry_mpi *b, const cry_mpi *e,
     if (cry_mpi_is_neg(e) || (m != NULL && cry_mpi_is_neg(m)))
         return -1;
 
-    res = cry_mpi_init_int(&exp, 1);
+    if ((res = cry_mpi_init_int(&exp, 1)) != 0)
+        return res;
     bits = cry_mpi_count_bits(e);
     while (bits-- > 0) {
         if ((res = cry_mpi_sqr(&exp, &exp)) != 0 ||
-- 
2.43.0


From cabef8f4740abb634c09cd7033750a11d7fdbc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 06/58] fix: signed division crashed without a remainder, lost
 the sign of exact quotients and the error of the rounding step

---
 src/mpi/mpi_div.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/mpi/mpi_div.c b/src/mpi/mpi_div.c
index 8e77028..745a3d7 100644
--- a/src/mpi/mpi_div.c
+++ b/src/mpi/mpi_div.c
@@ -5,10 +5,24 @@ int cry_mpi_div(cry_mpi *q, cry_mpi *r, const cry_mpi *a,
 {
     int res, sign = a->sign ^ b->sign;
 
+    if (sign != 0 && r == NULL) {
+        /* the remainder is required to round the quotient */
+        cry_mpi rem;
+
+        if ((res = cry_mpi_init(&rem)) != 0)
+            return res;
+        res = cry_mpi_div(q, &rem, a, b);
+        cry_mpi_clear(&rem);
+        return res;
+    }
+
     if ((res = cry_mpi_div_abs(q, r, a, b)) != 0)
         return res;
 
-    if (sign != 0 && !cry_mpi_is_zero(r)) {
+    if (sign != 0 && cry_mpi_is_zero(r)) {
+        if (q != NULL && !cry_mpi_is_zero(q))
+            q->sign = 1;
+    } else if (sign != 0) {
         if (q != NULL) {
             cry_mpi one;
             cry_mpi_digit one_dig = 1;
@@ -17,10 +31,10 @@ int cry_mpi_div(cry_mpi *q, cry_mpi *r, const cry_mpi *a,
             one.used = one.alloc = 1;
             one.data = &one_dig;
             q->sign = 1;
-            res = cry_mpi_sub(q, q, &one);
+            if ((res = cry_mpi_sub(q, q, &one)) != 0)
+                return res;
         }
-        if (r != NULL)
-            res = cry_mpi_sub_abs(r, b, r);
+        res = cry_mpi_sub_abs(r, b, r);
     }
     return res;
 }
-- 
2.43.0


From be90ecf2f893844bc1ba5dd38b953c0c0bc8cb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 07/58] fix: right shift of a negative number to zero produced
 a negative zero

---
 src/mpi/mpi_shr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpi/mpi_shr.c b/src/mpi/mpi_shr.c
index 7e72a95..65556db 100644
--- a/src/mpi/mpi_shr.c
+++ b/src/mpi/mpi_shr.c
@@ -70,5 +70,7 @@ int cry_mpi_shr(cry_mpi *c, const cry_mpi *a, size_t n)
         }
     }
     cry_mpi_adjust(c);
+    if (cry_mpi_is_zero(c))
+        c->sign = 0;
     return 0;
 }
-- 
2.43.0


From c56a0f224e5087ea218828f1161244566fd4c9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 08/58] fix: loading a binary number kept the stale sign of the
 destination

---
 src/mpi/mpi_bin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpi/mpi_bin.c b/src/mpi/mpi_bin.c
index 4890ed8..3198110 100644
--- a/src/mpi/mpi_bin.c
+++ b/src/mpi/mpi_bin.c
@@ -27,6 +27,7 @@ int cry_mpi_load_bin(cry_mpi *x, const void *buf, size_t size)
             return res;
     }
     x->used = i;
+    x->sign = 0;
 
     d = 0;
     while (size--) {
-- 
2.43.0


From 64aed36dd8c99f19d10d79e21bac55ec52ca540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 09/58] fix: conversion to long accepted negative numbers that
 do not fit

---
 src/mpi/mpi_core.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mpi/mpi_core.c b/src/mpi/mpi_core.c
index f7f2bbe..8b19041 100644
--- a/src/mpi/mpi_core.c
+++ b/src/mpi/mpi_core.c
@@ -80,7 +80,7 @@ int cry_mpi_set_int(cry_mpi *a, long val)
 
     if (val < 0) {
         a->sign = 1;
-        uval = (unsigned long)-val;
+        uval = 0UL - (unsigned long)val;
     } else {
         a->sign = 0;
         uval = (unsigned long)val;
@@ -100,11 +100,10 @@ int cry_mpi_get_int(cry_mpi *a, long *val)
 {
     size_t used;
     size_t i;
-    long rval = 0;
+    unsigned long rval = 0;
 
     used = cry_mpi_count_bits(a);
-    /* consider the sign bit */
-    if (used > 8*sizeof(long) - ((a->sign == 0) ? 1 : 0))
+    if (used > 8*sizeof(long))
         return -1;
     i = a->used;
     while (i-- > 0) {
@@ -113,7 +112,10 @@ int cry_mpi_get_int(cry_mpi *a, long *val)
 #endif
         rval |= a->data[i];
     }
-    *val = (a->sign == 0) ? rval : -rval;
+    /* the magnitude limit depends on the sign */
+    if (rval > (unsigned long)LONG_MAX + ((a->sign == 0) ? 0 : 1))
+        return -1;
+    *val = (a->sign == 0) ? (long)rval : (long)(0UL - rval);
     return 0;
 }
 
-- 
2.43.0


From bef0c92dd114ed8e60bee7309da468bf7a648f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 10/58] fix: string conversion ignored an error while setting
 the radix

---
 src/mpi/mpi_str.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_str.c b/src/mpi/mpi_str.c
index b79df31..52d1c69 100644
--- a/src/mpi/mpi_str.c
+++ b/src/mpi/mpi_str.c
@@ -159,7 +159,8 @@ int cry_mpi_store_str(const cry_mpi *a, unsigned int radix, char *s)
 
     if ((ret = cry_mpi_copy(&tmp, a)) != 0)
         goto e;
-    cry_mpi_set_int(&rad, radix);
+    if ((ret = cry_mpi_set_int(&rad, radix)) != 0)
+        goto e;
 
     while (!cry_mpi_is_zero(&tmp)) {
         if ((ret = cry_mpi_div_abs(&tmp, &rem, &tmp, &rad)) != 0)
-- 
2.43.0


From d15267bcae151a05ed418926a229d1f2bbf5d994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 11/58] fix: printing in a radix below 16 overflowed the buffer

---
 src/mpi/mpi_print.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_print.c b/src/mpi/mpi_print.c
index a00622b..2186b79 100644
--- a/src/mpi/mpi_print.c
+++ b/src/mpi/mpi_print.c
@@ -8,7 +8,8 @@ void cry_mpi_print(const cry_mpi *a, unsigned int radix)
     size_t len;
     int ret;
 
-    len = 2*cry_mpi_count_bytes(a) + 2; /* space for NULL and sign */
+    /* one character per bit at most (radix 2), space for NULL and sign */
+    len = cry_mpi_count_bits(a) + 3;
     if ((s = malloc(len)) == NULL) {
         fprintf(stderr, "cry_mpi_print: out of memory error\n");
         return;
-- 
2.43.0


From dc3a2bf0c8c2de31350d2debe229716c4962b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 12/58] fix: random numbers with leading zero bytes touched
 digits outside of the number

---
 src/mpi/mpi_rand.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpi/mpi_rand.c b/src/mpi/mpi_rand.c
index d1072d0..f6c87fb 100644
--- a/src/mpi/mpi_rand.c
+++ b/src/mpi/mpi_rand.c
@@ -24,6 +24,10 @@ int cry_mpi_rand(cry_mpi *r, size_t bits)
         goto e;
 
     digs = CRY_MPI_BITS_TO_DIGS(bits);
+    if ((res = cry_mpi_grow(r, digs)) != 0)
+        goto e;
+    while (r->used < digs)
+        r->data[r->used++] = 0; /* Leading zeros are stripped by the load */
     msb = bits - CRY_MPI_DIGIT_BITS * (digs - 1);
     if (msb < CRY_MPI_DIGIT_BITS)
         r->data[digs-1] &= ((cry_mpi_digit)1 << msb) - 1; /* Clear extra bits */
-- 
2.43.0


From b6e266d6a326c97e312ed1cc7b08e482d7087f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 13/58] fix: Miller-Rabin with base zero rejected primes

---
 src/mpi/mpi_prime.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpi/mpi_prime.c b/src/mpi/mpi_prime.c
index aa4785d..80f8d92 100644
--- a/src/mpi/mpi_prime.c
+++ b/src/mpi/mpi_prime.c
@@ -144,8 +144,12 @@ static int passes_miller_rabin(const cry_mpi *p)
         goto e;
     }
 
-    /* Initialize a as a random number less than p */
-    if ((res = cry_mpi_rand_range(&a, p)) < 0)
+    /* Initialize a as a random number in [1, p-1] */
+    if ((res = cry_mpi_sub(&tmp, p, &one)) < 0)
+        goto e;
+    if ((res = cry_mpi_rand_range(&a, &tmp)) < 0)
+        goto e;
+    if ((res = cry_mpi_add(&a, &a, &one)) < 0)
         goto e;
 
     /* z = a^m mod p */
-- 
2.43.0


From 60334dec23eb598b983d82d4d47eb09336440c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 14/58] fix: the primality test did not terminate for 1 and was
 random for 2

---
 src/mpi/mpi_prime.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mpi/mpi_prime.c b/src/mpi/mpi_prime.c
index 80f8d92..29cdc4d 100644
--- a/src/mpi/mpi_prime.c
+++ b/src/mpi/mpi_prime.c
@@ -199,6 +199,11 @@ int cry_mpi_is_prime(const cry_mpi *p)
 {
     int i, res;
 
+    if (cry_mpi_is_neg(p) || cry_mpi_count_bits(p) < 2)
+        return 0; /* less than 2 */
+    if (cry_mpi_is_even(p))
+        return (cry_mpi_count_bits(p) == 2 && p->data[0] == 2) ? 1 : 0;
+
     res = is_obviously_not_prime(p);
     switch (res) {
     case 0:
-- 
2.43.0


From 99eace42c6a5625b3be540e061d726f04bd583cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 15/58] fix: a prime found by the last allowed iteration was
 reported as an error

---
 src/mpi/mpi_prime.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mpi/mpi_prime.c b/src/mpi/mpi_prime.c
index 29cdc4d..ee2e8f8 100644
--- a/src/mpi/mpi_prime.c
+++ b/src/mpi/mpi_prime.c
@@ -268,9 +268,8 @@ int cry_mpi_prime(cry_mpi *p, size_t bits, unsigned int *iter)
             res = 0;
             break;
         }
+        res = -1; /* not found yet */
     }
-    if (i == itermax)
-        res = -1;
     if (iter)
         *iter = i;
     return res;
-- 
2.43.0


From d18b5c1770f115b8165a6cd9f25f889092b09b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:24 +0000
Subject: [PATCH 16/58] fix: setting a point to infinity could silently fail
 for lack of memory

---
 include/cry/ecp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cry/ecp.h b/include/cry/ecp.h
index 48cb7cf..5493878 100644
--- a/include/cry/ecp.h
+++ b/include/cry/ecp.h
@@ -80,7 +80,7 @@ void cry_ecp_clear_list(cry_ecp *p, ... /* (cry_ecp *)NULL */);
 #define cry_ecp_set_zero(p) do { \
     cry_mpi_set_int(&(p)->x, 1); \
     cry_mpi_set_int(&(p)->y, 1); \
-    cry_mpi_set_int(&(p)->z, 0); \
+    cry_mpi_zero(&(p)->z);       \
 } while (0)
 
 #define cry_ecp_swap(a, b) do {     \
-- 
2.43.0


From 4bca8ada026850c53d591c4545c03f697e3d6854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:24 +0000
Subject: [PATCH 17/58] fix: ECDH context initialisation ignored errors

---
 src/crypt/ecdh.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/crypt/ecdh.c b/src/crypt/ecdh.c
index 0daed65..1dc82a4 100644
--- a/src/crypt/ecdh.c
+++ b/src/crypt/ecdh.c
@@ -2,11 +2,19 @@
 
 int cry_ecdh_init(cry_ecdh_ctx *ctx)
 {
-    cry_ecp_grp_init(&ctx->ec);
-    cry_mpi_init(&ctx->d);
-    cry_ecp_init(&ctx->q);
-    cry_ecp_init(&ctx->z);
+    int res;
+
+    if ((res = cry_ecp_grp_init(&ctx->ec)) != 0)
+        return res;
+    if ((res = cry_mpi_init(&ctx->d)) != 0)
+        goto e1;
+    if ((res = cry_ecp_init_list(&ctx->q, &ctx->z, (cry_ecp *)NULL)) != 0)
+        goto e2;
     return 0;
+
+e2: cry_mpi_clear(&ctx->d);
+e1: cry_ecp_grp_clear(&ctx->ec);
+    return res;
 }
 
 void cry_ecdh_clear(cry_ecdh_ctx *ctx)
-- 
2.43.0


From 0fbf088bdaa8c2d10a3b17c73b9820ad2cc3984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 18/58] fix: DSA ignored errors and could accept or report bad
 signatures and keys

---
 src/crypt/dsa.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index f29537d..e3bf110 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -2,7 +2,7 @@
 #include "../misc.h"
 
 
-#define CHK(exp) CRY_CHK(exp, e)
+#define CHK(exp) CRY_CHK(res = (exp), e)
 
 /*
  * Generate a non zero random secret k less than q.
@@ -148,11 +148,12 @@ void cry_dsa_clear(cry_dsa_ctx *ctx)
  */
 int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
 {
-    int res = -1;
+    int res, prime;
     cry_mpi p1, q, r, one;
     unsigned int i, j;
 
-    cry_mpi_init_list(&p1, &q, &r, &one, NULL);
+    if ((res = cry_mpi_init_list(&p1, &q, &r, &one, (cry_mpi *)NULL)) != 0)
+        return res;
     CHK(cry_mpi_set_int(&one, 1));
 
     for (i = 0; i < ITER_MAX_OUT; i++) {
@@ -165,7 +166,11 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
             CHK(cry_mpi_mod(&r, &ctx->p, &r));
             CHK(cry_mpi_sub(&ctx->p, &ctx->p, &r));
             CHK(cry_mpi_add(&ctx->p, &ctx->p, &one));
-            if (cry_mpi_is_prime(&ctx->p))
+            if ((prime = cry_mpi_is_prime(&ctx->p)) < 0) {
+                res = prime;
+                goto e;
+            }
+            if (prime != 0)
                 break;
         }
         if (j == ITER_MAX_IN)
@@ -185,11 +190,12 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
         if (j == ITER_MAX_IN)
             continue; /* Retry */
         /* Finally compute public and public keys */
-        cry_mpi_rand_range(&ctx->pvt, &q);
-        cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p);
-        res = 0;
+        CHK(cry_mpi_rand_range(&ctx->pvt, &q));
+        CHK(cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p));
         break;
     }
-e:  cry_mpi_clear_list(&p1, &q, &r, &one, NULL);
+    if (i == ITER_MAX_OUT)
+        res = -1; /* Not found */
+e:  cry_mpi_clear_list(&p1, &q, &r, &one, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 4bbf7a5f33c876b5d1529112332b7a833e4bd49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 19/58] fix: the DSA private key was not drawn from [1, q-1]

---
 src/crypt/dsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index e3bf110..2db3dbb 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -190,7 +190,7 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
         if (j == ITER_MAX_IN)
             continue; /* Retry */
         /* Finally compute public and public keys */
-        CHK(cry_mpi_rand_range(&ctx->pvt, &q));
+        CHK(secret_gen(&ctx->pvt, &ctx->q));
         CHK(cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p));
         break;
     }
-- 
2.43.0


From a1447c4a60e2abfaf3a384219144a4620024e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 20/58] fix: DSA verify accepted signatures out of range

---
 src/crypt/dsa.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index 2db3dbb..1a7caf2 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -96,6 +96,15 @@ int cry_dsa_verify(cry_dsa_ctx *ctx, const cry_dsa_sig *sig,
         len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
     CHK(cry_mpi_load_bin(&z, in, len));
 
+    /* Both r and s shall be in [1, q-1] */
+    if (cry_mpi_is_neg(&sig->r) || cry_mpi_is_zero(&sig->r) ||
+        cry_mpi_cmp_abs(&sig->r, &ctx->q) >= 0 ||
+        cry_mpi_is_neg(&sig->s) || cry_mpi_is_zero(&sig->s) ||
+        cry_mpi_cmp_abs(&sig->s, &ctx->q) >= 0) {
+        res = -1;
+        goto e;
+    }
+
     /* w = inv(s) mod q */
     CHK(cry_mpi_copy(&w, &sig->s));
     CHK(cry_mpi_inv(&w, &w, &ctx->q));
-- 
2.43.0


From 42f7949910072a504f8609bb2e824ac0b77a3102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 21/58] fix: DSA sign could report a signature with a zero
 component

---
 src/crypt/dsa.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index 1a7caf2..f0ab8c5 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -50,10 +50,13 @@ e:  cry_mpi_clear(&t);
     return res;
 }
 
+#define SIGN_ITER_MAX   64
+
 int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
                  const unsigned char *in, size_t len)
 {
     int res;
+    unsigned int iter = 0;
     cry_mpi k, z;
 
     if ((res = cry_mpi_init_list(&k, &z, (cry_mpi *)NULL)) != 0)
@@ -64,19 +67,28 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
         len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
     CHK(cry_mpi_load_bin(&z, in, len));
 
-    /* k = c mod (q-1) + 1 */
-    CHK(secret_gen(&k, &ctx->q));
+    do {
+        if (iter++ == SIGN_ITER_MAX) {
+            res = -1;
+            break;
+        }
+
+        /* k = c mod (q-1) + 1 */
+        CHK(secret_gen(&k, &ctx->q));
+
+        /* r = (g^k mod p) mod q */
+        CHK(cry_mpi_mod_exp(&sig->r, &ctx->g, &k, &ctx->p));
+        CHK(cry_mpi_mod(&sig->r, &sig->r, &ctx->q));
 
-    /* r = (g^k mod p) mod q */
-    CHK(cry_mpi_mod_exp(&sig->r, &ctx->g, &k, &ctx->p));
-    CHK(cry_mpi_mod(&sig->r, &sig->r, &ctx->q));
+        /* s = (inv(k) * (z + d*r)) mod q */
+        CHK(cry_mpi_inv(&k, &k, &ctx->q));
+        CHK(cry_mpi_mul(&sig->s, &ctx->pvt, &sig->r));
+        CHK(cry_mpi_add(&sig->s, &sig->s, &z));
+        CHK(cry_mpi_mul(&sig->s, &sig->s, &k));
+        CHK(cry_mpi_mod(&sig->s, &sig->s, &ctx->q));
 
-    /* s = (inv(k) * (z + d*r)) mod q */
-    CHK(cry_mpi_inv(&k, &k, &ctx->q));
-    CHK(cry_mpi_mul(&sig->s, &ctx->pvt, &sig->r));
-    CHK(cry_mpi_add(&sig->s, &sig->s, &z));
-    CHK(cry_mpi_mul(&sig->s, &sig->s, &k));
-    CHK(cry_mpi_mod(&sig->s, &sig->s, &ctx->q));
+        /* A new k is required if one of the components is zero */
+    } while (cry_mpi_is_zero(&sig->r) || cry_mpi_is_zero(&sig->s));
 
 e:  cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
     return res;
-- 
2.43.0


From 515773ed5c71a65c6423ed0f917fa63728645d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 22/58] fix: ECDSA sign reported success on errors

---
 src/crypt/ecdsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 251c595..487cf59 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -46,7 +46,7 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
 
 e1: cry_ecp_clear(&X);
 e0: cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
-    return 0;
+    return res;
 }
 
 int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
-- 
2.43.0


From 7303a4ee178494d6c1eeb284957a6035e85b42e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 23/58] fix: ECDSA verify cleared the points twice, or without
 initialisation

---
 src/crypt/ecdsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 487cf59..38c62af 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -88,7 +88,7 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     res = (cry_mpi_cmp_abs(&G.x, &sig->r) == 0) ? 0 : -1;
 
 e1: cry_ecp_clear_list(&G, &Q, (cry_ecp *)NULL);
-e0: cry_mpi_clear_list(&z, &w, &G.x, &G.y, &Q.x, &Q.y, (cry_mpi *)NULL);
+e0: cry_mpi_clear_list(&z, &w, (cry_mpi *)NULL);
     return res;
 }
 
-- 
2.43.0


From 27962d77a1991fd0c0445832f0e108abc64b4c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 24/58] fix: ECDSA verify accepted signatures out of range or
 with the point at infinity

---
 src/crypt/ecdsa.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 38c62af..b5a730b 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -65,6 +65,15 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
         len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
     CHK1(cry_mpi_load_bin(&z, in, len));
 
+    /* Both r and s shall be in [1, n-1] */
+    if (cry_mpi_is_neg(&sig->r) || cry_mpi_is_zero(&sig->r) ||
+        cry_mpi_cmp_abs(&sig->r, &ctx->grp.n) >= 0 ||
+        cry_mpi_is_neg(&sig->s) || cry_mpi_is_zero(&sig->s) ||
+        cry_mpi_cmp_abs(&sig->s, &ctx->grp.n) >= 0) {
+        res = -1;
+        goto e1;
+    }
+
     /* w = inv(s) mod n */
     CHK1(cry_mpi_copy(&w, &sig->s));
     CHK1(cry_mpi_inv(&w, &w, &ctx->grp.n));
@@ -82,8 +91,13 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     CHK1(cry_ecp_mul(&Q, &ctx->q, &w, &ctx->grp));
     CHK1(cry_ecp_add(&G, &G, &Q, &ctx->grp));
 
+    if (cry_ecp_is_zero(&G)) {
+        res = -1;
+        goto e1;
+    }
+
     /* r = x1 mod n */
-    CHK1(cry_mpi_mod(&G.x, &G.x, &ctx->grp.n)); // inutile
+    CHK1(cry_mpi_mod(&G.x, &G.x, &ctx->grp.n));
 
     res = (cry_mpi_cmp_abs(&G.x, &sig->r) == 0) ? 0 : -1;
 
-- 
2.43.0


From 1efe9dd1fbc68daf800f31e0e8d32b68f6b6facb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 25/58] fix: ECDSA secrets could be zero, r was not reduced
 modulo n and zero components were reported as success

---
 src/crypt/ecdsa.c | 75 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 24 deletions(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index b5a730b..262b433 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -4,10 +4,37 @@
 #define CHK0(exp) CRY_CHK(res = (exp), e0)
 #define CHK1(exp) CRY_CHK(res = (exp), e1)
 
+/*
+ * Generate a random secret in [1, n-1]
+ */
+static int secret_gen(cry_mpi *k, const cry_mpi *n)
+{
+    int res;
+    cry_mpi t, one;
+    cry_mpi_digit dig = 1;
+
+    one.sign = 0;
+    one.used = 1;
+    one.alloc = 0;
+    one.data = &dig;
+
+    if ((res = cry_mpi_init(&t)) != 0)
+        return res;
+
+    CHK0(cry_mpi_sub(&t, n, &one));
+    CHK0(cry_mpi_rand_range(k, &t));
+    CHK0(cry_mpi_add(k, k, &one));
+e0: cry_mpi_clear(&t);
+    return res;
+}
+
+#define SIGN_ITER_MAX   64
+
 int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
                    const unsigned char *in, size_t len)
 {
     int res;
+    unsigned int iter = 0;
     cry_mpi k, z;
     cry_ecp X;
 
@@ -20,29 +47,29 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
         len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
     CHK1(cry_mpi_load_bin(&z, in, len));
 
-    /* This should be a random number between 0 and n-1 */
-#if 0
-    unsigned char K[] = {
-        0x9E, 0x56, 0xF5, 0x09, 0x19, 0x67, 0x84, 0xD9, 0x63, 0xD1, 0xC0,
-        0xA4, 0x01, 0x51, 0x0E, 0xE7, 0xAD, 0xA3, 0xDC, 0xC5, 0xDE, 0xE0,
-        0x4B, 0x15, 0x4B, 0xF6, 0x1A, 0xF1, 0xD5, 0xA6, 0xDE, 0xCE
-    };
-    CHK1(cry_mpi_load_bin(&k, K, sizeof(K)));
-#else
-    CHK1(cry_mpi_rand_range(&k, &ctx->grp.n));
-#endif
-
-    CHK1(cry_ecp_mul(&X, &ctx->grp.g, &k, &ctx->grp));
-
-    /* r = x mod n */
-    cry_mpi_swap(&sig->r, &X.x);
-
-    /* s = (inv(k) * (z + r*d)) mod n */
-    CHK1(cry_mpi_inv(&k, &k, &ctx->grp.n));
-    CHK1(cry_mpi_mul(&sig->s, &ctx->d, &sig->r));
-    CHK1(cry_mpi_add(&sig->s, &sig->s, &z));
-    CHK1(cry_mpi_mul(&sig->s, &sig->s, &k));
-    CHK1(cry_mpi_mod(&sig->s, &sig->s, &ctx->grp.n));
+    do {
+        if (iter++ == SIGN_ITER_MAX) {
+            res = -1;
+            break;
+        }
+
+        /* This should be a random number between 1 and n-1 */
+        CHK1(secret_gen(&k, &ctx->grp.n));
+
+        CHK1(cry_ecp_mul(&X, &ctx->grp.g, &k, &ctx->grp));
+
+        /* r = x mod n */
+        CHK1(cry_mpi_mod(&sig->r, &X.x, &ctx->grp.n));
+
+        /* s = (inv(k) * (z + r*d)) mod n */
+        CHK1(cry_mpi_inv(&k, &k, &ctx->grp.n));
+        CHK1(cry_mpi_mul(&sig->s, &ctx->d, &sig->r));
+        CHK1(cry_mpi_add(&sig->s, &sig->s, &z));
+        CHK1(cry_mpi_mul(&sig->s, &sig->s, &k));
+        CHK1(cry_mpi_mod(&sig->s, &sig->s, &ctx->grp.n));
+
+        /* A new k is required if one of the components is zero */
+    } while (cry_mpi_is_zero(&sig->r) || cry_mpi_is_zero(&sig->s));
 
 e1: cry_ecp_clear(&X);
 e0: cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
@@ -137,7 +164,7 @@ int cry_ecdsa_keygen(cry_ecdsa_ctx *ctx)
 {
     int res;
 
-    if ((res = cry_mpi_rand_range(&ctx->d, &ctx->grp.n)) == 0)
+    if ((res = secret_gen(&ctx->d, &ctx->grp.n)) == 0)
         res = cry_ecp_mul(&ctx->q, &ctx->grp.g, &ctx->d, &ctx->grp);
     return res;
 }
-- 
2.43.0


From 0208107cdcccde613c330c6699d9598a4c8425af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 26/58] fix: Elgamal verify accepted signatures out of range

---
 src/crypt/elgamal.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/crypt/elgamal.c b/src/crypt/elgamal.c
index ecefd54..657891b 100644
--- a/src/crypt/elgamal.c
+++ b/src/crypt/elgamal.c
@@ -97,14 +97,30 @@ int cry_elgamal_verify2(cry_elgamal_ctx *ctx, const cry_elgamal_sig *sign,
                         const unsigned char *in, size_t len)
 {
     int res;
-    cry_mpi r, z;
+    cry_mpi one, r, z;
+    cry_mpi_digit dig = 1;
 
     if (len > cry_mpi_count_bytes(&ctx->p))
         return -1;
 
+    one.sign = 0;
+    one.used = 1;
+    one.alloc = 1;
+    one.data = &dig;
+
     if ((res = cry_mpi_init_list(&r, &z, (cry_mpi *)NULL)) != 0)
         return res;
 
+    /* 0 < r < p and 0 < s < p-1 */
+    CHK(cry_mpi_sub(&z, &ctx->p, &one));
+    if (cry_mpi_is_neg(&sign->r) || cry_mpi_is_zero(&sign->r) ||
+        cry_mpi_cmp_abs(&sign->r, &ctx->p) >= 0 ||
+        cry_mpi_is_neg(&sign->s) || cry_mpi_is_zero(&sign->s) ||
+        cry_mpi_cmp_abs(&sign->s, &z) >= 0) {
+        res = -1;
+        goto e;
+    }
+
     CHK(cry_mpi_mod_exp(&r, &ctx->y, &sign->r, &ctx->p));
     CHK(cry_mpi_mod_exp(&z, &sign->r, &sign->s, &ctx->p));
     CHK(cry_mpi_mul(&r, &r, &z));
-- 
2.43.0


From c304ca1c8632076bcdad5e0fdf61d394b4db826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 27/58] fix: Elgamal sign could report a signature with s equal
 to zero

---
 src/crypt/elgamal.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/crypt/elgamal.c b/src/crypt/elgamal.c
index 657891b..fe85b9f 100644
--- a/src/crypt/elgamal.c
+++ b/src/crypt/elgamal.c
@@ -3,6 +3,7 @@
 
 
 #define MAX_ITER 1024
+#define SIGN_ITER_MAX 64
 
 #define CHK(exp) CRY_CHK(res = exp, e)
 
@@ -57,6 +58,7 @@ int cry_elgamal_sign2(cry_elgamal_ctx *ctx, cry_elgamal_sig *sign,
                       const unsigned char *in, size_t len)
 {
     int res;
+    unsigned int iter = 0;
     cry_mpi one, k, z, t;
     cry_mpi_digit dig = 1;
 
@@ -74,20 +76,30 @@ int cry_elgamal_sign2(cry_elgamal_ctx *ctx, cry_elgamal_sig *sign,
     CHK(cry_mpi_copy(&t, &ctx->p));
     CHK(cry_mpi_sub(&t, &t, &one));
 
-    /* gcd(k, p-1) = 1 */
-    CHK(secret_gen(&k, &t, &one));
+    CHK(cry_mpi_load_bin(&z, in, len));
+
+    do {
+        if (iter++ == SIGN_ITER_MAX) {
+            res = -1;
+            break;
+        }
 
-    /* r */
-    CHK(cry_mpi_mod_exp(&sign->r, &ctx->g, &k, &ctx->p));
+        /* gcd(k, p-1) = 1 */
+        CHK(secret_gen(&k, &t, &one));
 
-    /* s */
-    CHK(cry_mpi_load_bin(&z, in, len));
-    CHK(cry_mpi_mul(&sign->s, &ctx->d, &sign->r));
-    CHK(cry_mpi_sub(&sign->s, &z, &sign->s));
-    CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
-    CHK(cry_mpi_inv(&k, &k, &t));
-    CHK(cry_mpi_mul(&sign->s, &sign->s, &k));
-    CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
+        /* r */
+        CHK(cry_mpi_mod_exp(&sign->r, &ctx->g, &k, &ctx->p));
+
+        /* s */
+        CHK(cry_mpi_mul(&sign->s, &ctx->d, &sign->r));
+        CHK(cry_mpi_sub(&sign->s, &z, &sign->s));
+        CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
+        CHK(cry_mpi_inv(&k, &k, &t));
+        CHK(cry_mpi_mul(&sign->s, &sign->s, &k));
+        CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
+
+        /* A new k is required if s is zero */
+    } while (cry_mpi_is_zero(&sign->s));
 
 e:  cry_mpi_clear_list(&k, &z, &t, (cry_mpi *)NULL);
     return res;
-- 
2.43.0


From b8f0f182682e9f78610d2821ef238d787a08046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 28/58] fix: point multiplication reported success when its
 window could not be allocated

---
 src/ecp/ecp_mul.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecp/ecp_mul.c b/src/ecp/ecp_mul.c
index 6271369..30b573d 100644
--- a/src/ecp/ecp_mul.c
+++ b/src/ecp/ecp_mul.c
@@ -26,8 +26,10 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
      * BEGIN window generation
      */
     win = malloc(sizeof(cry_ecp) * WINPTS);
-    if (win == NULL)
+    if (win == NULL) {
+        res = -1;
         goto e0;
+    }
     for (i = 0; i < WINPTS; i++) {
         if ((res = cry_ecp_init(&win[i])) != 0) {
             while (i-- > 0) /* rollback */
@@ -131,8 +133,10 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
      * BEGIN window generation
      */
     win = malloc(sizeof(cry_ecp) * WINPTS);
-    if (win == NULL)
+    if (win == NULL) {
+        res = -1;
         goto e0;
+    }
     for (i = 0; i < WINPTS; i++) {
         if ((res = cry_ecp_init(&win[i])) != 0) {  // 0P
             while (i-- > 0) /* rollback */
-- 
2.43.0


From 1d04aa122c301e583e374cf80a89041996d08437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 29/58] fix: doubling a point of order two failed

---
 src/ecp/ecp_dbl.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecp/ecp_dbl.c b/src/ecp/ecp_dbl.c
index 5b093b8..65ea612 100644
--- a/src/ecp/ecp_dbl.c
+++ b/src/ecp/ecp_dbl.c
@@ -12,6 +12,12 @@ int cry_ecp_dbl(cry_ecp *pr, const cry_ecp *p1, const cry_ecp_grp *grp)
     if (cry_ecp_is_zero(p1))
         return (pr != p1) ? cry_ecp_copy(pr, p1) : 0;
 
+    if (cry_mpi_is_zero(&p1->y)) {
+        /* The tangent is vertical, this is a point of order two */
+        cry_ecp_set_zero(pr);
+        return 0;
+    }
+
     if ((res = cry_mpi_init_list(&num, &den, &lam,
                                  &r.x, &r.y, &r.z, (cry_mpi *)NULL)) != 0) {
         return res;
-- 
2.43.0


From 335c7b9a8784e524006d60eda2b90e9d522cbf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 30/58] fix: DSA and ECDSA truncated long digests to whole
 digits and not to the size of the order

---
 src/crypt/dsa.c   | 24 ++++++++++++++++++------
 src/crypt/ecdsa.c | 24 ++++++++++++++++++------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index f0ab8c5..cf32434 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -50,6 +50,22 @@ e:  cry_mpi_clear(&t);
     return res;
 }
 
+/*
+ * Load the leftmost min(bits(q), 8*len) bits of the input buffer.
+ */
+static int input_load(cry_mpi *z, const unsigned char *in, size_t len,
+                      const cry_mpi *q)
+{
+    int res;
+    size_t bits = cry_mpi_count_bits(q);
+
+    if (len > (bits + 7) / 8)
+        len = (bits + 7) / 8;
+    if ((res = cry_mpi_load_bin(z, in, len)) == 0 && len * 8 > bits)
+        res = cry_mpi_shr(z, z, len * 8 - bits);
+    return res;
+}
+
 #define SIGN_ITER_MAX   64
 
 int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
@@ -63,9 +79,7 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
         return res;
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->q.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
-    CHK(cry_mpi_load_bin(&z, in, len));
+    CHK(input_load(&z, in, len, &ctx->q));
 
     do {
         if (iter++ == SIGN_ITER_MAX) {
@@ -104,9 +118,7 @@ int cry_dsa_verify(cry_dsa_ctx *ctx, const cry_dsa_sig *sig,
         return res;
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->q.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
-    CHK(cry_mpi_load_bin(&z, in, len));
+    CHK(input_load(&z, in, len, &ctx->q));
 
     /* Both r and s shall be in [1, q-1] */
     if (cry_mpi_is_neg(&sig->r) || cry_mpi_is_zero(&sig->r) ||
diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 262b433..3116bf8 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -28,6 +28,22 @@ e0: cry_mpi_clear(&t);
     return res;
 }
 
+/*
+ * Load the leftmost min(bits(n), 8*len) bits of the input buffer.
+ */
+static int input_load(cry_mpi *z, const unsigned char *in, size_t len,
+                      const cry_mpi *n)
+{
+    int res;
+    size_t bits = cry_mpi_count_bits(n);
+
+    if (len > (bits + 7) / 8)
+        len = (bits + 7) / 8;
+    if ((res = cry_mpi_load_bin(z, in, len)) == 0 && len * 8 > bits)
+        res = cry_mpi_shr(z, z, len * 8 - bits);
+    return res;
+}
+
 #define SIGN_ITER_MAX   64
 
 int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
@@ -43,9 +59,7 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
     CHK0(cry_ecp_init(&X));
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->grp.n.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
-    CHK1(cry_mpi_load_bin(&z, in, len));
+    CHK1(input_load(&z, in, len, &ctx->grp.n));
 
     do {
         if (iter++ == SIGN_ITER_MAX) {
@@ -88,9 +102,7 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     CHK0(cry_ecp_init_list(&G, &Q, (cry_ecp *)NULL));
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->grp.n.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
-    CHK1(cry_mpi_load_bin(&z, in, len));
+    CHK1(input_load(&z, in, len, &ctx->grp.n));
 
     /* Both r and s shall be in [1, n-1] */
     if (cry_mpi_is_neg(&sig->r) || cry_mpi_is_zero(&sig->r) ||
-- 
2.43.0


From c8dfc81ceee85d693bd589781fa651536b3dba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 31/58] fix: RSA decrypt overwrote the first block when given
 more than one

---
 src/crypt/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index a0008ff..0df199a 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -238,7 +238,7 @@ static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
         }
         *out = newptr;
 
-        res = decrypt_block(ctx, *out, in, mod_siz, sign);
+        res = decrypt_block(ctx, *out + *outlen, in, mod_siz, sign);
         if (res < 0)
             break;
         *outlen += res;
-- 
2.43.0


From 8ef4cf8f353ce01ad6705fb3e559237dd2bf3043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 32/58] fix: RSA returned an uninitialised value for empty
 inputs

---
 src/crypt/rsa.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 0df199a..fa2b2c7 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -183,7 +183,7 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
     mod_siz = cry_mpi_count_bytes(&ctx->n);
     block_siz = (ctx->padding != CRY_RSA_PADDING_NONE) ? mod_siz - 11 : mod_siz;
 
-    while (inlen) {
+    do {
         if (inlen < block_siz)
             block_siz = inlen;
 
@@ -201,7 +201,7 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
         *outlen += mod_siz;
         inlen -= block_siz;
         in += block_siz;
-    }
+    } while (inlen > 0);
 
     if (res != 0) {
         if (*out != NULL) {
@@ -224,7 +224,7 @@ static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
     *outlen = 0;
     mod_siz = cry_mpi_count_bytes(&ctx->n);
 
-    while (inlen > 0) {
+    do {
         if (inlen < mod_siz) {
             /* Input must be an even multiple of key modulus */
             res = -1;
@@ -245,7 +245,7 @@ static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
         inlen -= mod_siz;
         in += mod_siz;
         res = 0; /* decrypt block returns the number of decrypted bytes */
-    }
+    } while (inlen > 0);
 
     if (res != 0) {
         if (*out != NULL) {
-- 
2.43.0


From 548e28b9b11c56debcff40d432b19cfd7fd36821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 33/58] fix: RSA encrypt looped or wrote out of bounds if the
 modulus had no room for the padding

---
 src/crypt/rsa.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index fa2b2c7..7ebee9d 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -181,6 +181,8 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
     *out = NULL;
     *outlen = 0;
     mod_siz = cry_mpi_count_bytes(&ctx->n);
+    if (ctx->padding != CRY_RSA_PADDING_NONE && mod_siz <= 11)
+        return -1; /* No room for the padding */
     block_siz = (ctx->padding != CRY_RSA_PADDING_NONE) ? mod_siz - 11 : mod_siz;
 
     do {
-- 
2.43.0


From 568b07c48602d38be848d7db1aa8736047ef8164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 34/58] fix: RSA accepted blocks with less than 8 padding bytes

---
 src/crypt/rsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 7ebee9d..8e4b231 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -67,7 +67,7 @@ static int padding_del(unsigned char *dst, size_t dlen,
 
     (void)padding; /* unused */
 
-    if (src[0] != 0 || (sign != 0 && src[1] != 0x01) ||
+    if (slen < 11 || src[0] != 0 || (sign != 0 && src[1] != 0x01) ||
         (sign == 0 && src[1] != 0x02))
         /* Unrecognized block type */
         return -1;
@@ -80,7 +80,7 @@ static int padding_del(unsigned char *dst, size_t dlen,
         if (sign != 0 && src[i] != 0xFF)
             return -1;
     }
-    if (i == slen)
+    if (i == slen || i < 10) /* at least 8 padding bytes */
         return -1;
     i++; /* skip zero */
     if (slen - i < dlen)
-- 
2.43.0


From 299955606b8c2aff932113c67bd23b72d2fdadb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 35/58] fix: RSA silently reduced values not smaller than the
 modulus

---
 src/crypt/rsa.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 8e4b231..ab648af 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -120,6 +120,10 @@ static int encrypt_block(cry_rsa_ctx *ctx, unsigned char *out,
 
     if ((res = cry_mpi_load_bin(&m, buf, mod_len)) != 0)
         goto e1;
+    if (cry_mpi_cmp_abs(&m, &ctx->n) >= 0) {
+        res = -1; /* Not representable */
+        goto e1;
+    }
     if ((res = cry_mpi_mod_exp(&c, &m, key, &ctx->n)) != 0)
         goto e1;
 
@@ -153,6 +157,10 @@ static int decrypt_block(cry_rsa_ctx *ctx, unsigned char *out,
 
     if ((res = cry_mpi_load_bin(&c, in, mod_len)) != 0)
         goto e1;
+    if (cry_mpi_cmp_abs(&c, &ctx->n) >= 0) {
+        res = -1; /* Not representable */
+        goto e1;
+    }
     if ((res = cry_mpi_mod_exp(&m, &c, key, &ctx->n)) != 0)
         goto e1;
     if ((res = cry_mpi_store_bin(&m, buf, mod_len, 1)) != 0)
-- 
2.43.0


From c37b53f15092fe3ab13b7314a7d89c9593101e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 36/58] fix: RSA key generation did not compute the private
 exponent

---
 src/crypt/rsa.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index ab648af..3808e36 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -358,6 +358,13 @@ int cry_rsa_keygen(cry_rsa_ctx *ctx, size_t bits, long e)
             break;
     } while (cry_mpi_cmp(&g, &one) != 0 && ++j < MAX_ITER);
 
+    if (res == 0) {
+        if (j < MAX_ITER)
+            res = cry_mpi_inv(&ctx->d, &ctx->e, &phi);
+        else
+            res = -1; /* Not found */
+    }
+
     cry_mpi_clear_list(&p1, &q1, &g, &phi, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From c41303cbaa3830ac89ae2760dc6b722564788738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:30 +0000
Subject: [PATCH 37/58] fix: RSA verify without padding accepted the signature
 of a longer message for its prefixes

---
 src/crypt/rsa.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 3808e36..993a32d 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -292,7 +292,7 @@ int cry_rsa_verify(cry_rsa_ctx *ctx, const unsigned char *sig, size_t siglen,
 {
     int res;
     unsigned char *out;
-    size_t outlen;
+    size_t i, outlen;
 
     res = decrypt(ctx, &out, &outlen, sig, siglen, 1);
     if (res == 0) {
@@ -300,6 +300,16 @@ int cry_rsa_verify(cry_rsa_ctx *ctx, const unsigned char *sig, size_t siglen,
             (ctx->padding != CRY_RSA_PADDING_NONE && outlen != inlen) ||
             memcmp(out, in, inlen) != 0) {
             res = -1;
+        } else if (outlen - inlen > cry_mpi_count_bytes(&ctx->n) ||
+                   (inlen > 0 &&
+                    outlen - inlen == cry_mpi_count_bytes(&ctx->n))) {
+            res = -1; /* More blocks than required by the message */
+        } else {
+            /* Without padding the last block is filled with zeros */
+            for (i = inlen; i < outlen; i++) {
+                if (out[i] != 0)
+                    res = -1;
+            }
         }
         free(out);
     }
-- 
2.43.0


From 042e654755c9a5e89587dadc9d8185ea7b8981ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 38/58] fix: AES encrypted with wrong round keys after a
 decryption with the same context

---
 src/crypt/aes.c | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/crypt/aes.c b/src/crypt/aes.c
index 5bb3d27..c20fe86 100644
--- a/src/crypt/aes.c
+++ b/src/crypt/aes.c
@@ -346,17 +346,13 @@ static const uint32_t mtab[256] = {
      ((uint32_t)sbox[I3(w3)] << 24))
 
 
-static void key_invert(cry_aes_ctx *ctx)
+/* Inverse mix columns of all the round keys but the first and the last */
+static void key_mix(cry_aes_ctx *ctx)
 {
-    unsigned int i, j, k, nr;
+    unsigned int i, nr;
     uint32_t key, newkey, tmp;
 
     nr = ctx->nr & ~DECRYPT_STATE;
-    for (i = 0, j = nr * 4; i < j; i += 4, j -= 4) {
-        for (k = 0; k < 4; k++)
-            CRY_SWAP(ctx->keys[i+k], ctx->keys[j+k]);
-    }
-
     for (i = 4; i < 4 * nr; i++) {
         key = ctx->keys[i];
         newkey = mtab[key & 0xff];
@@ -373,6 +369,34 @@ static void key_invert(cry_aes_ctx *ctx)
     }
 }
 
+static void key_swap(cry_aes_ctx *ctx)
+{
+    unsigned int i, j, k, nr;
+
+    nr = ctx->nr & ~DECRYPT_STATE;
+    for (i = 0, j = nr * 4; i < j; i += 4, j -= 4) {
+        for (k = 0; k < 4; k++)
+            CRY_SWAP(ctx->keys[i+k], ctx->keys[j+k]);
+    }
+}
+
+/* From encryption to decryption round keys */
+static void key_invert(cry_aes_ctx *ctx)
+{
+    key_swap(ctx);
+    key_mix(ctx);
+}
+
+/* From decryption to encryption round keys */
+static void key_restore(cry_aes_ctx *ctx)
+{
+    key_swap(ctx);
+    /* Four applications of the inverse mix columns are the identity */
+    key_mix(ctx);
+    key_mix(ctx);
+    key_mix(ctx);
+}
+
 void cry_aes_key_set(cry_aes_ctx *ctx, const unsigned char *key, size_t size)
 {
     const unsigned char rcon[10] = {
@@ -416,7 +440,7 @@ void cry_aes_encrypt(struct cry_aes_ctx *ctx, unsigned char *dst,
     size_t i;
 
     if ((ctx->nr & DECRYPT_STATE) != 0) {
-        key_invert(ctx);
+        key_restore(ctx);
         ctx->nr &= ~DECRYPT_STATE;
     }
 
-- 
2.43.0


From 89e1b37f2238af683bf834f2029c92c7f39bf9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 39/58] fix: CBC decryption of less than one block accessed
 memory out of bounds

---
 src/crypt/cbc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/cbc.c b/src/crypt/cbc.c
index 96358de..4324d07 100644
--- a/src/crypt/cbc.c
+++ b/src/crypt/cbc.c
@@ -68,6 +68,8 @@ void cry_cbc_decrypt(struct cry_cbc_ctx *ctx, unsigned char *dst,
     cry_ciph_encrypt_f decrypt = ctx->ciph_itf->decrypt;
 
     size &= ~(ctx->ctrlen - 1);
+    if (size == 0)
+        return;
 
     if (src != dst) {
         decrypt(ciph, dst, src, size);
-- 
2.43.0


From e5876ddc6dfe8ffd4e12511762cfe5744578c993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 40/58] fix: CFB read past the end of a destination with a
 trailing partial block

---
 src/crypt/cfb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index 5b85405..33af038 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -55,7 +55,7 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
     if (n != 0) {
         encrypt(ciph, ctx->v, ctx->v, ctx->vlen);
         cry_memxor2(dst, src, ctx->v, n);
-        memcpy(ctx->v, dst, ctx->vlen);
+        memcpy(ctx->v, dst, n);
     }
 }
 
-- 
2.43.0


From 7d87b44b7616a663a0093a58ef7dd2b6b7cdf4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 41/58] fix: CFB decryption did not invert the encryption after
 the first block

---
 include/cry/cfb.h |  9 +++++----
 src/crypt/cfb.c   | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/cry/cfb.h b/include/cry/cfb.h
index a16f518..b1c7dcd 100644
--- a/include/cry/cfb.h
+++ b/include/cry/cfb.h
@@ -75,11 +75,11 @@ void cry_cfb_iv_set(struct cry_cfb_ctx *ctx, const unsigned char *iv,
                     size_t size);
 
 /**
- * Encrypt/Decrypt function.
+ * Encryption function.
  *
  * @param ctx   CFB context.
- * @param dst   Destination pointer.
- * @param src   Source pointer.
+ * @param dst   Destination pointer (ciphertext).
+ * @param src   Source pointer (cleartext).
  * @param size  Size of source/destination.
  */
 void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
@@ -103,7 +103,8 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
  * @param src   Source pointer (ciphertext).
  * @param size  Size of ciphertext.
  */
-#define cry_cfb_decrypt cry_cfb_crypt
+void cry_cfb_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t size);
 
 
 /**
diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index 33af038..edeedfa 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -59,6 +59,25 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
     }
 }
 
+void cry_cfb_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t len)
+{
+    void *ciph = ctx->ciph_ctx;
+    cry_ciph_encrypt_f encrypt = ctx->ciph_itf->encrypt;
+    unsigned char buf[CRY_CFB_BLOCK_MAX];
+    size_t n;
+
+    while (len != 0) {
+        n = CRY_MIN(len, ctx->vlen);
+        encrypt(ciph, buf, ctx->v, ctx->vlen);
+        memcpy(ctx->v, src, n); /* Before it is eventually overwritten */
+        cry_memxor2(dst, src, buf, n);
+        src += n;
+        dst += n;
+        len -= n;
+    }
+}
+
 void cry_cfb8_encrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
                       const unsigned char *src, size_t len)
 {
-- 
2.43.0


From a43cdefe48ee0c0cd63d11724a9eef4277187406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 42/58] fix: CFB8 decryption lost its state after a segment not
 multiple of the block size

---
 src/crypt/cfb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index edeedfa..a1f3803 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -120,7 +120,8 @@ void cry_cfb8_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
         len -= i;
         src += i;
         dst += i;
-        memcpy(buf, buf + ctx->vlen, ctx->vlen);
+        if (i == ctx->vlen)
+            memcpy(buf, buf + ctx->vlen, ctx->vlen);
         memcpy(buf + ctx->vlen, src, len < ctx->vlen ? len : ctx->vlen);
     }
     memcpy(ctx->v, buf + i, ctx->vlen);
-- 
2.43.0


From da95f986764b1b58c0e5519bbaf39be2a84f13fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 43/58] fix: CTR in place used an uninitialised key stream with
 blocks shorter than 16 bytes

---
 src/crypt/ctr.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/crypt/ctr.c b/src/crypt/ctr.c
index 52f5cab..9a5e106 100644
--- a/src/crypt/ctr.c
+++ b/src/crypt/ctr.c
@@ -66,18 +66,19 @@ void cry_ctr_encrypt(struct cry_ctr_ctx *ctx, unsigned char *dst,
             cry_memxor2(dst + len - n, src + len - n, buf, n);
         }
     } else {
-        while (len >= BUF_LEN) {
+        while (len >= ctx->ctrlen * BUF_BLOCKS) {
             p = buf;
             for (n = 0; n < BUF_BLOCKS; n++) {
                 memcpy(p, ctx->ctr, ctx->ctrlen);
                 CRY_INCREMENT_BE(ctx->ctr, ctx->ctrlen);
                 p += ctx->ctrlen;
             }
-            encrypt(ciph, buf, buf, BUF_LEN);
-            cry_memxor2(dst, src, buf, BUF_LEN);
-            len -= BUF_LEN;
-            src += BUF_LEN;
-            dst += BUF_LEN;
+            n = (size_t)(p - buf);
+            encrypt(ciph, buf, buf, n);
+            cry_memxor2(dst, src, buf, n);
+            len -= n;
+            src += n;
+            dst += n;
         }
 
         if (len != 0) {
-- 
2.43.0


From bf45567f8501539787ee2c6c74dff066f4465937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 44/58] fix: GCM truncated the sizes to 32 bits

---
 src/crypt/gcm.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crypt/gcm.c b/src/crypt/gcm.c
index 0951e4f..81fa2f1 100644
--- a/src/crypt/gcm.c
+++ b/src/crypt/gcm.c
@@ -62,13 +62,13 @@ static void gcm_hash_sizes(unsigned char *hash, const unsigned char *key,
                            size_t auth_size, size_t ciph_size)
 {
     unsigned char buf[CRY_GCM_BLOCK_SIZE] = {0};
-    uint32_t bits;
+    uint64_t bits;
 
     /* Sizes in bits */
-    bits = (uint32_t)(auth_size << 3);
-    CRY_WRITE32_BE(bits, buf + 4);
-    bits = (uint32_t)(ciph_size << 3);
-    CRY_WRITE32_BE(bits, buf + 12);
+    bits = (uint64_t)auth_size << 3;
+    CRY_WRITE64_BE(bits, buf);
+    bits = (uint64_t)ciph_size << 3;
+    CRY_WRITE64_BE(bits, buf + 8);
     gcm_hash(hash, key, buf, CRY_GCM_BLOCK_SIZE);
 }
 
-- 
2.43.0


From 338c5db6d2fbbca996fa92ad685356b0727bcaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 45/58] fix: SHA-512 padding was wrong for 112 to 127 bytes in
 the last block

---
 src/hash/sha512.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash/sha512.c b/src/hash/sha512.c
index 0531bc9..234328a 100644
--- a/src/hash/sha512.c
+++ b/src/hash/sha512.c
@@ -210,7 +210,7 @@ void cry_sha512_digest(cry_sha512_ctx *ctx, unsigned char *out)
     CRY_WRITE64_BE(lo, msglen + 8);
 
     last = ctx->len[0] & 0x7F;
-    padlen = (last < 112) ? (112 - last) : (128 - last);
+    padlen = (last < 112) ? (112 - last) : (240 - last);
 
     pad[0] = 0x80;
     cry_sha512_update(ctx, pad, padlen);
-- 
2.43.0


From 4052f422390d23b8e3950b1065f4c1bdef2a4575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 46/58] fix: digests of updates of 4 GiB and more used a
 truncated length

---
 src/hash/md5.c    | 2 +-
 src/hash/sha1.c   | 1 +
 src/hash/sha512.c | 4 ++--
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hash/md5.c b/src/hash/md5.c
index ef58777..0c7fa49 100644
--- a/src/hash/md5.c
+++ b/src/hash/md5.c
@@ -173,7 +173,7 @@ void cry_md5_update(struct cry_md5_ctx *ctx, const unsigned char *data,
     if ((ctx->len[0] + ((uint32_t)size << 3)) < ctx->len[0])
         ctx->len[1]++; /* overflow */
     ctx->len[0] += ((uint32_t)size << 3);
-    ctx->len[1] += ((uint32_t)size >> 29); /* three carry bits */
+    ctx->len[1] += (uint32_t)((uint64_t)size >> 29); /* carry bits */
 
     while (size--) {
         /* add new character to buffer, increment mdi */
diff --git a/src/hash/sha1.c b/src/hash/sha1.c
index 3242f42..97a1e36 100644
--- a/src/hash/sha1.c
+++ b/src/hash/sha1.c
@@ -183,6 +183,7 @@ void cry_sha1_update(cry_sha1_ctx *ctx, const unsigned char *data, size_t len)
     ctx->len[0] += (uint32_t)len;
     if (ctx->len[0] < (uint32_t)len)
         ctx->len[1]++;
+    ctx->len[1] += (uint32_t)((uint64_t)len >> 32);
 
     if (left && len >= fill) {
         memcpy(ctx->data + left, data, fill);
diff --git a/src/hash/sha512.c b/src/hash/sha512.c
index 234328a..a1bcb05 100644
--- a/src/hash/sha512.c
+++ b/src/hash/sha512.c
@@ -172,8 +172,8 @@ void cry_sha512_update(cry_sha512_ctx *ctx, const unsigned char *data,
     left = ctx->len[0] & 0x7F;
     fill = 128 - left;
 
-    ctx->len[0] += (uint32_t)len;
-    if (ctx->len[0] < (uint32_t)len)
+    ctx->len[0] += len;
+    if (ctx->len[0] < len)
         ctx->len[1]++;
 
     if (left && len >= fill) {
-- 
2.43.0


From 5c86fc0fe7a56ef10d9d81b39805bc29072043a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 47/58] fix: LFSR113 initialisation depended on the previous
 state or overflowed, according to the seed size

---
 src/prng/prng_lfsr113.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prng/prng_lfsr113.c b/src/prng/prng_lfsr113.c
index 6d81dc2..1ce5682 100644
--- a/src/prng/prng_lfsr113.c
+++ b/src/prng/prng_lfsr113.c
@@ -37,7 +37,7 @@ int cry_prng_lfsr113_init(const unsigned char *seed, size_t seed_siz)
     unsigned char *p = (unsigned char *)z;
     size_t i;
 
-    memset(z, 0, seed_siz);
+    memset(z, 0, sizeof(z));
     for (i = 0; i < seed_siz; i++)
         p[i % sizeof(z)] ^= seed[i];
     if (z[0] < 1)
-- 
2.43.0


From 2a047154dcb89abaf7a8aacaf99f907ac9e19a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 48/58] fix: LFSR113 accepted seeds that leave a component at
 zero

---
 src/prng/prng_lfsr113.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/prng/prng_lfsr113.c b/src/prng/prng_lfsr113.c
index 1ce5682..1bd7d80 100644
--- a/src/prng/prng_lfsr113.c
+++ b/src/prng/prng_lfsr113.c
@@ -40,13 +40,13 @@ int cry_prng_lfsr113_init(const unsigned char *seed, size_t seed_siz)
     memset(z, 0, sizeof(z));
     for (i = 0; i < seed_siz; i++)
         p[i % sizeof(z)] ^= seed[i];
-    if (z[0] < 1)
+    if (z[0] <= 1)
         z[0] = DEFAULT_SEED;
-    if (z[1] < 7)
+    if (z[1] <= 7)
         z[1] = DEFAULT_SEED;
-    if (z[2] < 15)
+    if (z[2] <= 15)
         z[2] = DEFAULT_SEED;
-    if (z[3] < 127)
+    if (z[3] <= 127)
         z[3] = DEFAULT_SEED;
     init = 1;
     return 0;
-- 
2.43.0


From 5dbb5247eb3deac36564feea6978c6a401188d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 49/58] fix: AES key wrap used only the low byte of the step
 number

---
 src/utils/aes_wrap.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils/aes_wrap.c b/src/utils/aes_wrap.c
index 7819c4c..7ebfa18 100644
--- a/src/utils/aes_wrap.c
+++ b/src/utils/aes_wrap.c
@@ -17,6 +17,15 @@
 
 #define INIT_VAL    0xA6
 
+/* Xor the step number, as a 64-bit big endian value */
+static void xor_step(unsigned char *a, size_t t)
+{
+    size_t i;
+
+    for (i = 8; i-- > 0; t >>= 8)
+        a[i] ^= (unsigned char)t;
+}
+
 int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
                  const unsigned char *key, size_t keylen)
 {
@@ -41,7 +50,7 @@ int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
             memcpy(b + 8, r, 8);
             cry_aes_encrypt(&aes, b, b, 16);
             memcpy(a, b, 8);
-            a[7] ^= blks * i + j;
+            xor_step(a, blks * i + j);
             memcpy(r, b + 8, 8);
             r += 8;
         }
@@ -70,7 +79,7 @@ int cry_aes_unwrap(unsigned char *out, const unsigned char *in, size_t len,
         r = out + (blks - 1) * 8;
         for (j = blks; j >= 1; j--) {
             memcpy(b, a, 8);
-            b[7] ^= blks * i + j;
+            xor_step(b, blks * i + j);
             memcpy(b + 8, r, 8);
             cry_aes_decrypt(&aes, b, b, 16);
             memcpy(a, b, 8);
-- 
2.43.0


From 4f94b8e813cb94931a35e2b78fdb81c410c066c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:00 +0000
Subject: [PATCH 50/58] fix: memory xor of a destination across the gap of two
 sources scrambled the result

---
 src/crypt/memxor.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/crypt/memxor.c b/src/crypt/memxor.c
index 3068d9f..e943b9e 100644
--- a/src/crypt/memxor.c
+++ b/src/crypt/memxor.c
@@ -52,7 +52,7 @@
 void cry_memxor2(unsigned char *dst, const unsigned char *src1,
                  const unsigned char *src2, size_t size)
 {
-    size_t i, j;
+    size_t i, j, k;
     unsigned char *tmp, t;
     size_t n = size;
 
@@ -81,13 +81,15 @@ void cry_memxor2(unsigned char *dst, const unsigned char *src1,
                 j = 0;
         }
         /* Now shift the dst buffer */
-        j = (size_t)((src1 + n) - dst);
-        for (i = 0; i < n-1; i++) {
+        k = j = (size_t)((src1 + n) - dst);
+        for (i = 0; i != j; ) {
             t = dst[j];
-            dst[j] = dst[i];
-            dst[i] = t;
-            if (j < n-1)
-                j++;
+            dst[j++] = dst[i];
+            dst[i++] = t;
+            if (j == n)
+                j = k;
+            else if (i == k)
+                k = j;
         }
     } else {
         /* Case 4 */
-- 
2.43.0


From 7359f29fc9607a20550fd2332a6ab681df35e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:03 +0000
Subject: [PATCH 51/58] fix: base64 of an empty input ran out of the buffers

---
 src/crypt/base64.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crypt/base64.c b/src/crypt/base64.c
index 3799107..f447b0b 100644
--- a/src/crypt/base64.c
+++ b/src/crypt/base64.c
@@ -7,6 +7,9 @@ size_t cry_base64_encode(char *out, const char *in, size_t len)
 {
     size_t i, outlen = 0;
 
+    if (len == 0)
+        return 0;
+
     do {
         outlen += 4;
 
@@ -65,6 +68,8 @@ size_t cry_base64_decode(char *out, const char *in, size_t len)
 
     if (len & 0x03)
         return -1; /* should be a multiple of 4 */
+    if (len == 0)
+        return 0;
 
     do {
         for (i = 0; i < 4; i++) {
-- 
2.43.0


From 32ed67540d1ddc084da7a3899293f453690fad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:06 +0000
Subject: [PATCH 52/58] fix: signed division with a result in place of the
 divisor rounded with the overwritten divisor

---
 src/mpi/mpi_div.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mpi/mpi_div.c b/src/mpi/mpi_div.c
index 745a3d7..28083c8 100644
--- a/src/mpi/mpi_div.c
+++ b/src/mpi/mpi_div.c
@@ -5,6 +5,17 @@ int cry_mpi_div(cry_mpi *q, cry_mpi *r, const cry_mpi *a,
 {
     int res, sign = a->sign ^ b->sign;
 
+    if (sign != 0 && (q == b || r == b)) {
+        /* the divisor is required to round the remainder */
+        cry_mpi div;
+
+        if ((res = cry_mpi_init_copy(&div, b)) != 0)
+            return res;
+        res = cry_mpi_div(q, r, a, &div);
+        cry_mpi_clear(&div);
+        return res;
+    }
+
     if (sign != 0 && r == NULL) {
         /* the remainder is required to round the quotient */
         cry_mpi rem;
-- 
2.43.0


From ef20043a4acc8d06d85abedf5d84409285f331ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:06 +0000
Subject: [PATCH 53/58] fix: modular exponentiation with exponent zero was not
 reduced

---
 src/mpi/mpi_mod_exp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpi/mpi_mod_exp.c b/src/mpi/mpi_mod_exp.c
index 9cbca8c..6f5f61e 100644
--- a/src/mpi/mpi_mod_exp.c
+++ b/src/mpi/mpi_mod_exp.c
@@ -15,6 +15,8 @@ int cry_mpi_mod_exp(cry_mpi *r, const cry_mpi *b, const cry_mpi *e,
 
     if ((res = cry_mpi_init_int(&exp, 1)) != 0)
         return res;
+    if (m != NULL && (res = cry_mpi_mod(&exp, &exp, m)) != 0)
+        goto e;
     bits = cry_mpi_count_bits(e);
     while (bits-- > 0) {
         if ((res = cry_mpi_sqr(&exp, &exp)) != 0 ||
-- 
2.43.0


From d4c73195afaafa5b501d0360ed6a15e61a86c5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:06 +0000
Subject: [PATCH 54/58] fix: gcd of negative numbers could be negative

---
 src/mpi/mpi_gcd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/mpi_gcd.c b/src/mpi/mpi_gcd.c
index 7dfa6fd..4010347 100644
--- a/src/mpi/mpi_gcd.c
+++ b/src/mpi/mpi_gcd.c
@@ -35,8 +35,8 @@ int cry_mpi_gcd(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
     if ((res = cry_mpi_init_list(&tx, &ty, (cry_mpi *)NULL)) != 0)
         return res;
 
-    if ((res = cry_mpi_copy(&tx, x)) != 0 ||
-        (res = cry_mpi_copy(&ty, y)) != 0)
+    if ((res = cry_mpi_abs(&tx, x)) != 0 ||
+        (res = cry_mpi_abs(&ty, y)) != 0)
         goto e;
 
     lz  = cry_mpi_lsb(&tx);
-- 
2.43.0


From 008af22ea93ac04fe8fc27e64d350f728ddeba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:06 +0000
Subject: [PATCH 55/58] fix: small division ignored an error while setting up
 the quotient bit

---
 src/mpi/mpi_div_abs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/mpi_div_abs.c b/src/mpi/mpi_div_abs.c
index d35150f..22e9a38 100644
--- a/src/mpi/mpi_div_abs.c
+++ b/src/mpi/mpi_div_abs.c
@@ -28,9 +28,9 @@ int cry_mpi_div_abs(cry_mpi *rq, cry_mpi *rr, const cry_mpi *a,
     if ((res = cry_mpi_init_list(&ta, &tb, &tq, &q, NULL)) != 0)
         return res;
 
-    cry_mpi_set_int(&tq, 1);
     n = cry_mpi_count_bits(a) - cry_mpi_count_bits(b);
-    if (((res = cry_mpi_abs(&ta, a)) != 0) ||
+    if (((res = cry_mpi_set_int(&tq, 1)) != 0) ||
+        ((res = cry_mpi_abs(&ta, a)) != 0) ||
         ((res = cry_mpi_abs(&tb, b)) != 0) ||
         ((res = cry_mpi_shl(&tb, &tb, n)) != 0) ||
         ((res = cry_mpi_shl(&tq, &tq, n)) != 0))
-- 
2.43.0


From 3749e159e457ec23f6e8c3d89546a39ccf96df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:06 +0000
Subject: [PATCH 56/58] fix: binary modular inverse ignored errors, did not
 terminate for zero and accepted non invertible numbers

---
 src/mpi/mpi_inv.c | 75 ++++++++++++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 34 deletions(-)

diff --git a/src/mpi/mpi_inv.c b/src/mpi/mpi_inv.c
index 02f34c8..d66c305 100644
--- a/src/mpi/mpi_inv.c
+++ b/src/mpi/mpi_inv.c
@@ -52,6 +52,8 @@ e:  cry_mpi_clear_list(&r0, &r1, &s0, &s1, &q, (cry_mpi *)NULL);
 
 #else
 
+#define CHK(exp) CRY_CHK(res = (exp), e)
+
 /*
  * Modular inverse.
  *
@@ -66,56 +68,61 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *x, const cry_mpi *m)
                                  &TB, &TV, &V1, &V2, (cry_mpi *)NULL)) != 0)
         return res;
 
-    if ((res = cry_mpi_mod(&TA, x, m)) != 0)
-        goto cleanup;
-    cry_mpi_copy(&TU, &TA);
-    cry_mpi_copy(&TB, m);
-    cry_mpi_copy(&TV, m);
+    CHK(cry_mpi_mod(&TA, x, m));
+    CHK(cry_mpi_copy(&TU, &TA));
+    CHK(cry_mpi_copy(&TB, m));
+    CHK(cry_mpi_copy(&TV, m));
 
-    cry_mpi_set_int(&U1, 1);
-    cry_mpi_set_int(&U2, 0);
-    cry_mpi_set_int(&V1, 0);
-    cry_mpi_set_int(&V2, 1);
+    /* At least one of the operands must be odd */
+    if (cry_mpi_is_even(&TA) && cry_mpi_is_even(&TB)) {
+        res = -1;
+        goto e;
+    }
 
-    do {
+    CHK(cry_mpi_set_int(&U1, 1));
+    CHK(cry_mpi_set_int(&U2, 0));
+    CHK(cry_mpi_set_int(&V1, 0));
+    CHK(cry_mpi_set_int(&V2, 1));
+
+    while (!cry_mpi_is_zero(&TU)) {
         while (cry_mpi_is_even(&TU)) {
-            cry_mpi_shr(&TU, &TU, 1);
+            CHK(cry_mpi_shr(&TU, &TU, 1));
             if (cry_mpi_is_odd(&U1) || cry_mpi_is_odd(&U2)) {
-                cry_mpi_add(&U1, &U1, &TB);
-                cry_mpi_sub(&U2, &U2, &TA);
+                CHK(cry_mpi_add(&U1, &U1, &TB));
+                CHK(cry_mpi_sub(&U2, &U2, &TA));
             }
-            cry_mpi_shr(&U1, &U1, 1);
-            cry_mpi_shr(&U2, &U2, 1);
+            CHK(cry_mpi_shr(&U1, &U1, 1));
+            CHK(cry_mpi_shr(&U2, &U2, 1));
         }
         while (cry_mpi_is_even(&TV)) {
-            cry_mpi_shr(&TV, &TV, 1);
+            CHK(cry_mpi_shr(&TV, &TV, 1));
             if (cry_mpi_is_odd(&V1) || cry_mpi_is_odd(&V2)) {
-                cry_mpi_add(&V1, &V1, &TB);
-                cry_mpi_sub(&V2, &V2, &TA);
+                CHK(cry_mpi_add(&V1, &V1, &TB));
+                CHK(cry_mpi_sub(&V2, &V2, &TA));
             }
-            cry_mpi_shr(&V1, &V1, 1);
-            cry_mpi_shr(&V2, &V2, 1);
+            CHK(cry_mpi_shr(&V1, &V1, 1));
+            CHK(cry_mpi_shr(&V2, &V2, 1));
         }
         if (cry_mpi_cmp(&TU, &TV) >= 0) {
-            cry_mpi_sub(&TU, &TU, &TV);
-            cry_mpi_sub(&U1, &U1, &V1);
-            cry_mpi_sub(&U2, &U2, &V2);
+            CHK(cry_mpi_sub(&TU, &TU, &TV));
+            CHK(cry_mpi_sub(&U1, &U1, &V1));
+            CHK(cry_mpi_sub(&U2, &U2, &V2));
         } else {
-            cry_mpi_sub(&TV, &TV, &TU);
-            cry_mpi_sub(&V1, &V1, &U1);
-            cry_mpi_sub(&V2, &V2, &U2);
+            CHK(cry_mpi_sub(&TV, &TV, &TU));
+            CHK(cry_mpi_sub(&V1, &V1, &U1));
+            CHK(cry_mpi_sub(&V2, &V2, &U2));
         }
-    } while (TU.used != 0);
-
-    while (V1.used && V1.sign)
-        cry_mpi_add(&V1, &V1, m);
+    }
 
-    while (cry_mpi_cmp(&V1, m) >= 0)
-        cry_mpi_sub(&V1, &V1, m);
+    /* Check that the GCD is 1, necessary condition */
+    if (TV.used != 1 || TV.data[0] != 1) {
+        res = -1;
+        goto e;
+    }
 
+    CHK(cry_mpi_mod(&V1, &V1, m));
     cry_mpi_swap(r, &V1);
-cleanup:
-    cry_mpi_clear_list(&TA, &TB, &TU, &TV, &U1, &U2, &V1, &V2,
+e:  cry_mpi_clear_list(&TA, &TB, &TU, &TV, &U1, &U2, &V1, &V2,
                        (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From ae6e94147d96c400defad2c7d75e8e47a89d3d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:06 +0000
Subject: [PATCH 57/58] fix: windowed point multiplication did not compile

---
 src/ecp/ecp_mul.c | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/ecp/ecp_mul.c b/src/ecp/ecp_mul.c
index 30b573d..463ba35 100644
--- a/src/ecp/ecp_mul.c
+++ b/src/ecp/ecp_mul.c
@@ -117,11 +117,10 @@ e0: cry_ecp_clear(&r);
 int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
                 const cry_ecp_grp *grp)
 {
-    int res, i, j, w, paf = 1;
+    int res, paf = 1;
+    size_t i, j, w;
     struct cry_ecp r, *win = NULL;
     cry_mpi_digit msk;
-    cry_mpi *a = &grp->a;
-    cry_mpi *p = &grp->p;
 
     if (cry_ecp_is_zero(p1))
         return (pr != p1) ? cry_ecp_copy(pr, p1) : 0;
@@ -145,20 +144,20 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
         }
     }
     CHK(cry_ecp_copy(&win[1], p1));                     /* 1P */
-    CHK(cry_ecp_dbl(&win[2],  &win[1], a, p));          /* 2P */
-    CHK(cry_ecp_add(&win[3],  &win[2], &win[1], p));    /* 3P */
-    CHK(cry_ecp_dbl(&win[4],  &win[2], a, p));          /* 4P */
-    CHK(cry_ecp_add(&win[5],  &win[4], &win[1], p));    /* 5P */
-    CHK(cry_ecp_add(&win[6],  &win[5], &win[1], p));    /* 6P */
-    CHK(cry_ecp_add(&win[7],  &win[6], &win[1], p));    /* 7P */
-    CHK(cry_ecp_dbl(&win[8],  &win[4], a, p));          /* 8P */
-    CHK(cry_ecp_add(&win[9],  &win[8], &win[1], p));    /* 9P */
-    CHK(cry_ecp_add(&win[10], &win[9], &win[1], p));    /* 10P */
-    CHK(cry_ecp_add(&win[11], &win[10], &win[1], p));   /* 11P */
-    CHK(cry_ecp_add(&win[12], &win[11], &win[1], p));   /* 12P */
-    CHK(cry_ecp_add(&win[13], &win[12], &win[1], p));   /* 13P */
-    CHK(cry_ecp_add(&win[14], &win[13], &win[1], p));   /* 14P */
-    CHK(cry_ecp_add(&win[15], &win[14], &win[1], p));   /* 15P */
+    CHK(cry_ecp_dbl(&win[2],  &win[1], grp));          /* 2P */
+    CHK(cry_ecp_add(&win[3],  &win[2], &win[1], grp));    /* 3P */
+    CHK(cry_ecp_dbl(&win[4],  &win[2], grp));          /* 4P */
+    CHK(cry_ecp_add(&win[5],  &win[4], &win[1], grp));    /* 5P */
+    CHK(cry_ecp_add(&win[6],  &win[5], &win[1], grp));    /* 6P */
+    CHK(cry_ecp_add(&win[7],  &win[6], &win[1], grp));    /* 7P */
+    CHK(cry_ecp_dbl(&win[8],  &win[4], grp));          /* 8P */
+    CHK(cry_ecp_add(&win[9],  &win[8], &win[1], grp));    /* 9P */
+    CHK(cry_ecp_add(&win[10], &win[9], &win[1], grp));    /* 10P */
+    CHK(cry_ecp_add(&win[11], &win[10], &win[1], grp));   /* 11P */
+    CHK(cry_ecp_add(&win[12], &win[11], &win[1], grp));   /* 12P */
+    CHK(cry_ecp_add(&win[13], &win[12], &win[1], grp));   /* 13P */
+    CHK(cry_ecp_add(&win[14], &win[13], &win[1], grp));   /* 14P */
+    CHK(cry_ecp_add(&win[15], &win[14], &win[1], grp));   /* 15P */
     /*
      * END window generation
      */
@@ -172,14 +171,14 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
         while (j > 0) {
             if (!paf) {
                 for (w = 0; w < WINSIZ; w++)
-                    CHK(cry_ecp_dbl(&r, &r, a, p));
+                    CHK(cry_ecp_dbl(&r, &r, grp));
             }
 
             j -= WINSIZ;
             w = (k->data[i] & msk) >> j;
             if (w > 0) {
                 if (!paf) {
-                    CHK(cry_ecp_add(&r, &r, &win[w], p));
+                    CHK(cry_ecp_add(&r, &r, &win[w], grp));
                 } else {
                     paf = 0; /* First addition */
                     CHK(cry_ecp_copy(&r, &win[w]));
-- 
2.43.0


From 09d241142c6755fa425dfdbd21d73e3211ab4a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:24 +0000
Subject: [PATCH 58/58] fix: Hill key generation ignored a failing random
 source

---
 src/crypt/hill.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypt/hill.c b/src/crypt/hill.c
index e4d7939..835669d 100644
--- a/src/crypt/hill.c
+++ b/src/crypt/hill.c
@@ -164,7 +164,8 @@ static int keygen(unsigned char *key, unsigned char *ikey, size_t keylen,
 
     do {
         if (trials > 0) {
-            cry_prng_aes_rand(key, keylen);
+            if (cry_prng_aes_rand(key, keylen) != 0)
+                break;
             trials--;
         }
 
-- 
2.43.0


From 3373772c4da7cfe9e4d2a5a21317d133f52e0eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:17 +0000
Subject: [PATCH 01/22] fix: SHA-512/384 padding when the last block holds
 112..127 bytes

---
 src/hash/sha512.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash/sha512.c b/src/hash/sha512.c
index 0531bc9..234328a 100644
--- a/src/hash/sha512.c
+++ b/src/hash/sha512.c
@@ -210,7 +210,7 @@ void cry_sha512_digest(cry_sha512_ctx *ctx, unsigned char *out)
     CRY_WRITE64_BE(lo, msglen + 8);
 
     last = ctx->len[0] & 0x7F;
-    padlen = (last < 112) ? (112 - last) : (128 - last);
+    padlen = (last < 112) ? (112 - last) : (240 - last);
 
     pad[0] = 0x80;
     cry_sha512_update(ctx, pad, padlen);
-- 
2.43.0


From c03de8cee66d977006cedbc677ddcef897a0aa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:20 +0000
Subject: [PATCH 02/22] fix: AES encryption after decryption on the same
 context

---
 src/crypt/aes.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/crypt/aes.c b/src/crypt/aes.c
index 5bb3d27..5501ed6 100644
--- a/src/crypt/aes.c
+++ b/src/crypt/aes.c
@@ -346,10 +346,27 @@ static const uint32_t mtab[256] = {
      ((uint32_t)sbox[I3(w3)] << 24))
 
 
+/* InvMixColumns of a single column */
+static uint32_t key_mix(uint32_t key)
+{
+    uint32_t newkey, tmp;
+
+    newkey = mtab[key & 0xff];
+    key >>= 8;
+    tmp = mtab[key & 0xff];
+    newkey ^= CRY_ROTL32(tmp, 8);
+    key >>= 8;
+    tmp = mtab[key & 0xff];
+    newkey ^= CRY_ROTL32(tmp, 16);
+    key >>= 8;
+    tmp = mtab[key & 0xff];
+    newkey ^= CRY_ROTL32(tmp, 24);
+    return newkey;
+}
+
 static void key_invert(cry_aes_ctx *ctx)
 {
     unsigned int i, j, k, nr;
-    uint32_t key, newkey, tmp;
 
     nr = ctx->nr & ~DECRYPT_STATE;
     for (i = 0, j = nr * 4; i < j; i += 4, j -= 4) {
@@ -358,18 +375,10 @@ static void key_invert(cry_aes_ctx *ctx)
     }
 
     for (i = 4; i < 4 * nr; i++) {
-        key = ctx->keys[i];
-        newkey = mtab[key & 0xff];
-        key >>= 8;
-        tmp = mtab[key & 0xff];
-        newkey ^= CRY_ROTL32(tmp, 8);
-        key >>= 8;
-        tmp = mtab[key & 0xff];
-        newkey ^= CRY_ROTL32(tmp, 16);
-        key >>= 8;
-        tmp = mtab[key & 0xff];
-        newkey ^= CRY_ROTL32(tmp, 24);
-        ctx->keys[i] = newkey;
+        ctx->keys[i] = key_mix(ctx->keys[i]);
+        /* Back to encryption: MixColumns is InvMixColumns applied 3 times */
+        if ((ctx->nr & DECRYPT_STATE) != 0)
+            ctx->keys[i] = key_mix(key_mix(ctx->keys[i]));
     }
 }
 
-- 
2.43.0


From d69b25cde5992ae3f907d71bc501f916ca7ad8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:15 +0000
Subject: [PATCH 03/22] fix: CBC decryption of less than one block

---
 src/crypt/cbc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/cbc.c b/src/crypt/cbc.c
index 96358de..4324d07 100644
--- a/src/crypt/cbc.c
+++ b/src/crypt/cbc.c
@@ -68,6 +68,8 @@ void cry_cbc_decrypt(struct cry_cbc_ctx *ctx, unsigned char *dst,
     cry_ciph_encrypt_f decrypt = ctx->ciph_itf->decrypt;
 
     size &= ~(ctx->ctrlen - 1);
+    if (size == 0)
+        return;
 
     if (src != dst) {
         decrypt(ciph, dst, src, size);
-- 
2.43.0


From f73b5722fcf1259c809e193a2b4a8b266ed89d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:28 +0000
Subject: [PATCH 04/22] fix: CFB decryption and partial blocks

---
 include/cry/cfb.h |  5 +++--
 src/crypt/cfb.c   | 25 ++++++++++++++++++++++---
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/cry/cfb.h b/include/cry/cfb.h
index a16f518..e3c1666 100644
--- a/include/cry/cfb.h
+++ b/include/cry/cfb.h
@@ -75,7 +75,7 @@ void cry_cfb_iv_set(struct cry_cfb_ctx *ctx, const unsigned char *iv,
                     size_t size);
 
 /**
- * Encrypt/Decrypt function.
+ * Encryption function.
  *
  * @param ctx   CFB context.
  * @param dst   Destination pointer.
@@ -103,7 +103,8 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
  * @param src   Source pointer (ciphertext).
  * @param size  Size of ciphertext.
  */
-#define cry_cfb_decrypt cry_cfb_crypt
+void cry_cfb_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t size);
 
 
 /**
diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index 5b85405..40075bd 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -55,7 +55,26 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
     if (n != 0) {
         encrypt(ciph, ctx->v, ctx->v, ctx->vlen);
         cry_memxor2(dst, src, ctx->v, n);
-        memcpy(ctx->v, dst, ctx->vlen);
+        memcpy(ctx->v, dst, n);
+    }
+}
+
+void cry_cfb_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t len)
+{
+    void *ciph = ctx->ciph_ctx;
+    cry_ciph_encrypt_f encrypt = ctx->ciph_itf->encrypt;
+    unsigned char buf[CRY_CFB_BLOCK_MAX];
+    size_t n;
+
+    while (len != 0) {
+        n = CRY_MIN(len, ctx->vlen);
+        encrypt(ciph, buf, ctx->v, ctx->vlen);
+        memcpy(ctx->v, src, n); /* the feedback is the ciphertext */
+        cry_memxor2(dst, src, buf, n);
+        src += n;
+        dst += n;
+        len -= n;
     }
 }
 
@@ -101,8 +120,8 @@ void cry_cfb8_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
         len -= i;
         src += i;
         dst += i;
-        memcpy(buf, buf + ctx->vlen, ctx->vlen);
+        memmove(buf, buf + i, ctx->vlen);
         memcpy(buf + ctx->vlen, src, len < ctx->vlen ? len : ctx->vlen);
     }
-    memcpy(ctx->v, buf + i, ctx->vlen);
+    memcpy(ctx->v, buf, ctx->vlen);
 }
-- 
2.43.0


From a2e22425067f582ef873c9d5281ae78a9c965b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:38 +0000
Subject: [PATCH 05/22] fix: in place CTR with blocks shorter than 16 bytes

---
 src/crypt/ctr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/ctr.c b/src/crypt/ctr.c
index 52f5cab..46fa5d1 100644
--- a/src/crypt/ctr.c
+++ b/src/crypt/ctr.c
@@ -68,7 +68,7 @@ void cry_ctr_encrypt(struct cry_ctr_ctx *ctx, unsigned char *dst,
     } else {
         while (len >= BUF_LEN) {
             p = buf;
-            for (n = 0; n < BUF_BLOCKS; n++) {
+            for (n = 0; n < BUF_LEN; n += ctx->ctrlen) {
                 memcpy(p, ctx->ctr, ctx->ctrlen);
                 CRY_INCREMENT_BE(ctx->ctr, ctx->ctrlen);
                 p += ctx->ctrlen;
-- 
2.43.0


From 8004261c17fe3410e36827906c955d4b36a15986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 06/22] fix: memxor2 rotation of the result between two
 disjoint sources

---
 src/crypt/memxor.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/crypt/memxor.c b/src/crypt/memxor.c
index 3068d9f..ca02083 100644
--- a/src/crypt/memxor.c
+++ b/src/crypt/memxor.c
@@ -3,6 +3,19 @@
 #include <stdlib.h>
 
 
+/* Reverse the order of the bytes in a buffer. */
+static void reverse(unsigned char *buf, size_t n)
+{
+    unsigned char t;
+    size_t i;
+
+    for (i = 0; i < n / 2; i++) {
+        t = buf[i];
+        buf[i] = buf[n - 1 - i];
+        buf[n - 1 - i] = t;
+    }
+}
+
 /* In the four cases below, we assume src1 <= src2.
  * The input pointers are eventually swapped internally.
  *
@@ -53,7 +66,7 @@ void cry_memxor2(unsigned char *dst, const unsigned char *src1,
                  const unsigned char *src2, size_t size)
 {
     size_t i, j;
-    unsigned char *tmp, t;
+    unsigned char *tmp;
     size_t n = size;
 
     if (src2 < src1) {
@@ -80,15 +93,11 @@ void cry_memxor2(unsigned char *dst, const unsigned char *src1,
             if (j == n)
                 j = 0;
         }
-        /* Now shift the dst buffer */
+        /* Now rotate the dst buffer */
         j = (size_t)((src1 + n) - dst);
-        for (i = 0; i < n-1; i++) {
-            t = dst[j];
-            dst[j] = dst[i];
-            dst[i] = t;
-            if (j < n-1)
-                j++;
-        }
+        reverse(dst, j);
+        reverse(dst + j, n - j);
+        reverse(dst, n);
     } else {
         /* Case 4 */
         tmp = malloc(n);
-- 
2.43.0


From 360b1ee8915344bb5a4a479aa80c73adb925a917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:59 +0000
Subject: [PATCH 07/22] fix: GCM lengths of 512 MiB and more

---
 src/crypt/gcm.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crypt/gcm.c b/src/crypt/gcm.c
index 0951e4f..81fa2f1 100644
--- a/src/crypt/gcm.c
+++ b/src/crypt/gcm.c
@@ -62,13 +62,13 @@ static void gcm_hash_sizes(unsigned char *hash, const unsigned char *key,
                            size_t auth_size, size_t ciph_size)
 {
     unsigned char buf[CRY_GCM_BLOCK_SIZE] = {0};
-    uint32_t bits;
+    uint64_t bits;
 
     /* Sizes in bits */
-    bits = (uint32_t)(auth_size << 3);
-    CRY_WRITE32_BE(bits, buf + 4);
-    bits = (uint32_t)(ciph_size << 3);
-    CRY_WRITE32_BE(bits, buf + 12);
+    bits = (uint64_t)auth_size << 3;
+    CRY_WRITE64_BE(bits, buf);
+    bits = (uint64_t)ciph_size << 3;
+    CRY_WRITE64_BE(bits, buf + 8);
     gcm_hash(hash, key, buf, CRY_GCM_BLOCK_SIZE);
 }
 
-- 
2.43.0


From 1cda4a623fb6dda8c4382def0c527e399c4928ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:39 +0000
Subject: [PATCH 08/22] fix: base64: empty input and misplaced padding

---
 src/crypt/base64.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/crypt/base64.c b/src/crypt/base64.c
index 3799107..ec1e5e5 100644
--- a/src/crypt/base64.c
+++ b/src/crypt/base64.c
@@ -7,7 +7,7 @@ size_t cry_base64_encode(char *out, const char *in, size_t len)
 {
     size_t i, outlen = 0;
 
-    do {
+    while (len != 0) {
         outlen += 4;
 
         i = (in[0] & 0xFC) >> 2;
@@ -36,7 +36,7 @@ size_t cry_base64_encode(char *out, const char *in, size_t len)
 
         in += 3;
         len -= 3;
-    } while (len != 0);
+    }
     return outlen;
 }
 
@@ -66,11 +66,14 @@ size_t cry_base64_decode(char *out, const char *in, size_t len)
     if (len & 0x03)
         return -1; /* should be a multiple of 4 */
 
-    do {
+    while (len != 0) {
         for (i = 0; i < 4; i++) {
             /* check for illegal base64 characters */
             if (in[i] < 0 || unbase64[(int)in[i]] == 255)
                 return -1;
+            /* padding is allowed only at the end of the text */
+            if (in[i] == '=' && (len != 4 || i < 2 || in[3] != '='))
+                return -1;
         }
 
         *out++ = unbase64[(int)in[0]] << 2 |
@@ -91,6 +94,6 @@ size_t cry_base64_decode(char *out, const char *in, size_t len)
 
         in += 4;
         len -= 4;
-    } while (len != 0);
+    }
     return outlen;
 }
-- 
2.43.0


From 9036ab6f4fcb6f520fa7f68e896b9191b7cc7216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:01 +0000
Subject: [PATCH 09/22] fix: affine, hill: refuse an empty key

---
 src/crypt/affine.c | 2 ++
 src/crypt/hill.c   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/crypt/affine.c b/src/crypt/affine.c
index 29bf5bf..202b7ec 100644
--- a/src/crypt/affine.c
+++ b/src/crypt/affine.c
@@ -37,6 +37,8 @@ int cry_affine_init(struct cry_affine_ctx *ctx, const unsigned char *keya,
     int res = 0;
 
     memset(ctx, 0, sizeof(*ctx));
+    if (keylen == 0)
+        return -1;
     if (keylen > CRY_AFFINE_KEYMAX)
         keylen = CRY_AFFINE_KEYMAX;
     memcpy(ctx->keya, keya, keylen);
diff --git a/src/crypt/hill.c b/src/crypt/hill.c
index e4d7939..1df1d2c 100644
--- a/src/crypt/hill.c
+++ b/src/crypt/hill.c
@@ -193,6 +193,8 @@ int cry_hill_init(struct cry_hill_ctx *ctx, const unsigned char *key,
     memset(ctx, 0, sizeof(*ctx));
 
     ctx->n = keylen_trim(&keylen);
+    if (ctx->n == 0)
+        return -1;
 
     if (key != NULL)
         memcpy(ctx->key, key, keylen);
-- 
2.43.0


From e2e49a296d0da78dc405d52d0466265876c88611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:58 +0000
Subject: [PATCH 10/22] fix: cry_mpi_load_bin: the value loaded is not negative

---
 src/mpi/mpi_bin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpi/mpi_bin.c b/src/mpi/mpi_bin.c
index 4890ed8..3198110 100644
--- a/src/mpi/mpi_bin.c
+++ b/src/mpi/mpi_bin.c
@@ -27,6 +27,7 @@ int cry_mpi_load_bin(cry_mpi *x, const void *buf, size_t size)
             return res;
     }
     x->used = i;
+    x->sign = 0;
 
     d = 0;
     while (size--) {
-- 
2.43.0


From 1fd0af81e6f261bef6c1d549dfde19da9c94a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:07 +0000
Subject: [PATCH 11/22] fix: cry_mpi_shr: a result of zero is not negative

---
 src/mpi/mpi_shr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpi/mpi_shr.c b/src/mpi/mpi_shr.c
index 7e72a95..65556db 100644
--- a/src/mpi/mpi_shr.c
+++ b/src/mpi/mpi_shr.c
@@ -70,5 +70,7 @@ int cry_mpi_shr(cry_mpi *c, const cry_mpi *a, size_t n)
         }
     }
     cry_mpi_adjust(c);
+    if (cry_mpi_is_zero(c))
+        c->sign = 0;
     return 0;
 }
-- 
2.43.0


From ccd62f28bf5f89319731566f54539f508ff54e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:17 +0000
Subject: [PATCH 12/22] fix: cry_mpi_get_int: refuse negative numbers below
 LONG_MIN

---
 src/mpi/mpi_core.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mpi/mpi_core.c b/src/mpi/mpi_core.c
index f7f2bbe..2c0d505 100644
--- a/src/mpi/mpi_core.c
+++ b/src/mpi/mpi_core.c
@@ -80,7 +80,7 @@ int cry_mpi_set_int(cry_mpi *a, long val)
 
     if (val < 0) {
         a->sign = 1;
-        uval = (unsigned long)-val;
+        uval = -(unsigned long)val;
     } else {
         a->sign = 0;
         uval = (unsigned long)val;
@@ -100,11 +100,10 @@ int cry_mpi_get_int(cry_mpi *a, long *val)
 {
     size_t used;
     size_t i;
-    long rval = 0;
+    unsigned long rval = 0;
 
     used = cry_mpi_count_bits(a);
-    /* consider the sign bit */
-    if (used > 8*sizeof(long) - ((a->sign == 0) ? 1 : 0))
+    if (used > 8*sizeof(long))
         return -1;
     i = a->used;
     while (i-- > 0) {
@@ -113,7 +112,10 @@ int cry_mpi_get_int(cry_mpi *a, long *val)
 #endif
         rval |= a->data[i];
     }
-    *val = (a->sign == 0) ? rval : -rval;
+    /* consider the sign bit */
+    if (rval > (unsigned long)LONG_MAX + ((a->sign == 0) ? 0 : 1))
+        return -1;
+    *val = (long)((a->sign == 0) ? rval : -rval);
     return 0;
 }
 
-- 
2.43.0


From 0b7afbeb6af243622f87bb9e539e7389f5fad25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:03 +0000
Subject: [PATCH 13/22] fix: AES key wrap step counter is 64 bit wide, check
 the length

---
 src/utils/aes_wrap.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/utils/aes_wrap.c b/src/utils/aes_wrap.c
index 7819c4c..3d8dc7c 100644
--- a/src/utils/aes_wrap.c
+++ b/src/utils/aes_wrap.c
@@ -17,6 +17,15 @@
 
 #define INIT_VAL    0xA6
 
+/* Xor the step counter, as a 64 bit big endian number */
+static void ctr_xor(unsigned char *a, size_t t)
+{
+    size_t i;
+
+    for (i = 8; i-- > 0; t >>= 8)
+        a[i] ^= (unsigned char)t;
+}
+
 int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
                  const unsigned char *key, size_t keylen)
 {
@@ -24,6 +33,9 @@ int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
     size_t i, j, blks;
     cry_aes_ctx aes;
 
+    if (len == 0 || (len & 7) != 0)
+        return -1;
+
     a = out;
     r = out + 8;
 
@@ -41,7 +53,7 @@ int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
             memcpy(b + 8, r, 8);
             cry_aes_encrypt(&aes, b, b, 16);
             memcpy(a, b, 8);
-            a[7] ^= blks * i + j;
+            ctr_xor(a, blks * i + j);
             memcpy(r, b + 8, 8);
             r += 8;
         }
@@ -57,6 +69,9 @@ int cry_aes_unwrap(unsigned char *out, const unsigned char *in, size_t len,
     size_t i, j, blks;
     int res = 0;
 
+    if (len == 0 || (len & 7) != 0)
+        return -1;
+
     /* Initialize variables */
     memcpy(a, in, 8);
     r = out;
@@ -70,7 +85,7 @@ int cry_aes_unwrap(unsigned char *out, const unsigned char *in, size_t len,
         r = out + (blks - 1) * 8;
         for (j = blks; j >= 1; j--) {
             memcpy(b, a, 8);
-            b[7] ^= blks * i + j;
+            ctr_xor(b, blks * i + j);
             memcpy(b + 8, r, 8);
             cry_aes_decrypt(&aes, b, b, 16);
             memcpy(a, b, 8);
-- 
2.43.0


From ff8cd7b92f27a3b352cc32f00fe82b715665086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:13 +0000
Subject: [PATCH 14/22] fix: LFSR113 seeding clears the state and respects the
 minimum seeds

---
 src/prng/prng_lfsr113.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/prng/prng_lfsr113.c b/src/prng/prng_lfsr113.c
index 6d81dc2..1bd7d80 100644
--- a/src/prng/prng_lfsr113.c
+++ b/src/prng/prng_lfsr113.c
@@ -37,16 +37,16 @@ int cry_prng_lfsr113_init(const unsigned char *seed, size_t seed_siz)
     unsigned char *p = (unsigned char *)z;
     size_t i;
 
-    memset(z, 0, seed_siz);
+    memset(z, 0, sizeof(z));
     for (i = 0; i < seed_siz; i++)
         p[i % sizeof(z)] ^= seed[i];
-    if (z[0] < 1)
+    if (z[0] <= 1)
         z[0] = DEFAULT_SEED;
-    if (z[1] < 7)
+    if (z[1] <= 7)
         z[1] = DEFAULT_SEED;
-    if (z[2] < 15)
+    if (z[2] <= 15)
         z[2] = DEFAULT_SEED;
-    if (z[3] < 127)
+    if (z[3] <= 127)
         z[3] = DEFAULT_SEED;
     init = 1;
     return 0;
-- 
2.43.0


From 54412d4a085aedcb3299ee04ef613f3021d63326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:04 +0000
Subject: [PATCH 15/22] fix: the square computed by comba is not negative

---
 src/mpi/mpi_sqr_comba.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpi/mpi_sqr_comba.c b/src/mpi/mpi_sqr_comba.c
index f0d1e95..6047dd5 100644
--- a/src/mpi/mpi_sqr_comba.c
+++ b/src/mpi/mpi_sqr_comba.c
@@ -24,7 +24,7 @@ int cry_mpi_sqr_comba(cry_mpi *r, const cry_mpi *a)
             return res;
         dst = r;
     }
-    cry_mpi_set_used(dst, pa);;
+    cry_mpi_set_used(dst, pa);
 
     c1 = c2 = 0;
     for (ix = 0; ix < pa; ix++) {
@@ -86,6 +86,7 @@ int cry_mpi_sqr_comba(cry_mpi *r, const cry_mpi *a)
         cry_mpi_clear(dst);
     }
     cry_mpi_adjust(r);
+    r->sign = 0;
 
-    return res;
+    return 0;
 }
-- 
2.43.0


From b37a54629ef940de5550a44241b0bfc34fdde52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:00 +0000
Subject: [PATCH 16/22] fix: signed division gives the floor quotient for all
 signs and aliases

---
 src/mpi/mpi_div.c | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/mpi/mpi_div.c b/src/mpi/mpi_div.c
index 8e77028..ad9d94a 100644
--- a/src/mpi/mpi_div.c
+++ b/src/mpi/mpi_div.c
@@ -1,26 +1,49 @@
 #include "mpi_pvt.h"
 
+/*
+ * Floor division: q is the quotient rounded down, r is the absolute value
+ * of a - q*b.
+ */
 int cry_mpi_div(cry_mpi *q, cry_mpi *r, const cry_mpi *a,
                 const cry_mpi *b)
 {
     int res, sign = a->sign ^ b->sign;
+    cry_mpi rem, den;
 
-    if ((res = cry_mpi_div_abs(q, r, a, b)) != 0)
+    if (a->sign == 0 && b->sign == 0)
+        return cry_mpi_div_abs(q, r, a, b);
+
+    if ((res = cry_mpi_init(&rem)) != 0)
         return res;
+    /* The divisor may be overwritten by the quotient */
+    if ((res = cry_mpi_init_copy(&den, b)) != 0)
+        goto e0;
 
-    if (sign != 0 && !cry_mpi_is_zero(r)) {
-        if (q != NULL) {
-            cry_mpi one;
-            cry_mpi_digit one_dig = 1;
+    if ((res = cry_mpi_div_abs(q, &rem, a, b)) != 0)
+        goto e1;
+    rem.sign = 0;
 
-            one.sign = 0;
-            one.used = one.alloc = 1;
-            one.data = &one_dig;
-            q->sign = 1;
-            res = cry_mpi_sub(q, q, &one);
+    if (sign != 0) {
+        if (!cry_mpi_is_zero(&rem)) {
+            if (q != NULL) {
+                cry_mpi one;
+                cry_mpi_digit one_dig = 1;
+
+                one.sign = 0;
+                one.used = one.alloc = 1;
+                one.data = &one_dig;
+                if ((res = cry_mpi_add(q, q, &one)) != 0)
+                    goto e1;
+            }
+            if ((res = cry_mpi_sub_abs(&rem, &den, &rem)) != 0)
+                goto e1;
         }
-        if (r != NULL)
-            res = cry_mpi_sub_abs(r, b, r);
+        if (q != NULL && !cry_mpi_is_zero(q))
+            q->sign = 1;
     }
+    if (r != NULL)
+        cry_mpi_swap(r, &rem);
+e1: cry_mpi_clear(&den);
+e0: cry_mpi_clear(&rem);
     return res;
 }
-- 
2.43.0


From 7b94898d1d3acf6a81da0ec1b6f5399872f46e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 17/22] fix: the product with a zero digit is a proper zero

---
 src/mpi/mpi_mul.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/mpi_mul.c b/src/mpi/mpi_mul.c
index 5fd0351..4373427 100644
--- a/src/mpi/mpi_mul.c
+++ b/src/mpi/mpi_mul.c
@@ -19,6 +19,6 @@ int cry_mpi_mul_dig(cry_mpi *r, const cry_mpi *a, cry_mpi_digit b)
     tmp.data = &b;
     tmp.sign = 0;
     tmp.alloc = 1;
-    tmp.used = 1;
+    tmp.used = (b != 0) ? 1 : 0;
     return cry_mpi_mul(r, a, &tmp);
 }
-- 
2.43.0


From 06772c8b062ffa75f3a0021a01c2cdf7075df3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 18/22] fix: doubling a point of order two gives the point at
 infinity

---
 src/ecp/ecp_dbl.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecp/ecp_dbl.c b/src/ecp/ecp_dbl.c
index 5b093b8..7794f25 100644
--- a/src/ecp/ecp_dbl.c
+++ b/src/ecp/ecp_dbl.c
@@ -12,6 +12,12 @@ int cry_ecp_dbl(cry_ecp *pr, const cry_ecp *p1, const cry_ecp_grp *grp)
     if (cry_ecp_is_zero(p1))
         return (pr != p1) ? cry_ecp_copy(pr, p1) : 0;
 
+    /* The tangent is vertical */
+    if (cry_mpi_is_zero(&p1->y)) {
+        cry_ecp_set_zero(pr);
+        return 0;
+    }
+
     if ((res = cry_mpi_init_list(&num, &den, &lam,
                                  &r.x, &r.y, &r.z, (cry_mpi *)NULL)) != 0) {
         return res;
-- 
2.43.0


From bdf935079f1a7c9209a89bb0c374b3d099ae54b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:22 +0000
Subject: [PATCH 19/22] fix: DSA signatures are range checked, never zero, and
 errors are reported

---
 src/crypt/dsa.c | 58 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index f29537d..6e39979 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -2,7 +2,7 @@
 #include "../misc.h"
 
 
-#define CHK(exp) CRY_CHK(exp, e)
+#define CHK(exp) CRY_CHK(res = (exp), e)
 
 /*
  * Generate a non zero random secret k less than q.
@@ -60,23 +60,26 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
         return res;
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->q.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
+    if (cry_mpi_count_bytes(&ctx->q) < len)
+        len = cry_mpi_count_bytes(&ctx->q);
     CHK(cry_mpi_load_bin(&z, in, len));
 
-    /* k = c mod (q-1) + 1 */
-    CHK(secret_gen(&k, &ctx->q));
+    do {
+        /* k = c mod (q-1) + 1 */
+        CHK(secret_gen(&k, &ctx->q));
 
-    /* r = (g^k mod p) mod q */
-    CHK(cry_mpi_mod_exp(&sig->r, &ctx->g, &k, &ctx->p));
-    CHK(cry_mpi_mod(&sig->r, &sig->r, &ctx->q));
+        /* r = (g^k mod p) mod q */
+        CHK(cry_mpi_mod_exp(&sig->r, &ctx->g, &k, &ctx->p));
+        CHK(cry_mpi_mod(&sig->r, &sig->r, &ctx->q));
 
-    /* s = (inv(k) * (z + d*r)) mod q */
-    CHK(cry_mpi_inv(&k, &k, &ctx->q));
-    CHK(cry_mpi_mul(&sig->s, &ctx->pvt, &sig->r));
-    CHK(cry_mpi_add(&sig->s, &sig->s, &z));
-    CHK(cry_mpi_mul(&sig->s, &sig->s, &k));
-    CHK(cry_mpi_mod(&sig->s, &sig->s, &ctx->q));
+        /* s = (inv(k) * (z + d*r)) mod q */
+        CHK(cry_mpi_inv(&k, &k, &ctx->q));
+        CHK(cry_mpi_mul(&sig->s, &ctx->pvt, &sig->r));
+        CHK(cry_mpi_add(&sig->s, &sig->s, &z));
+        CHK(cry_mpi_mul(&sig->s, &sig->s, &k));
+        CHK(cry_mpi_mod(&sig->s, &sig->s, &ctx->q));
+        /* Neither r nor s can be zero */
+    } while (cry_mpi_is_zero(&sig->r) || cry_mpi_is_zero(&sig->s));
 
 e:  cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
     return res;
@@ -88,12 +91,19 @@ int cry_dsa_verify(cry_dsa_ctx *ctx, const cry_dsa_sig *sig,
     int res;
     cry_mpi z, w, u1, u2;
 
+    /* Check that 0 < r < q and 0 < s < q */
+    if (cry_mpi_is_zero(&sig->r) || cry_mpi_is_neg(&sig->r) ||
+        cry_mpi_is_zero(&sig->s) || cry_mpi_is_neg(&sig->s) ||
+        cry_mpi_cmp_abs(&sig->r, &ctx->q) >= 0 ||
+        cry_mpi_cmp_abs(&sig->s, &ctx->q) >= 0)
+        return -1;
+
     if ((res = cry_mpi_init_list(&z, &w, &u1, &u2, (cry_mpi *)NULL)) != 0)
         return res;
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->q.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
+    if (cry_mpi_count_bytes(&ctx->q) < len)
+        len = cry_mpi_count_bytes(&ctx->q);
     CHK(cry_mpi_load_bin(&z, in, len));
 
     /* w = inv(s) mod q */
@@ -148,11 +158,12 @@ void cry_dsa_clear(cry_dsa_ctx *ctx)
  */
 int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
 {
-    int res = -1;
+    int res;
     cry_mpi p1, q, r, one;
     unsigned int i, j;
 
-    cry_mpi_init_list(&p1, &q, &r, &one, NULL);
+    if ((res = cry_mpi_init_list(&p1, &q, &r, &one, NULL)) != 0)
+        return res;
     CHK(cry_mpi_set_int(&one, 1));
 
     for (i = 0; i < ITER_MAX_OUT; i++) {
@@ -165,7 +176,9 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
             CHK(cry_mpi_mod(&r, &ctx->p, &r));
             CHK(cry_mpi_sub(&ctx->p, &ctx->p, &r));
             CHK(cry_mpi_add(&ctx->p, &ctx->p, &one));
-            if (cry_mpi_is_prime(&ctx->p))
+            if ((res = cry_mpi_is_prime(&ctx->p)) < 0)
+                goto e;
+            if (res != 0)
                 break;
         }
         if (j == ITER_MAX_IN)
@@ -185,11 +198,12 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
         if (j == ITER_MAX_IN)
             continue; /* Retry */
         /* Finally compute public and public keys */
-        cry_mpi_rand_range(&ctx->pvt, &q);
-        cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p);
-        res = 0;
+        CHK(secret_gen(&ctx->pvt, &ctx->q));
+        CHK(cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p));
         break;
     }
+    if (i == ITER_MAX_OUT)
+        res = -1;
 e:  cry_mpi_clear_list(&p1, &q, &r, &one, NULL);
     return res;
 }
-- 
2.43.0


From 7faf134231bf2d6230f9b2d67f6d9c4fa05399c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:31 +0000
Subject: [PATCH 20/22] fix: Elgamal signatures are range checked and never
 have s = 0

---
 src/crypt/elgamal.c | 49 +++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/crypt/elgamal.c b/src/crypt/elgamal.c
index ecefd54..6223053 100644
--- a/src/crypt/elgamal.c
+++ b/src/crypt/elgamal.c
@@ -73,21 +73,24 @@ int cry_elgamal_sign2(cry_elgamal_ctx *ctx, cry_elgamal_sig *sign,
 
     CHK(cry_mpi_copy(&t, &ctx->p));
     CHK(cry_mpi_sub(&t, &t, &one));
-
-    /* gcd(k, p-1) = 1 */
-    CHK(secret_gen(&k, &t, &one));
-
-    /* r */
-    CHK(cry_mpi_mod_exp(&sign->r, &ctx->g, &k, &ctx->p));
-
-    /* s */
     CHK(cry_mpi_load_bin(&z, in, len));
-    CHK(cry_mpi_mul(&sign->s, &ctx->d, &sign->r));
-    CHK(cry_mpi_sub(&sign->s, &z, &sign->s));
-    CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
-    CHK(cry_mpi_inv(&k, &k, &t));
-    CHK(cry_mpi_mul(&sign->s, &sign->s, &k));
-    CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
+
+    do {
+        /* gcd(k, p-1) = 1 */
+        CHK(secret_gen(&k, &t, &one));
+
+        /* r */
+        CHK(cry_mpi_mod_exp(&sign->r, &ctx->g, &k, &ctx->p));
+
+        /* s */
+        CHK(cry_mpi_mul(&sign->s, &ctx->d, &sign->r));
+        CHK(cry_mpi_sub(&sign->s, &z, &sign->s));
+        CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
+        CHK(cry_mpi_inv(&k, &k, &t));
+        CHK(cry_mpi_mul(&sign->s, &sign->s, &k));
+        CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
+        /* s can't be zero */
+    } while (cry_mpi_is_zero(&sign->s));
 
 e:  cry_mpi_clear_list(&k, &z, &t, (cry_mpi *)NULL);
     return res;
@@ -97,14 +100,30 @@ int cry_elgamal_verify2(cry_elgamal_ctx *ctx, const cry_elgamal_sig *sign,
                         const unsigned char *in, size_t len)
 {
     int res;
-    cry_mpi r, z;
+    cry_mpi one, r, z;
+    cry_mpi_digit dig = 1;
 
     if (len > cry_mpi_count_bytes(&ctx->p))
         return -1;
 
+    one.sign = 0;
+    one.used = 1;
+    one.alloc = 1;
+    one.data = &dig;
+
     if ((res = cry_mpi_init_list(&r, &z, (cry_mpi *)NULL)) != 0)
         return res;
 
+    /* Check that 0 < r < p and 0 < s < p-1 */
+    CHK(cry_mpi_sub(&z, &ctx->p, &one));
+    if (cry_mpi_is_zero(&sign->r) || cry_mpi_is_neg(&sign->r) ||
+        cry_mpi_is_zero(&sign->s) || cry_mpi_is_neg(&sign->s) ||
+        cry_mpi_cmp_abs(&sign->r, &ctx->p) >= 0 ||
+        cry_mpi_cmp_abs(&sign->s, &z) >= 0) {
+        res = -1;
+        goto e;
+    }
+
     CHK(cry_mpi_mod_exp(&r, &ctx->y, &sign->r, &ctx->p));
     CHK(cry_mpi_mod_exp(&z, &sign->r, &sign->s, &ctx->p));
     CHK(cry_mpi_mul(&r, &r, &z));
-- 
2.43.0


From ab3ae25468ff8856c07a4e184f7b85315d1b94c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 21/22] fix: ECDSA signatures are range checked, r is reduced
 modulo n, errors are reported

---
 src/crypt/ecdsa.c | 67 +++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 251c595..8876ca5 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -16,37 +16,33 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
     CHK0(cry_ecp_init(&X));
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->grp.n.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
+    if (cry_mpi_count_bytes(&ctx->grp.n) < len)
+        len = cry_mpi_count_bytes(&ctx->grp.n);
     CHK1(cry_mpi_load_bin(&z, in, len));
 
-    /* This should be a random number between 0 and n-1 */
-#if 0
-    unsigned char K[] = {
-        0x9E, 0x56, 0xF5, 0x09, 0x19, 0x67, 0x84, 0xD9, 0x63, 0xD1, 0xC0,
-        0xA4, 0x01, 0x51, 0x0E, 0xE7, 0xAD, 0xA3, 0xDC, 0xC5, 0xDE, 0xE0,
-        0x4B, 0x15, 0x4B, 0xF6, 0x1A, 0xF1, 0xD5, 0xA6, 0xDE, 0xCE
-    };
-    CHK1(cry_mpi_load_bin(&k, K, sizeof(K)));
-#else
-    CHK1(cry_mpi_rand_range(&k, &ctx->grp.n));
-#endif
-
-    CHK1(cry_ecp_mul(&X, &ctx->grp.g, &k, &ctx->grp));
-
-    /* r = x mod n */
-    cry_mpi_swap(&sig->r, &X.x);
-
-    /* s = (inv(k) * (z + r*d)) mod n */
-    CHK1(cry_mpi_inv(&k, &k, &ctx->grp.n));
-    CHK1(cry_mpi_mul(&sig->s, &ctx->d, &sig->r));
-    CHK1(cry_mpi_add(&sig->s, &sig->s, &z));
-    CHK1(cry_mpi_mul(&sig->s, &sig->s, &k));
-    CHK1(cry_mpi_mod(&sig->s, &sig->s, &ctx->grp.n));
+    do {
+        /* k is a random number between 1 and n-1 */
+        do {
+            CHK1(cry_mpi_rand_range(&k, &ctx->grp.n));
+        } while (cry_mpi_is_zero(&k));
+
+        CHK1(cry_ecp_mul(&X, &ctx->grp.g, &k, &ctx->grp));
+
+        /* r = x mod n */
+        CHK1(cry_mpi_mod(&sig->r, &X.x, &ctx->grp.n));
+
+        /* s = (inv(k) * (z + r*d)) mod n */
+        CHK1(cry_mpi_inv(&k, &k, &ctx->grp.n));
+        CHK1(cry_mpi_mul(&sig->s, &ctx->d, &sig->r));
+        CHK1(cry_mpi_add(&sig->s, &sig->s, &z));
+        CHK1(cry_mpi_mul(&sig->s, &sig->s, &k));
+        CHK1(cry_mpi_mod(&sig->s, &sig->s, &ctx->grp.n));
+        /* Neither r nor s can be zero */
+    } while (cry_mpi_is_zero(&sig->r) || cry_mpi_is_zero(&sig->s));
 
 e1: cry_ecp_clear(&X);
 e0: cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
-    return 0;
+    return res;
 }
 
 int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
@@ -56,13 +52,20 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     cry_mpi z, w;
     cry_ecp G, Q;
 
+    /* Check that 0 < r < n and 0 < s < n */
+    if (cry_mpi_is_zero(&sig->r) || cry_mpi_is_neg(&sig->r) ||
+        cry_mpi_is_zero(&sig->s) || cry_mpi_is_neg(&sig->s) ||
+        cry_mpi_cmp_abs(&sig->r, &ctx->grp.n) >= 0 ||
+        cry_mpi_cmp_abs(&sig->s, &ctx->grp.n) >= 0)
+        return -1;
+
     if ((res = cry_mpi_init_list(&z, &w, (cry_mpi *)NULL)) != 0)
         return res;
     CHK0(cry_ecp_init_list(&G, &Q, (cry_ecp *)NULL));
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->grp.n.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
+    if (cry_mpi_count_bytes(&ctx->grp.n) < len)
+        len = cry_mpi_count_bytes(&ctx->grp.n);
     CHK1(cry_mpi_load_bin(&z, in, len));
 
     /* w = inv(s) mod n */
@@ -83,12 +86,14 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     CHK1(cry_ecp_add(&G, &G, &Q, &ctx->grp));
 
     /* r = x1 mod n */
-    CHK1(cry_mpi_mod(&G.x, &G.x, &ctx->grp.n)); // inutile
+    CHK1(cry_mpi_mod(&G.x, &G.x, &ctx->grp.n));
 
-    res = (cry_mpi_cmp_abs(&G.x, &sig->r) == 0) ? 0 : -1;
+    /* The point at infinity has no coordinates to compare */
+    res = (!cry_ecp_is_zero(&G) &&
+           cry_mpi_cmp_abs(&G.x, &sig->r) == 0) ? 0 : -1;
 
 e1: cry_ecp_clear_list(&G, &Q, (cry_ecp *)NULL);
-e0: cry_mpi_clear_list(&z, &w, &G.x, &G.y, &Q.x, &Q.y, (cry_mpi *)NULL);
+e0: cry_mpi_clear_list(&z, &w, (cry_mpi *)NULL);
     return res;
 }
 
-- 
2.43.0


From 33d34996699a1f98f5cd3d0a3f7fada1764ea36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:59 +0000
Subject: [PATCH 22/22] fix: the ECDSA private key is not zero

---
 src/crypt/ecdsa.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 8876ca5..1656122 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -128,7 +128,10 @@ int cry_ecdsa_keygen(cry_ecdsa_ctx *ctx)
 {
     int res;
 
-    if ((res = cry_mpi_rand_range(&ctx->d, &ctx->grp.n)) == 0)
-        res = cry_ecp_mul(&ctx->q, &ctx->grp.g, &ctx->d, &ctx->grp);
-    return res;
+    /* d is a random number between 1 and n-1 */
+    do {
+        if ((res = cry_mpi_rand_range(&ctx->d, &ctx->grp.n)) != 0)
+            return res;
+    } while (cry_mpi_is_zero(&ctx->d));
+    return cry_ecp_mul(&ctx->q, &ctx->grp.g, &ctx->d, &ctx->grp);
 }
-- 
2.43.0


From 3b5b2711ae974da1d6247fdb65faab5f0d776ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:28 +0000
Subject: [PATCH 01/33] fix: cipher settings survive re-initialisation in any
 order

A table set with DSTU_SET_CUSTOM_SBOX or imported from ASN.1 parameters was
replaced by the default one at every following init call, a key supplied after
the IV left the gamma computed with the previous key in use, and setting a table
in the middle of a block continued at the old position. Load the default table
only into a fresh context and restart the stream whenever key, IV or table is
supplied.
---
 engine/cipher.c | 51 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index 7f145aa..a084476 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -23,26 +23,45 @@
 /* 2 bytes for sequence header, 2 bytes for each octet string header and 8 bytes for iv and 64 bytes for dke. Total 78 < 128 so we are ok with 1 byte length */
 #define DSTU_CIPHER_ASN1_PARAM_SIZE (2 + 2 + DSTU_CIPHER_BLOCK_SIZE + 2 + sizeof(default_sbox))
 
+/* EVP zeroes this when a cipher is assigned to a context */
+typedef struct
+{
+    gost_ctx gctx;
+    int sbox_set; /* a substitution table has been loaded into gctx */
+} DSTU_CIPHER_DATA;
+
+/* (Re)start the stream from the original IV with the current key and sbox */
+static void dstu_cipher_restart(EVP_CIPHER_CTX *ctx)
+{
+    DSTU_CIPHER_DATA *data = EVP_CIPHER_CTX_get_cipher_data(ctx);
+
+    memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
+    gostcrypt(&data->gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
+    EVP_CIPHER_CTX_set_num(ctx, 0);
+}
+
 static int dstu_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                             const unsigned char *iv, int enc)
 {
     (void) enc; // Unused
     gost_subst_block sbox;
-    gost_ctx *gctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    DSTU_CIPHER_DATA *data = EVP_CIPHER_CTX_get_cipher_data(ctx);
 
-    unpack_sbox(default_sbox, &sbox);
-    gost_init(gctx, &sbox);
+    if (!data->sbox_set)
+    {
+        unpack_sbox(default_sbox, &sbox);
+        gost_init(&data->gctx, &sbox);
+        data->sbox_set = 1;
+    }
 
     if (key)
-        gost_key(gctx, key);
+        gost_key(&data->gctx, key);
 
     if (iv)
-    {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv, DSTU_CIPHER_BLOCK_SIZE);
-        memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, DSTU_CIPHER_BLOCK_SIZE);
-        gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
-        EVP_CIPHER_CTX_set_num(ctx, 0);
-    }
+
+    if (key || iv)
+        dstu_cipher_restart(ctx);
 
     return 1;
 }
@@ -51,7 +70,7 @@ static int dstu_cipher_do_cipher(EVP_CIPHER_CTX *ctx, unsigned char *out,
                                  const unsigned char *in, size_t inl)
 {
     size_t to_use, i, blocks;
-    gost_ctx *gctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    gost_ctx *gctx = &((DSTU_CIPHER_DATA *) EVP_CIPHER_CTX_get_cipher_data(ctx))->gctx;
     unsigned char tmpiv[DSTU_CIPHER_BLOCK_SIZE], *out_start = out;
     size_t num = EVP_CIPHER_CTX_num(ctx);
     unsigned char *buf = EVP_CIPHER_CTX_buf_noconst(ctx);
@@ -151,7 +170,7 @@ static int dstu_cipher_cleanup(EVP_CIPHER_CTX *ctx)
 static int dstu_cipher_ctrl(EVP_CIPHER_CTX *ctx, int cmd, int p1, void *p2)
 {
     gost_subst_block sbox;
-    gost_ctx *gctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    DSTU_CIPHER_DATA *data = EVP_CIPHER_CTX_get_cipher_data(ctx);
 
     switch (cmd)
     {
@@ -159,9 +178,9 @@ static int dstu_cipher_ctrl(EVP_CIPHER_CTX *ctx, int cmd, int p1, void *p2)
             if ((!p2) || (sizeof(default_sbox) != p1))
                 return 0;
             unpack_sbox((unsigned char *) p2, &sbox);
-            gost_init(gctx, &sbox);
-            memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
-            gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
+            gost_init(&data->gctx, &sbox);
+            data->sbox_set = 1;
+            dstu_cipher_restart(ctx);
             return 1;
         case EVP_CTRL_PBE_PRF_NID:
             if (!p2)
@@ -177,7 +196,7 @@ static int dstu_cipher_set_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *asn1_
 {
     /* We defined params asn1 structure, but for now we will use manual composition for speed here */
     gost_subst_block sbox;
-    gost_ctx* gctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    gost_ctx *gctx = &((DSTU_CIPHER_DATA *) EVP_CIPHER_CTX_get_cipher_data(ctx))->gctx;
 
     byte params[DSTU_CIPHER_ASN1_PARAM_SIZE];
     ASN1_STRING seq;
@@ -238,7 +257,7 @@ EVP_CIPHER *dstu_cipher_new()
         !EVP_CIPHER_meth_set_init(res, dstu_cipher_init) ||
         !EVP_CIPHER_meth_set_do_cipher(res, dstu_cipher_do_cipher) ||
         !EVP_CIPHER_meth_set_cleanup(res, dstu_cipher_cleanup) ||
-        !EVP_CIPHER_meth_set_impl_ctx_size(res, sizeof(gost_ctx)) ||
+        !EVP_CIPHER_meth_set_impl_ctx_size(res, sizeof(DSTU_CIPHER_DATA)) ||
         !EVP_CIPHER_meth_set_set_asn1_params(res, dstu_cipher_set_asn1_parameters) ||
         !EVP_CIPHER_meth_set_get_asn1_params(res, dstu_cipher_get_asn1_parameters) ||
         !EVP_CIPHER_meth_set_ctrl(res, dstu_cipher_ctrl))
-- 
2.43.0


From 9d0053a804806aaa70bab4299635a97cc19f0fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:30 +0000
Subject: [PATCH 02/33] fix: a hash with zero low bits no longer makes signing
 loop forever

The zero check of hash_to_field was done before the truncation to the field
size, so a hash longer than the field with its low bits zero gave h = 0, r = 0
for every nonce and an endless loop in dstu_do_sign.
---
 engine/sign.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine/sign.c b/engine/sign.c
index fd20c35..0d048e2 100644
--- a/engine/sign.c
+++ b/engine/sign.c
@@ -42,10 +42,14 @@ static int hash_to_field(const unsigned char *hash, int hash_len, BIGNUM *fe,
     }
 
     OPENSSL_free(h);
+    if (!bn_truncate_bits(fe, fieldsize))
+        return 0;
+
+    /* The check is made on the field element: a hash, which is longer than the field, may have its low bits zero */
     if (BN_is_zero(fe))
-        BN_one(fe);
+        return BN_one(fe);
 
-    return bn_truncate_bits(fe, fieldsize);
+    return 1;
 }
 
 static int field_to_bn(BIGNUM *fe, const BIGNUM *order)
-- 
2.43.0


From 882f8d9bb3c0aa7cfe364adf8a20453e9da6bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:30 +0000
Subject: [PATCH 03/33] fix: draw the signature nonce again when it is zero

BN_rand_range gives 0 too; signing failed then instead of taking another nonce
as dstu_generate_key does for the private key.
---
 engine/sign.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/engine/sign.c b/engine/sign.c
index 0d048e2..564d7b4 100644
--- a/engine/sign.c
+++ b/engine/sign.c
@@ -97,6 +97,10 @@ int dstu_do_sign(const EC_KEY* key, const unsigned char *tbs, size_t tbslen,
     if (!EC_GROUP_get_order(group, n, ctx))
         goto err;
 
+    /* There is no nonce to choose from */
+    if (BN_is_zero(n) || BN_is_one(n))
+        goto err;
+
     field_size = BN_num_bytes(n);
 
     if (!EC_GROUP_get_curve_GF2m(group, p, NULL, NULL, ctx))
@@ -115,8 +119,12 @@ int dstu_do_sign(const EC_KEY* key, const unsigned char *tbs, size_t tbslen,
         {
             do
             {
-                if (!BN_rand_range(e, n))
-                    goto err;
+                do
+                {
+                    if (!BN_rand_range(e, n))
+                        goto err;
+                }
+                while (BN_is_zero(e));
 
                 if (!EC_POINT_mul(group, eG, e, NULL, NULL, ctx))
                     goto err;
-- 
2.43.0


From 9d7e6d4c99d7ec20364eb4d83c95ce51b74d1174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:11 +0000
Subject: [PATCH 04/33] fix: refuse a private key whose public point is
 infinity

A private value of zero, or any multiple of the order, was accepted and gave
a key that cannot be encoded or used.
---
 dstulib/params.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dstulib/params.c b/dstulib/params.c
index f82780b..4ae1fa9 100644
--- a/dstulib/params.c
+++ b/dstulib/params.c
@@ -554,6 +554,10 @@ int dstu_add_public_key(EC_KEY *key)
     if (!EC_POINT_invert(group, pbk, NULL))
         goto err;
 
+    /* private value is a multiple of the order: there is no such key */
+    if (EC_POINT_is_at_infinity(group, pbk))
+        goto err;
+
     if (!EC_KEY_set_public_key(key, pbk))
         goto err;
 
-- 
2.43.0


From 3d956424ac7fc39feb0b5721a9c261fe38adce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:11 +0000
Subject: [PATCH 05/33] fix: refuse explicit curve parameters with b = 0

They do not describe a curve, and the key decoded from them could not be
encoded again.
---
 dstulib/key.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dstulib/key.c b/dstulib/key.c
index aef4155..14da79e 100644
--- a/dstulib/key.c
+++ b/dstulib/key.c
@@ -316,6 +316,9 @@ EC_GROUP *group_from_asn1(const DSTU_CustomCurveSpec* spec, int is_little_endian
     if (!group)
         goto err;
 
+    if (!EC_GROUP_check_discriminant(group, ctx))
+        goto err;
+
     g = EC_POINT_new(group);
     if (!g)
         goto err;
-- 
2.43.0


From adf437de9f2004aa210eb8c524eabf99f74c7ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:11 +0000
Subject: [PATCH 06/33] fix: refuse explicit parameters over what is not a DSTU
 4145 field

With an even degree or a reducible polynomial points do not survive
compression, and keys accepted with them could not be decoded again from
their own encoding.
---
 dstulib/key.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/dstulib/key.c b/dstulib/key.c
index 14da79e..424af28 100644
--- a/dstulib/key.c
+++ b/dstulib/key.c
@@ -218,6 +218,36 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
     return ret;
 }
 
+/* DSTU 4145 fields are GF(2^m), m an odd prime: the polynomial is then
+ * irreducible if and only if t^(2^m) = t modulo it (it has no roots, its
+ * constant term and number of terms being odd) */
+static int is_dstu_field(const BIGNUM *p, BN_CTX *ctx)
+{
+    int i, m = BN_num_bits(p) - 1, ret = 0;
+    BIGNUM *t, *r;
+
+    if (m < 3 || !(m & 1))
+        return 0;
+    for (i = 3; i <= m / i; i += 2)
+        if (!(m % i))
+            return 0;
+
+    BN_CTX_start(ctx);
+    t = BN_CTX_get(ctx);
+    r = BN_CTX_get(ctx);
+    if (!r || !BN_set_word(t, 2) || !BN_copy(r, t))
+        goto err;
+    for (i = 0; i < m; i++)
+        if (!BN_GF2m_mod_sqr(r, r, p, ctx))
+            goto err;
+    ret = !BN_cmp(r, t);
+
+    err:
+
+    BN_CTX_end(ctx);
+    return ret;
+}
+
 EC_GROUP *group_from_asn1(const DSTU_CustomCurveSpec* spec, int is_little_endian)
 {
     BIGNUM *p, *a, *b, *N;
@@ -316,6 +346,9 @@ EC_GROUP *group_from_asn1(const DSTU_CustomCurveSpec* spec, int is_little_endian
     if (!group)
         goto err;
 
+    if (!is_dstu_field(p, ctx))
+        goto err;
+
     if (!EC_GROUP_check_discriminant(group, ctx))
         goto err;
 
-- 
2.43.0


From 4e9aab5c5dc7bd0c95e629a51c2d6b9368397883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:32 +0000
Subject: [PATCH 07/33] fix: comparing with a key that has no public point
 crashed

Keys decoded from bare parameters have none.
---
 engine/ameth.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index d4b74cd..33c536e 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -636,6 +636,9 @@ static int dstu_asn1_pub_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
     if (!first || !second)
         return -2;
 
+    if (!EC_KEY_get0_public_key(first->ec) || !EC_KEY_get0_public_key(second->ec))
+        return -2;
+
     /* We do not compare sboxes here because it will be done in params_cmp by EVP API */
 
     if (EC_POINT_cmp(EC_KEY_get0_group(first->ec),
-- 
2.43.0


From 126d0251d7b072e4c1794b4810ee7867916a27c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:58 +0000
Subject: [PATCH 08/33] fix: a key with the default sbox set explicitly differs
 from its own decoding

The encoding leaves the default sbox out; comparison has to take an absent
sbox for the default one.
---
 engine/ameth.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index 33c536e..e388ecb 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -139,16 +139,10 @@ static int dstu_asn1_param_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
     if (!first || !second)
         return -2;
 
-    if (first->sbox != second->sbox)
-    {
-        if (first->sbox && second->sbox)
-        {
-            if (memcmp(first->sbox, second->sbox, sizeof(default_sbox)))
-                return 0;
-        }
-        else
-            return 0;
-    }
+    /* no sbox means the default one */
+    if (memcmp(first->sbox ? first->sbox : default_sbox,
+               second->sbox ? second->sbox : default_sbox, sizeof(default_sbox)))
+        return 0;
 
     if (EC_GROUP_cmp(EC_KEY_get0_group(first->ec),
                      EC_KEY_get0_group(second->ec), NULL))
-- 
2.43.0


From 8660a437b9d92095c5d5369bd07f67df9856744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:58 +0000
Subject: [PATCH 09/33] fix: refuse an sbox string with something after the 128
 hex digits

---
 engine/pmeth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/pmeth.c b/engine/pmeth.c
index 0c0592f..c1bb057 100644
--- a/engine/pmeth.c
+++ b/engine/pmeth.c
@@ -204,7 +204,8 @@ static int dstu_pkey_ctrl_str(EVP_PKEY_CTX *ctx, const char *type,
         if (!tmp)
             return 0;
 
-        if ((sizeof(default_sbox) * 2) != BN_hex2bn(&tmp, value))
+        if (((sizeof(default_sbox) * 2) != strlen(value))
+                || ((sizeof(default_sbox) * 2) != BN_hex2bn(&tmp, value)))
         {
             BN_free(tmp);
             return 0;
-- 
2.43.0


From b008694ba43a9ed2a57712c3671d6189eb8d6fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:58 +0000
Subject: [PATCH 10/33] fix: a named curve supplied as a group is not
 recognised as that curve

The caller's group may carry the real cofactor (OpenSSL works it out when it
is not given), and then neither is the curve encoded by its name nor does
the generated key compare equal to its own decoding.
---
 engine/pmeth.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/engine/pmeth.c b/engine/pmeth.c
index c1bb057..36e70a0 100644
--- a/engine/pmeth.c
+++ b/engine/pmeth.c
@@ -154,6 +154,16 @@ static int dstu_pkey_ctrl(EVP_PKEY_CTX *ctx, int type, int p1, void *p2)
             if (!group)
                 return 0;
 
+            /* groups made from named or encoded parameters have this cofactor;
+             * with another one they do not compare equal */
+            if (!EC_GROUP_get0_generator((EC_GROUP*) p2)
+                    || !EC_GROUP_set_generator(group, EC_GROUP_get0_generator((EC_GROUP*) p2),
+                                               EC_GROUP_get0_order((EC_GROUP*) p2), BN_value_one()))
+            {
+                EC_GROUP_free(group);
+                return 0;
+            }
+
             DSTU_KEY_CTX_set(dstu_ctx, group, NULL);
             return 1;
         case EVP_PKEY_CTRL_MD:
-- 
2.43.0


From a106788388560b29f1637f46e71c3382925770df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:54 +0000
Subject: [PATCH 11/33] fix: the random generator used a freed lock after its
 cleanup

---
 engine/rbg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/rbg.c b/engine/rbg.c
index f7912a0..56517a0 100644
--- a/engine/rbg.c
+++ b/engine/rbg.c
@@ -158,8 +158,8 @@ static void dstu_rbg_cleanup(void)
     OPENSSL_cleanse(&cryptor, sizeof(gost_ctx));
     initialized = 0;
 
+    /* The lock stays: it is created once and the generator may be used again after the cleanup */
     dstu_unlock();
-    CRYPTO_THREAD_lock_free(dstu_rand_lock);
 }
 
 RAND_METHOD dstu_rand_meth =
-- 
2.43.0


From 178cabf83df0b148c4ae41f4e218c5a0657d6aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:53 +0000
Subject: [PATCH 12/33] fix: a forked process repeated the random stream of its
 parent

---
 engine/rbg.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/engine/rbg.c b/engine/rbg.c
index 56517a0..6235156 100644
--- a/engine/rbg.c
+++ b/engine/rbg.c
@@ -12,11 +12,13 @@
 
 #include <time.h>
 #include <string.h>
+#include <unistd.h> // getpid
 
 static u4 I[2];
 static u4 s[2];
 static gost_ctx cryptor;
 static int initialized = 0;
+static pid_t owner; /* The process, which has seeded the generator */
 static CRYPTO_RWLOCK *dstu_rand_lock = NULL;
 static CRYPTO_ONCE rand_lock_init = CRYPTO_ONCE_STATIC_INIT;
 
@@ -71,6 +73,7 @@ static int dstu_rbg_init(void)
     memcpy(s, seed + 32, 8);
     gostcrypt(&cryptor, curr, (byte*) I);
     initialized = 1;
+    owner = getpid();
 
     OPENSSL_cleanse(seed, sizeof(seed));
     return 1;
@@ -92,10 +95,19 @@ static byte dstu_rbg_get_bit(void)
     return (byte) (x[0] & 1);
 }
 
+/* A forked child must not repeat the stream of its parent */
+static void dstu_rbg_check_fork(void)
+{
+    if (initialized && owner != getpid())
+        initialized = 0;
+}
+
 static int dstu_rbg_status_nolock(void)
 {
     int status = RAND_OpenSSL()->status();
 
+    dstu_rbg_check_fork();
+
     if (status && !initialized)
     {
         if (dstu_rbg_init())
@@ -129,6 +141,7 @@ static int dstu_rbg_bytes(unsigned char *buf, int num)
 
     dstu_lock();
 
+    dstu_rbg_check_fork();
     if (!initialized)
     {
         if (!dstu_rbg_status_nolock())
-- 
2.43.0


From d8b2d19ed5fae96316c11d0574e742c0df772749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:26 +0000
Subject: [PATCH 13/33] fix: the digest and the cipher were freed while OpenSSL
 kept using them

---
 engine/dstu.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/engine/dstu.c b/engine/dstu.c
index 767705f..59d0b72 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -94,14 +94,25 @@ static int dstu_engine_init(ENGINE *e)
 static int dstu_engine_finish(ENGINE *e)
 {
     (void) e; // Unused
-    dstu_cipher_free(dstu_cipher);
-    dstu_digest_free(dstu_md);
 
     ERR_unload_DSTU_strings();
 
     return 1;
 }
 
+static int dstu_engine_destroy(ENGINE *e)
+{
+    (void) e; // Unused
+    /* Not in the finish function: the engine can be initialized again and
+     * OpenSSL keeps using the algorithms it has been given in the bind function. */
+    dstu_cipher_free(dstu_cipher);
+    dstu_cipher = NULL;
+    dstu_digest_free(dstu_md);
+    dstu_md = NULL;
+
+    return 1;
+}
+
 static int dstu_digests(ENGINE *e, const EVP_MD **digest, const int **nids,
                         int nid)
 {
@@ -191,6 +202,7 @@ static int dstu_bind(ENGINE *e, const char *id)
         !ENGINE_set_name(e, engine_dstu_name) ||
         !ENGINE_set_init_function(e, dstu_engine_init) ||
         !ENGINE_set_finish_function(e, dstu_engine_finish) ||
+        !ENGINE_set_destroy_function(e, dstu_engine_destroy) ||
         !ENGINE_set_digests(e, dstu_digests) ||
         !ENGINE_set_ciphers(e, dstu_ciphers) ||
         !ENGINE_set_RAND(e, &dstu_rand_meth) ||
-- 
2.43.0


From 11903bd9a60e4e116dd32326db749af825e471c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 14/33] fix: JKS reader ignored the size of its data

Lengths and counts in the store were followed wherever they pointed, past the
end of the data.
---
 keylib/jks.c | 78 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 21 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 3d1dd86..564d392 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -47,6 +47,11 @@ static uint32_t read32(const void* base, size_t shift)
     return res;
 }
 
+static int isInside(const void* base, const void* end, size_t size)
+{
+    return (size_t)((const unsigned char*)end - (const unsigned char*)base) >= size;
+}
+
 static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize)
 {
     size_t resSize = size * 2;
@@ -141,13 +146,23 @@ static int whiteHash(const void* d1, size_t ds1, const void* d2, size_t ds2, voi
     return ok;
 }
 
-static const void* parseCert(const void* data, KeyStore* ks, size_t* certPos)
+static const void* parseCert(const void* data, const void* end, KeyStore* ks, size_t* certPos)
 {
-    uint16_t typeLength = ntohs(read16(data, 0));
-    uint32_t dataLength = ntohl(read32(data, sizeof(typeLength) + typeLength));
-    const unsigned char* dataPtr = ptrAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength));
+    uint16_t typeLength = 0;
+    uint32_t dataLength = 0;
+    const unsigned char* dataPtr = NULL;
     X509* x509 = NULL;
 
+    if (!isInside(data, end, sizeof(typeLength)))
+        return NULL;
+    typeLength = ntohs(read16(data, 0));
+    if (!isInside(data, end, sizeof(typeLength) + typeLength + sizeof(dataLength)))
+        return NULL;
+    dataLength = ntohl(read32(data, sizeof(typeLength) + typeLength));
+    if (!isInside(data, end, sizeof(typeLength) + typeLength + sizeof(dataLength) + dataLength))
+        return NULL;
+    dataPtr = ptrAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength));
+
     x509 = d2i_X509(NULL, &dataPtr, dataLength);
     if (x509 == NULL)
         return NULL;
@@ -301,36 +316,52 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
     return 1;
 }
 
-static const void* parseKey(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
+static const void* parseKey(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
-    uint16_t nameLength = ntohs(read16(data, 0));
-    uint32_t dataLength = ntohl(read32(data, sizeof(nameLength) + nameLength + 8)); // 8 bytes - 64-bit timestamp
-    uint32_t certNum = ntohl(read32(data, sizeof(nameLength) + nameLength + 8 + 4 + dataLength));
-    const unsigned char* dataPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength));
-    const unsigned char* certPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength) + dataLength + sizeof(certNum));
+    uint16_t nameLength = 0;
+    uint32_t dataLength = 0;
+    uint32_t certNum = 0;
+    const unsigned char* dataPtr = NULL;
+    const unsigned char* certPtr = NULL;
     size_t i = 0;
 
+    if (!isInside(data, end, sizeof(nameLength)))
+        return NULL;
+    nameLength = ntohs(read16(data, 0));
+    if (!isInside(data, end, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength)))
+        return NULL;
+    dataLength = ntohl(read32(data, sizeof(nameLength) + nameLength + 8)); // 8 bytes - 64-bit timestamp
+    if (!isInside(data, end, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength) + dataLength + sizeof(certNum)))
+        return NULL;
+    certNum = ntohl(read32(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength) + dataLength));
+    dataPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength));
+    certPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength) + dataLength + sizeof(certNum));
+
     if (decryptKey(dataPtr, dataLength, keyPass, keyPassSize, ks, keyPos, certPos) == 0)
         return NULL;
 
     for (i = 0; i < certNum; ++i)
     {
-        certPtr = parseCert(certPtr, ks, certPos);
+        certPtr = parseCert(certPtr, end, ks, certPos);
         if (certPtr == NULL)
             return NULL;
     }
     return certPtr;
 }
 
-static const void* parseEntry(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
+static const void* parseEntry(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
-    uint32_t tag = ntohl(read32(data, 0));
+    uint32_t tag = 0;
+
+    if (!isInside(data, end, sizeof(tag)))
+        return NULL;
+    tag = ntohl(read32(data, 0));
     switch (tag)
     {
         case JKS_ENTRY_PRIVATE_KEY:
-            return parseKey(ptrAt(data, sizeof(tag)), keyPass, keyPassSize, ks, keyPos, certPos);
+            return parseKey(ptrAt(data, sizeof(tag)), end, keyPass, keyPassSize, ks, keyPos, certPos);
         case JKS_ENTRY_CERT:
-            return parseCert(ptrAt(data, sizeof(tag)), ks, certPos);
+            return parseCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
     }
     return NULL;
 }
@@ -338,9 +369,10 @@ static const void* parseEntry(const void* data, const char* keyPass, size_t keyP
 int parseJKS(const void* data, size_t size, const char* storagePass, size_t storagePassSize, const char* keyPass, size_t keyPassSize, KeyStore** ks)
 {
     const size_t digestLength = 20;
-    uint32_t magic = read32(data, 0);
-    uint32_t entries = ntohl(read32(data, sizeof(magic) + 4)); // 4 bytes - 32-bit version
-    const unsigned char* entryPtr = ptrAt(data, sizeof(magic) + 4 + sizeof(entries));
+    uint32_t magic = 0;
+    uint32_t entries = 0;
+    const void* end = ptrAt(data, size);
+    const unsigned char* entryPtr = NULL;
     unsigned char digest[digestLength];
     size_t i = 0;
     size_t j = 0;
@@ -349,7 +381,11 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     size_t keyPos = 0;
     size_t certPos = 0;
 
-    (void) size; // Unused
+    if (size < sizeof(magic) + 4 + sizeof(entries))
+        return 0;
+    magic = read32(data, 0);
+    entries = ntohl(read32(data, sizeof(magic) + 4)); // 4 bytes - 32-bit version
+    entryPtr = ptrAt(data, sizeof(magic) + 4 + sizeof(entries));
 
     // Check MAGIC
     if (magic != 0xedfeedfe && // JKS
@@ -366,12 +402,12 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
 
     for (i = 0; i < entries; ++i)
     {
-        entryPtr = parseEntry(entryPtr, keyPass, keyPassSize, *ks, &keyPos, &certPos);
+        entryPtr = parseEntry(entryPtr, end, keyPass, keyPassSize, *ks, &keyPos, &certPos);
         if (entryPtr == NULL)
             break;
     }
 
-    if (entryPtr == NULL)
+    if (entryPtr == NULL || !isInside(entryPtr, end, digestLength))
     {
         KeyStoreFree(*ks);
         return 0;
-- 
2.43.0


From e25b7549a80f4ccaca6a3723f44f8056855e24bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 15/33] fix: JKS key entry shorter than its salt and digest was
 read out of bounds

---
 keylib/jks.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keylib/jks.c b/keylib/jks.c
index 564d392..c3bbb18 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -195,6 +195,9 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
     size_t pos = 0;
     int r = 0;
 
+    if (size < saltLength + digestLength)
+        return 0;
+
     copyAt(data, 0, digest, saltLength);
 
     decrypted = OPENSSL_malloc(encryptedLength);
-- 
2.43.0


From 3474f1c1f5c2f128d6a03844d78a1a85c733a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 16/33] fix: JKS entry whose decrypted content is not a key
 crashed the reader

fromKeyProtector frees the store it did not get; KeyStoreFree now accepts NULL
like the other free functions.
---
 keylib/keystore.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keylib/keystore.c b/keylib/keystore.c
index 2bfbc69..108ac2b 100644
--- a/keylib/keystore.c
+++ b/keylib/keystore.c
@@ -72,6 +72,8 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
 void KeyStoreFree(KeyStore* ks)
 {
     size_t i = 0;
+    if (ks == NULL)
+        return;
     if (ks->keys != NULL)
     {
         for (i = 0; i < ks->keyNum; ++i)
-- 
2.43.0


From 60ca4415f09eebc1e9e2782ee459d9d2a10d022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 17/33] fix: failed JKS read left a freed store in the caller's
 handle

It also leaked the converted storage password.
---
 keylib/jks.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index c3bbb18..f1505f9 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -383,6 +383,7 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     size_t pwd16Length = 0;
     size_t keyPos = 0;
     size_t certPos = 0;
+    KeyStore* res = NULL;
 
     if (size < sizeof(magic) + 4 + sizeof(entries))
         return 0;
@@ -401,24 +402,25 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     if (toUTF16BE(storagePass, storagePassSize, &pwd16, &pwd16Length) == 0)
         return 0;
 
-    *ks = KeyStoreNew(0, 0); // Start from zero
+    res = KeyStoreNew(0, 0); // Start from zero
 
     for (i = 0; i < entries; ++i)
     {
-        entryPtr = parseEntry(entryPtr, end, keyPass, keyPassSize, *ks, &keyPos, &certPos);
+        entryPtr = parseEntry(entryPtr, end, keyPass, keyPassSize, res, &keyPos, &certPos);
         if (entryPtr == NULL)
             break;
     }
 
     if (entryPtr == NULL || !isInside(entryPtr, end, digestLength))
     {
-        KeyStoreFree(*ks);
+        KeyStoreFree(res);
+        OPENSSL_free(pwd16);
         return 0;
     }
 
     if (whiteHash(pwd16, pwd16Length, data, entryPtr - (const unsigned char*)data, digest) == 0)
     {
-        KeyStoreFree(*ks);
+        KeyStoreFree(res);
         OPENSSL_free(pwd16);
         return 0;
     }
@@ -427,10 +429,11 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     for (j = 0; j < digestLength; ++j)
         if (digest[j] != entryPtr[j])
         {
-            KeyStoreFree(*ks);
+            KeyStoreFree(res);
             return 0;
         }
 
+    *ks = res;
     return 1;
 }
 
-- 
2.43.0


From afc2e1ddccb54c6a07ca0f7bdffa8f2b80959202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 18/33] fix: failed PKCS#12 read left a freed store in the
 caller's handle

---
 keylib/pkcs12.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/keylib/pkcs12.c b/keylib/pkcs12.c
index 48c5e2b..a450b1b 100644
--- a/keylib/pkcs12.c
+++ b/keylib/pkcs12.c
@@ -172,6 +172,7 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
     size_t numCerts = 0;
     size_t keyPos = 0;
     size_t certPos = 0;
+    KeyStore* res = NULL;
 
     if (pkcs12 == NULL)
         return 0;
@@ -198,11 +199,11 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
         return 0;
     }
 
-    *ks = KeyStoreNew(numKeys, numCerts);
+    res = KeyStoreNew(numKeys, numCerts);
 
-    if (fromSafes(safes, password, passSize, *ks, &keyPos, &certPos) == 0)
+    if (fromSafes(safes, password, passSize, res, &keyPos, &certPos) == 0)
     {
-        KeyStoreFree(*ks);
+        KeyStoreFree(res);
         sk_PKCS7_pop_free(safes, PKCS7_free);
         PKCS12_free(pkcs12);
         return 0;
@@ -211,6 +212,7 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
     sk_PKCS7_pop_free(safes, PKCS7_free);
     PKCS12_free(pkcs12);
 
+    *ks = res;
     return 1;
 }
 
-- 
2.43.0


From 4fd0d9e18373d21961b900b0746081243408728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 19/33] fix: JKS key under an unknown protection was silently
 left out

Reading succeeded without the key; it fails now, as for a key that cannot be
opened.
---
 keylib/jks.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/keylib/jks.c b/keylib/jks.c
index f1505f9..f961a76 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -311,6 +311,15 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
         }
     }
 
+    else
+    {
+        ASN1_OBJECT_free(pbes1);
+        ASN1_OBJECT_free(keyProtector);
+        X509_SIG_free(epkInfo);
+        OPENSSL_free(pwd16);
+        return 0;
+    }
+
     ASN1_OBJECT_free(pbes1);
     ASN1_OBJECT_free(keyProtector);
     OPENSSL_free(pwd16);
-- 
2.43.0


From b7bf0155e66959ac24b0e7001c44c0452b2e2621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 20/33] fix: JKS with a trusted certificate entry could not be
 read

The alias and the timestamp of the entry were taken for its certificate.
---
 keylib/jks.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index f961a76..ced6435 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -361,6 +361,18 @@ static const void* parseKey(const void* data, const void* end, const char* keyPa
     return certPtr;
 }
 
+static const void* parseTrustedCert(const void* data, const void* end, KeyStore* ks, size_t* certPos)
+{
+    uint16_t nameLength = 0;
+
+    if (!isInside(data, end, sizeof(nameLength)))
+        return NULL;
+    nameLength = ntohs(read16(data, 0));
+    if (!isInside(data, end, sizeof(nameLength) + nameLength + 8)) // 8 bytes - 64-bit timestamp
+        return NULL;
+    return parseCert(ptrAt(data, sizeof(nameLength) + nameLength + 8), end, ks, certPos);
+}
+
 static const void* parseEntry(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
     uint32_t tag = 0;
@@ -373,7 +385,7 @@ static const void* parseEntry(const void* data, const void* end, const char* key
         case JKS_ENTRY_PRIVATE_KEY:
             return parseKey(ptrAt(data, sizeof(tag)), end, keyPass, keyPassSize, ks, keyPos, certPos);
         case JKS_ENTRY_CERT:
-            return parseCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
+            return parseTrustedCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
     }
     return NULL;
 }
-- 
2.43.0


From e01f5bb8f8e5c1538c2dba1042cb18ab9735f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 21/33] fix: missing character conversion leaked a buffer and
 freed a BIO as plain memory

---
 keylib/jks.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index ced6435..1a98ac1 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -66,7 +66,8 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
     size_t r = 0;
     if (cd == (iconv_t)-1)
     {
-        OPENSSL_free(res);
+        OPENSSL_free(buf);
+        BIO_free(res);
         return 0;
     }
     while (ss > 0)
-- 
2.43.0


From 7eb2820d029e2b206c5462a74186944b930c2cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 22/33] fix: Key-6 reader parsed uninitialised bytes after the
 decrypted data

A container cut short by a block was accepted, the end of the key being
whatever the memory held.
---
 keylib/key6.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keylib/key6.c b/keylib/key6.c
index 43d2415..6280d84 100644
--- a/keylib/key6.c
+++ b/keylib/key6.c
@@ -60,7 +60,7 @@ static int decryptKey6(const void* data, size_t size, const void* pad, size_t pa
     gost_dec(&ctx, source, res, sourceSize / 8);
     OPENSSL_clear_free(source, sourceSize);
 
-    r = keysFromPKCS8(res, resSize, ks);
+    r = keysFromPKCS8(res, sourceSize / 8 * 8, ks);
     OPENSSL_clear_free(res, resSize);
     return r;
 }
-- 
2.43.0


From 8e446b987eff5e72990836098d9534fea4e2a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 23/33] fix: attribute curve of a container key was not
 validated

Its own copy of the curve construction checked neither the degrees of the field
polynomial (a missing or negative one crashed), nor that the polynomial is
irreducible, nor the discriminant.  Use the construction of dstulib.
---
 keylib/utils.c | 82 ++------------------------------------------------
 1 file changed, 3 insertions(+), 79 deletions(-)

diff --git a/keylib/utils.c b/keylib/utils.c
index 3af2aae..4dcc666 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -69,83 +69,7 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
     return res;
 }
 
-static BIGNUM* makePoly(BN_CTX* ctx, const DSTU_BinaryField* field)
-{
-    BIGNUM* res = BN_CTX_get(ctx);
-    int poly[6];
-    poly[0] = ASN1_INTEGER_get(field->m);
-    if (field->poly->type == 0)
-    {
-        // Trinominal
-        poly[1] = ASN1_INTEGER_get(field->poly->poly.k);
-        poly[2] = 0;
-        poly[3] = -1;
-    }
-    else
-    {
-        // Pentanominal
-        poly[1] = ASN1_INTEGER_get(field->poly->poly.pentanomial->k);
-        poly[2] = ASN1_INTEGER_get(field->poly->poly.pentanomial->j);
-        poly[3] = ASN1_INTEGER_get(field->poly->poly.pentanomial->l);
-        poly[4] = 0;
-        poly[5] = -1;
-    }
-    if (BN_GF2m_arr2poly(poly, res) == 0)
-        return NULL;
-    return res;
-}
-
-static EC_POINT* makePoint(BN_CTX* ctx, const EC_GROUP* group, const ASN1_OCTET_STRING* p)
-{
-    (void) ctx;
-    EC_POINT* res = EC_POINT_new(group);
-    if (dstu_point_expand(ASN1_STRING_get0_data(p), ASN1_STRING_length(p), group, res) == 0)
-    {
-        EC_POINT_free(res);
-        return NULL;
-    }
-    return res;
-}
-
-static EC_GROUP* makeECGROUPFromSpec(BN_CTX* ctx, const DSTU_CustomCurveSpec* spec)
-{
-    BIGNUM* poly = makePoly(ctx, spec->field);
-    BIGNUM* a = BN_CTX_get(ctx);
-    BIGNUM* b = BN_bin2bn(ASN1_STRING_get0_data(spec->b), ASN1_STRING_length(spec->b), BN_CTX_get(ctx));
-    BIGNUM* n = BN_CTX_get(ctx);
-    EC_POINT* point = NULL;
-    EC_GROUP* res = NULL;
-
-    ASN1_INTEGER_to_BN(spec->a, a);
-
-    res = EC_GROUP_new_curve_GF2m(poly, a, b, ctx);
-
-    if (res == NULL)
-        return NULL;
-
-    point = makePoint(ctx, res, spec->bp);
-    if (point == NULL)
-    {
-        EC_GROUP_free(res);
-        return NULL;
-    }
-    if (EC_POINT_is_on_curve(res, point, ctx) == 0)
-    {
-        EC_POINT_free(point);
-        EC_GROUP_free(res);
-        return NULL;
-    }
-    ASN1_INTEGER_to_BN(spec->n, n);
-    if (EC_GROUP_set_generator(res, point, n, BN_value_one()) == 0)
-    {
-        EC_GROUP_free(res);
-        res = NULL;
-    }
-    EC_POINT_free(point);
-    return res;
-}
-
-static EC_GROUP* makeECGROUP(BN_CTX* ctx, X509_ATTRIBUTE* attr)
+static EC_GROUP* makeECGROUP(X509_ATTRIBUTE* attr)
 {
     DSTU_AttrCurveSpec* spec = NULL;
     int count = X509_ATTRIBUTE_count(attr);
@@ -165,7 +89,7 @@ static EC_GROUP* makeECGROUP(BN_CTX* ctx, X509_ATTRIBUTE* attr)
     if (spec == NULL)
         return NULL;
 
-    res = makeECGROUPFromSpec(ctx, spec->spec);
+    res = group_from_asn1(spec->spec, 0);
     DSTU_AttrCurveSpec_free(spec);
     return res;
 }
@@ -181,7 +105,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     BN_CTX_start(ctx);
 
     pkNum = getPrivateKeyNum(ctx, keyAttr);
-    group = makeECGROUP(ctx, curveAttr);
+    group = makeECGROUP(curveAttr);
     if (pkNum == NULL || group == NULL)
     {
         BN_CTX_end(ctx);
-- 
2.43.0


From 0e750682805ce9009ff182f172d3a9081a44049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 24/33] fix: unusable attribute key leaked its curve or key
 object

---
 keylib/utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keylib/utils.c b/keylib/utils.c
index 4dcc666..e21a947 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -108,6 +108,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     group = makeECGROUP(curveAttr);
     if (pkNum == NULL || group == NULL)
     {
+        EC_GROUP_free(group);
         BN_CTX_end(ctx);
         BN_CTX_free(ctx);
         return NULL;
@@ -128,6 +129,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
         EC_KEY_set_private_key(key->ec, pkNum) == 0 ||
         dstu_add_public_key(key->ec) == 0)
     {
+        EVP_PKEY_free(res);
         DSTU_KEY_free(key);
         EC_GROUP_free(group);
         BN_CTX_end(ctx);
-- 
2.43.0


From 2b447a10620404820141c0f953a39d39edab6d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:22 +0000
Subject: [PATCH 25/33] fix: register the DSTU signature algorithms, so that
 certificates and requests can be signed and verified

---
 engine/dstu.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine/dstu.c b/engine/dstu.c
index 59d0b72..16f8813 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -215,7 +215,9 @@ static int dstu_bind(ENGINE *e, const char *id)
         !ENGINE_register_pkey_asn1_meths(e) ||
         !EVP_add_digest(dstu_md_get()) ||
         !EVP_add_cipher(dstu_cipher_get()) ||
-        !EVP_PBE_alg_add_type(EVP_PBE_TYPE_PRF, NID_hmacWithDstu34311, -1, NID_dstu34311, NULL)) /* Adding our algorithms to support PBKDF2 */
+        !EVP_PBE_alg_add_type(EVP_PBE_TYPE_PRF, NID_hmacWithDstu34311, -1, NID_dstu34311, NULL) || /* Adding our algorithms to support PBKDF2 */
+        !OBJ_add_sigid(NID_dstu4145le, NID_dstu34311, NID_dstu4145le) || /* The same OIDs name keys and signatures in certificates */
+        !OBJ_add_sigid(NID_dstu4145be, NID_dstu34311, NID_dstu4145be))
     {
         DSTUerr(DSTU_F_BIND_DSTU, ERR_R_EVP_LIB);
         return 0;
-- 
2.43.0


From b6fd688c82ec5b211bdb67a82d5a6a651cb0c455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:05 +0000
Subject: [PATCH 26/33] fix: release the encoded parameters when a key without
 private part is encoded as PKCS#8

---
 engine/ameth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index e388ecb..970ad2c 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -325,6 +325,7 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     reverse_bytes(prk_encoded, prk_encoded_bytes);
 
     ASN1_STRING_set0(params, encoded_params, encoded_params_bytes);
+    encoded_params = NULL;
 
     if (PKCS8_pkey_set0(p8, OBJ_nid2obj(algnid), 0, V_ASN1_SEQUENCE, params,
                         prk_encoded, prk_encoded_bytes))
@@ -340,6 +341,9 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
 
     err:
 
+    if (encoded_params)
+        OPENSSL_free(encoded_params);
+
     if (prk_encoded)
         OPENSSL_free(prk_encoded);
 
-- 
2.43.0


From 2819180814d8bf0101629e6d36cb86a5e622bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:05 +0000
Subject: [PATCH 27/33] fix: give up signing after a bounded number of unusable
 nonces

---
 engine/sign.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine/sign.c b/engine/sign.c
index 564d7b4..f511ed5 100644
--- a/engine/sign.c
+++ b/engine/sign.c
@@ -12,6 +12,9 @@
 #include <openssl/ec.h>
 #include <openssl/obj_mac.h>
 
+/* Nonces tried before giving up: with a proper curve and random source one is enough */
+#define DSTU_MAX_NONCES 1000
+
 static int bn_truncate_bits(BIGNUM *bn, int bitsize)
 {
     int num_bits = BN_num_bits(bn);
@@ -65,7 +68,7 @@ int dstu_do_sign(const EC_KEY* key, const unsigned char *tbs, size_t tbslen,
     BIGNUM *e, *Fe, *h, *r, *s, *n, *p;
     BN_CTX *ctx = NULL;
     EC_POINT *eG = NULL;
-    int field_size, ret = 0;
+    int field_size, tries = 0, ret = 0;
 
     if (!d || !group)
         return 0;
@@ -121,6 +124,9 @@ int dstu_do_sign(const EC_KEY* key, const unsigned char *tbs, size_t tbslen,
             {
                 do
                 {
+                    if (++tries > DSTU_MAX_NONCES)
+                        goto err;
+
                     if (!BN_rand_range(e, n))
                         goto err;
                 }
-- 
2.43.0


From 251b7e3354433e6c272eb3ccf14718807b8b5cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:47 +0000
Subject: [PATCH 28/33] fix: keep the error strings until the engine is
 destroyed; the first finish removed them for good

---
 engine/dstu.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/engine/dstu.c b/engine/dstu.c
index 16f8813..34c6b5d 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -95,8 +95,6 @@ static int dstu_engine_finish(ENGINE *e)
 {
     (void) e; // Unused
 
-    ERR_unload_DSTU_strings();
-
     return 1;
 }
 
@@ -104,7 +102,10 @@ static int dstu_engine_destroy(ENGINE *e)
 {
     (void) e; // Unused
     /* Not in the finish function: the engine can be initialized again and
-     * OpenSSL keeps using the algorithms it has been given in the bind function. */
+     * OpenSSL keeps using the algorithms it has been given in the bind function.
+     * The error strings are loaded there as well, and the engine makes errors as
+     * long as it is there. */
+    ERR_unload_DSTU_strings();
     dstu_cipher_free(dstu_cipher);
     dstu_cipher = NULL;
     dstu_digest_free(dstu_md);
-- 
2.43.0


From b7b6ac3fe8add2ed87f9762c604d0372f7bd69e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:51 +0000
Subject: [PATCH 29/33] fix: expanding a point with memory short could yield
 its negative

The trace of y, -1 when it could not be computed, was taken for 1.
---
 dstulib/compress.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dstulib/compress.c b/dstulib/compress.c
index 440648e..a28f58e 100644
--- a/dstulib/compress.c
+++ b/dstulib/compress.c
@@ -195,6 +195,8 @@ int dstu_point_expand(const unsigned char *compressed, int compressed_length,
         goto err;
 
     trace = bn_trace(y, p, ctx);
+    if (-1 == trace)
+        goto err;
 
     if ((k && !trace) || (!k && trace))
     {
-- 
2.43.0


From 6fade1d5ed12657a7f126d1809a37ea1870daa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:51 +0000
Subject: [PATCH 30/33] fix: a private key was encoded without parameters when
 memory was short

The length -1 of an encoding that failed was taken for success.
---
 engine/ameth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index 970ad2c..10a6021 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -291,7 +291,7 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     }
 
     encoded_params_bytes = dstu_asn1_param_encode(pk, &encoded_params);
-    if (!encoded_params_bytes)
+    if (encoded_params_bytes <= 0)
         goto err;
 
     key = EVP_PKEY_get0(pk);
-- 
2.43.0


From 4d086e577044e448161713646f88e5a6636fa2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:51 +0000
Subject: [PATCH 31/33] fix: encoding parameters with memory short crashed

---
 dstulib/key.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dstulib/key.c b/dstulib/key.c
index 424af28..d465370 100644
--- a/dstulib/key.c
+++ b/dstulib/key.c
@@ -78,6 +78,8 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
         return NULL;
 
     params = DSTU_AlgorithmParameters_new();
+    if (!params)
+        return NULL;
 
     if (key->sbox)
     {
@@ -107,6 +109,9 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
             goto err;
 
         ctx = BN_CTX_new();
+        if (!ctx)
+            goto err;
+
         BN_CTX_start(ctx);
 
         p = BN_CTX_get(ctx);
-- 
2.43.0


From 749e4ea834177fad2eb94a10e9b313e5757f22d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:51 +0000
Subject: [PATCH 32/33] fix: key stores crashed when their allocations failed

---
 keylib/jks.c               | 20 ++++++++++++++++++--
 keylib/keystore.c          | 28 ++++++++++++++++++++++++----
 keylib/keystore_internal.h |  2 +-
 keylib/pkcs12.c            |  3 ++-
 keylib/utils.c             | 11 +++++++++++
 5 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 1a98ac1..f0e5ded 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -169,9 +169,18 @@ static const void* parseCert(const void* data, const void* end, KeyStore* ks, si
         return NULL;
 
     KeyStore* tks = KeyStoreNew(0, 1);
+    if (tks == NULL)
+    {
+        X509_free(x509);
+        return NULL;
+    }
 
     KeyStoreSetCert(tks, 0, x509);
-    KeyStoreAppend(ks, tks);
+    if (!KeyStoreAppend(ks, tks))
+    {
+        KeyStoreFree(tks);
+        return NULL;
+    }
 
     KeyStoreFree(tks);
 
@@ -235,9 +244,11 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
 
     r = keysFromPKCS8(decrypted, encryptedLength, &tks);
 
+    if (r != 0)
+        r = KeyStoreAppend(ks, tks);
+
     if (r != 0)
     {
-        KeyStoreAppend(ks, tks);
         if (keyPos != NULL)
             *keyPos += KeyStoreKeyNum(tks);
         if (certPos != NULL)
@@ -425,6 +436,11 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
         return 0;
 
     res = KeyStoreNew(0, 0); // Start from zero
+    if (res == NULL)
+    {
+        OPENSSL_free(pwd16);
+        return 0;
+    }
 
     for (i = 0; i < entries; ++i)
     {
diff --git a/keylib/keystore.c b/keylib/keystore.c
index 108ac2b..2ef0396 100644
--- a/keylib/keystore.c
+++ b/keylib/keystore.c
@@ -16,11 +16,18 @@ struct KeyStore_st
 KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
 {
     size_t i = 0;
-    KeyStore* res = OPENSSL_malloc(sizeof(KeyStore));
+    KeyStore* res = OPENSSL_zalloc(sizeof(KeyStore));
+    if (res == NULL)
+        return NULL;
     if (keyNum > 0)
     {
         res->keyNum = keyNum;
         res->keys = OPENSSL_malloc(keyNum * sizeof(EVP_PKEY*));
+        if (res->keys == NULL)
+        {
+            KeyStoreFree(res);
+            return NULL;
+        }
         for (i = 0; i < keyNum; ++i)
             res->keys[i] = NULL;
     }
@@ -33,6 +40,11 @@ KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
     {
         res->certNum = certNum;
         res->certs = OPENSSL_malloc(certNum * sizeof(X509*));
+        if (res->certs == NULL)
+        {
+            KeyStoreFree(res);
+            return NULL;
+        }
         for (i = 0; i < certNum; ++i)
             res->certs[i] = NULL;
     }
@@ -44,12 +56,16 @@ KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
     return res;
 }
 
-void KeyStoreAppend(KeyStore* to, KeyStore* from)
+int KeyStoreAppend(KeyStore* to, KeyStore* from)
 {
     size_t i = 0;
+    void* grown = NULL;
     if (from->keyNum > 0)
     {
-        to->keys = OPENSSL_clear_realloc(to->keys, to->keyNum * sizeof(EVP_PKEY*), (to->keyNum + from->keyNum) * sizeof(EVP_PKEY*));
+        grown = OPENSSL_clear_realloc(to->keys, to->keyNum * sizeof(EVP_PKEY*), (to->keyNum + from->keyNum) * sizeof(EVP_PKEY*));
+        if (grown == NULL)
+            return 0;
+        to->keys = grown;
         for (i = 0; i < from->keyNum; ++i)
         {
             to->keys[to->keyNum + i] = from->keys[i];
@@ -59,7 +75,10 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
     }
     if (from->certNum > 0)
     {
-        to->certs = OPENSSL_clear_realloc(to->certs, to->certNum * sizeof(X509*), (to->certNum + from->certNum) * sizeof(X509*));
+        grown = OPENSSL_clear_realloc(to->certs, to->certNum * sizeof(X509*), (to->certNum + from->certNum) * sizeof(X509*));
+        if (grown == NULL)
+            return 0;
+        to->certs = grown;
         for (i = 0; i < from->certNum; ++i)
         {
             to->certs[to->certNum + i] = from->certs[i];
@@ -67,6 +86,7 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
         }
         to->certNum += from->certNum;
     }
+    return 1;
 }
 
 void KeyStoreFree(KeyStore* ks)
diff --git a/keylib/keystore_internal.h b/keylib/keystore_internal.h
index 7c20726..146edfa 100644
--- a/keylib/keystore_internal.h
+++ b/keylib/keystore_internal.h
@@ -8,7 +8,7 @@ extern "C" {
 
 KeyStore* KeyStoreNew(size_t keyNum, size_t certNum);
 
-void KeyStoreAppend(KeyStore* to, KeyStore* from);
+int KeyStoreAppend(KeyStore* to, KeyStore* from);
 
 void KeyStoreSetKey(KeyStore* ks, size_t pos, EVP_PKEY* key);
 void KeyStoreSetCert(KeyStore* ks, size_t pos, X509* cert);
diff --git a/keylib/pkcs12.c b/keylib/pkcs12.c
index a450b1b..4de03ea 100644
--- a/keylib/pkcs12.c
+++ b/keylib/pkcs12.c
@@ -201,7 +201,8 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
 
     res = KeyStoreNew(numKeys, numCerts);
 
-    if (fromSafes(safes, password, passSize, res, &keyPos, &certPos) == 0)
+    if (res == NULL ||
+        fromSafes(safes, password, passSize, res, &keyPos, &certPos) == 0)
     {
         KeyStoreFree(res);
         sk_PKCS7_pop_free(safes, PKCS7_free);
diff --git a/keylib/utils.c b/keylib/utils.c
index e21a947..bb8851a 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -210,11 +210,22 @@ int keysFromPKCS8(const void* data, size_t size, KeyStore** ks)
     if (pkey2 == NULL)
     {
         *ks = KeyStoreNew(1, 0);
+        if (*ks == NULL)
+        {
+            EVP_PKEY_free(pkey1);
+            return 0;
+        }
         KeyStoreSetKey(*ks, 0, pkey1);
         return 1;
     }
 
     *ks = KeyStoreNew(2, 0);
+    if (*ks == NULL)
+    {
+        EVP_PKEY_free(pkey1);
+        EVP_PKEY_free(pkey2);
+        return 0;
+    }
     KeyStoreSetKey(*ks, 0, pkey1);
     KeyStoreSetKey(*ks, 1, pkey2);
 
-- 
2.43.0


From 54e9b3a3e0c89878146c17c98d84f5912087c8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:51 +0000
Subject: [PATCH 33/33] fix: reading containers with memory short crashed or
 left a private value allocated

---
 keylib/jks.c   | 47 ++++++++++++++++++++++++++++++++++++++++++-----
 keylib/key6.c  |  9 ++++++++-
 keylib/utils.c | 12 ++++++++++--
 3 files changed, 60 insertions(+), 8 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index f0e5ded..546b7dc 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -60,12 +60,15 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
     size_t ss = size;
     BIO *res = BIO_new(BIO_s_mem());
     char* buf = OPENSSL_malloc(resSize);
+    char* grown = NULL;
     char* d = buf;
     const char* s = source;
     iconv_t cd = iconv_open("utf-16be", "utf-8");
     size_t r = 0;
-    if (cd == (iconv_t)-1)
+    if (cd == (iconv_t)-1 || res == NULL || (buf == NULL && resSize > 0))
     {
+        if (cd != (iconv_t)-1)
+            iconv_close(cd);
         OPENSSL_free(buf);
         BIO_free(res);
         return 0;
@@ -87,7 +90,15 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
             return 0;
         }
         bufSize *= 2;
-        buf = OPENSSL_realloc(buf, bufSize);
+        grown = OPENSSL_realloc(buf, bufSize);
+        if (grown == NULL)
+        {
+            iconv_close(cd);
+            OPENSSL_free(buf);
+            BIO_free(res);
+            return 0;
+        }
+        buf = grown;
     }
     for (;;)
     {
@@ -106,7 +117,15 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
             return 0;
         }
         bufSize *= 2;
-        buf = OPENSSL_realloc(buf, bufSize);
+        grown = OPENSSL_realloc(buf, bufSize);
+        if (grown == NULL)
+        {
+            iconv_close(cd);
+            OPENSSL_free(buf);
+            BIO_free(res);
+            return 0;
+        }
+        buf = grown;
     }
     OPENSSL_free(buf);
     iconv_close(cd);
@@ -117,6 +136,11 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
         return 0;
     }
     *dest = OPENSSL_malloc(*dsize);
+    if (*dest == NULL)
+    {
+        BIO_free(res);
+        return 0;
+    }
     memcpy(*dest, d, *dsize);
     BIO_free(res);
     return 1;
@@ -126,7 +150,8 @@ static int twoHash(const void* d1, size_t ds1, const void* d2, size_t ds2, void*
 {
     unsigned int ds = 0;
     EVP_MD_CTX* ctx = EVP_MD_CTX_new();
-    int ok = EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
+    int ok = ctx != NULL &&
+             EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
              EVP_DigestUpdate(ctx, d1, ds1) != 0 &&
              EVP_DigestUpdate(ctx, d2, ds2) != 0 &&
              EVP_DigestFinal_ex(ctx, digest, &ds) != 0;
@@ -138,7 +163,8 @@ static int whiteHash(const void* d1, size_t ds1, const void* d2, size_t ds2, voi
 {
     unsigned int ds = 0;
     EVP_MD_CTX* ctx = EVP_MD_CTX_new();
-    int ok = EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
+    int ok = ctx != NULL &&
+             EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
              EVP_DigestUpdate(ctx, d1, ds1) != 0 &&
              EVP_DigestUpdate(ctx, "Mighty Aphrodite", 16) != 0 &&
              EVP_DigestUpdate(ctx, d2, ds2) != 0 &&
@@ -211,6 +237,8 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
     copyAt(data, 0, digest, saltLength);
 
     decrypted = OPENSSL_malloc(encryptedLength);
+    if (decrypted == NULL && encryptedLength > 0)
+        return 0;
     for (i = 0; i < rounds; ++i)
     {
         if (!twoHash(pwd16, pwd16Length, digest, digestLength, digest))
@@ -300,6 +328,15 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
     keyProtector = OBJ_txt2obj(keyProtectorOID, 1);
     pbes1 = OBJ_txt2obj(pbes1OID, 1);
 
+    if (keyProtector == NULL || pbes1 == NULL)
+    {
+        ASN1_OBJECT_free(pbes1);
+        ASN1_OBJECT_free(keyProtector);
+        X509_SIG_free(epkInfo);
+        OPENSSL_free(pwd16);
+        return 0;
+    }
+
     if (OBJ_cmp(aobj, keyProtector) == 0)
     {
         if (fromKeyProtector(ASN1_STRING_get0_data(keyData), ASN1_STRING_length(keyData), pwd16, pwd16Length, ks, keyPos, certPos) == 0)
diff --git a/keylib/key6.c b/keylib/key6.c
index 6280d84..e19173d 100644
--- a/keylib/key6.c
+++ b/keylib/key6.c
@@ -50,6 +50,13 @@ static int decryptKey6(const void* data, size_t size, const void* pad, size_t pa
     unsigned char* res = OPENSSL_malloc(resSize);
     int r = 0;
 
+    if (source == NULL || res == NULL)
+    {
+        OPENSSL_free(source);
+        OPENSSL_free(res);
+        return 0;
+    }
+
     unpack_sbox(default_sbox, &sbox);
     gost_init(&ctx, &sbox);
     pkdf(password, passSize, key);
@@ -82,7 +89,7 @@ int parseKey6(const void* data, size_t size, const char* password, size_t passSi
     }
     // Type check
     correctType = OBJ_txt2obj(iitStoreOID, 1);
-    if (OBJ_cmp(store->header->type, correctType) != 0)
+    if (correctType == NULL || OBJ_cmp(store->header->type, correctType) != 0)
     {
         ASN1_OBJECT_free(correctType);
         IITStore_free(store);
diff --git a/keylib/utils.c b/keylib/utils.c
index bb8851a..65ecc92 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -50,7 +50,12 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
         return NULL;
     length = ASN1_STRING_length(str);
     data = ASN1_STRING_get0_data(str);
+    res = BN_CTX_get(ctx);
+    if (res == NULL)
+        return NULL;
     buf = OPENSSL_malloc(length);
+    if (buf == NULL)
+        return NULL;
     for (i = 0; i < length; ++i)
     {
         // Swap bits
@@ -62,7 +67,7 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
         buf[length - i - 1] = b;
     }
 
-    res = BN_bin2bn(buf,length, BN_CTX_get(ctx));
+    res = BN_bin2bn(buf, length, res);
 
     OPENSSL_clear_free(buf, length);
 
@@ -102,6 +107,9 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     DSTU_KEY* key = NULL;
     EVP_PKEY* res = NULL;
 
+    if (ctx == NULL)
+        return NULL;
+
     BN_CTX_start(ctx);
 
     pkNum = getPrivateKeyNum(ctx, keyAttr);
@@ -164,7 +172,7 @@ static EVP_PKEY* pkeyFromAttributes(const PKCS8_PRIV_KEY_INFO* pkcs8)
     int nattr = sk_X509_ATTRIBUTE_num(attributes);
     int i = 0;
 
-    for (i = 0; i < nattr; ++i)
+    for (i = 0; dstu4145Curve != NULL && dstu4145Key != NULL && i < nattr; ++i)
     {
         attr = sk_X509_ATTRIBUTE_value(attributes, i);
         if (attr == NULL)
-- 
2.43.0


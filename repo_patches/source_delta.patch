From a38883e30cc322480c24ea250462a6b16a4aa8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 01/15] fix: reject signed messages shorter than a signature in
 verification

The message length was computed as smlen - sig_bytes without a check, so a
short input wrapped around to a huge length and crashed in memcpy.
---
 xmss_commons.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xmss_commons.c b/xmss_commons.c
index 2b76b94..d7b2acb 100644
--- a/xmss_commons.c
+++ b/xmss_commons.c
@@ -156,6 +156,11 @@ int xmssmt_core_sign_open(const xmss_params *params,
     set_type(ltree_addr, XMSS_ADDR_TYPE_LTREE);
     set_type(node_addr, XMSS_ADDR_TYPE_HASHTREE);
 
+    /* Anything shorter than a signature cannot be valid. */
+    if (smlen < params->sig_bytes) {
+        *mlen = 0;
+        return -1;
+    }
     *mlen = smlen - params->sig_bytes;
 
     /* Convert the index bytes from the signature to an integer. */
-- 
2.43.0


From 65bef90986dacc3c04139a44534434ca49a6b17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 02/15] fix: keep the secret key until the last signature is
 complete

For the last index the secret key was zeroed before it was used, so the
signature was made with all-zero seeds and did not verify.
---
 xmss_core.c      | 16 +++++++++++-----
 xmss_core_fast.c | 28 ++++++++++++++++++----------
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/xmss_core.c b/xmss_core.c
index af9f8d1..e62d1d3 100644
--- a/xmss_core.c
+++ b/xmss_core.c
@@ -196,6 +196,7 @@ int xmssmt_core_sign(const xmss_params *params,
     unsigned char idx_bytes_32[32];
     unsigned int i;
     uint32_t idx_leaf;
+    int last_signature;
 
     uint32_t ots_addr[8] = {0};
     set_type(ots_addr, XMSS_ADDR_TYPE_OTS);
@@ -219,16 +220,15 @@ int xmssmt_core_sign(const xmss_params *params,
      * to be on the safe side (there is no index value left to indicate that the 
      * key is finished, hence external handling would be necessary)
      */ 
-    if (idx >= ((1ULL << params->full_height) - 1)) {
+    if (idx > ((1ULL << params->full_height) - 1) ||
+        ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1)))) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
         memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
-            return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        return -2; // We already used all one-time keys
     }
+    last_signature = (idx == ((1ULL << params->full_height) - 1));
     
     memcpy(sm, sk, params->index_bytes);
 
@@ -269,5 +269,11 @@ int xmssmt_core_sign(const xmss_params *params,
         sm += params->tree_height*params->n;
     }
 
+    /* If this was the last one-time key, delete the secret key, but only now
+     * that the signature is complete. */
+    if (last_signature) {
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index cbf87ec..8d0dc0a 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -612,15 +612,13 @@ int xmss_core_sign(const xmss_params *params,
      * to be on the safe side (there is no index value left to indicate that the 
      * key is finished, hence external handling would be necessary)
      */ 
-    if (idx >= ((1ULL << params->full_height) - 1)) {
+    if (idx > ((1ULL << params->full_height) - 1) ||
+        ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1)))) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
         memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
-            return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        return -2; // We already used all one-time keys
     }
     
     unsigned char sk_seed[params->n];
@@ -716,6 +714,12 @@ int xmss_core_sign(const xmss_params *params,
     /* Write the updated BDS state back into sk. */
     xmss_serialize_state(params, sk, &state);
 
+    /* If this was the last one-time key, delete the secret key, but only now
+     * that the signature is complete. */
+    if (idx == ((1ULL << params->full_height) - 1)) {
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
 
@@ -833,15 +837,13 @@ int xmssmt_core_sign(const xmss_params *params,
      * to be on the safe side (there is no index value left to indicate that the 
      * key is finished, hence external handling would be necessary)
      */ 
-    if (idx >= ((1ULL << params->full_height) - 1)) {
+    if (idx > ((1ULL << params->full_height) - 1) ||
+        ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1)))) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
         memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
-            return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        return -2; // We already used all one-time keys
     }
     
     memcpy(sk_seed, sk+params->index_bytes, params->n);
@@ -984,5 +986,11 @@ int xmssmt_core_sign(const xmss_params *params,
 
     xmssmt_serialize_state(params, sk, states);
 
+    /* If this was the last one-time key, delete the secret key, but only now
+     * that the signature is complete. */
+    if (idx == ((1ULL << params->full_height) - 1)) {
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
-- 
2.43.0


From fecaa8e4f601a8bd6daaf4bffaf48bf12794e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 03/15] fix: do not wrap the index of XMSSMT keys whose height
 fills the index bytes

With a height of 40 (5 index bytes) the index went back to 0 after the last
signature, and signing continued with the erased key instead of failing.
Treat such heights as the comment says for a height of 64.
---
 xmss_core.c      |  5 +++--
 xmss_core_fast.c | 10 ++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/xmss_core.c b/xmss_core.c
index e62d1d3..2a4e547 100644
--- a/xmss_core.c
+++ b/xmss_core.c
@@ -216,12 +216,13 @@ int xmssmt_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
+     * If the index bytes have no room for a higher index (e.g. for a total tree
+     * height of 40 in XMSSMT, or of 64) we do not use the last signature 
      * to be on the safe side (there is no index value left to indicate that the 
      * key is finished, hence external handling would be necessary)
      */ 
     if (idx > ((1ULL << params->full_height) - 1) ||
-        ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1)))) {
+        ((params->full_height == 8*params->index_bytes) && (idx == ((1ULL << params->full_height) - 1)))) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index 8d0dc0a..cda3ee7 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -608,12 +608,13 @@ int xmss_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
+     * If the index bytes have no room for a higher index (e.g. for a total tree
+     * height of 40 in XMSSMT, or of 64) we do not use the last signature 
      * to be on the safe side (there is no index value left to indicate that the 
      * key is finished, hence external handling would be necessary)
      */ 
     if (idx > ((1ULL << params->full_height) - 1) ||
-        ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1)))) {
+        ((params->full_height == 8*params->index_bytes) && (idx == ((1ULL << params->full_height) - 1)))) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
@@ -833,12 +834,13 @@ int xmssmt_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
+     * If the index bytes have no room for a higher index (e.g. for a total tree
+     * height of 40 in XMSSMT, or of 64) we do not use the last signature 
      * to be on the safe side (there is no index value left to indicate that the 
      * key is finished, hence external handling would be necessary)
      */ 
     if (idx > ((1ULL << params->full_height) - 1) ||
-        ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1)))) {
+        ((params->full_height == 8*params->index_bytes) && (idx == ((1ULL << params->full_height) - 1)))) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
-- 
2.43.0


From e90f7e64c39c535ac6ccd0aed8a21e750205195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 04/15] fix: do not shift out WOTS+ checksum digits for w = 256

The checksum fills whole bytes for w = 256, but was shifted left by 8 bits all
the same, which dropped its most significant digit: signatures could be turned
into signatures of other digests by hashing chains forward.
---
 wots.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wots.c b/wots.c
index d9c8449..50ebf8b 100644
--- a/wots.c
+++ b/wots.c
@@ -93,7 +93,7 @@ static void wots_checksum(const xmss_params *params,
 
     /* Convert checksum to base_w. */
     /* Make sure expected empty zero bits are the least significant bits. */
-    csum = csum << (8 - ((params->wots_len2 * params->wots_log_w) % 8));
+    csum = csum << ((8 - ((params->wots_len2 * params->wots_log_w) % 8)) % 8);
     ull_to_bytes(csum_bytes, sizeof(csum_bytes), csum);
     base_w(params, csum_base_w, params->wots_len2, csum_bytes);
 }
-- 
2.43.0


From 43ee9c9221bf53c227231e244a186712953df433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 05/15] fix: ui/sign: store the updated key before releasing
 the signature

The signature was written to stdout before the key file was updated, so being
killed or failing in between released a signature under an index that the next
run used again. A failed signing call (exhausted key), which left smlen unset,
and failed writes were ignored as well; now the tool reports them.
---
 ui/sign.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/ui/sign.c b/ui/sign.c
index d82ea6b..dedc5a4 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -24,6 +24,7 @@ int main(int argc, char **argv) {
     int parse_oid_result;
 
     unsigned long long mlen;
+    int ret;
 
     if (argc != 3) {
         fprintf(stderr, "Expected keypair and message filenames as two "
@@ -86,11 +87,22 @@ int main(int argc, char **argv) {
     fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file);
     fread(m, 1, mlen, m_file);
 
-    XMSS_SIGN(sk, sm, &smlen, m, mlen);
+    ret = XMSS_SIGN(sk, sm, &smlen, m, mlen);
+    if (ret) {
+        fprintf(stderr, "Signing failed.\n");
+    }
 
-    fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR);
-    fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file);
-    fwrite(sm, 1, smlen, stdout);
+    /* The updated key must be in the file before the signature is output. */
+    if (fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR) ||
+        fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file) != params.sk_bytes ||
+        fflush(keypair_file)) {
+        fprintf(stderr, "Could not update keypair file.\n");
+        ret = -1;
+    }
+    if (!ret && (fwrite(sm, 1, smlen, stdout) != smlen || fflush(stdout))) {
+        fprintf(stderr, "Could not write signature + message.\n");
+        ret = -1;
+    }
 
     fclose(keypair_file);
     fclose(m_file);
@@ -98,5 +110,5 @@ int main(int argc, char **argv) {
     free(m);
     free(sm);
 
-    return 0;
+    return ret;
 }
-- 
2.43.0


From a8c7158391af45fd85a48a55075f0a265c1dcf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 06/15] fix: ui: refuse truncated key and message files

Short reads were ignored: signing with a truncated key file used uninitialised
memory as the secret key and overwrote the public key in the file.
---
 ui/open.c | 19 ++++++++++++++++---
 ui/sign.c | 26 ++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/ui/open.c b/ui/open.c
index a0b0b94..0872c1f 100644
--- a/ui/open.c
+++ b/ui/open.c
@@ -50,7 +50,12 @@ int main(int argc, char **argv) {
     fseek(sm_file, 0, SEEK_END);
     smlen = ftell(sm_file);
 
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read oid.\n");
+        fclose(keypair_file);
+        fclose(sm_file);
+        return -1;
+    }
     oid = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid);
     if (parse_oid_result != 0) {
@@ -67,8 +72,16 @@ int main(int argc, char **argv) {
 
     fseek(keypair_file, 0, SEEK_SET);
     fseek(sm_file, 0, SEEK_SET);
-    fread(pk, 1, XMSS_OID_LEN + params.pk_bytes, keypair_file);
-    fread(sm, 1, smlen, sm_file);
+    if (m == NULL || sm == NULL ||
+        fread(pk, 1, XMSS_OID_LEN + params.pk_bytes, keypair_file) != XMSS_OID_LEN + params.pk_bytes ||
+        fread(sm, 1, smlen, sm_file) != smlen) {
+        fprintf(stderr, "Could not read public key and signature + message.\n");
+        fclose(keypair_file);
+        fclose(sm_file);
+        free(m);
+        free(sm);
+        return -1;
+    }
 
     ret = XMSS_SIGN_OPEN(m, &mlen, sm, smlen, pk);
 
diff --git a/ui/sign.c b/ui/sign.c
index dedc5a4..e4a1b47 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -52,7 +52,12 @@ int main(int argc, char **argv) {
     mlen = ftell(m_file);
 
     /* Read the OID from the public key, as we need its length to seek past it */
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read public key oid.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
     /* The XMSS_OID_LEN bytes in buffer are a big-endian uint32. */
     oid_pk = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid_pk);
@@ -66,7 +71,12 @@ int main(int argc, char **argv) {
     /* fseek past the public key */
     fseek(keypair_file, params.pk_bytes, SEEK_CUR);
     /* This is the OID we're actually going to use. Likely the same, but still. */
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read secret key oid.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
     oid_sk = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid_sk);
     if (parse_oid_result != 0) {
@@ -84,8 +94,16 @@ int main(int argc, char **argv) {
     /* fseek back to start of sk. */
     fseek(keypair_file, -((long int)XMSS_OID_LEN), SEEK_CUR);
     fseek(m_file, 0, SEEK_SET);
-    fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file);
-    fread(m, 1, mlen, m_file);
+    if (m == NULL || sm == NULL ||
+        fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file) != XMSS_OID_LEN + params.sk_bytes ||
+        fread(m, 1, mlen, m_file) != mlen) {
+        fprintf(stderr, "Could not read secret key and message.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        free(m);
+        free(sm);
+        return -1;
+    }
 
     ret = XMSS_SIGN(sk, sm, &smlen, m, mlen);
     if (ret) {
-- 
2.43.0


From 75eda8e8fb77c497aa20ffa555349cf1d42530dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 07/15] fix: do not let a finished NEXT tree use up the updates
 of higher layers

In XMSSMT with five or more layers of height 5 (40/8, 60/12) the next tree of
layer 3 stayed incomplete, and signatures from index 2^20 on were invalid.
---
 xmss_core_fast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index cda3ee7..b158f34 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -957,7 +957,7 @@ int xmssmt_core_sign(const xmss_params *params,
             set_tree_addr(addr, (idx_tree + 1));
             // if a NEXT-tree exists for this level;
             if ((1 + idx_tree) * (1 << params->tree_height) + idx_leaf < (1ULL << (params->full_height - params->tree_height * i))) {
-                if (i > 0 && updates > 0 && states[params->d + i].next_leaf < (1ULL << params->full_height)) {
+                if (i > 0 && updates > 0 && states[params->d + i].next_leaf < (1ULL << params->tree_height)) {
                     bds_state_update(params, &states[params->d + i], sk_seed, pub_seed, addr);
                     updates--;
                 }
-- 
2.43.0


From 19be2352071a22e39dc3ec27e84c82251124bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 08/15] fix: do not read past the leaf stack in treehash_init

The copy of the fourth leaf into treehash[0] took the unused stack slot after
it, which for trees of height 2 lies outside of the array. The leaf itself is
copied in the loop that follows.
---
 xmss_core_fast.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index b158f34..c728fb5 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -251,9 +251,6 @@ static void treehash_init(const xmss_params *params,
         gen_leaf_wots(params, stack+stackoffset*params->n, sk_seed, pub_seed, ltree_addr, ots_addr);
         stacklevels[stackoffset] = 0;
         stackoffset++;
-        if (params->tree_height - params->bds_k > 0 && i == 3) {
-            memcpy(state->treehash[0].node, stack+stackoffset*params->n, params->n);
-        }
         while (stackoffset>1 && stacklevels[stackoffset-1] == stacklevels[stackoffset-2]) {
             nodeh = stacklevels[stackoffset-1];
             if (i >> nodeh == 1) {
-- 
2.43.0


From d9e2e75d5a5eea7cc8a1c59e2c02812e8617a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 09/15] fix: do not keep old buffer contents in fast secret
 keys

Key generation read the traversal state from the caller's buffer and wrote the
parts it had not initialised back into the new secret key.
---
 xmss_core_fast.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index c728fb5..2144d1f 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -542,6 +542,8 @@ int xmss_core_keypair(const xmss_params *params,
     treehash_inst treehash[params->tree_height - params->bds_k];
     state.treehash = treehash;
 
+    /* Not all of the state is set below; do not store what was in sk before. */
+    memset(sk, 0, params->sk_bytes);
     xmss_deserialize_state(params, &state, sk);
 
     state.stackoffset = 0;
@@ -740,6 +742,8 @@ int xmssmt_core_keypair(const xmss_params *params,
         states[i].treehash = treehash + i * (params->tree_height - params->bds_k);
     }
 
+    /* Not all of the state is set below; do not store what was in sk before. */
+    memset(sk, 0, params->sk_bytes);
     xmssmt_deserialize_state(params, states, &wots_sigs, sk);
 
     for (i = 0; i < 2 * params->d - 1; i++) {
-- 
2.43.0


From b966478f1bee57bd3688dbc8a431ebe80bd436d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 10/15] fix: report an empty message when the key's identifier
 is unknown

Verification left *mlen as it was, while every other failure sets it to 0.
---
 xmss.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmss.c b/xmss.c
index 9030f6e..791cb71 100644
--- a/xmss.c
+++ b/xmss.c
@@ -54,6 +54,7 @@ int xmss_sign_open(unsigned char *m, unsigned long long *mlen,
         oid |= pk[XMSS_OID_LEN - i - 1] << (i * 8);
     }
     if (xmss_parse_oid(&params, oid)) {
+        *mlen = 0;
         return -1;
     }
     return xmss_core_sign_open(&params, m, mlen, sm, smlen, pk + XMSS_OID_LEN);
@@ -103,6 +104,7 @@ int xmssmt_sign_open(unsigned char *m, unsigned long long *mlen,
         oid |= pk[XMSS_OID_LEN - i - 1] << (i * 8);
     }
     if (xmssmt_parse_oid(&params, oid)) {
+        *mlen = 0;
         return -1;
     }
     return xmssmt_core_sign_open(&params, m, mlen, sm, smlen, pk + XMSS_OID_LEN);
-- 
2.43.0


From c26b085497aa73e17380705a404fee59206d4e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:07 +0000
Subject: [PATCH 11/15] fix: ui/keypair: report a key pair that could not be
 written

---
 ui/keypair.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ui/keypair.c b/ui/keypair.c
index 612c448..7b33be1 100644
--- a/ui/keypair.c
+++ b/ui/keypair.c
@@ -39,10 +39,12 @@ int main(int argc, char **argv)
 
     XMSS_KEYPAIR(pk, sk, oid);
 
-    fwrite(pk, 1, XMSS_OID_LEN + params.pk_bytes, stdout);
-    fwrite(sk, 1, XMSS_OID_LEN + params.sk_bytes, stdout);
-
-    fclose(stdout);
+    if (fwrite(pk, 1, XMSS_OID_LEN + params.pk_bytes, stdout) != XMSS_OID_LEN + params.pk_bytes ||
+        fwrite(sk, 1, XMSS_OID_LEN + params.sk_bytes, stdout) != XMSS_OID_LEN + params.sk_bytes ||
+        fclose(stdout)) {
+        fprintf(stderr, "Could not write keypair.\n");
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 349a3272749c7c1db6ebe02689e0a95c70b8523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:27 +0000
Subject: [PATCH 12/15] fix: do not let the update budget of the fast signer
 wrap around

When trees end on more layers than there are updates left, every new one-time
signature was subtracted from a budget of zero; the budget then wrapped to a
huge value and one call did the work of many (e.g. index 2^18-1 of
XMSSMT-SHA2_20/4_192 computed 8 leaves instead of at most 4).
---
 xmss_core_fast.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index 2144d1f..54732e1 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -976,7 +976,9 @@ int xmssmt_core_sign(const xmss_params *params,
             states[params->d + i].stackoffset = 0;
             states[params->d + i].next_leaf = 0;
 
-            updates--; // WOTS-signing counts as one update
+            if (updates > 0) {
+                updates--; // WOTS-signing counts as one update
+            }
             needswap_upto = i;
             for (j = 0; j < params->tree_height-params->bds_k; j++) {
                 states[i].treehash[j].completed = 1;
-- 
2.43.0


From e3a6677559e523a3780ad9ff3988f0f47ee0c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:59 +0000
Subject: [PATCH 13/15] fix: keep all bits of the index in the plain signer
 where long has 32 bits

The cast to unsigned long dropped the upper bits of indices of XMSSMT keys with a
height above 32: such keys signed with wrong one-time keys, and a finished key
(index 2^40, 2^60) started again at index 0.
---
 xmss_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmss_core.c b/xmss_core.c
index 2a4e547..3234d48 100644
--- a/xmss_core.c
+++ b/xmss_core.c
@@ -207,7 +207,7 @@ int xmssmt_core_sign(const xmss_params *params,
     *smlen = params->sig_bytes + mlen;
 
     /* Read and use the current index from the secret key. */
-    idx = (unsigned long)bytes_to_ull(sk, params->index_bytes);
+    idx = bytes_to_ull(sk, params->index_bytes);
     
     /* Check if we can still sign with this sk.
      * If not, return -2
-- 
2.43.0


From e06841177b809ebd3d5cb969a1f25826ce8f61a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:14 +0000
Subject: [PATCH 14/15] fix: ui/sign: do not sign less than what the message
 file holds

When the end of the message file could not be sought (files in /proc, for
example) its length was taken to be zero: the tool signed an empty message
and reported success.
---
 ui/sign.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ui/sign.c b/ui/sign.c
index e4a1b47..2b5a1c8 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -96,7 +96,8 @@ int main(int argc, char **argv) {
     fseek(m_file, 0, SEEK_SET);
     if (m == NULL || sm == NULL ||
         fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file) != XMSS_OID_LEN + params.sk_bytes ||
-        fread(m, 1, mlen, m_file) != mlen) {
+        fread(m, 1, mlen, m_file) != mlen ||
+        fgetc(m_file) != EOF) {  /* The length that was found is wrong. */
         fprintf(stderr, "Could not read secret key and message.\n");
         fclose(keypair_file);
         fclose(m_file);
-- 
2.43.0


From 14334c3a6d643b84c75414e8bd05dbbd6e51f85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:59 +0000
Subject: [PATCH 15/15] fix: ui/sign: lock the key file against other signing
 processes

Two signing processes running at the same time could read the same key and
release signatures made with the same one-time key.
---
 ui/sign.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ui/sign.c b/ui/sign.c
index 2b5a1c8..bb171f0 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <stdlib.h>
+#include <unistd.h>
 
 #include "../params.h"
 #include "../xmss.h"
@@ -40,6 +41,13 @@ int main(int argc, char **argv) {
         return -1;
     }
 
+    /* No other process may read the key until it has been updated. */
+    if (lockf(fileno(keypair_file), F_LOCK, 0)) {
+        fprintf(stderr, "Could not lock keypair file.\n");
+        fclose(keypair_file);
+        return -1;
+    }
+
     m_file = fopen(argv[2], "rb");
     if (m_file == NULL) {
         fprintf(stderr, "Could not open message file.\n");
@@ -118,12 +126,13 @@ int main(int argc, char **argv) {
         fprintf(stderr, "Could not update keypair file.\n");
         ret = -1;
     }
+    fclose(keypair_file);
+
     if (!ret && (fwrite(sm, 1, smlen, stdout) != smlen || fflush(stdout))) {
         fprintf(stderr, "Could not write signature + message.\n");
         ret = -1;
     }
 
-    fclose(keypair_file);
     fclose(m_file);
 
     free(m);
-- 
2.43.0


From 78dfcdbc32ac2b1a1f1bd3980d0f800ecd88a06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:20 +0000
Subject: [PATCH 01/12] hook: POIK_VERIF_REPS overrides the number of proof
 repetitions (off by default)

---
 c-impl/PQCrypto-SIDH/src/poik.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.h b/c-impl/PQCrypto-SIDH/src/poik.h
index dbc1919..69db789 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.h
+++ b/c-impl/PQCrypto-SIDH/src/poik.h
@@ -44,6 +44,11 @@
 #error "please #define POIK_BITS to {434,503,610,751} prior to including <poik.h>"
 #endif
 
+#ifdef POIK_VERIF_REPS          // verification hook: override the number of repetitions
+    #undef POIK_REPS
+    #define POIK_REPS       POIK_VERIF_REPS
+#endif
+
 ////////////////////////////////////////////////////////////////
 
 typedef union {
-- 
2.43.0


From d45e6f9799995644708c5fe58fa646aff5b4aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:41 +0000
Subject: [PATCH 02/12] fix: refuse response tags that do not fit an int
 instead of wrapping them

A tag such as 4294967297 overflowed the conversion in Parse() and was read
as 1 (0, -1), so malformed proofs were accepted.
---
 c-impl/PQCrypto-SIDH/src/poik.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index cc88941..0a1f089 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -1639,7 +1639,7 @@ bool Parse(FILE *file, struct proof *prf)
     for (size_t i = 0; i < POIK_REPS; ++i) {
         struct response *const r = &prf->resp[i];
 
-        if (1 != fscanf(file, " %d", &r->tag))
+        if (1 != fscanf(file, " %9d", &r->tag))
             return false;
 
         switch (r->tag) {
-- 
2.43.0


From a198a58f6c7d0a1812845a81955e48cfce61e91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:59 +0000
Subject: [PATCH 03/12] fix: report a failed write of a response tag in Dump()

Dump() ignored the result of writing the tag line, so it returned true
although the proof text was missing a line.
---
 c-impl/PQCrypto-SIDH/src/poik.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index 0a1f089..2e8d74c 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -1549,7 +1549,8 @@ bool Dump(FILE *file, struct proof const *prf) {
     for (size_t i = 0; i < POIK_REPS; ++i) {
         struct response const *const r = &prf->resp[i];
 
-        fprintf(file, "%d\n", r->tag);
+        if (0 > fprintf(file, "%d\n", r->tag))
+            return false;
 
         switch (r->tag) {
         case RESP_LEFT:
-- 
2.43.0


From a15e7eaacbe6ea4ee80069fc9a92ed567eaa1af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:40 +0000
Subject: [PATCH 04/12] fix: report output that could not be flushed in prove
 and verify

The tools returned 0 when the buffered tail of their output (for verify:
all of it) could not be written, e.g. to a full device.
---
 c-impl/prove.c  | 2 +-
 c-impl/verify.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/c-impl/prove.c b/c-impl/prove.c
index 00d17dd..77f5d46 100644
--- a/c-impl/prove.c
+++ b/c-impl/prove.c
@@ -32,7 +32,7 @@ int main(int argc, char **argv)
 
     Prove(&sec, prf);
 
-    if (!Dump(stdout, prf)) {
+    if (!Dump(stdout, prf) || fflush(stdout)) {
         fputs("could not write proof to output file\n", stderr);
         free(prf);
         return 3;
diff --git a/c-impl/verify.c b/c-impl/verify.c
index 669e2d0..7da4188 100644
--- a/c-impl/verify.c
+++ b/c-impl/verify.c
@@ -27,7 +27,8 @@ int main()
     }
 
     if (!Dump_Fp2(stdout, &prf->E0) \
-     || !Dump_Fp2(stdout, &prf->E1)) {
+     || !Dump_Fp2(stdout, &prf->E1) \
+     || fflush(stdout)) {
         fputs("could not write curve to output file\n", stderr);
         free(prf);
         return 3;
-- 
2.43.0


From e75f70898e455c32e84815b354475c6ebe8ba943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:23 +0000
Subject: [PATCH 05/12] fix: stop when the entropy for re-randomising a bottom
 kernel is not available

Pack_Chain_A() ignored the result of random_mod_order_A() and went on with an
uninitialised scalar.
---
 c-impl/PQCrypto-SIDH/src/poik.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index 2e8d74c..270dedb 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -954,7 +954,8 @@ static void Pack_Chain_A(chain_A const *in, packed_chain_A *out)
         digit_t scalar[NWORDS_ORDER];
         {
             unsigned char buf[SIDH_SECRETKEYBYTES_A];
-            random_mod_order_A(buf);
+            if (random_mod_order_A(buf))
+                fail("random_mod_order_A() failed -- could not get entropy");
             buf[0] |= 1;    // make it odd
             decode_to_digits(buf, scalar, SECRETKEY_A_BYTES, NWORDS_ORDER);
         }
-- 
2.43.0


From 3f99956d102424d0a0b329883fefd37c05859e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:36 +0000
Subject: [PATCH 06/12] fix: do not accept a response tag that only matches
 after truncation to 8 bits

Unpack_Response() switched on the int8_t copy of the tag, so a proof in memory
whose tag differs from the challenge digit by a multiple of 256 was accepted.
---
 c-impl/PQCrypto-SIDH/src/poik.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index 270dedb..ca6b313 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -1203,7 +1203,8 @@ static bool Unpack_Response(struct proof const *prf, struct response const *r, i
     curve_proj E2, E3;
     packed_fp2 j2, j3;
 
-    switch (*which = r->tag) {
+    *which = r->tag;
+    switch (r->tag) {
 
     case RESP_LEFT:
         if (!Unpack_Chain_B(&prf->E0, &r->left.chain, &E2))
-- 
2.43.0


From fa25e1f3ba10860b016c45d499745932e9fe29b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:46 +0000
Subject: [PATCH 07/12] fix: cmp_f2elm returns -1 for different elements, as
 documented

The shift of an unsigned digit produced 1 instead of -1. crypto_kem_dec of the
compressed KEM uses the value as the selector of ct_cmov, so for a rejected
ciphertext only the lowest bit of each byte of the private seed replaced the
decrypted message, and the returned secret depended on the malformed data.
---
 c-impl/PQCrypto-SIDH/src/fpx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/fpx.c b/c-impl/PQCrypto-SIDH/src/fpx.c
index a668fea..53c3531 100644
--- a/c-impl/PQCrypto-SIDH/src/fpx.c
+++ b/c-impl/PQCrypto-SIDH/src/fpx.c
@@ -1063,7 +1063,7 @@ int8_t cmp_f2elm(const f2elm_t x, const f2elm_t y)
     for (int i = NWORDS_FIELD-1; i >= 0; i--)
         r |= (a[0][i] ^ b[0][i]) | (a[1][i] ^ b[1][i]);
 
-    return (int8_t)(((0-(digit_t)(r & 1)) | (0-(digit_t)(r >> 1))) >> (8*sizeof(digit_t)-1));
+    return (int8_t)(0-(((0-(digit_t)(r & 1)) | (0-(digit_t)(r >> 1))) >> (8*sizeof(digit_t)-1)));
 }
 
 
-- 
2.43.0


From 149fdad1d02e539b3c4960cdf2beaa79fba37b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:32 +0000
Subject: [PATCH 08/12] fix: compare the whole ciphertext in the compressed
 decapsulation

The single equation checked by validate_ciphertext only fixes the image of the
receiver's kernel point. Scalars altered by multiples of 2^(eA-k) that cancel
for the low k bits of skA pass it, so a decapsulation with such a ciphertext
returned H(m||ct) or H(s||ct) depending on bits of the private key (the usual
adaptive key recovery against static keys). Ignored bits and non-reduced
encodings were accepted, too. Recompute c0 and compare it.
---
 c-impl/PQCrypto-SIDH/src/compression/sike_compressed.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/compression/sike_compressed.c b/c-impl/PQCrypto-SIDH/src/compression/sike_compressed.c
index f8bf165..648859d 100644
--- a/c-impl/PQCrypto-SIDH/src/compression/sike_compressed.c
+++ b/c-impl/PQCrypto-SIDH/src/compression/sike_compressed.c
@@ -72,6 +72,7 @@ int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned ch
     unsigned char ephemeralsk_[SECRETKEY_B_BYTES] = {0};
     unsigned char jinvariant_[FP2_ENCODED_BYTES + 2*FP2_ENCODED_BYTES + SECRETKEY_A_BYTES] = {0}, h_[MSG_BYTES];
     unsigned char temp[CRYPTO_CIPHERTEXTBYTES + MSG_BYTES] = {0};   
+    unsigned char c0_[PARTIALLY_COMPRESSED_CHUNK_CT] = {0};
     unsigned char* tphiBKA_t = &jinvariant_[FP2_ENCODED_BYTES];
     int8_t selector = -1;
     
@@ -91,8 +92,11 @@ int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned ch
     FormatPrivKey_B(ephemeralsk_);
     
     // Generate shared secret ss <- H(m||ct), or output ss <- H(s||ct) in case of ct verification failure
-    // No need to recompress, just check if x(phi(P) + t*phi(Q)) == x((a0 + t*a1)*R1 + (b0 + t*b1)*R2)    
+    // Check if x(phi(P) + t*phi(Q)) == x((a0 + t*a1)*R1 + (b0 + t*b1)*R2)    
     selector = validate_ciphertext(ephemeralsk_, ct, &sk[MSG_BYTES + SECRETKEY_A_BYTES + CRYPTO_PUBLICKEYBYTES], tphiBKA_t);
+    // That equation also holds for altered scalars that leave the point unchanged for this skA, which would reveal bits of skA: compare all of c0
+    EphemeralKeyGeneration_B_extended(ephemeralsk_, c0_, 1);
+    selector |= ct_compare(c0_, ct, PARTIALLY_COMPRESSED_CHUNK_CT);
 Hashing:
     // If ct validation passes (selector = 0) then do ss = H(m||ct), otherwise (selector = -1) load s to do ss = H(s||ct)
     ct_cmov(temp, sk, MSG_BYTES, selector);
-- 
2.43.0


From a36e3827ed7b00d0163342363753d1382df341c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:26 +0000
Subject: [PATCH 09/12] fix: open the entropy source without a data race
 between threads

---
 c-impl/PQCrypto-SIDH/src/random/random.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/random/random.c b/c-impl/PQCrypto-SIDH/src/random/random.c
index b8c7e02..e9d7a63 100644
--- a/c-impl/PQCrypto-SIDH/src/random/random.c
+++ b/c-impl/PQCrypto-SIDH/src/random/random.c
@@ -12,7 +12,8 @@
 #elif defined(__NIX__)
     #include <unistd.h>
     #include <fcntl.h>
-    static int lock = -1;
+    #include <stdatomic.h>
+    static atomic_int source = -1;    // shared by all threads
 #endif
 
 #define passed 0 
@@ -29,14 +30,22 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
 
 #elif defined(__NIX__)
     int r, n = (int)nbytes, count = 0;
+    int lock = atomic_load(&source);
     
     if (lock == -1) {
+        int none = -1;
+
         do {
             lock = open("/dev/urandom", O_RDONLY);
             if (lock == -1) {
                 sleep(1);
             }
         } while (lock == -1);
+
+        if (!atomic_compare_exchange_strong(&source, &none, lock)) {    // another thread was faster
+            close(lock);
+            lock = none;
+        }
     }
 
     while (n > 0) {
-- 
2.43.0


From e2dbe28e1b52a6f5ef55a0de83ffe392e17ba83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:09 +0000
Subject: [PATCH 10/12] fix: Sage verifier uses the commitment length of the
 parameter set

verify.sage always computed 32-byte commitments, but proofs for p610 and
p751 have 48- and 64-byte ones (HASH_BYTES in poik.h), so every valid
proof for these two parameter sets was rejected.
---
 sage-impl/verify.sage | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/sage-impl/verify.sage b/sage-impl/verify.sage
index dcdd7f2..f8e0c15 100755
--- a/sage-impl/verify.sage
+++ b/sage-impl/verify.sage
@@ -29,12 +29,12 @@ def pack(el):
     plen = (p.bit_length() + 7) // 8
     return b''.join(int(v).to_bytes(plen,'little') for v in el)
 
-def hash_hiding(r, v):
+def hash_hiding(r, v, n):
     h = SHAKE256.new()
     h.update(b'\x02')       # RO_COMMIT
     h.update(r)
     h.update(pack(v))
-    return h.read(int(32))  #XXX 32 is HASH_BYTES from poik.h
+    return h.read(int(n))
 
 def curve(A):
     E = EllipticCurve([0,A,0,1,0])
@@ -99,6 +99,7 @@ class Parameters(NamedTuple):
     reps: int
     w: int
     h: int
+    hash: int   # HASH_BYTES from poik.h
 
     @property
     @cached_method
@@ -126,9 +127,9 @@ class LeftResponse(NamedTuple):
     def read(param):
         return LeftResponse(read_bytes(), read_bytes(), [param.read_element() for _ in range(param.h)])
 
-    def unpack(self, E0, _, __, B):
+    def unpack(self, E0, _, __, B, n):
         j2 = unpack_chain(E0, self.chain, B).j_invariant()
-        h2 = hash_hiding(self.r2, j2)
+        h2 = hash_hiding(self.r2, j2, n)
         return h2, self.h3
 
 class BottomResponse(NamedTuple):
@@ -141,11 +142,11 @@ class BottomResponse(NamedTuple):
     def read(param):
         return BottomResponse(read_bytes(), read_bytes(), param.read_element(), [param.read_element() for _ in range(param.w)])
 
-    def unpack(self, _, __, A, ___):
+    def unpack(self, _, __, A, ___, n):
         j2 = curve(self.E2).j_invariant()
         j3 = unpack_chain(self.E2, self.chain, A).j_invariant()
-        h2 = hash_hiding(self.r2, j2)
-        h3 = hash_hiding(self.r3, j3)
+        h2 = hash_hiding(self.r2, j2, n)
+        h3 = hash_hiding(self.r3, j3, n)
         return h2, h3
 
 class RightResponse(NamedTuple):
@@ -157,9 +158,9 @@ class RightResponse(NamedTuple):
     def read(param):
         return RightResponse(read_bytes(), read_bytes(), [param.read_element() for _ in range(param.h)])
 
-    def unpack(self, _, E1, __, B):
+    def unpack(self, _, E1, __, B, n):
         j3 = unpack_chain(E1, self.chain, B).j_invariant()
-        h3 = hash_hiding(self.r3, j3)
+        h3 = hash_hiding(self.r3, j3, n)
         return self.h2, h3
 
 ################################################################
@@ -198,7 +199,7 @@ class Proof(NamedTuple):
         @parallel(os.cpu_count())
         def work(idx):
             try:
-                return proof.responses[idx].unpack(proof.E0, proof.E1, 2^proof.param.a, 3^proof.param.b)
+                return proof.responses[idx].unpack(proof.E0, proof.E1, 2^proof.param.a, 3^proof.param.b, proof.param.hash)
             except Invalid:
                 return None
 
@@ -219,10 +220,10 @@ class Proof(NamedTuple):
 
 #TODO should store these things in the proof file?
 params = {
-        'p434': Parameters(216, 137, 219, 4, 7),
-        'p503': Parameters(250, 159, 219, 4, 7),
-        'p610': Parameters(305, 192, 329, 4, 7),
-        'p751': Parameters(372, 239, 438, 4, 7),
+        'p434': Parameters(216, 137, 219, 4, 7, 32),
+        'p503': Parameters(250, 159, 219, 4, 7, 32),
+        'p610': Parameters(305, 192, 329, 4, 7, 48),
+        'p751': Parameters(372, 239, 438, 4, 7, 64),
     }
 
 ################################################################
-- 
2.43.0


From 5e6d5d189678ca5299c811c5875ccacd1f033995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:09 +0000
Subject: [PATCH 11/12] fix: Sage verifier checks the length of hiding values
 and commitments

verify.sage accepted hexadecimal strings of any length. As the challenge
is a hash of the concatenated commitments, unopened commitments of
arbitrary length let the boundaries between commitments be moved after
the challenge is known. The C verifier only accepts the fixed lengths.
---
 sage-impl/verify.sage | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sage-impl/verify.sage b/sage-impl/verify.sage
index f8e0c15..ec3bd42 100755
--- a/sage-impl/verify.sage
+++ b/sage-impl/verify.sage
@@ -16,9 +16,9 @@ def read_int():
         raise Invalid
     return int(s)
 
-def read_bytes():
+def read_bytes(n):
     s = input()
-    if not re.match('^([0-9a-f]{2})+$', s, re.IGNORECASE):
+    if not re.match('^([0-9a-f]{2})+$', s, re.IGNORECASE) or len(s) != 2*n:
         raise Invalid
     return bytes.fromhex(s)
 
@@ -100,6 +100,7 @@ class Parameters(NamedTuple):
     w: int
     h: int
     hash: int   # HASH_BYTES from poik.h
+    hide: int   # HIDE_BYTES from poik.h
 
     @property
     @cached_method
@@ -125,7 +126,7 @@ class LeftResponse(NamedTuple):
 
     @staticmethod
     def read(param):
-        return LeftResponse(read_bytes(), read_bytes(), [param.read_element() for _ in range(param.h)])
+        return LeftResponse(read_bytes(param.hide), read_bytes(param.hash), [param.read_element() for _ in range(param.h)])
 
     def unpack(self, E0, _, __, B, n):
         j2 = unpack_chain(E0, self.chain, B).j_invariant()
@@ -140,7 +141,7 @@ class BottomResponse(NamedTuple):
 
     @staticmethod
     def read(param):
-        return BottomResponse(read_bytes(), read_bytes(), param.read_element(), [param.read_element() for _ in range(param.w)])
+        return BottomResponse(read_bytes(param.hide), read_bytes(param.hide), param.read_element(), [param.read_element() for _ in range(param.w)])
 
     def unpack(self, _, __, A, ___, n):
         j2 = curve(self.E2).j_invariant()
@@ -156,7 +157,7 @@ class RightResponse(NamedTuple):
 
     @staticmethod
     def read(param):
-        return RightResponse(read_bytes(), read_bytes(), [param.read_element() for _ in range(param.h)])
+        return RightResponse(read_bytes(param.hash), read_bytes(param.hide), [param.read_element() for _ in range(param.h)])
 
     def unpack(self, _, E1, __, B, n):
         j3 = unpack_chain(E1, self.chain, B).j_invariant()
@@ -220,10 +221,10 @@ class Proof(NamedTuple):
 
 #TODO should store these things in the proof file?
 params = {
-        'p434': Parameters(216, 137, 219, 4, 7, 32),
-        'p503': Parameters(250, 159, 219, 4, 7, 32),
-        'p610': Parameters(305, 192, 329, 4, 7, 48),
-        'p751': Parameters(372, 239, 438, 4, 7, 64),
+        'p434': Parameters(216, 137, 219, 4, 7, 32, 64),
+        'p503': Parameters(250, 159, 219, 4, 7, 32, 64),
+        'p610': Parameters(305, 192, 329, 4, 7, 48, 96),
+        'p751': Parameters(372, 239, 438, 4, 7, 64, 128),
     }
 
 ################################################################
-- 
2.43.0


From 141b4e18da51ab9dd14e6159d27425137c1b625f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:30 +0000
Subject: [PATCH 12/12] fix: do not cache the number of worker threads in an
 unprotected static

run_threads() stored the number of processors in a static variable, so
two threads calling Prove() or Verify() for the first time at the same
moment had a data race on it.
---
 c-impl/PQCrypto-SIDH/src/poik.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index ca6b313..91c388e 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -1314,9 +1314,7 @@ struct thread_state
 
 static void run_threads(void *(*fun)(void *), struct thread_state *state)
 {
-    static size_t count = 0;
-    if (!count)
-        count = num_threads();
+    size_t const count = num_threads();
 
     pthread_t threads[count];
 
-- 
2.43.0


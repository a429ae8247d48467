From 805369078f04aaf3d4620817333b372d7b4e6b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 01/37] fix: ETHFALCON sign/open report messages too long for
 the Keccak buffer

The result of inner_keccak256_inject was ignored, so a message longer than
4096-40 bytes was silently dropped from the hash: signatures did not cover
it and did not open.
---
 falcon/nistfalcon/src/nist.c   | 11 +++++++++--
 falcon/nistfalcon/src/nist16.c | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/falcon/nistfalcon/src/nist.c b/falcon/nistfalcon/src/nist.c
index 099f788..90cfd9a 100644
--- a/falcon/nistfalcon/src/nist.c
+++ b/falcon/nistfalcon/src/nist.c
@@ -239,7 +239,11 @@ int crypto_sign(unsigned char *sm, unsigned long long *smlen,
 #if ETHFALCON
 	inner_keccak256_init(&kc);
 	inner_keccak256_inject(&kc, nonce, sizeof nonce);
-	inner_keccak256_inject(&kc, m, mlen);
+	if (mlen > 0 && inner_keccak256_inject(&kc, m, mlen) != 0)
+	{
+		/* message too long for the generator's input buffer */
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, r.hm, 9);
 #else
@@ -353,7 +357,10 @@ int crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len);
+	if (inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len) != 0)
+	{
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, hm, 9);
 #else
diff --git a/falcon/nistfalcon/src/nist16.c b/falcon/nistfalcon/src/nist16.c
index 7e432b3..949b487 100644
--- a/falcon/nistfalcon/src/nist16.c
+++ b/falcon/nistfalcon/src/nist16.c
@@ -244,7 +244,11 @@ int zknox_crypto_sign(unsigned char *sm, unsigned long long *smlen,
 #if ETHFALCON
 	inner_keccak256_init(&kc);
 	inner_keccak256_inject(&kc, nonce, sizeof nonce);
-	inner_keccak256_inject(&kc, m, mlen);
+	if (mlen > 0 && inner_keccak256_inject(&kc, m, mlen) != 0)
+	{
+		/* message too long for the generator's input buffer */
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, r.hm, 9);
 #else
@@ -366,7 +370,10 @@ int zknox_crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len);
+	if (inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len) != 0)
+	{
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, hm, 9);
 #else
-- 
2.43.0


From 8d35dbcc4299eee23ca57fff1c4de5e8c5a0af8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 02/37] fix: comp_decode16 refuses words above 32767 and
 centres modulo q

The word was held in an int16_t, so 32768..65535 passed the range check as
negative numbers (a second encoding of some signatures), and 2047..6144
were lifted to 2047-q..6144-q instead of the representative around zero
(2047 itself is a value the encoder emits).
---
 falcon/nistfalcon/src/codec.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/falcon/nistfalcon/src/codec.c b/falcon/nistfalcon/src/codec.c
index f5e81c7..ccbb7ac 100644
--- a/falcon/nistfalcon/src/codec.c
+++ b/falcon/nistfalcon/src/codec.c
@@ -624,16 +624,16 @@ Zf(comp_decode16)(
 		acc = (acc << 8) | (*buf ++);
 		acc_len += 8;
 		if (acc_len >= 16) {
-			int16_t w;
+			int32_t w;
 
 			acc_len -= 16;
-			w = (acc >> acc_len) & 0xFFFF;
+			w = (int32_t)((acc >> acc_len) & 0xFFFF);
 			if (w >= 12289) {
 				return 0;
 			}
-			// using the bound 2047 from the comments below
-			w -= 12289 & ~((w - 2047) >> 31);
-			x[u++] = w;
+			// center around zero: -6144..+6144
+			w -= 12289 & ~((w - 6145) >> 31);
+			x[u++] = (int16_t)w;
 		}
 	}
 	if ((acc & (((uint32_t)1 << acc_len) - 1)) != 0) {
-- 
2.43.0


From 1352b674b8488dd0afa8461c972f1ed4e9b4a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 03/37] fix: keccak_update takes a size_t length

A uint16_t length silently truncated updates of 65536 bytes and more.
---
 falcon/nistfalcon/src/keccak256.c | 2 +-
 falcon/nistfalcon/src/keccak256.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/falcon/nistfalcon/src/keccak256.c b/falcon/nistfalcon/src/keccak256.c
index d4ff66b..04cc01b 100644
--- a/falcon/nistfalcon/src/keccak256.c
+++ b/falcon/nistfalcon/src/keccak256.c
@@ -289,7 +289,7 @@ static void sha3_process_block(uint64_t hash[25], const uint64_t *block)
  * @param msg message chunk
  * @param size length of the message chunk
  */
-void keccak_update(SHA3_CTX *ctx, const unsigned char *msg, uint16_t size)
+void keccak_update(SHA3_CTX *ctx, const unsigned char *msg, size_t size)
 {
     uint16_t idx = (uint16_t)ctx->rest;
 
diff --git a/falcon/nistfalcon/src/keccak256.h b/falcon/nistfalcon/src/keccak256.h
index 4bf58bc..b6b9731 100644
--- a/falcon/nistfalcon/src/keccak256.h
+++ b/falcon/nistfalcon/src/keccak256.h
@@ -21,6 +21,7 @@
 #ifndef __KECCAK256_H_
 #define __KECCAK256_H_
 
+#include <stddef.h>
 #include <stdint.h>
 
 #define sha3_max_permutation_size 25
@@ -45,7 +46,7 @@ extern "C"
 
     uint8_t getConstant(uint8_t type, uint8_t index);
     void keccak_init(SHA3_CTX *ctx);
-    void keccak_update(SHA3_CTX *ctx, const unsigned char *msg, uint16_t size);
+    void keccak_update(SHA3_CTX *ctx, const unsigned char *msg, size_t size);
     void keccak_final(SHA3_CTX *ctx, unsigned char *result);
 
 #ifdef __cplusplus
-- 
2.43.0


From 15716e436d22d924b7254392e29942d7d59fd1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 04/37] fix: zknox_pk_epervier does not transform the public
 key twice

The 16-bit key pair generator outputs NTT(h) already; applying to_ntt again
gave a key no EPERVIER signature opens with.
---
 falcon/nistfalcon/src/epervier16.c | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 6f88d11..e4691c1 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -26,10 +26,11 @@ int randombytes(unsigned char *x, unsigned long long xlen);
 int
 zknox_pk_epervier(unsigned char *pk)
 {
-	// Additional NTT for epervier
+	// zknox_crypto_sign_keypair() already outputs h in NTT representation
+	// (not Montgomery), which is the form epervier works with: the key is
+	// only checked here, it must not be transformed a second time.
 	// Hash is not computed here
 	TEMPALLOC uint16_t h[512];
-	size_t v;
 
 	// Decode h
 	 if (pk[0] != 0x00 + 9) {
@@ -41,19 +42,6 @@ zknox_pk_epervier(unsigned char *pk)
 		return -1;
 	}
 
-	// NTT not in montgomery representation
-	Zf(to_ntt)(h, 9);
-
-	/*
-	 * Re-encode public key.
-	 */
-	pk[0] = 0x00 + 9;
-	v = Zf(modq_encode16)(pk + 1, ZKNOX_CRYPTO_PUBLICKEYBYTES - 1, h, 9);
-	
-	if (v != ZKNOX_CRYPTO_PUBLICKEYBYTES - 1) {
-		return -1;
-	}
-
 	return 0;
 }
 
-- 
2.43.0


From 5cb6e43834bc3df42446e5780c026da1cd7aee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 05/37] fix: zknox_crypto_sign_open_epervier checks the
 signature length

Shorter declared lengths made it read past the end of the bundle, longer
ones let trailing bytes through.
---
 falcon/nistfalcon/src/epervier16.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index e4691c1..303665d 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -216,7 +216,8 @@ zknox_crypto_sign_open_epervier(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9 || esig[1025] != 0x20 + 9) {
+	// header, s1, header, s2, hint
+	if (sig_len != 2 * (1 + 1024) + 2 || esig[0] != 0x20 + 9 || esig[1025] != 0x20 + 9) {
 		return -1;
 	}
 
-- 
2.43.0


From 6cfa2d6f086aa40b72eed0c65ec58d8cd4b3fb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 06/37] fix: zknox_crypto_sign_open_epervier checks the hint

Any two bytes were accepted as hint: altered bundles, which the contract
rejects, still opened.
---
 falcon/nistfalcon/src/epervier16.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 303665d..4baa4b8 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -176,8 +176,8 @@ zknox_crypto_sign_open_epervier(unsigned char *m, unsigned long long *mlen,
 	const unsigned char *sm, unsigned long long smlen,
 	const unsigned char *pk)
 {
-	// NB: this function does not utilize the hint.
-	// The hint is useful for the Solidity version.
+	// NB: the hint is useful for the Solidity version. Here it is only
+	// checked, so that a bundle opens only if the contract accepts it.
 	TEMPALLOC union {
 		uint8_t b[2 * 512];
 		uint64_t dummy_u64;
@@ -243,6 +243,10 @@ zknox_crypto_sign_open_epervier(unsigned char *m, unsigned long long *mlen,
 	if (!Zf(verify_recover_epervier)(h2, hm, s1, s2, 9, tmp.b)) {
 		return -1;
 	}
+	// s2 is invertible: the hint must be the one the contract accepts.
+	if ((((unsigned)esig[2050] << 8) | esig[2051]) != Zf(hint_epervier)(s2, 9)) {
+		return -1;
+	}
 	// We check that the recovered public key matches with the input pk.
 	// In epervier, we would implement pk = H(NTT(h)) in order to have a smaller pk.
 	// Zf(to_ntt_monty)(h2, 9);
-- 
2.43.0


From e875e9d44e3d129ace0d6da5ea5b16d4774c0e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 07/37] fix: prng_get_bytes continues the stream where the last
 request ended

It always copied from the start of the buffer, so that several requests from
one buffer returned the same bytes.
---
 falcon/nistfalcon/src/rng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/rng.c b/falcon/nistfalcon/src/rng.c
index dd03a22..16586a1 100644
--- a/falcon/nistfalcon/src/rng.c
+++ b/falcon/nistfalcon/src/rng.c
@@ -179,7 +179,7 @@ Zf(prng_get_bytes)(prng *p, void *dst, size_t len)
 		if (clen > len) {
 			clen = len;
 		}
-		memcpy(buf, p->buf.d, clen);
+		memcpy(buf, p->buf.d + p->ptr, clen);
 		buf += clen;
 		len -= clen;
 		p->ptr += clen;
-- 
2.43.0


From cfb4abfc68183dba61d5a8795b74efc91703cfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 08/37] fix: Python ChaCha20 generator follows the reference
 code at the end of a buffer

With exactly 9 bytes left, a 9-byte request used them where the C generator
refills; requests above 512 bytes were cut to 512; the 64-bit counter did not
wrap.
---
 pythonref/rng.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pythonref/rng.py b/pythonref/rng.py
index 88655b7..67397a5 100644
--- a/pythonref/rng.py
+++ b/pythonref/rng.py
@@ -96,7 +96,7 @@ class ChaCha20:
             self.qround(3, 4, 9, 14)
         for i in range(16):
             self.state[i] = (self.state[i] + state[i]) & 0xffffffff
-        self.ctr += 1
+        self.ctr = (self.ctr + 1) & 0xffffffffffffffff
         return self.state
 
     def block_update(self):
@@ -113,8 +113,13 @@ class ChaCha20:
         Generate random bytes.
         Perform some shenanigans to match the reference code PRG.
         """
-        if (2 * k > len(self.hexbytes)):
+        # Like prng_get_u64() of the reference code, a request of 8 bytes or more
+        # drops the end of the buffer unless more than 9 bytes are left.
+        need = max(k, 10) if k >= 8 else k
+        if (2 * need > len(self.hexbytes)):
             self.hexbytes = self.block_update()
+        while (2 * k > len(self.hexbytes)):
+            self.hexbytes += self.block_update()
         out = self.hexbytes[:(2 * k)]
         out = "".join(out[i:i + 2] for i in range(2 * k - 2, -1, -2))
         self.hexbytes = self.hexbytes[(2 * k):]
-- 
2.43.0


From d6ef74dea6b3cde1862c26fc6807b4994f83a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 09/37] fix: Python decompress refuses truncated and over-long
 encodings instead of raising or ignoring bits

---
 pythonref/encoding.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pythonref/encoding.py b/pythonref/encoding.py
index d5c7b9e..ce71fe1 100755
--- a/pythonref/encoding.py
+++ b/pythonref/encoding.py
@@ -48,8 +48,7 @@ def decompress(x, slen, n):
     v = []
 
     # Remove the last bits
-    while u[-1] == "0":
-        u = u[:-1]
+    u = u.rstrip("0")
 
     try:
         while (u != "") and (len(v) < n):
@@ -70,12 +69,14 @@ def decompress(x, slen, n):
             # Store intermediate results
             v += [coef]
             u = u[i + 1:]
-        # In this case, the encoding is invalid
-        if (len(v) != n):
+        # In this case, the encoding is invalid: coefficients are missing, or
+        # something else than padding follows the last one
+        if (len(v) != n) or (u != ""):
             return False
         return v
-    # IndexError is raised if indices are read outside the table bounds
-    except IndexError:
+    # IndexError is raised if indices are read outside the table bounds,
+    # ValueError if the low bits are missing
+    except (IndexError, ValueError):
         return False
 
 def decode16(x:bytes, n: int, q=12289):
-- 
2.43.0


From d951e7ac67f7924d6743863d2dff560206c95842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 10/37] fix: Python verification refuses signatures with a
 wrong header

---
 pythonref/falcon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pythonref/falcon.py b/pythonref/falcon.py
index 1ba0871..da45d08 100755
--- a/pythonref/falcon.py
+++ b/pythonref/falcon.py
@@ -288,6 +288,10 @@ class PublicKey:
         """
         Verify a signature.
         """
+        # Check the header (0x20 is the NIST one, 0x30 the standalone one)
+        if len(signature) < HEAD_LEN or signature[0] not in (0x20 + logn[self.n], 0x30 + logn[self.n]):
+            print("Invalid header")
+            return False
         # Unpack the salt and the short polynomial s1
         salt = signature[HEAD_LEN:HEAD_LEN + SALT_LEN]
         enc_s = signature[HEAD_LEN + SALT_LEN:]
-- 
2.43.0


From 6c791fe72e2d6753bf69cb4bd54091fc9582a6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 11/37] fix: PublicKey.from_bytes accepts Falcon-1024 keys and
 ties the length to the header

---
 pythonref/falcon.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pythonref/falcon.py b/pythonref/falcon.py
index da45d08..1d64ffd 100755
--- a/pythonref/falcon.py
+++ b/pythonref/falcon.py
@@ -240,14 +240,14 @@ class PublicKey:
 
         Format:
         - 1 byte header: 0x09 or 0x0A (for falcon-1024)
-        - 896 bytes: 512 coefficients, each 14 bits
+        - 896 bytes: 512 coefficients, each 14 bits (1792 bytes for falcon-1024)
 
         Returns:
         The corresponding PublicKey
         """
 
-        if len(pk_bytes) not in (897, 1792):
-            raise ValueError("Invalid public key length (must be 897 or 1792 bytes)")
+        if len(pk_bytes) not in (897, 1793):
+            raise ValueError("Invalid public key length (must be 897 or 1793 bytes)")
 
         # Check header
         if pk_bytes[0] == 0x09:
@@ -257,6 +257,9 @@ class PublicKey:
         else:
             raise ValueError("Invalid Falcon public key header")
 
+        if len(pk_bytes) != HEAD_LEN + (14 * n) // 8:
+            raise ValueError("Public key length does not match its header")
+
         data = pk_bytes[HEAD_LEN:]  # Remove header
 
         h = []
-- 
2.43.0


From bcb4ca9b6f874687d5fc75aa22a2277484bd7f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 12/37] fix: Python recovery modes refuse malformed lengths,
 headers and inverse coefficients

---
 pythonref/falcon_epervier.py | 6 ++++++
 pythonref/falcon_recovery.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pythonref/falcon_epervier.py b/pythonref/falcon_epervier.py
index c0d8ae1..e37f8b5 100644
--- a/pythonref/falcon_epervier.py
+++ b/pythonref/falcon_epervier.py
@@ -25,6 +25,10 @@ class EpervierPublicKey:
         """
         Recover a public key.
         """
+        # Check the header and the length
+        if len(signature) != self.sig_bytelen * 2 + self.n * 3 or signature[0] != 0x30 + logn[self.n]:
+            print("Invalid encoding")
+            return False
         # Unpack the salt and the short polynomial s1
         salt = signature[HEAD_LEN:HEAD_LEN + SALT_LEN]
         enc_s = signature[HEAD_LEN+SALT_LEN:-self.n*3]
@@ -41,6 +45,8 @@ class EpervierPublicKey:
         byte_s_1_inv_ntt = signature[-self.n*3:]
         s_1_inv_ntt = [int.from_bytes(byte_s_1_inv_ntt[i:i+3], 'big')
                        for i in range(0, len(byte_s_1_inv_ntt), 3)]
+        if any(elt >= q for elt in s_1_inv_ntt):
+            return False
         T = ntt(q)
         # check that s_1_inv_ntt * s_1_ntt == [1, ... , 1]
         mul_s1_s1inv = T.vec_mul(s_1_inv_ntt, s_1_ntt)
diff --git a/pythonref/falcon_recovery.py b/pythonref/falcon_recovery.py
index fcb47e4..4a3996c 100644
--- a/pythonref/falcon_recovery.py
+++ b/pythonref/falcon_recovery.py
@@ -25,6 +25,10 @@ class RecoveryModePublicKey:
         """
         Verify a signature.
         """
+        # Check the header and the length
+        if len(signature) != self.sig_bytelen * 2 + self.n * 3 or signature[0] != 0x30 + logn[self.n]:
+            print("Invalid encoding")
+            return False
         # Unpack the salt and the short polynomial s1
         salt = signature[HEAD_LEN:HEAD_LEN + SALT_LEN]
         enc_s = signature[HEAD_LEN+SALT_LEN: -self.n*3]
@@ -41,6 +45,8 @@ class RecoveryModePublicKey:
         byte_s_1_inv_ntt = signature[-self.n*3:]
         s_1_inv_ntt = [int.from_bytes(byte_s_1_inv_ntt[i:i+3], 'big')
                        for i in range(0, len(byte_s_1_inv_ntt), 3)]
+        if any(elt >= q for elt in s_1_inv_ntt):
+            return False
         T = ntt(q)
         s_1_ntt = T.ntt(s1)
         # check that s_1_inv_ntt * s_1_ntt == [1, ... , 1]
-- 
2.43.0


From 6e01e76e3b57c94978402891ad84c2d8e532a0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 13/37] fix: KeccaXOF.read returns the requested number of
 bytes

---
 pythonref/keccaxof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonref/keccaxof.py b/pythonref/keccaxof.py
index c49c81c..2d36fee 100755
--- a/pythonref/keccaxof.py
+++ b/pythonref/keccaxof.py
@@ -34,7 +34,7 @@ class KeccaXOF:
 
         buff = self.tmp[:to_slice]
         self.tmp = self.tmp[to_slice:]
-        return int(buff, 16).to_bytes(2, 'big')
+        return b''.fromhex(buff)
 
     def flip(self):
         return
-- 
2.43.0


From 7f6a08012ddd638fc28e964c3cbea5dd1dc1643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 14/37] fix: command line signing derives its randomness from
 the secret key and the whole message

---
 pythonref/sign_cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index 819887d..68f4421 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -122,10 +122,13 @@ def signature(sk, data, version):
     # separator
     deterministic_bytes.update(bytes([0x00]))
     # secret key encoded
-    deterministic_bytes.update(b''.join(x.to_bytes(2, 'big') for x in sk.h))
+    for poly in [sk.f, sk.g, sk.F, sk.G]:
+        deterministic_bytes.update(
+            b''.join((x % q).to_bytes(2, 'big') for x in poly))
     # data TODO consider h(M) instead here.
     # if H does not output 32 bytes, change V above.
     deterministic_bytes.update(data)
+    deterministic_bytes.flip()
 
     return sk.sign(
         data,
-- 
2.43.0


From 6c46d35e58fdfb7d97e2bff498a2105ddbdae560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 15/37] fix: command line sign_tx uses the key's version and
 prints the signed transaction

---
 pythonref/sign_cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index 68f4421..87e917c 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -388,9 +388,9 @@ def cli():
         print(tx_hash)
         [sk, version] = load_sk(args.privkey)
         pk = PublicKey(512, sk.h)
-        sig = signature(sk, tx_hash, args.version)
-        assert (verify_signature(pk, tx_hash, sig))
-        print_signature_transaction(sig, pk, tx_hash, version)
+        sig = signature(sk, tx_hash, version)
+        assert (verify_signature(pk, tx_hash, sig, version))
+        print_signature_transaction(sig, pk, tx_hash)
 
     elif args.action == "verify":
         if not args.data or not args.pubkey or not args.signature:
-- 
2.43.0


From a38caf815cfe6b09d30338752bc1d793131370fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 16/37] fix: command line verification handles falconrec keys

---
 pythonref/sign_cli.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index 87e917c..ca2c36a 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -171,10 +171,8 @@ def print_signature_transaction(sig, pk, tx_hash):
 def verify_signature(pk, data, sig, version):
     if version == 'falcon' or version == 'epervier':
         XOF = SHAKE
-    elif version == 'ethfalcon':
-        XOF = KeccakPRNG
     else:
-        print('NOT IMPLEMENTED YET')
+        XOF = KeccakPRNG
     return pk.verify(data, sig, xof=XOF)
 
 
-- 
2.43.0


From 206ed5345d12477d35a2d44c7b38ecfc23dea5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 17/37] fix: on-chain recovery calls carry all the arguments of
 the contract

---
 pythonref/sign_cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index ca2c36a..ebb5793 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -200,7 +200,7 @@ def recover_on_chain(data, sig, contract_address, rpc, version):
 
     command = [
         "cast", "call", contract_address,
-        "recover(bytes,bytes,uint256[],uint256[],uint256,)", MSG, SALT, S1, S2, HINT, "--rpc-url", rpc
+        "recover(bytes,bytes,uint256[],uint256[],uint256)", MSG, SALT, S1, S2, HINT, "--rpc-url", rpc
     ]
 
     result = subprocess.run(
@@ -270,11 +270,12 @@ def recover_on_chain_with_transaction(data, sig, contract_address, rpc, private_
         hint = (hint * elt) % q
     HINT = str(hint)
 
-    command = "cast send --private-key {} {} \"recover(bytes,bytes,uint256[],uint256[], uint256)\" {} {} \"{}\" \"{}\" \"{}\" --rpc-url {}".format(
+    command = "cast send --private-key {} {} \"recover(bytes,bytes,uint256[],uint256[],uint256)\" {} {} \"{}\" \"{}\" \"{}\" --rpc-url {}".format(
         private_key,
         contract_address,
         MSG,
         SALT,
+        S1,
         S2,
         HINT,
         rpc
-- 
2.43.0


From 8a103339cb6c646e1435e7bb05f13e404a0e64d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 18/37] fix: decode_secret_key_nist refuses trailing bytes

---
 pythonref/scripts/generate_kat_rsp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pythonref/scripts/generate_kat_rsp.py b/pythonref/scripts/generate_kat_rsp.py
index 67408ea..edf7e34 100755
--- a/pythonref/scripts/generate_kat_rsp.py
+++ b/pythonref/scripts/generate_kat_rsp.py
@@ -154,6 +154,9 @@ def decode_secret_key_nist(sk_hex, n=512):
     F = trim_i8_decode(sk_bytes[offset:offset + FG_len], n, FG_bits)
     offset += FG_len
 
+    if offset != len(sk_bytes):
+        raise ValueError(f"Invalid secret key length: expected {offset}, got {len(sk_bytes)}")
+
     # Compute G from f, g, F
     G = complete_private(f, g, F, n)
 
-- 
2.43.0


From da9b063e4e16b692d5ef76f9e9995750f46e4305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:35 +0000
Subject: [PATCH 19/37] fix: on-chain verification counts every coefficient of
 s1 and s2 in the norm

---
 src/ZKNOX_falcon_core.sol | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index b5f0f29..cf84b7b 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -59,7 +59,7 @@ function falcon_normalize(
 
     // OPTIMIZATION: Added memory-safe annotation, use lt instead of gt for clarity
     assembly ("memory-safe") {
-        for { let offset := 32 } lt(offset, 16384) { offset := add(offset, 32) } {
+        for { let offset := 32 } lt(offset, 16416) { offset := add(offset, 32) } {
             let s1i := addmod(mload(add(hashed, offset)), sub(q, mload(add(s1, offset))), q) //s1[i] = addmod(hashed[i], q - s1[i], q);
             let cond := gt(s1i, qs1) //s1[i] > qs1 ?
             s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
@@ -78,7 +78,7 @@ function falcon_normalize(
             }
         }
 
-        for { let offset := add(s1, 32) } lt(offset, 16384) { offset := add(offset, 32) } {
+        for { let offset := add(s1, 32) } lt(offset, add(s1, 16416)) { offset := add(offset, 32) } {
             let s1i := mload(offset) //s1[i]
             let cond := gt(s1i, qs1) //s1[i] > qs1 ?
             s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
-- 
2.43.0


From c67336be161eb2607ab9a2131384efd539cb68aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:50 +0000
Subject: [PATCH 20/37] fix: on-chain verification uses the same inclusive norm
 bound as off chain

---
 src/ZKNOX_falcon_core.sol | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index cf84b7b..0dfa45f 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -42,7 +42,7 @@ function falcon_checkPolynomialRange(uint256[] memory polynomial, bool is_compac
 ///      1. Computes s1 = h - s1 (mod q) where h is hash-to-point result
 ///      2. Normalizes both s1 and s2 to centered representatives (-q/2, q/2]
 ///      3. Computes squared L2 norm: ||s1||² + ||s2||²
-///      4. Verifies norm² < sigBound = 34034726
+///      4. Verifies norm² <= sigBound = 34034726
 /// @param s1 First signature component (will be overwritten with h - s1)
 /// @param s2 Second signature component in compacted format (32 words)
 /// @param hashed Hash-to-point result (512 coefficients)
@@ -85,7 +85,7 @@ function falcon_normalize(
             norm := add(norm, mul(s1i, s1i))
         }
 
-        result := gt(sigBound, norm) //norm < SigBound ?
+        result := iszero(gt(norm, sigBound)) //norm <= SigBound ?
     }
 
     return result;
@@ -94,7 +94,7 @@ function falcon_normalize(
 /// @notice Core Falcon-512 verification algorithm with compacted input
 /// @dev Implements the Falcon signature verification equation:
 ///      1. Computes s1 = h - h·s2 (in NTT domain) where h is the public key
-///      2. Verifies ||s1||² + ||s2||² < sigBound
+///      2. Verifies ||s1||² + ||s2||² <= sigBound
 /// @dev Uses compacted polynomial representation for gas efficiency
 /// @param s2 Second signature component (32 uint256 words, compacted)
 /// @param ntth Public key in NTT domain (32 uint256 words, compacted)
-- 
2.43.0


From 6c3ed8143cd6f9b2bbc176452d6dd294e41e1ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 21/37] fix: on-chain verification refuses coefficients of s2
 that are not canonical

---
 src/ZKNOX_falcon_core.sol | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index 0dfa45f..ab8daa8 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -41,7 +41,7 @@ function falcon_checkPolynomialRange(uint256[] memory polynomial, bool is_compac
 /// @dev Core of Falcon verification algorithm:
 ///      1. Computes s1 = h - s1 (mod q) where h is hash-to-point result
 ///      2. Normalizes both s1 and s2 to centered representatives (-q/2, q/2]
-///      3. Computes squared L2 norm: ||s1||² + ||s2||²
+///      3. Computes squared L2 norm: ||s1||² + ||s2||², any coefficient of s2 >= q is refused
 ///      4. Verifies norm² <= sigBound = 34034726
 /// @param s1 First signature component (will be overwritten with h - s1)
 /// @param s2 Second signature component in compacted format (32 words)
@@ -80,6 +80,10 @@ function falcon_normalize(
 
         for { let offset := add(s1, 32) } lt(offset, add(s1, 16416)) { offset := add(offset, 32) } {
             let s1i := mload(offset) //s1[i]
+            if iszero(lt(s1i, q)) {
+                norm := not(0) //a coefficient of s2 must be canonical: x and x+q are not both a signature
+                break
+            }
             let cond := gt(s1i, qs1) //s1[i] > qs1 ?
             s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
             norm := add(norm, mul(s1i, s1i))
-- 
2.43.0


From 27ba188ac170206d8cd598ebb69b711efb7134ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 22/37] fix: on-chain recovery counts every coefficient of s1
 and s2 in the norm

---
 src/ZKNOX_epervier.sol    | 2 +-
 src/ZKNOX_ethepervier.sol | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ZKNOX_epervier.sol b/src/ZKNOX_epervier.sol
index e5ba946..d1e211d 100644
--- a/src/ZKNOX_epervier.sol
+++ b/src/ZKNOX_epervier.sol
@@ -48,7 +48,7 @@ contract ZKNOX_epervier {
 
         assembly {
             //normalization
-            for { let offset := 32 } gt(16384, offset) { offset := add(offset, 32) } {
+            for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 let s1i := mload(add(s1, offset))
 
                 let cond := gt(s1i, qs1) //s1[i] > qs1 ?
diff --git a/src/ZKNOX_ethepervier.sol b/src/ZKNOX_ethepervier.sol
index 8ec7b55..895a255 100644
--- a/src/ZKNOX_ethepervier.sol
+++ b/src/ZKNOX_ethepervier.sol
@@ -47,7 +47,7 @@ contract ZKNOX_ethepervier {
 
         assembly {
             //normalization
-            for { let offset := 32 } gt(16384, offset) { offset := add(offset, 32) } {
+            for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 let s1i := mload(add(s1, offset))
 
                 let cond := gt(s1i, qs1) //s1[i] > qs1 ?
-- 
2.43.0


From 8e8ebcafdd4f2d55d16bffd78ce3b3bbebdc9e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:54 +0000
Subject: [PATCH 23/37] fix: on-chain recovery refuses coefficients that are
 not canonical

---
 src/ZKNOX_epervier.sol    | 8 +++++++-
 src/ZKNOX_ethepervier.sol | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ZKNOX_epervier.sol b/src/ZKNOX_epervier.sol
index d1e211d..2d5dff7 100644
--- a/src/ZKNOX_epervier.sol
+++ b/src/ZKNOX_epervier.sol
@@ -50,12 +50,18 @@ contract ZKNOX_epervier {
             //normalization
             for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 let s1i := mload(add(s1, offset))
+                let s2i := mload(add(s2, offset))
+
+                //coefficients must be canonical: q - x is computed below for each of them
+                if iszero(and(lt(s1i, q), lt(s2i, q))) {
+                    norm := not(0)
+                    break
+                }
 
                 let cond := gt(s1i, qs1) //s1[i] > qs1 ?
                 s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
                 norm := add(norm, mul(s1i, s1i))
 
-                let s2i := mload(add(s2, offset))
                 let cond2 := gt(s2i, qs1) //s1[i] > qs1 ?
                 s2i := add(mul(cond2, sub(q, s2i)), mul(sub(1, cond2), s2i))
                 norm := add(norm, mul(s2i, s2i))
diff --git a/src/ZKNOX_ethepervier.sol b/src/ZKNOX_ethepervier.sol
index 895a255..97326f3 100644
--- a/src/ZKNOX_ethepervier.sol
+++ b/src/ZKNOX_ethepervier.sol
@@ -49,12 +49,18 @@ contract ZKNOX_ethepervier {
             //normalization
             for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 let s1i := mload(add(s1, offset))
+                let s2i := mload(add(s2, offset))
+
+                //coefficients must be canonical: q - x is computed below for each of them
+                if iszero(and(lt(s1i, q), lt(s2i, q))) {
+                    norm := not(0)
+                    break
+                }
 
                 let cond := gt(s1i, qs1) //s1[i] > qs1 ?
                 s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
                 norm := add(norm, mul(s1i, s1i))
 
-                let s2i := mload(add(s2, offset))
                 let cond2 := gt(s2i, qs1) //s1[i] > qs1 ?
                 s2i := add(mul(cond2, sub(q, s2i)), mul(sub(1, cond2), s2i))
                 norm := add(norm, mul(s2i, s2i))
-- 
2.43.0


From b0dabccda94df271976a9797a6d13f5031891c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:53 +0000
Subject: [PATCH 24/37] fix: on-chain signature decoding refuses -0

---
 src/ZKNOX_falcon_encodings.sol | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ZKNOX_falcon_encodings.sol b/src/ZKNOX_falcon_encodings.sol
index 8a8c924..f6ab251 100644
--- a/src/ZKNOX_falcon_encodings.sol
+++ b/src/ZKNOX_falcon_encodings.sol
@@ -64,9 +64,9 @@ function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256
         /*
         * "-0" is forbidden.
         */
-        //	if ( ((s==0) && (m==0)) ) {//TODO: replace
-        //		revert("incorrect zero encoding");
-        //	}
+        if (s != 0 && m == 0) {
+            revert("incorrect zero encoding");
+        }
 
         assembly {
             let temp := m // x[u] = m;
-- 
2.43.0


From 21ad27f84823e3d59a0fb93b8f4a139f3c1e315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:53 +0000
Subject: [PATCH 25/37] fix: on-chain signature decoding refuses non-zero
 padding bits

---
 src/ZKNOX_falcon_encodings.sol | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ZKNOX_falcon_encodings.sol b/src/ZKNOX_falcon_encodings.sol
index f6ab251..3754b42 100644
--- a/src/ZKNOX_falcon_encodings.sol
+++ b/src/ZKNOX_falcon_encodings.sol
@@ -78,6 +78,13 @@ function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256
         }
     } //end loop u
 
+    /*
+    * Unused bits in the last byte must be zero.
+    */
+    if ((acc & ((1 << acc_len) - 1)) != 0) {
+        revert("non-zero padding");
+    }
+
     //console.log("last read sig:",uint8(buf[v]));
     if ((v - offset) >= max_in_len) {
         revert("too long");
-- 
2.43.0


From ce4eee5e8227cdcdb2443f6cbfff4fd226cc30a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 26/37] fix: on-chain decoding refuses bundles and keys whose
 lengths do not match their content

---
 src/ZKNOX_falcon_encodings.sol | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/ZKNOX_falcon_encodings.sol b/src/ZKNOX_falcon_encodings.sol
index 3754b42..79b5347 100644
--- a/src/ZKNOX_falcon_encodings.sol
+++ b/src/ZKNOX_falcon_encodings.sol
@@ -14,12 +14,17 @@ uint256 constant max_in_len = 666;
 //decompress signature starting from offset in buf
 //compared to _ZKNOX_NTT_Decompress, extra testing conditions are set if norm gonna blow
 //because of a too high coefficient
-function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256[] memory) {
-    uint256[] memory x = new uint256[](512);
+function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256[] memory x) {
+    (x,) = _decompress_sig_end(buf, offset);
+}
+
+//same as _decompress_sig, also returns the position following the last byte read
+function _decompress_sig_end(bytes memory buf, uint256 offset) pure returns (uint256[] memory x, uint256 v) {
+    x = new uint256[](512);
 
     uint32 acc = 0;
     uint256 acc_len = 0;
-    uint256 v = offset;
+    v = offset;
 
     for (uint256 u = 0; u < n; u++) {
         uint256 s;
@@ -90,7 +95,11 @@ function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256
         revert("too long");
     }
 
-    return x;
+    if (v > buf.length) {
+        revert("too short");
+    }
+
+    return (x, v);
 }
 
 /*
@@ -108,9 +117,16 @@ function decompress_KAT(bytes memory pk, bytes memory sm, uint256 mlen)
 {
     uint256 slen = (uint256(uint8(sm[0])) << 8) + uint256(uint8(sm[1]));
 
+    if (sm.length != 2 + 40 + mlen + slen) {
+        revert("wrong signature length");
+    }
+
     /*
     * Decode public key.
     */
+    if (pk.length != 897) {
+        revert("wrong public key length");
+    }
     if (pk[0] != 0x09) {
         revert("wrong public key encoding");
     }
@@ -131,7 +147,11 @@ function decompress_KAT(bytes memory pk, bytes memory sm, uint256 mlen)
         revert("wrong header sigbytes");
     }
 
-    s2 = _decompress_sig(sm, 2 + 40 + mlen + 1);
+    uint256 end;
+    (s2, end) = _decompress_sig_end(sm, 2 + 40 + mlen + 1);
+    if (end != sm.length) {
+        revert("wrong signature length");
+    }
 
     return (h, s2, salt, message);
 }
-- 
2.43.0


From f053fe4a4b346dbdbd6ed16742acaee2aa417aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 27/37] fix: range check expands the polynomial exactly when it
 is compacted

---
 src/ZKNOX_falcon_core.sol | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index ab8daa8..11e3e9e 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -16,7 +16,7 @@ import "./ZKNOX_NTT_falcon.sol";
 /// @return true if all coefficients are valid (< q), false otherwise
 function falcon_checkPolynomialRange(uint256[] memory polynomial, bool is_compact) pure returns (bool) {
     uint256[] memory a;
-    if (is_compact == false) {
+    if (is_compact) {
         a = _ZKNOX_NTT_Expand(polynomial);
     } else {
         a = polynomial;
-- 
2.43.0


From 9c00e37d25cf59d68416f0a09d4d86f55db791bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 28/37] fix: range check refuses coefficients equal to q

---
 src/ZKNOX_falcon_core.sol | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index 11e3e9e..59332e3 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -28,7 +28,7 @@ function falcon_checkPolynomialRange(uint256[] memory polynomial, bool is_compac
         let ptr := add(a, 32)
         let endPtr := add(ptr, shl(5, len)) // len * 32
         for {} lt(ptr, endPtr) { ptr := add(ptr, 32) } {
-            if gt(mload(ptr), q) {
+            if iszero(lt(mload(ptr), q)) {
                 result := 0
                 ptr := endPtr // break
             }
-- 
2.43.0


From d515e36d6049773bc9fb2f74a95fb9359d0d6785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 29/37] fix: NTT contract parameters cannot be updated after
 make_immutable

---
 src/ZKNOX_NTT.sol | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ZKNOX_NTT.sol b/src/ZKNOX_NTT.sol
index 2c22f3c..3260a64 100644
--- a/src/ZKNOX_NTT.sol
+++ b/src/ZKNOX_NTT.sol
@@ -64,11 +64,11 @@ contract ZKNOX_NTT {
 
         o_psirev = Apsi_rev;
         o_psi_inv_rev = Apsi_inrev;
-        is_immutable = 1;
+        is_immutable = 0;
     }
 
     function update(address Apsi_rev, address Apsi_inrev, uint256 q, uint256 nm1modq) public {
-        if (is_immutable > 0) {
+        if (is_immutable == 0) {
             storage_q = q; //prime field modulus
             storage_nm1modq = nm1modq; //n^-1 mod 12289, used in inverse NTT
 
-- 
2.43.0


From 5b01ca2f81c30065c3915b0c07001f6b2345a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 30/37] fix: byte-string verification refuses signatures and
 key handles of a wrong length

---
 src/ZKNOX_ethfalcon.sol | 8 ++++++++
 src/ZKNOX_falcon.sol    | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/ZKNOX_ethfalcon.sol b/src/ZKNOX_ethfalcon.sol
index b9eb64f..3c62312 100644
--- a/src/ZKNOX_ethfalcon.sol
+++ b/src/ZKNOX_ethfalcon.sol
@@ -77,6 +77,14 @@ contract ZKNOX_ethfalcon is ISigVerifier {
     }
 
     function verify(bytes calldata _pubkey, bytes32 _digest, bytes calldata _sig) external view returns (bytes4) {
+        if (_pubkey.length != 20) {
+            revert("invalid pubkey length");
+        }
+        // 40 bytes of salt followed by the 32 words of s2
+        if (_sig.length != SALT_LEN + 32 * falcon_S256) {
+            revert("invalid signature length");
+        }
+
         address pkContractAddress;
         assembly {
             pkContractAddress := shr(96, calldataload(_pubkey.offset))
diff --git a/src/ZKNOX_falcon.sol b/src/ZKNOX_falcon.sol
index c1f4635..4f8ef9f 100644
--- a/src/ZKNOX_falcon.sol
+++ b/src/ZKNOX_falcon.sol
@@ -79,6 +79,14 @@ contract ZKNOX_falcon is ISigVerifier {
     }
 
     function verify(bytes calldata _pubkey, bytes32 _digest, bytes calldata _sig) external view returns (bytes4) {
+        if (_pubkey.length != 20) {
+            revert("invalid pubkey length");
+        }
+        // 40 bytes of salt followed by the 32 words of s2
+        if (_sig.length != SALT_LEN + 32 * falcon_S256) {
+            revert("invalid signature length");
+        }
+
         address pkContractAddress;
         assembly {
             pkContractAddress := shr(96, calldataload(_pubkey.offset))
-- 
2.43.0


From 7e6b94a865abe53934e0c6f15c7c302adaf70341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 31/37] fix: Go binding returns an error for keys of a wrong
 length and accepts empty messages

---
 falcon/falcon.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/falcon/falcon.go b/falcon/falcon.go
index 0a11476..302c75f 100644
--- a/falcon/falcon.go
+++ b/falcon/falcon.go
@@ -24,6 +24,14 @@ const (
 	SignatureSize  = 1330 // Falcon signature size
 )
 
+// ptr returns the address of the first byte of b, of a dummy byte when b is empty
+func ptr(b []byte) *C.uchar {
+	if len(b) == 0 {
+		b = make([]byte, 1)
+	}
+	return (*C.uchar)(unsafe.Pointer(&b[0]))
+}
+
 // GenerateKeypair generates a public/private keypair
 func GenerateKeypair() ([]byte, []byte, error) {
 	var pk [PublicKeySize]C.uchar
@@ -42,10 +50,14 @@ func GenerateKeypair() ([]byte, []byte, error) {
 
 // SignMessage signs a message using the private key
 func SignMessage(message []byte, sk []byte) ([]byte, error) {
+	if len(sk) != SecretKeySize {
+		return nil, fmt.Errorf("invalid secret key length: %d", len(sk))
+	}
+
 	var sm [SignatureSize]C.uchar
 	var smlen C.ulonglong
 
-	ret := C.crypto_sign(&sm[0], &smlen, (*C.uchar)(unsafe.Pointer(&message[0])), C.ulonglong(len(message)), (*C.uchar)(unsafe.Pointer(&sk[0])))
+	ret := C.crypto_sign(&sm[0], &smlen, ptr(message), C.ulonglong(len(message)), ptr(sk))
 	if ret != 0 {
 		return nil, fmt.Errorf("signing failed: %d", int(ret))
 	}
@@ -57,10 +69,14 @@ func SignMessage(message []byte, sk []byte) ([]byte, error) {
 
 // VerifySignature verifies a signature for a given message and public key
 func VerifySignature(signature []byte, message []byte, pk []byte) (bool, error) {
+	if len(pk) != PublicKeySize {
+		return false, fmt.Errorf("invalid public key length: %d", len(pk))
+	}
+
 	var m [1024]C.uchar // Buffer for the recovered message
 	var mlen C.ulonglong
 
-	ret := C.crypto_sign_open(&m[0], &mlen, (*C.uchar)(unsafe.Pointer(&signature[0])), C.ulonglong(len(signature)), (*C.uchar)(unsafe.Pointer(&pk[0])))
+	ret := C.crypto_sign_open(&m[0], &mlen, ptr(signature), C.ulonglong(len(signature)), ptr(pk))
 	if ret != 0 {
 		return false, fmt.Errorf("verification failed: %d", int(ret))
 	}
-- 
2.43.0


From e3924627e0953c06f575b1853503b324ca3243f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 32/37] fix: Go binding sizes its buffers from the message,
 long messages overflowed them

---
 falcon/falcon.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/falcon/falcon.go b/falcon/falcon.go
index 302c75f..4253183 100644
--- a/falcon/falcon.go
+++ b/falcon/falcon.go
@@ -54,17 +54,15 @@ func SignMessage(message []byte, sk []byte) ([]byte, error) {
 		return nil, fmt.Errorf("invalid secret key length: %d", len(sk))
 	}
 
-	var sm [SignatureSize]C.uchar
+	sm := make([]byte, len(message)+C.CRYPTO_BYTES) // signed message: the message and the signature
 	var smlen C.ulonglong
 
-	ret := C.crypto_sign(&sm[0], &smlen, ptr(message), C.ulonglong(len(message)), ptr(sk))
+	ret := C.crypto_sign(ptr(sm), &smlen, ptr(message), C.ulonglong(len(message)), ptr(sk))
 	if ret != 0 {
 		return nil, fmt.Errorf("signing failed: %d", int(ret))
 	}
 
-	// Convert signature to Go byte slice
-	smBytes := C.GoBytes(unsafe.Pointer(&sm[0]), C.int(smlen))
-	return smBytes, nil
+	return sm[:smlen], nil
 }
 
 // VerifySignature verifies a signature for a given message and public key
@@ -73,19 +71,16 @@ func VerifySignature(signature []byte, message []byte, pk []byte) (bool, error)
 		return false, fmt.Errorf("invalid public key length: %d", len(pk))
 	}
 
-	var m [1024]C.uchar // Buffer for the recovered message
+	m := make([]byte, len(signature)) // Buffer for the recovered message
 	var mlen C.ulonglong
 
-	ret := C.crypto_sign_open(&m[0], &mlen, ptr(signature), C.ulonglong(len(signature)), ptr(pk))
+	ret := C.crypto_sign_open(ptr(m), &mlen, ptr(signature), C.ulonglong(len(signature)), ptr(pk))
 	if ret != 0 {
 		return false, fmt.Errorf("verification failed: %d", int(ret))
 	}
 
-	// Convert recovered message back to Go byte slice
-	recoveredMessage := C.GoBytes(unsafe.Pointer(&m[0]), C.int(mlen))
-
 	// Compare the recovered message with the original message
-	if string(recoveredMessage) == string(message) {
+	if string(m[:mlen]) == string(message) {
 		return true, nil
 	}
 	return false, nil
-- 
2.43.0


From da3f2be55a1ba105b7f738db4fee1efc254b9591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:48 +0000
Subject: [PATCH 33/37] fix: Go binding seeds the random generator, all
 processes generated the same keys

---
 falcon/falcon.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/falcon/falcon.go b/falcon/falcon.go
index 4253183..09b1293 100644
--- a/falcon/falcon.go
+++ b/falcon/falcon.go
@@ -7,6 +7,7 @@ package falcon
 
 #include <stdlib.h>
 #include "api.h"
+#include "katrng.h"
 
 // Wrapper for crypto_sign_keypair, crypto_sign, crypto_sign_open
 
@@ -14,6 +15,7 @@ package falcon
 import "C"
 
 import (
+	"crypto/rand"
 	"fmt"
 	"unsafe"
 )
@@ -24,6 +26,15 @@ const (
 	SignatureSize  = 1330 // Falcon signature size
 )
 
+// The random generator of the library is deterministic until it is seeded
+func init() {
+	var entropy [48]byte
+	if _, err := rand.Read(entropy[:]); err != nil {
+		panic(err)
+	}
+	C.randombytes_init((*C.uchar)(unsafe.Pointer(&entropy[0])), nil, 256)
+}
+
 // ptr returns the address of the first byte of b, of a dummy byte when b is empty
 func ptr(b []byte) *C.uchar {
 	if len(b) == 0 {
-- 
2.43.0


From e59afbae62783e1926f2991ed4543f33356e8ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 34/37] fix: Go binding can be called from several goroutines,
 the random generator was shared without a lock

---
 falcon/falcon.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/falcon/falcon.go b/falcon/falcon.go
index 09b1293..5bd3f47 100644
--- a/falcon/falcon.go
+++ b/falcon/falcon.go
@@ -17,6 +17,7 @@ import "C"
 import (
 	"crypto/rand"
 	"fmt"
+	"sync"
 	"unsafe"
 )
 
@@ -26,6 +27,9 @@ const (
 	SignatureSize  = 1330 // Falcon signature size
 )
 
+// The state of the random generator is shared by all calls
+var lock sync.Mutex
+
 // The random generator of the library is deterministic until it is seeded
 func init() {
 	var entropy [48]byte
@@ -48,6 +52,9 @@ func GenerateKeypair() ([]byte, []byte, error) {
 	var pk [PublicKeySize]C.uchar
 	var sk [SecretKeySize]C.uchar
 
+	lock.Lock()
+	defer lock.Unlock()
+
 	ret := C.crypto_sign_keypair(&pk[0], &sk[0])
 	if ret != 0 {
 		return nil, nil, fmt.Errorf("keypair generation failed: %d", int(ret))
@@ -68,6 +75,9 @@ func SignMessage(message []byte, sk []byte) ([]byte, error) {
 	sm := make([]byte, len(message)+C.CRYPTO_BYTES) // signed message: the message and the signature
 	var smlen C.ulonglong
 
+	lock.Lock()
+	defer lock.Unlock()
+
 	ret := C.crypto_sign(ptr(sm), &smlen, ptr(message), C.ulonglong(len(message)), ptr(sk))
 	if ret != 0 {
 		return nil, fmt.Errorf("signing failed: %d", int(ret))
-- 
2.43.0


From b16a6faa468f855dbf5f8d86f9b1807b6e06784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 35/37] fix: recursive verifier accepts signatures of squared
 norm equal to the bound

The acceptance rule of the other verifiers and of the reference is inclusive.
---
 external/ETHFalcon_Recursive.sol | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/external/ETHFalcon_Recursive.sol b/external/ETHFalcon_Recursive.sol
index 9a0f9d3..727bead 100644
--- a/external/ETHFalcon_Recursive.sol
+++ b/external/ETHFalcon_Recursive.sol
@@ -67,7 +67,7 @@ contract ETHFalcon {
             norm += s0[i] * s0[i];
             norm += s1[i] * s1[i];
         }
-        require(norm < sigBound, "Signature is invalid");
+        require(norm <= sigBound, "Signature is invalid");
         return (address(0));
     }
 
@@ -111,7 +111,7 @@ contract ETHFalcon {
             norm += s0[i] * s0[i];
             norm += s1[i] * s1[i];
         }
-        require(norm < sigBound, "Signature is invalid");
+        require(norm <= sigBound, "Signature is invalid");
         return (address(0));
     }
 
-- 
2.43.0


From 97583e8493c87174a31587b90c739b4141ba898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:31 +0000
Subject: [PATCH 36/37] fix: known-answer generator writes the signature length
 of the documented layout, without padding

---
 pythonref/scripts/generate_kat_rsp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonref/scripts/generate_kat_rsp.py b/pythonref/scripts/generate_kat_rsp.py
index edf7e34..808a2a8 100755
--- a/pythonref/scripts/generate_kat_rsp.py
+++ b/pythonref/scripts/generate_kat_rsp.py
@@ -227,11 +227,11 @@ def sign_message(sk, msg_hex, seed_hex):
     # Extract components from Python signature
     python_header = sig[0:1]  # First byte (e.g., 0x39)
     salt = sig[1:41]  # Bytes 1-40
-    compressed_sig = sig[41:]  # Rest is compressed signature
+    compressed_sig = sig[41:].rstrip(b'\0')  # Rest is compressed signature, without padding
 
     # Calculate signature length for Solidity format
-    # slen includes: salt(40) + message + solidity_header(1) + compressed_sig
-    slen = 40 + len(msg) + 1 + len(compressed_sig)
+    # slen includes: solidity_header(1) + compressed_sig
+    slen = 1 + len(compressed_sig)
 
     # Build Solidity-compatible format:
     # slen(2) + salt(40) + message(mlen) + solidity_header(1=0x29) + compressed_sig
-- 
2.43.0


From fbe42f2e4ce4e41044fe8086632de18520a1b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:24 +0000
Subject: [PATCH 37/37] fix: generated Solidity tests hold any message, also
 with quotes and line breaks

---
 pythonref/generate_epervier_test_vectors.py | 3 ++-
 pythonref/generate_falcon_test_vectors.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pythonref/generate_epervier_test_vectors.py b/pythonref/generate_epervier_test_vectors.py
index d7b694c..de3b2e7 100644
--- a/pythonref/generate_epervier_test_vectors.py
+++ b/pythonref/generate_epervier_test_vectors.py
@@ -101,7 +101,8 @@ for (XOF, hash_type) in [(KeccakPRNG, 'RIP'), (SHAKE, 'NIST')]:
         file.write("uint256 hint = {};\n".format(hint))
 
         file.write("// message\n")
-        file.write("bytes memory message  = \"{}\"; \n".format(message))
+        file.write("bytes memory message  = \"{}\"; \n".format(
+            "".join(f"\\x{b:02x}" for b in message.encode())))
         file.write("bytes memory salt = \"{}\"; \n".format(
             "".join(f"\\x{b:02x}" for b in salt)))
         file.write("address recovered_pk;\n")
diff --git a/pythonref/generate_falcon_test_vectors.py b/pythonref/generate_falcon_test_vectors.py
index a85a624..6889933 100644
--- a/pythonref/generate_falcon_test_vectors.py
+++ b/pythonref/generate_falcon_test_vectors.py
@@ -90,7 +90,7 @@ for (XOF, hash_type) in [(KeccakPRNG, 'RIP'), (SHAKE, 'NIST'), (Blake2sPRNG, 'ZK
         file.write("\ts2[i] = tmp_s2[i];\n")
         file.write("}\n")
 
-        file.write("// message = \"{}\"\n".format(message))
+        file.write("// message = {}\n".format(ascii(message)))
         file.write("bytes memory message  = \"{}\"; \n".format(
             "".join(f"\\x{b:02x}" for b in message.encode())))
         file.write("bytes memory salt = \"{}\"; \n".format(
-- 
2.43.0


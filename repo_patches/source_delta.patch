From 6180365ec874d8c745d258071f5a048f796cb35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:13 +0000
Subject: [PATCH 1/7] fix: SPHINCS+ crypto_sign reports a failure of
 crypto_sign_signature

---
 sphincs/sign.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sphincs/sign.c b/sphincs/sign.c
index e01b7fd..fe4f1bb 100644
--- a/sphincs/sign.c
+++ b/sphincs/sign.c
@@ -254,7 +254,9 @@ int PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign(uint8_t *sm, size_t *smlen,
                 const uint8_t *sk) {
     size_t siglen;
 
-    crypto_sign_signature(sm, &siglen, m, mlen, sk);
+    if (crypto_sign_signature(sm, &siglen, m, mlen, sk)) {
+        return -1;
+    }
 
     memmove(sm + SPX_BYTES, m, mlen);
     *smlen = siglen + mlen;
-- 
2.43.0


From 214afa6e0c5e9fe416f5373447388ed7bcfd55d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:13 +0000
Subject: [PATCH 2/7] fix: seed expander refuses missing pointers instead of
 dereferencing them

---
 hybrid-dilithium-sphincs/hybrid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hybrid-dilithium-sphincs/hybrid.c b/hybrid-dilithium-sphincs/hybrid.c
index 90d9c77..a421ac8 100644
--- a/hybrid-dilithium-sphincs/hybrid.c
+++ b/hybrid-dilithium-sphincs/hybrid.c
@@ -141,6 +141,10 @@ int crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(const unsigned c
 	uint8_t seedTemp[64] = { 0 };
 	uint8_t expandedSeedTemp[128] = { 0 };
 
+	if (seed == NULL || expandedSeed == NULL) {
+		return -1;
+	}
+
 	//Copy first 64 bytes of input-seed to temp-seed
 	for (int i = 0; i < 64; i++) {
 		seedTemp[i] = seed[i];
-- 
2.43.0


From 236047930a7a2d5ef68fbcd7f3d38bf397920292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:13 +0000
Subject: [PATCH 3/7] fix: /dev/urandom backend closes what it opened on its
 error paths

---
 random/randombytes.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index 504d663..d2cf16f 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -227,6 +227,9 @@ static int randombytes_linux_wait_for_entropy(int device)
 	} while (fd == -1 && errno == EINTR); /* EAGAIN will not occur */
 	if (fd == -1) {
 		/* Unrecoverable IO error */
+		if (strategy == PROC) {
+			fclose(proc_file);
+		}
 		return -1;
 	}
 
@@ -285,7 +288,10 @@ static int randombytes_linux_randombytes_urandom(void *buf, size_t n)
 	} while (fd == -1 && errno == EINTR);
 	if (fd == -1) return -1;
 # if defined(__linux__)
-	if (randombytes_linux_wait_for_entropy(fd) == -1) return -1;
+	if (randombytes_linux_wait_for_entropy(fd) == -1) {
+		close(fd);
+		return -1;
+	}
 # endif
 
 	while (n > 0) {
@@ -294,7 +300,10 @@ static int randombytes_linux_randombytes_urandom(void *buf, size_t n)
 		if (tmp == -1 && (errno == EAGAIN || errno == EINTR)) {
 			continue;
 		}
-		if (tmp == -1) return -1; /* Unrecoverable IO error */
+		if (tmp == -1) {
+			close(fd);
+			return -1; /* Unrecoverable IO error */
+		}
 		offset += tmp;
 		n -= tmp;
 	}
-- 
2.43.0


From 5ed11fe6cdb3af4ebba399d12951cf5766c54695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:13 +0000
Subject: [PATCH 4/7] fix: Ed25519 crypto_sign_open rejects a scalar not below
 the group order

---
 tweetnacl/tweetnacl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tweetnacl/tweetnacl.c b/tweetnacl/tweetnacl.c
index 92da8a8..1d57a5c 100644
--- a/tweetnacl/tweetnacl.c
+++ b/tweetnacl/tweetnacl.c
@@ -802,6 +802,10 @@ int crypto_sign_open(u8 *m,u64 *mlen,const u8 *sm,u64 n,const u8 *pk)
   *mlen = -1;
   if (n < 64) return -1;
 
+  /* RFC 8032: S must be below the group order L */
+  for (i = 31;i >= 0 && sm[32 + i] == L[i];--i);
+  if (i < 0 || sm[32 + i] > L[i]) return -1;
+
   if (unpackneg(q,pk)) return -1;
 
   FOR(i,n) m[i] = sm[i];
-- 
2.43.0


From fa710c8d2fce2123b5033ae1a0753da4597ff7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:16 +0000
Subject: [PATCH 5/7] fix: Windows random source fills requests above 4 GiB and
 releases its provider

BCryptGenRandom takes a 32-bit size, so a request of 2^32+k bytes was cut to
k bytes and reported as filled; ask in chunks. The provider handle of the
fallback was left open when CryptGenRandom failed.
---
 random/randombytes.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index d2cf16f..2aa3fd9 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -83,26 +83,32 @@
 static int randombytes_win32_randombytes(void* buf, size_t n)
 {
 	NTSTATUS    Status;
+	HCRYPTPROV ctx;
+	BOOL tmp;
+	DWORD to_read = 0;
+	const size_t MAX_DWORD = 0xFFFFFFFF;
 
 	memset(buf, 0, n);
 
-	Status = BCryptGenRandom(
-		NULL,                       // Alg Handle pointer; NUll is passed as BCRYPT_USE_SYSTEM_PREFERRED_RNG flag is used
-		buf,                     // Address of the buffer that recieves the random number(s)
-		n,                 // Size of the buffer in bytes
-		BCRYPT_USE_SYSTEM_PREFERRED_RNG); // Flags                  
+	// BCryptGenRandom does not allow chunks larger than MAX_DWORD
+	while (n > 0) {
+		to_read = (DWORD)(n < MAX_DWORD ? n : MAX_DWORD);
+		Status = BCryptGenRandom(
+			NULL,                       // Alg Handle pointer; NUll is passed as BCRYPT_USE_SYSTEM_PREFERRED_RNG flag is used
+			buf,                     // Address of the buffer that recieves the random number(s)
+			to_read,                 // Size of the chunk in bytes
+			BCRYPT_USE_SYSTEM_PREFERRED_RNG); // Flags
+		if (!NT_SUCCESS(Status)) break;
+		buf = ((char*)buf) + to_read;
+		n -= to_read;
+	}
 
-	if (NT_SUCCESS(Status))
+	if (n == 0)
 	{
 		return 0;
 	}
 
 	//Fallback if BCryptGenRandom failed
-	HCRYPTPROV ctx;
-	BOOL tmp;
-	DWORD to_read = 0;
-	const size_t MAX_DWORD = 0xFFFFFFFF;
-
 	tmp = CryptAcquireContext(&ctx, NULL, NULL, PROV_RSA_FULL,
 		CRYPT_VERIFYCONTEXT);
 	if (tmp == FALSE) return -1;
@@ -110,7 +116,10 @@ static int randombytes_win32_randombytes(void* buf, size_t n)
 	while (n > 0) {
 		to_read = (DWORD)(n < MAX_DWORD ? n : MAX_DWORD);
 		tmp = CryptGenRandom(ctx, to_read, (BYTE*)buf);
-		if (tmp == FALSE) return -1;
+		if (tmp == FALSE) {
+			CryptReleaseContext(ctx, 0);
+			return -1;
+		}
 		buf = ((char*)buf) + to_read;
 		n -= to_read;
 	}
-- 
2.43.0


From 8348e8923ff64e230cdd71c42ee4785deebcc33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:16 +0000
Subject: [PATCH 6/7] fix: browser random source serves requests above 65536
 bytes and reports errors

window.crypto.getRandomValues refuses more than 65536 bytes per call by
throwing, and the exception left randombytes instead of an error code; ask in
chunks and turn exceptions into the error code.
---
 random/randombytes.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index 2aa3fd9..bd71eae 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -338,10 +338,17 @@ static int randombytes_js_randombytes_nodejs(void *buf, size_t n) {
 	const int ret = EM_ASM_INT({
 
 		if (typeof window !== 'undefined' && window.crypto && window.crypto.getRandomValues) {
-			var randBuffer = new Uint8Array($1);
-			window.crypto.getRandomValues(randBuffer);
-			writeArrayToMemory(randBuffer, $0);
-			return 0;
+			try {
+				var randBuffer = new Uint8Array($1);
+				/* getRandomValues does not allow chunks larger than 65536 */
+				for (var i = 0; i < randBuffer.length; i += 65536) {
+					window.crypto.getRandomValues(randBuffer.subarray(i, i + 65536));
+				}
+				writeArrayToMemory(randBuffer, $0);
+				return 0;
+			} catch (error) {
+				return -1;
+			}
 		}
 
 		var cryptoMod;
-- 
2.43.0


From 8ac7c6a17a8cdf5634e2def61a1c658bec8f0844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:58 +0000
Subject: [PATCH 7/7] fix: stand-alone Dilithium verification refuses lengths
 that narrow to 2420

crypto_verify_dilithium passes its 64-bit length on as size_t; where that has
32 bits (WebAssembly) a length of 2^32+2420 was taken for 2420 and accepted.
---
 hybrid-dilithium-sphincs/hybrid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hybrid-dilithium-sphincs/hybrid.c b/hybrid-dilithium-sphincs/hybrid.c
index a421ac8..d05f414 100644
--- a/hybrid-dilithium-sphincs/hybrid.c
+++ b/hybrid-dilithium-sphincs/hybrid.c
@@ -706,6 +706,10 @@ int crypto_verify_dilithium(const unsigned char* m, unsigned long long mlen,
 		return -1;
 	}
 
+	if (smlen != CRYPTO_DILITHIUM_SIGNATURE_BYTES) { //before it is narrowed to size_t
+		return -2;
+	}
+
 	int r = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(sm, smlen, m, mlen, pk);
 	if (r != 0) {
 		return -2;
-- 
2.43.0


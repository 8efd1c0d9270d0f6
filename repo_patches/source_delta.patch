From 829ca1c36f978a9385e3883d39edfa1acc252816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:01 +0000
Subject: [PATCH 01/22] fix: erase contexts and keys with a memset the
 optimiser cannot drop

At -O2 every memset() placed right before free() was removed as a dead store,
so keys, schedules, digest states and RNG states stayed in freed memory.
---
 src/cipher/aes.c          |  2 +-
 src/cipher/aria.c         |  2 +-
 src/cipher/blowfish.c     |  2 +-
 src/cipher/des.c          |  2 +-
 src/cipher/rc4.c          |  2 +-
 src/cipher/seed.c         |  2 +-
 src/com/bignumber.c       |  2 +-
 src/com/montexpmod.c      |  2 +-
 src/com/random.c          | 12 ++++++------
 src/digest/has160.c       |  2 +-
 src/digest/md2.c          |  2 +-
 src/digest/md4.c          |  2 +-
 src/digest/md5.c          |  2 +-
 src/digest/sha1.c         |  2 +-
 src/digest/sha2.c         |  2 +-
 src/include/racrypt_com.h | 11 +++++++++++
 src/pk/rsa.c              |  2 +-
 17 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/src/cipher/aes.c b/src/cipher/aes.c
index da5c555..adaa57f 100644
--- a/src/cipher/aes.c
+++ b/src/cipher/aes.c
@@ -364,7 +364,7 @@ int RaAesCreate(const uint8_t *key, enum RaAesKeyType keyType, enum RaBlockCiphe
 void RaAesDestroy(struct RaAesCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaAesCtx));
+		RaSecureZero(ctx, sizeof(struct RaAesCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/aria.c b/src/cipher/aria.c
index 0a060d0..109cdca 100644
--- a/src/cipher/aria.c
+++ b/src/cipher/aria.c
@@ -358,7 +358,7 @@ int RaAriaCreate(const uint8_t *key, enum RaAriaKeyType keyType, enum RaBlockCip
 void RaAriaDestroy(struct RaAriaCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaAriaCtx));
+		RaSecureZero(ctx, sizeof(struct RaAriaCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/blowfish.c b/src/cipher/blowfish.c
index 2c3707a..770f9c5 100644
--- a/src/cipher/blowfish.c
+++ b/src/cipher/blowfish.c
@@ -317,7 +317,7 @@ int RaBlowfishCreate(const uint8_t *key, int keyLen, enum RaBlockCipherMode opMo
 void RaBlowfishDestroy(struct RaBlowfishCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaBlowfishCtx));
+		RaSecureZero(ctx, sizeof(struct RaBlowfishCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/des.c b/src/cipher/des.c
index 3d5a7f4..2310835 100644
--- a/src/cipher/des.c
+++ b/src/cipher/des.c
@@ -569,7 +569,7 @@ int RaDesCreate(const uint8_t *key, enum RaDesKeyType keyType, enum RaBlockCiphe
 void RaDesDestroy(struct RaDesCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaDesCtx));
+		RaSecureZero(ctx, sizeof(struct RaDesCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/rc4.c b/src/cipher/rc4.c
index 5f08f42..7b91f17 100644
--- a/src/cipher/rc4.c
+++ b/src/cipher/rc4.c
@@ -22,7 +22,7 @@ int RaRc4Create(const uint8_t* key, int keyLen, struct RaRc4Ctx** ctxp)
 void RaRc4Destroy(struct RaRc4Ctx* ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaRc4Ctx));
+		RaSecureZero(ctx, sizeof(struct RaRc4Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/seed.c b/src/cipher/seed.c
index 7c8bd69..5939110 100644
--- a/src/cipher/seed.c
+++ b/src/cipher/seed.c
@@ -322,7 +322,7 @@ int RaSeedCreate(const uint8_t *key, enum RaBlockCipherMode opMode, struct RaSee
 void RaSeedDestroy(struct RaSeedCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSeedCtx));
+		RaSecureZero(ctx, sizeof(struct RaSeedCtx));
 		free(ctx);
 	}
 }
diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 48fffad..8a4c870 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -67,7 +67,7 @@ void BnFree(struct RaBigNumber * bn)
 
 void BnClearFree(struct RaBigNumber* bn)
 {
-	memset(bn, 0, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
+	RaSecureZero(bn, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
 	free(bn);
 }
 
diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index 7d6ad32..b3d399e 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -129,7 +129,7 @@ void RaMontDestroy(struct RaMontCtx* ctx)
 		BnClearFree(ctx->BB);
 		BnClearFree(ctx->tmp);
 		BnClearFree(ctx->mul);
-		memset(ctx, 0, sizeof(struct RaMontCtx));
+		RaSecureZero(ctx, sizeof(struct RaMontCtx));
 		free(ctx);
 	}
 }
diff --git a/src/com/random.c b/src/com/random.c
index c7618da..8fbfd3d 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -40,7 +40,7 @@ int RaRandomCreate(enum RaRandomAlgorithm algorithm, uint8_t *seed, int seed_len
 	}
 	result = RaRandomInit(ctx, algorithm, seed, seed_len);
 	if (result != RA_ERR_SUCCESS) {
-		memset(ctx, 0, sizeof(struct RaRandom));
+		RaSecureZero(ctx, sizeof(struct RaRandom));
 		free(ctx);
 		return result;
 	}
@@ -68,7 +68,7 @@ void RaRandomDestroy(struct RaRandom *ctx)
 				break;
 			}
 		}
-		memset(ctx, 0, sizeof(struct RaRandom));
+		RaSecureZero(ctx, sizeof(struct RaRandom));
 		free(ctx);
 	}
 }
@@ -111,7 +111,7 @@ static int RaRandomInit(struct RaRandom *ctx, enum RaRandomAlgorithm algorithm,
 	}
 
 	RaRandomUpdate(ctx, seed, seed_len);
-	memset(default_seed, 0, RA_RAND_SEED_LEN);
+	RaSecureZero(default_seed, RA_RAND_SEED_LEN);
 
 	return RA_ERR_SUCCESS;
 }
@@ -194,7 +194,7 @@ static void RaRandomUpdate(struct RaRandom *ctx, uint8_t *buffer, int buffer_len
 		RaMd5Update((struct RaMd5Ctx *)ctx->alg_ctx, count_buffer, 4);
 		memcpy(&alg_ctx.md5_ctx, ctx->alg_ctx, sizeof(struct RaMd5Ctx));
 		RaMd5Final(&alg_ctx.md5_ctx, ctx->buffer);
-		memset(&alg_ctx.md5_ctx, 0, sizeof(struct RaMd5Ctx));
+		RaSecureZero(&alg_ctx.md5_ctx, sizeof(struct RaMd5Ctx));
 		break;
 	case RA_RAND_SHA512:
 	case RA_RAND_SHA256:
@@ -202,7 +202,7 @@ static void RaRandomUpdate(struct RaRandom *ctx, uint8_t *buffer, int buffer_len
 		RaSha2Update((struct RaSha2Ctx *)ctx->alg_ctx, count_buffer, 4);
 		memcpy(&alg_ctx.sha2_ctx, ctx->alg_ctx, sizeof(struct RaSha2Ctx));
 		RaSha2Final(&alg_ctx.sha2_ctx, ctx->buffer);
-		memset(&alg_ctx.sha2_ctx, 0, sizeof(struct RaSha2Ctx));
+		RaSecureZero(&alg_ctx.sha2_ctx, sizeof(struct RaSha2Ctx));
 		break;
 	case RA_RAND_SHA160:
 	default:
@@ -210,7 +210,7 @@ static void RaRandomUpdate(struct RaRandom *ctx, uint8_t *buffer, int buffer_len
 		RaSha1Update((struct RaSha1Ctx *)ctx->alg_ctx, count_buffer, 4);
 		memcpy(&alg_ctx.sha1_ctx, ctx->alg_ctx, sizeof(struct RaSha1Ctx));
 		RaSha1Final(&alg_ctx.sha1_ctx, ctx->buffer);
-		memset(&alg_ctx.sha1_ctx, 0, sizeof(struct RaSha1Ctx));
+		RaSecureZero(&alg_ctx.sha1_ctx, sizeof(struct RaSha1Ctx));
 		break;
 	}
 	ctx->buffer_offset = 0;
diff --git a/src/digest/has160.c b/src/digest/has160.c
index 30a367a..247b90e 100644
--- a/src/digest/has160.c
+++ b/src/digest/has160.c
@@ -34,7 +34,7 @@ int RaHas160Create(struct RaHas160Ctx **ctxp)
 void RaHas160Destroy(struct RaHas160Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaHas160Ctx));
+		RaSecureZero(ctx, sizeof(struct RaHas160Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md2.c b/src/digest/md2.c
index d25a2a0..bebab3f 100644
--- a/src/digest/md2.c
+++ b/src/digest/md2.c
@@ -48,7 +48,7 @@ int RaMd2Create(struct RaMd2Ctx **ctxp)
 void RaMd2Destroy(struct RaMd2Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd2Ctx));
+		RaSecureZero(ctx, sizeof(struct RaMd2Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md4.c b/src/digest/md4.c
index 3a8ef2e..2812bf9 100644
--- a/src/digest/md4.c
+++ b/src/digest/md4.c
@@ -39,7 +39,7 @@ int RaMd4Create(struct RaMd4Ctx **ctxp)
 void RaMd4Destroy(struct RaMd4Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd4Ctx));
+		RaSecureZero(ctx, sizeof(struct RaMd4Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md5.c b/src/digest/md5.c
index 67fca1d..3d7d231 100644
--- a/src/digest/md5.c
+++ b/src/digest/md5.c
@@ -41,7 +41,7 @@ int RaMd5Create(struct RaMd5Ctx **ctxp)
 void RaMd5Destroy(struct RaMd5Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd5Ctx));
+		RaSecureZero(ctx, sizeof(struct RaMd5Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/sha1.c b/src/digest/sha1.c
index eabed91..2696a29 100644
--- a/src/digest/sha1.c
+++ b/src/digest/sha1.c
@@ -30,7 +30,7 @@ int RaSha1Create(struct RaSha1Ctx **ctxp)
 void RaSha1Destroy(struct RaSha1Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSha1Ctx));
+		RaSecureZero(ctx, sizeof(struct RaSha1Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/sha2.c b/src/digest/sha2.c
index fac0c6b..a282be5 100644
--- a/src/digest/sha2.c
+++ b/src/digest/sha2.c
@@ -35,7 +35,7 @@ int RaSha2Create(enum RaDigestAlgorithm algorithm, struct RaSha2Ctx **ctxp)
 void RaSha2Destroy(struct RaSha2Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSha2Ctx));
+		RaSecureZero(ctx, sizeof(struct RaSha2Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/include/racrypt_com.h b/src/include/racrypt_com.h
index edb8046..6c1b198 100644
--- a/src/include/racrypt_com.h
+++ b/src/include/racrypt_com.h
@@ -3,6 +3,9 @@
 #ifndef __RA_COM_H__
 #define __RA_COM_H__
 
+#include <stddef.h>
+#include <string.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
@@ -15,6 +18,14 @@ extern "C" {
 #define RA_ERR_INVALID_PARAM				(-5)
 #define RA_ERR_INVALID_DATA					(-6)
 
+/* memset() called through a volatile pointer: a compiler cannot remove it as a dead store
+ * when the erased memory is released right after */
+static void *(*const volatile ra_memset)(void *, int, size_t) = memset;
+
+static inline void RaSecureZero(void *p, size_t len)
+{
+	ra_memset(p, 0, len);
+}
 
 #ifdef __cplusplus
 }
diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index f90f6ce..9640c41 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -147,7 +147,7 @@ void RaRsaDestroyKeyPair(struct RaRsaKeyPair *key)
 	if (key->mont != NULL) {
 		RaMontDestroy(key->mont);
 	}
-	memset(key, 0, sizeof(struct RaRsaKeyPair));
+	RaSecureZero(key, sizeof(struct RaRsaKeyPair));
 	free(key);
 }
 
-- 
2.43.0


From 8834ee46cc91de21e2501b88354e9ad2f39c578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:32 +0000
Subject: [PATCH 02/22] fix: RaMontCreate released uninitialised or missing
 numbers when memory ran out

---
 src/com/bignumber.c  | 3 +++
 src/com/montexpmod.c | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 8a4c870..fd625ea 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -67,6 +67,9 @@ void BnFree(struct RaBigNumber * bn)
 
 void BnClearFree(struct RaBigNumber* bn)
 {
+	if (bn == NULL) {
+		return;
+	}
 	RaSecureZero(bn, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
 	free(bn);
 }
diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index b3d399e..2e2d1c6 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -75,6 +75,7 @@ int RaMontCreate(struct RaBigNumber *N, /*out*/struct RaMontCtx **montCtx)
 		result = RA_ERR_OUT_OF_MEMORY;
 		goto _EXIT;
 	}
+	memset(ctx, 0, sizeof(struct RaMontCtx));
 
 	B = BnNewW(2);
 	if (B == NULL) {
-- 
2.43.0


From 227f0e067df16420f99d409e843d3c8f0f062f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:32 +0000
Subject: [PATCH 03/22] fix: check the numbers allocated by RaRsaVerifyKey,
 CheckMillerRabin and BnToByteArray

---
 src/com/bignumber.c | 3 +++
 src/com/prime.c     | 4 ++++
 src/pk/rsa.c        | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index fd625ea..d047a09 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1499,6 +1499,9 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 	if (bn->sign && !BN_ISZERO(bn)) {
 		struct RaBigNumber *neg;
 		neg = BnClone(bn);
+		if (neg == NULL) {
+			return 0;
+		}
 		BnAddInt(neg, 1);		// neg = ~bn + 1 = ~(bn + 1)
 		word = neg->data[neg->length - 1];
 		bit = _BnGetMSBPos(word);
diff --git a/src/com/prime.c b/src/com/prime.c
index 0f00fec..4d8f49f 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -292,6 +292,10 @@ static int CheckMillerRabin(struct RaBigNumber *bn, int count, struct RaRandom *
 	}
 
 	n1 = BnClone(bn);
+	if (n1 == NULL) {
+		result = RA_ERR_OUT_OF_MEMORY;
+		goto _EXIT;
+	}
 	BnSubInt(n1, 1);	// n1 = n - 1
 
 	s = 0;
diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 9640c41..65b42b9 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -221,6 +221,10 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	bit = BnGetBitLength(key->mod);
 	temp = BnNew(bit);
 	phi = BnNew(bit);
+	if (temp == NULL || phi == NULL) {
+		result = RA_ERR_OUT_OF_MEMORY;
+		goto _EXIT;
+	}
 
 	CHECK_KEY_DATA(BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2) == bit);
 
-- 
2.43.0


From 92fa4ba754cbc94f8921b521b2bc6cd7fafa3634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:32 +0000
Subject: [PATCH 04/22] fix: RaGenPrimeNumberEx leaked its own generator when a
 step failed

---
 src/com/prime.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 4d8f49f..5c61a50 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -456,22 +456,21 @@ int RaGenPrimeNumberEx(struct RaBigNumber *bn, int bit, int(*progress)(int count
 				break;
 		}
 		result = GenProbablePrimeNumber(bn, bit, rnd);
-		if (result != RA_ERR_SUCCESS) {
-			return result;
-		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 
 		result = CheckMillerRabin(bn, checkCount, rnd, &isPrime);
-		if (result != RA_ERR_SUCCESS) {
-			return result;
-		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 		if (isPrime) {
 			break;
 		}
 	}
+
+	result = RA_ERR_SUCCESS;
+_EXIT:
 	if (tmpRnd != NULL)
 		RaRandomDestroy(tmpRnd);
 
-	return RA_ERR_SUCCESS;
+	return result;
 }
 
 int RaIsPrimeNumber(struct RaBigNumber *bn)
-- 
2.43.0


From e59f912ef459953da5ac4f80b1038056ab8ad198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:14 +0000
Subject: [PATCH 05/22] fix: report failures of random generation,
 RaRsaVerify's exponentiation and too deep ASN.1 nesting

---
 src/com/bignumber.c | 5 ++++-
 src/com/prime.c     | 7 ++++++-
 src/pk/asn1.c       | 3 ++-
 src/pk/rsa.c        | 6 +++++-
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index d047a09..1897100 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1411,6 +1411,7 @@ int BnGetBitLength(struct RaBigNumber *bn)
 int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 {
 	int word;
+	int result;
 
 	if (bit <= 0) {
 		BnSetInt(bn, 0);
@@ -1423,7 +1424,9 @@ int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 		return RA_ERR_NUMBER_SIZE;
 	}
 
-	BnGenRandomByteArray((uint8_t*)bn->data, word * BN_WORD_BYTE, rnd);
+	result = BnGenRandomByteArray((uint8_t*)bn->data, word * BN_WORD_BYTE, rnd);
+	if (result != RA_ERR_SUCCESS)
+		return result;
 
 	bit %= BN_WORD_BIT;
 
diff --git a/src/com/prime.c b/src/com/prime.c
index 5c61a50..8f0e6d1 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -382,6 +382,7 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 {
 	uint32_t *mods = NULL;
 	int i;
+	int result;
 	uint32_t add;
 	uint64_t val;
 	bn_uint_t mod;
@@ -392,7 +393,11 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 	}
 
 	for (;;) {
-		BnGetRandomRSA(bn, bit, rnd);
+		result = BnGetRandomRSA(bn, bit, rnd);
+		if (result != RA_ERR_SUCCESS) {
+			free(mods);
+			return result;
+		}
 
 		for (i = 0; i < NUM_PRIME; i++) {
 			BnModUInt(bn, primes[i], &mod);
diff --git a/src/pk/asn1.c b/src/pk/asn1.c
index d8e2d60..35924d3 100644
--- a/src/pk/asn1.c
+++ b/src/pk/asn1.c
@@ -187,7 +187,8 @@ static int ASN1Parse(struct RaAsn1Ctx *ctx)
 		if (result != RA_ERR_SUCCESS) goto _EXIT;
 
 		if (ctx->cur->type & RA_ASN1_OBJ_TYPE_CONST) {
-			ASN1Push(ctx);
+			result = ASN1Push(ctx);
+			if (result != RA_ERR_SUCCESS) goto _EXIT;
 			continue;
 		}
 
diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 65b42b9..0b2f36f 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -185,7 +185,11 @@ int RaRsaVerify(struct RaRsaKeyPair* key, struct RaBigNumber *secure, struct RaB
 	if (decrypted == NULL)
 		return RA_ERR_OUT_OF_MEMORY;
 
-	RaMontExpMod(key->mont, decrypted, secure, key->pub);
+	result = RaMontExpMod(key->mont, decrypted, secure, key->pub);
+	if (result != RA_ERR_SUCCESS) {
+		BnFree(decrypted);
+		return result;
+	}
 	result = BnCmp(message, decrypted);
 
 	BnFree(decrypted);
-- 
2.43.0


From 72f9e11eaf408574c69f9a4167c1a1300fd1103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:14 +0000
Subject: [PATCH 06/22] fix: report missing system entropy instead of seeding
 with zeros, and do not lose a descriptor numbered 0

---
 src/com/random.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/com/random.c b/src/com/random.c
index 8fbfd3d..80c5b86 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -25,7 +25,7 @@
 #define RA_RAND_SEED_LEN		(32 + 4)
 
 static uint32_t RaRandomGetRandomSeed();
-static void RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN]);
+static int RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN]);
 
 static int RaRandomInit(struct RaRandom *ctx, enum RaRandomAlgorithm algorithm, uint8_t *seed, int seed_len);
 static void RaRandomUpdate(struct RaRandom *ctx, uint8_t *buffer, int buffer_len);
@@ -82,7 +82,11 @@ static int RaRandomInit(struct RaRandom *ctx, enum RaRandomAlgorithm algorithm,
 	ctx->algorithm = algorithm;
 
 	if (seed == NULL) {
-		RaRandomGetRandomSeedBytes(default_seed);
+		result = RaRandomGetRandomSeedBytes(default_seed);
+		if (result != RA_ERR_SUCCESS) {
+			RaSecureZero(default_seed, RA_RAND_SEED_LEN);
+			return result;
+		}
 		seed = default_seed;
 		seed_len = RA_RAND_SEED_LEN;
 	}
@@ -107,6 +111,7 @@ static int RaRandomInit(struct RaRandom *ctx, enum RaRandomAlgorithm algorithm,
 	}
 	if (result != RA_ERR_SUCCESS) {
 		ctx->buffer_len = 0;
+		RaSecureZero(default_seed, RA_RAND_SEED_LEN);
 		return result;
 	}
 
@@ -137,7 +142,7 @@ static uint32_t RaRandomGetRandomSeed()
 	return seed * 1103515245 + 12345;
 }
 
-static void RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN])
+static int RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN])
 {
 	int result;
 	uint32_t seed;
@@ -149,14 +154,14 @@ static void RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN
 		CryptReleaseContext(cryptProv, 0);
 	}
 	if (!result) {
-		memset(seedBytes, 0, RA_RAND_SEED_LEN - 4);
+		return RA_ERR_INVALID_DATA;
 	}
 #else
 	int fd;
 	int size;
 	result = RA_ERR_INVALID_DATA;
 	fd = open("/dev/urandom", O_RDONLY);
-	if (fd > 0) {
+	if (fd >= 0) {
 		size = read(fd, seedBytes, RA_RAND_SEED_LEN - 4);
 		if (size == RA_RAND_SEED_LEN - 4) {
 			result = RA_ERR_SUCCESS;
@@ -164,7 +169,7 @@ static void RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN
 		close(fd);
 	}
 	if (result != RA_ERR_SUCCESS) {
-		memset(seedBytes, 0, RA_RAND_SEED_LEN - 4);
+		return result;
 	}
 #endif
 	seed = RaRandomGetRandomSeed();
@@ -172,6 +177,8 @@ static void RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN
 	seedBytes[RA_RAND_SEED_LEN - 3] = (uint8_t)(seed >> 16);
 	seedBytes[RA_RAND_SEED_LEN - 2] = (uint8_t)(seed >> 8);
 	seedBytes[RA_RAND_SEED_LEN - 1] = (uint8_t)(seed);
+
+	return RA_ERR_SUCCESS;
 }
 
 static void RaRandomUpdate(struct RaRandom *ctx, uint8_t *buffer, int buffer_len)
-- 
2.43.0


From f58fec1e1f10c80876fbb5ba42a4bb287f39d017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:50 +0000
Subject: [PATCH 07/22] fix: key import read past the data for an empty INTEGER
 or a short object identifier

---
 src/pk/rsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 0b2f36f..b8e71d1 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -290,7 +290,7 @@ static int RaRsaNewASN1Integer(const uint8_t *asn1Data, struct RaAsn1Node *node,
 	struct RaBigNumber *bn = NULL;
 	int bit;
 
-	if (node->type != RA_ASN1_OBJ_INTEGER) {
+	if (node->type != RA_ASN1_OBJ_INTEGER || node->dataLength <= 0) {
 		result = RA_ERR_INVALID_DATA;
 		goto _EXIT;
 	}
@@ -447,7 +447,7 @@ _EXIT:
 }
 
 #define OID_RSA_Encryption		"\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01"		// 1.2.840.113549.1.1.1
-#define IS_OID(data, node, oid)		((node)->type == RA_ASN1_OBJ_IDENTIFIER && memcmp((uint8_t*)data+(node)->dataOffset, oid, sizeof(oid)-1) == 0)
+#define IS_OID(data, node, oid)		((node)->type == RA_ASN1_OBJ_IDENTIFIER && (node)->dataLength == sizeof(oid)-1 && memcmp((uint8_t*)data+(node)->dataOffset, oid, sizeof(oid)-1) == 0)
 
 
 // pkcs#8, byte array = BER
-- 
2.43.0


From 3146e4344a414c684e1cff39433b80efec9a8dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:50 +0000
Subject: [PATCH 08/22] fix: negating a sign flag with unary minus lost the
 sign (0) or left it at -1

---
 src/com/bignumber.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 1897100..d8f55c9 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -977,7 +977,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	uint64_t cw;
 
 	if (multiplier < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		multiplier = -multiplier;
 	}
 	val.high = 0;
@@ -1004,7 +1004,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	int i;
 
 	if (multiplier < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		multiplier = -multiplier;
 	}
 	val = 0;
@@ -1084,7 +1084,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (divisor < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		divisor = -divisor;
 	}
 
@@ -1124,7 +1124,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (divisor < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		divisor = -divisor;
 	}
 	val = 0;
@@ -1970,7 +1970,7 @@ static int _BnSubUInt(struct RaBigNumber *a, bn_uint_t val)
 
 	if (al == 1 && (*ad) < val) {
 		*ad = val - (*ad);
-		a->sign = -a->sign;
+		a->sign = !a->sign;
 		return RA_ERR_SUCCESS;
 	}
 
-- 
2.43.0


From 8a41098afeb420b46d28dd2c8091f54267076c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 09/22] fix: BnMod wrote one word past a result number that has
 exactly the divisor's length

---
 src/com/bignumber.c | 49 +++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index d8f55c9..7c3e6bb 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -581,6 +581,7 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	struct RaBigNumber *aa;		// a << n
 	struct RaBigNumber *bb;		// b << n
 	struct RaBigNumber *bq;		// b * q
+	struct RaBigNumber *rr;		// a << n mod b << n
 	int bit;
 #if BN_WORD_BYTE == 8
 	bn_uint128_t ru;
@@ -609,11 +610,13 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	aa = BnNewW(a->length + 1);		// a << n
 	bb = BnNewW(b->length + 1);		// b << n
 	bq = BnNewW(b->length + 1);		// b * qu(32bit)
+	rr = BnNewW(b->length + 1);
 
-	if (aa == NULL || bb == NULL || bq == NULL) {
+	if (aa == NULL || bb == NULL || bq == NULL || rr == NULL) {
 		BN_SAFEFREE(aa);
 		BN_SAFEFREE(bb);
 		BN_SAFEFREE(bq);
+		BN_SAFEFREE(rr);
 		return RA_ERR_OUT_OF_MEMORY;
 	}
 
@@ -625,33 +628,33 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	BnShiftL(aa, (uint32_t)bit);
 	BnShiftL(bb, (uint32_t)bit);
 
-	// copy first bb->length-1 of aa->data to r
-	// this reduce loop count until r gets greater than bb
-	BnSetInt(r, 0);
+	// copy first bb->length-1 of aa->data to rr
+	// this reduce loop count until rr gets greater than bb
+	BnSetInt(rr, 0);
 	if (b->length > 1) {
-		memcpy(r->data, aa->data + aa->length - bb->length + 1, sizeof(bn_uint_t) * ((size_t)bb->length - 1));
-		r->data[bb->length] = 0;
-		r->length = bb->length - 1;
+		memcpy(rr->data, aa->data + aa->length - bb->length + 1, sizeof(bn_uint_t) * ((size_t)bb->length - 1));
+		rr->data[bb->length] = 0;
+		rr->length = bb->length - 1;
 	}
 
 	bu = bb->data[bb->length - 1];		// highst word of bb
 	ad = &aa->data[aa->length - bb->length];
-	rd = &r->data[bb->length - 1];
+	rd = &rr->data[bb->length - 1];
 
 #if BN_WORD_BYTE == 8
 	ru.high = 0;
 	ru.low = 0;
 
 	while (ad >= aa->data) {
-		BnShiftL(r, 64);
-		r->data[0] = (*ad);
+		BnShiftL(rr, 64);
+		rr->data[0] = (*ad);
 
 		// check the length
-		if (r->length > b->length) {
+		if (rr->length > bb->length) {
 			ru.low = *rd;
 			ru.high = *(rd + 1);
 		}
-		else if (r->length == b->length) {
+		else if (rr->length == bb->length) {
 			ru.low = *rd;
 			ru.high = 0;
 		}
@@ -665,11 +668,11 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 			BnSet(bq, bb);
 			BnMulUInt(bq, qu);		// bq = bb * qu
-			while (_BnCmp(r, bq) < 0) {
+			while (_BnCmp(rr, bq) < 0) {
 				_BnSubR(bq, bb);
 				qu--;
 			}
-			_BnSubR(r, bq);		// rr -= bb * qu
+			_BnSubR(rr, bq);		// rr -= bb * qu
 		}
 
 		ad--;
@@ -678,13 +681,13 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	ru = 0;
 
 	while (ad >= aa->data) {
-		BnShiftL(r, 32);
-		r->data[0] = (*ad);
+		BnShiftL(rr, 32);
+		rr->data[0] = (*ad);
 
 		// check the length
-		if (r->length > b->length)
+		if (rr->length > bb->length)
 			ru = ((uint64_t)(*(rd + 1)) << 32) | (*rd);
-		else if (r->length == b->length)
+		else if (rr->length == bb->length)
 			ru = *rd;
 		else
 			ru = 0;
@@ -697,23 +700,25 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 			BnSet(bq, bb);
 			BnMulUInt(bq, qu);		// bq = bb * qu
-			while (_BnCmp(r, bq) < 0) {
+			while (_BnCmp(rr, bq) < 0) {
 				_BnSubR(bq, bb);
 				qu--;
 			}
-			_BnSubR(r, bq);		// rr -= bb * qu
+			_BnSubR(rr, bq);		// rr -= bb * qu
 		}
 
 		ad--;
 	}
 #endif
 
-	BnShiftR(r, (uint32_t)bit);
-	r->sign = a->sign;
+	BnShiftR(rr, (uint32_t)bit);
+	rr->sign = a->sign;
+	BnSet(r, rr);
 
 	BnFree(aa);
 	BnFree(bb);
 	BnFree(bq);
+	BnFree(rr);
 
 	return RA_ERR_SUCCESS;
 }
-- 
2.43.0


From ac8924690074599be0e1a95f19ad941b29600fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 10/22] fix: BnAdd and _BnAddR wrote past the result when the
 second operand is longer

---
 src/com/bignumber.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 7c3e6bb..52f9b5e 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1626,7 +1626,7 @@ static int _BnAdd(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumb
 	int al;
 	int bl;
 
-	if (r->max_length < a->length) {
+	if (r->max_length < a->length || r->max_length < b->length) {
 		assert(0);
 		return RA_ERR_NUMBER_SIZE;
 	}
@@ -1777,6 +1777,10 @@ int _BnAddR(struct RaBigNumber *a, struct RaBigNumber *b)
 	al = a->length;
 	bl = b->length;
 
+	if (a->max_length < b->length) {
+		assert(0);
+		return RA_ERR_NUMBER_SIZE;
+	}
 	if (a->length < b->length) {
 		memset(a->data + a->length, 0, sizeof(bn_uint_t) * ((size_t)b->length - a->length));
 		a->length = b->length;
-- 
2.43.0


From 1c45dcd1c04fb08a3f6455a78e111341288ee5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 11/22] fix: BnGenRandom cleared random bits of a top word with
 32 or more wanted bits

---
 src/com/bignumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 52f9b5e..0042650 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1436,7 +1436,7 @@ int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 	bit %= BN_WORD_BIT;
 
 	if (bit > 0) {
-		bn->data[word - 1] &= (1 << bit) - 1;
+		bn->data[word - 1] &= ((bn_uint_t)1 << bit) - 1;
 	}
 	bn->length = word;
 	while (bn->length > 1 && bn->data[bn->length - 1] == 0)
-- 
2.43.0


From f4caf3190dbdb2f3ada6c9fb6a414d9eacdb4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 12/22] fix: an empty Blowfish key divided by zero

---
 src/cipher/blowfish.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cipher/blowfish.c b/src/cipher/blowfish.c
index 770f9c5..c7f4a7e 100644
--- a/src/cipher/blowfish.c
+++ b/src/cipher/blowfish.c
@@ -329,6 +329,12 @@ void RaBlowfishInit(struct RaBlowfishCtx *ctx, const uint8_t *key, int keyLen, e
 	uint32_t data_l;
 	uint32_t data_r;
 	int p;
+	uint8_t zero = 0;
+
+	if (key == NULL || keyLen <= 0) {
+		key = &zero;
+		keyLen = 1;
+	}
 
 	RaBlockCipherInit(&ctx->blockCipher, RaBlowfishEncryptBlock, RaBlowfishDecryptBlock, opMode, RA_BLOCK_LEN_BLOWFISH, ctx->iv, ctx->buffer);
 
-- 
2.43.0


From 624cee262f032821b780138d44242cc18f514e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 13/22] fix: a zero modulus or an oversized message in imported
 data aborted the process instead of returning an error

---
 src/com/montexpmod.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index 2e2d1c6..dc9515e 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -66,7 +66,6 @@ int RaMontCreate(struct RaBigNumber *N, /*out*/struct RaMontCtx **montCtx)
 	struct RaBigNumber *B = NULL;
 
 	if (BN_ISZERO(N)) {
-		assert(0);
 		result = RA_ERR_DIVIDED_BY_ZERO;
 		goto _EXIT;
 	}
@@ -333,7 +332,6 @@ int RaMontExpMod(struct RaMontCtx *ctx, /*out*/struct RaBigNumber *r, struct RaB
 	memset(window, 0, sizeof(window));
 
 	if (a->length > ctx->N->length) {
-		assert(0);
 		result = RA_ERR_NUMBER_SIZE;
 		goto _EXIT;
 	}
-- 
2.43.0


From 6cb69efb7610a5e7e74b6a235170a4eee699a9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 14/22] fix: SHA-384/512 length field loses bits 64..66 of the
 message length

---
 src/digest/sha2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/digest/sha2.c b/src/digest/sha2.c
index a282be5..f6f9766 100644
--- a/src/digest/sha2.c
+++ b/src/digest/sha2.c
@@ -552,7 +552,7 @@ static void _RaSha512Final(struct RaSha2Ctx* ctx, /*out*/uint8_t *output)
 	val = (uint32_t)(ctx->totalLen_hh >> 29);
 	PUT_UINT32_BE(ctx->buffer + 128 - 16, val);
 
-	val = (uint32_t)(ctx->totalLen_hh << 3);
+	val = (uint32_t)(ctx->totalLen_hh << 3) | (ctx->totalLen_h >> 29);
 	PUT_UINT32_BE(ctx->buffer + 128 - 12, val);
 
 	val = (ctx->totalLen_h << 3) | (ctx->totalLen_l >> 29);
-- 
2.43.0


From 99d2ee5e4635b860d90d664f9829aaf7262e7007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 15/22] fix: division by a machine word kept a remainder equal
 to the divisor

---
 src/com/bignumber.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 0042650..361365a 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1100,7 +1100,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high != 0 || val.low > (bn_uint_t)divisor) {
+		if (val.high != 0 || val.low >= (bn_uint_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = _BnDiv128(val, (bn_uint_t)divisor, &val.low);
@@ -1135,7 +1135,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > (uint32_t)divisor) {
+		if (val >= (uint32_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = (uint32_t)(val / (uint32_t)divisor);
@@ -1178,7 +1178,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high != 0 || val.low > (bn_uint_t)divisor) {
+		if (val.high != 0 || val.low >= (bn_uint_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = _BnDiv128(val, (bn_uint_t)divisor, &val.low);
@@ -1209,7 +1209,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > (uint32_t)divisor) {
+		if (val >= (uint32_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = (uint32_t)(val / (uint32_t)divisor);
@@ -1251,7 +1251,7 @@ int BnModUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high > 0 || val.low > divisor) {
+		if (val.high > 0 || val.low >= divisor) {
 			if (length == 0)
 				length = i + 1;
 			_BnDiv128(val, divisor, &val.low);
@@ -1271,7 +1271,7 @@ int BnModUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > divisor) {
+		if (val >= divisor) {
 			if (length == 0)
 				length = i + 1;
 			val %= (uint32_t)divisor;
-- 
2.43.0


From f8125903a23d783b08ddb3650dc4bce4e9724c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 16/22] fix: shifting a number out by whole words left it
 without words, shifting a zero left leading zero words

---
 src/com/bignumber.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 361365a..38136c7 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1341,7 +1341,7 @@ int BnShiftL(struct RaBigNumber *bn, uint32_t bit)
 		*dest-- = 0;
 	}
 	bn->length += word;
-	if (bn->length > 1 && bn->data[bn->length - 1] == 0)
+	while (bn->length > 1 && bn->data[bn->length - 1] == 0)
 		bn->length--;
 
 	return RA_ERR_SUCCESS;
@@ -1387,6 +1387,8 @@ int BnShiftR(struct RaBigNumber *bn, uint32_t bit)
 		}
 	}
 
+	if (dest == bn->data)
+		*dest++ = 0;
 	bn->length = (int)(intptr_t)(dest - bn->data);
 	if ( bn->length > 1 && *(--dest) == 0 )
 		bn->length--;
-- 
2.43.0


From aa14540b0ed227334db6f7d7d4fc1a705333c5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 17/22] fix: multiplying by a zero machine word left leading
 zero words

---
 src/com/bignumber.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 38136c7..e08136a 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -981,6 +981,10 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	int i;
 	uint64_t cw;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	if (multiplier < 0) {
 		bn->sign = !bn->sign;
 		multiplier = -multiplier;
@@ -1008,6 +1012,10 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	uint64_t val;
 	int i;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	if (multiplier < 0) {
 		bn->sign = !bn->sign;
 		multiplier = -multiplier;
@@ -1037,6 +1045,10 @@ int BnMulUInt(struct RaBigNumber *bn, bn_uint_t multiplier)
 	int i;
 	uint64_t cw;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	val.high = 0;
 	val.low = 0;
 	for (i = 0; i < bn->length; i++) {
@@ -1059,6 +1071,10 @@ int BnMulUInt(struct RaBigNumber *bn, bn_uint_t multiplier)
 	uint64_t val;
 	int i;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	val = 0;
 	for (i = 0; i < bn->length; i++) {
 		val = (uint64_t)bn->data[i] * (uint32_t)multiplier + (val >> 32);
-- 
2.43.0


From b5d678566ae27dbb61be7fb18f63479fc273a774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 18/22] fix: comparisons told a negative zero from zero, and
 took a long negative number with a zero low word for zero

---
 src/com/bignumber.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index e08136a..7c747f5 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -263,6 +263,8 @@ int BnSetUByteArray(struct RaBigNumber *bn, const uint8_t *data, int len)
 // a < b : -1, a > b : 1, a = b : 0
 int BnCmp(struct RaBigNumber *a, struct RaBigNumber *b)
 {
+	if (BN_ISZERO(a) && BN_ISZERO(b))
+		return 0;
 	if (a->sign == 0) {
 		if (b->sign == 0)
 			return _BnCmp(a, b);
@@ -312,7 +314,7 @@ int BnCmpUInt(struct RaBigNumber *a, bn_uint_t val)
 		return 0;
 	}
 	else {
-		if (a->data[0] == 0)
+		if (BN_ISZERO(a) && val == 0)
 			return 0;
 		return -1;
 	}
-- 
2.43.0


From 75667d9d3abb1dbaa1ae264720313d920e56b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 19/22] fix: doubling a number in place lost the carry between
 its words

---
 src/com/bignumber.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 7c747f5..68b9023 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -366,6 +366,7 @@ int BnDouble(struct RaBigNumber *r, struct RaBigNumber *a)
 {
 	int i;
 	int c;
+	bn_uint_t val;
 	bn_uint_t *rd;
 	bn_uint_t *ad;
 
@@ -379,8 +380,9 @@ int BnDouble(struct RaBigNumber *r, struct RaBigNumber *a)
 	ad = &a->data[0];
 	r->length = a->length;
 	for (i = 0; i < a->length; i++) {
-		*rd = ((*ad) << 1) + c;
-		c = (int)(((*ad) >> (BN_WORD_BIT - 1)) & 1);
+		val = *ad;
+		*rd = (val << 1) + c;
+		c = (int)((val >> (BN_WORD_BIT - 1)) & 1);
 		ad++;
 		rd++;
 	}
-- 
2.43.0


From b69136e1f472ad26deabdbbc4452d78bdd010fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 20/22] fix: conversion to bytes wrote the sign byte into a
 buffer without room

---
 src/com/bignumber.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 68b9023..51f04d0 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1536,7 +1536,7 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 		word = neg->data[neg->length - 1];
 		bit = _BnGetMSBPos(word);
 		if ((bit % 8) == 7) {			// if most significant bit is set.
-			if (buffer != NULL) {
+			if (buffer != NULL && bufferlen > 0) {
 				buffer[0] = 0xff;		// negative
 			}
 			offset++;
@@ -1568,7 +1568,7 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 		word = bn->data[bn->length - 1];
 		bit = _BnGetMSBPos(word);
 		if ((bit % 8) == 7) {			// if most significant bit is set.
-			if (buffer != NULL) {
+			if (buffer != NULL && bufferlen > 0) {
 				buffer[0] = 0x00;		// positive
 			}
 			offset++;
-- 
2.43.0


From e4f330fdbdf417888bf617f3423f6ce8ea7a5f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:33 +0000
Subject: [PATCH 21/22] fix: a random number kept the sign of the number's
 previous value

---
 src/com/bignumber.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 51f04d0..028cf98 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1461,6 +1461,7 @@ int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 		bn->data[word - 1] &= ((bn_uint_t)1 << bit) - 1;
 	}
 	bn->length = word;
+	bn->sign = 0;
 	while (bn->length > 1 && bn->data[bn->length - 1] == 0)
 		bn->length--;
 
-- 
2.43.0


From b44a08e41fe3a9e40e2369919454dc2f8671d1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:44 +0000
Subject: [PATCH 22/22] fix: a full-length random number of no bits wrote
 before its words

---
 src/com/bignumber.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 028cf98..420a2e1 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1485,6 +1485,9 @@ int BnGetRandomRSA(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 	int ret;
 	int word;
 
+	if (bit <= 0)
+		return RA_ERR_INVALID_PARAM;
+
 	ret = BnGenRandom(bn, bit, rnd);
 	if (ret != RA_ERR_SUCCESS)
 		return ret;
-- 
2.43.0


/* Reference statements of the published algorithms.  Compiled to IR and analysed
   next to the library; never linked into it and never run by a check. */
#ifndef REF_H
#define REF_H
#include <stdint.h>
enum { R_AES, R_DES, R_SEED, R_ARIA, R_BLOWFISH, R_DESK };
struct rkey {
	int alg, rounds, keylen;
	uint8_t ek[17][16], dk[17][16];     /* AES, ARIA */
	uint8_t des[3][16][48];
	uint32_t seed[16][2];
	uint32_t p[18], s[1024];
};
int  ref_blocklen(int alg);
void ref_setkey(struct rkey *k, int alg, const uint8_t *key, int keylen);
void ref_enc(const struct rkey *k, const uint8_t *in, uint8_t *out);
void ref_dec(const struct rkey *k, const uint8_t *in, uint8_t *out);
enum { R_MD2, R_MD4, R_MD5, R_SHA1, R_SHA224, R_SHA256, R_SHA384, R_SHA512, R_SHA512_224, R_SHA512_256, R_HAS160 };
/* digest of a message of len bytes; (hi,lo) is the message length in bytes as the standard encodes it */
void ref_digest(int alg, const uint8_t *msg, int len, uint8_t *out);
void ref_rc4(const uint8_t *key, int keylen, const uint8_t *in, int len, uint8_t *out);
void ref_init(int alg, uint64_t *h);
void ref_block32(int alg, uint32_t *h, const uint8_t *b);
void ref_block64(uint64_t *h, const uint8_t *b);
#endif

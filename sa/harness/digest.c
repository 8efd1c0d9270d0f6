/* Pairs of functions lib_X / ref_X for the message digests.  Only analysed, never run. */
#include <racrypt.h>
#include <stdlib.h>
#include <stddef.h>
#include "../ref/ref.h"

static int outlen(int alg)
{
	switch (alg) {
	case R_SHA1: case R_HAS160: return 20;
	case R_SHA224: case R_SHA512_224: return 28;
	case R_SHA256: case R_SHA512_256: return 32;
	case R_SHA384: return 48;
	case R_SHA512: return 64;
	default: return 16;
	}
}
static enum RaDigestAlgorithm code(int alg)
{
	switch (alg) {
	case R_SHA224: return RA_DGST_SHA2_224;
	case R_SHA256: return RA_DGST_SHA2_256;
	case R_SHA384: return RA_DGST_SHA2_384;
	case R_SHA512: return RA_DGST_SHA2_512;
	case R_SHA512_224: return RA_DGST_SHA2_512_224;
	default: return RA_DGST_SHA2_512_256;
	}
}

union any {
	struct RaMd2Ctx md2;
	struct RaMd4Ctx md4;
	struct RaMd5Ctx md5;
	struct RaSha1Ctx sha1;
	struct RaSha2Ctx sha2;
	struct RaHas160Ctx has;
};

/* own: SHA-256 and SHA-512 also have entry points of their own */
static void init(int alg, int own, void *c)
{
	switch (alg) {
	case R_MD2: RaMd2Init(c); break;
	case R_MD4: RaMd4Init(c); break;
	case R_MD5: RaMd5Init(c); break;
	case R_SHA1: RaSha1Init(c); break;
	case R_HAS160: RaHas160Init(c); break;
	case R_SHA256: if (own) { RaSha256Init(c); break; } RaSha2Init(c, code(alg)); break;
	case R_SHA512: if (own) { RaSha512Init(c); break; } RaSha2Init(c, code(alg)); break;
	default: RaSha2Init(c, code(alg)); break;
	}
}
static void update(int alg, int own, void *c, const uint8_t *d, int n)
{
	switch (alg) {
	case R_MD2: RaMd2Update(c, d, n); break;
	case R_MD4: RaMd4Update(c, d, n); break;
	case R_MD5: RaMd5Update(c, d, n); break;
	case R_SHA1: RaSha1Update(c, d, n); break;
	case R_HAS160: RaHas160Update(c, d, n); break;
	case R_SHA256: if (own) { RaSha256Update(c, d, n); break; } RaSha2Update(c, d, n); break;
	case R_SHA512: if (own) { RaSha512Update(c, d, n); break; } RaSha2Update(c, d, n); break;
	default: RaSha2Update(c, d, n); break;
	}
}
static void final(int alg, int own, void *c, uint8_t *o)
{
	switch (alg) {
	case R_MD2: RaMd2Final(c, o); break;
	case R_MD4: RaMd4Final(c, o); break;
	case R_MD5: RaMd5Final(c, o); break;
	case R_SHA1: RaSha1Final(c, o); break;
	case R_HAS160: RaHas160Final(c, o); break;
	case R_SHA256: if (own) { RaSha256Final(c, o); break; } RaSha2Final(c, o); break;
	case R_SHA512: if (own) { RaSha512Final(c, o); break; } RaSha2Final(c, o); break;
	default: RaSha2Final(c, o); break;
	}
}
static void *create(int alg)
{
	void *c = NULL;
	int r;
	switch (alg) {
	case R_MD2: r = RaMd2Create((struct RaMd2Ctx **)&c); break;
	case R_MD4: r = RaMd4Create((struct RaMd4Ctx **)&c); break;
	case R_MD5: r = RaMd5Create((struct RaMd5Ctx **)&c); break;
	case R_SHA1: r = RaSha1Create((struct RaSha1Ctx **)&c); break;
	case R_HAS160: r = RaHas160Create((struct RaHas160Ctx **)&c); break;
	default: r = RaSha2Create(code(alg), (struct RaSha2Ctx **)&c); break;
	}
	return r == RA_ERR_SUCCESS ? c : NULL;
}
static void destroy(int alg, void *c)
{
	switch (alg) {
	case R_MD2: RaMd2Destroy(c); break;
	case R_MD4: RaMd4Destroy(c); break;
	case R_MD5: RaMd5Destroy(c); break;
	case R_SHA1: RaSha1Destroy(c); break;
	case R_HAS160: RaHas160Destroy(c); break;
	default: RaSha2Destroy(c); break;
	}
}
static void oneshot(int alg, const uint8_t *d, int n, uint8_t *o)
{
	switch (alg) {
	case R_MD2: RaMd2(d, n, o); break;
	case R_MD4: RaMd4(d, n, o); break;
	case R_MD5: RaMd5(d, n, o); break;
	case R_SHA1: RaSha1(d, n, o); break;
	case R_HAS160: RaHas160(d, n, o); break;
	case R_SHA256: RaSha256(d, n, o); break;
	case R_SHA512: RaSha512(d, n, o); break;
	}
}

/* A: a message of len bytes.  way: 0 created object, 1 caller's object, 2 one call, 3 object used before (len 'junk' bytes, finished
   or not), 4 caller's object through the algorithm's own entry points; the message arrives in three pieces */
int lib_digest(int alg, int way, int l1, int l2, int l3, int junk, int finish, const uint8_t *msg, const uint8_t *old, uint8_t *out)
{
	union any u;
	uint8_t tmp[64];
	void *c = &u;
	int own = way == 4;
	if (way == 2) {
		oneshot(alg, msg, l1 + l2 + l3, out);
		return outlen(alg);
	}
	if (way == 0 || way == 3) {
		c = create(alg);
		if (c == NULL)
			return -1;
	}
	if (way == 3) {
		update(alg, own, c, old, junk);
		if (finish)
			final(alg, own, c, tmp);
	}
	if (way != 0)
		init(alg, own, c);
	if (l1)
		update(alg, own, c, msg, l1);
	if (l2 >= 0)
		update(alg, own, c, msg + l1, l2);
	if (l3)
		update(alg, own, c, msg + l1 + l2, l3);
	final(alg, own, c, out);
	if (way == 0 || way == 3)
		destroy(alg, c);
	return outlen(alg);
}
int ref_digest_(int alg, int way, int l1, int l2, int l3, int junk, int finish, const uint8_t *msg, const uint8_t *old, uint8_t *out)
{
	ref_digest(alg, msg, l1 + (l2 > 0 ? l2 : 0) + l3, out);
	return outlen(alg);
}

/* for the analysis: where the chaining value is kept */
const int off_md4 = offsetof(struct RaMd4Ctx, h), off_md5 = offsetof(struct RaMd5Ctx, h), off_sha1 = offsetof(struct RaSha1Ctx, h),
	off_sha2 = offsetof(struct RaSha2Ctx, h), off_has160 = offsetof(struct RaHas160Ctx, h);

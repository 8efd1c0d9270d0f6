/* Pairs of functions lib_X / ref_X: the library's public interface on one side,
   the published definition on the other.  Only analysed, never run. */
#include <racrypt.h>
#include <stdlib.h>
#include "../ref/ref.h"

/* one entry per exported operation, so that every algorithm is reached through its own interface */
#define OPS(N, Ctx) \
	static int N##_enc(void *c, const uint8_t *i, int n, uint8_t *o) { return Ra##N##Encrypt((struct Ctx *)c, i, n, o); } \
	static int N##_encf(void *c, const uint8_t *i, int n, uint8_t *o, int p) { return Ra##N##EncryptFinal((struct Ctx *)c, i, n, o, (enum RaBlockCipherPaddingType)p); } \
	static int N##_dec(void *c, const uint8_t *i, int n, uint8_t *o) { return Ra##N##Decrypt((struct Ctx *)c, i, n, o); } \
	static int N##_decf(void *c, const uint8_t *i, int n, uint8_t *o, int p) { return Ra##N##DecryptFinal((struct Ctx *)c, i, n, o, (enum RaBlockCipherPaddingType)p); } \
	static void N##_setiv(void *c, const uint8_t *iv) { Ra##N##SetIV((struct Ctx *)c, iv); } \
	static void N##_getiv(void *c, uint8_t *iv) { Ra##N##GetIV((struct Ctx *)c, iv); } \
	static void N##_destroy(void *c) { Ra##N##Destroy((struct Ctx *)c); }
OPS(Aes, RaAesCtx)
OPS(Des, RaDesCtx)
OPS(Seed, RaSeedCtx)
OPS(Aria, RaAriaCtx)
OPS(Blowfish, RaBlowfishCtx)

struct ops {
	int (*enc)(void *, const uint8_t *, int, uint8_t *);
	int (*encf)(void *, const uint8_t *, int, uint8_t *, int);
	int (*dec)(void *, const uint8_t *, int, uint8_t *);
	int (*decf)(void *, const uint8_t *, int, uint8_t *, int);
	void (*setiv)(void *, const uint8_t *);
	void (*getiv)(void *, uint8_t *);
	void (*destroy)(void *);
};
#define ROW(N) { N##_enc, N##_encf, N##_dec, N##_decf, N##_setiv, N##_getiv, N##_destroy }
static const struct ops tab[] = { ROW(Aes), ROW(Des), ROW(Seed), ROW(Aria), ROW(Blowfish), ROW(Des) };

static enum RaBlockCipherMode modeof(int m)
{
	return m == 0 ? RA_BLOCK_MODE_ECB : m == 1 ? RA_BLOCK_MODE_CBC : m == 2 ? RA_BLOCK_MODE_CFB : RA_BLOCK_MODE_OFB;
}
static int padof(int p)
{
	return p == 0 ? RA_BLOCK_PADDING_NONE : p == 1 ? RA_BLOCK_PADDING_ZERO : RA_BLOCK_PADDING_PKCS7;
}

static void *create(int alg, const uint8_t *key, int keylen, int mode)
{
	enum RaBlockCipherMode m = modeof(mode);
	void *c = NULL;
	int r = -1;
	switch (alg) {
	case R_AES:
		r = RaAesCreate(key, keylen == 16 ? RA_AES_128 : keylen == 24 ? RA_AES_192 : RA_AES_256, m, (struct RaAesCtx **)&c);
		break;
	case R_DES:
	case R_DESK:
		r = RaDesCreate(key, keylen == 8 ? RA_DES : keylen == 16 ? RA_DES_EDE2 : RA_DES_EDE3, m, (struct RaDesCtx **)&c);
		break;
	case R_SEED:
		r = RaSeedCreate(key, m, (struct RaSeedCtx **)&c);
		break;
	case R_ARIA:
		r = RaAriaCreate(key, keylen == 16 ? RA_ARIA_128 : keylen == 24 ? RA_ARIA_192 : RA_ARIA_256, m, (struct RaAriaCtx **)&c);
		break;
	case R_BLOWFISH:
		r = RaBlowfishCreate(key, keylen, m, (struct RaBlowfishCtx **)&c);
		break;
	}
	return r == RA_ERR_SUCCESS ? c : NULL;
}

/* an object of the caller's own, possibly set up before for something else */
union anyc { struct RaAesCtx a; struct RaDesCtx d; struct RaSeedCtx s; struct RaAriaCtx r; struct RaBlowfishCtx b; };
static void initc(void *u, int alg, const uint8_t *key, int keylen, int mode)
{
	enum RaBlockCipherMode m = modeof(mode);
	switch (alg) {
	case R_AES:
		RaAesInit(u, key, keylen == 16 ? RA_AES_128 : keylen == 24 ? RA_AES_192 : RA_AES_256, m);
		break;
	case R_DES:
	case R_DESK:
		RaDesInit(u, key, keylen == 8 ? RA_DES : keylen == 16 ? RA_DES_EDE2 : RA_DES_EDE3, m);
		break;
	case R_SEED:
		RaSeedInit(u, key, m);
		break;
	case R_ARIA:
		RaAriaInit(u, key, keylen == 16 ? RA_ARIA_128 : keylen == 24 ? RA_ARIA_192 : RA_ARIA_256, m);
		break;
	case R_BLOWFISH:
		RaBlowfishInit(u, key, keylen, m);
		break;
	}
}

/* A: one block under one key */
int lib_block(int alg, int dec, int keylen, const uint8_t *key, const uint8_t *in, uint8_t *out)
{
	void *c = create(alg, key, keylen, 0);
	int n = dec ? tab[alg].dec(c, in, ref_blocklen(alg), out) : tab[alg].enc(c, in, ref_blocklen(alg), out);
	tab[alg].destroy(c);
	return n;
}
int ref_block(int alg, int dec, int keylen, const uint8_t *key, const uint8_t *in, uint8_t *out)
{
	struct rkey k;
	ref_setkey(&k, alg, key, keylen);
	if (dec)
		ref_dec(&k, in, out);
	else
		ref_enc(&k, in, out);
	return ref_blocklen(alg);
}

/* both directions with one object, one after the other */
int lib_both(int alg, int keylen, const uint8_t *key, const uint8_t *in, uint8_t *out, uint8_t *back)
{
	void *c = create(alg, key, keylen, 0);
	int bl = ref_blocklen(alg), n = tab[alg].enc(c, in, bl, out);
	n += tab[alg].dec(c, in, bl, back);
	n += tab[alg].enc(c, in, bl, out);
	tab[alg].destroy(c);
	return n;
}
int ref_both(int alg, int keylen, const uint8_t *key, const uint8_t *in, uint8_t *out, uint8_t *back)
{
	struct rkey k;
	ref_setkey(&k, alg, key, keylen);
	ref_enc(&k, in, out);
	ref_dec(&k, in, back);
	return 3 * ref_blocklen(alg);
}

/* B: a whole message in up to three calls, any mode, any padding.
   lens receives what each call returned; after the message the vector is read back. */
int lib_session(int alg, int keylen, int mode, int dec, int pad, int l1, int l2, int l3, int set, int inplace, int again, int own,
                const uint8_t *key, const uint8_t *iv, const uint8_t *in, const uint8_t *junk, uint8_t *out, uint8_t *ivout, int *lens)
{
	union anyc u;
	uint8_t tmp[96];
	void *c = &u;
	const struct ops *o = &tab[alg];
	int n = 0, i, t, len[3], bl = ref_blocklen(alg);
	len[0] = l1; len[1] = l2; len[2] = l3;
	if (own == 2) {
		/* the object served for something else before */
		initc(c, alg, key, keylen, (mode + 1) & 3);
		o->setiv(c, junk);
		o->enc(c, junk, 3, tmp);
	}
	if (own)
		initc(c, alg, key, keylen, mode);
	else
		c = create(alg, key, keylen, mode);
	if (set)
		o->setiv(c, iv);
	if (again) {
		/* another message, finished (1) or abandoned (2), leaves no trace once the vector is set anew */
		if (dec)
			t = o->dec(c, junk, 5, tmp);
		else
			t = o->enc(c, junk, 5, tmp);
		if (again == 1 && dec)
			o->decf(c, junk + 5, bl - 5, tmp, 0);
		else if (again == 1)
			o->encf(c, junk + 5, 2, tmp, RA_BLOCK_PADDING_PKCS7);
		o->setiv(c, iv);
	}
	if (inplace) {
		for (i = 0; i < (l1 > 0 ? l1 : 0) + (l2 > 0 ? l2 : 0) + l3; i++)
			out[i] = in[i];
		in = out;
	}
	for (i = 0; i < 3; i++) {
		if (i < 2 && len[i] < 0)
			t = 0;
		else if (i < 2)
			t = dec ? o->dec(c, in, len[i], out) : o->enc(c, in, len[i], out);
		else
			t = dec ? o->decf(c, in, len[i], out, padof(pad)) : o->encf(c, in, len[i], out, padof(pad));
		lens[i] = t;
		if (len[i] > 0)
			in += len[i];
		out += t;
		n += t;
	}
	o->getiv(c, ivout);
	if (!own)
		o->destroy(c);
	return n;
}

static void ref_mode(const struct rkey *k, int mode, int dec, uint8_t *iv, const uint8_t *in, uint8_t *out)
{
	uint8_t b[16], x[16];
	int i, bl = ref_blocklen(k->alg);
	for (i = 0; i < bl; i++)
		x[i] = in[i];
	switch (mode) {
	case 0:
		if (dec) ref_dec(k, x, out); else ref_enc(k, x, out);
		break;
	case 1:
		if (dec) {
			ref_dec(k, x, b);
			for (i = 0; i < bl; i++) {
				out[i] = b[i] ^ iv[i];
				iv[i] = x[i];
			}
		} else {
			for (i = 0; i < bl; i++)
				b[i] = x[i] ^ iv[i];
			ref_enc(k, b, iv);
			for (i = 0; i < bl; i++)
				out[i] = iv[i];
		}
		break;
	case 2:
		ref_enc(k, iv, b);
		for (i = 0; i < bl; i++) {
			out[i] = x[i] ^ b[i];
			iv[i] = dec ? x[i] : out[i];
		}
		break;
	default:
		ref_enc(k, iv, b);
		for (i = 0; i < bl; i++) {
			iv[i] = b[i];
			out[i] = x[i] ^ iv[i];
		}
		break;
	}
}

int ref_session(int alg, int keylen, int mode, int dec, int pad, int l1, int l2, int l3, int set, int inplace, int again, int own,
                const uint8_t *key, const uint8_t *iv, const uint8_t *in, const uint8_t *junk, uint8_t *out, uint8_t *ivout, int *lens)
{
	struct rkey k;
	uint8_t v[16], b[16];
	int bl = ref_blocklen(alg), tot, n = 0, i;
	if (l1 < 0)
		l1 = 0;
	if (l2 < 0)
		l2 = 0;
	tot = l1 + l2 + l3;
	ref_setkey(&k, alg, key, keylen);
	for (i = 0; i < bl; i++)
		v[i] = set ? iv[i] : 0;
	if (inplace)
		for (i = 0; i < tot; i++)
			out[i] = in[i];
	lens[0] = l1 / bl * bl;
	lens[1] = (l1 + l2) / bl * bl - lens[0];
	for (; n + bl <= tot; n += bl)
		ref_mode(&k, mode, dec, v, in + n, out + n);
	lens[2] = n - lens[0] - lens[1];
	if (!dec && (pad == 2 || (pad == 1 && n < tot))) {
		for (i = 0; i < bl; i++)
			b[i] = n + i < tot ? in[n + i] : pad == 2 ? (uint8_t)(bl - (tot - n)) : 0;
		ref_mode(&k, mode, 0, v, b, out + n);
		lens[2] += bl;
	}
	for (i = 0; i < bl; i++)
		ivout[i] = v[i];
	return lens[0] + lens[1] + lens[2];
}

/* one block by the published cipher, or (self) by the library's, whose own correctness is another property */
static void unblock(int self, struct rkey *k, int alg, const uint8_t *key, int keylen, const uint8_t *in, uint8_t *out)
{
	void *x;
	if (!self) {
		ref_dec(k, in, out);
		return;
	}
	x = create(alg, key, keylen, 0);
	tab[alg].dec(x, in, ref_blocklen(alg), out);
	tab[alg].destroy(x);
}

/* C: removing the padding.  The vector is chosen so that the last plaintext block is exactly `plain`. */
int lib_unpad(int alg, int self, int keylen, int blocks, int prev, const uint8_t *key, const uint8_t *in, const uint8_t *plain, uint8_t *out)
{
	struct rkey k;
	uint8_t d[16], c[64];
	void *x = create(alg, key, keylen, 1);
	int bl = ref_blocklen(alg), i, n = 0;
	if (!self)
		ref_setkey(&k, alg, key, keylen);
	for (i = 0; i < bl * (blocks + 1); i++)
		c[i] = in[i];
	unblock(self, &k, alg, key, keylen, in + bl * blocks, d);
	for (i = 0; i < bl; i++)
		c[bl * (blocks - 1) + i] = d[i] ^ plain[i];
	tab[alg].setiv(x, c);
	if (prev)
		n = tab[alg].dec(x, c + bl, prev, out);
	n += tab[alg].decf(x, c + bl + prev, bl * blocks - prev, out + n, RA_BLOCK_PADDING_PKCS7);
	tab[alg].destroy(x);
	return n;
}
int ref_unpad(int alg, int self, int keylen, int blocks, int prev, const uint8_t *key, const uint8_t *in, const uint8_t *plain, uint8_t *out)
{
	struct rkey k;
	uint8_t d[16], c[64];
	int bl = ref_blocklen(alg), i, j, p;
	if (!self)
		ref_setkey(&k, alg, key, keylen);
	for (i = 0; i < bl * (blocks + 1); i++)
		c[i] = in[i];
	unblock(self, &k, alg, key, keylen, in + bl * blocks, d);
	for (i = 0; i < bl; i++)
		c[bl * (blocks - 1) + i] = d[i] ^ plain[i];
	for (j = 1; j <= blocks; j++) {
		unblock(self, &k, alg, key, keylen, c + bl * j, d);
		for (i = 0; i < bl; i++)
			out[bl * (j - 1) + i] = d[i] ^ c[bl * (j - 1) + i];
	}
	p = plain[bl - 1];
	if (p < 1 || p > bl)
		return bl * blocks;
	for (i = 0; i < p; i++)
		if (plain[bl - 1 - i] != p)
			return bl * blocks;
	return bl * blocks - p;
}

/* D: stream cipher, in up to three calls */
int lib_rc4(int keylen, int dec, int way, int l1, int l2, int l3, const uint8_t *key, const uint8_t *in, uint8_t *out)
{
	struct RaRc4Ctx own, *c = &own;
	uint8_t tmp[8];
	int n = 0, i, len[3];
	len[0] = l1; len[1] = l2; len[2] = l3;
	if (way == 2) {
		RaRc4Init(c, in, 1);
		RaRc4Encrypt(c, in, 1, tmp);
		RaRc4Init(c, key, keylen);
	} else if (RaRc4Create(key, keylen, &c) != RA_ERR_SUCCESS)
		return -1;
	if (way == 1) {
		for (i = 0; i < l1 + l2 + l3; i++)
			out[i] = in[i];
		in = out;
	}
	for (i = 0; i < 3; i++)
		n += dec ? RaRc4Decrypt(c, in + n, len[i], out + n) : RaRc4Encrypt(c, in + n, len[i], out + n);
	if (way != 2)
		RaRc4Destroy(c);
	return n;
}
int ref_rc4s(int keylen, int dec, int way, int l1, int l2, int l3, const uint8_t *key, const uint8_t *in, uint8_t *out)
{
	ref_rc4(key, keylen, in, l1 + l2 + l3, out);
	return l1 + l2 + l3;
}

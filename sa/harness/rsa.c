/* Pairs of functions lib_X / ref_X for RSA keys.  Only analysed, never run.
 * The bytes of the integers of a key are unknown (buffer K); the lengths and the first byte of each are given. */
#include <racrypt.h>
#include <stdlib.h>
#include <string.h>

struct RaMontCtx;
int RaMontCreate(struct RaBigNumber *N, struct RaMontCtx **montCtx);
void RaMontDestroy(struct RaMontCtx *ctx);
int RaMontExpMod(struct RaMontCtx *ctx, struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b);

typedef bn_uint_t W;
#define S ((int)sizeof(W))

/* the integers: n e d p q dp dq qinv */
struct ints {
	int count;
	int len[8];			/* bytes of the magnitude */
	int lead[8];		/* first byte of the magnitude, 1..255 */
	const uint8_t *k[8];
};

static void ints(struct ints *x, int private, int nl, int el, int dl, int pl, int ql, int top, const uint8_t *K)
{
	const int len[8] = { nl, el, dl, pl, ql, pl, ql, pl };
	int i, o = 0;
	x->count = private ? 8 : 2;
	for (i = 0; i < 8; i++) {
		x->len[i] = len[i];
		x->lead[i] = i == 1 ? 0x01 : i == 2 ? (top ? 0x5b : 0x9c) : i == 5 || i == 7 ? 0x2f : i == 6 ? 0xf1 : i > 0 && top == 0 ? 0x41 : top;
		x->k[i] = K + o;
		o += len[i];
	}
}

static uint8_t at(const struct ints *x, int i, int j)
{
	return j == 0 ? (uint8_t)x->lead[i] : x->k[i][j];
}

/* a length field; wide: number of octets of a needlessly long one */
static int length(uint8_t *p, int n, int wide)
{
	int k, m = 0;
	if (n < 128 && wide == 0) {
		if (p != NULL)
			p[0] = (uint8_t)n;
		return 1;
	}
	for (k = n; k != 0; k >>= 8)
		m++;
	if (m < wide)
		m = wide;
	if (p != NULL) {
		p[0] = (uint8_t)(0x80 + m);
		for (k = 0; k < m; k++)
			p[1 + k] = (uint8_t)(n >> (8 * (m - 1 - k)));
	}
	return 1 + m;
}

static int number(uint8_t *p, const struct ints *x, int i, int pad, int wide)
{
	int z = x->lead[i] >= 128 ? 1 + pad : pad, n = z + x->len[i], o, j;
	if (p != NULL)
		p[0] = 2;
	o = 1 + length(p != NULL ? p + 1 : NULL, n, wide);
	if (p != NULL) {
		for (j = 0; j < z; j++)
			p[o + j] = 0;
		for (j = 0; j < x->len[i]; j++)
			p[o + z + j] = at(x, i, j);
	}
	return o + n;
}

static const uint8_t algorithm[15] = { 0x30, 13, 6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 13, 1, 1, 1, 5, 0 };

/* SEQUENCE of the integers (PKCS #1) */
static int pkcs1(uint8_t *p, const struct ints *x, int pad, int wide, int drop)
{
	int n = x->count == 8 ? 3 : 0, i, o;
	for (i = 0; i < x->count - drop; i++)
		n += number(NULL, x, i, pad, wide);
	if (p != NULL)
		p[0] = 0x30;
	o = 1 + length(p != NULL ? p + 1 : NULL, n, wide);
	if (p == NULL)
		return o + n;
	if (x->count == 8) {
		p[o++] = 2;
		p[o++] = 1;
		p[o++] = 0;
	}
	for (i = 0; i < x->count - drop; i++)
		o += number(p + o, x, i, pad, wide);
	return o;
}

/* PrivateKeyInfo or SubjectPublicKeyInfo */
static int container(uint8_t *p, const struct ints *x, int pad, int wide, int drop)
{
	int inner = pkcs1(NULL, x, pad, wide, drop), private = x->count == 8, n, o;
	int wrapped = private ? inner : inner + 1;
	n = (private ? 3 : 0) + 15 + 1 + length(NULL, wrapped, wide) + wrapped;
	if (p != NULL)
		p[0] = 0x30;
	o = 1 + length(p != NULL ? p + 1 : NULL, n, wide);
	if (p == NULL)
		return o + n;
	if (private) {
		p[o++] = 2;
		p[o++] = 1;
		p[o++] = 0;
	}
	memcpy(p + o, algorithm, 15);
	o += 15;
	p[o++] = private ? 4 : 3;
	o += length(p + o, wrapped, wide);
	if (!private)
		p[o++] = 0;
	return o + pkcs1(p + o, x, pad, wide, drop);
}

static struct RaBigNumber *bn(const uint8_t *p, int first, int len)
{
	int n = (len + S - 1) / S, k;
	struct RaBigNumber *b = BnNewW(n + 1);
	for (k = 0; k < n; k++)
		b->data[k] = 0;
	for (k = 0; k < len; k++)
		b->data[k / S] |= (W)(k == len - 1 ? (uint8_t)first : p[len - 1 - k]) << (8 * (k % S));
	b->length = n;
	b->sign = 0;
	return b;
}

static void result(int code, struct RaBigNumber *r, uint8_t *out)
{
	int k;
	for (k = 0; k < 4; k++)
		out[k] = (uint8_t)(code >> (8 * k));
	if (code == RA_ERR_SUCCESS && r != NULL) {
		out[4] = (uint8_t)r->length;
		out[5] = (uint8_t)r->sign;
		memcpy(out + 8, r->data, r->length * S);
	}
}

enum { ENCRYPT, DECRYPT, SIGN, VERIFY, BITS, PUBLIC, PRIVATE };

/* form: 0 in its container, 1 the bare PKCS #1 sequence */
static int import(struct RaRsaKeyPair **key, const struct ints *x, int form, int pad, int wide)
{
	int n = form ? pkcs1(NULL, x, pad, wide, 0) : container(NULL, x, pad, wide, 0), c;
	uint8_t *der = malloc(n);
	if (form) {
		pkcs1(der, x, pad, wide, 0);
		c = x->count == 8 ? RaRsaCreateKeyPriv(der, n, key) : RaRsaCreateKeyPub(der, n, key);
	}
	else {
		container(der, x, pad, wide, 0);
		c = RaRsaCreateKeyFromByteArray(der, n, key);
	}
	memset(der, 0, n);		/* the key does not depend on the data once it is there */
	free(der);
	return c;
}

int lib_rsa(int op, int private, int form, int nl, int el, int dl, int pl, int ql, int top, int pad, int wide, int ml, int room, uint8_t *K, uint8_t *M, uint8_t *out)
{
	struct ints x;
	struct RaRsaKeyPair *key = NULL;
	struct RaBigNumber *m, *r;
	int c, n = -1, k;
	ints(&x, private, nl, el, dl, pl, ql, top, K);
	c = import(&key, &x, form, pad, wide);
	if (c != RA_ERR_SUCCESS || key == NULL)
		return -1000;
	if (op <= VERIFY) {
		m = bn(M, 0x70, ml);
		r = op == VERIFY ? bn(M + ml, M[ml] | 0x80, room) : BnNewW(nl / S + 2);
		switch (op) {
		case ENCRYPT: c = RaRsaEncrypt(key, m, r); break;
		case DECRYPT: c = RaRsaDecrypt(key, m, r); break;
		case SIGN: c = RaRsaSign(key, m, r); break;
		case VERIFY: c = RaRsaVerify(key, m, r) == RA_ERR_SUCCESS ? 1 : 0; break;
		}
		if (op == VERIFY)
			return c;
		result(c != RA_ERR_SUCCESS, r, out);
		return 0;
	}
	switch (op) {
	case BITS: return RaRsaKeyBitLength(key);
	case PUBLIC: c = RaRsaPubKeyToByteArray(key, room < 0 ? NULL : out, room < 0 ? 0 : room, &n); break;
	case PRIVATE: c = RaRsaPrivKeyToByteArray(key, room < 0 ? NULL : out, room < 0 ? 0 : room, &n); break;
	}
	if (c != RA_ERR_SUCCESS) {
		for (k = 0; k < room; k++)
			out[k] = 0;
		return -1;
	}
	for (k = n; k < room; k++)
		out[k] = 0;
	return n;
}

int ref_rsa(int op, int private, int form, int nl, int el, int dl, int pl, int ql, int top, int pad, int wide, int ml, int room, uint8_t *K, uint8_t *M, uint8_t *out)
{
	struct ints x;
	struct RaMontCtx *mont = NULL;
	struct RaBigNumber *m, *r, *e, *mod;
	int c, i, n, k;
	ints(&x, private, nl, el, dl, pl, ql, top, K);
	mod = bn(x.k[0], x.lead[0], nl);
	if (op <= VERIFY) {
		m = bn(M, 0x70, ml);
		i = op == ENCRYPT || op == VERIFY ? 1 : 2;
		if (i == 2 && !private) {
			result(1, NULL, out);
			return 0;
		}
		if (m->length > mod->length) {
			if (op == VERIFY)
				return 0;
			result(1, NULL, out);
			return 0;
		}
		e = bn(x.k[i], x.lead[i], x.len[i]);
		RaMontCreate(mod, &mont);
		r = BnNewW(nl / S + 2);
		c = RaMontExpMod(mont, r, m, e);
		if (op == VERIFY) {
			struct RaBigNumber *t = bn(M + ml, M[ml] | 0x80, room);
			if (t->length != r->length)
				return 0;
			for (k = 0; k < t->length; k++)
				if (t->data[k] != r->data[k])
					return 0;
			return 1;
		}
		result(c != RA_ERR_SUCCESS, r, out);
		return 0;
	}
	if (op == BITS) {
		for (k = 7; !(top >> k & 1); k--)
			;
		return 8 * (nl - 1) + k + 1;
	}
	if (op == PRIVATE && !private) {
		for (k = 0; k < room; k++)
			out[k] = 0;
		return -1;
	}
	if (op == PUBLIC)
		x.count = 2;
	n = container(NULL, &x, 0, 0, 0);
	if (room < 0)
		return n;
	if (room < n) {
		for (k = 0; k < room; k++)
			out[k] = 0;
		return -1;
	}
	container(out, &x, 0, 0, 0);
	for (k = n; k < room; k++)
		out[k] = 0;
	return n;
}

/* malformed data: 1 cut to `pos` bytes, 2 one byte at `pos` replaced, 3 without the last `pos` integers, 4 one byte at `pos` increased */
int lib_reject(int private, int form, int nl, int el, int dl, int pl, int ql, int top, int how, int pos, int val, uint8_t *K)
{
	struct ints x;
	struct RaRsaKeyPair *key = NULL;
	int n, c, drop = how == 3 ? pos : 0;
	uint8_t *der, *buf;
	ints(&x, private, nl, el, dl, pl, ql, top, K);
	n = form ? pkcs1(NULL, &x, 0, 0, drop) : container(NULL, &x, 0, 0, drop);
	buf = malloc(n);
	if (form)
		pkcs1(buf, &x, 0, 0, drop);
	else
		container(buf, &x, 0, 0, drop);
	if (how == 2)
		buf[pos] = (uint8_t)val;
	if (how == 4)
		buf[pos] = (uint8_t)(buf[pos] + val);
	if (how == 1)
		n = pos;
	der = malloc(n);
	memcpy(der, buf, n);
	if (form)
		c = private ? RaRsaCreateKeyPriv(der, n, &key) : RaRsaCreateKeyPub(der, n, &key);
	else
		c = RaRsaCreateKeyFromByteArray(der, n, &key);
	return c != RA_ERR_SUCCESS && key == NULL;
}

int ref_reject(int private, int form, int nl, int el, int dl, int pl, int ql, int top, int how, int pos, int val, uint8_t *K)
{
	return 1;
}

/* Pairs of functions lib_X / ref_X for the making and checking of RSA keys.  Only analysed, never run. */
#include <racrypt.h>
#include <stdlib.h>
#include <string.h>

typedef bn_uint_t W;
#define S ((int)sizeof(W))

static struct RaBigNumber *bn(const uint8_t *p, int len)
{
	int n = (len + S - 1) / S, k;
	struct RaBigNumber *b = BnNewW(n + 1);
	for (k = 0; k < n; k++)
		b->data[k] = 0;
	for (k = 0; k < len; k++)
		b->data[k / S] |= (W)p[len - 1 - k] << (8 * (k % S));
	b->length = n;
	b->sign = 0;
	return b;
}

static int length(uint8_t *p, int n)
{
	int k, m = 0;
	if (n < 128) {
		p[0] = (uint8_t)n;
		return 1;
	}
	for (k = n; k != 0; k >>= 8)
		m++;
	p[0] = (uint8_t)(0x80 + m);
	for (k = 0; k < m; k++)
		p[1 + k] = (uint8_t)(n >> (8 * (m - 1 - k)));
	return 1 + m;
}

static int lenlen(int n)
{
	return n < 128 ? 1 : n < 256 ? 2 : 3;
}

/* n e d p q dp dq qinv: lengths, and whether a zero byte comes first */
struct shape { int len[8], z[8], at[8], inner, seq, outer, total; };

static void shape(struct shape *s, int bit)
{
	const int l[8] = { bit / 8, 3, bit / 8, bit / 16, bit / 16, bit / 16, bit / 16, bit / 16 };
	const int z[8] = { 1, 0, 0, 1, 1, 0, 0, 0 };
	int i, o;
	s->inner = 3;
	for (i = 0; i < 8; i++) {
		s->len[i] = l[i];
		s->z[i] = z[i];
		s->inner += 1 + lenlen(l[i] + z[i]) + l[i] + z[i];
	}
	s->seq = 1 + lenlen(s->inner) + s->inner;
	s->outer = 3 + 15 + 1 + lenlen(s->seq) + s->seq;
	s->total = 1 + lenlen(s->outer) + s->outer;
	o = s->total - s->inner + 3;
	for (i = 0; i < 8; i++) {
		o += 1 + lenlen(l[i] + z[i]) + z[i];
		s->at[i] = o;
		o += l[i];
	}
}

static const uint8_t algorithm[15] = { 0x30, 13, 6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 13, 1, 1, 1, 5, 0 };

static void header(uint8_t *p, const struct shape *s)
{
	int o = 0, i;
	p[o++] = 0x30;
	o += length(p + o, s->outer);
	p[o++] = 2;
	p[o++] = 1;
	p[o++] = 0;
	memcpy(p + o, algorithm, 15);
	o += 15;
	p[o++] = 4;
	o += length(p + o, s->seq);
	p[o++] = 0x30;
	o += length(p + o, s->inner);
	p[o++] = 2;
	p[o++] = 1;
	p[o++] = 0;
	for (i = 0; i < 8; i++) {
		p[o++] = 2;
		o += length(p + o, s->len[i] + s->z[i]);
		if (s->z[i])
			p[o++] = 0;
		o += s->len[i];
	}
}

static void bytes(uint8_t *p, struct RaBigNumber *b, int len)
{
	int k;
	for (k = 0; k < len; k++)
		p[len - 1 - k] = k / S < b->length ? (uint8_t)(b->data[k / S] >> (8 * (k % S))) : 0;
}

static void result(int code, struct RaBigNumber *r, uint8_t *out)
{
	int k;
	for (k = 0; k < 4; k++)
		out[k] = (uint8_t)(code >> (8 * k));
	if (code == RA_ERR_SUCCESS) {
		out[4] = (uint8_t)r->length;
		out[5] = (uint8_t)r->sign;
		memcpy(out + 8, r->data, r->length * S);
	}
}

/* a new key: its export, and the message M encrypted and decrypted with it */
int lib_keygen(int bit, int total, const uint8_t *M, uint8_t *der, uint8_t *enc, uint8_t *dec)
{
	struct RaRsaKeyPair *key = NULL;
	struct RaBigNumber *m, *r;
	int c, n = 0;
	c = RaRsaCreateKeyPair(bit, &key);
	if (c != RA_ERR_SUCCESS)
		return -1000;
	c = RaRsaPrivKeyToByteArray(key, der, total, &n);
	if (c != RA_ERR_SUCCESS)
		return -2000;
	for (c = n; c < total; c++)
		der[c] = 0;
	m = bn(M, bit / 8);
	r = BnNewW(bit / 8 / S + 2);
	c = RaRsaEncrypt(key, m, r);
	result(c, r, enc);
	c = RaRsaDecrypt(key, m, r);
	result(c, r, dec);
	return n;
}

int ref_keygen(int bit, int total, const uint8_t *M, uint8_t *der, uint8_t *enc, uint8_t *dec)
{
	struct RaRsaKeyPair *key = NULL;
	struct RaMontCtx *mont = NULL;
	struct RaBigNumber *p, *q, *n, *e, *d, *phi, *p1, *q1, *r, *m;
	struct shape s;
	uint8_t *x;
	int c, k = 0;
	shape(&s, bit);
	x = malloc(total);
	/* the primes are those of the key; everything else follows from them */
	c = RaRsaCreateKeyPair(bit, &key);
	if (c != RA_ERR_SUCCESS)
		return -1000;
	c = RaRsaPrivKeyToByteArray(key, x, total, &k);
	p = bn(x + s.at[3], s.len[3]);
	q = bn(x + s.at[4], s.len[4]);
	if (BnCmp(p, q) == 0)
		return -3000;
	p1 = bn(x + s.at[3], s.len[3]);
	q1 = bn(x + s.at[4], s.len[4]);
	BnSubUInt(p1, 1);
	BnSubUInt(q1, 1);
	n = BnNew(bit + 8 * S);
	phi = BnNew(bit + 8 * S);
	d = BnNew(bit + 8 * S);
	r = BnNew(2 * bit + 8 * S);
	e = BnNewW(2);
	BnSetUInt(e, 65537);
	BnMul(n, p, q);
	BnMul(phi, p1, q1);
	header(der, &s);
	bytes(der + s.at[0], n, s.len[0]);
	bytes(der + s.at[1], e, s.len[1]);
	GetGCDEx(NULL, d, NULL, e, phi, 1);
	bytes(der + s.at[2], d, s.len[2]);
	bytes(der + s.at[3], p, s.len[3]);
	bytes(der + s.at[4], q, s.len[4]);
	BnMod(r, d, p1);
	bytes(der + s.at[5], r, s.len[5]);
	BnMod(r, d, q1);
	bytes(der + s.at[6], r, s.len[6]);
	GetGCDEx(NULL, r, NULL, q, p, 1);
	bytes(der + s.at[7], r, s.len[7]);
	for (k = s.total; k < total; k++)
		der[k] = 0;
	m = bn(M, bit / 8);
	RaMontCreate(n, &mont);
	c = RaMontExpMod(mont, r, m, e);
	result(c, r, enc);
	c = RaMontExpMod(mont, r, m, d);
	result(c, r, dec);
	return s.total;
}

/* the consistency check of an imported key: its numbers are those of a right key, except number `wrong`, which is unknown (buffer X) */
static uint8_t *sound(struct shape *s, int bit, int wrong, const uint8_t *P, const uint8_t *X)
{
	struct RaBigNumber *p, *q, *p1, *q1, *n, *phi, *d, *r, *e;
	uint8_t *der;
	int k;
	shape(s, bit);
	der = malloc(s->total);
	header(der, s);
	p = bn(P, s->len[3]);
	q = bn(P + s->len[3], s->len[4]);
	p1 = bn(P, s->len[3]);
	q1 = bn(P + s->len[3], s->len[4]);
	BnSubUInt(p1, 1);
	BnSubUInt(q1, 1);
	n = BnNew(bit + 8 * S);
	phi = BnNew(bit + 8 * S);
	d = BnNew(bit + 8 * S);
	r = BnNew(2 * bit + 8 * S);
	e = BnNewW(2);
	BnSetUInt(e, 65537);
	BnMul(n, p, q);
	BnMul(phi, p1, q1);
	bytes(der + s->at[0], n, s->len[0]);
	bytes(der + s->at[1], e, s->len[1]);
	GetGCDEx(NULL, d, NULL, e, phi, 1);
	bytes(der + s->at[2], d, s->len[2]);
	bytes(der + s->at[3], p, s->len[3]);
	bytes(der + s->at[4], q, s->len[4]);
	BnMod(r, d, p1);
	bytes(der + s->at[5], r, s->len[5]);
	BnMod(r, d, q1);
	bytes(der + s->at[6], r, s->len[6]);
	GetGCDEx(NULL, r, NULL, q, p, 1);
	bytes(der + s->at[7], r, s->len[7]);
	if (wrong >= 0) {
		for (k = 1; k < s->len[wrong]; k++)
			der[s->at[wrong] + k] = X[k];
		der[s->at[wrong]] = wrong == 0 ? 0xb7 : wrong == 1 ? 0x01 : wrong == 2 ? 0x5b : wrong < 5 ? 0xd5 : 0x2f;
		if (wrong == 3 || wrong == 4)
			der[s->at[wrong] + s->len[wrong] - 1] |= 1;
	}
	return der;
}

int lib_check(int bit, int wrong, const uint8_t *P, const uint8_t *X)
{
	struct RaRsaKeyPair *key = NULL;
	struct shape s;
	uint8_t *der = sound(&s, bit, wrong, P, X);
	if (RaRsaCreateKeyFromByteArray(der, s.total, &key) != RA_ERR_SUCCESS)
		return -1000;
	return RaRsaVerifyKey(key) == RA_ERR_SUCCESS ? 1 : 0;
}

static int same(struct RaBigNumber *a, struct RaBigNumber *b)
{
	int k;
	if (a->length != b->length)
		return 0;
	for (k = 0; k < a->length; k++)
		if (a->data[k] != b->data[k])
			return 0;
	return 1;
}

int ref_check(int bit, int wrong, const uint8_t *P, const uint8_t *X)
{
	struct RaRsaKeyPair *key = NULL;
	struct shape s;
	uint8_t *der = sound(&s, bit, wrong, P, X);
	struct RaBigNumber *v[8], *p1, *q1, *t, *phi;
	int k;
	if (RaRsaCreateKeyFromByteArray(der, s.total, &key) != RA_ERR_SUCCESS)
		return -1000;
	for (k = 0; k < 8; k++)
		v[k] = bn(der + s.at[k], s.len[k]);
	p1 = bn(der + s.at[3], s.len[3]);
	q1 = bn(der + s.at[4], s.len[4]);
	BnSubUInt(p1, 1);
	BnSubUInt(q1, 1);
	t = BnNew(2 * bit + 8 * S);
	phi = BnNew(bit + 8 * S);
	if (RaIsPrimeNumber(v[3]) != RA_ERR_SUCCESS)
		return 0;
	if (RaIsPrimeNumber(v[4]) != RA_ERR_SUCCESS)
		return 0;
	BnMul(t, v[3], v[4]);
	if (!same(t, v[0]))
		return 0;
	BnMul(phi, p1, q1);
	GetGCDEx(NULL, t, NULL, v[1], phi, 1);
	if (!same(t, v[2]))
		return 0;
	BnMod(t, v[2], p1);
	if (!same(t, v[5]))
		return 0;
	BnMod(t, v[2], q1);
	if (!same(t, v[6]))
		return 0;
	GetGCDEx(NULL, t, NULL, v[4], v[3], 1);
	if (!same(t, v[7]))
		return 0;
	return 1;
}

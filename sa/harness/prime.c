/* Pairs of functions lib_X / ref_X for random numbers and primes.  Only analysed, never run. */
#include <racrypt.h>
#include <stdlib.h>
#include <string.h>

typedef bn_uint_t W;
#define S ((int)sizeof(W))

/* stand-ins, uninterpreted */
int R_candidate(struct RaBigNumber *r, int bit);
int R_test(struct RaBigNumber *r, int rounds);

static struct RaBigNumber *room(int max, const uint8_t *old)
{
	struct RaBigNumber *b = BnNewW(max);
	memcpy(b->data, old, max * S);
	b->length = max;
	b->sign = 0;
	return b;
}

static void result(int code, struct RaBigNumber *r, uint8_t *out)
{
	int k;
	for (k = 0; k < 4; k++)
		out[k] = (uint8_t)(code >> (8 * k));
	if (code == RA_ERR_SUCCESS) {
		out[4] = (uint8_t)r->length;
		out[5] = (uint8_t)r->sign;
		for (k = 0; k < r->max_length; k++) {
			W w = k < r->length ? r->data[k] : 0;
			memcpy(out + 8 + k * S, &w, S);
		}
	}
}

/* op 0: any number, 1: odd, 2: odd and of full length, 3: bytes; own: the generator is the function's own */
int lib_number(int op, int bit, int max, int own, int neg, uint8_t *old, uint8_t *out)
{
	struct RaRandom *g = NULL;
	struct RaBigNumber *b;
	int c;
	if (!own && RaRandomCreate(RA_RAND_SHA160, NULL, 0, &g) != RA_ERR_SUCCESS)
		return -1000;
	if (op == 3)
		return BnGenRandomByteArray(out, bit, g);
	b = room(max, old);
	b->sign = neg;
	c = op == 0 ? BnGenRandom(b, bit, g) : op == 1 ? BnGetRandomOdd(b, bit, g) : BnGetRandomRSA(b, bit, g);
	result(c, b, out);
	return c;
}

int ref_number(int op, int bit, int max, int own, int neg, uint8_t *old, uint8_t *out)
{
	struct RaRandom *g = NULL;
	struct RaBigNumber *b;
	int c, k, n = (bit + 8 * S - 1) / (8 * S);
	if ((c = RaRandomCreate(RA_RAND_SHA160, NULL, 0, &g)) != RA_ERR_SUCCESS) {
		if (own && op < 3)
			result(c, NULL, out);
		return own ? c : -1000;
	}
	if (op == 3) {
		RaRandomBytes(g, bit, out);
		return RA_ERR_SUCCESS;
	}
	if (op == 2 && bit <= 0) {
		result(RA_ERR_INVALID_PARAM, NULL, out);
		return RA_ERR_INVALID_PARAM;
	}
	if (n > max) {
		result(RA_ERR_NUMBER_SIZE, NULL, out);
		return RA_ERR_NUMBER_SIZE;
	}
	b = room(max, old);
	RaRandomBytes(g, n * S, (uint8_t *)b->data);
	for (k = bit; k < n * 8 * S; k++)
		b->data[k / (8 * S)] &= ~((W)1 << (k % (8 * S)));
	if (op > 0)
		b->data[0] |= 1;
	if (op == 2)
		b->data[(bit - 1) / (8 * S)] |= (W)1 << ((bit - 1) % (8 * S));
	b->length = n;
	while (b->length > 1 && b->data[b->length - 1] == 0)
		b->length--;
	if (n <= 0) {
		b->length = 1;
		b->data[0] = op;
	}
	result(RA_ERR_SUCCESS, b, out);
	return RA_ERR_SUCCESS;
}

static struct RaBigNumber *bn(const uint8_t *p, int len)
{
	int n = (len + S - 1) / S, k;
	struct RaBigNumber *b = BnNewW(n + 1);
	for (k = 0; k < n; k++)
		b->data[k] = 0;
	for (k = 0; k < len; k++)
		b->data[k / S] |= (W)p[len - 1 - k] << (8 * (k % S));
	b->length = n;
	b->sign = 0;
	return b;
}

int lib_isprime(int len, uint8_t *N)
{
	int c = RaIsPrimeNumber(bn(N, len));
	return c == RA_ERR_SUCCESS ? 1 : c == RA_ERR_INVALID_DATA ? 0 : c;
}

static int equal(struct RaBigNumber *a, struct RaBigNumber *b)
{
	int k;
	if (a->length != b->length)
		return 0;
	for (k = a->length - 1; k >= 0; k--)
		if (a->data[k] != b->data[k])
			return 0;
	return 1;
}

/* the definition of the test; n is the number, its highest bit is set */
int ref_isprime(int len, uint8_t *N)
{
	struct RaRandom *g = NULL;
	struct RaMontCtx *mont = NULL;
	struct RaBigNumber *n = bn(N, len), *m = bn(N, len), *d = bn(N, len), *a, *x, *two = BnNewW(2);
	int s = 0, i, r, k, bits = BnGetBitLength(n), rounds = bits >= 1024 ? 3 : 5;
	if (n->length == 1 && n->data[0] < 2)
		return 0;
	if ((n->data[0] & 1) == 0)
		return n->length == 1 && n->data[0] == 2;
	m->data[0] ^= 1;
	while (!(m->data[s / (8 * S)] >> (s % (8 * S)) & 1))
		s++;
	d->data[0] ^= 1;
	BnShiftR(d, s);
	a = BnNewW(n->length);
	x = BnNewW(2 * n->length);
	two->data[0] = 2;
	two->length = 1;
	RaMontCreate(n, &mont);
	if ((r = RaRandomCreate(RA_RAND_SHA160, NULL, 0, &g)) != RA_ERR_SUCCESS)
		return r;
	for (k = 0; k < rounds; k++) {
		do {
			BnGenRandom(a, bits, g);
		} while (BnCmp(a, m) >= 0 || BnCmpInt(a, 1) <= 0);
		if ((r = RaMontExpMod(mont, x, a, d)) != RA_ERR_SUCCESS)
			return r;
		if ((x->length == 1 && x->data[0] == 1) || equal(x, m))
			continue;
		for (i = 1; i < s; i++) {
			if ((r = RaMontExpMod(mont, x, x, two)) != RA_ERR_SUCCESS)
				return r;
			if (equal(x, m))
				break;
		}
		if (i >= s)
			return 0;
	}
	return 1;
}

int lib_genprime(int bit, int own, uint8_t *out)
{
	struct RaRandom *g = NULL;
	struct RaBigNumber *b = BnNew(bit + 8 * S);
	int c;
	if (!own && RaRandomCreate(RA_RAND_SHA160, NULL, 0, &g) != RA_ERR_SUCCESS)
		return -1000;
	c = own ? RaGenPrimeNumber(b, bit) : RaGenPrimeNumberEx(b, bit, NULL, NULL, g);
	result(c, b, out);
	return c;
}

int ref_genprime(int bit, int own, uint8_t *out)
{
	struct RaBigNumber *b = BnNew(bit + 8 * S);
	struct RaRandom *g = NULL;
	int c = RaRandomCreate(RA_RAND_SHA160, NULL, 0, &g);
	if (c != RA_ERR_SUCCESS) {
		if (own)
			result(c, b, out);
		return own ? c : -1000;
	}
	do {
		c = R_candidate(b, bit);
		if (c == RA_ERR_SUCCESS)
			c = R_test(b, bit >= 1024 ? 3 : 5);
	} while (c == 0x7fff);
	result(c, b, out);
	return c;
}

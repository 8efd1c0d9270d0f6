/* Pairs of functions lib_X / ref_X for the random generator.  Only analysed, never run. */
#include <racrypt.h>
#include <stdlib.h>
#include "../ref/ref.h"

static enum RaRandomAlgorithm code(int a)
{
	return a == 0 ? RA_RAND_SHA160 : a == 1 ? RA_RAND_SHA256 : a == 2 ? RA_RAND_SHA512 : RA_RAND_MD5;
}

/* A: a seeded generator, in up to four requests; way 1: another generator is used in between;
   way > 1: the generator has delivered that many blocks by the end of the first request */
int lib_random(int alg, int way, int seedlen, int l1, int l2, int l3, int l4, uint8_t *seed, uint8_t *other, uint8_t *out)
{
	struct RaRandom *c = NULL, *d = NULL;
	uint8_t tmp[80];
	if (way == 1) {
		if (RaRandomCreate(code(alg), other, 3, &d) != RA_ERR_SUCCESS)
			return -1;
		RaRandomBytes(d, 30, tmp);
	}
	if (RaRandomCreate(code(alg), seed, seedlen, &c) != RA_ERR_SUCCESS)
		return -1;
	if (l1 >= 0)
		RaRandomBytes(c, l1, out);
	else
		l1 = 0;
	if (way > 1)
		c->count = way;
	if (way == 1)
		RaRandomBytes(d, 50, tmp);
	RaRandomBytes(c, l2, out + l1);
	if (way == 1)
		RaRandomDestroy(d);
	RaRandomBytes(c, l3, out + l1 + l2);
	RaRandomBytes(c, l4, out + l1 + l2 + l3);
	RaRandomDestroy(c);
	return 0;
}
int ref_random(int alg, int way, int seedlen, int l1, int l2, int l3, int l4, uint8_t *seed, uint8_t *other, uint8_t *out)
{
	uint8_t msg[1200], blk[64];
	int a = alg == 0 ? R_SHA1 : alg == 1 ? R_SHA256 : alg == 2 ? R_SHA512 : R_MD5;
	int bl = alg == 0 ? 20 : alg == 1 ? 32 : alg == 2 ? 64 : 16;
	int n = 0, tot = (l1 > 0 ? l1 : 0) + l2 + l3 + l4, i, done = 0, count = 0;
	for (i = 0; i < seedlen; i++)
		msg[n++] = seed[i];
	while (done < tot) {
		msg[n++] = (uint8_t)(count >> 24);
		msg[n++] = (uint8_t)(count >> 16);
		msg[n++] = (uint8_t)(count >> 8);
		msg[n++] = (uint8_t)count;
		count++;
		if (way > 1 && done + bl >= l1 && done < l1)
			count = way;
		ref_digest(a, msg, n, blk);
		for (i = 0; i < bl; i++) {
			msg[n++] = blk[i];
			if (done < tot)
				out[done++] = blk[i];
		}
	}
	return 0;
}

/* B: a generator seeded by the system: what the first block is made of */
int lib_entropy(int alg, int n, uint8_t *out)
{
	struct RaRandom *c = NULL;
	if (RaRandomCreate(code(alg), NULL, 0, &c) != RA_ERR_SUCCESS)
		return -1;
	RaRandomBytes(c, n, out);
	RaRandomDestroy(c);
	return 0;
}

/* Long messages: the object is put into the state it has after a given number of bytes,
   with an arbitrary chaining value; then more data and the end of the message follow. */
#include <racrypt.h>
#include <stdlib.h>
#include <string.h>
#include "../ref/ref.h"

int lib_long(int alg, int hi, int lo, int len, int way, const uint8_t *state, const uint8_t *pend, const uint8_t *msg, uint8_t *out)
{
	int fill, i;
	switch (alg) {
#define W32(N, T, n) { struct T c; N##Init(&c); c.totalLen_h = hi; c.totalLen_l = lo; fill = lo & 63; \
		for (i = 0; i < n; i++) c.h[i] = (uint32_t)state[4 * i] << 24 | state[4 * i + 1] << 16 | state[4 * i + 2] << 8 | state[4 * i + 3]; \
		for (i = 0; i < fill; i++) c.buffer[i] = pend[i]; \
		N##Update(&c, msg, len); N##Final(&c, out); return 4 * n; }
	case R_MD4: W32(RaMd4, RaMd4Ctx, 4)
	case R_MD5: W32(RaMd5, RaMd5Ctx, 4)
	case R_SHA1: W32(RaSha1, RaSha1Ctx, 5)
	case R_HAS160: W32(RaHas160, RaHas160Ctx, 5)
	case R_SHA256: case R_SHA512: {
		struct RaSha2Ctx c;
		int bl = alg == R_SHA512 ? 128 : 64, w = bl / 16, j;
		RaSha2Init(&c, alg == R_SHA512 ? RA_DGST_SHA2_512 : RA_DGST_SHA2_256);
		c.totalLen_hh = way;
		c.totalLen_h = hi;
		c.totalLen_l = lo;
		fill = lo & (bl - 1);
		for (i = 0; i < 8; i++) {
			uint64_t v = 0;
			for (j = 0; j < w; j++)
				v = v << 8 | state[w * i + j];
			c.h[i] = v;
		}
		for (i = 0; i < fill; i++)
			c.buffer[i] = pend[i];
		RaSha2Update(&c, msg, len);
		RaSha2Final(&c, out);
		return 8 * w;
	}
	}
	return -1;
}
int ref_long(int alg, int hi, int lo, int len, int way, const uint8_t *state, const uint8_t *pend, const uint8_t *msg, uint8_t *out)
{
	int bl = alg == R_SHA512 ? 128 : 64, w = bl / 16, n = alg == R_SHA1 || alg == R_HAS160 ? 5 : alg == R_MD4 || alg == R_MD5 ? 4 : 8;
	int big = alg == R_SHA1 || alg == R_SHA256 || alg == R_SHA512;
	uint64_t h[8], a = ((uint64_t)(uint32_t)hi << 32) | (uint32_t)lo, b, top = 0;
	uint32_t g[8];
	uint8_t x[128];
	int fill = lo & (bl - 1), tot, i, j, k;
	if (alg == R_SHA256 || alg == R_SHA512)
		top = (uint64_t)(int64_t)way;
	b = a + (uint64_t)len;
	if (b < a)
		top++;
	for (i = 0; i < n; i++) {
		uint64_t v = 0;
		for (j = 0; j < w; j++)
			v = v << 8 | state[w * i + j];
		h[i] = v;
		g[i] = (uint32_t)v;
	}
	tot = (fill + len + 1 + bl / 8 + bl - 1) / bl;
	for (k = 0; k < tot; k++) {
		for (i = 0; i < bl; i++) {
			int p = k * bl + i, q = tot * bl - 1 - p;
			x[i] = 0;
			if (p < fill)
				x[i] = pend[p];
			else if (p < fill + len)
				x[i] = msg[p - fill];
			else if (p == fill + len)
				x[i] = 0x80;
			else if (q < 8)
				x[i] = (uint8_t)((b << 3) >> (8 * (big ? q : 7 - q)));
			else if (q < 16 && alg == R_SHA512)
				x[i] = (uint8_t)((top << 3 | b >> 61) >> (8 * (q - 8)));
		}
		if (alg == R_SHA512)
			ref_block64(h, x);
		else
			ref_block32(alg, g, x);
	}
	for (i = 0; i < n * w; i++) {
		if (alg == R_SHA512)
			out[i] = (uint8_t)(h[i / 8] >> (56 - 8 * (i % 8)));
		else
			out[i] = (uint8_t)(g[i / 4] >> (big ? 24 - 8 * (i % 4) : 8 * (i % 4)));
	}
	return n * w;
}

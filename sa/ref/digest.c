#include "ref.h"
#include "tables.h"

#define ROL(x, n) (((x) << (n)) | ((x) >> (32 - (n))))
#define ROR(x, n) (((x) >> (n)) | ((x) << (32 - (n))))
#define ROR64(x, n) (((x) >> (n)) | ((x) << (64 - (n))))

static uint32_t le32(const uint8_t *p)
{
	return p[0] | ((uint32_t)p[1] << 8) | ((uint32_t)p[2] << 16) | ((uint32_t)p[3] << 24);
}
static uint32_t be32(const uint8_t *p)
{
	return ((uint32_t)p[0] << 24) | ((uint32_t)p[1] << 16) | ((uint32_t)p[2] << 8) | p[3];
}

static void md4_block(uint32_t *h, const uint8_t *b)
{
	static const uint8_t rot[3][4] = { { 3, 7, 11, 19 }, { 3, 5, 9, 13 }, { 3, 9, 11, 15 } };
	static const uint8_t o3[16] = { 0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15 };
	uint32_t v[4], t, f;
	int i, k;
	for (i = 0; i < 4; i++)
		v[i] = h[i];
	for (i = 0; i < 48; i++) {
		int n = i % 16;
		switch (i / 16) {
		case 0: f = (v[1] & v[2]) | (~v[1] & v[3]); k = n; t = 0; break;
		case 1: f = (v[1] & v[2]) | (v[1] & v[3]) | (v[2] & v[3]); k = (n % 4) * 4 + n / 4; t = 0x5a827999; break;
		default: f = v[1] ^ v[2] ^ v[3]; k = o3[n]; t = 0x6ed9eba1; break;
		}
		t += v[0] + f + le32(b + 4 * k);
		t = ROL(t, rot[i / 16][i % 4]);
		v[0] = v[3]; v[3] = v[2]; v[2] = v[1]; v[1] = t;
	}
	for (i = 0; i < 4; i++)
		h[i] += v[i];
}

static void md5_block(uint32_t *h, const uint8_t *b)
{
	static const uint8_t rot[4][4] = { { 7, 12, 17, 22 }, { 5, 9, 14, 20 }, { 4, 11, 16, 23 }, { 6, 10, 15, 21 } };
	uint32_t v[4], t, f;
	int i, k;
	for (i = 0; i < 4; i++)
		v[i] = h[i];
	for (i = 0; i < 64; i++) {
		switch (i / 16) {
		case 0: f = (v[1] & v[2]) | (~v[1] & v[3]); k = i; break;
		case 1: f = (v[1] & v[3]) | (v[2] & ~v[3]); k = (5 * i + 1) % 16; break;
		case 2: f = v[1] ^ v[2] ^ v[3]; k = (3 * i + 5) % 16; break;
		default: f = v[2] ^ (v[1] | ~v[3]); k = (7 * i) % 16; break;
		}
		t = v[0] + f + le32(b + 4 * k) + T_MD5[i];
		t = v[1] + ROL(t, rot[i / 16][i % 4]);
		v[0] = v[3]; v[3] = v[2]; v[2] = v[1]; v[1] = t;
	}
	for (i = 0; i < 4; i++)
		h[i] += v[i];
}

static void sha1_block(uint32_t *h, const uint8_t *b)
{
	uint32_t w[80], v[5], t, f;
	int i;
	for (i = 0; i < 16; i++)
		w[i] = be32(b + 4 * i);
	for (; i < 80; i++) {
		t = w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16];
		w[i] = ROL(t, 1);
	}
	for (i = 0; i < 5; i++)
		v[i] = h[i];
	for (i = 0; i < 80; i++) {
		switch (i / 20) {
		case 0: f = ((v[1] & v[2]) ^ (~v[1] & v[3])) + 0x5a827999; break;
		case 1: f = (v[1] ^ v[2] ^ v[3]) + 0x6ed9eba1; break;
		case 2: f = ((v[1] & v[2]) ^ (v[1] & v[3]) ^ (v[2] & v[3])) + 0x8f1bbcdc; break;
		default: f = (v[1] ^ v[2] ^ v[3]) + 0xca62c1d6; break;
		}
		t = ROL(v[0], 5) + f + v[4] + w[i];
		v[4] = v[3]; v[3] = v[2]; v[2] = ROL(v[1], 30); v[1] = v[0]; v[0] = t;
	}
	for (i = 0; i < 5; i++)
		h[i] += v[i];
}

static void has160_block(uint32_t *h, const uint8_t *b)
{
	static const uint8_t ord[4][20] = {
		{ 18,0,1,2,3,19,4,5,6,7,16,8,9,10,11,17,12,13,14,15 },
		{ 18,3,6,9,12,19,15,2,5,8,16,11,14,1,4,17,7,10,13,0 },
		{ 18,12,5,14,7,19,0,9,2,11,16,4,13,6,15,17,8,1,10,3 },
		{ 18,7,2,13,8,19,3,14,9,4,16,15,10,5,0,17,11,6,1,12 } };
	static const uint8_t s1[20] = { 5,11,7,15,6,13,8,14,7,12,9,11,8,15,6,12,9,14,5,13 };
	static const uint8_t s2[4] = { 10, 17, 25, 30 };
	static const uint32_t kk[4] = { 0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc };
	uint32_t x[20], v[5], t, f;
	int i, j, r;
	for (i = 0; i < 16; i++)
		x[i] = le32(b + 4 * i);
	for (i = 0; i < 5; i++)
		v[i] = h[i];
	for (r = 0; r < 4; r++) {
		const uint8_t *o = ord[r];
		/* the four extra words are the exclusive ors of the four groups of the round */
		x[16] = x[o[1]] ^ x[o[2]] ^ x[o[3]] ^ x[o[4]];
		x[17] = x[o[6]] ^ x[o[7]] ^ x[o[8]] ^ x[o[9]];
		x[18] = x[o[11]] ^ x[o[12]] ^ x[o[13]] ^ x[o[14]];
		x[19] = x[o[16]] ^ x[o[17]] ^ x[o[18]] ^ x[o[19]];
		for (j = 0; j < 20; j++) {
			switch (r) {
			case 0: f = (v[1] & v[2]) | (~v[1] & v[3]); break;
			case 2: f = v[2] ^ (v[1] | ~v[3]); break;
			default: f = v[1] ^ v[2] ^ v[3]; break;
			}
			t = ROL(v[0], s1[j]) + f + v[4] + x[o[j]] + kk[r];
			v[4] = v[3]; v[3] = v[2]; v[2] = ROL(v[1], s2[r]); v[1] = v[0]; v[0] = t;
		}
	}
	for (i = 0; i < 5; i++)
		h[i] += v[i];
}

static void sha256_block(uint32_t *h, const uint8_t *b)
{
	uint32_t w[64], v[8], t1, t2;
	int i;
	for (i = 0; i < 16; i++)
		w[i] = be32(b + 4 * i);
	for (; i < 64; i++) {
		t1 = ROR(w[i - 15], 7) ^ ROR(w[i - 15], 18) ^ (w[i - 15] >> 3);
		t2 = ROR(w[i - 2], 17) ^ ROR(w[i - 2], 19) ^ (w[i - 2] >> 10);
		w[i] = t2 + w[i - 7] + t1 + w[i - 16];
	}
	for (i = 0; i < 8; i++)
		v[i] = h[i];
	for (i = 0; i < 64; i++) {
		t1 = v[7] + (ROR(v[4], 6) ^ ROR(v[4], 11) ^ ROR(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + T_K256[i] + w[i];
		t2 = (ROR(v[0], 2) ^ ROR(v[0], 13) ^ ROR(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
		v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
	}
	for (i = 0; i < 8; i++)
		h[i] += v[i];
}

void ref_block64(uint64_t *h, const uint8_t *b)
{
	uint64_t w[80], v[8], t1, t2;
	int i;
	for (i = 0; i < 16; i++)
		w[i] = ((uint64_t)be32(b + 8 * i) << 32) | be32(b + 8 * i + 4);
	for (; i < 80; i++) {
		t1 = ROR64(w[i - 15], 1) ^ ROR64(w[i - 15], 8) ^ (w[i - 15] >> 7);
		t2 = ROR64(w[i - 2], 19) ^ ROR64(w[i - 2], 61) ^ (w[i - 2] >> 6);
		w[i] = t2 + w[i - 7] + t1 + w[i - 16];
	}
	for (i = 0; i < 8; i++)
		v[i] = h[i];
	for (i = 0; i < 80; i++) {
		t1 = v[7] + (ROR64(v[4], 14) ^ ROR64(v[4], 18) ^ ROR64(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + T_K512[i] + w[i];
		t2 = (ROR64(v[0], 28) ^ ROR64(v[0], 34) ^ ROR64(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
		v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
	}
	for (i = 0; i < 8; i++)
		h[i] += v[i];
}

void ref_block32(int alg, uint32_t *h, const uint8_t *b)
{
	switch (alg) {
	case R_MD4: md4_block(h, b); break;
	case R_MD5: md5_block(h, b); break;
	case R_SHA1: sha1_block(h, b); break;
	case R_HAS160: has160_block(h, b); break;
	default: sha256_block(h, b); break;
	}
}

static void md2_digest(const uint8_t *msg, int len, uint8_t *out)
{
	uint8_t x[48], c[16], b[16], l = 0, t;
	int i, j, k, n = len / 16 + 1;
	for (i = 0; i < 48; i++)
		x[i] = 0;
	for (i = 0; i < 16; i++)
		c[i] = 0;
	for (k = 0; k <= n; k++) {
		for (j = 0; j < 16; j++)
			b[j] = k == n ? c[j] : 16 * k + j < len ? msg[16 * k + j] : (uint8_t)(16 - len % 16);
		if (k < n)
			for (j = 0; j < 16; j++) {
				c[j] ^= T_MD2[b[j] ^ l];
				l = c[j];
			}
		for (j = 0; j < 16; j++) {
			x[16 + j] = b[j];
			x[32 + j] = x[16 + j] ^ x[j];
		}
		t = 0;
		for (i = 0; i < 18; i++) {
			for (j = 0; j < 48; j++) {
				x[j] ^= T_MD2[t];
				t = x[j];
			}
			t = (uint8_t)(t + i);
		}
	}
	for (i = 0; i < 16; i++)
		out[i] = x[i];
}

void ref_init(int alg, uint64_t *h)
{
	static const uint32_t md[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 };
	/* initial values of SHA-512/t are the SHA-512/t digest of the name "SHA-512/t" (FIPS 180-4, 5.3.6) */
	int i;
	for (i = 0; i < 8; i++) {
		switch (alg) {
		case R_SHA224: h[i] = T_H224[i]; break;
		case R_SHA256: h[i] = T_H256[i]; break;
		case R_SHA384: h[i] = T_H384[i]; break;
		case R_SHA512: case R_SHA512_224: case R_SHA512_256: h[i] = T_H512[i]; break;
		default: h[i] = i < 5 ? md[i] : 0; break;
		}
	}
	if (alg == R_SHA512_224 || alg == R_SHA512_256) {
		static const uint8_t nm[2][11] = { "SHA-512/224", "SHA-512/256" };
		uint8_t b[128];
		for (i = 0; i < 8; i++)
			h[i] ^= 0xa5a5a5a5a5a5a5a5ULL;
		for (i = 0; i < 128; i++)
			b[i] = i < 11 ? nm[alg == R_SHA512_256][i] : 0;
		b[11] = 0x80;
		b[127] = 88;
		ref_block64(h, b);
	}
}

void ref_digest(int alg, const uint8_t *msg, int len, uint8_t *out)
{
	uint64_t h[8];
	uint32_t g[8];
	uint8_t b[128];
	int wide = alg >= R_SHA384 && alg <= R_SHA512_256, big = alg >= R_SHA1 && alg <= R_SHA512_256;
	int bl = wide ? 128 : 64, n, i, k, tot, outlen;
	if (alg == R_MD2) {
		md2_digest(msg, len, out);
		return;
	}
	ref_init(alg, h);
	for (i = 0; i < 8; i++)
		g[i] = (uint32_t)h[i];
	n = (len + 1 + bl / 8 + bl - 1) / bl;
	tot = n * bl;
	for (k = 0; k < n; k++) {
		for (i = 0; i < bl; i++) {
			int p = k * bl + i;
			uint64_t bits = (uint64_t)len * 8;
			b[i] = 0;
			if (p < len)
				b[i] = msg[p];
			else if (p == len)
				b[i] = 0x80;
			else if (p >= tot - 8)
				b[i] = (uint8_t)(bits >> (8 * (big ? tot - 1 - p : p - (tot - 8))));
		}
		if (wide)
			ref_block64(h, b);
		else
			ref_block32(alg, g, b);
	}
	switch (alg) {
	case R_MD4: case R_MD5: outlen = 16; break;
	case R_SHA1: case R_HAS160: outlen = 20; break;
	case R_SHA224: case R_SHA512_224: outlen = 28; break;
	case R_SHA384: outlen = 48; break;
	case R_SHA512: outlen = 64; break;
	default: outlen = 32; break;
	}
	for (i = 0; i < outlen; i++) {
		if (wide)
			out[i] = (uint8_t)(h[i / 8] >> (56 - 8 * (i % 8)));
		else
			out[i] = (uint8_t)(g[i / 4] >> (big ? 24 - 8 * (i % 4) : 8 * (i % 4)));
	}
}

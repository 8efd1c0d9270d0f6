#include "ref.h"
#include "tables.h"

int ref_blocklen(int alg) { return alg == R_DES || alg == R_DESK || alg == R_BLOWFISH ? 8 : 16; }

/* ---------------------------------------------------------------- AES, FIPS 197 */
static uint8_t xt(uint8_t b) { return (uint8_t)((b << 1) ^ (0x1b & (uint8_t)-(b >> 7))); }

static void aes_key(struct rkey *k, const uint8_t *key, int keylen)
{
	int nk = keylen / 4, i, j;
	uint8_t *w = k->ek[0];
	uint8_t rcon = 1;
	k->rounds = nk + 6;
	for (i = 0; i < keylen; i++)
		w[i] = key[i];
	for (i = nk; i < 4 * (k->rounds + 1); i++) {
		uint8_t t[4];
		for (j = 0; j < 4; j++)
			t[j] = w[4 * (i - 1) + j];
		if (i % nk == 0) {
			uint8_t a = t[0];
			t[0] = T_AES[t[1]] ^ rcon;
			t[1] = T_AES[t[2]];
			t[2] = T_AES[t[3]];
			t[3] = T_AES[a];
			rcon = xt(rcon);
		} else if (nk > 6 && i % nk == 4) {
			for (j = 0; j < 4; j++)
				t[j] = T_AES[t[j]];
		}
		for (j = 0; j < 4; j++)
			w[4 * i + j] = w[4 * (i - nk) + j] ^ t[j];
	}
}

static void aes_enc(const struct rkey *k, const uint8_t *in, uint8_t *out)
{
	uint8_t s[16], t[16];
	int r, i, c;
	for (i = 0; i < 16; i++)
		s[i] = in[i] ^ k->ek[0][i];
	for (r = 1; r <= k->rounds; r++) {
		for (c = 0; c < 4; c++)
			for (i = 0; i < 4; i++)
				t[4 * c + i] = T_AES[s[4 * ((c + i) % 4) + i]];
		for (c = 0; c < 4; c++) {
			uint8_t *a = t + 4 * c;
			for (i = 0; i < 4; i++) {
				uint8_t v = a[i];
				if (r < k->rounds)
					v = xt(a[i]) ^ xt(a[(i + 1) % 4]) ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4];
				s[4 * c + i] = v ^ k->ek[r][4 * c + i];
			}
		}
	}
	for (i = 0; i < 16; i++)
		out[i] = s[i];
}

static void aes_dec(const struct rkey *k, const uint8_t *in, uint8_t *out)
{
	uint8_t s[16], t[16];
	int r, i, c;
	for (i = 0; i < 16; i++)
		s[i] = in[i] ^ k->ek[k->rounds][i];
	for (r = k->rounds - 1; r >= 0; r--) {
		for (c = 0; c < 4; c++)
			for (i = 0; i < 4; i++)
				t[4 * ((c + i) % 4) + i] = T_AESI[s[4 * c + i]];
		for (i = 0; i < 16; i++)
			t[i] ^= k->ek[r][i];
		for (c = 0; c < 4; c++) {
			uint8_t *a = t + 4 * c;
			for (i = 0; i < 4; i++) {
				uint8_t v = a[i];
				if (r > 0) {
					uint8_t e = a[i], b = a[(i + 1) % 4], d = a[(i + 2) % 4], n = a[(i + 3) % 4];
					v = xt(xt(xt(e) ^ e) ^ e)              /* 14 */
					  ^ xt(xt(xt(b)) ^ b) ^ b              /* 11 */
					  ^ xt(xt(xt(d) ^ d)) ^ d              /* 13 */
					  ^ xt(xt(xt(n))) ^ n;                 /* 9 */
				}
				s[4 * c + i] = v;
			}
		}
	}
	for (i = 0; i < 16; i++)
		out[i] = s[i];
}

/* ---------------------------------------------------------------- DES, FIPS 46-3 */
#include "desk.h"
static void des_key(uint8_t ks[16][48], const uint8_t *key)
{
	uint8_t cd[56], t;
	int i, j, r, n;
	for (i = 0; i < 56; i++)
		cd[i] = (key[(T_DESPC1[i] - 1) / 8] >> (7 - (T_DESPC1[i] - 1) % 8)) & 1;
	for (r = 0; r < 16; r++) {
		n = (r == 0 || r == 1 || r == 8 || r == 15) ? 1 : 2;
		while (n--) {
			for (j = 0; j < 56; j += 28) {
				t = cd[j];
				for (i = 0; i < 27; i++)
					cd[j + i] = cd[j + i + 1];
				cd[j + 27] = t;
			}
		}
		for (i = 0; i < 48; i++)
			ks[r][i] = cd[T_DESPC2[i] - 1];
	}
}

static void des_block(const uint8_t *sb, const uint8_t ks[16][48], int dec, uint8_t b[64])
{
	uint8_t t[64], e, f[32];
	int r, i, j;
	for (i = 0; i < 64; i++)
		t[i] = b[T_DESIP[i] - 1];
	for (r = 0; r < 16; r++) {
		const uint8_t *k = ks[dec ? 15 - r : r];
		for (i = 0; i < 8; i++) {
			e = 0;
			for (j = 0; j < 6; j++)
				e = (uint8_t)((e << 1) | (t[32 + T_DESE[6 * i + j] - 1] ^ k[6 * i + j]));
			e = sb[64 * i + e];
			for (j = 0; j < 4; j++)
				f[4 * i + j] = (e >> (3 - j)) & 1;
		}
		for (i = 0; i < 32; i++) {
			e = t[i] ^ f[T_DESP[i] - 1];
			t[i] = t[32 + i];
			t[32 + i] = e;
		}
	}
	for (i = 0; i < 64; i++)
		b[T_DESIP[i] - 1] = t[(i + 32) % 64];
}

static void des_crypt(const struct rkey *k, int dec, const uint8_t *in, uint8_t *out)
{
	uint8_t b[64];
	int i, n = k->keylen == 8 ? 1 : 3;
	for (i = 0; i < 64; i++)
		b[i] = (in[i / 8] >> (7 - i % 8)) & 1;
	for (i = 0; i < n; i++)
		des_block(k->alg == R_DESK ? T_DESSK : T_DESS, k->des[dec ? n - 1 - i : i], dec ^ (i & 1), b);
	for (i = 0; i < 8; i++) {
		int j;
		uint8_t v = 0;
		for (j = 0; j < 8; j++)
			v = (uint8_t)((v << 1) | b[8 * i + j]);
		out[i] = v;
	}
}

/* ---------------------------------------------------------------- SEED, RFC 4269 */
static uint32_t be32(const uint8_t *p)
{
	return ((uint32_t)p[0] << 24) | ((uint32_t)p[1] << 16) | ((uint32_t)p[2] << 8) | p[3];
}
static void pbe32(uint8_t *p, uint32_t v)
{
	p[0] = (uint8_t)(v >> 24); p[1] = (uint8_t)(v >> 16); p[2] = (uint8_t)(v >> 8); p[3] = (uint8_t)v;
}

static uint32_t seed_g(uint32_t x)
{
	static const uint8_t m[4] = { 0xfc, 0xf3, 0xcf, 0x3f };
	uint8_t y[4];
	uint32_t z = 0;
	int i, j;
	y[0] = T_SEED1[x & 0xff];
	y[1] = T_SEED2[(x >> 8) & 0xff];
	y[2] = T_SEED1[(x >> 16) & 0xff];
	y[3] = T_SEED2[x >> 24];
	for (i = 0; i < 4; i++) {
		uint8_t v = 0;
		for (j = 0; j < 4; j++)
			v ^= y[j] & m[(i + j) % 4];
		z |= (uint32_t)v << (8 * i);
	}
	return z;
}

static void seed_key(struct rkey *k, const uint8_t *key)
{
	uint32_t a = be32(key), b = be32(key + 4), c = be32(key + 8), d = be32(key + 12), t;
	int i;
	for (i = 0; i < 16; i++) {
		k->seed[i][0] = seed_g(a + c - T_SEEDKC[i]);
		k->seed[i][1] = seed_g(b - d + T_SEEDKC[i]);
		if (i % 2 == 0) {
			t = b;
			b = (b >> 8) | (a << 24);
			a = (a >> 8) | (t << 24);
		} else {
			t = c;
			c = (c << 8) | (d >> 24);
			d = (d << 8) | (t >> 24);
		}
	}
}

static void seed_crypt(const struct rkey *k, int dec, const uint8_t *in, uint8_t *out)
{
	uint32_t l0 = be32(in), l1 = be32(in + 4), r0 = be32(in + 8), r1 = be32(in + 12);
	int i;
	for (i = 0; i < 16; i++) {
		const uint32_t *rk = k->seed[dec ? 15 - i : i];
		uint32_t c = r0 ^ rk[0], d = r1 ^ rk[1], t0, t1;
		d = seed_g(c ^ d);
		c = seed_g(c + d);
		d = seed_g(d + c);
		c = c + d;
		t0 = l0 ^ c;
		t1 = l1 ^ d;
		l0 = r0; l1 = r1;
		r0 = t0; r1 = t1;
	}
	pbe32(out, r0); pbe32(out + 4, r1); pbe32(out + 8, l0); pbe32(out + 12, l1);
}

/* ---------------------------------------------------------------- ARIA, RFC 5794 */
static void aria_a(uint8_t *y, const uint8_t *x)
{
	static const uint8_t n[16][7] = {
		{3,4,6,8,9,13,14}, {2,5,7,8,9,12,15}, {1,4,6,10,11,12,15}, {0,5,7,10,11,13,14},
		{0,2,5,8,11,14,15}, {1,3,4,9,10,14,15}, {0,2,7,9,10,12,13}, {1,3,6,8,11,12,13},
		{0,1,4,7,10,13,15}, {0,1,5,6,11,12,14}, {2,3,5,6,8,13,15}, {2,3,4,7,9,12,14},
		{1,2,6,7,9,11,12}, {0,3,6,7,8,10,13}, {0,3,4,5,9,11,14}, {1,2,4,5,8,10,15} };
	int i, j;
	for (i = 0; i < 16; i++) {
		uint8_t v = 0;
		for (j = 0; j < 7; j++)
			v ^= x[n[i][j]];
		y[i] = v;
	}
}

static void aria_sl(uint8_t *y, const uint8_t *x, int even)
{
	int i;
	for (i = 0; i < 16; i++) {
		switch ((i + (even ? 2 : 0)) % 4) {
		case 0: y[i] = T_AES[x[i]]; break;
		case 1: y[i] = T_ARIA2[x[i]]; break;
		case 2: y[i] = T_AESI[x[i]]; break;
		default: y[i] = T_ARIA2I[x[i]]; break;
		}
	}
}

static void aria_f(uint8_t *y, const uint8_t *x, const uint8_t *rk, int even)
{
	uint8_t t[16], u[16];
	int i;
	for (i = 0; i < 16; i++)
		t[i] = x[i] ^ rk[i];
	aria_sl(u, t, even);
	aria_a(y, u);
}

static void rotr128(uint8_t *y, const uint8_t *x, int n)
{
	int i;
	for (i = 0; i < 16; i++)
		y[i] = (uint8_t)((x[(i + 32 - n / 8) % 16] >> (n % 8)) | (x[(i + 31 - n / 8) % 16] << (8 - n % 8)));
}

static void aria_key(struct rkey *k, const uint8_t *key, int keylen)
{
	uint8_t w[4][16], kr[16], t[16];
	int o = (keylen - 16) / 8, i, j;
	static const uint8_t rot[5] = { 19, 31, 67, 97, 109 };   /* right 19, 31; left 61, 31, 19 */
	k->rounds = 12 + 2 * o;
	for (i = 0; i < 16; i++) {
		w[0][i] = key[i];
		kr[i] = i + 16 < keylen ? key[i + 16] : 0;
	}
	aria_f(t, w[0], T_ARIAC + 16 * o, 0);
	for (i = 0; i < 16; i++)
		w[1][i] = t[i] ^ kr[i];
	aria_f(t, w[1], T_ARIAC + 16 * ((o + 1) % 3), 1);
	for (i = 0; i < 16; i++)
		w[2][i] = t[i] ^ w[0][i];
	aria_f(t, w[2], T_ARIAC + 16 * ((o + 2) % 3), 0);
	for (i = 0; i < 16; i++)
		w[3][i] = t[i] ^ w[1][i];
	for (j = 0; j <= k->rounds; j++) {
		rotr128(t, w[(j + 1) % 4], rot[j / 4]);
		for (i = 0; i < 16; i++)
			k->ek[j][i] = w[j % 4][i] ^ t[i];
	}
	for (j = 0; j <= k->rounds; j++) {
		if (j == 0 || j == k->rounds)
			for (i = 0; i < 16; i++)
				k->dk[j][i] = k->ek[k->rounds - j][i];
		else
			aria_a(k->dk[j], k->ek[k->rounds - j]);
	}
}

static void aria_crypt(const struct rkey *k, int dec, const uint8_t *in, uint8_t *out)
{
	uint8_t p[16], t[16];
	int r, i;
	for (i = 0; i < 16; i++)
		p[i] = in[i];
	for (r = 1; r <= k->rounds; r++) {
		const uint8_t *rk = dec ? k->dk[r - 1] : k->ek[r - 1];
		for (i = 0; i < 16; i++)
			t[i] = p[i] ^ rk[i];
		aria_sl(p, t, r % 2 == 0);
		if (r < k->rounds) {
			aria_a(t, p);
			for (i = 0; i < 16; i++)
				p[i] = t[i];
		} else {
			for (i = 0; i < 16; i++)
				p[i] ^= dec ? k->dk[r][i] : k->ek[r][i];
		}
	}
	for (i = 0; i < 16; i++)
		out[i] = p[i];
}

/* ---------------------------------------------------------------- Blowfish */
static void bf_crypt(const struct rkey *k, int dec, uint32_t *lr)
{
	uint32_t l = lr[0], r = lr[1], t;
	int i;
	for (i = 0; i < 16; i++) {
		l ^= k->p[dec ? 17 - i : i];
		t = k->s[l >> 24] + k->s[256 + ((l >> 16) & 0xff)];
		t ^= k->s[512 + ((l >> 8) & 0xff)];
		t += k->s[768 + (l & 0xff)];
		r ^= t;
		t = l; l = r; r = t;
	}
	t = l; l = r; r = t;
	r ^= k->p[dec ? 1 : 16];
	l ^= k->p[dec ? 0 : 17];
	lr[0] = l;
	lr[1] = r;
}

static void bf_key(struct rkey *k, const uint8_t *key, int keylen)
{
	uint32_t d[2] = { 0, 0 };
	int i, j, n = 0;
	for (i = 0; i < 1024; i++)
		k->s[i] = T_BFS[i];
	for (i = 0; i < 18; i++) {
		uint32_t w = 0;
		for (j = 0; j < 4; j++) {
			w = (w << 8) | key[n];
			n = (n + 1) % keylen;
		}
		k->p[i] = T_BFP[i] ^ w;
	}
	for (i = 0; i < 18; i += 2) {
		bf_crypt(k, 0, d);
		k->p[i] = d[0];
		k->p[i + 1] = d[1];
	}
	for (i = 0; i < 1024; i += 2) {
		bf_crypt(k, 0, d);
		k->s[i] = d[0];
		k->s[i + 1] = d[1];
	}
}

/* ---------------------------------------------------------------- */
void ref_setkey(struct rkey *k, int alg, const uint8_t *key, int keylen)
{
	k->alg = alg;
	k->keylen = keylen;
	switch (alg) {
	case R_AES: aes_key(k, key, keylen); break;
	case R_DES:
	case R_DESK:
		des_key(k->des[0], key);
		if (keylen > 8) {
			des_key(k->des[1], key + 8);
			des_key(k->des[2], keylen == 16 ? key : key + 16);
		}
		break;
	case R_SEED: seed_key(k, key); break;
	case R_ARIA: aria_key(k, key, keylen); break;
	case R_BLOWFISH: bf_key(k, key, keylen); break;
	}
}

static void crypt(const struct rkey *k, int dec, const uint8_t *in, uint8_t *out)
{
	uint32_t lr[2];
	switch (k->alg) {
	case R_AES: if (dec) aes_dec(k, in, out); else aes_enc(k, in, out); break;
	case R_DES:
	case R_DESK: des_crypt(k, dec, in, out); break;
	case R_SEED: seed_crypt(k, dec, in, out); break;
	case R_ARIA: aria_crypt(k, dec, in, out); break;
	case R_BLOWFISH:
		lr[0] = be32(in);
		lr[1] = be32(in + 4);
		bf_crypt(k, dec, lr);
		pbe32(out, lr[0]);
		pbe32(out + 4, lr[1]);
		break;
	}
}

void ref_enc(const struct rkey *k, const uint8_t *in, uint8_t *out) { crypt(k, 0, in, out); }
void ref_dec(const struct rkey *k, const uint8_t *in, uint8_t *out) { crypt(k, 1, in, out); }

void ref_rc4(const uint8_t *key, int keylen, const uint8_t *in, int len, uint8_t *out)
{
	uint8_t s[256], i = 0, j = 0, t;
	int n;
	for (n = 0; n < 256; n++)
		s[n] = (uint8_t)n;
	for (n = 0; n < 256; n++) {
		j = (uint8_t)(j + s[n] + key[n % keylen]);
		t = s[n]; s[n] = s[j]; s[j] = t;
	}
	j = 0;
	for (n = 0; n < len; n++) {
		i = (uint8_t)(i + 1);
		j = (uint8_t)(j + s[i]);
		t = s[i]; s[i] = s[j]; s[j] = t;
		out[n] = in[n] ^ s[(uint8_t)(s[i] + s[j])];
	}
}

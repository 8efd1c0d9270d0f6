/* Pairs of functions lib_X / ref_X for big numbers.  Only analysed, never run. */
#include <racrypt.h>
#include <stdlib.h>
#include <string.h>

typedef bn_uint_t W;
#if BN_WORD_BYTE == 8
typedef unsigned __int128 W2;
#else
typedef uint64_t W2;
#endif
#define MAXW 12
#define TOO_SMALL RA_ERR_NUMBER_SIZE

enum { ADD, SUB, MUL, SQR, DBL, ADDR, SUBR, CMP };
enum { ADDI, SUBI, ADDU, SUBU, MULI, MULU, DIVI, DIVU, MODU, CMPI, CMPU, SHL, SHR, SET, BITS, INVERT, LOW32, LOW64 };

/* the k-th word of an n-word number whose highest set bit is bit `top` of its last word (-1: zero; -2: any) */
static W word(int k, int n, int top, const uint8_t *p)
{
	W w;
	memcpy(&w, p + k * sizeof(W), sizeof(W));
	if (k == n - 1) {
		if (top == -1)
			return 0;
		if (top >= 0) {
			w &= ((W)1 << top) - 1;
			w |= (W)1 << top;
		}
	}
	return w;
}

static struct RaBigNumber *mk(int n, int top, int sign, int max, const uint8_t *p)
{
	struct RaBigNumber *b = BnNewW(max);
	int k;
	for (k = 0; k < n; k++)
		b->data[k] = word(k, n, top, p);
	b->length = n;
	b->sign = sign;
	return b;
}

/* a number with unrelated contents, to receive a result */
static struct RaBigNumber *stale(int max, const uint8_t *p)
{
	struct RaBigNumber *b = BnNewW(max);
	int k;
	for (k = 0; k < max; k++)
		memcpy(&b->data[k], p + k * sizeof(W), sizeof(W));
	b->length = max;
	b->sign = 1;
	return b;
}

/* out: code, length, sign, words; a zero has no sign */
static void show(int code, int len, int sign, const W *w, int max, uint8_t *out)
{
	int k, ok = code == RA_ERR_SUCCESS;
	W v;
	for (k = 0; k < 4; k++)
		out[k] = (uint8_t)(code >> (8 * k));
	out[4] = ok ? (uint8_t)len : 0;
	out[5] = 0;
	if (ok && sign != 0) {
		if (len == 1) {
			if (w[0] != 0)
				out[5] = (uint8_t)sign;
		}
		else
			out[5] = (uint8_t)sign;
	}
	for (k = 0; k < MAXW; k++) {
		v = 0;
		if (k < max)
			if (ok)
				if (k < len)
					v = w[k];
		memcpy(out + 8 + k * sizeof(W), &v, sizeof(W));
	}
}

static void put(struct RaBigNumber *b, int code, uint8_t *out)
{
	show(code, b->length, b->sign, b->data, b->max_length, out);
}

/* ------------------------------------------------------------------ two operands */
int lib_bn2(int op, int an, int at, int as, int bn, int bt, int bs, int rmax, int alias, uint8_t *A, uint8_t *B, uint8_t *old, uint8_t *out, uint8_t *keepa, uint8_t *keepb)
{
	struct RaBigNumber *a = mk(an, at, as, alias == 1 || op == ADDR || op == SUBR ? rmax : an, A);
	struct RaBigNumber *b = alias == 3 ? a : mk(bn, bt, bs, alias == 2 ? rmax : bn, B);
	struct RaBigNumber *r = alias == 1 ? a : alias == 2 ? b : op == ADDR || op == SUBR || op == CMP ? NULL : stale(rmax, old);
	int c = 0;
	switch (op) {
	case ADD: c = BnAdd(r, a, b); break;
	case SUB: c = BnSub(r, a, b); break;
	case MUL: c = BnMul(r, a, b); break;
	case SQR: c = BnSqr(r, a); break;
	case DBL: c = BnDouble(r, a); break;
	case ADDR: c = _BnAddR(a, b); r = a; break;
	case SUBR: c = _BnSubR(a, b); r = a; break;
	case CMP: c = BnCmp(a, b); break;
	}
	if (r != NULL) {
		put(r, c, out);
		c = 0;
	}
	if (r != a)
		put(a, 0, keepa);
	if (r != b)
		put(b, 0, keepb);
	return c;
}

typedef struct { int n, s; W w[MAXW]; } N;

static void get(N *x, int n, int top, int sign, const uint8_t *p)
{
	int k;
	for (k = 0; k < MAXW; k++)
		x->w[k] = k < n ? word(k, n, top, p) : 0;
	x->n = n;
	x->s = sign;
}

static void norm(N *x)
{
	int k;
	x->n = 1;
	for (k = 1; k < MAXW; k++)
		if (x->w[k] != 0)
			x->n = k + 1;
}

/* the absolute values, n words each: -1, 0, 1 */
static int cmpabs(const N *x, const N *y, int n)
{
	int k;
	for (k = n - 1; k >= 0; k--) {
		if (x->w[k] > y->w[k])
			return 1;
		if (x->w[k] < y->w[k])
			return -1;
	}
	return 0;
}

static void addabs(N *r, const N *x, const N *y)
{
	W2 v = 0;
	int k;
	for (k = 0; k < MAXW; k++) {
		v += (W2)x->w[k] + y->w[k];
		r->w[k] = (W)v;
		v >>= 8 * sizeof(W);
	}
}

static void subabs(N *r, const N *x, const N *y)
{
	W c = 0;
	int k;
	for (k = 0; k < MAXW; k++) {
		W2 v = (W2)x->w[k] - y->w[k] - c;
		r->w[k] = (W)v;
		c = (W)(v >> (8 * sizeof(W))) & 1;
	}
}

static void mulabs(N *r, const N *x, const N *y, int xn, int yn)
{
	int i, j;
	for (i = 0; i < MAXW; i++)
		r->w[i] = 0;
	for (i = 0; i < yn; i++) {
		W c = 0;
		for (j = 0; j < xn; j++) {
			W2 v = (W2)x->w[j] * y->w[i] + r->w[i + j] + c;
			r->w[i + j] = (W)v;
			c = (W)(v >> (8 * sizeof(W)));
		}
		r->w[i + xn] = c;
	}
}

/* x + y with the signs xs, ys */
static void addsigned(N *r, const N *x, int xs, const N *y, int ys, int n)
{
	if (xs == ys) {
		addabs(r, x, y);
		norm(r);
		r->s = xs;
	}
	else if (cmpabs(x, y, n) > 0) {
		subabs(r, x, y);
		norm(r);
		r->s = xs;
	}
	else {
		subabs(r, y, x);
		norm(r);
		r->s = ys;
	}
}

int ref_bn2(int op, int an, int at, int as, int bn, int bt, int bs, int rmax, int alias, uint8_t *A, uint8_t *B, uint8_t *old, uint8_t *out, uint8_t *keepa, uint8_t *keepb)
{
	N a, b, r;
	int c = 0, n = an > bn ? an : bn;
	if (rmax < 2)
		rmax = 2;
	get(&a, an, at, as, A);
	if (alias == 3) {
		b = a;
		bn = an;
	}
	else
		get(&b, bn, bt, bs, B);
	r.s = 0;
	switch (op) {
	case ADD: addsigned(&r, &a, a.s, &b, b.s, n); break;
	case SUB: addsigned(&r, &a, a.s, &b, !b.s, n); break;
	case MUL: mulabs(&r, &a, &b, an, bn); r.s = a.s ^ b.s; break;
	case SQR: mulabs(&r, &a, &a, an, an); break;
	case DBL: addabs(&r, &a, &a); r.s = a.s; break;
	case ADDR: addabs(&r, &a, &b); r.s = a.s; break;
	case SUBR: subabs(&r, &a, &b); r.s = a.s; break;
	case CMP:
		c = a.s ? b.s ? cmpabs(&b, &a, n) : -1 : b.s ? 1 : cmpabs(&a, &b, n);
		if (an == 1 && bn == 1 && a.s != b.s && a.w[0] == 0 && b.w[0] == 0)
			c = 0;
		break;
	}
	if (op != CMP) {
		int code = RA_ERR_SUCCESS;
		if (op != ADD && op != SUB)
			norm(&r);
		if (r.n > rmax)
			code = TOO_SMALL;
		show(code, r.n, r.s, r.w, rmax, out);
	}
	if (alias != 1 && op != ADDR && op != SUBR)
		show(0, an, a.s, a.w, an, keepa);
	if (alias != 2 && !(alias == 3 && (op == ADDR || op == SUBR)))
		show(0, bn, b.s, b.w, bn, keepb);
	return c;
}

/* ------------------------------------------------------------------ one operand and a machine word or a count */
int lib_bn1(int op, int an, int at, int as, int amax, int vt, int vneg, int cnt, uint8_t *A, uint8_t *V, uint8_t *old, uint8_t *out, uint8_t *rem)
{
	struct RaBigNumber *a = mk(an, at, as, amax, A), *r = a;
	W v = word(0, 1, vt, V), q = 0;
	int c = 0;
	if (vneg)
		v = 0 - v;
	switch (op) {
	case ADDI: c = BnAddInt(a, (bn_int_t)v); break;
	case SUBI: c = BnSubInt(a, (bn_int_t)v); break;
	case ADDU: c = BnAddUInt(a, v); break;
	case SUBU: c = BnSubUInt(a, v); break;
	case MULI: c = BnMulInt(a, (bn_int_t)v); break;
	case MULU: c = BnMulUInt(a, v); break;
	case DIVI: c = BnDivInt(a, (bn_int_t)v, &q); break;
	case DIVU: c = BnDivUInt(a, v, &q); break;
	case MODU:
		c = BnModUInt(a, v, &q);
		if (vt == -1 && c != 0)
			c = RA_ERR_DIVIDED_BY_ZERO;		/* any error will do */
		break;
	case CMPI: return BnCmpInt(a, (bn_int_t)v);
	case CMPU: return BnCmpUInt(a, v);
	case SHL: c = BnShiftL(a, (uint32_t)cnt); break;
	case SHR: c = BnShiftR(a, (uint32_t)cnt); break;
	case SET: r = stale(cnt, old); c = BnSet(r, a); break;
	case BITS: return BnGetBitLength(a);
	case INVERT: _BnInvert(a); break;
	case LOW32: q = _BnGetUInt32(a); break;
	case LOW64: {
		uint64_t u = _BnGetUInt64(a);
		memcpy(rem, &u, 8);
		put(a, 0, out);
		return 0;
	}
	}
	put(r, c, out);
	memcpy(rem, &q, sizeof(W));
	return 0;
}

/* long division by one word, most significant word first; a digit of all ones stands for a quotient that does not fit */
static W divword(N *x, int n, W d)
{
	W hi = 0, lo = 0;
	int k;
	for (k = n - 1; k >= 0; k--) {
#if BN_WORD_BYTE == 8
		hi = lo;
		lo = x->w[k];
		if (hi != 0 || lo >= d) {
			if (hi >= d)
				x->w[k] = ~(W)0;
			else {
				W2 t = ((W2)hi << 64) | lo;
				x->w[k] = (W)(t / d);
				lo = (W)(t % d);
			}
		}
		else
			x->w[k] = 0;
#else
		W2 t = ((W2)lo << 32) + x->w[k];
		(void)hi;
		if (t >= d) {
			x->w[k] = (W)(t / d);
			lo = (W)(t % d);
		}
		else {
			x->w[k] = 0;
			lo = (W)t;
		}
#endif
	}
	return lo;
}

int ref_bn1(int op, int an, int at, int as, int amax, int vt, int vneg, int cnt, uint8_t *A, uint8_t *V, uint8_t *old, uint8_t *out, uint8_t *rem)
{
	N a, b, r;
	W v = word(0, 1, vt, V), q = 0;
	int k, c, neg = 0, max = amax < 2 ? 2 : amax, code = RA_ERR_SUCCESS;
	const int B = 8 * sizeof(W);
	get(&a, an, at, as, A);
	get(&b, 1, vt, 0, V);
	r = a;
	if (vneg && (op == ADDU || op == SUBU || op == MULU || op == DIVU || op == MODU || op == CMPU))
		b.w[0] = v = 0 - v;
	else
		neg = vneg;
	switch (op) {
	case ADDI: case ADDU: addsigned(&r, &a, a.s, &b, neg, an); break;
	case SUBI: case SUBU: addsigned(&r, &a, a.s, &b, !neg, an); break;
	case MULI: case MULU: mulabs(&r, &a, &b, an, 1); r.s = a.s ^ neg; break;
	case DIVI: case DIVU:
		if (vt == -1) {
			code = RA_ERR_DIVIDED_BY_ZERO;
			break;
		}
		q = divword(&r, an, v);
		r.s = a.s ^ neg;
		break;
	case MODU: {
		N t = a;
		if (vt == -1) {
			code = RA_ERR_DIVIDED_BY_ZERO;
			break;
		}
		q = divword(&t, an, v);
		break;
	}
	case CMPI: case CMPU:
		c = a.s ? neg ? cmpabs(&b, &a, an) : -1 : neg ? 1 : cmpabs(&a, &b, an);
		if (an == 1 && a.s != neg && a.w[0] == 0 && b.w[0] == 0)
			c = 0;
		return c;
	case SHL:
		for (k = MAXW - 1; k >= 0; k--) {
			int j = k - cnt / B;
			W hi = j >= 0 ? a.w[j] : 0, lo = j >= 1 ? a.w[j - 1] : 0;
			r.w[k] = cnt % B ? (hi << (cnt % B)) | (lo >> (B - cnt % B)) : hi;
		}
		break;
	case SHR:
		for (k = 0; k < MAXW; k++) {
			int j = k + cnt / B;
			W lo = j < MAXW ? a.w[j] : 0, hi = j + 1 < MAXW ? a.w[j + 1] : 0;
			r.w[k] = cnt % B ? (lo >> (cnt % B)) | (hi << (B - cnt % B)) : lo;
		}
		break;
	case SET: max = cnt < 2 ? 2 : cnt; break;
	case BITS: return at == -1 ? 1 : (an - 1) * B + at + 1;
	case INVERT: r.s = !a.s; break;
	case LOW32: q = (uint32_t)a.w[0]; break;
	case LOW64: {
		uint64_t u = a.w[0];
		if (B == 32)
			u |= (uint64_t)a.w[1] << 32;
		show(0, an, a.s, a.w, amax, out);
		memcpy(rem, &u, 8);
		return 0;
	}
	}
	if (op > SUBU)
		norm(&r);
	if (code == RA_ERR_SUCCESS && r.n > max)
		code = TOO_SMALL;
	show(code, r.n, r.s, r.w, max, out);
	memcpy(rem, &q, sizeof(W));
	return 0;
}

/* ------------------------------------------------------------------ a number from a machine integer; a copy */
int lib_bn0(int op, int vt, int vneg, int max, uint8_t *V, uint8_t *old, uint8_t *out)
{
	struct RaBigNumber *r = stale(max, old);
	uint64_t v;
	memcpy(&v, V, 8);
	if (vt == -1)
		v = 0;
	else if (vt >= 0)
		v = (v & (((uint64_t)1 << vt) - 1)) | (uint64_t)1 << vt;
	if (vneg)
		v = 0 - v;
	switch (op) {
	case 0: BnSetInt(r, (bn_int_t)v); break;
	case 1: BnSetInt32(r, (int32_t)v); break;
	case 2: BnSetInt64(r, (int64_t)v); break;
	case 3: BnSetUInt(r, (W)v); break;
	case 4: BnSetUInt32(r, (uint32_t)v); break;
	case 5: BnSetUInt64(r, v); break;
	case 6: r = BnClone(r); r->sign &= 1; break;
	}
	put(r, 0, out);
	return 0;
}

int ref_bn0(int op, int vt, int vneg, int max, uint8_t *V, uint8_t *old, uint8_t *out)
{
	N r;
	uint64_t v, u;
	int k;
	memcpy(&v, V, 8);
	if (vt == -1)
		v = 0;
	else if (vt >= 0)
		v = (v & (((uint64_t)1 << vt) - 1)) | (uint64_t)1 << vt;
	for (k = 0; k < MAXW; k++)
		r.w[k] = 0;
	r.s = 0;
	u = v;
	if (op == 6) {
		for (k = 0; k < max; k++)
			memcpy(&r.w[k], old + k * sizeof(W), sizeof(W));
		r.s = 1;
		show(0, max, 1, r.w, max, out);
		return 0;
	}
	if (op == 1 || op == 4 || (op == 0 || op == 3) && sizeof(W) == 4)
		u = vneg && op >= 3 ? (uint32_t)(0 - v) : (uint32_t)v;
	else if (vneg && op >= 3)
		u = 0 - v;
	if (op < 3)
		r.s = vneg;
	r.w[0] = (W)u;
	if (sizeof(W) == 4)
		r.w[1] = (W)(u >> 32);
	norm(&r);
	show(0, r.n, r.s, r.w, max, out);
	return 0;
}

/* ------------------------------------------------------------------ bytes */
/* op 0: two's complement, 1: unsigned; the bytes D, the first one given by f (-1: any) */
int lib_bnfrom(int op, int len, int f, int max, uint8_t *D, uint8_t *old, uint8_t *out)
{
	struct RaBigNumber *r = stale(max, old);
	int c = op == 0 ? BnSetByteArray(r, D, len) : BnSetUByteArray(r, D, len);
	(void)f;
	put(r, c, out);
	return 0;
}

int ref_bnfrom(int op, int len, int f, int max, uint8_t *D, uint8_t *old, uint8_t *out)
{
	N r, one;
	int k, code = RA_ERR_SUCCESS;
	(void)old;
	for (k = 0; k < MAXW; k++)
		r.w[k] = one.w[k] = 0;
	one.w[0] = 1;
	r.s = op == 0 && f >= 128;
	for (k = 0; k < len; k++) {
		uint8_t x = D[len - 1 - k];
		if (r.s)
			x = (uint8_t)~x;
		r.w[k / sizeof(W)] |= (W)x << (8 * (k % sizeof(W)));
	}
	if (r.s)
		addabs(&r, &r, &one);
	norm(&r);
	if (len <= 0)
		code = RA_ERR_INVALID_PARAM;
	else if (r.n > max)
		code = TOO_SMALL;
	show(code, r.n, r.s, r.w, max, out);
	return 0;
}

/* the lowest set bit is bit `low` */
static W lowest(W w, int low)
{
	return (w & ~(((W)2 << low) - 1)) | (W)1 << low;
}

/* what the buffer holds does not matter when nothing was converted */
static int none(int len, uint8_t *out, int room)
{
	int k;
	if (len == 0)
		for (k = 0; k < room; k++)
			out[k] = 0;
	return len;
}

/* op 0: two's complement, 1: fixed length, 2: length only (two's complement), 3: length only (fixed) */
int lib_bnto(int op, int an, int at, int as, int low, int room, uint8_t *A, uint8_t *out)
{
	struct RaBigNumber *a = mk(an, at, as, an + 1, A);
	if (low >= 0)
		a->data[0] = lowest(a->data[0], low);
	switch (op) {
	case 0: return none(BnToByteArray(a, out, room), out, room);
	case 1: return none(BnToFixedByteArray(a, out, room), out, room);
	case 2: return BnToByteArray(a, NULL, 0);
	}
	return BnToFixedByteArray(a, NULL, 0);
}

int ref_bnto(int op, int an, int at, int as, int low, int room, uint8_t *A, uint8_t *out)
{
	N a, one;
	const int S = sizeof(W);
	int k, len, bits, zero = at == -1;
	get(&a, an, at, as, A);
	if (low >= 0)
		a.w[0] = lowest(a.w[0], low);
	for (k = 0; k < MAXW; k++)
		one.w[k] = 0;
	one.w[0] = 1;
	bits = zero ? 0 : (an - 1) * 8 * S + at + 1;
	if (op == 1 || op == 3) {
		if (as && !zero)
			return none(0, out, room);
		len = zero ? 1 : (bits + 7) / 8;
		if (op == 3)
			return len;
		if (room < len)
			return none(0, out, room);
		for (k = 0; k < room; k++)
			out[room - 1 - k] = k < len ? (uint8_t)(a.w[k / S] >> (8 * (k % S))) : 0;
		return room;
	}
	if (as && !zero) {
		/* -x = ~(x - 1); x - 1 has the same number of bits unless x is a power of two */
		subabs(&a, &a, &one);
		if (an == 1 && low == at)
			bits--;
		len = bits / 8 + 1;
	}
	else
		len = bits / 8 + 1;
	if (op == 2)
		return len;
	if (room < len)
		return none(0, out, room);
	for (k = 0; k < len; k++) {
		uint8_t x = k / S < MAXW ? (uint8_t)(a.w[k / S] >> (8 * (k % S))) : 0;
		out[len - 1 - k] = as && !zero ? (uint8_t)~x : x;
	}
	return len;
}

#!/usr/bin/env python3
"""Generate sa/ref/tables.h: every constant table of the published algorithms,
computed from its published definition (not read from the repository)."""
import math
import os


def gmul(a, b, poly):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= poly
        b >>= 1
    return r


def gpow(a, n, poly):
    r = 1
    for _ in range(n):
        r = gmul(r, a, poly)
    return r


def rows(x, m):
    r = 0
    for row in m:
        r = (r << 1) | (bin(x & row).count("1") & 1)
    return r


def aes():
    s = []
    for x in range(256):
        i = gpow(x, 254, 0x11b)
        y = 0
        for k in range(5):
            y ^= ((i << k) | (i >> (8 - k))) & 255
        s.append(y ^ 0x63)
    return s


def seed():
    A = [0x8a, 0x85, 0xfe, 0x21, 0x45, 0x42, 0x88, 0x14]
    A1 = [A[i] for i in (0, 2, 1, 5, 4, 3, 6, 7)]
    A2 = [A[i] for i in (4, 1, 2, 3, 0, 6, 5, 7)]
    return ([rows(gpow(x, 247, 0x163), A1) ^ 0xa9 for x in range(256)],
            [rows(gpow(x, 251, 0x163), A2) ^ 0x38 for x in range(256)])


def aria2():
    C = [0b11001011, 0b10111010, 0b10000001, 0b00110100, 0b10111001, 0b11101011, 0b10111100, 0b01111010]
    for order in (C, C[::-1]):
        for rev in (0, 1):
            m = [int(format(r, "08b")[::-1], 2) if rev else r for r in order]
            t = [rows(gpow(x, 247, 0x11b), m) ^ 0xe2 for x in range(256)]
            if t[:4] == [0xe2, 0x4e, 0x54, 0xfc]:
                return t
    raise SystemExit("aria")


def inv(s):
    r = [0] * 256
    for i, v in enumerate(s):
        r[v] = i
    return r


def pi_bits(n):
    """floor(pi * 2^n)"""
    g = n + 64
    one = 1 << g

    def atan_inv(k):
        t = one // k
        s, i, sg = t, 1, 1
        while t:
            t //= k * k
            i += 2
            sg = -sg
            s += sg * (t // i)
        return s
    return (4 * (4 * atan_inv(5) - atan_inv(239))) >> 64


def blowfish():
    n = 32 * (18 + 1024)
    f = pi_bits(n) & ((1 << n) - 1)
    w = [(f >> (n - 32 * (i + 1))) & 0xffffffff for i in range(18 + 1024)]
    return w[:18], w[18:]


def icbrt(n):
    x = 1 << ((n.bit_length() + 2) // 3)
    while True:
        y = (2 * x + n // (x * x)) // 3
        if y >= x:
            return x
        x = y


def primes(n):
    r, k = [], 2
    while len(r) < n:
        if all(k % p for p in r):
            r.append(k)
        k += 1
    return r


def md2():
    """S-table of MD2: Durstenfeld shuffle driven by the digits of pi"""
    dig = [3] + [int(c) for c in str(pi_dec(900))[1:]]
    it = iter(dig)

    def rand(n):
        x, y = next(it), 10
        if n > 10:
            x, y = x * 10 + next(it), 100
        if n > 100:
            x, y = x * 10 + next(it), 1000
        if x < n * (y // n):
            return x % n
        return rand(n)
    S = list(range(256))
    for i in range(2, 257):
        j = rand(i)
        S[j], S[i - 1] = S[i - 1], S[j]
    return S


def pi_dec(n):
    b = int(n * 3.33) + 64
    return (pi_bits(b) * 10 ** n) >> b


def emit(f, name, ty, v):
    f.write("static const %s %s[%d] = {" % (ty, name, len(v)))
    for i, x in enumerate(v):
        f.write(("\n\t" if i % 8 == 0 else " ") + ("0x%x%s," % (x, "ULL" if "64" in ty else "")))
    f.write("\n};\n")


DES_S = [
 "14 4 13 1 2 15 11 8 3 10 6 12 5 9 0 7 0 15 7 4 14 2 13 1 10 6 12 11 9 5 3 8 4 1 14 8 13 6 2 11 15 12 9 7 3 10 5 0 15 12 8 2 4 9 1 7 5 11 3 14 10 0 6 13",
 "15 1 8 14 6 11 3 4 9 7 2 13 12 0 5 10 3 13 4 7 15 2 8 14 12 0 1 10 6 9 11 5 0 14 7 11 10 4 13 1 5 8 12 6 9 3 2 15 13 8 10 1 3 15 4 2 11 6 7 12 0 5 14 9",
 "10 0 9 14 6 3 15 5 1 13 12 7 11 4 2 8 13 7 0 9 3 4 6 10 2 8 5 14 12 11 15 1 13 6 4 9 8 15 3 0 11 1 2 12 5 10 14 7 1 10 13 0 6 9 8 7 4 15 14 3 11 5 2 12",
 "7 13 14 3 0 6 9 10 1 2 8 5 11 12 4 15 13 8 11 5 6 15 0 3 4 7 2 12 1 10 14 9 10 6 9 0 12 11 7 13 15 1 3 14 5 2 8 4 3 15 0 6 10 1 13 8 9 4 5 11 12 7 2 14",
 "2 12 4 1 7 10 11 6 8 5 3 15 13 0 14 9 14 11 2 12 4 7 13 1 5 0 15 10 3 9 8 6 4 2 1 11 10 13 7 8 15 9 12 5 6 3 0 14 11 8 12 7 1 14 2 13 6 15 0 9 10 4 5 3",
 "12 1 10 15 9 2 6 8 0 13 3 4 14 7 5 11 10 15 4 2 7 12 9 5 6 1 13 14 0 11 3 8 9 14 15 5 2 8 12 3 7 0 4 10 1 13 11 6 4 3 2 12 9 5 15 10 11 14 1 7 6 0 8 13",
 "4 11 2 14 15 0 8 13 3 12 9 7 5 10 6 1 13 0 11 7 4 9 1 10 14 3 5 12 2 15 8 6 1 4 11 13 12 3 7 14 10 15 6 8 0 5 9 2 6 11 13 8 1 4 10 7 9 5 0 15 14 2 3 12",
 "13 2 8 4 6 15 11 1 10 9 3 14 5 0 12 7 1 15 13 8 10 3 7 4 12 5 6 11 0 14 9 2 7 11 4 1 9 12 14 2 0 6 10 13 15 3 5 8 2 1 14 7 4 10 8 13 15 12 9 0 3 5 6 11"]
DES_IP = [58 - 8 * (i % 8) + 2 * (i // 8) if i < 32 else 57 - 8 * (i % 8) + 2 * (i // 8 - 4) for i in range(64)]
DES_E = [((4 * (i // 6) + i % 6 - 1) % 32) + 1 for i in range(48)]
DES_P = [16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25]
DES_PC1 = [57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
           63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4]
DES_PC2 = [14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2,
           41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32]


def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa", "ref", "tables.h")
    with open(out, "w") as f:
        f.write("/* generated by tools/gen_tables.py from the published definitions */\n")
        f.write("#include <stdint.h>\n")
        a = aes()
        emit(f, "T_AES", "uint8_t", a)
        emit(f, "T_AESI", "uint8_t", inv(a))
        s1, s2 = seed()
        emit(f, "T_SEED1", "uint8_t", s1)
        emit(f, "T_SEED2", "uint8_t", s2)
        kc, k = [], 0x9e3779b9
        for _ in range(16):
            kc.append(k)
            k = ((k << 1) | (k >> 31)) & 0xffffffff
        emit(f, "T_SEEDKC", "uint32_t", kc)
        a2 = aria2()
        emit(f, "T_ARIA2", "uint8_t", a2)
        emit(f, "T_ARIA2I", "uint8_t", inv(a2))
        # constants of the ARIA key expansion: fractional part of 1/pi
        n = 384
        c = ((1 << (n + 1200)) // pi_bits(1200)) & ((1 << n) - 1)
        emit(f, "T_ARIAC", "uint8_t", [(c >> (n - 8 * (i + 1))) & 255 for i in range(48)])
        p, s = blowfish()
        emit(f, "T_BFP", "uint32_t", p)
        emit(f, "T_BFS", "uint32_t", s)
        sb = []
        for t in DES_S:
            v = [int(x) for x in t.split()]
            sb += [v[16 * (((i >> 4) & 2) | (i & 1)) + ((i >> 1) & 15)] for i in range(64)]
        emit(f, "T_DESS", "uint8_t", sb)
        emit(f, "T_DESIP", "uint8_t", DES_IP)
        emit(f, "T_DESE", "uint8_t", DES_E)
        emit(f, "T_DESP", "uint8_t", DES_P)
        emit(f, "T_DESPC1", "uint8_t", DES_PC1)
        emit(f, "T_DESPC2", "uint8_t", DES_PC2)
        emit(f, "T_MD2", "uint8_t", md2())
        emit(f, "T_MD5", "uint32_t", [int(abs(math.sin(i + 1)) * 2 ** 32) & 0xffffffff for i in range(64)])
        pr = primes(80)
        k512 = [icbrt(p << 192) & ((1 << 64) - 1) for p in pr]
        emit(f, "T_K512", "uint64_t", k512)
        emit(f, "T_K256", "uint32_t", [k >> 32 for k in k512[:64]])
        h512 = [math.isqrt(p << 128) & ((1 << 64) - 1) for p in pr[:16]]
        emit(f, "T_H512", "uint64_t", h512[:8])
        emit(f, "T_H384", "uint64_t", h512[8:])
        emit(f, "T_H256", "uint32_t", [k >> 32 for k in h512[:8]])
        emit(f, "T_H224", "uint32_t", [k & 0xffffffff for k in h512[8:]])


if __name__ == "__main__":
    main()

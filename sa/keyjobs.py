"""Value-numbering jobs about the making of RSA keys.  Prime generation, remainders, inverses and modular exponentiation are uninterpreted functions."""
from .bnjobs import wordsize
from .jobs import Job
from .rsajobs import Exp, lenlen
from .valnum import NULL, Broken, Obj, Ptr, Undecided


class Keys(Exp):
    """`primes`: for each call of the generator (number of the prime, its first byte)"""

    def __init__(s, ws, n, primes):
        super().__init__(ws, n)
        s.primes = primes
        s.calls = {}

    def externs(s):
        x = super().externs()
        x.update({"GetGCDEx": s.gcd, "BnMod": s.rem, "BnDiv": s.div, "RaGenPrimeNumberEx": s.prime, "RaGenPrimeNumber": s.prime, "RaIsPrimeNumber": s.isprime,
                  "RaRandomCreate": s.rnd, "RaRandomDestroy": lambda e, a: None})
        return x

    def rnd(s, e, a):
        e.store(a[3], Ptr(Obj("generator", 8, "undef"), 0), 8)
        return 0

    def fill(s, e, r, size, first, name, args, low=None):
        """r becomes a number of `size` bytes, a function of the arguments, the first byte of which is given"""
        k = (size + s.ws - 1) // s.ws
        if e.num(e.load(Ptr(r.obj, r.off + 4), 4)) < k:
            raise Undecided("little room")
        e.store(Ptr(r.obj, r.off), k, 4)
        e.store(Ptr(r.obj, r.off + 8), 0, 4)
        d = e.load_ptr(Ptr(r.obj, r.off + 16))
        w = 8 * s.ws
        t = [e.b.atom(("fn", name, args, j)) for j in range(8 * size)]
        t[-8:] = [first >> j & 1 for j in range(8)]
        if low is not None:
            t[0] = low
        t += [0] * (k * w - len(t))
        for i in range(k):
            e.store(Ptr(d.obj, d.off + i * s.ws), e.norm(tuple(t[i * w:(i + 1) * w])), s.ws)

    def size(s, e, w):
        """bytes of a number"""
        t = e.b.wlist[w]
        n = len(t)
        while n > 1 and t[n - 1] == 0:
            n -= 1
        return (n + 7) // 8

    def prime(s, e, a):
        bit = e.num(a[1])
        k = s.calls[id(e)] = s.calls.get(id(e), 0) + 1
        if e.journal is not None:
            raise Undecided("prime generation under an undecided condition")
        if k > len(s.primes):
            raise Undecided("more primes asked for than analysed")
        i, top = s.primes[k - 1]
        if bit % 8:
            raise Undecided("unexpected length of a prime")
        s.fill(e, a[0], bit // 8, top, "prime %d of %d bits" % (i, bit), (), 1)
        return 0

    def isprime(s, e, a):
        """`primes` lists the answers"""
        k = s.calls[id(e)] = s.calls.get(id(e), 0) + 1
        if e.journal is not None or k > len(s.primes):
            raise Undecided("unexpected test of a prime")
        return s.primes[k - 1] & 0xffffffff

    def ok(s, p):
        return isinstance(p, Ptr) and p.obj is not None

    def gcd(s, e, a):
        m, ml = s.content(e, a[3])
        n, nl = s.content(e, a[4])
        u = e.num(a[5])
        if s.ok(a[0]):
            s.fill(e, a[0], 1, 0, "gcd", (m, n))
        if s.ok(a[1]):
            s.fill(e, a[1], s.size(e, n), 0x5b, "inverse %d" % u, (m, n))
        if s.ok(a[2]):
            s.fill(e, a[2], s.size(e, m), 0x5b, "inverse %d" % u, (n, m))
        return 0

    def rem(s, e, a):
        x, y = s.content(e, a[1]), s.content(e, a[2])
        s.fill(e, a[0], s.size(e, y[0]), 0x2f, "remainder", (x[0], y[0]))
        return 0

    def div(s, e, a):
        x, y = s.content(e, a[2]), s.content(e, a[3])
        if s.ok(a[0]):
            s.fill(e, a[0], max(1, s.size(e, x[0]) - s.size(e, y[0])), 0x2f, "quotient", (x[0], y[0]))
        if s.ok(a[1]):
            s.fill(e, a[1], s.size(e, y[0]), 0x2f, "remainder", (x[0], y[0]))
        return 0


def externs(ws, n, primes):
    return lambda: Keys(ws, n, primes).externs()


def total(bit):
    l = [bit // 8, 3, bit // 8] + [bit // 16] * 5
    z = [1, 0, 0, 1, 1, 0, 0, 0]
    inner = 3 + sum(1 + lenlen(a + b) + a + b for a, b in zip(l, z))
    seq = 1 + lenlen(inner) + inner
    outer = 19 + lenlen(seq) + seq
    return 1 + lenlen(outer) + outer


def keygen(v, bit, primes):
    ws = wordsize(v)
    n = (bit // 8 + ws - 1) // ws
    t = total(bit) + 8
    what = "key of %d bits from primes %s, %s build" % (bit, " ".join("p%d=0x%02x.." % x for x in primes), v)
    return Job(what, v, "keygen.c", "lib_keygen", "ref_keygen", dict(bit=bit, total=t),
               {"M": ("in", bit // 8, {0: 0x5d}), "der": ("out", t), "enc": ("out", 8 + (n + 2) * ws), "dec": ("out", 8 + (n + 2) * ws)},
               externs=externs(ws, n, primes), cost=bit / 100, mem=1.0, group="key generation", limb=8 * ws)


NAMES = ("modulus", "public exponent", "private exponent", "first prime", "second prime", "first exponent", "second exponent", "coefficient")


def keycheck(v, bit, wrong, answers=(0, 0)):
    ws = wordsize(v)
    n = (bit // 8 + ws - 1) // ws
    h = bit // 16
    what = "check of a key of %d bits, %s%s, %s build" % (bit, "unknown " + NAMES[wrong] if wrong >= 0 else "all numbers right",
                                                         "" if answers == (0, 0) else ", primality test answering %d %d" % answers, v)
    return Job(what, v, "keygen.c", "lib_check", "ref_check", dict(bit=bit, wrong=wrong & 0xffffffff),
               {"P": ("in", 2 * h, {0: 0xc5, h: 0xe3}), "X": ("in", bit // 8)},
               externs=externs(ws, n, answers), cost=bit / 100, mem=1.0, group="key check", limb=8 * ws)

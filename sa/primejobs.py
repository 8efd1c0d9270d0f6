"""Value-numbering jobs about random numbers and primes.  The generator's output and modular exponentiation are uninterpreted here."""
from .bnjobs import wordsize
from .jobs import Job
from .rsajobs import Exp
from .valnum import NULL, Broken, Dead, Obj, Ptr, Undecided

OOM = 0xfffffffe


class Prime(Exp):
    """tops: for each request of a random number 'one', 'zero', 'last' (one less than the modulus) or its first byte;
    outcomes: of each power, in the order the definition asks for them: 'one', 'last' or 'other'"""

    def __init__(s, ws, n, tops=(), outcomes=(), code=0, size=0, verdicts=()):
        super().__init__(ws, n)
        s.tops, s.outcomes, s.code, s.size, s.verdicts = tops, outcomes, code, size, verdicts
        s.powers = {}
        s.made = {}
        s.pos = {}
        s.last = None

    def externs(s):
        x = {"RaRandomCreate": s.rnd, "RaRandomDestroy": s.end, "RaRandomBytes": s.bytes, "RaMontCreate": s.create, "GetGCDEx": s.gcd, "RaMontExpMod": s.power,
             "R_candidate": s.candidate, "R_test": s.test}
        if s.verdicts:
            x.update({"GenProbablePrimeNumber": s.candidate, "CheckMillerRabin": s.test})

        def safe(f):
            def g(e, a):
                try:
                    return f(e, a)
                except (Undecided, Broken, Dead):
                    raise
                except Exception as y:          # other parameters than known
                    raise Undecided("stand-in: %s %s" % (type(y).__name__, y))
            return g
        return {k: safe(f) for k, f in x.items()}

    def rnd(s, e, a):
        if s.code:
            return s.code
        o = Obj("generator", 8, "undef")
        e.store(a[3], Ptr(o, 0), 8)
        s.made[id(e), o] = s.made.get(id(e), 0)
        return 0

    def end(s, e, a):
        return None

    def bytes(s, e, a):
        p, n, out = a[0], e.num(a[1]), a[2]
        if e.journal is not None:
            raise Undecided("random numbers under an undecided condition")
        if not isinstance(p, Ptr) or (id(e), p.obj) not in s.made:
            raise Undecided("unknown generator")
        if not s.tops:
            at = s.pos.get((id(e), p.obj), 0)
            s.pos[id(e), p.obj] = at + n
            for i in range(n):
                e.store(Ptr(out.obj, out.off + i), tuple(e.b.atom(("fn", "random", (), 8 * (at + i) + j)) for j in range(8)), 1)
            return None
        k = s.pos.get(id(e), 0)
        s.pos[id(e)] = k + 1
        if k >= len(s.tops):
            raise Undecided("more random numbers asked for than analysed")
        t = s.tops[k]
        if n < s.size:
            raise Undecided("request of another length")
        for i in range(n):
            if t in ("one", "zero"):
                v = 1 if t == "one" and i == 0 else 0
            elif t == "last":
                if s.last is None:
                    raise Undecided("unknown modulus")
                z = e.b.wlist[s.last[0]]
                v = tuple(z[8 * i:8 * i + 8]) if i < s.size else 0
                if i == 0:
                    v = (0,) + v[1:]
                v = e.norm(v) if i < s.size else 0
            elif i == s.size - 1:
                v = t
            else:
                v = tuple(e.b.atom(("fn", "random %d" % k, (), 8 * i + j)) for j in range(8))
            e.store(Ptr(out.obj, out.off + i), v, 1)
        return None

    def create(s, e, a):
        r = super().create(e, a)
        if r == 0:
            s.last = s.content(e, a[0])
        return r

    def words(s, e, r, v, k):
        if e.num(e.load(Ptr(r.obj, r.off + 4), 4)) < k:
            raise Undecided("little room")
        e.store(Ptr(r.obj, r.off), k, 4)
        e.store(Ptr(r.obj, r.off + 8), 0, 4)
        d = e.load_ptr(Ptr(r.obj, r.off + 16))
        w = 8 * s.ws
        for i in range(k):
            e.store(Ptr(d.obj, d.off + i * s.ws), e.norm(tuple(v[i * w:(i + 1) * w])), s.ws)

    def power(s, e, a):
        if e.journal is not None:
            raise Undecided("power under an undecided condition")
        if not isinstance(a[0], Ptr) or a[0].obj not in s.mod:
            raise Undecided("unknown modulus")
        m, n = s.mod[a[0].obj]

        def key(p):
            w, k = s.content(e, p)
            t = list(e.b.wlist[w])
            while len(t) > 1 and t[-1] == 0:
                t.pop()
            return tuple(t)
        b, x = key(a[2]), key(a[3])
        w = 8 * s.ws * n
        if b == (1,):
            out = "one"
        else:
            k = (m, b, x)
            if k not in s.powers:
                s.powers[k] = s.outcomes[len(s.powers)] if len(s.powers) < len(s.outcomes) else "other"
            out = s.powers[k]
        if out == "one":
            s.words(e, a[1], (1,) + (0,) * (8 * s.ws - 1), 1)
        elif out == "last":
            s.words(e, a[1], (0,) + tuple(e.b.wlist[m][1:]), n)
        else:
            t = [e.b.atom(("fn", "power", (e.b.word(b), e.b.word(x)), j)) for j in range(8 * s.size)]
            t[-8:] = [0x2d >> j & 1 for j in range(8)]
            s.words(e, a[1], tuple(t) + (0,) * (w - len(t)), n)
        return 0

    def candidate(s, e, a):
        bit = e.num(a[1])
        if e.journal is not None or bit % 8:
            raise Undecided("candidate")
        k = s.pos[id(e), "c"] = s.pos.get((id(e), "c"), 0) + 1
        if k > len(s.verdicts):
            raise Undecided("more candidates asked for than analysed")
        if s.verdicts[k - 1] == "fail":
            return OOM
        w = 8 * s.ws
        n = (bit + w - 1) // w
        t = [e.b.atom(("fn", "candidate %d" % k, (), j)) for j in range(bit)]
        t[0] = 1
        t[-8:] = [0x80 + k >> j & 1 for j in range(8)]
        s.words(e, a[0], tuple(t) + (0,) * (n * w - bit), n)
        return 0

    def test(s, e, a):
        """the definition's stand-in answers 0, 0x7fff (composite) or an error; the library's has an out parameter"""
        w, n = s.content(e, a[0])
        t = e.b.wlist[w]
        bits = len(t)
        while bits and t[bits - 1] == 0:
            bits -= 1
        k = sum(t[bits - 8 + j] << j for j in range(8)) - 0x80
        if not 1 <= k <= len(s.verdicts):
            raise Undecided("test of another number")
        if any(t[i] != e.b.atom(("fn", "candidate %d" % k, (), i)) for i in range(1, bits - 8)):
            raise Undecided("test of another number")
        v = s.verdicts[k - 1]
        rounds = e.num(a[1])
        if v == "weak":                         # passes all rounds but the last
            v = rounds < (3 if bits >= 1024 else 5)
        if len(a) == 2:
            return OOM if v == "bad" else 0 if v is True else 0x7fff
        if v == "bad":
            return OOM
        e.store(a[3], int(v), 4)
        return 0


def number(v, op, bit, mx, own=0, code=0, neg=0):
    ws = wordsize(v)
    n = (bit + 8 * ws - 1) // (8 * ws)
    what = "%s of %d %s, room for %d words, %s generator%s, %s build" % (("random number", "odd random number", "random number of full length", "random bytes")[op], bit,
                                                                        "bytes" if op == 3 else "bits", mx, "own" if own else "caller's", " that fails" if code else "", v) + (", number negative before" if neg else "")
    return Job(what, v, "prime.c", "lib_number", "ref_number", dict(op=op, bit=bit, max=mx, own=own, neg=neg),
               {"old": ("in", mx * ws), "out": ("out", bit if op == 3 else 8 + (mx + 2) * ws)},
               externs=lambda: Prime(ws, n, code=code).externs(), cost=0.1, mem=0.5, group=("any", "odd", "full length", "bytes")[op])


def isprime(v, ln, low, top, tops, outcomes, name, code=0):
    """low: the last bytes of the number, as an integer of given size"""
    ws = wordsize(v)
    n = (ln + ws - 1) // ws
    val, size = low
    given = {ln - 1 - i: val >> 8 * i & 255 for i in range(size)}
    given[0] = top
    what = "test of a number of %d bytes ending in %#x, %s, %s build" % (ln, val, name, v)
    return Job(what, v, "prime.c", "lib_isprime", "ref_isprime", dict(len=ln), {"N": ("in", ln, given)},
               externs=lambda: Prime(ws, n, tops, outcomes, code, ln).externs(), cost=ln / 50, mem=0.8, group="primality test", limb=8 * ws)


def genprime(v, bit, own, verdicts, code=0):
    ws = wordsize(v)
    n = (bit + 8 * ws - 1) // (8 * ws)
    what = "prime of %d bits, candidates %s, %s generator, %s build" % (bit, " ".join(str(x) for x in verdicts), "own" if own else "caller's", v)
    return Job(what, v, "prime.c", "lib_genprime", "ref_genprime", dict(bit=bit, own=own), {"out": ("out", 8 + (n + 3) * ws)},
               externs=lambda: Prime(ws, n, (), (), code, bit // 8, verdicts).externs(), cost=bit / 500, mem=0.8, group="prime generation", limb=8 * ws)

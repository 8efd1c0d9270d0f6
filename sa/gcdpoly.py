"""What the Euclidean routines compute, for every sequence of quotients.

An abstract interpretation in which a big number is abstracted to a polynomial
with integer coefficients.  The operands of a Euclidean algorithm that takes k
divisions are exactly m = g K(q1..qk), n = g K(q2..qk) (K: continuants) with
g >= 1, q2..q(k-1) >= 1 and qk >= 2 (q1 >= 0), so a polynomial in g and the q's
stands for the number in all runs with k divisions at once.  With g = 1 + y and
q = 1 + x (2 + x, x for q1 = 0 + x), y and x >= 0, the sign of a polynomial
whose coefficients have one sign is known; a division of two consecutive
remainders is known by construction.  Everything else is a constant, a pointer
or unknown.  The conclusion "wrong" needs a run in which every decision was
known, and values of g and the q's at which the result is wrong.
"""
from .expo import NULL, TOP, UNSET, Analysis, Undecided

NONZERO = ("nonzero",)


class Poly:
    __slots__ = ("t",)

    def __init__(s, t):
        s.t = frozenset(t.items()) if isinstance(t, dict) else t

    def __eq__(s, o):
        return isinstance(o, Poly) and s.t == o.t

    def __hash__(s):
        return hash(s.t)

    def __add__(s, o):
        d = dict(s.t)
        for k, v in o.t:
            d[k] = d.get(k, 0) + v
            if not d[k]:
                del d[k]
        return Poly(d)

    def __neg__(s):
        return Poly({k: -v for k, v in s.t})

    def __sub__(s, o):
        return s + (-o)

    def __mul__(s, o):
        d = {}
        for k, v in s.t:
            for l, w in o.t:
                e = tuple(sorted(k + l))
                d[e] = d.get(e, 0) + v * w
        if len(d) > 20000:
            raise Undecided("polynomial too large")
        return Poly({k: v for k, v in d.items() if v})

    def const(s):
        if not s.t:
            return 0
        if len(s.t) == 1:
            (k, v), = s.t
            if k == ():
                return v
        return None

    def sign(s):
        """1: > 0, -1: < 0, 0: zero, None: not known"""
        if not s.t:
            return 0
        d = dict(s.t)
        if d.get((), 0) > 0 and all(v > 0 for v in d.values()):
            return 1
        if d.get((), 0) < 0 and all(v < 0 for v in d.values()):
            return -1
        return None

    def nonneg(s):
        return all(v > 0 for _, v in s.t)

    def at(s, env):
        r = 0
        for k, v in s.t:
            for x in k:
                v *= env[x]
            r += v
        return r


def C(c):
    return Poly({(): c} if c else {})


def V(x):
    return Poly({(x,): 1})


class Run:
    """one shape of run: k divisions, first quotient zero or not, greatest common divisor free or one"""

    def __init__(s, k, small, one):
        s.k, s.small, s.one = k, small, one
        s.g = C(1) if one else C(1) + V("y")
        s.q = []
        for i in range(1, k + 1):
            if i == 1 and small:
                s.q.append(C(0))
            elif i == k:
                s.q.append((C(2) if k > 1 else C(1)) + V("x%02d" % i))
            else:
                s.q.append(C(1) + V("x%02d" % i))
        r = [C(0), s.g]
        for q in reversed(s.q):
            r.append(q * r[-1] + r[-2])
        r.reverse()                     # m, n, r1, ..., g, 0
        s.r = r
        s.m, s.n = r[0], r[1]
        s.div = {}
        for i in range(k):
            s.div[(r[i], r[i + 1])] = (s.q[i], r[i + 2])
        a, b = [C(1), C(0)], [C(0), C(1)]
        for q in s.q[:-1]:
            a.append(a[-2] - q * a[-1])
            b.append(b[-2] - q * b[-1])
        s.a, s.b = a[-1], b[-1]

    def points(s):
        names = ["y"] + ["x%02d" % i for i in range(1, s.k + 1)]
        yield {n: 0 for n in names}
        yield {n: 1 for n in names}
        yield {n: 3 + 2 * i for i, n in enumerate(names)}
        yield {n: (7 * i * i + 5) % 11 for i, n in enumerate(names)}
        yield {n: (1 << 40) + 13 * i for i, n in enumerate(names)}


class Gcd(Analysis):
    """e: values of g and the q's that fix the word lengths of all numbers; the polynomials do not depend on them"""

    def __init__(s, mod, live, ws, run_, args, e):
        Analysis.__init__(s, mod, live, ws, 1)
        s.run_, s.spec, s.e = run_, args, e
        s.misfit = None

    def words(s, v):
        return max(1, (abs(v.at(s.e)).bit_length() + 8 * s.ws - 1) // (8 * s.ws))

    # numbers are kept as (polynomial,) so that equal numbers have equal states
    def start(s, fn):
        from .expo import State
        st = State()
        st.mem, st.zero, st.objs, st.bn = {}, set(), set(), {}
        st.pos, st.p, st.rec, st.wit, st.taint, st.ahead = 0, 0, 0, 0, False, ()
        vals = []
        for a in s.spec:
            if a is None:
                vals.append(NULL)
            elif isinstance(a, int):
                vals.append(a)
            else:
                name, v, room = a
                p = s.number(st, name, room)
                st.bn[name] = UNSET if v is None else None
                if v is not None:
                    s.setpoly(st, p, v)
                vals.append(p)
        if len(vals) != len(fn.args):
            raise Undecided("unexpected parameters")
        st.frames = [[fn, fn.blocks[0], 0, dict(zip(fn.args, vals)), ()]]
        return st

    def number(s, st, oid, words):
        st.objs.add(oid)
        st.mem[(oid, 0)] = (4, 1)
        st.mem[(oid, 4)] = (4, words)
        st.mem[(oid, 8)] = (4, 0)
        st.mem[(oid, 16)] = (8, ("p", (oid, "d"), 0))
        st.bn[oid] = None
        return ("p", oid, 0)

    def setpoly(s, st, p, v):
        if p == NULL:
            return
        if p[0] != "p" or p[1] not in st.bn or p[2]:
            raise Undecided("unknown number")
        o = p[1]
        st.bn[o] = v
        for q in [q for q in st.mem if q[0] == (o, "d")]:
            del st.mem[q]
        if v is None:
            st.mem[(o, 0)] = (4, TOP)
            st.mem[(o, 8)] = (4, TOP)
            return
        c = v.const()
        sg = v.sign()
        if c is not None and abs(c) < 1 << 32:
            st.mem[(o, 0)] = (4, 1)
            st.mem[((o, "d"), 0)] = (s.ws, abs(c))
            st.mem[(o, 8)] = (4, int(c < 0))
        else:
            st.mem[(o, 0)] = (4, s.words(v))
            if s.words(v) == 1 and sg:
                st.mem[((o, "d"), 0)] = (s.ws, NONZERO)
            st.mem[(o, 8)] = (4, 0 if v.nonneg() else 1 if sg == -1 else TOP)

    def result(s, st, p, v):
        """stores the result of an operation, which fails when there is no room for it (P11)"""
        if p != NULL and v is not None and p[0] == "p":
            room = st.mem.get((p[1], 4), (4, TOP))[1]
            if isinstance(room, int) and s.words(v) > room:
                s.setpoly(st, p, None)
                if s.misfit is None and not st.taint:
                    s.misfit = "an intermediate result of %d words does not fit into the %d words reserved for it (%s)" % (s.words(v), room, s.where.loc if s.where else "?")
                return (-3) & 0xffffffff
        s.setpoly(st, p, v)
        return 0

    def num(s, st, p):
        if p[0] != "p" or p[1] not in st.bn or p[2]:
            raise Undecided("unknown number")
        v = st.bn[p[1]]
        if v is UNSET:
            if not st.taint:
                s.wrong.append("a number that was never given a value is used")
            return None
        return v

    def icmp(s, st, pred, x, y, ty):
        if x == NONZERO and y == 0 or y == NONZERO and x == 0:
            if pred in ("eq", "ne"):
                return int(pred == "ne")
            if pred in ("ugt", "ult"):
                return int((pred == "ugt") == (y == 0))
        return Analysis.icmp(s, st, pred, x, y, ty)

    def load(s, st, p, n, isptr):
        if p[0] != "p" or p[1] is None:
            return TOP
        c = st.mem.get((p[1], p[2]))
        if c is not None:
            return c[1] if c[0] == n else TOP
        if p[1] in s.zero_(st):
            return NULL if isptr else 0
        return TOP

    @staticmethod
    def zero_(st):
        return st.zero

    def store(s, st, p, v, n):
        if p[0] == "p" and p[1] in st.bn and p[2] == 8 and isinstance(v, int) and isinstance(st.bn[p[1]], Poly):
            # the sign is set by hand
            old, x = st.bn[p[1]], None
            if v == 0:
                x = old if old.nonneg() else -old if (-old).nonneg() else None
            elif v == 1:
                x = -old if old.nonneg() else old if (-old).nonneg() else None
            s.setpoly(st, p, x)
            return
        Analysis.store(s, st, p, v, n)
        if p[0] == "p" and isinstance(p[1], tuple):
            s.setpoly(st, ("p", p[1][0], 0), None)

    def divide(s, a, b):
        if a is None or b is None:
            return None, None
        if not b.t:
            return None, None
        if not a.t:
            return C(0), C(0)
        if a == b:
            return C(1), C(0)
        r = s.run_.div.get((a, b))
        if r is not None:
            return r
        if (b - a).sign() == 1 and a.nonneg():
            return C(0), a
        for (x, y), (q, r) in s.run_.div.items():
            if y == b:
                if a == x - y and (q - C(1)).nonneg():
                    return q - C(1), r
        if b == C(1):
            return a, C(0)
        return None, None

    def arith2(s, x, y, op):
        if x is None or y is None:
            return None
        return x + y if op == "+" else x - y if op == "-" else x * y

    def word(s, v, w, signed):
        if not isinstance(v, int):
            return None
        v &= (1 << w) - 1
        return C(v - (1 << w) if signed and v >> (w - 1) else v)

    def compare(s, st, x, y):
        if x is None or y is None:
            return TOP
        d = (x - y).sign()
        return TOP if d is None else d & 0xffffffff

    def summary(s, st, n, a):
        W = 8 * s.ws
        if n in ("BnNewW", "BnNew"):
            w = a[0]
            if isinstance(w, int) and n == "BnNew":
                w = (w + W - 1) // W
            q = s.number(st, s.fresh(st), w if isinstance(w, int) else TOP)
            s.setpoly(st, q, C(0))
            return q
        if n == "BnClone":
            q = s.number(st, s.fresh(st), s.load(st, ("p", a[0][1], 4), 4, False))
            s.setpoly(st, q, s.num(st, a[0]))
            return q
        if n in ("BnFree", "BnClearFree"):
            if a[0][0] == "p" and a[0][1] in st.bn and isinstance(a[0][1], int):
                s.drop(st, a[0][1])
                for q in [q for q in st.mem if q[0] == (a[0][1], "d")]:
                    del st.mem[q]
            return 0
        if n == "BnSet":
            return s.result(st, a[0], s.num(st, a[1])) if a[0] != a[1] else 0
        if n.startswith(("BnSetInt", "BnSetUInt")):
            w = int(n[-2:]) if n[-2:] in ("32", "64") else W
            s.setpoly(st, a[0], s.word(a[1], w, "UInt" not in n))
            return 0
        if n in ("BnAdd", "BnSub", "BnMul"):
            return s.result(st, a[0], s.arith2(s.num(st, a[1]), s.num(st, a[2]), {"BnAdd": "+", "BnSub": "-", "BnMul": "*"}[n]))
        if n in ("BnSqr", "BnDouble"):
            x = s.num(st, a[1])
            return s.result(st, a[0], s.arith2(x, x, "*" if n == "BnSqr" else "+"))
        if n in ("BnAddInt", "BnAddUInt", "BnSubInt", "BnSubUInt", "BnMulInt", "BnMulUInt"):
            op = {"Add": "+", "Sub": "-", "Mul": "*"}[n[2:5]]
            return s.result(st, a[0], s.arith2(s.num(st, a[0]), s.word(a[1], W, "UInt" not in n), op))
        if n in ("_BnAddR", "_BnSubR"):
            return None
        if n == "_BnInvert":
            x = s.num(st, a[0])
            s.setpoly(st, a[0], None if x is None else -x)
            return 0
        if n in ("BnDiv", "BnMod"):
            if n == "BnDiv":
                d, r, x, y = a
            else:
                d, (r, x, y) = NULL, a
            x, y = s.num(st, x), s.num(st, y)
            if y is not None and not y.t:
                return (-1) & 0xffffffff
            q, m = s.divide(x, y)
            x, y = s.result(st, d, q), s.result(st, r, m)
            return x or y
        if n == "BnCmp":
            return s.compare(st, s.num(st, a[0]), s.num(st, a[1]))
        if n in ("BnCmpInt", "BnCmpUInt"):
            return s.compare(st, s.num(st, a[0]), s.word(a[1], W, "UInt" not in n))
        if n == "BnGetLength":
            return s.load(st, a[0], 4, False)
        if n.startswith(("Bn", "_Bn")):
            raise Undecided("operation %s" % n)
        return None

    def finish(s, st, v):
        s.exits += 1
        s.final = (st, v)


def _num(st, name):
    v = st.bn.get(name)
    return v if isinstance(v, Poly) else None


def sizes(R, k, which):
    """values of g and the q's: quotients of one size, or one quotient much longer than the others"""
    names = ["x%02d" % i for i in range(1, k + 1)]
    e = {n: 0 for n in names}
    e["y"] = 0 if R.one else (1 << 70) + 5
    if which == 0:
        for i, n in enumerate(names):
            e[n] = (1 << 61) + 2 * i + 1
    elif which == 1:
        e[names[-1]] = (1 << 256) - 3
    elif which == 2:
        e[names[k // 2]] = (1 << 200) + 1
        e[names[0]] = 3
    else:
        for i, n in enumerate(names):
            e[n] = (1 << (64 * (1 + i % 2))) - 3
    return e


def analyse(mod, live, ws, name, k, small, one, outs, unsigned, which=0):
    """(state, text, analysis).  outs: which of r, a, b are asked for"""
    R = Run(k, small, one)
    e = sizes(R, k, which)
    ln = lambda v: max(1, (v.at(e).bit_length() + 8 * ws - 1) // (8 * ws))
    lm, lnn = ln(R.m), ln(R.n)
    room = {"r": min(lm, lnn), "a": lnn, "b": lm}
    spec = [("r", None, room["r"]) if "r" in outs else None]
    ex = len(mod.funcs[name].args) > 3
    if ex:
        spec += [(o, None, room[o]) if o in outs else None for o in "ab"]
    spec += [("m", R.m, lm), ("n", R.n, lnn)]
    if ex:
        spec.append(int(unsigned))
    A = Gcd(mod, live, ws, R, spec, e)
    state, text = conclude(A, mod.funcs[name], R, outs, ex, unsigned)
    if state == "undecided" and A.misfit and not (A.final and A.final[0].taint):
        return "wrong", A.misfit, A
    return state, text, A


def explore(A, fn):
    A.final = None
    A.funcs.add(fn.name)
    try:
        A.run(fn)
    except Undecided as x:
        A.undecided.append(str(x))
    if A.wrong:
        return "wrong", A.wrong[0]
    if A.undecided or A.exits != 1:
        return "undecided", A.undecided[0] if A.undecided else "%d exits reached" % A.exits
    st, v = A.final
    if st.taint:
        return "undecided", "a decision on data is not known"
    if not isinstance(v, int):
        return "undecided", "unknown status"
    return None


def conclude(A, fn, R, outs, ex, unsigned):
    x = explore(A, fn)
    if x:
        return x
    st, v = A.final
    if v:
        return "wrong", A.misfit or "status %d" % (v - (1 << 32) if v >> 31 else v)
    wrong, und = judge(R, st, outs, ex, unsigned)
    if wrong:
        return "wrong", wrong
    if und:
        return "undecided", und
    return "proved", ""


def refused(mod, live, ws, name, zero_first):
    """(state, text, analysis): one operand is zero"""
    x = C(5) + V("y")
    spec = [("r", None, 4)]
    ex = len(mod.funcs[name].args) > 3
    if ex:
        spec += [("a", None, 4), ("b", None, 4)]
    spec += [("m", C(0), 1), ("n", x, 2)] if zero_first else [("m", x, 2), ("n", C(0), 1)]
    if ex:
        spec.append(0)
    A = Gcd(mod, live, ws, Run(1, 0, 0), spec, {"y": 1 << 70})
    e = explore(A, mod.funcs[name])
    if e:
        return e + (A,)
    st, v = A.final
    if v == 0 and _num(st, "r") != x:
        if _num(st, "r") is None and st.bn.get("r") is not UNSET:
            return "undecided", "form of the result not known", A
        return "wrong", "success is reported with a result that is not the greatest common divisor for a zero operand", A
    return "proved", "", A


def judge(R, st, outs, ex, unsigned):
    got = {}
    for o in outs:
        if st.bn.get(o) is UNSET:
            return "%s is not set" % TEXT[o], None
        got[o] = _num(st, o)
    und = [o for o in outs if got[o] is None]
    if "r" in got and got["r"] is not None and got["r"] != R.g:
        for e in R.points():
            if got["r"].at(e) != R.g.at(e):
                return "%s of %d and %d comes out as %d" % (TEXT["r"], R.m.at(e), R.n.at(e), got["r"].at(e)), None
    for o, ref, x, y in (("a", R.a, R.m, R.n), ("b", R.b, R.n, R.m)):
        v = got.get(o)
        if v is None:
            continue
        want = ref
        if unsigned and (-ref).sign() == 1:
            want = ref + y
        if v == want:
            continue
        for e in R.points():
            if (v.at(e) * x.at(e) - R.g.at(e)) % y.at(e):
                return "%s for %d and %d comes out as %d" % (TEXT[o], R.m.at(e), R.n.at(e), v.at(e)), None
            if unsigned and not 0 <= v.at(e) <= y.at(e):
                return "%s for %d and %d comes out as %d, outside the range of remainders" % (TEXT[o], R.m.at(e), R.n.at(e), v.at(e)), None
        und.append(o)
    if not unsigned and got.get("a") is not None and got.get("b") is not None and ex:
        d = got["a"] * R.m + got["b"] * R.n - R.g
        if d.t:
            for e in R.points():
                if d.at(e):
                    return "the two coefficients for %d and %d are %d and %d, which do not combine to the greatest common divisor" % (
                        R.m.at(e), R.n.at(e), got["a"].at(e), got["b"].at(e)), None
    if und:
        return None, "form of %s not known" % TEXT[und[0]]
    return None, None


TEXT = {"r": "the greatest common divisor", "a": "the coefficient of the first number", "b": "the coefficient of the second number"}

"""Which power an exponentiation routine computes.

An abstract interpretation of the routine over its LLVM IR.  The bits of the
exponent are unknown; a number is abstracted to the exponent X it stands for
(base^X) and to its power of the Montgomery factor.  X is kept as a constant
and/or as an affine function of P, the number formed by the exponent bits read
so far; reading a bit replaces P by 2P + bit.  Everything else is a constant, a
pointer or unknown.  Abstract states are merged when they are equal; since the
relation between X and P repeats after each window, the analysis reaches a
fixpoint that covers all values of the exponent.

A conclusion "wrong power" is drawn only on paths on which every decision was
on exponent bits or constants.
"""
import heapq
from fractions import Fraction

from .llvmc import Asm, CInt, CNull, CUndef, Function, GRef, Inst, Arg

TOP = ("top",)
UNSET = ("unset",)       # a number that was never given a value
NULL = ("p", None, 0)


class Undecided(Exception):
    pass


class Fork(Exception):
    """an exponent bit must be read (ahead: it will be looked at again)"""

    def __init__(s, ahead):
        s.ahead = ahead


class State:
    __slots__ = ("frames", "mem", "zero", "objs", "bn", "pos", "p", "rec", "wit", "taint", "ahead")

    def copy(s):
        t = State()
        t.frames = [[f, b, i, dict(e), a] for f, b, i, e, a in s.frames]
        t.mem, t.zero, t.objs, t.bn = dict(s.mem), set(s.zero), set(s.objs), dict(s.bn)
        t.pos, t.p, t.rec, t.wit, t.taint, t.ahead = s.pos, s.p, s.rec, s.wit, s.taint, s.ahead
        return t


class Analysis:
    def __init__(s, mod, live, ws, n, recent=0, budget=10_000_000):
        s.m, s.live, s.ws, s.n, s.R = mod, live, ws, n, recent
        s.total = 8 * ws * n
        s.budget = budget
        s.steps = 0
        s.states = 0
        s.exits = 0
        s.undecided = []
        s.wrong = []
        s.funcs = set()
        s.prim = set()          # operations taken as primitives
        s.where = None
        s.order = {}

    # ------------------------------------------------------------ start
    def start(s, fn):
        st = State()
        st.mem, st.zero, st.objs, st.bn = {}, set(), set(), {}
        st.pos, st.p, st.rec, st.wit, st.taint, st.ahead = 0, 0, 0, 0, False, ()
        mod = s.number(st, "N", s.n)
        st.objs.add("ctx")
        args = {}
        names = [a.name for a in fn.args]
        r = s.number(st, "r", s.n + 1)
        a = s.number(st, "a", s.n)
        e = s.number(st, "e", s.n)
        st.bn["a"] = (1, None, 0)
        st.bn["r"], st.bn["N"] = UNSET, None
        st.mem[("e", 16)] = (8, ("p", "E", 0))
        vals = [("p", "ctx", 0), r, a, e]
        if len(names) != 4:
            raise Undecided("unexpected parameters")
        for x, v in zip(fn.args, vals):
            args[x] = v
        st.frames = [[fn, fn.blocks[0], 0, args, ()]]
        return st

    def number(s, st, oid, words):
        st.objs.add(oid)
        st.mem[(oid, 0)] = (4, words)
        st.mem[(oid, 4)] = (4, words)
        st.mem[(oid, 8)] = (4, 0)
        st.mem[(oid, 16)] = (8, ("p", (oid, "d"), 0))
        st.bn[oid] = None
        return ("p", oid, 0)

    def fresh(s, st):
        k = 0
        while k in st.objs:
            k += 1
        st.objs.add(k)
        return k

    # ------------------------------------------------------------ exponent bits
    def bit(s, st, pos):
        """bit number pos counted from the top, or None if it has not been read yet"""
        if pos >= st.pos:
            return None
        if pos >= st.pos - len(st.ahead):
            return st.ahead[pos - st.pos]
        if st.p is not None:
            return (st.p >> (st.pos - 1 - pos)) & 1
        if pos >= st.pos - s.R:
            return (st.rec >> (st.pos - 1 - pos)) & 1
        raise Undecided("an exponent bit is read again")

    def read(s, st, b):
        st.pos += 1
        st.wit = 2 * st.wit + b
        st.rec = (2 * st.rec + b) & ((1 << s.R) - 1)
        if st.p is not None:
            st.p = 2 * st.p + b
        for k, v in st.bn.items():
            if v is None or v is UNSET:
                continue
            c, af, rho = v
            if af is not None:
                af = (af[0] / 2, af[1] - af[0] * b / 2)
            st.bn[k] = s.tidy(st, c, af, rho)
        if st.p is not None and st.p > 31:
            st.p = None
            for k, v in st.bn.items():
                if v is not None and v is not UNSET:
                    st.bn[k] = s.tidy(st, *v)

    def tidy(s, st, c, af, rho):
        if c is not None and st.p is None and af is not None:
            c = None
        if c is not None and c > 1 << 12:
            c = None
        if af is not None and (af[0].denominator > 1 << (8 * s.ws + 16) or abs(af[1]) > 1 << (s.total + 16) or af[0] > 1024):
            af = None
        if c is None and af is None:
            return None
        return (c, af, rho)

    def const(s, st, v):
        """the value of ((word k >> sh) & mask), reading bits as needed"""
        _, k, sh, mask = v
        if bin(mask).count("1") > 8:
            raise Undecided("many exponent bits used at once")
        r = 0
        pos = None
        for j in range(mask.bit_length() - 1, -1, -1):
            if mask >> j & 1:
                pos = s.place(k, j + sh)
                b = s.bit(st, pos)
                if b is None:
                    raise Fork(False)
                r |= b << j
        if pos is not None and st.ahead:
            # bits that were looked at ahead of time are forgotten once they have been used
            keep = max(0, min(len(st.ahead), st.pos - 1 - pos))
            st.ahead = st.ahead[len(st.ahead) - keep:]
        return r

    def place(s, k, w):
        return (s.n - 1 - k) * 8 * s.ws + (8 * s.ws - 1 - w)

    def nonzero(s, st, v):
        """whether any of the given bits of a word is set"""
        _, k, sh, mask = v
        for j in range(mask.bit_length() - 1, -1, -1):
            if mask >> j & 1:
                b = s.bit(st, s.place(k, j + sh))
                if b is None:
                    raise Fork(True)
                if b:
                    return 1
        return 0

    def threshold(s, st, pred, v, c):
        """comparison of exponent bits with 0 or a power of two; None: something else"""
        if bin(v[3]).count("1") <= 8:
            return None
        if pred in ("eq", "ne") and c == 0:
            t, neg = 1, pred == "eq"
        elif pred in ("ugt", "ule"):
            t, neg = c + 1, pred == "ule"
        elif pred in ("uge", "ult"):
            t, neg = c, pred == "ult"
        else:
            return None
        if t <= 0 or t & (t - 1):
            return None
        e = t.bit_length() - 1
        m = v[3] >> e
        r = s.nonzero(st, ("w", v[1], v[2] + e, m)) if m else 0
        return int(not r if neg else r)

    # ------------------------------------------------------------ values
    def val(s, env, v):
        if isinstance(v, (Inst, Arg)):
            return env.get(v, TOP)
        if isinstance(v, CInt):
            return v.u
        if isinstance(v, CNull):
            return NULL
        if isinstance(v, Function):
            return v
        if isinstance(v, GRef):
            return ("p", "@" + v.g.name, v.off)
        return TOP

    def load(s, st, p, n, isptr):
        if p[0] != "p" or p[1] is None:
            return TOP
        o, off = p[1], p[2]
        if o == "E":
            k, d = divmod(off, s.ws)
            if k < 0 or k >= s.n or d + n > s.ws:
                raise Undecided("exponent read outside its words")
            return ("w", k, 8 * d, (1 << (8 * n)) - 1)
        c = st.mem.get((o, off))
        if c is not None:
            return c[1] if c[0] == n else TOP
        if o == "ctx" and isptr:
            return ("p", "N", 0)
        if o in st.zero:
            return NULL if isptr else 0
        return TOP

    def store(s, st, p, v, n):
        if p[0] != "p" or p[1] is None:
            raise Undecided("store through an unknown pointer")
        o, off = p[1], p[2]
        if o == "E" or o == "e":
            raise Undecided("the exponent is written to")
        if isinstance(o, tuple) and o[1] == "d":
            st.bn[o[0]] = None
            return
        if o in st.bn and off in (8,) and v != 0:
            st.bn[o] = None
        for (q, x), (m, _) in list(st.mem.items()):
            if q == o and x < off + n and off < x + m:
                del st.mem[(q, x)]
        st.mem[(o, off)] = (n, v)

    # ------------------------------------------------------------ numbers
    def num(s, st, p):
        if p[0] != "p" or p[1] not in st.bn or p[2]:
            raise Undecided("unknown number")
        v = st.bn[p[1]]
        if v is UNSET:
            if not st.taint:
                s.wrong.append("a number that was never given a value is used for the exponent 0x%x" % (st.wit << (s.total - st.pos)))
            return None
        return v

    def setnum(s, st, p, v):
        if p[0] != "p" or p[1] not in st.bn or p[2]:
            raise Undecided("unknown number")
        if p[1] in ("e", "N"):
            raise Undecided("exponent or modulus used as result")
        if v is not None:
            if v[1] is None and v[0] == st.p:
                v = (v[0], (Fraction(1), Fraction(0)), v[2])
            v = s.tidy(st, *v)
        st.bn[p[1]] = v
        st.mem[(p[1], 0)] = (4, TOP)
        st.mem[(p[1], 8)] = (4, 0)

    @staticmethod
    def mul(x, y):
        if x is None or y is None:
            return None
        c = x[0] + y[0] if x[0] is not None and y[0] is not None else None
        af = None
        if x[1] is not None and y[1] is not None:
            af = (x[1][0] + y[1][0], x[1][1] + y[1][1])
        elif x[1] is not None and y[0] is not None:
            af = (x[1][0], x[1][1] + y[0])
        elif y[1] is not None and x[0] is not None:
            af = (y[1][0], y[1][1] + x[0])
        # a constant factor keeps its constant when both are known
        if x[1] is not None and y[1] is not None and c is not None:
            if x[0] is not None and y[0] is not None and (x[1][0] != y[1][0] or x is not y):
                if y[1][0] < x[1][0]:
                    af = (x[1][0], x[1][1] + y[0])
                elif x[1][0] < y[1][0]:
                    af = (y[1][0], y[1][1] + x[0])
        return (c, af, x[2] + y[2] - 1)

    def summary(s, st, n, a):
        """library operations on numbers; None: not one of them"""
        if n == "MontSet":
            v = s.num(st, a[2])
            s.setnum(st, a[1], None if v is None else (v[0], v[1], v[2] + 1))
            return 0
        if n == "MontREDC":
            v = s.num(st, a[2])
            s.setnum(st, a[1], None if v is None else (v[0], v[1], v[2] - 1))
            return 0
        if n == "MontSqr":
            v = s.num(st, a[2])
            s.setnum(st, a[1], s.sqr(v))
            return 0
        if n == "MontMul":
            x, y = s.num(st, a[2]), s.num(st, a[3])
            s.setnum(st, a[1], s.sqr(x) if a[2] == a[3] else s.mul(x, y))
            return 0
        if n in ("BnNewW", "BnNew"):
            q = s.number(st, s.fresh(st), s.n + 1)
            st.bn[q[1]] = UNSET
            return q
        if n == "BnClone":
            v = s.num(st, a[0])
            q = s.number(st, s.fresh(st), s.n + 1)
            s.setnum(st, q, v)
            return q
        if n in ("BnFree", "BnClearFree"):
            if a[0][0] == "p" and a[0][1] in st.bn and a[0][1] not in ("e", "N", "a", "r"):
                s.drop(st, a[0][1])
            return 0
        if n == "BnSet":
            if a[1] == a[0]:
                return 0
            if a[1][1] in ("e", "N"):
                s.setnum(st, a[0], None)
            else:
                s.setnum(st, a[0], s.num(st, a[1]))
            return 0
        if n in ("BnSetUInt", "BnSetInt", "BnSetUInt32", "BnSetInt32", "BnSetUInt64", "BnSetInt64"):
            s.setnum(st, a[0], (0, None, 0) if a[1] == 1 else None)
            return 0
        return None

    @staticmethod
    def sqr(v):
        if v is None:
            return None
        return (2 * v[0] if v[0] is not None else None, (2 * v[1][0], 2 * v[1][1]) if v[1] is not None else None, 2 * v[2] - 1)

    def drop(s, st, o):
        st.objs.discard(o)
        st.zero.discard(o)
        st.bn.pop(o, None)
        for k in [k for k in st.mem if k[0] == o]:
            del st.mem[k]

    # ------------------------------------------------------------ instructions
    def arith(s, st, op, w, x, y):
        M = (1 << w) - 1
        if x[0] == "p" if isinstance(x, tuple) else False:
            if op in ("add", "sub") and isinstance(y, int):
                y = y - (1 << w) if y >> (w - 1) else y
                return ("p", x[1], x[2] + (y if op == "add" else -y))
            if op == "sub" and isinstance(y, tuple) and y[0] == "p" and y[1] == x[1]:
                return (x[2] - y[2]) & M
            return TOP
        if isinstance(x, tuple) and x[0] == "w" and isinstance(y, int):
            _, k, sh, mask = x
            if op == "and":
                return ("w", k, sh, mask & y) if mask & y else 0
            if op == "lshr" and y < w:
                return ("w", k, sh + y, mask >> y) if mask >> y else 0
            if op == "shl" and y < w:
                m = (mask << y) & M
                return ("w", k, sh - y, m) if m else 0
        if isinstance(y, tuple) and y[0] == "w" and isinstance(x, int) and op == "and":
            return s.arith(st, op, w, y, x)
        if isinstance(x, tuple) and x[0] == "w":
            x = s.const(st, x)
        if isinstance(y, tuple) and y[0] == "w":
            y = s.const(st, y)
        if not isinstance(x, int) or not isinstance(y, int):
            if op == "and" and (x == 0 or y == 0) or op == "mul" and (x == 0 or y == 0):
                return 0
            return TOP
        sx = x - (1 << w) if x >> (w - 1) else x
        sy = y - (1 << w) if y >> (w - 1) else y
        if op in ("udiv", "urem", "sdiv", "srem") and y == 0 or op in ("shl", "lshr", "ashr") and y >= w:
            return TOP
        r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y,
             "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: x >> y, "ashr": lambda: sx >> y,
             "udiv": lambda: x // y, "urem": lambda: x % y,
             "sdiv": lambda: abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1),
             "srem": lambda: abs(sx) % abs(sy) * (-1 if sx < 0 else 1)}[op]()
        return r & M

    def icmp(s, st, pred, x, y, ty):
        if isinstance(x, tuple) and x[0] == "w" and isinstance(y, int):
            r = s.threshold(st, pred, x, y)
            if r is not None:
                return r
        if isinstance(x, tuple) and x[0] == "w":
            x = s.const(st, x)
        if isinstance(y, tuple) and y[0] == "w":
            y = s.const(st, y)
        if isinstance(x, int) and isinstance(y, int):
            w = ty.bits if ty.kind == "int" else 64
            sx = x - (1 << w) if x >> (w - 1) else x
            sy = y - (1 << w) if y >> (w - 1) else y
            return int({"eq": x == y, "ne": x != y, "ugt": x > y, "uge": x >= y, "ult": x < y, "ule": x <= y,
                        "sgt": sx > sy, "sge": sx >= sy, "slt": sx < sy, "sle": sx <= sy}[pred])
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "p" and y[0] == "p":
            if x[1] == y[1]:
                a, b = x[2], y[2]
                return int({"eq": a == b, "ne": a != b, "ugt": a > b, "uge": a >= b, "ult": a < b, "ule": a <= b,
                            "sgt": a > b, "sge": a >= b, "slt": a < b, "sle": a <= b}[pred])
            if pred in ("eq", "ne"):
                return int(pred == "ne")
        return TOP

    def inst(s, st, env, i):
        op = i.op
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            return s.arith(st, op, i.ty.bits, s.val(env, i.ops[0]), s.val(env, i.ops[1]))
        if op == "load":
            p = s.val(env, i.ops[0])
            if i.ty.kind == "ptr":
                return s.load(st, p, 8, True)
            return s.load(st, p, max(1, i.ty.bits // 8), False) if i.ty.kind == "int" else TOP
        if op == "store":
            v = i.ops[0]
            n = 8 if isinstance(v, (Function, GRef)) or v.ty.kind == "ptr" else max(1, (v.ty.bits + 7) // 8)
            s.store(st, s.val(env, i.ops[1]), s.val(env, v), n)
            return None
        if op == "gep":
            p = s.val(env, i.ops[0])
            if p[0] != "p":
                return TOP
            off = p[2] + i.gepconst
            for v, sc in i.gepvar:
                x = s.val(env, v)
                if isinstance(x, tuple) and x[0] == "w":
                    x = s.const(st, x)
                if not isinstance(x, int):
                    return TOP
                if x >> (v.ty.bits - 1):
                    x -= 1 << v.ty.bits
                off += x * sc
            return ("p", p[1], off)
        if op in ("zext", "sext", "trunc"):
            x = s.val(env, i.ops[0])
            w0, w1 = i.ops[0].ty.bits, i.ty.bits
            if isinstance(x, tuple):
                if x[0] == "w":
                    if op == "trunc":
                        m = x[3] & ((1 << w1) - 1)
                        return ("w", x[1], x[2], m) if m else 0
                    if op == "zext" or not x[3] >> (w0 - 1):
                        return x
                    x = s.const(st, x)
                else:
                    return TOP
            if op == "trunc":
                return x & ((1 << w1) - 1)
            if op == "sext" and x >> (w0 - 1):
                return x | (((1 << (w1 - w0)) - 1) << w0)
            return x
        if op == "icmp":
            return s.icmp(st, i.pred, s.val(env, i.ops[0]), s.val(env, i.ops[1]), i.ops[0].ty if not isinstance(i.ops[0], (Function, GRef)) else i.ops[1].ty)
        if op == "select":
            c, x, y = (s.val(env, o) for o in i.ops)
            if isinstance(c, tuple) and c[0] == "w":
                c = s.const(st, c)
            if isinstance(c, int):
                return x if c else y
            return x if x == y else TOP
        if op == "alloca":
            k = s.fresh(st)
            st.frames[-1][4] += (k,)
            return ("p", k, 0)
        if op in ("bitcast", "freeze", "ptrtoint", "inttoptr"):
            x = s.val(env, i.ops[0])
            return NULL if op == "inttoptr" and x == 0 else x
        return TOP

    def call(s, st, env, i):
        """True: continue after the call; 'in': entered the callee; 'dead'"""
        c = i.callee
        if isinstance(c, Asm):
            env[i] = TOP
            return True
        if not isinstance(c, Function):
            raise Undecided("indirect call")
        n = c.name
        if n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume")):
            return True
        a = [s.val(env, x) for x in i.args]
        for k, x in enumerate(a):
            if isinstance(x, tuple) and x[0] == "w" and n not in ("llvm.memset",):
                if bin(x[3]).count("1") <= 8:
                    a[k] = s.const(st, x)
        r = s.summary(st, n, a)
        if r is not None:
            s.prim.add(n)
            env[i] = r
            return True
        if not c.decl:
            if len(st.frames) > 30:
                raise Undecided("recursion")
            st.frames[-1][2] += 1
            st.frames.append([c, c.blocks[0], 0, dict(zip(c.args, a)), (i,)])
            s.funcs.add(n)
            return "in"
        if n.startswith("llvm.memset") or n == "memset":
            p, v, k = a[0], a[1], a[2]
            if p[0] != "p" or p[1] in ("E", "e"):
                raise Undecided("memset of something unknown")
            if isinstance(p[1], tuple):
                st.bn[p[1][0]] = None
                return True
            if p[2] or v != 0:
                raise Undecided("partial memset")
            for q in [q for q in st.mem if q[0] == p[1]]:
                del st.mem[q]
            st.zero.add(p[1])
            env[i] = p
            return True
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove"):
            d, q, k = a[0], a[1], a[2]
            if d[0] != "p" or d[1] in ("E", "e"):
                raise Undecided("copy to something unknown")
            if isinstance(d[1], tuple):
                st.bn[d[1][0]] = None
                return True
            if q[0] != "p" or isinstance(q[1], tuple) or not isinstance(k, int):
                raise Undecided("copy of something unknown")
            cells = [(x, v) for (o, x), v in st.mem.items() if o == q[1] and q[2] <= x < q[2] + k]
            for x, (m, v) in cells:
                s.store(st, ("p", d[1], d[2] + x - q[2]), v, m)
            env[i] = d
            return True
        if n in ("malloc", "calloc"):
            k = s.fresh(st)
            if n == "calloc":
                st.zero.add(k)
            env[i] = ("p", k, 0)
            return True
        if n == "free":
            return True
        if n in ("__assert_fail", "abort", "exit"):
            return "dead"
        if n.startswith("llvm."):
            env[i] = TOP
            return True
        raise Undecided("call of %s" % n)

    # ------------------------------------------------------------ exploration
    def key(s, st):
        fr = []
        for f, b, i, env, a in st.frames:
            lv = s.live(f, b)
            l = []
            for v, x in env.items():
                if isinstance(v, Arg) or v in lv or v.blk is b and (i or v.op == "phi"):
                    l.append((s.id(v), x))
            l.sort(key=lambda t: t[0])
            fr.append((s.id(f), s.id(b), i, tuple(l), a))
        return (tuple(fr), frozenset(st.mem.items()), frozenset(st.zero), frozenset(st.bn.items()), st.pos, st.p, st.rec, st.taint, st.ahead)

    def id(s, v):
        k = s.order.get(v)
        if k is None:
            k = s.order[v] = len(s.order)
        return k

    def run(s, fn):
        seen = set()
        heap = []
        cnt = 0

        def push(st):
            nonlocal cnt
            cnt += 1
            heapq.heappush(heap, ((64 if st.p is None else st.p), -st.pos, cnt, st))
        push(s.start(fn))
        while heap:
            st = heapq.heappop(heap)[3]
            try:
                for t in s.block(st):
                    b = t.frames[-1][1]
                    if s.n > 1 and t.p == 0 and t.pos >= 8 * s.ws:
                        continue            # a number has no leading zero words
                    if t.frames[-1][2] or len(b.preds) > 1:
                        k = s.key(t)
                        k = (hash(k), hash((len(k), k)))    # the states themselves would not fit
                        if k in seen:
                            continue
                        seen.add(k)
                        s.states += 1
                    push(t)
            except Undecided as x:
                s.undecided.append("%s (%s)" % (x, s.where.loc if s.where else "?"))
                if len(s.undecided) > 20:
                    return
            if s.wrong:
                return
            if s.steps > s.budget:
                s.undecided.append("analysis budget")
                return

    def block(s, st):
        """runs to the next block or fork; returns the successor states"""
        while True:
            fn, blk, idx, env, al = st.frames[-1]
            insts = blk.insts
            while idx < len(insts):
                i = insts[idx]
                s.steps += 1
                if i.line:
                    s.where = i
                try:
                    if i.op == "br":
                        if not i.ops:
                            s.goto(st, i.succs[0])
                            return [st]
                        c = s.val(env, i.ops[0])
                        if isinstance(c, tuple) and c[0] == "w":
                            c = s.const(st, c)
                        if isinstance(c, int):
                            s.goto(st, i.succs[0 if c else 1])
                            return [st]
                        t = st.copy()
                        st.taint = t.taint = True
                        s.goto(st, i.succs[0])
                        s.goto(t, i.succs[1])
                        return [st, t]
                    if i.op == "switch":
                        c = s.val(env, i.ops[0])
                        if isinstance(c, tuple) and c[0] == "w":
                            c = s.const(st, c)
                        if isinstance(c, int):
                            d = i.succs[0]
                            for cv, b in i.cases:
                                if cv.u == c:
                                    d = b
                                    break
                            s.goto(st, d)
                            return [st]
                        out = []
                        for d in i.succs:
                            t = st.copy()
                            t.taint = True
                            s.goto(t, d)
                            out.append(t)
                        return out
                    if i.op == "ret":
                        v = s.val(env, i.ops[0]) if i.ops else None
                        if isinstance(v, tuple) and v[0] == "w":
                            v = s.const(st, v)
                        if len(st.frames) == 1:
                            s.finish(st, v)
                            return []
                        site = al[0]
                        for o in al[1:]:
                            s.drop(st, o)
                        st.frames.pop()
                        st.frames[-1][3][site] = v
                        return [st]
                    if i.op == "unreachable":
                        return []
                    if i.op == "call":
                        st.frames[-1][2] = idx
                        r = s.call(st, env, i)
                        if r == "in":
                            return [st]
                        if r == "dead":
                            return []
                    elif i.op != "phi":
                        env[i] = s.inst(st, env, i)
                except Fork as fk:
                    if st.pos >= s.total:
                        raise Undecided("exponent bits ran out")
                    st.frames[-1][2] = idx
                    t = st.copy()
                    s.read(st, 0)
                    s.read(t, 1)
                    if fk.ahead or st.ahead:
                        st.ahead += (0,)
                        t.ahead += (1,)
                    return [st, t]
                idx += 1
                st.frames[-1][2] = idx
            raise Undecided("block without end")

    def goto(s, st, b):
        fr = st.frames[-1]
        prev, env = fr[1], fr[3]
        ph = []
        for i in b.insts:
            if i.op != "phi":
                break
            for v, q in i.inc:
                if q is prev:
                    ph.append((i, s.val(env, v)))
                    break
        for i, v in ph:
            env[i] = v
        lv = s.live(fr[0], b)
        keep = {i for i, _ in ph}
        for v in [v for v in env if isinstance(v, Inst) and v not in lv and v not in keep]:
            del env[v]
        fr[1], fr[2] = b, 0

    def finish(s, st, v):
        s.exits += 1
        if not isinstance(v, int):
            s.undecided.append("unknown status")
            return
        rest = s.total - st.pos
        if v != 0:
            if not st.taint:
                s.wrong.append("status %d for the exponent 0x%x" % (v - (1 << 32) if v >> 31 else v, st.wit << rest))
            return
        r = st.bn["r"]
        if r is None or r is UNSET:
            if r is UNSET and not st.taint:
                s.wrong.append("no result is stored for the exponent 0x%x" % (st.wit << rest))
                return
            s.undecided.append("power not known")
            return
        c, af, rho = r
        if rho == 0 and rest == 0:
            if af is not None and af == (1, 0):
                return
            if c is not None and c == st.p:
                return
        wit = st.wit << rest
        x = c if c is not None else af[0] * st.wit + af[1]
        if st.taint:
            s.undecided.append("power not established after a decision on data")
            return
        if rho != 0:
            s.wrong.append("result still carries the Montgomery factor to the power %d" % rho)
        elif x != wit:
            s.wrong.append("base^%s for the exponent 0x%x" % (hex(int(x)) if x == int(x) else x, wit))
        elif rest:
            s.wrong.append("the last %d bits of the exponent are not used (e.g. 0x%x)" % (rest, wit | 1))
        else:
            s.undecided.append("power not established")


def analyse(mod, name, ws, n):
    """(state, text, analysis)"""
    from .valnum import Engine
    eng = Engine(mod)
    fn = mod.funcs[name]
    for recent in (0, 8):
        A = Analysis(mod, eng.livein, ws, n, recent)
        try:
            A.funcs.add(name)
            A.run(fn)
        except Undecided as x:
            A.undecided.append(str(x))
        if A.wrong or not any("read again" in u for u in A.undecided):
            break
    if A.wrong:
        return "wrong", A.wrong[0], A
    if A.undecided or not A.exits:
        return "undecided", A.undecided[0] if A.undecided else "no exit reached", A
    return "proved", "", A

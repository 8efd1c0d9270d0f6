"""Global value numbering of a whole computation over LLVM IR.

An abstract interpretation whose abstract values are value numbers (sa/vn.py).
Constants are propagated, calls are inlined, loops whose exit is decided by
constants are unrolled, and a branch on unknown data is turned into a gated
join (both arms are analysed, everything they change is merged with the
condition as the gate).  The result for an output byte is the value number of
each of its bits as a function of the inputs.  Anything the domain cannot
express raises Undecided; nothing is executed and no solver is involved.
"""
import sys

from .llvmc import Arg, Asm, CInt, CNull, COther, CUndef, Function, GRef, Inst
from .vn import Bits, Undecided

sys.setrecursionlimit(20000)


class Broken(Exception):
    """the analysed code leaves the bounds of an object (or uses a freed one) on a path no data decides"""

    def __init__(s, msg, loc=None):
        super().__init__(msg)
        s.loc = loc


class Obj:
    __slots__ = ("name", "size", "data", "ptrs", "arrs", "kind", "freed", "ro", "align", "ver")

    def __init__(s, name, size, kind):
        s.name, s.size, s.kind = name, size, kind
        s.data = {}
        s.ptrs = {}
        s.arrs = {}         # base offset -> Region
        s.freed = False
        s.ro = False
        s.align = 16
        s.ver = 0


class Ptr:
    __slots__ = ("obj", "off", "terms")

    def __init__(s, obj, off, terms=()):
        s.obj, s.off, s.terms = obj, off, terms

    def __eq__(s, o):
        return isinstance(o, Ptr) and s.obj is o.obj and s.off == o.off and s.terms == o.terms

    def __hash__(s):
        return hash((id(s.obj), s.off, s.terms))


NULL = Ptr(None, 0)


class Region:
    """part of an object that has been written through an unknown index"""
    __slots__ = ("base", "elt", "n", "state")

    def __init__(s, base, elt, n, state):
        s.base, s.elt, s.n, s.state = base, elt, n, state


class Poison:
    pass


POISON = Poison()


class Dead(Exception):
    pass


class Apart(Exception):
    """two paths must not be merged here"""


def same(a, c):
    return a is c or (type(a) is type(c) and a == c)


def width(v):
    """bits of an IR value"""
    ty = getattr(v, "ty", None)
    return ty.bits if ty is not None and ty.kind == "int" else 64


class Engine:
    def __init__(s, module, bits=None, asm=None, externs=None, budget=6_000_000):
        s.m = module
        s.b = bits or Bits()
        s.asm = asm
        s.externs = externs or {}
        s.budget = budget
        s.steps = 0
        s.journal = None
        s.globs = {}
        s.path = []
        s.arr = {}              # array state key -> number
        s.arrk = []
        s.topk = {}
        s.fresh = 0
        s.pdom = {}
        s.where = None
        s.called = set()
        s.depth = 0
        s.gate = 0
        s.late = False
        s.live = {}
        s.clash = False
        s.rets = {}
        s.lookups = 0
        s.epoch = 0         # changes whenever memory is rolled back or merged
        s.wcache = {}

    # ------------------------------------------------------------ helpers
    def bitsof(s, v, w):
        if isinstance(v, int):
            return tuple([(v >> i) & 1 for i in range(w)])
        if isinstance(v, tuple):
            return v
        if v is POISON:
            raise Undecided("value that differs between paths is used")
        raise Undecided("address used as a number")

    @staticmethod
    def norm(t):
        v = 0
        for i, b in enumerate(t):
            if b > 1:
                return t
            if b:
                v |= 1 << i
        return v

    def var(s, *d):
        return s.b.atom(("in",) + d)

    def undef(s, w):
        s.fresh += 1
        return tuple(s.b.atom(("undef", s.fresh, i)) for i in range(w))

    # ------------------------------------------------------------ objects
    def newobj(s, name, size, kind):
        return Obj(name, size, kind)

    def global_obj(s, g):
        o = s.globs.get(g.name)
        if o is None:
            o = s.globs[g.name] = Obj("@" + g.name, g.size, "global")
            o.ro = g.const
            if g.init is None:
                raise Undecided("global %s without contents" % g.name)
            s._fill(o, 0, g.vty, g.init)
        return o

    def _fill(s, o, off, ty, v):
        if ty.kind == "int":
            n = max(1, ty.bits // 8)
            for i in range(n):
                o.data[off + i] = (v >> (8 * i)) & 255
        elif ty.kind in ("array", "vector"):
            for i, x in enumerate(v):
                s._fill(o, off + i * ty.elt.size, ty.elt, x)
        elif ty.kind == "struct":
            for i in range(ty.size):
                o.data.setdefault(off + i, 0)
            for e, f, x in zip(ty.elts, ty.offs, v):
                s._fill(o, off + f, e, x)
        elif ty.kind == "ptr":
            if v == 0:
                o.ptrs[off] = NULL
            elif isinstance(v, str) and v[0] == "@" and v[1:] in s.m.funcs:
                o.ptrs[off] = s.m.funcs[v[1:]]
            elif isinstance(v, str):
                nm, _, k = v.lstrip("@&").partition("+")
                if nm in s.m.globals:
                    o.ptrs[off] = Ptr(s.global_obj(s.m.globals[nm]), int(k or 0))
        else:
            raise Undecided("initialiser")

    # ------------------------------------------------------------ memory
    def log(s, d, k):
        if s.journal is not None:
            s.journal.append((d, k, d.get(k)))

    def check(s, p, n, what):
        o = p.obj
        if o is None:
            raise Broken("%s through a null pointer" % what, s.where)
        if not isinstance(o, Obj):
            raise Undecided("%s through an unknown pointer" % what)
        if o.freed:
            raise Broken("%s in a freed object" % what, s.where)
        if p.off < 0 or (o.size is not None and p.off + n > o.size):
            if s.gate:
                raise Undecided("%s outside %s under an undecided condition" % (what, o.name))
            raise Broken("%s outside object %s (offset %d, %d bytes, size %s)" % (what, o.name, p.off, n, o.size), s.where)

    def byte(s, o, off):
        v = o.data.get(off)
        if v is None:
            for r in o.arrs.values():
                if r.base <= off < r.base + r.elt * r.n:
                    k, j = divmod(off - r.base, r.elt)
                    w = s.bitsof(s.aread(r.state, k), 8 * r.elt)
                    return s.norm(w[8 * j:8 * j + 8])
            if o.kind == "input":
                v = tuple(s.var(o.name, off, i) for i in range(8))
            elif o.kind == "zero":
                v = 0
            else:
                if off in o.ptrs or any(q <= off < q + 8 for q in o.ptrs):
                    raise Undecided("bytes of a stored pointer are read")
                v = s.undef(8)
            s.log(o.data, off)
            o.data[off] = v
        return v

    def load(s, p, n):
        """n bytes as a value"""
        if not isinstance(p, Ptr):
            raise Undecided("load through an unknown pointer")
        if p.terms:
            return s.load_var(p, n)
        s.check(p, n, "read")
        o, off = p.obj, p.off
        if n == 1:
            return s.byte(o, off)
        v = 0
        bs = []
        const = True
        for i in range(n):
            x = s.byte(o, off + i)
            bs.append(x)
            if const:
                if isinstance(x, int):
                    v |= x << (8 * i)
                else:
                    const = False
        if const:
            return v
        r = []
        for x in bs:
            if isinstance(x, int):
                r += [(x >> i) & 1 for i in range(8)]
            else:
                r += x
        return tuple(r)

    def load_ptr(s, p):
        if not isinstance(p, Ptr) or p.terms:
            raise Undecided("pointer loaded through an unknown address")
        s.check(p, 8, "read")
        v = p.obj.ptrs.get(p.off)
        if v is None:
            x = s.load(p, 8)
            if x == 0:
                return NULL
            raise Undecided("pointer that was not stored as one")
        return v

    def store(s, p, v, n):
        if not isinstance(p, Ptr):
            raise Undecided("store through an unknown pointer")
        if s.b.cut and isinstance(v, tuple):
            for q in v:
                if q > 1:
                    s.b.name(q)
            nm = s.b.named
            v = tuple([nm.get(q, q) for q in v])
        if p.terms:
            return s.store_var(p, v, n)
        s.check(p, n, "write")
        o, off = p.obj, p.off
        if o.ro:
            raise Broken("write to the constant %s" % o.name, s.where)
        o.ver += 1
        if o.kind in ("input", "zero") and s.journal is not None and not isinstance(v, (Ptr, Function, Poison)):
            for i in range(n):
                s.byte(o, off + i)
        if isinstance(v, (Ptr, Function, Poison)):
            s.log(o.ptrs, off)
            o.ptrs[off] = v
            for i in range(8):
                if off + i in o.data:
                    s.log(o.data, off + i)
                    del o.data[off + i]
            return
        if o.ptrs:
            for q in [q for q in o.ptrs if q < off + n and off < q + 8]:
                s.log(o.ptrs, q)
                del o.ptrs[q]
        for r in list(o.arrs.values()):
            if r.base < off + n and off < r.base + r.elt * r.n:
                if n == r.elt and (off - r.base) % r.elt == 0:
                    s.setarr(o, r, s.awrite(r.state, (off - r.base) // r.elt, v))
                    return
                s.flatten(o, r)
        d = o.data
        j = s.journal
        for i in range(n):
            if isinstance(v, int):
                x = (v >> (8 * i)) & 255
            else:
                x = v[8 * i:8 * i + 8]
                x = s.norm(x)
            if j is not None:
                j.append((d, off + i, d.get(off + i)))
            d[off + i] = x

    # ---- reads and writes through unknown indices
    def window(s, p, n):
        """(base offset, element step, index word) of an access through one unknown index"""
        if len(p.terms) == 1:
            w, sc = p.terms[0]
            base = p.off
        else:
            w = s.b.sum(64, 0, [(t, k) for t, k in p.terms])
            sc, base = 1, p.off
        if sc < 0:
            raise Undecided("descending index")
        # places known to be one belong to the base
        one = sum(1 << i for i, q in enumerate(w[:-1]) if q == 1)
        if one:
            base += one * sc
            w = tuple([0 if q == 1 else q for q in w[:-1]] + [w[-1]])
        # common power-of-two factor of the index
        lo = 0
        while lo < len(w) and w[lo] == 0:
            lo += 1
        hi = len(w)
        while hi > lo and w[hi - 1] == 0:
            hi -= 1
        c = s.norm(w[hi:])
        if hi - lo > 10:
            raise Undecided("index with %d unknown bits into %s" % (hi - lo, p.obj.name if isinstance(p.obj, Obj) else "?"))
        return base, sc << lo, w[lo:hi]

    def load_var(s, p, n):
        base, step, idx = s.window(p, n)
        if s.b.named:
            idx = tuple([s.b.named.get(q, q) for q in idx])
        o = p.obj
        if not isinstance(o, Obj):
            raise Undecided("load through an unknown pointer")
        cnt = 1 << len(idx)
        r = o.arrs.get(base)
        if r is not None and r.elt == n == step and cnt >= r.n:
            return s.norm(s.aread_var(r.state, idx, n))
        ck = (id(o), base, step, n, cnt)
        hit = s.wcache.get(ck)
        if hit is not None and hit[0] == (o.ver, s.epoch):
            if hit[1] is not None:
                return s.norm(s.b.lookup(hit[1], idx, 8 * n))
            return s.norm(s.aread_var(hit[2], idx, n))
        vals = []
        const = True
        for k in range(cnt):
            off = base + step * k
            if off < 0 or (o.size is not None and off + n > o.size):
                vals.append(None)
                continue
            v = s.load(Ptr(o, off), n)
            vals.append(v)
            if not isinstance(v, int):
                const = False
        s.lookups += 1
        if const:
            s.wcache[ck] = ((o.ver, s.epoch), vals, None, o)
            try:
                return s.norm(s.b.lookup(vals, idx, 8 * n))
            except Undecided as e:
                raise Undecided("%s (%s)" % (e, o.name))
        if s.b.num and len(idx) <= 3:
            return s.choose(vals, idx, 8 * n)
        if any(v is None for v in vals):
            # places past the end cannot be reached by a defined access: index bits alone decide
            raise Undecided("index may leave %s" % o.name)
        st = s.astate(("lit", n, tuple(vals)))
        s.wcache[ck] = ((o.ver, s.epoch), None, st, o)
        return s.norm(s.aread_var(st, idx, n))

    def choose(s, vals, idx, w):
        """vals[idx] as nested choices"""
        while len(vals) > 1:
            h = len(vals) // 2
            c = idx[-1]
            idx = idx[:-1]
            nv = []
            for k in range(h):
                a, d = vals[k + h], vals[k]
                if a is None or d is None:
                    nv.append(d if a is None else a)
                else:
                    nv.append(s.norm(s.muxw(c, s.bitsof(a, w), s.bitsof(d, w))))
            vals = nv
        if vals[0] is None:
            raise Undecided("index outside the object")
        return vals[0]

    def store_var(s, p, v, n):
        base, step, idx = s.window(p, n)
        o = p.obj
        if not isinstance(o, Obj):
            raise Undecided("store through an unknown pointer")
        if o.ro:
            raise Broken("write to the constant %s" % o.name, s.where)
        cnt = 1 << len(idx)
        if step != n:
            raise Undecided("store with a stride")
        if base < 0 or (o.size is not None and base + n * cnt > o.size):
            raise Undecided("unknown store may leave %s" % o.name)
        r = o.arrs.get(base)
        if r is None or r.elt != n or r.n != cnt:
            for q in list(o.arrs.values()):
                if q.base < base + n * cnt and base < q.base + q.elt * q.n:
                    s.flatten(o, q)
            vals = tuple(s.load(Ptr(o, base + n * k), n) for k in range(cnt))
            r = Region(base, n, cnt, s.astate(("lit", n, vals)))
            for k in range(cnt * n):
                if base + k in o.data:
                    s.log(o.data, base + k)
                    del o.data[base + k]
            s.log(o.arrs, base)
            o.arrs[base] = r
        s.setarr(o, r, s.awrite(r.state, idx, v))

    def setarr(s, o, r, st):
        o.ver += 1
        if s.topknown(st) == r.n:
            # every place was written at a known index: what was there before does not matter
            st = s.astate(("lit", r.elt, tuple(s.aread(st, k) for k in range(r.n))))
        s.log(o.arrs, r.base)
        o.arrs[r.base] = Region(r.base, r.elt, r.n, st)

    def flatten(s, o, r):
        vals = [s.bitsof(s.aread(r.state, k), 8 * r.elt) for k in range(r.n)]
        s.log(o.arrs, r.base)
        del o.arrs[r.base]
        for k, v in enumerate(vals):
            for j in range(r.elt):
                s.log(o.data, r.base + k * r.elt + j)
                o.data[r.base + k * r.elt + j] = s.norm(v[8 * j:8 * j + 8])

    def topknown(s, st):
        """number of different known places in the stores on top of the chain"""
        r = s.topk.get(st)
        if r is None:
            k = s.arrk[st]
            seen = set()
            while k[0] == "store" and isinstance(k[3], int):
                seen.add(k[3])
                k = s.arrk[k[2]]
            r = s.topk[st] = len(seen)
        return r

    def astate(s, key):
        i = s.arr.get(key)
        if i is None:
            i = len(s.arrk)
            s.arrk.append(key)
            s.arr[key] = i
        return i

    def awrite(s, st, idx, v):
        idx = s.norm(idx) if isinstance(idx, tuple) else idx
        k = s.arrk[st]
        n = k[1]
        if isinstance(v, tuple):
            v = s.norm(v)
        if v == s.aread_any(st, idx):
            return st
        if k[0] == "lit" and isinstance(idx, int):
            vals = list(k[2])
            vals[idx] = v
            return s.astate(("lit", n, tuple(vals)))
        if k[0] == "store" and k[3] == idx:
            return s.awrite(k[2], idx, v)
        # second half of an exchange
        if k[0] == "store":
            i, x, prev = k[3], k[4], k[2]
            if x == s.aread_any(prev, idx) and v == s.aread_any(prev, i):
                a, c = sorted((i, idx), key=repr)
                return s.astate(("swap", n, prev, a, c))
            # writes at different known places commute: keep them ordered
            if isinstance(i, int) and isinstance(idx, int) and idx < i:
                return s.awrite(s.awrite(prev, idx, v), i, x)
        return s.astate(("store", n, st, idx, v))

    def aread_any(s, st, idx):
        if isinstance(idx, int):
            return s.aread(st, idx)
        return s.norm(s.aread_var(st, idx, s.arrk[st][1]))

    def aread(s, st, k):
        return s.norm(s.aread_var(st, k, s.arrk[st][1]))

    def aread_var(s, st, idx, n):
        """bits of element idx (an int or a word)"""
        if isinstance(idx, tuple):
            idx = s.norm(idx)
        key0 = None
        while True:
            key = s.arrk[st]
            if key[0] == "lit":
                if isinstance(idx, int):
                    return s.bitsof(key[2][idx], 8 * n)
                if all(isinstance(x, int) for x in key[2]):
                    return s.b.lookup(list(key[2]), idx, 8 * n)
                break
            if key[0] == "store":
                if key[3] == idx:
                    return s.bitsof(key[4], 8 * n)
                if isinstance(idx, int) and isinstance(key[3], int):
                    st = key[2]
                    continue
                break
            if key[0] == "swap":
                if key[3] == idx:
                    st, idx = key[2], key[4]
                    continue
                if key[4] == idx:
                    st, idx = key[2], key[3]
                    continue
                if isinstance(idx, int) and isinstance(key[3], int) and isinstance(key[4], int):
                    st = key[2]
                    continue
                break
        d = (("ld", st, idx))
        return tuple(s.b.atom(d + (j,)) for j in range(8 * n))

    # ------------------------------------------------------------ evaluation
    def val(s, env, v):
        if isinstance(v, Inst) or isinstance(v, Arg):
            return env[v]
        if isinstance(v, CInt):
            return v.u
        if isinstance(v, CNull):
            return NULL
        if isinstance(v, Function):
            return v
        if isinstance(v, GRef):
            return Ptr(s.global_obj(v.g), v.off)
        if isinstance(v, CUndef):
            t = v.ty
            if t.kind == "int":
                return s.undef(t.bits)
            if t.kind == "ptr":
                return POISON
            return [None] * 8
        if isinstance(v, COther):
            if v.kind == "czero" and v.ty.kind in ("struct", "array"):
                return [0] * max(1, len(v.ty.elts or []))
        raise Undecided("constant %r" % v)

    def call(s, fn, args):
        s.called.add(fn.name)
        s.depth += 1
        if s.depth > 200:
            raise Undecided("recursion")
        env = dict(zip(fn.args, args))
        r = s.run(fn, env, fn.blocks[0], None, None)
        s.depth -= 1
        if r[0] == "dead":
            raise Dead()
        return r[1]

    def run(s, fn, env, blk, prev, stop, skipphi=False):
        """('ret', value) | ('stop', previous block) | ('dead', None)"""
        while True:
            if blk is stop:
                return ("stop", prev)
            if skipphi:
                skipphi = False
            else:
                ph = []
                for i in blk.insts:
                    if i.op != "phi":
                        break
                    for v, b in i.inc:
                        if b is prev:
                            ph.append((i, s.val(env, v)))
                            break
                for i, v in ph:
                    env[i] = v
            for i in blk.insts:
                op = i.op
                if op == "phi":
                    continue
                s.steps += 1
                if op == "br":
                    break
                if op == "ret":
                    return ("ret", s.val(env, i.ops[0]) if i.ops else None)
                if op == "unreachable":
                    return ("dead", None)
                if op == "switch":
                    break
                if i.line:
                    s.where = i
                try:
                    env[i] = s.inst(env, i)
                except Dead:
                    return ("dead", None)
            if s.steps > s.budget:
                raise Undecided("analysis budget")
            t = i
            if t.op == "br":
                if not t.ops:
                    prev, blk = blk, t.succs[0]
                    continue
                c = s.val(env, t.ops[0])
                if isinstance(c, tuple):
                    c = s.norm(c)
                if isinstance(c, int):
                    prev, blk = blk, t.succs[0 if c else 1]
                    continue
                if not isinstance(c, tuple):
                    raise Undecided("branch on an unknown address")
                if s.path:
                    q = s.known(c[0])
                    if q is not None:
                        prev, blk = blk, t.succs[0 if q else 1]
                        continue
                arms = [(c[0], t.succs[0]), (None, t.succs[1])]
            else:
                c = s.val(env, t.ops[0])
                if isinstance(c, tuple):
                    c = s.norm(c)
                if isinstance(c, int):
                    d = t.succs[0]
                    for cv, b in t.cases:
                        if cv.u == c:
                            d = b
                            break
                    prev, blk = blk, d
                    continue
                if not isinstance(c, tuple):
                    raise Undecided("switch on an unknown address")
                arms = []
                for cv, b in t.cases:
                    arms.append((s.eq(c, cv.u, len(c)), b))
                arms.append((None, t.succs[0]))
            j = s.ipdom(fn, blk)
            r = s.split(fn, env, blk, arms, j, stop)
            if r[0] != "join":
                return r
            if s.late:
                j, s.late = stop, False
            if j is stop:
                # phis of the stop block belong to our caller: values are already merged
                env["phis", j] = r[1]
                return ("stop", ("phis", j))
            env.update(r[1])
            prev, blk, skipphi = None, j, True

    def known(s, c):
        """the value of a condition on the current path, if the conditions met before imply it"""
        b = s.b
        for p in s.path:
            r = b.and_(p, c)
            if r == 0:
                return 0
            if r == p:
                return 1
        return None

    def wide(s, cond, w1, w2, words):
        """merge whole machine words that were written on one side or the other"""
        L = s.b.num.limb // 8
        done = set()
        for k in list(w1.keys() | w2.keys()):
            if not isinstance(k[1], int):
                continue
            base = k[1] - k[1] % L
            if (k[0], base) in done:
                continue
            done.add((k[0], base))
            d = (w1.get(k) or w2.get(k))[0]
            v = []
            for w in (w1, w2):
                r = []
                for i in range(L):
                    q = (k[0], base + i)
                    x = w[q][1] if q in w else d.get(base + i)
                    if not isinstance(x, (int, tuple)):
                        break
                    r.append(s.bitsof(x, 8))
                v.append(r)
            if len(v[0]) < L or len(v[1]) < L or v[0] == v[1]:
                continue
            t = s.muxw(cond, sum(v[0], ()), sum(v[1], ()))
            for i in range(L):
                words[(k[0], base + i)] = (d, base + i, s.norm(t[8 * i:8 * i + 8]))

    def split(s, fn, env, blk, arms, j, stop=None):
        if not s.b.num:
            return s.split1(fn, env, blk, arms, j)
        e = dict(env)
        try:
            return s.split1(fn, env, blk, arms, j)
        except Apart:
            if j is stop:
                raise
            env.clear()
            env.update(e)
            r = s.split1(fn, env, blk, arms, stop)
            s.late = r[0] == "join"
            return r

    def split1(s, fn, env, blk, arms, j):
        """analyse the arms of an undecided branch and merge them at j (None: function exit)"""
        cond, b = arms[0]
        if len(arms) == 1:
            cond = None
        n = len(s.path)
        if s.b.num and cond is not None:
            s.path.append(cond)
        try:
            e1, w1, r1 = s.arm(fn, env, b, blk, j)
        finally:
            del s.path[n:]
        if cond is None:
            s.apply(w1)
            env.clear()
            env.update(e1)
            return r1
        env2 = dict(env)
        save = s.journal
        s.journal = []
        s.gate += 1
        if s.b.num:
            s.path.append(s.b.inv(cond))
        try:
            r2 = s.split2(fn, env2, blk, arms[1:], j)
        except Apart:
            s.gate -= 1
            s.rollback(s.journal)
            s.journal = save
            raise
        finally:
            del s.path[n:]
        s.gate -= 1
        w2 = s.rollback(s.journal)
        s.journal = save
        if r1[0] == "dead" and r2[0] == "dead":
            return r1
        if r1[0] == "dead":
            s.apply(w2)
            env.clear()
            env.update(env2)
            return r2
        if r2[0] == "dead":
            s.apply(w1)
            env.clear()
            env.update(e1)
            return r1
        if r1[0] != r2[0]:
            raise Undecided("paths that end differently")
        s.clash = False
        if r1[0] != "ret" and s.b.num:
            # where the paths point to different places, they are kept apart for longer
            for i in r1[1]:
                if not same(r1[1][i], r2[1][i]):
                    a, c = r1[1][i], r2[1][i]
                    if isinstance(a, Ptr) or isinstance(c, Ptr):
                        raise Apart()
            if r1[0] == "join":
                for i in s.livein(fn, j):
                    a, c = e1.get(i), env2.get(i)
                    if a is not c and isinstance(a, Ptr) and isinstance(c, Ptr) and a != c:
                        raise Apart()
        # memory
        words = {}
        if s.b.num:
            s.wide(cond, w1, w2, words)
        for k in list(w1.keys() | w2.keys()):
            if k in words:
                dd, key, nv = words[k]
                s.log(dd, key)
                dd[key] = nv
                continue
            d, key = k[0], k[1]
            dd = (w1.get(k) or w2.get(k))[0]
            old = dd.get(key)
            v1 = w1[k][1] if k in w1 else old
            v2 = w2[k][1] if k in w2 else old
            if v1 is v2 or (type(v1) is type(v2) and not isinstance(v1, Region) and v1 == v2):
                nv = v1
            else:
                nv = s.mux_cell(cond, v1, v2)
            s.log(dd, key)
            if nv is None:
                dd.pop(key, None)
            else:
                dd[key] = nv
        for k in env2:
            if k not in e1:
                e1[k] = env2[k]
            elif not isinstance(k, tuple):
                a, c = e1[k], env2[k]
                if a is not c and a != c:
                    e1[k] = s.muxv(cond, a, c, width(k))
        env.clear()
        env.update(e1)
        if r1[0] == "ret":
            a, c = r1[1], r2[1]
            return ("ret", a if a is c or a == c else s.muxv(cond, a, c, s.retwidth(fn)))
        ph = {}
        for i in r1[1]:
            a, c = r1[1][i], r2[1][i]
            ph[i] = a if a is c or a == c else s.muxv(cond, a, c, width(i))
        return ("join", ph)

    def split2(s, fn, env, blk, arms, j):
        if len(arms) == 1:
            r = s.run(fn, env, arms[0][1], blk, j)
            return s.atjoin(env, j, r)
        return s.split1(fn, env, blk, arms, j)

    def arm(s, fn, env, b, prev, j):
        e = dict(env)
        save = s.journal
        s.journal = []
        s.gate += 1
        try:
            r = s.atjoin(e, j, s.run(fn, e, b, prev, j))
        except Apart:
            s.gate -= 1
            s.rollback(s.journal)
            s.journal = save
            raise
        s.gate -= 1
        w = s.rollback(s.journal)
        s.journal = save
        return e, w, r

    def atjoin(s, env, j, r):
        """evaluate the phis of the join block for one arm"""
        if r[0] != "stop":
            return r
        prev = r[1]
        if isinstance(prev, tuple):
            return ("join", env.pop(prev))
        ph = {}
        for i in j.insts:
            if i.op != "phi":
                break
            for v, b in i.inc:
                if b is prev:
                    ph[i] = s.val(env, v)
                    break
        return ("join", ph)

    def rollback(s, jr):
        """undo the journal; returns the cells written and their final values"""
        w = {}
        s.epoch += 1
        for d, k, old in reversed(jr):
            if (id(d), k) not in w:
                w[(id(d), k)] = (d, d.get(k))
            if old is None:
                d.pop(k, None)
            else:
                d[k] = old
        return w

    def apply(s, w):
        s.epoch += 1
        for (_, k), (d, v) in w.items():
            s.log(d, k)
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v

    def retwidth(s, fn):
        w = s.rets.get(fn)
        if w is None:
            w = 64
            for x in fn.blocks:
                i = x.insts[-1]
                if i.op == "ret" and i.ops:
                    w = width(i.ops[0])
            s.rets[fn] = w
        return w

    def muxv(s, c, a, b, w=64):
        if isinstance(a, (int, tuple)) and isinstance(b, (int, tuple)):
            if isinstance(a, tuple):
                w = len(a)
            elif isinstance(b, tuple):
                w = len(b)
            a, b = s.bitsof(a, w), s.bitsof(b, w)
            return s.norm(s.muxw(c, a, b))
        if a is not POISON and b is not POISON:
            s.clash = True
        return POISON

    def muxw(s, c, a, b):
        """word c ? a : b"""
        if c < 2:
            return a if c else b
        n = s.b.num
        if n and a != b:
            big = len({x for x in a + b if x > 1}) > 2
            da, db = n.deepword(a), n.deepword(b)
            if big or da or db:
                r = n.mux(c, a, b, big or da and db)
                if r is not None:
                    return r
        return tuple([s.b.mux(c, x, y) for x, y in zip(a, b)])

    def mux_cell(s, c, a, b):
        if isinstance(a, (int, tuple)) and isinstance(b, (int, tuple)):
            a, b = s.bitsof(a, 8), s.bitsof(b, 8)
            return s.norm(tuple(s.b.mux(c, x, y) for x, y in zip(a, b)))
        if a is None and isinstance(b, (int, tuple)):
            return s.norm(tuple(s.b.mux(c, x, y) for x, y in zip(s.undef(8), s.bitsof(b, 8))))
        if b is None and isinstance(a, (int, tuple)):
            return s.norm(tuple(s.b.mux(c, x, y) for x, y in zip(s.bitsof(a, 8), s.undef(8))))
        if isinstance(a, Region) or isinstance(b, Region):
            raise Undecided("array written differently on two paths")
        return POISON

    def livein(s, fn, j):
        """values defined before a block that are used in it or after it"""
        r = s.live.get(fn)
        if r is None:
            use, dfn, live = {}, {}, {}
            for b in fn.blocks:
                dfn[b] = set(b.insts)
                use[b] = set()
                live[b] = set()
            for b in fn.blocks:
                for i in b.insts:
                    for u in i.uses:
                        if u.op == "phi":
                            for v, q in u.inc:
                                if v is i and q is not b:
                                    use[q].add(i)
                        elif u.blk is not b:
                            use[u.blk].add(i)
            ch = True
            while ch:
                ch = False
                for b in reversed(fn.blocks):
                    n = set(use[b])
                    for x in b.succs:
                        n |= live[x]
                    n -= dfn[b]
                    if n != live[b]:
                        live[b] = n
                        ch = True
            r = s.live[fn] = live
        return r[j]

    def ipdom(s, fn, blk):
        pd = s.pdom.get(fn)
        if pd is None:
            pd = s.pdom[fn] = postdoms(fn)
        return pd.get(blk)

    # ------------------------------------------------------------ instructions
    def eq(s, a, c, w):
        """bit: a == c"""
        a, c = s.bitsof(a, w), s.bitsof(c, w)
        r = 1
        if s.b.num:
            if any(x < 2 and y < 2 and x != y for x, y in zip(a, c)):
                return 0
            n = s.b.num
            if len({x for x in a + c if x > 1}) > 2 or n.deepword(a) or n.deepword(c):
                if all(x == 0 for x in c):
                    return n.ult(a, (1,) + c[1:])
                if any(x > 1 for x in c) and any(x > 1 for x in a):
                    return s.b.inv(s.b.xor(s.ult(a, c), s.ult(c, a))) if a != c else 1
        d = [s.b.xor(x, y) for x, y in zip(a, c)]
        if 1 in d:
            return 0
        for x in d:
            r = s.b.and_(r, s.b.inv(x))
        return r

    def inst(s, env, i):
        op = i.op
        b = s.b
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            w = i.ty.bits
            x, y = s.val(env, i.ops[0]), s.val(env, i.ops[1])
            return s.binop(op, w, x, y)
        if op == "load":
            p = s.val(env, i.ops[0])
            if i.ty.kind == "ptr":
                return s.load_ptr(p)
            if i.ty.kind != "int":
                raise Undecided("load of %r" % i.ty)
            w = i.ty.bits
            v = s.load(p, max(1, (w + 7) // 8))
            if w % 8:
                v = v & ((1 << w) - 1) if isinstance(v, int) else s.norm(v[:w])
            return v
        if op == "store":
            v = s.val(env, i.ops[0])
            p = s.val(env, i.ops[1])
            t = i.ops[0].ty if not isinstance(i.ops[0], (Function, GRef)) else None
            if isinstance(v, (Ptr, Function, Poison)):
                s.store(p, v, 8)
            else:
                if t is None or t.kind != "int":
                    raise Undecided("store of %r" % t)
                w = t.bits
                if w % 8:
                    v = s.bitsof(v, w) + (0,) * (8 - w % 8)
                    v = s.norm(v)
                s.store(p, v, (w + 7) // 8)
            return None
        if op == "gep":
            p = s.val(env, i.ops[0])
            if not isinstance(p, Ptr):
                raise Undecided("arithmetic on an unknown pointer")
            off = p.off + i.gepconst
            terms = list(p.terms)
            for v, sc in i.gepvar:
                x = s.val(env, v)
                w = v.ty.bits
                if isinstance(x, int):
                    if x >> (w - 1):
                        x -= 1 << w
                    off += x * sc
                else:
                    t = s.bitsof(x, w)
                    if w < 64:
                        t = t + (t[-1],) * (64 - w)
                    # the constant part of a sum belongs to the offset
                    q = b.sumof.get(b.tuples.get(t))
                    if q is not None and q[1]:
                        cst = q[1] - (1 << 64) if q[1] >> 63 else q[1]
                        off += cst * sc
                        t = b.sum(64, 0, [(b.wlist[m], k) for m, k in q[2]])
                    terms.append((t, sc))
            return Ptr(p.obj, off, tuple(terms))
        if op in ("zext", "sext", "trunc"):
            x = s.val(env, i.ops[0])
            w0, w1 = i.ops[0].ty.bits, i.ty.bits
            if isinstance(x, Ptr) or x is POISON:
                raise Undecided("address used as a number")
            if op == "trunc":
                if isinstance(x, int):
                    return x & ((1 << w1) - 1)
                return s.norm(b.low(x, w1))
            if op == "zext":
                return x if isinstance(x, int) else x + (0,) * (w1 - w0)
            if isinstance(x, int):
                return x | (((1 << (w1 - w0)) - 1) << w0) if x >> (w0 - 1) else x
            return x + (x[-1],) * (w1 - w0)
        if op == "icmp":
            return s.icmp(i.pred, s.val(env, i.ops[0]), s.val(env, i.ops[1]), i.ops[0].ty)
        if op == "select":
            c, x, y = (s.val(env, o) for o in i.ops)
            if isinstance(c, tuple):
                c = s.norm(c)
            if isinstance(c, int):
                return x if c else y
            if x is y or x == y:
                return x
            if i.ty.kind == "int":
                w = i.ty.bits
                return s.norm(tuple(b.mux(c[0], p, q) for p, q in zip(s.bitsof(x, w), s.bitsof(y, w))))
            return POISON
        if op == "alloca":
            n = s.val(env, i.ops[0]) if i.ops else 1
            if not isinstance(n, int):
                raise Undecided("variable-length array of unknown size")
            return Ptr(s.newobj(i.name or "local", i.aty.size * n, "undef"), 0)
        if op == "call":
            return s.docall(env, i)
        if op == "extractvalue":
            v = s.val(env, i.ops[0])
            for k in i.indices:
                v = v[k]
            return v
        if op == "insertvalue":
            a, v = s.val(env, i.ops[0]), s.val(env, i.ops[1])
            a = list(a)
            a[i.indices[0]] = v
            return a
        if op in ("bitcast", "freeze", "addrspacecast"):
            return s.val(env, i.ops[0])
        if op == "ptrtoint":
            return s.val(env, i.ops[0])
        if op == "inttoptr":
            v = s.val(env, i.ops[0])
            if isinstance(v, int) and v == 0:
                return NULL
            return v
        raise Undecided("instruction %s" % op)

    def binop(s, op, w, x, y):
        b = s.b
        M = (1 << w) - 1
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return s.ptrop(op, w, x, y)
        if isinstance(x, int) and isinstance(y, int):
            if op == "add":
                return (x + y) & M
            if op == "sub":
                return (x - y) & M
            if op == "mul":
                return (x * y) & M
            if op == "and":
                return x & y
            if op == "or":
                return x | y
            if op == "xor":
                return x ^ y
            if op in ("shl", "lshr", "ashr"):
                if y >= w:
                    return s.undef(w)
                if op == "shl":
                    return (x << y) & M
                if op == "lshr":
                    return x >> y
                sx = x - (1 << w) if x >> (w - 1) else x
                return (sx >> y) & M
            if y == 0:
                raise Undecided("division by zero")
            if op == "udiv":
                return x // y
            if op == "urem":
                return x % y
            sx = x - (1 << w) if x >> (w - 1) else x
            sy = y - (1 << w) if y >> (w - 1) else y
            q = abs(sx) // abs(sy)
            if (sx < 0) != (sy < 0):
                q = -q
            return (q if op == "sdiv" else sx - q * sy) & M
        if op in ("shl", "lshr", "ashr") and isinstance(y, int):
            t = s.bitsof(x, w)
            if y >= w:
                return s.undef(w)
            if op == "shl":
                q = b.sumof.get(b.tuples.get(t)) if y else None
                if q is not None and q[0] == w and y < 6 and False:
                    return s.norm(b.sum(w, 0, [(t, 1 << y)]))
                return s.norm((0,) * y + t[:w - y])
            return s.norm(t[y:] + ((0 if op == "lshr" else t[-1]),) * y)
        if op == "and":
            return s.norm(b.wand(s.bitsof(x, w), s.bitsof(y, w)))
        if op == "or":
            return s.norm(b.wor(s.bitsof(x, w), s.bitsof(y, w)))
        if op == "xor":
            return s.norm(b.wxor(s.bitsof(x, w), s.bitsof(y, w)))
        if op in ("add", "sub"):
            c = 0
            ad = []
            for v, k in ((x, 1), (y, 1 if op == "add" else -1)):
                if isinstance(v, int):
                    c += v * k
                else:
                    ad.append((s.bitsof(v, w), k))
            return s.norm(b.sum(w, c, ad))
        if op == "mul":
            if isinstance(x, int):
                x, y = y, x
            if isinstance(y, int):
                return s.norm(b.sum(w, 0, [(s.bitsof(x, w), y)]))
            if b.num:
                return s.norm(b.num.mul(w, s.bitsof(x, w), s.bitsof(y, w)))
            k = tuple(sorted((b.word(s.bitsof(x, w)), b.word(s.bitsof(y, w)))))
            return tuple(b.atom(("mul", k, j)) for j in range(w))
        if op in ("urem", "srem", "udiv", "sdiv") and isinstance(y, int) and y and y & (y - 1) == 0:
            t = s.bitsof(x, w)
            k = y.bit_length() - 1
            if op[0] == "u" or t[-1] == 0:
                if op.endswith("rem"):
                    return s.norm(b.low(t, k) + (0,) * (w - k)) if k else 0
                return s.norm(t[k:] + (0,) * k)
        if op in ("shl", "lshr", "ashr"):
            t, n = s.bitsof(x, w), s.bitsof(y, w)
            # barrel shifter over the bits of the amount
            lg = (w - 1).bit_length()
            if any(q for q in n[lg:]):
                raise Undecided("shift amount may reach the width")
            for k in range(lg):
                if n[k] == 0:
                    continue
                m = s.bitsof(s.binop(op, w, s.norm(t), 1 << k), w)
                t = tuple(b.mux(n[k], p, q) for p, q in zip(m, t))
            return s.norm(t)
        xb, yb = s.bitsof(x, w), s.bitsof(y, w)
        if all(q == 0 for q in xb[8:]) and isinstance(y, int):
            # small dividend: a table of the quotient or remainder
            f = {"udiv": lambda v: v // y, "urem": lambda v: v % y, "sdiv": lambda v: v // y, "srem": lambda v: v % y}[op]
            if y < 1 << (w - 1):
                return s.norm(b.lookup([f(v) for v in range(256)], xb[:8], w))
        k = (op, b.word(xb), b.word(yb))
        return tuple(b.atom(("div",) + k + (j,)) for j in range(w))

    def ptrop(s, op, w, x, y):
        if op == "add" and isinstance(x, int):
            x, y = y, x
        if isinstance(x, Ptr) and isinstance(y, int):
            sy = y - (1 << w) if y >> (w - 1) else y
            if op == "add":
                return Ptr(x.obj, x.off + sy, x.terms)
            if op == "sub":
                return Ptr(x.obj, x.off - sy, x.terms)
            if op == "and" and isinstance(x.obj, Obj) and not x.terms:
                a = x.obj.align
                if y < a:
                    return x.off & y
                k = (~y) & ((1 << w) - 1)
                if k < a and k & (k + 1) == 0:
                    return Ptr(x.obj, x.off & ~k, x.terms)
        if op == "sub" and isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is y.obj and x.terms == y.terms:
            return (x.off - y.off) & ((1 << w) - 1)
        raise Undecided("arithmetic on an address")

    def icmp(s, pred, x, y, ty):
        if isinstance(x, (Ptr, Function)) or isinstance(y, (Ptr, Function)):
            if pred in ("eq", "ne"):
                if isinstance(x, Ptr) and isinstance(y, Ptr) and (x.terms or y.terms) and x != y and x.obj is y.obj:
                    raise Undecided("comparison of unknown addresses")
                r = x is y or x == y
                return int(r == (pred == "eq"))
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is y.obj and not x.terms and not y.terms:
                a, c = x.off, y.off
                return int({"ugt": a > c, "uge": a >= c, "ult": a < c, "ule": a <= c,
                            "sgt": a > c, "sge": a >= c, "slt": a < c, "sle": a <= c}[pred])
            raise Undecided("comparison of addresses")
        if x is POISON or y is POISON:
            raise Undecided("comparison of a value that differs between paths")
        w = ty.bits if ty.kind == "int" else 64
        if isinstance(x, int) and isinstance(y, int):
            if pred[0] == "s":
                x = x - (1 << w) if x >> (w - 1) else x
                y = y - (1 << w) if y >> (w - 1) else y
            return int({"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[
                pred if pred in ("eq", "ne") else pred[1:]])
        xb, yb = s.bitsof(x, w), s.bitsof(y, w)
        if pred in ("eq", "ne"):
            r = s.eq(xb, yb, w)
            return s.norm((r if pred == "eq" else s.b.inv(r),))
        k = pred[1:]
        if pred[0] == "s":
            xb = xb[:-1] + (s.b.inv(xb[-1]),)
            yb = yb[:-1] + (s.b.inv(yb[-1]),)
        if k in ("gt", "le"):
            xb, yb = yb, xb
            inv = k == "le"
        else:
            inv = k == "ge"
        # xb < yb
        if xb == yb:
            r = 0
        else:
            r = s.ult(xb, yb)
        return s.norm((s.b.inv(r) if inv else r,))

    def ult(s, xb, yb):
        lo = lambda t: sum((1 << i) for i, q in enumerate(t) if q == 1)
        hi = lambda t: sum((1 << i) for i, q in enumerate(t) if q)
        if hi(xb) < lo(yb):
            return 1
        if lo(xb) >= hi(yb):
            return 0
        # drop equal known high places
        n = len(xb)
        while n and xb[n - 1] == yb[n - 1]:
            n -= 1
        xb, yb = xb[:n], yb[:n]
        b = s.b
        ux = [q for q in xb if q > 1]
        uy = [q for q in yb if q > 1]
        if not b.num and len(ux) + len(uy) <= 8 and (not ux or not uy):
            L = ux or uy
            tab = []
            for v in range(1 << len(L)):
                it = iter(range(len(L)))
                def conc(t):
                    r = 0
                    for i, q in enumerate(t):
                        bit = q if q < 2 else (v >> next(it)) & 1
                        r |= bit << i
                    return r
                tab.append(int(conc(xb) < conc(yb)) if ux else int(conc(xb) < conc(yb)))
            return b.lookup(tab, tuple(L), 1)[0]
        if b.num:
            L = sorted({b.form(0, b.forms[q][1], b.forms[q][2]) for q in ux + uy})
            if len(L) <= 4:
                # few different bits: the truth table
                pos = {q: i for i, q in enumerate(L)}
                def conc(t, v):
                    r = 0
                    for i, q in enumerate(t):
                        if q > 1:
                            f = b.forms[q]
                            q = ((v >> pos[b.form(0, f[1], f[2])]) & 1) ^ f[0]
                        r |= q << i
                    return r
                # as a polynomial, so that exclusions are seen
                r = 0
                for v in range(1 << len(L)):
                    if conc(xb, v) < conc(yb, v):
                        m = 1
                        for i, q in enumerate(L):
                            m = b.and_(m, q if (v >> i) & 1 else b.inv(q))
                        r = b.xor(r, m)
                return r
            return b.num.ult(xb, yb)
        if len(set(ux) | set(uy)) <= 16 and n <= 12:
            r = 0
            for p, q in zip(xb, yb):
                # from the lowest place: r = (!p & q) | (p == q) & r
                d = b.xor(p, q)
                r = b.mux(d, q, r)
            return r
        # a < b as an opaque bit over canonical words; wrap-around test of a sum
        return b.atom(("ult", n, b.word(xb), b.word(yb)))

    # ------------------------------------------------------------ calls
    def docall(s, env, i):
        c = i.callee
        if isinstance(c, Asm):
            if not c.tmpl.strip() or c.tmpl.strip().startswith("#"):
                return None
            if s.asm is None:
                raise Undecided("inline assembly")
            return s.asm.run(s, i, c, [s.val(env, a) for a in i.args])
        if not isinstance(c, Function):
            c = s.val(env, c)
            if not isinstance(c, Function):
                raise Undecided("call through an unknown pointer")
        n = c.name
        if n.startswith("llvm.dbg.") or n.startswith("llvm.lifetime") or n.startswith("llvm.assume") or n.startswith("llvm.experimental.noalias"):
            return None
        args = [s.val(env, a) for a in i.args]
        h = s.externs.get(n)
        if h is not None:
            return h(s, args)
        if not c.decl:
            return s.call(c, args)
        return s.lib(n, i, args)

    def num(s, v, what="length"):
        if isinstance(v, tuple):
            v = s.norm(v)
        if not isinstance(v, int):
            raise Undecided("unknown %s" % what)
        return v

    def copy(s, d, src, n):
        if n == 0:
            return
        if not isinstance(d, Ptr) or not isinstance(src, Ptr) or d.terms or src.terms:
            raise Undecided("copy through an unknown address")
        s.check(src, n, "read")
        s.check(d, n, "write")
        if d.obj is src.obj and d.off == src.off:
            return
        pt = {q - src.off: v for q, v in src.obj.ptrs.items() if src.off <= q and q + 8 <= src.off + n}
        cells = []
        k = 0
        while k < n:
            if k in pt:
                cells.append((k, pt[k], 8))
                k += 8
            else:
                # uninitialised padding is copied as such
                o = src.obj
                off = src.off + k
                if o.kind == "undef" and off not in o.data and not o.arrs and not o.ptrs:
                    cells.append((k, None, 1))
                else:
                    cells.append((k, s.byte(o, off), 1))
                k += 1
        for k, v, m in cells:
            if v is None:
                off = d.off + k
                if off in d.obj.data or d.obj.kind != "undef" or d.obj.arrs or d.obj.ptrs:
                    s.store(Ptr(d.obj, off), s.undef(8), 1)
            else:
                s.store(Ptr(d.obj, d.off + k), v, m)

    def lib(s, n, i, a):
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove"):
            s.copy(a[0], a[1], s.num(a[2]))
            return a[0]
        if n.startswith("llvm.memset") or n == "memset":
            k = s.num(a[2])
            v = a[1]
            v = v & 255 if isinstance(v, int) else s.norm(s.bitsof(v, 32)[:8])
            if k:
                if not isinstance(a[0], Ptr) or a[0].terms:
                    raise Undecided("memset through an unknown address")
                s.check(a[0], k, "write")
                for j in range(k):
                    s.store(Ptr(a[0].obj, a[0].off + j), v, 1)
            return a[0]
        if n in ("malloc", "calloc"):
            k = s.num(a[0]) * (s.num(a[1]) if n == "calloc" else 1)
            return Ptr(s.newobj("malloc@%s" % i.line, k, "zero" if n == "calloc" else "undef"), 0)
        if n == "free":
            if isinstance(a[0], Ptr) and a[0].obj is not None:
                if a[0].off or a[0].obj.freed:
                    raise Broken("invalid free", s.where)
                if s.journal is not None:
                    raise Undecided("free under an undecided condition")
                a[0].obj.freed = True
            return None
        if n.startswith("llvm.bswap"):
            w = i.ty.bits
            t = s.bitsof(a[0], w)
            return s.norm(tuple(x for k in range(w // 8 - 1, -1, -1) for x in t[8 * k:8 * k + 8]))
        if n.startswith("llvm.fsh"):
            w = i.ty.bits
            k = s.num(a[2], "shift") % w
            t = s.bitsof(a[1], w) + s.bitsof(a[0], w)
            if n.startswith("llvm.fshl"):
                return s.norm(t[w - k:2 * w - k])
            return s.norm(t[k:k + w])
        if n in ("memcmp", "bcmp"):
            k = s.num(a[2])
            x, y = s.load(a[0], k) if k else 0, s.load(a[1], k) if k else 0
            r = s.eq(x, y, 8 * k) if k else 1
            return s.norm((s.b.inv(r),) + (0,) * 31)
        if n in ("__assert_fail", "abort", "exit", "__assert"):
            raise Dead()
        if n.startswith("llvm.abs"):
            w = i.ty.bits
            if isinstance(a[0], int):
                return (1 << w) - a[0] if a[0] >> (w - 1) else a[0]
        for p, o in (("llvm.umin", "ult"), ("llvm.umax", "ugt"), ("llvm.smin", "slt"), ("llvm.smax", "sgt")):
            if n.startswith(p):
                c = s.icmp(o, a[0], a[1], i.ty)
                if isinstance(c, int):
                    return a[0] if c else a[1]
                return s.muxv(c[0], a[0], a[1], i.ty.bits)
        raise Undecided("call of %s" % n)


def postdoms(fn):
    """immediate post-dominators; blocks that cannot return are not exits"""
    blocks = fn.blocks
    exits = [b for b in blocks if b.term.op == "ret"]
    live = set()
    st = list(exits)
    while st:
        b = st.pop()
        if b in live:
            continue
        live.add(b)
        st += [p for p in b.preds]
    order = []
    seen = set()

    def dfs(b):
        stack = [(b, iter([x for x in b.succs if x in live]))]
        seen.add(b)
        while stack:
            n, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter([y for y in x.succs if y in live])))
                    break
            else:
                order.append(n)
                stack.pop()
    dfs(blocks[0])
    EXIT = None
    pd = {b: None for b in order}
    full = set(order) | {"EXIT"}
    sets = {b: set(full) for b in order}
    ch = True
    while ch:
        ch = False
        for b in order:
            su = [x for x in b.succs if x in live]
            if b.term.op == "ret" or not su:
                n = {"EXIT"}
            else:
                n = set.intersection(*[sets[x] for x in su])
            n = n | {b}
            if n != sets[b]:
                sets[b] = n
                ch = True
    for b in order:
        cand = sets[b] - {b, "EXIT"}
        # the closest one is post-dominated by all the others
        best = None
        for x in cand:
            if len(sets[x] & cand) == len(cand):
                best = x
                break
        pd[b] = best
    return pd

"""Run the value-numbering analysis on pairs of functions (library side,
reference side) and compare the value numbers of everything they produce."""
import hashlib
import os
import random
import re
import time

from . import build, llvmc
from .valnum import Broken, Dead, Engine, Obj, Ptr, Undecided
from .num import Num
from .vn import Bits

HERE = os.path.dirname(os.path.abspath(__file__))


def compile_pair(variant, harness):
    """bitcode of the library variant linked with a harness and the references"""
    out, raw = build.compile_variant(variant, passes=None)
    d = os.path.dirname(raw)
    inc = sorted({f for _, fl in build.commands() for f in fl if f.startswith("-I")})
    defs = [f for f in build.VARIANTS[variant][0] if f.startswith("-DBN_")]
    objs = []
    for src in [os.path.join(HERE, "harness", harness), os.path.join(HERE, "ref", "cipher.c"), os.path.join(HERE, "ref", "digest.c")]:
        o = os.path.join(d, "h_" + os.path.basename(os.path.dirname(src)) + "_" + os.path.basename(src) + ".bc")
        build.run(["clang-18" if build.shutil.which("clang-18") else "clang", "-O0", "-Xclang", "-disable-O0-optnone", "-g",
                   "-fno-discard-value-names", "-w", "-emit-llvm", "-c", src, "-o", o] + inc + defs)
        objs.append(o)
    bc = os.path.join(d, "pair.bc")
    build.run(["llvm-link", raw] + objs + ["-o", bc])
    opt = os.path.join(d, "pair.opt.bc")
    build.run(["opt", "-passes=sroa,early-cse", bc, "-o", opt])
    return llvmc.Module(opt, build.REPO)


class Result:
    def __init__(s):
        s.state = None      # equal | differ | undecided | broken
        s.text = ""
        s.loc = None
        s.bits = 0
        s.steps = 0
        s.funcs = set()


def arguments(eng, fn, ints, bufs):
    """bufs: {parameter name: ('in', size, {offset: constant}) | ('out', size)}"""
    args = []
    outs = []
    for a in fn.args:
        if a.ty.kind == "int":
            args.append(ints[a.name] & ((1 << a.ty.bits) - 1))
            continue
        k = bufs[a.name]
        o = Obj(a.name, k[1], "input")
        o.ro = k[0] == "in" and False
        for off, v in (k[2].items() if len(k) > 2 else ()):
            o.data[off] = v
        args.append(Ptr(o, 0))
        outs.append((a.name, o))
    return args, outs


def outcome(eng, fn, ints, bufs):
    args, outs = arguments(eng, fn, ints, bufs)
    r = eng.call(fn, args)
    res = []
    if fn.blocks and r is not None:
        t = [i for b in fn.blocks for i in b.insts if i.op == "ret"][0]
        res.append(("return value", eng.bitsof(r, t.ops[0].ty.bits)))
    for name, o in outs:
        for off in range(bufs[name][1]):
            res.append(("%s[%d]" % (name, off), eng.bitsof(eng.byte(o, off), 8)))
    return res


def compare(mod, lib, ref, ints, bufs, asm=None, externs=None, budget=6_000_000, cut=None, what=None, alt=None, limb=None):
    R = Result()
    bits = Bits(cut)
    if limb:
        bits.num = Num(bits, limb)
    side = "reference"
    try:
        e2 = Engine(mod, bits, asm, externs, budget * 4)
        want = outcome(e2, mod.funcs[ref], ints, bufs)
        side = "library"
        e1 = Engine(mod, bits, asm, externs, budget)
        e1.fresh = e2.fresh
        e1.arr, e1.arrk = e2.arr, e2.arrk
        got = outcome(e1, mod.funcs[lib], ints, bufs)
        R.steps = e1.steps
        R.funcs = e1.called
    except Undecided as x:
        w = e1.where if side == "library" else e2.where
        R.state, R.text = "undecided", "%s (%s side, %s)" % (x, side, w.loc if w else "?")
        R.loc = w
        return R
    except Dead:
        R.state, R.text = "broken" if side == "library" else "undecided", "the computation stops in an assertion"
        R.loc = e1.where if side == "library" else None
        return R
    except Broken as x:
        if side == "reference":
            R.state, R.text = "undecided", "reference: %s" % x
        else:
            R.state, R.text, R.loc = "broken", str(x), x.loc
        return R
    if what:
        def keep(n):
            m = re.fullmatch(r"(\w+)\[(\d+)\]", n)
            return not m or m.group(1) not in what or int(m.group(2)) < what[m.group(1)]
        want = [x for x in want if keep(x[0])]
        got = [x for x in got if keep(x[0])]
    R.bits = sum(len(b) for _, b in want)
    nm = bits.named
    diff = [(n, a, b) for (n, a), (_, b) in zip(got, want) if [nm.get(x, x) for x in a] != [nm.get(x, x) for x in b]]
    if not diff:
        R.state = "equal"
        return R
    if alt:
        S = compare(mod, lib, ref, {**ints, **alt}, bufs, asm, externs, budget, cut, what, limb=limb)
        if S.state == "equal":
            S.state = "alternative"
            return S
    # the normal forms differ: an alarm needs a point where the two functions differ
    w = (None if os.environ.get("NOWIT") else witness(bits, diff, e1.arrk, bufs))
    names = [n for n, _, _ in diff]
    what = ", ".join(names[:6]) + (" ... (%d in all)" % len(names) if len(names) > 6 else "")
    if w is None:
        R.state, R.text = "undecided", "normal forms of %s differ but no distinguishing point was found" % what
    else:
        R.state, R.text = "differ", "%s differ from the definition, e.g. in %s" % (what, w)
    return R


SPENT = None        # seconds that searches without success have taken so far, shared between processes


def witness(bits, diff, arrk, bufs=None):
    """a valuation of the inputs under which two normal forms evaluate differently"""
    t0 = time.time()
    spent = SPENT.value if SPENT is not None else 0.0
    try:
        r = search(bits, diff, arrk, bufs, 24, min(100, max(4, (700 - spent) / 8)), min(20, max(1, (240 - spent) / 8)))
    finally:
        t1 = time.time()
    if r is None and SPENT is not None:
        with SPENT.get_lock():
            SPENT.value += t1 - t0
    return r


def search(bits, diff, arrk, bufs, tries, seconds, corners):
    t0 = time.time()
    for t in range(tries):
        if time.time() - t0 > seconds:
            break
        ev = Evaluator(bits, t, arrk)
        for n, a, b in diff:
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y and ev.bit(x) != ev.bit(y):
                    return n
    # unlucky: points at which words take extreme or equal values
    t1 = time.time()
    size = (bits.num.limb if bits.num else 8) // 8
    for t in range(tries, 100 * tries):
        if time.time() - t0 > seconds or time.time() - t1 > corners:
            break
        ev = Evaluator(bits, t, arrk, Corners(t, size, bufs))
        for n, a, b in diff:
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y and ev.bit(x) != ev.bit(y):
                    return n
    return None


class Corners:
    """valuation in which words of the inputs take extreme or related values"""

    def __init__(s, seed, size, bufs=None):
        s.r = random.Random(seed)
        s.size, s.n = size, 8 * size
        s.words = {}
        s.bufs = [(k, b[1]) for k, b in sorted((bufs or {}).items()) if b[0] == "in" and b[1] > 0]
        s.fns = {}

    def fn(s, name, args, bit):
        """value of an uninterpreted function: often related to an input"""
        v = s.fns.get((name, args))
        r = s.r
        if v is None:
            v = r.getrandbits(2048)
            if s.bufs and r.random() < 0.8:
                b, n = r.choice(s.bufs)
                o, ln = r.randrange(n), s.size * r.randrange(1, 5)
                v = 0
                for k in range(min(ln, n - o)):
                    v = v << 8 | sum(s.bit((b, o + k, j)) << j for j in range(8))
                if r.random() < 0.6:
                    v ^= 1 << r.randrange(8 * ln)
            s.fns[(name, args)] = v
        return (v >> bit) & 1

    def bit(s, d):
        """d: (object, offset, bit)"""
        k = (d[0], d[1] // s.size)
        v = s.words.get(k)
        if v is None:
            r, m = s.r, (1 << s.n) - 1
            c = r.randrange(10)
            if c == 0:
                v = 0
            elif c == 1:
                v = m
            elif c == 2:
                v = r.choice((1, 2, 3, m - 1, m >> 1, (m >> 1) + 1))
            elif c < 6 and s.words:
                v = r.choice(sorted(s.words.values()))
                if c == 5:
                    v = (r.choice((~v, -v, v - 1, v + 1))) & m
            elif c == 6:
                v = r.getrandbits(8)
            elif c == 7:
                v = 1 << r.randrange(s.n)
            else:
                v = r.getrandbits(s.n)
            s.words[k] = v
        return (v >> (8 * (d[1] % s.size) + d[2])) & 1


class Evaluator:
    """value of a normal form at one point"""

    def __init__(s, bits, seed, arrk, corners=None):
        s.b = bits
        s.corners = corners
        s.arrk = arrk
        s.seed = seed
        s.memo = {0: 0, 1: 1}
        s.am = {}
        s.sm = {}
        s.lneed = {}
        s.lval = {}

    def bit(s, i):
        r = s.memo.get(i)
        if r is not None:
            return r
        # explicit stack: forms can be deep
        stack = [i]
        while stack:
            j = stack[-1]
            if j in s.memo:
                stack.pop()
                continue
            need = s.needs(j)
            if need:
                stack += need
                continue
            s.memo[j] = s.calc(j)
            stack.pop()
        return s.memo[i]

    def needs(s, j):
        c, terms, groups = s.b.forms[j]
        out = []
        for t in terms:
            for a in s.b.tset[t]:
                if a not in s.am:
                    out += [x for x in s.aneeds(a) if x not in s.memo]
        for w, _ in groups:
            out += [x for x in s.b.wlist[w] if x not in s.memo]
        return out

    def aneeds(s, a):
        d = s.b.desc[a]
        out = []
        if d[0] == "sum":
            for m, _ in d[1][2]:
                out += s.b.wlist[m]
        elif d[0] == "bit":
            out.append(d[1])
        elif d[0] == "lin":
            q = s.lneed.get(d[1])
            if q is None:
                q = s.lneed[d[1]] = list(s.b.num.need(d[1], set()))
            out += q
        elif d[0] == "mul":
            for m in d[1]:
                out += s.b.wlist[m]
        elif d[0] == "div":
            out += s.b.wlist[d[2]] + s.b.wlist[d[3]]
        elif d[0] == "ult":
            out += s.b.wlist[d[2]] + s.b.wlist[d[3]]
        elif d[0] == "fn":
            for m in d[2]:
                out += s.b.wlist[m]
        elif d[0] == "ld":
            r = s.element(d[1], d[2], d[3])
            if isinstance(r, list):
                out = r
            else:
                s.am[a] = r
        return out

    def num(s, v):
        """(value, bits still needed) of an index"""
        if isinstance(v, int):
            return v, []
        need = [x for x in v if x not in s.memo]
        return (None, need) if need else (sum(s.memo[x] << i for i, x in enumerate(v)), [])

    def element(s, st, idx, j):
        """bit j of an array element: its value, or the list of bits needed first"""
        k, need = s.num(idx)
        if need:
            return need
        while True:
            key = s.arrk[st]
            if key[0] == "lit":
                v = key[2][k]
                if isinstance(v, int):
                    return (v >> j) & 1
                return s.memo[v[j]] if v[j] in s.memo else [v[j]]
            if key[0] == "store":
                q, need = s.num(key[3])
                if need:
                    return need
                if q == k:
                    v = key[4]
                    if isinstance(v, int):
                        return (v >> j) & 1
                    return s.memo[v[j]] if v[j] in s.memo else [v[j]]
                st = key[2]
                continue
            p, n1 = s.num(key[3])
            q, n2 = s.num(key[4])
            if n1 or n2:
                return n1 + n2
            st, k = key[2], q if k == p else p if k == q else k

    def word(s, w):
        return sum(s.memo[x] << i for i, x in enumerate(s.b.wlist[w]))

    def calc(s, j):
        c, terms, groups = s.b.forms[j]
        r = c
        for t in terms:
            p = 1
            for a in s.b.tset[t]:
                p &= s.atom(a)
            r ^= p
        for w, tt in groups:
            r ^= (tt >> s.word(w)) & 1
        return r

    def atom(s, a):
        v = s.am.get(a)
        if v is not None:
            return v
        d = s.b.desc[a]
        if d[0] == "sum":
            k = d[1]
            x = s.sm.get(k)
            if x is None:
                x = (k[1] + sum(q * s.word(m) for m, q in k[2])) & ((1 << k[0]) - 1)
                s.sm[k] = x
            v = (x >> d[2]) & 1
        elif d[0] == "bit":
            v = s.memo[d[1]]
        elif d[0] == "lin":
            v = (s.b.num.value(d[1], lambda x: s.memo[x], s.lval) >> d[2]) & 1
        elif d[0] == "mul":
            v = ((s.word(d[1][0]) * s.word(d[1][1])) >> d[2]) & 1
        elif d[0] == "ult":
            v = int(s.word(d[2]) < s.word(d[3]))
        elif d[0] == "fn" and s.corners is not None:
            v = s.corners.fn(d[1], tuple(s.word(m) for m in d[2]), d[3])
        elif d[0] == "fn":
            h = hashlib.sha256(repr((s.seed, d[1], [s.word(m) for m in d[2]], d[3])).encode()).digest()
            v = h[0] & 1
        elif d[0] == "div":
            x, y, n = s.word(d[2]), s.word(d[3]), len(s.b.wlist[d[2]])
            if d[1][0] == "s":
                x -= (x >> (n - 1)) << n
                y -= (y >> (n - 1)) << n
            q = abs(x) // abs(y) if y else 0
            if (x < 0) != (y < 0):
                q = -q
            v = ((q if d[1][1:] == "div" else x - q * y) >> d[4]) & 1
        elif s.corners is not None and d[0] == "in" and len(d) == 4 and isinstance(d[2], int) and isinstance(d[3], int):
            v = s.corners.bit(d[1:])
        else:
            h = hashlib.sha256(repr((s.seed, d)).encode()).digest()
            v = h[0] & 1
        s.am[a] = v
        return v


def support(bits, arrk, outs):
    """atoms that stand for inputs on which some of the given bits depend"""
    seen, atoms, res = set(), set(), set()
    ev = Evaluator(bits, 0, arrk)
    stack = [x for x in outs if x > 1]
    arrs = set()

    def push(v):
        if not isinstance(v, int):
            stack.extend(x for x in v if x > 1 and x not in seen)
    while stack:
        j = stack.pop()
        if j in seen:
            continue
        seen.add(j)
        c, terms, groups = bits.forms[j]
        for w, _ in groups:
            push(bits.wlist[w])
        for t in terms:
            for a in bits.tset[t]:
                if a in atoms:
                    continue
                atoms.add(a)
                d = bits.desc[a]
                if d[0] == "ld":
                    push(d[2])
                    st = d[1]
                    while st is not None and st not in arrs:
                        arrs.add(st)
                        k = arrk[st]
                        if k[0] == "lit":
                            for v in k[2]:
                                if v is not None:
                                    push(v)
                            st = None
                        else:
                            push(k[3])
                            push(k[4])
                            st = k[2]
                elif d[0] in ("sum", "bit", "mul", "div", "ult", "fn", "lin"):
                    stack.extend(x for x in ev.aneeds(a) if x > 1 and x not in seen)
                else:
                    res.add(d)
    return res


def produce(mod, fn, ints, bufs, asm=None, externs=None, budget=6_000_000, cut=None):
    """(engine, [(name, bits)]) of one function"""
    eng = Engine(mod, Bits(cut), asm, externs, budget)
    return eng, outcome(eng, mod.funcs[fn], ints, bufs)

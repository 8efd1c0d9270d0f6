"""Path-sensitive, interprocedural typestate analysis over SSA form.

A disjunctive abstract interpretation with a finite abstract store: pointers are
null / an abstract object / unknown, integers are constants, linear forms or
unknown symbols, heap objects are named by allocation site + call string.  Every
allocation (and every repo operation that returns an error code) is split into
its succeeding and its failing outcome; at most K failures are followed on one
path.  Code is never executed and no solver is involved: branches are decided
only by the abstract values at hand, otherwise both sides are followed.

Events reported (rule, location, message):
  null-deref, uninit-use, double-free, bad-free, use-after-free, leak, fd-leak,
  swallowed-error, out-on-failure, no-out-on-success, unwiped-free, weak-wipe,
  unwiped-stack
"""
import heapq
import re
import sys

from .llvmc import Arg, Asm, CInt, CNull, COther, CUndef, Function, GRef, Inst

sys.setrecursionlimit(20000)

TOP = ("T",)
NULL = ("0",)
UNINIT = ("u",)


def I(n):
    return ("i", n)


def lin(v):
    """value -> (const, {sym:coef}) or None"""
    if v[0] == "i":
        return v[1], {}
    if v[0] == "s":
        return 0, {v: 1}
    if v[0] == "l":
        return v[1], dict(v[2])
    return None


def mklin(c, t):
    t = {k: x for k, x in t.items() if x}
    if not t:
        return ("i", c)
    if c == 0 and len(t) == 1:
        k, x = next(iter(t.items()))
        if x == 1:
            return k
    return ("l", c, tuple(sorted(t.items(), key=repr)))


class Obj:
    __slots__ = ("kind", "alive", "dflt", "cells", "size", "wipe", "ty", "site", "zr", "secret", "_k")

    def __init__(s, kind, dflt, size=None, ty=None, site=None):
        s.kind, s.alive, s.dflt, s.size, s.ty, s.site = kind, True, dflt, size, ty, site
        s.cells = {}
        s.wipe = None       # None = never written | 'dirty' | ('full', strong) | ('part', ranges, strong)
        s.zr = ()           # zeroed constant ranges
        s.secret = False
        s._k = None

    def copy(s):
        o = Obj.__new__(Obj)
        o.kind, o.alive, o.dflt, o.size, o.wipe, o.ty, o.site = s.kind, s.alive, s.dflt, s.size, s.wipe, s.ty, s.site
        o.cells = dict(s.cells)
        o.zr = s.zr
        o.secret = s.secret
        o._k = None
        return o

    def key(s):
        if s._k is None:
            s._k = (s.kind, s.alive, s.dflt, s.wipe, s.ty, s.secret, s.zr, s.size, frozenset(s.cells.items()))
        return s._k


class Heap:
    __slots__ = ("objs", "sub", "info", "faults", "pend", "fds", "own", "trail")

    def __init__(s):
        s.objs, s.sub, s.info = {}, {}, {}
        s.faults = 0
        s.pend = ()
        s.fds = frozenset()
        s.own = set()
        s.trail = ()

    def copy(s):
        h = Heap.__new__(Heap)
        h.objs, h.sub, h.info = dict(s.objs), dict(s.sub), dict(s.info)
        h.faults, h.pend, h.fds, h.trail = s.faults, s.pend, s.fds, s.trail
        h.own = set()
        s.own = set()
        return h

    def w(s, oid):
        if oid not in s.own:
            s.objs[oid] = s.objs[oid].copy()
            s.own.add(oid)
        o = s.objs[oid]
        o._k = None
        return o

    def res(s, v):
        n = 0
        while v[0] == "s" and v in s.sub and n < 20:
            v = s.sub[v]
            n += 1
        if v[0] == "l":
            c, t = v[1], dict(v[2])
            ch = False
            for k in list(t):
                if k in s.sub:
                    x = lin(s.res(k))
                    if x:
                        ch = True
                        f = t.pop(k)
                        c += f * x[0]
                        for kk, y in x[1].items():
                            t[kk] = t.get(kk, 0) + f * y
            if ch:
                return mklin(c, t)
        return v

    def key(s):
        return (frozenset((k, o.key()) for k, o in s.objs.items()), frozenset(s.sub.items()),
                frozenset(s.info.items()), s.faults, s.pend, s.fds)


class Event:
    __slots__ = ("rule", "fn", "file", "line", "msg", "root", "chain", "extra")

    def __init__(s, rule, inst, msg, root, chain, extra=None):
        s.rule, s.msg, s.root, s.chain, s.extra = rule, msg, root, chain, extra
        s.fn = inst.blk.fn.name if inst is not None else root
        s.file = inst.file if inst is not None else None
        s.line = inst.line if inst is not None else 0

    def key(s):
        return (s.rule, s.fn, s.line, s.msg)

    def __repr__(s):
        return "%s %s:%s in %s: %s (root %s)" % (s.rule, s.file, s.line, s.fn, s.msg, s.root)


ERRS = {-1, -2, -3, -4, -5, -6}


class Limits(Exception):
    pass


class Program:
    """Facts shared by all roots: return-constant sets, interesting functions, liveness, type invariants."""

    def __init__(s, mod, di):
        s.m, s.di = mod, di
        s.funcs = {n: f for n, f in mod.funcs.items() if not f.decl}
        s.nullok = {}
        s.ctor = {}
        s.clean = {}            # functions whose calls leave the ownership state as it was (see Engine.summary)
        s._live = {}
        s._rpo = {}
        s._arr = {}
        s._mod = {}
        s._ef = {}
        s._lo = {}
        s._status = {}
        s._retset = {}
        s.callees = {}
        for n, f in s.funcs.items():
            cs = set()
            for i in f.insts():
                if i.op == "call" and isinstance(i.callee, Function):
                    cs.add(i.callee.name)
                for o in i.ops:
                    if isinstance(o, Function) and not (i.op == "call" and o is i.callee):
                        pass
            s.callees[n] = cs
        s._interesting()
        s.fallible = {n for n in s.funcs if s.is_fallible(n)}
        s.members = {}
        s.inv = {}
        s._secret = {}
        s.volmemset = {g.name for g in mod.globals.values() if g.init in ("@memset", "@explicit_bzero", "@bzero")}
        s.wipers = {n: w for n, w in ((n, s._volatile_wiper(f)) for n, f in s.funcs.items()) if w}

    def secret_args(s, n, stack=()):
        """parameters through which the function delivers bytes read from the operating system"""
        if n in s._secret:
            return s._secret[n]
        if n in stack or n not in s.funcs:
            return frozenset()
        f = s.funcs[n]
        out = set()
        for i in f.insts():
            if i.op != "call" or not isinstance(i.callee, Function):
                continue
            ks = {1} if i.callee.name == "read" else s.secret_args(i.callee.name, stack + (n,))
            for k in ks:
                v = i.args[k] if k < len(i.args) else None
                while isinstance(v, Inst) and v.op in ("gep", "bitcast", "freeze"):
                    v = v.ops[0]
                if isinstance(v, Arg):
                    out.add(v.idx)
        s._secret[n] = frozenset(out)
        return s._secret[n]

    HEAPFN = {"malloc", "calloc", "realloc", "free", "open", "close", "read"}

    def _interesting(s):
        s.inter = set()
        s.envfail = set()     # can fail because of the environment (allocation, entropy)
        for n, f in s.funcs.items():
            if s.callees[n] & s.HEAPFN:
                s.inter.add(n)
            if s.callees[n] & {"malloc", "calloc", "realloc"}:
                s.envfail.add(n)
            for i in f.insts():
                if i.op == "store" and i.ops[0].ty is not None and i.ops[0].ty.kind == "ptr":
                    b = i.ops[1]
                    while isinstance(b, Inst) and b.op == "gep":
                        b = b.ops[0]
                    if not (isinstance(b, Inst) and b.op == "alloca"):
                        s.inter.add(n)
        ch = True
        while ch:
            ch = False
            for n in s.funcs:
                for st in (s.inter, s.envfail):
                    if n not in st and s.callees[n] & st:
                        st.add(n)
                        ch = True

    def _volatile_wiper(s, f):
        """(ptr arg, size arg) when f overwrites [ptr, ptr+size) with zeros through volatile stores in a loop."""
        pi = [a.idx for a in f.args if a.ty.kind == "ptr"]
        ni = [a.idx for a in f.args if a.ty.kind == "int"]
        if not pi or not ni:
            return None
        vs = [i for i in f.insts() if i.op == "store" and i.volatile and isinstance(i.ops[0], CInt) and i.ops[0].v == 0]
        if not vs:
            return None
        from .loops import natural_loops
        lp = natural_loops(f)
        if any(v.blk in body for _, body in lp for v in vs):
            return pi[0], ni[0]
        return None

    def is_fallible(s, n):
        t = s.di.fn_types(n)
        if not t or t[0][0] != "int" or t[0][2] != 32:
            return False
        r = s.retset(n)
        return r is not None and 0 in r and bool(r & ERRS) and r <= (ERRS | {0})

    def retset(s, n, stack=()):
        """set of integer constants fn can return, None = unknown"""
        if n in s._retset:
            return s._retset[n]
        if n in stack or n not in s.funcs:
            return None
        f = s.funcs[n]
        out = set()
        seen = set()
        bad = [False]

        def vis(v):
            if id(v) in seen:
                return
            seen.add(id(v))
            if isinstance(v, CInt):
                out.add(v.v)
            elif isinstance(v, Inst) and v.op == "phi":
                for x, _ in v.inc:
                    vis(x)
            elif isinstance(v, Inst) and v.op == "select":
                vis(v.ops[1])
                vis(v.ops[2])
            elif isinstance(v, Inst) and v.op == "call" and isinstance(v.callee, Function):
                r = s.retset(v.callee.name, stack + (n,))
                if r is None:
                    if v.callee.name not in stack + (n,):
                        bad[0] = True
                else:
                    out.update(r)
            elif isinstance(v, CUndef):
                pass
            else:
                bad[0] = True
        for i in f.insts():
            if i.op == "ret" and i.ops:
                vis(i.ops[0])
        r = None if bad[0] else out
        if not stack:
            s._retset[n] = r
        return r

    def live(s, f):
        r = s._live.get(f.name)
        if r is not None:
            return r
        use, dfn, phiuse = {}, {}, {}
        for b in f.blocks:
            u, d = set(), set()
            for i in b.insts:
                if i.op == "phi":
                    d.add(i.id)
                    for v, p in i.inc:
                        if isinstance(v, Inst):
                            phiuse.setdefault(p.idx, set()).add(v.id)
                    continue
                for v in i.ops:
                    if isinstance(v, Inst) and v.id not in d:
                        u.add(v.id)
                d.add(i.id)
            use[b.idx], dfn[b.idx] = u, d
        li = {b.idx: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.blocks):
                out = set(phiuse.get(b.idx, ()))
                for x in b.succs:
                    out |= li[x.idx]
                n = use[b.idx] | (out - dfn[b.idx])
                # phi results of b stay live-in for the state key after phi evaluation
                if n != li[b.idx]:
                    li[b.idx] = n
                    ch = True
        for b in f.blocks:
            used = set()
            for i in b.insts:
                if i.op == "phi":
                    used.add(i.id)
            li[b.idx] = li[b.idx] | used
        s._live[f.name] = li
        return li

    def selfref(s, ty):
        return bool(ty) and any(ct[0] == "ptr" and ct[1][:2] == ("struct", ty)
                                for o, (sz, n, ct) in s.struct_members(ty).items())

    def in_array(s, ty, off):
        """is off inside an array-of-structures member (elements are not tracked one by one)"""
        if ty is None:
            return False
        r = s._arr.get(ty)
        if r is None:
            r = [(o, o + sz) for o, (sz, n, ct) in s.struct_members(ty).items()
                 if ct[0] == "array" and ct[1][0] in ("struct", "ptr")]
            s._arr[ty] = r
        return any(lo <= off < hi for lo, hi in r)

    def origin(s, v, seen=None):
        """what memory pointer v designates: {argument index}, 'fresh' (allocated by this very function) or 'other'"""
        seen = seen if seen is not None else set()
        if id(v) in seen:
            return set()
        seen.add(id(v))
        if isinstance(v, CNull):
            return set()
        if not isinstance(v, Inst):
            return {v.idx} if isinstance(v, Arg) else {"other"}
        if v.op in ("gep", "bitcast"):
            return s.origin(v.ops[0], seen)
        if v.op == "phi":
            return set().union(*[s.origin(x, seen) for x, _ in v.inc])
        if v.op == "select":
            return s.origin(v.ops[1], seen) | s.origin(v.ops[2], seen)
        if v.op == "alloca" or (v.op == "call" and isinstance(v.callee, Function) and v.callee.name in ("malloc", "calloc")):
            return {"fresh"}
        return {"other"}

    def modset(s, n, stack=()):
        """(struct, offset) fields function n may store to in memory its caller knows, transitively"""
        return frozenset((t, o) for g, t, o in s._modset(n, stack))

    def _modset(s, n, stack=()):
        r = s._mod.get(n)
        if r is not None or n not in s.funcs:
            return r or frozenset()
        if n in stack:
            return frozenset()
        out = set()
        for i in s.funcs[n].insts():
            if i.op == "store":
                g = i.ops[1]
                if isinstance(g, Inst) and g.op == "gep" and g.srcty.kind == "struct" and g.gepvar:
                    continue
                f = (g.srcty.name, g.gepconst) if isinstance(g, Inst) and g.op == "gep" and g.srcty.kind == "struct" else (
                    # offset 0 of something: blame every struct whose first field has this width
                    ("*", 0) if not isinstance(g, Inst) or g.op != "gep" else None)
                if f is None:
                    continue
                out |= {(x,) + f for x in s.origin(g) if x != "fresh"}
            elif i.op == "call" and isinstance(i.callee, Function) and i.callee.name in s.funcs:
                for g, t, o in s._modset(i.callee.name, stack + (n,)):
                    if isinstance(g, int) and g < len(i.args):
                        out |= {(x, t, o) for x in s.origin(i.args[g]) if x != "fresh"}
                    else:
                        out.add(("other", t, o))
        r = frozenset(out)
        if not stack:
            s._mod[n] = r
        return r

    def enum_fields(s, ty):
        r = s._ef.get(ty)
        if r is None:
            r = frozenset(o for o, (sz, n, ct) in s.struct_members(ty).items() if ct[0] == "enum") if ty else frozenset()
            s._ef[ty] = r
        return r

    def liveout(s, f, ins):
        """values of f still needed after instruction ins"""
        r = s._lo.get((f.name, ins.id))
        if r is None:
            b = ins.blk
            r = set()
            li = s.live(f)
            for x in b.succs:
                r |= li[x.idx]
                for i in x.insts:
                    if i.op != "phi":
                        break
                    for v, pb in i.inc:
                        if pb is b and isinstance(v, Inst):
                            r.add(v.id)
            k = b.insts.index(ins)
            for i in b.insts[k:]:
                for v in i.ops:
                    if isinstance(v, Inst):
                        r.add(v.id)
            s._lo[(f.name, ins.id)] = r
        return r

    def rpo(s, f):
        r = s._rpo.get(f.name)
        if r is None:
            order, seen = [], set()
            st = [(f.blocks[0], iter(f.blocks[0].succs))]
            seen.add(f.blocks[0].idx)
            while st:
                b, it = st[-1]
                for x in it:
                    if x.idx not in seen:
                        seen.add(x.idx)
                        st.append((x, iter(x.succs)))
                        break
                else:
                    order.append(b.idx)
                    st.pop()
            r = {bi: n for n, bi in enumerate(reversed(order))}
            s._rpo[f.name] = r
        return r

    def status(s, f):
        """SSA values that carry this function's result code"""
        r = s._status.get(f.name)
        if r is None:
            r = set()
            work = [i.ops[0] for i in f.insts() if i.op == "ret" and i.ops] if f.name in s.fallible else []
            while work:
                v = work.pop()
                if isinstance(v, Inst) and v.op in ("phi", "select") and v.id not in r:
                    r.add(v.id)
                    work += [x for x, _ in v.inc] if v.op == "phi" else list(v.ops[1:])
            s._status[f.name] = r
        return r

    def struct_members(s, name):
        if name not in s.members:
            s.members[name] = {o: (sz, n, ct) for o, sz, n, ct in s.di.members(name)}
        return s.members[name]


class Engine:
    def __init__(s, prog, root, K=1, max_states=100000, opts=None):
        s.p = prog
        s.root = root
        s.K = K
        s.events = {}
        s._envs = []
        s.unclean = None
        s.max_states = max_states
        s.stats = {"states": 0, "calls": 0, "allocs": set(), "frees": set(), "fallible_sites": set(), "exits": 0,
                   "truncated": 0, "derefs": 0, "bounded": 0}
        s.opts = opts or {}
        s.destroy_types = s.opts.get("destroy_types", set())

    # ------------------------------------------------------------ reporting
    def ev(s, rule, inst, msg, chain, extra=None):
        e = Event(rule, inst, msg, s.root.name, [c for c in chain], extra)
        s.events.setdefault(e.key(), e)

    # ------------------------------------------------------------ entry
    def run(s):
        f = s.root
        H = Heap()
        args = []
        t = s.p.di.fn_types(f.name)
        pts = t[1] if t else []
        for a in f.args:
            if a.ty.kind == "ptr":
                oid = ("x", ("arg", a.idx))
                ty = None
                if a.idx in s.opts.get("nullargs", ()):
                    args.append(NULL)
                    continue
                if a.idx < len(pts) and pts[a.idx][0] == "ptr" and pts[a.idx][1][0] == "struct":
                    ty = pts[a.idx][1][1]
                sy = ("s", ("arg", a.idx))
                o = Obj("ext", "O", ty=ty)
                H.objs[oid] = o
                args.append(sy)
            else:
                args.append(("s", ("argi", a.idx)))
        try:
            outs = s.exec_fn(f, args, H, (), ())
        except Limits:
            s.stats["truncated"] += 1
            return s
        for ret, H in outs:
            s.stats["exits"] += 1
            s.at_exit(f, ret, H, pts)
        if not s.stats["truncated"] and not s.opts.get("nullargs"):
            s.unclean = s.summary(f, outs)
            if s.unclean and f.name in s.p.fallible and not s.events:
                s.constructor(f, outs, pts)
        return s

    def null_ok(s, cal, nulls):
        """does the clean function cal tolerate null pointers at these parameters on every path?"""
        k = (cal.name, nulls)
        if k not in s.p.nullok:
            s.p.nullok[k] = False
            e = Engine(s.p, cal, s.K, s.max_states, dict(s.opts, nullargs=nulls)).run()
            s.p.nullok[k] = not e.stats["truncated"] and not any(x.rule == "null-deref" for x in e.events.values())
        return s.p.nullok[k]

    def summary(s, f, outs):
        """f is 'clean' when no path through it keeps memory allocated, releases or re-points anything of the
        caller's; calls of a clean function then only need their result code and integer effects modelled."""
        t = s.p.di.fn_types(f.name)
        if t and t[0][0] == "ptr":
            return
        for ret, H in outs:
            if H.fds:
                return "descriptor open"
            for oid, o in H.objs.items():
                if o.kind == "heap" and o.alive:
                    if o.dflt == "esc":
                        return "memory kept in an unknown place"
                    continue        # reported as a leak of f itself if unreachable; reachable needs a pointer store, below
                if o.kind in ("ext", "glob"):
                    if not o.alive or isinstance(o.wipe, tuple):
                        return "releases %r" % (oid,)
                    for off, v in o.cells.items():
                        v = H.res(v)
                        if v[0] in ("0", "u", "f", "n", "vf"):
                            if H.sub.get(("s", ("c", oid, off))) == v:
                                continue            # only learnt by a test
                            return "sets %r+%r to %r" % (oid, off, v)
                        if v[0] == "p" and v[1] != ("x", ("c", oid, off)):
                            return "sets %r+%r to %r" % (oid, off, v)
                        if v[0] == "s" and v[1][0] == "c" and v[1] != ("c", oid, off):
                            return "sets %r+%r to %r" % (oid, off, v)
                        if v[0] == "s" and v[1][0] in ("r", "l", "j") and s._ptr_field(o, off):
                            return "sets %r+%r to %r" % (oid, off, v)
        s.p.clean[f.name] = True

    def constructor(s, f, outs, pts):
        """f stores a newly allocated object through one of its parameters exactly when it reports success and
        otherwise changes nothing of the caller's"""
        where = ty = None
        for ret, H in outs:
            ret = H.res(ret)
            ok = ret == I(0)
            found = False
            for oid, o in H.objs.items():
                if o.kind not in ("ext", "glob") or (o.kind == "ext" and xroot(oid[1]) != "arg"):
                    continue
                if not o.alive or isinstance(o.wipe, tuple):
                    return
                for off, v in o.cells.items():
                    v = H.res(v)
                    if H.sub.get(("s", ("c", oid, off))) == v or v == ("s", ("c", oid, off)) or (
                            v[0] == "p" and v[1] == ("x", ("c", oid, off))) or v == TOP:
                        continue
                    if v[0] in ("i", "s") and not s._ptr_field(o, off) and not (v[0] == "s" and v[1][0] == "c"):
                        continue
                    if not (ok and oid[1][0] == "arg" and off == 0 and v[0] == "p" and v[2] == 0 and v[1] in H.objs and
                            H.objs[v[1]].kind == "heap" and H.objs[v[1]].alive) or (where is not None and where != oid[1][1]):
                        s.unclean += " [%r+%r %r %r]" % (oid, off, v, ret)
                        return
                    where = oid[1][1]
                    ty = H.objs[v[1]].ty or ty
                    found = True
            if H.fds or (ok and not found):
                return
        if where is not None:
            s.p.ctor[f.name] = (where, ty)

    def at_exit(s, f, ret, H, pts):
        ret = H.res(ret)
        fall = f.name in s.p.fallible
        isptr = s.p.di.fn_types(f.name) and s.p.di.fn_types(f.name)[0][0] == "ptr"
        failed = None
        if fall:
            if ret == I(0):
                failed = False
            elif ret[0] == "i" and ret[1] != 0:
                failed = True
            elif ret[0] == "s" and H.info.get(ret, ("",))[0] == "err":
                failed = True
        elif isptr:
            failed = ret == NULL
        tr = "; ".join(H.trail)
        rinst = s._exit_inst
        # ownership at exit
        reach = set()
        work = []

        def add(v):
            v = H.res(v)
            if v[0] == "p" and v[1] not in reach:
                reach.add(v[1])
                work.append(v[1])
        add(ret)
        for oid, o in H.objs.items():
            if o.kind in ("ext", "glob"):
                if oid not in reach:
                    reach.add(oid)
                    work.append(oid)
        while work:
            o = H.objs.get(work.pop())
            if o is not None and (o.alive or o.kind == "ext"):
                for v in o.cells.values():
                    add(v)
        for oid, o in H.objs.items():
            if o.kind == "heap" and o.alive and oid not in reach and o.dflt != "esc":
                s.ev("leak", o.site, "memory allocated here is not released when %s returns %s" %
                     (f.name, "an error" if failed else "") + (" [path: %s]" % tr if tr else ""), (), extra=rinst)
        for fd in H.fds:
            s.ev("fd-leak", fd[1], "descriptor opened here is not closed when %s returns" % f.name, ())
        # out parameters
        for a in f.args:
            if a.idx >= len(pts):
                continue
            ct = pts[a.idx]
            if not (ct[0] == "ptr" and ct[1][0] == "ptr" and ct[1][1][0] == "struct" and not ct[1][2]):
                continue
            v = H.objs.get(("x", ("arg", a.idx)))
            val = v.cells.get(0) if v is not None else None
            if val is not None:
                val = H.res(val)
            if val is not None and val == ("s", ("c", ("x", ("arg", a.idx)), 0)):
                val = None      # untouched
            if failed and val is not None and val != NULL:
                dead = val[0] == "p" and val[1] in H.objs and not H.objs[val[1]].alive
                s.ev("out-on-failure", rinst, "%s returns an error but has stored a %spointer through '%s'%s" %
                     (f.name, "dangling " if dead else "", a.name, " [path: %s]" % tr if tr else ""), ())
            if failed is False and f.name in s.opts.get("constructors", ()):
                if val is None or val == NULL or val == UNINIT:
                    s.ev("no-out-on-success", rinst, "%s reports success without storing an object through '%s'%s" %
                         (f.name, a.name, " [path: %s]" % tr if tr else ""), ())
                elif val[0] == "p" and val[1] in H.objs and not H.objs[val[1]].alive:
                    s.ev("no-out-on-success", rinst, "%s reports success with a released object in '%s'%s" %
                         (f.name, a.name, " [path: %s]" % tr if tr else ""), ())
        # swallowed errors
        if failed is False and (fall or isptr):
            s.swallow(f.name, H.pend, H)
        # type invariants: size of freshly returned objects in terms of their fields
        if ret[0] == "p" and ret[1] in H.objs and H.objs[ret[1]].kind == "heap":
            s.learn_inv(H, ret[1])
        for a in f.args:
            v = H.objs.get(("x", ("arg", a.idx)))
            if v is not None and 0 in v.cells and a.idx < len(pts) and pts[a.idx][0] == "ptr" and pts[a.idx][1][0] == "ptr":
                x = H.res(v.cells[0])
                if x[0] == "p" and x[1] in H.objs and H.objs[x[1]].kind == "heap":
                    if H.objs[x[1]].ty is None and pts[a.idx][1][1][0] == "struct":
                        H.w(x[1]).ty = pts[a.idx][1][1][1]
                    s.learn_inv(H, x[1])

    @staticmethod
    def errkind(errs):
        """what an error code says went wrong: the data given ('data') or the sizes the caller chose ('arg')"""
        return "data" if set(errs) & {-3, -5, -6} else "arg"

    @staticmethod
    def told_apart(ins):
        """the program compares this call's result with one particular error code"""
        todo, seen = [ins], set()
        while todo:
            v = todo.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            for u in v.uses:
                if u.op == "phi":
                    todo.append(u)
                elif u.op == "icmp" and any(isinstance(o, CInt) and o.v != 0 for o in u.ops):
                    if u.pred in ("eq", "ne"):
                        return True
                elif u.op == "switch":
                    return True
        return False

    def swallow(s, fn, pend, H):
        for p in pend:
            if p[2] == "data" and s.told_apart(p[1]):
                continue
            tr = "; ".join(H.trail)
            s.ev("swallowed-error", p[1], "%s fails here but %s reports success%s" % (
                p[0], fn, " [path: %s]" % tr if tr else ""), (), extra=(p[0], p[2], fn))

    def learn_inv(s, H, oid):
        o = H.objs[oid]
        if o.ty is None or o.size is None:
            return
        l = lin(H.res(o.size))
        if l is None:
            return
        terms = []
        for sy, c in l[1].items():
            off = [k for k, v in o.cells.items() if H.res(v) == sy]
            if not off:
                return
            terms.append((off[0], c))
        s.p.inv.setdefault(o.ty, set()).add((l[0], tuple(sorted(terms))))

    # ------------------------------------------------------------ functions
    def exec_fn(s, f, args, H, ctx, chain):
        """all (return value, heap) outcomes of running f from H.  States meeting at a join point are merged
        when their ownership state (pointers, allocation status, wipes, pending failures, status codes) agrees;
        plain integers are then generalised."""
        p = s.p
        live = p.live(f)
        rpo = p.rpo(f)
        status = p.status(f)
        s.stats["calls"] += 1
        outs = {}
        table = {}
        pq = []
        seq = 0
        env0 = {("a", a.idx): v for a, v in zip(f.args, args)}

        def push(item, b):
            nonlocal seq
            seq += 1
            heapq.heappush(pq, (rpo[b.idx], seq, item))

        def enter(b, env, H, pred):
            k = 0
            new = {}
            while b.insts[k].op == "phi":
                ph = b.insts[k]
                for v, pb in ph.inc:
                    if pb is pred:
                        new[ph.id] = s.val(v, env, H, f, ctx)
                        break
                k += 1
            lv = live[b.idx]
            e2 = {kk: v for kk, v in env.items() if (isinstance(kk, tuple)) or kk in lv}
            e2.update(new)
            if len(b.preds) < 2:
                push((b, k, e2, H, None), b)
                return
            s.gc(H, e2)
            key = s.pkey(e2, H, status)
            tb = table.setdefault(b.idx, {})
            ent = tb.get(key)
            if ent is None:
                if len(tb) > 1500:
                    s.stats["truncated"] += 1
                    return
                tb[key] = [e2, H, True]
                push((b, k, None, key, None), b)
                return
            j = s.join(ent[0], ent[1], e2, H, (f.name, b.idx, ctx))
            if j is None:
                return
            ent[0], ent[1] = j
            if not ent[2]:
                ent[2] = True
                push((b, k, None, key, None), b)

        push((f.blocks[0], 0, env0, H, None), f.blocks[0])
        while pq:
            _, _, (b, i, env, H, _x) = heapq.heappop(pq)
            if env is None:
                ent = table[b.idx][H]
                ent[2] = False
                env, H = ent[0], ent[1].copy()
            s.stats["states"] += 1
            if s.stats["states"] > s.max_states:
                raise Limits()
            while True:
                ins = b.insts[i]
                op = ins.op
                if op == "br":
                    if len(ins.succs) == 1:
                        enter(ins.succs[0], env, H, b)
                    else:
                        c = s.val(ins.ops[0], env, H, f, ctx)
                        for taken, h2 in s.branch(c, H):
                            enter(ins.succs[0 if taken else 1], env, h2, b)
                    break
                if op == "switch":
                    c = H.res(s.val(ins.ops[0], env, H, f, ctx))
                    if c[0] == "i":
                        t = ins.succs[0]
                        for cv, sb in ins.cases:
                            if cv.v == c[1]:
                                t = sb
                        enter(t, env, H, b)
                    else:
                        for cv, sb in ins.cases:
                            h2 = H.copy()
                            if c[0] == "s":
                                h2.sub[c] = I(cv.v)
                            enter(sb, env, h2, b)
                        enter(ins.succs[0], env, H.copy(), b)
                    break
                if op == "ret":
                    rv = s.val(ins.ops[0], env, H, f, ctx) if ins.ops else TOP
                    H = H.copy()
                    rv = H.res(rv)
                    if not chain:
                        s._exit_inst = ins
                    s.leave(f, H, ctx, ins, chain)
                    s.gc(H, {0: rv})
                    k = s.pkey({0: rv}, H, (0,) if f.name in p.fallible else ())
                    if k in outs:
                        j = s.join({0: outs[k][0]}, outs[k][1], {0: rv}, H, (f.name, "ret", ctx))
                        if j is not None:
                            outs[k] = (j[0][0], j[1])
                    else:
                        outs[k] = (rv, H)
                    break
                if op == "unreachable":
                    break
                if op == "call":
                    lo = p.liveout(f, ins)
                    s._envs.append({kk: v for kk, v in env.items() if isinstance(kk, tuple) or kk in lo})
                    rs = s.call(ins, env, H, f, ctx, chain)
                    s._envs.pop()
                    if rs is None or len(rs) == 0:
                        break
                    for v, h2 in rs[1:]:
                        e2 = dict(env)
                        e2[ins.id] = v
                        push((b, i + 1, e2, h2, None), b)
                    v, H = rs[0]
                    env = dict(env)
                    env[ins.id] = v
                    i += 1
                    continue
                if op == "select":
                    c = s.val(ins.ops[0], env, H, f, ctx)
                    alts = s.branch(c, H)
                    if len(alts) > 1 and ins.ty.kind != "ptr" and ins.id not in status:
                        x, y = [s.val(ins.ops[k], env, H, f, ctx) for k in (1, 2)]
                        env = dict(env)
                        env[ins.id] = x if x == y else s.fresh(("l", f.name, ins.id, ctx), H)
                        i += 1
                        continue
                    for taken, h2 in alts[1:]:
                        e2 = dict(env)
                        e2[ins.id] = s.val(ins.ops[1 if taken else 2], e2, h2, f, ctx)
                        push((b, i + 1, e2, h2, None), b)
                    taken, H = alts[0]
                    env = dict(env)
                    env[ins.id] = s.val(ins.ops[1 if taken else 2], env, H, f, ctx)
                    i += 1
                    continue
                if op in ("load", "store"):
                    a = H.res(s.val(ins.ops[-1], env, H, f, ctx))
                    st = s.deref(a, ins, H, chain)
                    if st is None:
                        break
                    H, a = st
                    if op == "load":
                        env = dict(env)
                        env[ins.id] = s.load(a, ins, H, ctx)
                        H = s._H
                    else:
                        v = s.val(ins.ops[0], env, H, f, ctx)
                        H = s.store(a, v, ins.ops[0], ins, H)
                    i += 1
                    continue
                v = s.simple(ins, env, H, f, ctx)
                if v is not None:
                    env = dict(env)
                    env[ins.id] = v
                i += 1
        return list(outs.values())

    # ---- property-directed merging
    PTRISH = ("p", "0", "u", "f", "n", "vf")

    def proj(s, v, H, status=False):
        """part of a value that distinguishes ownership states"""
        v = H.res(v)
        if v[0] in s.PTRISH:
            if v[0] == "p":
                return ("p", v[1], 0)
            if v[0] == "n":
                return ("n", 0)
            return v
        if v[0] == "s":
            inf = H.info.get(v)
            if inf is not None and inf[0] == "err":
                return ("err", inf[1])
            if s.ptrsym(v):
                # an unknown pointer is the same as "some external object" for merging purposes
                return ("p", ("x", v[1]), 0)
            return "S"
        if status and v[0] == "i":
            return v
        return "S"

    @staticmethod
    def joff(a, b):
        if a == b:
            return a
        lo = lambda x: x if isinstance(x, int) else (x[1] if isinstance(x, tuple) else 0)
        if isinstance(a, tuple) and lo(b) >= a[1]:
            return a
        if isinstance(a, tuple):
            return ("v", -(1 << 30))
        return ("v", min(lo(a), lo(b)))

    def ptrsym(s, v):
        k = v[1]
        return k[0] in ("arg", "c")

    def pkey(s, env, H, status=()):
        ek = []
        for k, v in env.items():
            pv = s.proj(v, H, k in status)
            if pv != "S":
                ek.append((k, pv))
        ok = []
        eref = {pv[1] for _, pv in ek if pv[0] == "p"}
        for oid, o in H.objs.items():
            if not o.alive and oid not in eref and not o.secret and (o.kind == "heap" or (
                    o.kind == "ext" and xdepth(oid[1]) > 0)):
                continue        # what became of it shows in the cells that still point to it
            c = []
            for off, v in o.cells.items():
                pv = s.proj(v, H)
                if pv == "S":
                    if off in s.p.enum_fields(o.ty):
                        r = H.res(v)
                        if r[0] == "i":
                            c.append((off, r))
                    continue
                if pv[0] == "p" and pv[1] in H.objs and H.objs[pv[1]].alive and pv[1][0] == "h" and s.p.selfref(H.objs[pv[1]].ty) and (
                        isinstance(off, tuple) or s.p.selfref(o.ty) or o.kind == "heap" and s.listref(H, oid, off, pv[1])):
                    continue        # list links: the list as a whole is owned by what points to its first element
                if pv == NULL or s.dead(pv, H):
                    # "never there" and "already released" behave alike: any further use of either is reported
                    if o.dflt != "Z" and not (pv != NULL and s.p.selfref(H.objs[pv[1]].ty)):
                        c.append((off, "D"))
                    continue
                if pv[0] == "p" and (pv[1] == oid or (pv[1][0] == "x" and (
                        pv[1] not in H.objs or H.objs[pv[1]].alive)) or (
                        pv[1] in H.objs and H.objs[pv[1]].alive and s.interior(H.res(v)))) or isinstance(off, tuple):
                    continue        # pointers into itself or to live outside memory carry no ownership
                if o.dflt == "U" and pv == UNINIT:
                    continue
                c.append((off, pv))
            w = o.wipe
            if o.kind in ("ext", "glob") and not isinstance(w, tuple):
                w = None
                if not c and o.alive and o.dflt == "O" and not o.secret:
                    continue
            ok.append((oid, o.alive, o.dflt, w, o.secret, o.zr, frozenset(c)))
        return (frozenset(ek), frozenset(ok), H.faults, H.pend, H.fds)

    def listref(s, H, oid, off, t):
        """is t also reachable through another cell (so that this one is only a cursor into the list)?"""
        for q, o in H.objs.items():
            for k, v in o.cells.items():
                if (q, k) != (oid, off) and not isinstance(k, tuple):
                    v = H.res(v)
                    if v[0] == "p" and v[1] == t and (s.p.selfref(o.ty) or (q == oid and isinstance(k, int) and k < off)):
                        return True
        return False

    @staticmethod
    def dead(v, H):
        return v[0] == "p" and v[1] in H.objs and not H.objs[v[1]].alive

    @staticmethod
    def interior(v):
        o = v[2]
        return (isinstance(o, int) and o > 0) or (isinstance(o, tuple) and o[1] >= 0)

    def is_dflt(s, o, oid, off, v, h):
        """does v equal what an untouched cell of o holds?"""
        if o.dflt == "Z":
            return h.res(v) in (I(0), NULL)
        if o.dflt == "U":
            return h.res(v) == UNINIT
        if v in (("s", ("c", oid, off)), ("s", ("ci", oid, off))):
            return h.res(v)[0] not in ("0", "i")
        return s.proj(v, h) == ("p", ("x", ("c", oid, off)), 0)

    def gc(s, H, env):
        """forget released objects nothing refers to any more"""
        dead = [oid for oid, o in H.objs.items() if not o.alive and (o.kind == "heap" or (
            o.kind == "ext" and xdepth(oid[1]) > 1))]
        if not dead:
            return
        ref = set()
        for e in s._envs:
            for v in e.values():
                v = H.res(v)
                if v[0] == "p":
                    ref.add(v[1])
        for v in env.values():
            v = H.res(v)
            if v[0] == "p":
                ref.add(v[1])
        for o in H.objs.values():
            for v in o.cells.values():
                v = H.res(v)
                if v[0] == "p":
                    ref.add(v[1])
        for oid in dead:
            if oid not in ref:
                del H.objs[oid]

    def join(s, e1, h1, e2, h2, where):
        """generalise state 1 so that it covers state 2; None when it already does"""
        if h1 is h2 and e1 == e2:
            return None
        changed = False
        h = None

        def H():
            nonlocal h
            if h is None:
                h = h1.copy()
            return h
        # environment
        env = e1
        keep = set()
        for k in list(e1):
            v1 = h1.res(e1[k])
            v2 = e2.get(k)
            v2 = h2.res(v2) if v2 is not None else TOP
            if v1 == v2 or v1 == TOP:
                continue
            if v1[0] == "p" and v2[0] == "p" and v1[1] == v2[1]:
                nv = ("p", v1[1], s.joff(v1[2], v2[2]))
                if nv != v1:
                    if env is e1:
                        env = dict(e1)
                    env[k] = nv
                    changed = True
                continue
            if v1[0] == "n" and v2[0] == "n":
                continue
            if v1[0] == "s" and s.proj(v1, h1) == s.proj(v2, h2) and s.proj(v1, h1) != "S":
                keep.add(v1)        # v1 stands for both from here on
                continue
            if v1[0] == "p" and v2[0] == "s":
                nv = v2         # unknown covers "some external object"
            else:
                nv = ("s", ("j", where, k))
            if v1 == nv:
                continue
            if env is e1:
                env = dict(e1)
            env[k] = nv
            changed = True
        # refinements: keep what both agree on
        for nm in ("sub", "info"):
            d1, d2 = getattr(h1, nm), getattr(h2, nm)
            for k in list(d1):
                if (k in d2 and d2[k] == d1[k]) or (nm == "info" and k in keep):
                    continue
                if k not in d2 and nm == "info" and k in h2.sub:
                    continue
                del getattr(H(), nm)[k]
                changed = True
        # objects
        for oid in set(h1.objs) | set(h2.objs):
            o1, o2 = h1.objs.get(oid), h2.objs.get(oid)
            if o1 is o2:
                continue
            if o2 is not None and not o2.alive and (o1 is None or (o1.alive and o1.kind == "ext")):
                H().objs[oid] = o2
                changed = True
                continue
            if o1 is not None and not o1.alive:
                continue
            if o1 is None:
                o1 = Obj(o2.kind, o2.dflt, ty=o2.ty)
                if o2.kind not in ("ext", "glob"):
                    o1 = o2
                H().objs[oid] = o1
                if o1 is o2:
                    changed = True
                    continue
            if o2 is None:
                o2 = Obj(o1.kind, o1.dflt, ty=o1.ty)
            weak = []
            for off in set(o1.cells) | set(o2.cells):
                v1 = o1.cells.get(off)
                v2 = o2.cells.get(off)
                if not isinstance(off, tuple):
                    d1 = v1 is not None and s.dead(h1.res(v1), h1)
                    d2 = v2 is not None and s.dead(h2.res(v2), h2)
                    if d1 and (d2 or (v2 is None and o2.dflt == "Z") or (v2 is not None and h2.res(v2) == NULL)):
                        continue
                    if d2 and ((v1 is None and o1.dflt == "Z") or (v1 is not None and h1.res(v1) == NULL)):
                        H().w(oid).cells[off] = h2.res(v2)
                        changed = True
                        continue
                if isinstance(off, tuple):
                    if v1 is None:
                        weak.append(v2)
                    continue
                if v1 != v2:
                    for vv, hh in ((v1, h1), (v2, h2)):
                        vv = hh.res(vv) if vv is not None else TOP
                        if vv[0] == "p" and vv[1][0] == "h" and vv[1] != oid:
                            weak.append(vv)
                if v1 is None:
                    if not s.is_dflt(o1, oid, off, v2, h2):
                        H().w(oid).cells[off] = TOP
                        changed = True
                    continue
                if v1 == TOP:
                    continue
                if v2 is None:
                    if not s.is_dflt(o2, oid, off, v1, h1):
                        H().w(oid).cells[off] = TOP
                        changed = True
                    continue
                r1, r2 = h1.res(v1), h2.res(v2)
                if r1 == r2:
                    continue
                p1 = s.proj(v1, h1)
                if p1 != "S" and p1 == s.proj(v2, h2):
                    if r1[0] == "p" and r2[0] == "s":
                        H().w(oid).cells[off] = r2
                        changed = True
                    elif r1[0] == "p" and r2[0] == "p":
                        nv = ("p", r1[1], s.joff(r1[2], r2[2]))
                        if nv != r1:
                            H().w(oid).cells[off] = nv
                            changed = True
                    continue
                H().w(oid).cells[off] = TOP
                changed = True
            for vv in weak:
                # pointers generalised away still keep their targets reachable
                if ("any", vv[1]) not in (h or h1).objs[oid].cells:
                    H().w(oid).cells[("any", vv[1])] = vv
                    changed = True
            if o1.size is not None and o1.size != o2.size and o1.kind == "heap":
                s1, s2 = h1.res(o1.size), (h2.res(o2.size) if o2.size is not None else None)
                if s1 != s2:
                    H().w(oid).size = None
                    changed = True
            if o1.ty is None and o2.ty is not None:
                H().w(oid).ty = o2.ty
            if o1.wipe is None and o2.wipe == "dirty":
                H().w(oid).wipe = "dirty"
        if not changed and h is None:
            return None
        return (env, h if h is not None else h1) if changed else None

    def leave(s, f, H, ctx, ins, chain):
        """frame exit: secret stack buffers must be wiped, stack objects disappear"""
        for oid in [o for o in H.objs if o[0] == "a" and o[2] == (f.name, ctx)]:
            o = H.objs[oid]
            if o.secret and not s.full_wiped(H, o):
                s.ev("unwiped-stack", ins, "stack object '%s' holding %s is not erased before %s returns" % (
                    oid[3], o.secret, f.name), chain, extra=o.secret)
            elif o.secret and not s.strong(o):
                s.ev("weak-wipe", o.site, "erasing of stack object '%s' (%s) in %s is a dead store the optimiser may remove" % (
                    oid[3], o.secret, f.name), chain, extra="stack")
            del H.objs[oid]

    # ------------------------------------------------------------ values
    def val(s, v, env, H, f, ctx):
        if isinstance(v, Inst):
            x = env.get(v.id)
            if x is None:
                return TOP
            return H.res(x)
        if isinstance(v, Arg):
            return H.res(env.get(("a", v.idx), TOP))
        if isinstance(v, CInt):
            return I(v.v)
        if isinstance(v, CNull):
            return NULL
        if isinstance(v, CUndef):
            return UNINIT if v.ty.kind == "ptr" else TOP
        if isinstance(v, GRef):
            oid = ("g", v.g.name)
            if oid not in H.objs:
                H.objs[oid] = Obj("glob", "O")
            return ("p", oid, v.off)
        if isinstance(v, Function):
            return ("f", v.name)
        return TOP

    def simple(s, ins, env, H, f, ctx):
        op = ins.op
        V = lambda k: s.val(ins.ops[k], env, H, f, ctx)
        if op == "alloca":
            oid = ("a", ins.id, (f.name, ctx), ins.name)
            o = Obj("stack", "U", size=I(ins.aty.size), site=ins)
            if ins.aty.kind == "struct":
                o.ty = ins.aty.name
            H.objs[oid] = o
            H.own.add(oid)
            return ("p", oid, 0)
        if op == "gep":
            b = V(0)
            if b[0] == "p":
                off = b[2]
                if isinstance(off, int):
                    off += ins.gepconst
                    for ix, sc in ins.gepvar:
                        iv = s.val(ix, env, H, f, ctx)
                        if iv[0] == "i":
                            off += iv[1] * sc
                        else:
                            off = ("v", off) if not isinstance(off, tuple) else off
                            break
                o = H.objs.get(b[1])
                if b[2] == 0 and o is not None and o.ty is None and ins.srcty.kind == "struct" and ins.srcty.name:
                    H.w(b[1]).ty = ins.srcty.name
                return ("p", b[1], off) if not isinstance(off, tuple) else ("p", b[1], off)
            if b[0] == "s":
                if not ins.gepvar and ins.gepconst == 0:
                    return b
                # field of an unknown pointer: materialise the pointee as an external object
                p = s.materialise(b, H, ins)
                if p[0] == "p":
                    off = p[2]
                    if isinstance(off, int):
                        off += ins.gepconst
                        for ix, sc in ins.gepvar:
                            iv = s.val(ix, env, H, f, ctx)
                            if iv[0] == "i":
                                off += iv[1] * sc
                            else:
                                off = ("v", off)
                                break
                    return ("p", p[1], off)
            if b == NULL:
                if not ins.gepvar and ins.gepconst == 0:
                    return NULL
                return ("n", ins.gepconst)     # field of null: dereferencing it is a null dereference
            if b[0] == "n":
                return b
            if b == UNINIT:
                return UNINIT
            return TOP
        if op == "icmp":
            a, b = V(0), V(1)
            r = s.decide(ins.pred, a, b, H)
            if r is not None:
                return I(1 if r else 0)
            return ("c", ins.pred, a, b)
        if op in ("zext", "sext", "trunc", "freeze"):
            v = V(0)
            if op == "trunc" and v[0] == "i":
                n = v[1] & ((1 << ins.ty.bits) - 1)
                if n >> (ins.ty.bits - 1):
                    n -= 1 << ins.ty.bits
                return I(n)
            if op == "zext" and v[0] == "i" and v[1] < 0:
                w = ins.ops[0].ty.bits
                return I(v[1] & ((1 << w) - 1))
            if op == "zext" and v[0] == "c":
                return v
            if v[0] in ("i", "l", "s"):
                return v
            return TOP
        if op in ("add", "sub", "mul", "shl", "or", "and", "xor", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a, b = V(0), V(1)
            if op == "xor" and a[0] == "c" and b in (I(1), I(-1)):
                return ("c", NEG[a[1]], a[2], a[3])
            if op == "and" and (a == I(0) or b == I(0)):
                return I(0)
            la, lb = lin(a), lin(b)
            if la and lb:
                if op == "add":
                    t = dict(la[1])
                    for k, x in lb[1].items():
                        t[k] = t.get(k, 0) + x
                    return mklin(la[0] + lb[0], t)
                if op == "sub":
                    t = dict(la[1])
                    for k, x in lb[1].items():
                        t[k] = t.get(k, 0) - x
                    return mklin(la[0] - lb[0], t)
                if op == "mul" and (not la[1] or not lb[1]):
                    if not lb[1]:
                        la, lb = lb, la
                    return mklin(la[0] * lb[0], {k: x * la[0] for k, x in lb[1].items()})
                if op == "shl" and not lb[1] and 0 <= lb[0] < 64:
                    return mklin(la[0] << lb[0], {k: x << lb[0] for k, x in la[1].items()})
                if not la[1] and not lb[1]:
                    x, y = la[0], lb[0]
                    try:
                        if op == "and":
                            return I(x & y)
                        if op == "or":
                            return I(x | y)
                        if op == "xor":
                            return I(x ^ y)
                        if op == "sdiv" and y:
                            return I(int(x / y))
                        if op == "srem" and y:
                            return I(x - int(x / y) * y)
                        if op in ("udiv", "urem") and y > 0 and x >= 0:
                            return I(x // y if op == "udiv" else x % y)
                        if op in ("lshr", "ashr") and x >= 0 and 0 <= y < 64:
                            return I(x >> y)
                    except Exception:
                        pass
            return TOP
        if op in ("ptrtoint", "inttoptr", "bitcast"):
            v = V(0)
            if op == "bitcast":
                return v
            return TOP
        if op == "extractvalue" or op == "insertvalue":
            return TOP
        return TOP if ins.ty.kind != "void" else None

    def materialise(s, sy, H, ins):
        """turn an unchecked unknown pointer into 'points to some external object'"""
        if sy in H.sub:
            return H.res(sy)
        oid = ("x", sy[1])
        if oid not in H.objs:
            ty = s.sym_type(sy, H)
            if xdepth(sy[1]) > (1 if ty and s.p.selfref(ty) else 4):
                return TOP          # deep in a chain of outside objects: not tracked individually
            H.objs[oid] = Obj("ext", "O", ty=ty)
        H.sub[sy] = ("p", oid, 0)
        return H.sub[sy]

    def sym_type(s, sy, H):
        k = sy[1]
        if k[0] == "c":
            o = H.objs.get(k[1])
            if o is not None and o.ty and isinstance(k[2], int):
                mem = s.p.struct_members(o.ty).get(k[2])
                if mem and mem[2][0] == "ptr" and mem[2][1][0] == "struct":
                    return mem[2][1][1]
        return None

    # ------------------------------------------------------------ conditions
    def decide(s, pred, a, b, H):
        if a[0] in ("i",) and b[0] == "i":
            x, y = a[1], b[1]
            ux, uy = x & (2**64 - 1), y & (2**64 - 1)
            return {"eq": x == y, "ne": x != y, "sgt": x > y, "sge": x >= y, "slt": x < y, "sle": x <= y,
                    "ugt": ux > uy, "uge": ux >= uy, "ult": ux < uy, "ule": ux <= uy}[pred]
        if a[0] == "c" and b == I(0) and pred in ("eq", "ne"):
            return None
        null = {"0"}
        if pred in ("eq", "ne"):
            if a == NULL and b == NULL:
                return pred == "eq"
            nn = ("p", "f")
            if (a == NULL and b[0] in nn) or (b == NULL and a[0] in nn):
                return pred == "ne"
            if a[0] == "p" and b[0] == "p":
                if a[1] != b[1] and a[1][0] != "x" and b[1][0] != "x":
                    return pred == "ne"
                if a == b and isinstance(a[2], int):
                    return pred == "eq"
        # constrained symbols
        for x, y, pr in ((a, b, pred), (b, a, SWAP[pred])):
            if x[0] == "s" and y[0] == "i":
                inf = H.info.get(x)
                if inf is None:
                    continue
                if inf[0] == "err":
                    if y[1] == 0:
                        return {"eq": False, "ne": True, "slt": True, "sle": True, "sgt": False, "sge": False,
                                "ugt": True, "uge": True, "ult": False, "ule": False}[pr]
                    if y[1] not in inf[1]:
                        if pr == "eq":
                            return False
                        if pr == "ne":
                            return True
                    elif len(inf[1]) == 1 and pr in ("eq", "ne"):
                        return pr == "eq"
                if inf[0] == "ne" and y[1] in inf[1]:
                    if pr == "eq":
                        return False
                    if pr == "ne":
                        return True
                if inf[0] == "rng":
                    lo, hi = inf[1], inf[2]
                    n = y[1]
                    if pr == "eq" and not (lo <= n <= hi):
                        return False
                    if pr == "ne" and not (lo <= n <= hi):
                        return True
                    if pr == "slt":
                        if hi < n:
                            return True
                        if lo >= n:
                            return False
                    if pr == "sle":
                        if hi <= n:
                            return True
                        if lo > n:
                            return False
                    if pr == "sgt":
                        if lo > n:
                            return True
                        if hi <= n:
                            return False
                    if pr == "sge":
                        if lo >= n:
                            return True
                        if hi < n:
                            return False
        return None

    def branch(s, c, H):
        """[(taken, heap)]"""
        if c[0] == "i":
            return [(c[1] != 0, H)]
        if c[0] != "c":
            return [(True, H.copy()), (False, H.copy())]
        pred, a, b = c[1], H.res(c[2]), H.res(c[3])
        if a[0] == "c" and b[0] == "i" and pred in ("eq", "ne"):
            inner = s.branch(a, H)
            flip = (pred == "eq") == (b[1] == 0)
            return [(t ^ flip, h) for t, h in inner]
        r = s.decide(pred, a, b, H)
        if r is not None:
            return [(r, H)]
        out = []
        for taken in (True, False):
            h = H.copy()
            s.assume(pred if taken else NEG[pred], a, b, h)
            out.append((taken, h))
        return out

    def assume(s, pred, a, b, h):
        if b[0] == "s" and a[0] != "s":
            a, b, pred = b, a, SWAP[pred]
        if a[0] != "s":
            return
        if b == NULL:
            if pred == "eq":
                h.sub[a] = NULL
            elif pred == "ne":
                s.materialise(a, h, None)
            return
        if b[0] == "i":
            n = b[1]
            if pred == "eq":
                h.sub[a] = I(n)
                return
            inf = h.info.get(a)
            if pred == "ne" and inf and inf[0] == "err":
                rest = inf[1] - {n}
                if rest:
                    h.info[a] = ("err", frozenset(rest))
            return

    # ------------------------------------------------------------ memory
    def deref(s, a, ins, H, chain, what="access"):
        """check a dereference; returns (heap, pointer) or None when the path ends here"""
        s.stats["derefs"] += 1
        if a == NULL or a[0] == "n":
            tr = "; ".join(H.trail)
            s.ev("null-deref", ins, "null pointer dereference" + (" [path: %s]" % tr if tr else ""), chain)
            return None
        if a == UNINIT:
            s.ev("uninit-use", ins, "dereference of an uninitialised pointer" +
                 (" [path: %s]" % "; ".join(H.trail) if H.trail else ""), chain)
            return None
        if a[0] == "s":
            a = s.materialise(a, H, ins)
        if a[0] == "p":
            o = H.objs.get(a[1])
            if o is not None and not o.alive:
                s.ev("use-after-free", ins, "access to released memory" +
                     (" [path: %s]" % "; ".join(H.trail) if H.trail else ""), chain)
                return None
        return H, a

    def load(s, a, ins, H, ctx):
        s._H = H
        isp = ins.ty.kind == "ptr"
        if isp and a[0] == "p" and a[1] in H.objs:
            o = H.objs[a[1]]
            anyc = [k[1] for k in o.cells if isinstance(k, tuple)]
            if anyc and (not isinstance(a[2], int) or o.cells.get(a[2]) in (None, TOP) or s.p.in_array(o.ty, a[2])):
                # the loaded pointer may be one that was generalised away: its target is no longer tracked for leaks
                for t in anyc:
                    if t in H.objs and H.objs[t].alive and H.objs[t].kind == "heap":
                        H = H.copy()
                        H.w(t).dflt = "esc"
                s._H = H
        if a[0] != "p":
            return s.fresh(("l", ins.blk.fn.name, ins.id, ctx), H)
        o = H.objs.get(a[1])
        if o is None:
            return s.fresh(("l", ins.blk.fn.name, ins.id, ctx), H)
        off = a[2]
        if isinstance(off, int) and o.kind != "stack" and s.p.in_array(o.ty, off):
            off = ("v", off)
        if not isinstance(off, int):
            if isp and o.dflt == "U" and o.kind != "ext":
                # unknown slot of a local table: any stored value
                vals = set(o.cells.values())
                if len(vals) == 1:
                    return next(iter(vals))
            return s.fresh(("l", ins.blk.fn.name, ins.id, ctx), H)
        if ins.volatile and a[1][0] == "g":
            return ("vf", a[1][1])
        v = o.cells.get(off)
        if v is not None:
            if v == TOP:
                v = s.fresh(("c" if isp else "ci", a[1], off), H)
                H.w(a[1]).cells[off] = v
            return H.res(v)
        if a[1][0] == "g":
            g = s.p.m.globals.get(a[1][1])
            if g is not None and g.const and isinstance(g.init, int):
                return I(g.init) if not isp else (NULL if g.init == 0 else TOP)
            return s.fresh(("l", ins.blk.fn.name, ins.id, ctx), H)
        d = o.dflt
        for lo, hi in o.zr:
            if lo <= off < hi:
                d = "Z"
        if d == "Z":
            return NULL if isp else I(0)
        if d == "U":
            if isp:
                return UNINIT
            return s.fresh(("l", ins.blk.fn.name, ins.id, ctx), H)
        v = ("s", ("c" if isp else "ci", a[1], off))
        H2 = H
        H2.w(a[1]).cells[off] = v
        s._H = H2
        return H2.res(v)

    def fresh(s, key, H):
        v = ("s", key)
        # a re-created symbol: forget what was known about the previous one
        if v in H.sub or v in H.info:
            oldsub = H.sub.pop(v, None)
            H.info.pop(v, None)
            rep = oldsub if oldsub is not None else TOP
            for oid, o in list(H.objs.items()):
                for k, x in o.cells.items():
                    if x == v:
                        H.w(oid).cells[k] = rep
        return v

    def store(s, a, v, src, ins, H):
        H = H.copy() if False else H
        if a[0] != "p":
            v = H.res(v)
            if v[0] == "p" and v[1] in H.objs and H.objs[v[1]].kind == "heap":
                H = H.copy()
                H.w(v[1]).dflt = "esc"
            return H
        if a[1] not in H.objs:
            return H
        H = H.copy()
        o = H.w(a[1])
        v = H.res(v)
        zero = v in (I(0), NULL)
        if isinstance(a[2], int) and o.kind != "stack" and s.p.in_array(o.ty, a[2]):
            a = ("p", a[1], ("v", a[2]))
        if not (zero and s.full_wiped(H, o)):
            if isinstance(o.wipe, tuple) and zero:
                pass
            else:
                o.wipe = "dirty"
        if isinstance(a[2], int):
            o.cells[a[2]] = v if v[0] != "c" else TOP
        else:
            base = a[2][1] if isinstance(a[2], tuple) else 0
            for k in [k for k in o.cells if isinstance(k, int) and k >= base and not (
                    s.p.in_array(o.ty, base) and not s.p.in_array(o.ty, k))]:
                del o.cells[k]
            if v[0] == "p" and v[1] != a[1] and v[1] in H.objs and H.objs[v[1]].kind == "heap":
                o.cells[("any", v[1])] = v
            if o.dflt in ("U", "Z") and v[0] in ("p", "s", "0"):
                o.dflt = "O"
        return H

    # ------------------------------------------------------------ wiping
    def expected_size(s, H, o):
        if o.size is not None:
            return H.res(o.size)
        if o.ty is None:
            return None
        inv = s.p.inv.get(o.ty)
        if not inv:
            n = s.p.di.struct_size(o.ty)
            return I(n) if n else None
        sym = [x for x in inv if x[1]] or list(inv)
        c, terms = sym[0]
        t = {}
        for off, k in terms:
            v = o.cells.get(off)
            if v is None:
                return None
            l = lin(H.res(v))
            if l is None:
                return None
            c += k * l[0]
            for kk, y in l[1].items():
                t[kk] = t.get(kk, 0) + k * y
        return mklin(c, t)

    def full_wiped(s, H, o):
        return isinstance(o.wipe, tuple) and o.wipe[0] == "full"

    def strong(s, o):
        return isinstance(o.wipe, tuple) and o.wipe[1]

    def other_size(s, ins, size, oid, o, exp):
        """the size erased is computed from fields of the object, but not from the one that tells its allocated size"""
        cap = {t[0] for _, ts in s.p.inv.get(o.ty, ()) for t in ts} if o.ty else set()
        if not cap:
            return False
        if size[0] in ("s", "l"):
            if exp is not None:
                return False
            ks = [k[1] for k in lin(size)[1]]
            return bool(ks) and all(k[0] == "ci" and k[1] == oid and k[2] not in cap for k in ks)
        if size[0] == "i":
            return False
        n, seen, offs = ins.args[-1] if ins.args else None, set(), set()
        for x in ins.args or ():
            if x.ty is not None and x.ty.kind == "int" and x.ty.bits == 64:
                n = x
        todo = [n]
        while todo:
            v = todo.pop()
            if v in seen or not isinstance(v, Inst):
                if isinstance(v, Arg):
                    return False
                continue
            seen.add(v)
            if v.op == "load":
                b, off = v.ops[0], 0
                while isinstance(b, Inst) and b.op == "gep" and not b.gepvar:
                    off += b.gepconst
                    b = b.ops[0]
                offs.add(off)
            elif v.op in ("add", "sub", "mul", "shl", "zext", "sext", "trunc", "or", "freeze", "lshr"):
                todo += list(v.ops)
            else:
                return False
        return bool(offs) and not offs & cap

    def do_wipe(s, H, p, size, strong, ins):
        """[p, p+size) overwritten with zeros"""
        if p[0] != "p" or p[1] not in H.objs:
            return H
        H = H.copy()
        o = H.w(p[1])
        size = H.res(size)
        exp = s.expected_size(H, o)
        off = p[2]
        kind = "part"
        if off == 0 and s.other_size(ins, size, p[1], o, exp):
            if not isinstance(o.wipe, tuple):
                o.wipe = "dirty"
            return H
        if off == 0:
            if exp is None or size[0] not in ("i", "l", "s"):
                kind = "full" if exp is None and size[0] != "i" else ("full" if exp is not None and exp == size else
                                                                    ("part" if size[0] == "i" and exp is not None else "full"))
            elif exp == size:
                kind = "full"
            elif exp[0] == "i" and size[0] == "i":
                kind = "full" if size[1] >= exp[1] else "part"
            else:
                l1, l2 = lin(exp), lin(size)
                if l1 is None or l2 is None:
                    l1 = l2 = (0, {})       # size not comparable: taken as the whole object
                d = {k: l1[1].get(k, 0) - l2[1].get(k, 0) for k in set(l1[1]) | set(l2[1])}
                d = {k: x for k, x in d.items() if x}
                if not d:
                    kind = "full" if l1[0] <= l2[0] else "part"
                else:
                    kind = "part"
        was = o.wipe
        if kind == "full":
            o.cells = {}
            o.zr = ()
            o.dflt = "Z" if o.kind != "ext" else "Z"
            o.wipe = ("full", strong, ())
            o.site = o.site if o.kind != "stack" else o.site
            return H
        if isinstance(off, int) and size[0] == "i":
            lo, hi = off, off + size[1]
            for k in [k for k in o.cells if isinstance(k, int) and lo <= k < hi]:
                del o.cells[k]
            o.zr = tuple(sorted(set(o.zr) | {(lo, hi)}))
            # several adjacent partial wipes may cover the object
            rng = (was[2] if isinstance(was, tuple) and was[0] == "part" else ()) + ((lo, hi),)
            pos = 0
            for a, b in sorted(rng):
                if a <= pos:
                    pos = max(pos, b)
            if exp is not None and exp[0] == "i" and pos >= exp[1]:
                o.wipe = ("full", strong and (not isinstance(was, tuple) or was[1]), ())
            else:
                o.wipe = ("part", strong and (not isinstance(was, tuple) or was[1]), rng)
        else:
            base = off if isinstance(off, int) else (off[1] if isinstance(off, tuple) else 0)
            for k in [k for k in o.cells if isinstance(k, int) and k >= base]:
                del o.cells[k]
            if o.dflt == "U":
                o.dflt = "O"
            if not isinstance(o.wipe, tuple):
                o.wipe = "dirty"
        return H

    # ------------------------------------------------------------ calls
    PURE_EXT = {"memcmp", "strlen", "strcmp", "sysconf", "time", "times", "clock_gettime", "printf", "puts", "fprintf",
                "abort", "clock"}

    def call(s, ins, env, H, f, ctx, chain):
        cal = ins.callee
        A = [s.val(x, env, H, f, ctx) for x in ins.args]
        if isinstance(cal, Asm):
            if "memory" in cal.text:
                # a compiler barrier: earlier wipes of memory visible to it can no longer be removed
                H = H.copy()
                for oid, o in list(H.objs.items()):
                    if isinstance(o.wipe, tuple) and not o.wipe[1] and (o.kind != "stack" or any(
                            a[0] == "p" and a[1] == oid for a in A)):
                        H.w(oid).wipe = (o.wipe[0], True) + o.wipe[2:]
            return [(TOP, H)]
        if not isinstance(cal, Function):
            # indirect call
            v = s.val(cal, env, H, f, ctx)
            if v[0] == "vf" and v[1] in s.p.volmemset and len(A) >= 2:
                # memset reached through a volatile function pointer: a wipe that survives optimisation
                size = A[2] if len(A) >= 3 else A[1]
                st = s.deref(H.res(A[0]), ins, H, chain)
                if st is None:
                    return None
                H, p = st
                if len(A) >= 3 and A[1] != I(0):
                    return [(TOP, s.fill(H, p, size))]
                return [(A[0], s.do_wipe(H, p, size, True, ins))]
            H = H.copy()
            for a in A:
                s.havoc(H, H.res(a))
            return [(s.fresh(("r", f.name, ins.id, ctx), H), H)]
        n = cal.name
        if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime") or n.startswith("llvm.assume"):
            return [(TOP, H)]
        if n.startswith("llvm.memset") or n in ("memset", "explicit_bzero", "bzero", "memset_explicit", "memset_s"):
            st = s.deref(H.res(A[0]), ins, H, chain)
            if st is None:
                return None
            H, p = st
            if n in ("explicit_bzero", "bzero"):
                return [(TOP, s.do_wipe(H, p, A[1], n == "explicit_bzero", ins))]
            strong = n in ("memset_explicit", "memset_s") or (n.startswith("llvm.memset") and A[3] == I(1))
            if A[1] == I(0):
                return [(A[0], s.do_wipe(H, p, A[2], strong, ins))]
            return [(A[0], s.fill(H, p, A[2]))]
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove"):
            return s.memcpy(ins, A, H, chain)
        if n.startswith("llvm."):
            return [(TOP, H)]
        if n in ("__assert_fail", "abort", "exit", "__assert"):
            return None
        if n in ("malloc", "calloc"):
            return s.malloc(ins, n, A, H, f, ctx)
        if n == "free":
            return s.free(ins, A[0], H, chain)
        if n == "open":
            s.stats["fallible_sites"].add((f.name, ins.id))
            out = []
            for fd in (3, 0):
                h = H.copy()
                h.fds = h.fds | {(fd, ins)}
                out.append((I(fd), h))
            if H.faults < s.K:
                h = H.copy()
                h.faults += 1
                h.pend = h.pend + (("open", ins, "env"),)
                h.trail = h.trail + ("open fails at %s" % ins.loc,)
                out.append((I(-1), h))
            return out
        if n == "close":
            h = H.copy()
            fd = H.res(A[0])
            hit = [x for x in h.fds if I(x[0]) == fd]
            if hit:
                h.fds = h.fds - {hit[0]}
            elif fd[0] == "i" and fd[1] >= 0:
                s.ev("double-free", ins, "descriptor closed twice or never opened", chain)
            return [(I(0), h)]
        if n == "read":
            st = s.deref(H.res(A[1]), ins, H, chain)
            if st is None:
                return None
            H, p = st
            H = H.copy()
            s.havoc(H, p)
            if p[0] == "p" and p[1] in H.objs:
                H.w(p[1]).secret = "entropy read from the operating system"
            r = s.fresh(("r", f.name, ins.id, ctx), H)
            out = []
            if A[2][0] == "i":
                h = H.copy()
                out.append((A[2], h))
            if H.faults < s.K:
                h = H.copy()
                h.faults += 1
                h.pend = h.pend + (("read", ins, "env"),)
                h.trail = h.trail + ("read fails at %s" % ins.loc,)
                h.info[r] = ("ne", frozenset([A[2][1]] if A[2][0] == "i" else []))
                out.append((r, h))
            return out
        if cal.decl:
            for a in A:
                a = H.res(a)
                if n in ("memcmp", "strlen", "strcmp", "clock_gettime") and (a == NULL or a[0] in ("p", "n") or a == UNINIT):
                    st = s.deref(a, ins, H, chain)
                    if st is None:
                        return None
            H = H.copy()
            for a in A:
                s.havoc(H, H.res(a))
            return [(s.fresh(("r", f.name, ins.id, ctx), H), H)]
        return s.call_defined(ins, cal, A, H, f, ctx, chain)

    def fill(s, H, p, size):
        if p[0] == "p" and p[1] in H.objs:
            H = H.copy()
            o = H.w(p[1])
            o.wipe = "dirty"
            base = p[2] if isinstance(p[2], int) else (p[2][1] if isinstance(p[2], tuple) else 0)
            for k in [k for k in o.cells if isinstance(k, int) and k >= base]:
                del o.cells[k]
            if o.dflt in ("U", "Z") and base == 0:
                o.dflt = "O"
        return H

    def memcpy(s, ins, A, H, chain):
        if A[2] == I(0):
            return [(A[0], H)]
        st = s.deref(H.res(A[0]), ins, H, chain)
        if st is None:
            return None
        H, d = st
        st = s.deref(H.res(A[1]), ins, H, chain)
        if st is None:
            return None
        H, sr = st
        H = H.copy()
        if d[0] == "p" and d[1] in H.objs:
            o = H.w(d[1])
            o.wipe = "dirty"
            src = H.objs.get(sr[1]) if sr[0] == "p" else None
            if src is not None and o.kind == "stack" and src.ty in s.destroy_types and sr[2] == 0 and not o.secret:
                o.secret = "a copy of the internal state of %s" % src.ty
            if src is not None and src.secret and not o.secret and o.kind == "stack":
                o.secret = src.secret
            base = d[2] if isinstance(d[2], int) else (d[2][1] if isinstance(d[2], tuple) else 0)
            n = A[2][1] if A[2][0] == "i" else None
            for k in [k for k in o.cells if isinstance(k, int) and k >= base and (n is None or k < base + n)]:
                del o.cells[k]
            if src is not None and isinstance(d[2], int) and isinstance(sr[2], int) and n is not None:
                for k, v in src.cells.items():
                    if isinstance(k, int) and sr[2] <= k < sr[2] + n:
                        o.cells[base + k - sr[2]] = v
                if base == 0 and (o.size == I(n) or o.dflt == "U"):
                    o.dflt = src.dflt if src.dflt in ("U", "Z") and not src.zr else "O"
                    o.zr = ()
            elif o.dflt in ("U", "Z"):
                if base == 0:
                    o.dflt = "O"
        return [(A[0], H)]

    def malloc(s, ins, n, A, H, f, ctx):
        s.stats["allocs"].add((f.name, ins.id))
        out = []
        cnt = 0
        oid = ("h", f.name, ins.id, ctx, 0)
        while oid in H.objs:
            cnt += 1
            oid = ("h", f.name, ins.id, ctx, cnt)
        if cnt > 0 and (cnt > 8 or any(s.p.selfref(H.objs[("h", f.name, ins.id, ctx, c)].ty) for c in range(cnt))):
            # lists are followed up to one element per allocation site, tables of objects up to nine
            s.stats["bounded"] += 1
            return None
        h = H.copy()
        o = Obj("heap", "U" if n == "malloc" else "Z", size=A[0] if n == "malloc" else None, site=ins)
        h.objs[oid] = o
        h.own.add(oid)
        out.append((("p", oid, 0), h))
        if H.faults < s.K:
            h = H.copy()
            h.faults += 1
            via = f.name
            h.pend = h.pend + (("allocation", ins, "env"),)
            site = ctx[-1] if ctx else None
            h.trail = h.trail + ("allocation fails at %s%s" % (ins.loc, " called from " + "<-".join(
                "%s:%s" % (c[0], c[2]) for c in reversed(ctx)) if ctx else ""),)
            out.append((NULL, h))
        return out

    def free(s, ins, v, H, chain):
        v = H.res(v)
        f = ins.blk.fn
        s.stats["frees"].add((f.name, ins.id))
        tr = " [path: %s]" % "; ".join(H.trail) if H.trail else ""
        if v == NULL:
            return [(TOP, H)]
        if v == UNINIT:
            s.ev("uninit-use", ins, "uninitialised pointer passed to free" + tr, chain)
            return None
        if v[0] == "s":
            v = s.materialise(v, H, ins)
        if v[0] == "n":
            s.ev("bad-free", ins, "free of a non-heap address" + tr, chain)
            return None
        if v[0] != "p":
            return [(TOP, H)]
        o = H.objs.get(v[1])
        if o is None:
            return [(TOP, H)]
        if o.kind in ("stack", "glob"):
            s.ev("bad-free", ins, "free of memory that was not allocated" + tr, chain)
            return None
        if not o.alive:
            s.ev("double-free", ins, "memory is released twice" + tr, chain)
            return None
        if isinstance(v[2], int) and v[2] != 0:
            s.ev("bad-free", ins, "free of an interior pointer" + tr, chain)
            return None
        H = H.copy()
        # erase-before-release discipline
        must = None
        if o.ty in s.destroy_types:
            if o.kind == "ext" or o.wipe is not None:
                must = o.ty
        elif s.opts.get("owned_secret") and o.kind == "ext" and s.opts["owned_secret"](o, v[1], H):
            must = o.ty or "owned memory"
        if must:
            never = o.kind == "heap" and o.wipe in (None,)
            if not never:
                if not s.full_wiped(H, o):
                    s.ev("unwiped-free", ins, "object of type %s is released without its whole memory having been erased%s" % (
                        must, tr), chain, extra=(must, s.root.name))
                elif not s.strong(o):
                    s.ev("weak-wipe", ins, "object of type %s is erased before release only by a dead store the optimiser removes" %
                         must, chain, extra=(must, s.root.name))
        if o.kind == "ext" and xroot(v[1][1]) not in ("arg", "c"):
            del H.objs[v[1]]            # stands for several objects (found by an unresolved load): not tracked further
            return [(TOP, H)]
        o = H.w(v[1])
        o.alive = False
        o.cells = {}
        return [(TOP, H)]

    def havoc(s, H, v, depth=0, seen=None, fn=None):
        """callee may write integers reachable from v"""
        if v[0] == "s" and v not in H.sub:
            return
        v = H.res(v)
        if v[0] != "p" or v[1] not in H.objs:
            return
        seen = seen if seen is not None else set()
        if v[1] in seen:
            return
        seen.add(v[1])
        o = H.w(v[1])
        if o.kind == "glob":
            return
        o.wipe = "dirty"
        nxt = []
        for k, x in list(o.cells.items()):
            x = H.res(x)
            if x[0] == "p":
                nxt.append(x)
            elif x in (NULL, UNINIT):
                continue
            elif x[0] == "s" and x in H.info and H.info[x][0] == "ptr":
                continue
            else:
                if lin(o.size or TOP) and lin(x) and o.size is not None and lin(o.size)[1].keys() & lin(x)[1].keys():
                    continue     # the field that records the capacity of this block
                if x[0] == "s" and x[1][0] == "c" and x[1][1] == v[1] and s._ptr_field(o, k):
                    continue
                if x[0] == "s" and s._cap_field(o, k):
                    continue
                if k in s.p.enum_fields(o.ty) and (fn is None or (o.ty, k) not in s.p.modset(fn)):
                    continue
                del o.cells[k]
                if o.dflt in ("U", "Z"):
                    o.cells[k] = TOP
        if o.dflt == "Z" and o.kind == "stack":
            pass
        if depth < 3:
            for x in nxt:
                s.havoc(H, x, depth + 1, seen, fn)

    def _ptr_field(s, o, off):
        if o.ty:
            m = s.p.struct_members(o.ty).get(off)
            return bool(m and m[2][0] == "ptr")
        return False

    def _cap_field(s, o, off):
        if o.ty and o.ty in s.p.inv:
            return any(off == t[0] for c, ts in s.p.inv[o.ty] for t in ts)
        return False

    def call_defined(s, ins, cal, A, H, f, ctx, chain):
        p = s.p
        n = cal.name
        fallible = n in p.fallible
        if fallible:
            s.stats["fallible_sites"].add((f.name, ins.id))
        if n in p.wipers:
            pi, ni = p.wipers[n]
            if pi < len(A):
                a = H.res(A[pi])
                if a == NULL and H.res(A[ni]) == I(0):
                    return [(TOP, H)]
                st = s.deref(a, ins, H, chain)
                if st is None:
                    return None
                H, q = st
                return [(TOP, s.do_wipe(H, q, A[ni], True, ins))]
        bad = any(H.res(a) in (NULL, UNINIT) or H.res(a)[0] == "n" or (
            H.res(a)[0] == "p" and H.res(a)[1] in H.objs and not H.objs[H.res(a)[1]].alive) for a in A)
        if bad and n in p.clean and not any(c[0] is cal for c in chain):
            nulls = frozenset(i for i, a in enumerate(A) if H.res(a) == NULL)
            if all(i in nulls or not (H.res(a) == UNINIT or H.res(a)[0] == "n" or (
                    H.res(a)[0] == "p" and H.res(a)[1] in H.objs and not H.objs[H.res(a)[1]].alive))
                    for i, a in enumerate(A)) and s.null_ok(cal, nulls):
                bad = False
        thru = None
        if n in p.ctor and not bad:
            q = H.res(A[p.ctor[n][0]])
            if q[0] == "s" and q[1][0] == "arg":
                q = s.materialise(q, H, ins)
            if q[0] == "p" and q[1][0] == "x" and q[1][1][0] == "arg" and q[2] == 0 and q[1] in H.objs:
                thru = q[1]
        size = sum(len(b.insts) for b in cal.blocks)
        inline = thru is None and (n in p.inter or bad or (size <= 40 and len(cal.blocks) <= 6)) and not (n in p.clean and not bad)
        if len(chain) > 14 or any(c[0] is cal for c in chain):
            inline = False
        before = H.pend
        if inline:
            c2 = ctx + ((f.name, ins.id, ins.line),)
            outs = s.exec_fn(cal, A, H.copy(), c2, chain + ((cal, ins),))
            res = {}
            t = p.di.fn_types(n)
            ptrret = bool(t) and t[0][0] == "ptr"
            for rv, h in outs:
                rv = h.res(rv)
                new = h.pend[len(before):]
                failed = None
                if fallible:
                    failed = rv != I(0) and (rv[0] == "i" or (rv[0] == "s" and h.info.get(rv, ("",))[0] == "err"))
                elif ptrret:
                    failed = rv == NULL
                if failed is None:
                    pass
                elif failed and (new or fallible):
                    kinds = {x[2] for x in new} or {s.errkind({rv[1]} if rv[0] == "i" else h.info[rv][1])}
                    if not new and H.faults >= s.K:
                        continue            # one more independent failure than this run follows
                    if h is H:
                        h = h.copy()
                    if not new:
                        h.faults += 1
                        h.trail = h.trail + ("%s fails at %s" % (n, ins.loc),)
                    h.pend = before + ((n, ins, min(kinds, key=("env", "data", "arg").index)),)
                elif not failed and new:
                    s.swallow(n, new, h)
                    h.pend = before
                k = s.pkey({0: rv}, h, (0,) if fallible else ())
                if k not in res:
                    res[k] = (rv, h)
                else:
                    j = s.join({0: res[k][0]}, res[k][1], {0: rv}, h, (f.name, ins.id, ctx))
                    if j is not None:
                        res[k] = (j[0][0], j[1])
            return list(res.values())
        H = H.copy()
        for a in A:
            s.havoc(H, H.res(a), fn=n)
        t = p.di.fn_types(n)
        if fallible:
            ok = H
            sec = p.secret_args(n)
            if thru is not None or sec:
                ok = H.copy()
            for k in sec:
                q = H.res(A[k]) if k < len(A) else None
                if q is not None and q[0] == "p" and q[1] in ok.objs and ok.objs[q[1]].kind == "stack":
                    ok.w(q[1]).secret = "entropy read from the operating system"
            if thru is not None:
                hid = ("h", n, ins.id, ctx, 0)
                ok.objs[hid] = Obj("heap", "O", ty=p.ctor[n][1], site=ins)
                ok.w(thru).cells[0] = ("p", hid, 0)
            out = [(I(0), ok)]
            errs = frozenset(p.retset(n) & ERRS)
            if H.faults < s.K and (ins.uses or n in p.envfail or s.errkind(errs) == "data"):
                h = H.copy()
                r = s.fresh(("r", f.name, ins.id, ctx), h)
                h.info[r] = ("err", errs)
                h.faults += 1
                h.pend = h.pend + ((n, ins, "env" if n in p.envfail else s.errkind(errs)),)
                h.trail = h.trail + ("%s fails at %s" % (n, ins.loc),)
                out.append((r, h))
            return out
        return [(s.fresh(("r", f.name, ins.id, ctx), H), H)]


NEG = {"eq": "ne", "ne": "eq", "sgt": "sle", "sle": "sgt", "slt": "sge", "sge": "slt", "ugt": "ule", "ule": "ugt",
       "ult": "uge", "uge": "ult"}
SWAP = {"eq": "eq", "ne": "ne", "sgt": "slt", "slt": "sgt", "sge": "sle", "sle": "sge", "ugt": "ult", "ult": "ugt",
        "uge": "ule", "ule": "uge"}


def xdepth(k):
    """how many outside pointers were followed to name this object"""
    n = 0
    while k[0] == "c" and k[1][0] == "x":
        k = k[1][1]
        n += 1
    return n


def xroot(k):
    while k[0] == "c" and k[1][0] == "x":
        k = k[1][1]
    return k[0]


def bottom_up(prog):
    """functions, callees first"""
    order, seen = [], set()

    def go(n):
        st = [(n, iter(sorted(prog.callees[n] & set(prog.funcs))))]
        seen.add(n)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(sorted(prog.callees[y] & set(prog.funcs)))))
                    break
            else:
                order.append(x)
                st.pop()
    for n in sorted(prog.funcs):
        if n not in seen:
            go(n)
    return order

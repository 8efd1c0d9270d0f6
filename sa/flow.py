"""Interprocedural may-point-to by root object: which arguments, globals or fresh
allocations a pointer can lead into, and through which of them each function
writes.  Field-insensitive per root, flow-insensitive, so it over-approximates
writes; loads through a root stay in that root plus whatever was stored there."""
from . import asmx
from .llvmc import Arg, Asm, CInt, CNull, CUndef, Function, GRef, Inst

FRESH = {"malloc", "calloc"}
# external functions: (indices of pointer arguments written, index of the argument returned or None)
EXT = {"memcpy": ((0,), 0), "memmove": ((0,), 0), "memset": ((0,), 0), "memcmp": ((), None), "strlen": ((), None),
       "free": ((), None), "open": ((), None), "close": ((), None), "read": ((1,), None), "__assert_fail": ((), None),
       "explicit_bzero": ((0,), None), "bzero": ((0,), None), "clock_gettime": ((1,), None),
       "clock": ((), None), "time": ((0,), None), "getpid": ((), None), "abort": ((), None), "getrandom": ((0,), None),
       "getentropy": ((0,), None), "gettimeofday": ((0,), None), "llabs": ((), None), "abs": ((), None),
       "__cpuid": ((), None), "strcmp": ((), None), "memchr": ((), 0)}
# C library functions with hidden process-wide state
STATEFUL = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "strtok", "localtime", "gmtime", "asctime", "ctime",
            "setlocale", "strerror", "tmpnam", "setenv", "putenv", "getenv", "signal", "mrand48", "srand48", "chdir",
            "umask", "exit", "atexit"}


class Flow:
    def __init__(s, mod, di):
        s.m, s.di = mod, di
        s.funcs = {n: f for n, f in mod.funcs.items() if not f.decl}
        s.ret = {n: frozenset() for n in s.funcs}
        s.writes = {n: {} for n in s.funcs}       # root -> witness instruction
        s.capt = {n: frozenset() for n in s.funcs}  # (from root, into root)
        s.taken = [f for f in s.funcs.values() if f.name in s._taken()]
        s.unknown = {}
        s.pt = {}
        s.cmember = {}          # store through a pointer kept in a pointer-to-const struct member
        s.members = {}
        s.ro = {}
        for n, f in s.funcs.items():
            t = di.fn_types(n)
            for a in f.args:
                if t and a.idx < len(t[1]) and t[1][a.idx][0] == "ptr" and t[1][a.idx][1][-1] is True:
                    s.ro.setdefault(n, set()).add(a.idx)
        ch = True
        s.rounds = 0
        while ch:
            ch = False
            s.rounds += 1
            for n, f in s.funcs.items():
                if s._fn(f):
                    ch = True

    def _taken(s):
        out = set()

        def walk(x):
            if isinstance(x, str) and x.startswith("@"):
                out.add(x[1:])
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        for g in s.m.globals.values():
            walk(g.init)
        for f in s.funcs.values():
            for i in f.insts():
                for o in i.ops:
                    if isinstance(o, Function):
                        out.add(o.name)
        return out

    def targets(s, ins):
        """possible callees of a call"""
        if isinstance(ins.callee, Function):
            return [ins.callee]
        c = ins.callee
        if isinstance(c, Inst) and c.op == "load" and isinstance(c.ops[0], GRef):
            g = c.ops[0].g
            if g.const and isinstance(g.init, str) and g.init.startswith("@") and g.init[1:] in s.m.funcs:
                return [s.m.funcs[g.init[1:]]]
        n = len(ins.args)
        kinds = [a.ty.kind if a.ty else None for a in ins.args]
        # a null/integer constant still has its type
        return [f for f in s.taken if len(f.args) == n and all(k is None or k == a.ty.kind for k, a in zip(kinds, f.args)) and
                s._ret_kind(f) == ins.ty.kind]

    def _ret_kind(s, f):
        for i in f.insts():
            if i.op == "ret":
                return i.ops[0].ty.kind if i.ops else "void"
        return "void"

    def _const_member(s, f, addr):
        """(struct, member) when addr is the address of a struct member declared as pointer to const"""
        if not (isinstance(addr, Inst) and addr.op == "gep" and not addr.gepvar and addr.srcty is not None and
                addr.srcty.kind == "struct" and addr.srcty.name):
            return None
        st = addr.srcty.name.replace("struct.", "").split(".")[0]
        if st not in s.members:
            s.members[st] = {o: (nm, ct) for o, sz, nm, ct in s.di.members(st)}
        m = s.members[st].get(addr.gepconst)
        if m and m[1][0] == "ptr":
            return st, m[0], m[1][1][-1] is True
        return None

    def _fn(s, f):
        n = f.name
        pt = s.pt.setdefault(n, {})
        mem = {}            # root -> roots its memory may point to
        wr = dict(s.writes[n])
        ret = set(s.ret[n])

        def P(v):
            if isinstance(v, Arg):
                return {("arg", v.idx)} if v.ty.kind == "ptr" else frozenset()
            if isinstance(v, GRef):
                return {("glob", v.g.name)}
            if isinstance(v, Inst):
                return pt.get(v.id, frozenset())
            return frozenset()

        def contents(roots):
            out = set()
            for r in roots:
                if r[0] in ("arg", "glob", "ro"):
                    out.add(r)
                out |= mem.get(r, set())
            return out

        def put(roots, vals):
            c = False
            for r in roots:
                m = mem.setdefault(r, set())
                if not vals <= m:
                    m |= vals
                    c = True
            return c
        ch = True
        k = 0
        while ch:
            ch = False
            k += 1
            for i in f.insts():
                new = None
                op = i.op
                if op == "alloca":
                    new = {("stack", i.id)}
                elif op in ("gep", "bitcast"):
                    new = set(P(i.ops[0]))
                elif op == "phi":
                    new = set()
                    for v in i.ops:
                        new |= P(v)
                elif op == "select":
                    new = set(P(i.ops[1])) | P(i.ops[2])
                elif op == "load":
                    if i.ty.kind == "ptr":
                        new = contents(P(i.ops[0]))
                        cm = s._const_member(f, i.ops[0])
                        if cm and not cm[2]:
                            new = {r for r in new if r[0] != "ro"}
                        if cm and cm[2]:
                            new = {("ro", r[1]) if r[0] == "arg" else r for r in new} | {("cm",) + cm[:2]}
                elif op == "store":
                    d = P(i.ops[1])
                    for r in d:
                        if r[0] == "cm":
                            s.cmember.setdefault((n, r[1], r[2]), i)
                        if r[0] == "ro" and r[1] in s.ro.get(n, ()) and ("arg", r[1]) not in wr:
                            wr[("arg", r[1])] = i
                            ch = True
                        if r[0] in ("arg", "glob") and r not in wr:
                            wr[r] = i
                            ch = True
                    if i.ops[0].ty is not None and i.ops[0].ty.kind == "ptr":
                        vals = set(P(i.ops[0]))
                        ro = s.ro.get(n, ())
                        vals = {("ro", x[1]) if x[0] == "arg" and x[1] in ro else x for x in vals}
                        if put(d, vals):
                            ch = True
                elif op == "call" and isinstance(i.callee, Asm):
                    for k2 in asmx.written_args(i.callee):
                        for r in P(i.args[k2]) if k2 < len(i.args) else ():
                            if r[0] in ("arg", "glob") and r not in wr:
                                wr[r] = i
                                ch = True
                            if r[0] == "cm":
                                s.cmember.setdefault((n, r[1], r[2]), i)
                elif op == "call":
                    new = set()
                    for t in s.targets(i):
                        if t.decl:
                            if s._ext(i, t, P, wr, new, put, contents):
                                ch = True
                            continue
                        amap = {("arg", a): set(P(v)) for a, v in enumerate(i.args)}

                        def tr(r):
                            if r[0] == "arg":
                                b = amap.get(r, set())
                                return b
                            return {r} if r[0] == "glob" else {("fresh", i.id)}
                        for r, w in s.writes[t.name].items():
                            base = tr(r)
                            for q in base:
                                if q[0] == "cm":
                                    s.cmember.setdefault((n, q[1], q[2]), i)
                                if q[0] == "ro" and q[1] in s.ro.get(n, ()) and ("arg", q[1]) not in wr:
                                    wr[("arg", q[1])] = i
                                    ch = True
                            # the callee may write anything reachable from the argument
                            for q in base | deep(base, mem):
                                if q[0] in ("arg", "glob") and q not in wr:
                                    wr[q] = i
                                    ch = True
                        for a, b in s.capt[t.name]:
                            if put(tr(b) | deep(tr(b), mem), tr(a)):
                                ch = True
                        for r in s.ret[t.name]:
                            new |= tr(r)
                    if i.ty.kind != "ptr":
                        new = None
                elif op == "ret" and i.ops:
                    r = P(i.ops[0])
                    if i.ops[0].ty.kind == "ptr":
                        for x in r:
                            y = x if x[0] in ("arg", "glob") else ("fresh",)
                            if y not in ret:
                                ret.add(y)
                                ch = True
                if new is not None and i.ty.kind == "ptr":
                    old = pt.get(i.id, frozenset())
                    if not new <= old:
                        pt[i.id] = frozenset(new | old)
                        ch = True
            if k > 60:
                break
        capt = {(a, b) for b, vs in mem.items() if b[0] in ("arg", "glob") for a in vs if a[0] in ("arg", "glob") and a != b}
        for b, vs in mem.items():
            if b[0] in ("arg", "glob") and any(v[0] not in ("arg", "glob") for v in vs):
                capt.add((("fresh",), b))
        changed = set(wr) != set(s.writes[n]) or ret != set(s.ret[n]) or capt != set(s.capt[n])
        s.writes[n], s.ret[n], s.capt[n] = wr, frozenset(ret), frozenset(capt)
        return changed

    def _ext(s, i, t, P, wr, new, put, contents):
        ch = False
        n = t.name
        if n.startswith("llvm."):
            b = n.split(".")[1]
            n = b if b in ("memcpy", "memmove", "memset") else None
            if n is None:
                if t.name.startswith(("llvm.x86", "llvm.masked")):
                    for k, a in enumerate(i.args):
                        if a.ty is not None and a.ty.kind == "ptr":
                            for r in P(a):
                                if r[0] in ("arg", "glob") and r not in wr and "store" in t.name:
                                    wr[r] = i
                                    ch = True
                return ch
        if n in FRESH:
            new.add(("fresh", i.id))
            return ch
        if n == "realloc":
            new.add(("fresh", i.id))
            new |= P(i.args[0])
            return ch
        if n in EXT:
            w, r = EXT[n]
            for k in w:
                if k < len(i.args):
                    for q in P(i.args[k]):
                        if q[0] == "cm":
                            s.cmember.setdefault((i.blk.fn.name, q[1], q[2]), i)
                        if q[0] in ("arg", "glob") and q not in wr:
                            wr[q] = i
                            ch = True
            if n in ("memcpy", "memmove"):
                if put(P(i.args[0]), contents(P(i.args[1])) - set(P(i.args[1]))):
                    ch = True
            if r is not None and r < len(i.args):
                new |= P(i.args[r])
            return ch
        s.unknown.setdefault(n, i)
        return ch


def deep(roots, mem):
    seen = set(roots)
    todo = list(roots)
    while todo:
        for r in mem.get(todo.pop(), ()):
            if r not in seen:
                seen.add(r)
                todo.append(r)
    return seen

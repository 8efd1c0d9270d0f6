"""No writable state is shared between objects or calls."""
from .. import api, flow, llvmc


def run(c):
    c.rule("Whole-program may-write analysis: no function of the library stores into, hands out for writing, or keeps "
           "inside an object a pointer to, any global or function-local static; no C library function with hidden "
           "process-wide state is called.  Every write goes to memory reached through the caller's arguments, to memory "
           "just allocated or to the function's own frame.")
    vs = ["default", "noasm"] + (["mintable", "nounroll", "word32", "verifykey"] if c.thorough else [])
    for v in vs:
        m, d = c.module(v)
        F = flow.Flow(m, d)
        c.count("globals", len(m.globals))
        c.count("writable_globals", sum(not g.const for g in m.globals.values()))
        for n, f in F.funcs.items():
            c.count("functions")
            bad = [(r, i) for r, i in F.writes[n].items() if r[0] == "glob"]
            for r, i in bad:
                c.alarm("%s|%s" % (n, r[1]), i.loc, "write-to-global", "%s writes global or static object '%s'" % (n, r[1]))
            for a, b in F.capt[n]:
                if a[0] == "glob" and a[1] in m.globals and not m.globals[a[1]].const:
                    c.alarm("%s|keeps|%s" % (n, a[1]), "%s:%s" % (f.file, f.line), "global-escapes",
                            "%s stores a pointer to the writable global '%s' into an object" % (n, a[1]))
                if b[0] == "glob":
                    c.alarm("%s|%s" % (n, b[1]), "%s:%s" % (f.file, f.line), "write-to-global",
                            "%s stores a pointer into global object '%s'" % (n, b[1]))
            for r in F.ret[n]:
                if r[0] == "glob" and not m.globals[r[1]].const:
                    c.alarm("%s|returns|%s" % (n, r[1]), "%s:%s" % (f.file, f.line), "global-escapes",
                            "%s returns a pointer to the writable global '%s'" % (n, r[1]))
            for i in f.insts():
                if i.op == "store" or i.op == "call":
                    c.count("write_sites")
                if i.op == "call" and isinstance(i.callee, llvmc.Function) and i.callee.decl:
                    c.count("external_calls")
                    if i.callee.name in flow.STATEFUL:
                        c.alarm("%s|calls|%s" % (n, i.callee.name), i.loc, "hidden-state",
                                "%s calls %s(), which keeps process-wide state" % (n, i.callee.name))
                    for a in i.args:
                        if isinstance(a, llvmc.GRef) and not a.g.const and i.callee.name not in flow.EXT and \
                                not i.callee.name.startswith("llvm."):
                            c.alarm("%s|passes|%s" % (n, a.g.name), i.loc, "global-escapes",
                                    "%s passes the writable global '%s' to %s" % (n, a.g.name, i.callee.name))
            if not bad:
                c.ok()
        c.cov["unmodelled_externals"] = sorted(set(c.cov.get("unmodelled_externals", [])) | set(F.unknown))
    c.need("functions", 50)
    c.need("write_sites", 100)

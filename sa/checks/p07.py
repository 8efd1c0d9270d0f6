"""Inputs are left as they were."""
import json
import os

from .. import api, flow

TABLE = os.path.join(os.path.dirname(os.path.dirname(__file__)), "tables", "inputs.json")


def facts(c, v):
    m, d = c.module(v)
    return m, d, flow.Flow(m, d)


def run(c):
    c.rule("Whole-program may-write analysis of every pointer parameter, through callees, function pointers, inline assembly "
           "and pointers kept in objects: a parameter declared pointer-to-const, and every parameter listed as a pure input "
           "of the public interface (operands that are not destinations, queried objects), is never written through; nor is "
           "memory reached through a struct member declared pointer-to-const.")
    table = json.load(open(TABLE))
    for v in ["default", "noasm"] + (["mintable", "nounroll", "word32", "verifykey", "ndebug"] if c.thorough else []):
        m, d, F = facts(c, v)
        pub = set(api.public(m))
        for n, f in F.funcs.items():
            idx = set(F.ro.get(n, ()))
            frozen = table.get("%s/%d" % (n, len(f.args)), [])
            for k in sorted(idx | set(frozen)):
                c.count("const_parameters" if k in idx else "input_parameters")
                w = F.writes[n].get(("arg", k))
                if w is None:
                    c.ok()
                    continue
                c.alarm("%s|%d" % (n, k), w.loc, "input-written", "%s may write to its input parameter '%s'" % (n, f.args[k].name))
            c.count("public_functions", n in pub)
        for (n, st, mem), i in F.cmember.items():
            c.alarm("%s|%s.%s" % (n, st, mem), i.loc, "const-member-written",
                    "%s writes through %s.%s, which is declared pointer to const" % (n, st, mem))
        c.ok()
    c.need("const_parameters", 20)
    c.need("input_parameters", 20)

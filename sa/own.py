"""Runs the ownership / typestate engine over every function of the library."""
from . import api, typestate
from .framework import AnalysisError


def analyse(c, variants, K, want, opts=None):
    """want: event rules of interest.  Returns [(variant, event)], fills coverage."""
    res = []
    for var in variants:
        m, d = c.module(var)
        p = typestate.Program(m, d)
        des = api.destroyers(m, d)
        if not des:
            raise AnalysisError("no public destroy functions found")
        wiped = {t for n, t in des.items() if n != "BnFree"}
        o = {"destroy_types": wiped - {"RaBigNumber"},
             "constructors": constructors(p),
             "owned_secret": owned(wiped - {"RaBigNumber"})}
        o.update(opts or {})
        tot = {"functions": 0, "calls": 0, "states": 0, "exits": 0, "derefs": 0, "truncated": 0}
        allocs, frees, fall = set(), set(), set()
        seen = set()
        for n in typestate.bottom_up(p):
            f = p.funcs[n]
            e = typestate.Engine(p, f, K, opts=o).run()
            tot["functions"] += 1
            for k in ("calls", "states", "exits", "derefs", "truncated"):
                tot[k] += e.stats[k]
            allocs |= e.stats["allocs"]
            frees |= e.stats["frees"]
            fall |= e.stats["fallible_sites"]
            for x in e.events.values():
                if x.rule in want and (x.rule, x.fn, x.line, x.msg) not in seen:
                    seen.add((x.rule, x.fn, x.line, x.msg))
                    res.append((var, x))
        tag = "" if len(variants) == 1 else "_" + var
        for k, v in tot.items():
            c.cov[k + tag] = v
        c.cov["allocation_sites" + tag] = len(allocs)
        c.cov["release_sites" + tag] = len(frees)
        c.cov["fallible_call_sites" + tag] = len(fall)
        c.cov["fallible_functions" + tag] = len(p.fallible)
        c.cov["public_functions" + tag] = len(api.public(m))
        if not allocs or not frees or not fall:
            raise AnalysisError("the %s program shows no allocation, release or fallible call" % var)
        c.last = (p, m, d, o, allocs, frees, fall)
    return res


def constructors(p):
    out = set()
    for n in p.fallible:
        t = p.di.fn_types(n)
        for ct in t[1]:
            if ct[0] == "ptr" and ct[1][0] == "ptr" and ct[1][1][0] == "struct" and not ct[1][2]:
                out.add(n)
    return out


def owned(types):
    """numbers and contexts reached from a context that must be erased are part of its secrets"""
    def test(o, oid, H):
        k = oid[1]
        while k[0] == "c" and k[1][0] in ("x", "h"):
            q = H.objs.get(k[1])
            if q is not None and q.ty in types:
                return True
            if k[1][0] == "h":
                return False
            k = k[1][1]
        return False
    return test


def report(c, evs, rename=None):
    n = 0
    for var, x in evs:
        n += 1
        key = "%s|%s|%s" % (x.rule, x.fn, x.root if x.rule in ("leak", "double-free", "out-on-failure") else
                            (x.extra[0] if isinstance(x.extra, tuple) else ""))
        c.alarm(key, "%s:%s in %s (entry %s, %s build)" % (x.file, x.line, x.fn, x.root, var), x.rule, x.msg)
    return n

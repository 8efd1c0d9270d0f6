"""Greatest common divisor and inverse, for every sequence of quotients."""
import multiprocessing as mp
import os

from .. import gcdpoly

ROUTINES = ("GetGCD", "GetGCDEx")
MODS = {}


def _task(t):
    """all shapes of one routine with k divisions; (configuration, state, text, place, steps) per shape"""
    v, name, k = t
    mod, live = MODS[v]
    ws = 4 if "word32" in v else 8
    todo = []
    if k == 0:
        for z in (0, 1):
            todo.append(("%s, %s number zero, %s" % (name, "first" if z else "second", v), gcdpoly.refused, (z,)))
    else:
        shapes = [("r", 0)]
        if name == "GetGCDEx":
            shapes = [(o, u) for o in ("rab", "a", "b", "ab", "ra", "r") for u in (0, 1)]
        for small in (0, 1) if k > 1 else (0,):
            for one in (0, 1):
                for outs, u in shapes:
                    for z in range(4):
                        todo.append(("%s, %d divisions%s%s, results %s%s, lengths %d, %s" % (
                            name, k, ", first number smaller" if small else "", ", coprime" if one else "", outs, ", non-negative" if u else "", z, v),
                            gcdpoly.analyse, (k, small, one, outs, u, z)))
    res, funcs, prims = [], set(), set()
    for conf, f, a in todo:
        try:
            state, text, A = f(mod, live, ws, name, *a)
        except Exception as x:          # a shape of code the interpretation does not know
            state, text, A = "undecided", "%s: %s" % (type(x).__name__, x), None
        res.append((conf, state, text, A and A.where and str(A.where.loc), A.steps if A else 0))
        if A:
            funcs |= A.funcs
            prims |= A.prim
    return res, sorted(funcs), sorted(prims)


def run(c):
    from ..valnum import Engine
    c.rule("Abstract interpretation of the Euclidean routines: each number is abstracted to an integer polynomial in the greatest common divisor and the quotients "
           "of the run, which parametrise all operands whose Euclidean algorithm takes k divisions. At the exit the first result must be the polynomial of the "
           "greatest common divisor and the coefficients those of the extended algorithm (brought into range when asked for); every intermediate result must fit "
           "into the words reserved for it.")
    c.assumptions.append("addition, subtraction, multiplication and comparison (P09) and division of big numbers are exact, and fail when the result has no room (P11)")
    kmax = 16 if c.thorough else 9
    tasks = []
    for v in ("default", "word32", "ndebug") if not c.thorough else ("default", "word32", "ndebug", "word32-ndebug", "noasm"):
        mod = c.module(v)[0]
        MODS[v] = (mod, Engine(mod).livein)
        for name in ROUTINES:
            if name not in mod.funcs:
                c.alarm("%s|missing" % name, name, "routine", "%s is not defined" % name)
                continue
            # in other builds an assertion ends the program when a number is zero
            tasks += [(v, name, k) for k in range(0 if "ndebug" in v else 1, kmax + 1)]
    tasks.sort(key=lambda t: (-t[2], t[1] != "GetGCDEx"))
    with mp.get_context("fork").Pool(int(os.environ.get("SA_CORES", "8"))) as pool:
        done = pool.map(_task, tasks, chunksize=1)
    und, funcs, prims = [], set(), set()
    for (v, name, k), (res, fs, ps) in zip(tasks, done):
        funcs.update(fs)
        prims.update(ps)
        for conf, state, text, where, steps in res:
            c.count("configurations")
            c.count("instructions_interpreted", steps)
            if state == "proved":
                c.ok(1)
                if k == kmax and "lengths 0" in conf:
                    c.sample(conf)
            elif state == "wrong":
                c.alarm("%s|%s" % (name, text.split(" for ")[0].split(" of ")[0]), where or name, "euclid", "%s: %s" % (conf, text))
            else:
                c.count("undecided")
                und.append("%s: %s" % (conf, text))
    c.cov["functions_analysed"] = sorted(funcs) + ["(primitive) " + x for x in sorted(prims)]
    c.cov["undecided_list"] = und[:40]
    for u in und[:3]:
        print("undecided:", u)
    c.need("configurations", 2)

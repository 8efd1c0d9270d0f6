"""Which power modular exponentiation computes."""
import multiprocessing as mp
import os
import resource
import time

from .. import expo

ROUTINE = "RaMontExpMod"


def _child(mod, ws, n, conn):
    resource.setrlimit(resource.RLIMIT_AS, (int(6e9), int(6e9)))
    try:
        state, text, A = expo.analyse(mod, ROUTINE, ws, n)
        out = (state, text, A.steps, A.states, A.exits, sorted(A.funcs) + ["(primitive) " + x for x in sorted(A.prim)], A.where and str(A.where))
    except (MemoryError, RecursionError) as x:
        out = ("undecided", type(x).__name__, 0, 0, 0, [], None)
    except expo.Undecided as x:
        out = ("undecided", str(x), 0, 0, 0, [], None)
    except Exception as x:                      # a shape of code the interpretation does not know
        out = ("undecided", "%s: %s" % (type(x).__name__, x), 0, 0, 0, [], None)
    conn.send(out)
    conn.close()
    os._exit(0)


def run(c):
    c.rule("Abstract interpretation of the exponentiation routine: each number is abstracted to the power of the base it stands for, as an affine function "
           "of the exponent bits read so far, and to its power of the Montgomery factor; the bits are unknown, loop states repeat, and the fixpoint covers "
           "every exponent of the given number of words. At every exit the result must stand for base^exponent without Montgomery factor.")
    c.assumptions.append("each primitive (Montgomery multiplication, squaring, conversion, reduction) computes the product it is named for")
    todo = [(v, n) for v in ("default", "word32") for n in (1, 2, 3)] + [("word32", 4)]
    if c.thorough:
        todo = [(v, n) for n in (1, 2, 3, 4, 5) for v in ("default", "word32", "ndebug", "word32-ndebug", "noasm")]
    todo.sort(key=lambda x: -x[1])
    limit = 780 if c.thorough else 400
    t0 = time.time()
    ctx = mp.get_context("fork")
    mods = {v: c.module(v)[0] for v, _ in todo}
    live, done = {}, []
    while todo or live:
        while todo and len(live) < 8 and time.time() - t0 < limit:
            v, n = todo.pop()
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(mods[v], 4 if "word32" in v else 8, n, b))
            p.start()
            b.close()
            live[a.fileno()] = (v, n, p, a)
        if time.time() - t0 > limit:
            for v, n in todo:
                done.append((v, n, ("undecided", "not reached in the time allowed", 0, 0, 0, [], None)))
            todo = []
            for v, n, p, a in live.values():
                p.kill()
                p.join()
                done.append((v, n, ("undecided", "time limit", 0, 0, 0, [], None)))
            live = {}
        for r in mp.connection.wait([x[3] for x in live.values()], timeout=3) if live else ():
            v, n, p, a = live.pop(r.fileno())
            try:
                out = a.recv()
            except EOFError:
                out = ("undecided", "analysis process ended", 0, 0, 0, [], None)
            p.join()
            done.append((v, n, out))
    und, funcs = [], set()
    for v, n, (state, text, steps, states, exits, fs, where) in sorted(done, key=lambda x: (x[0], x[1])):
        name = "%s, exponents of %d words" % (v, n)
        c.count("configurations")
        c.count("instructions_interpreted", steps)
        c.count("abstract_states", states)
        c.count("exits_judged", exits)
        funcs.update(fs)
        if state == "proved":
            c.ok(max(1, exits))
            c.sample("%s: %d states, %d exits" % (name, states, exits))
        elif state == "wrong":
            c.alarm("%s|wrong-power" % ROUTINE, where or ROUTINE, "power-of-base", "%s: %s" % (name, text))
        else:
            c.count("undecided")
            und.append("%s: %s" % (name, text))
    c.cov["functions_analysed"] = sorted(funcs)
    c.cov["undecided_list"] = und
    for u in und[:3]:
        print("undecided:", u)
    c.need("configurations", 2)

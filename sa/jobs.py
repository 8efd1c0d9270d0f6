"""Carries out many value-numbering comparisons side by side."""
import multiprocessing as mp
import os
import resource
import signal
import time
import traceback

from . import conform
from .valnum import Undecided
from .x86 import X86


class Job:
    def __init__(s, name, variant, harness, lib, ref, ints, bufs, cpuid=-1, cut=None, cost=1.0, mem=0.6, group="", what=None, rets=None,
                 externs=None, alt=None, altkey=None, limb=None):
        s.name, s.variant, s.harness, s.lib, s.ref = name, variant, harness, lib, ref
        s.ints, s.bufs, s.cpuid, s.cut = ints, bufs, cpuid, cut
        s.cost, s.mem, s.group = cost, mem, group
        s.what = what           # {buffer: number of leading bytes that count}
        s.externs = externs
        s.alt = alt             # integer arguments of a second definition that is accepted (altkey: as a known finding)
        s.altkey = altkey
        s.limb = limb           # word size of multi-word numbers


def _child(mod, j, conn, limit):
    class Late(Exception):
        pass

    def late(*a):
        raise Late()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (int(14e9), int(14e9)))
        signal.signal(signal.SIGALRM, late)
        signal.alarm(max(1, int(limit)))
        R = conform.compare(mod, j.lib, j.ref, j.ints, j.bufs, asm=X86(j.cpuid), cut=j.cut, what=j.what,
                            externs=j.externs() if j.externs else None, alt=j.alt, limb=j.limb)
        loc = None
        fn = None
        if R.loc is not None:
            loc = getattr(R.loc, "loc", None) or str(R.loc)
            f = getattr(getattr(R.loc, "block", None), "fn", None) or getattr(R.loc, "fn", None)
            fn = getattr(f, "name", None)
        out = (R.state, R.text, loc, fn, R.bits, R.steps, sorted(R.funcs))
    except Late:
        out = ("undecided", "time limit", None, None, 0, 0, [])
    except MemoryError:
        out = ("undecided", "memory limit", None, None, 0, 0, [])
    except RecursionError:
        out = ("undecided", "nesting limit", None, None, 0, 0, [])
    except Undecided as x:
        out = ("undecided", str(x), None, None, 0, 0, [])
    except Exception:
        out = ("error", traceback.format_exc()[-1500:], None, None, 0, 0, [])
    signal.alarm(0)
    conn.send(out)
    conn.close()
    os._exit(0)


def run(jobs, total, per=400, cores=int(os.environ.get("SA_CORES", "8")), memory=22.0):
    """[(job, result)]; result: (state, text, location, function, bits, steps, functions)"""
    t0 = time.time()
    mods = {}
    for k in sorted({(j.variant, j.harness) for j in jobs}):
        mods[k] = conform.compile_pair(*k)
    todo = sorted(jobs, key=lambda j: -j.cost)
    live = {}
    res = []
    ctx = mp.get_context("fork")
    conform.SPENT = ctx.Value("d", 0.0)
    while todo or live:
        left = total - (time.time() - t0)
        used = sum(j.mem for j, _, _ in live.values())
        i = 0
        while i < len(todo) and len(live) < cores and left > 5:
            j = todo[i]
            if used + j.mem > memory and live:
                i += 1
                continue
            todo.pop(i)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(mods[(j.variant, j.harness)], j, b, min(per, left)))
            p.start()
            b.close()
            live[a.fileno()] = (j, p, a)
            used += j.mem
        if left <= 5 and todo:
            for j in todo:
                res.append((j, ("undecided", "not reached in the time allowed", None, None, 0, 0, [])))
            todo = []
            continue
        ready = mp.connection.wait([x[2] for x in live.values()], timeout=5)
        for r in ready:
            j, p, a = live.pop(r.fileno())
            try:
                out = a.recv()
            except EOFError:
                out = ("undecided", "analysis process ended", None, None, 0, 0, [])
            a.close()
            p.join()
            res.append((j, out))
        if left < -30:
            for j, p, a in live.values():
                p.kill()
                p.join()
                res.append((j, ("undecided", "time limit", None, None, 0, 0, [])))
            live = {}
    order = {id(j): n for n, j in enumerate(jobs)}
    res.sort(key=lambda r: order[id(r[0])])
    return res


def report(c, results):
    """turn results into obligations and alarms of a check"""
    steps = 0
    funcs = set()
    und = []
    for j, (state, text, loc, fn, bits, st, fs) in results:
        c.count("configurations")
        steps += st
        funcs.update(fs)
        if state == "equal":
            c.ok(1)
            c.count("output_bits_proved_equal", bits)
            c.count("equal")
            if j.group:
                c.cov.setdefault("equal_by_group", {})
                c.cov["equal_by_group"][j.group] = c.cov["equal_by_group"].get(j.group, 0) + 1
        elif state == "alternative":
            c.ok(1)
            c.count("equal_to_the_accepted_variant")
            if j.altkey:
                c.alarm(j.altkey[0], j.lib, "value-numbers-differ", j.altkey[1], fresh=False)
        elif state in ("differ", "broken"):
            c.alarm("%s|%s" % (state, j.group or j.name), loc or j.lib, "value-numbers-differ" if state == "differ" else "defined-behaviour",
                    "%s: %s" % (j.name, text))
        else:
            und.append("%s: %s" % (j.name, text))
            c.count("undecided")
            if state == "error":
                c.count("analysis_errors")
    c.cov["instructions_analysed"] = c.cov.get("instructions_interpreted", 0) + steps
    c.cov["functions_analysed"] = sorted(set(c.cov.get("functions_analysed", [])) | {f for f in funcs if not f.startswith(("lib_", "ref_"))})
    c.cov["undecided_list"] = (c.cov.get("undecided_list", []) + und)[:40]
    if und:
        print("%d configurations undecided, e.g. %s" % (len(und), und[0][:300]))

"""The random generator."""
from .. import conform, jobs
from ..valnum import Broken, Dead, Ptr, Undecided
from ..x86 import X86

NAMES = ("SHA-160", "SHA-256", "SHA-512", "MD5")
LEN = (20, 32, 64, 16)


def stream(a, sl, way, *ls):
    n = sum(max(x, 0) for x in ls)
    return jobs.Job("%s generator, %d-byte seed, requests %s%s" % (NAMES[a], sl, "+".join(map(str, ls)), ", another generator in use" if way == 1 else ", from block %d on" % way if way else ""),
                    "default", "random.c", "lib_random", "ref_random",
                    dict(alg=a, way=way, seedlen=sl, l1=ls[0], l2=ls[1], l3=ls[2], l4=ls[3]),
                    {"seed": ("in", max(sl, 1)), "other": ("in", 3), "out": ("out", max(n, 1))}, cut=16,
                    cost=(0.3 + n / LEN[a]) * (3 if a == 2 else 2 if a == 1 else 1), mem=0.6 + n / 400, group=NAMES[a])


class System:
    """what the operating system gives: entropy bytes are unknown inputs"""

    def __init__(s, mode):
        s.mode = mode
        s.given = 0
        s.reads = 0

    def externs(s):
        return {"open": s.open, "open64": s.open, "__open_2": s.open, "read": s.read, "close": lambda e, a: 0, "times": s.clock, "sysconf": lambda e, a: 100,
                "clock_gettime": s.gettime, "time": s.clock, "clock": s.clock, "getpid": s.clock, "getrandom": s.getrandom, "getentropy": s.getentropy}

    def fill(s, e, p, n):
        e.check(p, n, "write")
        for k in range(n):
            e.store(Ptr(p.obj, p.off + k), tuple(e.var("entropy", s.given, j) for j in range(8)), 1)
            s.given += 1

    def open(s, e, a):
        return (1 << 32) - 1 if s.mode == "missing" else 5

    def read(s, e, a, bits=64):
        n = e.num(a[2])
        s.reads += 1
        if s.mode == "error":
            return (1 << 64) - 1
        if s.mode == "short":
            n = min(n, 7) if s.reads == 1 else 0
        s.fill(e, a[1], n)
        return n

    def getrandom(s, e, a):
        return s.read(e, [0, a[0], a[1]])

    def getentropy(s, e, a):
        r = s.read(e, [0, a[0], a[1]])
        return 0 if r == e.num(a[1]) else (1 << 32) - 1

    def clock(s, e, a):
        return tuple(e.var("clock", 0, j) for j in range(64))

    def gettime(s, e, a):
        for k in range(16):
            e.store(Ptr(a[1].obj, a[1].off + k), tuple(e.var("clock", k, j) for j in range(8)), 1)
        return 0


def entropy(c, mod, alg, mode, n):
    sysm = System(mode)
    try:
        eng, out = conform.produce(mod, "lib_entropy", dict(alg=alg, n=n), {"out": ("out", n)}, asm=X86(-1), externs=sysm.externs(), cut=16)
    except (Undecided, Broken, Dead) as x:
        c.count("undecided")
        c.cov.setdefault("undecided_list", []).append("%s generator, system entropy %s: %s" % (NAMES[alg], mode, x))
        return
    c.count("configurations")
    where = "RaRandomCreate"
    rv = eng.norm(dict(out)["return value"])
    if mode != "ok":
        if rv == 0:
            c.alarm("entropy|%s|%s" % (NAMES[alg], mode), where, "seeded-from-nothing",
                    "%s generator is created although the system entropy source is %s" % (NAMES[alg], mode))
        else:
            c.ok(1)
        return
    if rv != 0:
        c.alarm("entropy|%s|rejected" % NAMES[alg], where, "seeded-from-nothing", "%s generator is not created although entropy is available" % NAMES[alg])
        return
    if sysm.given < 32:
        c.alarm("entropy|%s|amount" % NAMES[alg], where, "entropy-amount", "%s generator asks the system for %d bytes of entropy only" % (NAMES[alg], sysm.given))
        return
    have = {d[2:] for d in conform.support(eng.b, eng.arrk, [x for nm, t in out if nm != "return value" for x in t]) if d[:2] == ("in", "entropy")}
    miss = sorted({k for k in range(sysm.given) for j in range(8) if (k, j) not in have})
    if miss:
        c.alarm("entropy|%s|unused" % NAMES[alg], where, "entropy-reaches-stream",
                "%s generator: entropy bytes %s of %d do not enter the stream" % (NAMES[alg], miss[:8], sysm.given))
    else:
        c.ok(1)
        c.count("entropy_bits_traced", 8 * sysm.given)


def run(c):
    c.rule("Global value numbering of generator creation and byte requests of fixed lengths with unknown seed bytes: every delivered byte must have the "
           "value number of the stream block(i) = digest(seed, 0, block(0), 1, ..., block(i-1), i), whatever the division into requests. "
           "For a generator seeded by the system, value numbers show which entropy bits each output depends on.")
    js = []
    for a in range(4):
        L = LEN[a]
        for ls in ((-1, L, 0, 0), (1, L - 1, 1, 2 * L), (-1, 3 * L + 1, 0, 0), (0, L + 1, L - 1, 3), (5, 0, L - 5, L), (L, L, 1, 0)):
            js.append(stream(a, 8, 0, *ls))
        js.append(stream(a, 8, 1, 3, L, 2, 5))
        for sl in ((0, 1, 3, 4, 20, 36, 51, 52, 55, 60, 64, 65, 100, 130) if not c.thorough else range(0, 140)):
            js.append(stream(a, sl, 0, -1, 2 * L, 0, 0))
        for k in (255, 256, 65535, 65536, 0x00ffffff, 0x01000000, 0x12345678, 0x7ffffff0):
            js.append(stream(a, 7, k, L, L, L, 0))
        if c.thorough:
            js.append(stream(a, 5, 0, -1, 8 * L + 3, 0, 0))
            for k in range(1, 2 * L):
                js.append(stream(a, 6, k & 1, k, L - 1, 1, 2))
    jobs.report(c, jobs.run(js, 750 if c.thorough else 500))
    mod = conform.compile_pair("default", "random.c")
    for a in range(4):
        for mode in ("ok", "missing", "error", "short"):
            entropy(c, mod, a, mode, LEN[a])
    c.need("configurations", 50)

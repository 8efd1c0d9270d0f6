"""The primality test, and the search for primes."""
from .. import jobs
from ..primejobs import OOM, genprime, isprime

A = 0x35                # first byte of an acceptable base (the tested number's is larger)
LOW = ((3, 1, 1), (0xff, 1, 1), (5, 1, 2), (9, 1, 3), (0x11, 1, 4), (0x81, 1, 7), (0x8001, 2, 15), (1 << 32 | 1, 5, 32), (1 << 31 | 1, 4, 31),
       (1 << 63 | 1, 8, 63), (1 << 64 | 1, 9, 64), (1 << 65 | 1, 9, 65))


def tests(v, big):
    js = []
    for ln in (16, 32, 48, 127, 128, 136) if big else (16, 32, 128):
        R = 3 if ln >= 128 else 5
        for low, size, s in LOW:
            if s > 15 and ln > 16 and not big:
                continue
            O = ("other",)
            ways = (("one",), ("last",)) + ((O * (s - 1) + ("last",),) if s > 1 else ()) + ((O + ("last",),) if s > 2 else ())
            fail = O * s
            for outs, name in ([(w * R, "each round passed in way %d" % i) for i, w in enumerate(ways)] +
                               [(sum((ways[i % len(ways)] for i in range(k)), ()) + fail, "round %d failed" % (k + 1)) for k in range(R)] +
                               ([(O + ("one",), "square root of one met")] if s > 1 else [])):
                js.append(isprime(v, ln, (low, size), 0x91, (A,) * (R + 3), outs, name))
    for tops, name in (((0xf0, A, 0x92, A, A, A, A, A, A), "base above the number"), (("zero", A, "one", A, A, A, A, A, A), "base zero or one"),
                       (("last", A, A, "last", A, A, A, A, A), "base one less than the number"), (("one", "zero", "last", 0xff, A, "one", A, A, A, A, A), "many rejected bases")):
        for outs in (("one",) * 5, ("one",) * 4, ()):
            js.append(isprime(v, 16, (3, 1), 0x91, tops, outs, "%s, %d rounds passed" % (name, len(outs))))
    for low in (0, 4, 0xfe):
        js.append(isprime(v, 16, (low, 1), 0x91, (A,) * 9, (), "even"))
    js.append(isprime(v, 16, (3, 1), 0x91, (A,) * 9, (), "generator failing", OOM))
    for x in (0, 1, 2, 4, 6):
        js.append(isprime(v, 1, (x, 1), x, (A,) * 9, (), "small number"))
    return js


def run(c):
    c.rule("Global value numbering of the primality test with modular exponentiation and the generator as uninterpreted functions: for each assignment of "
           "outcomes to the powers that the Miller-Rabin test is defined by, the verdict must be the defined one; the middle digits of the number and of the bases "
           "are unknown. Prime generation must return the first candidate that passes the full number of rounds.")
    c.assumptions.append("modular exponentiation computes the power it is asked for; a generator delivers the bytes it is asked for (decided in P19)")
    js = []
    for v in ("default", "word32", "ndebug") if c.thorough else ("default", "word32"):
        js += tests(v, c.thorough)
        for bit, own in ((512, 1), (1016, 0), (1024, 0), (2048, 1)) if c.thorough else ((512, 1), (1016, 0), (1024, 0)):
            for vs in ((True,), (False, True), (False, False, True), ("weak", True), ("fail",), ("bad",), (False, "bad"), (False, "fail")):
                js.append(genprime(v, bit, own, vs))
        js.append(genprime(v, 512, 1, (True,), OOM))
    jobs.report(c, jobs.run(js, 800 if c.thorough else 200))
    c.need("configurations", 100)

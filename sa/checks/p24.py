"""Random numbers."""
from .. import jobs
from ..primejobs import OOM, number


def run(c):
    c.rule("Global value numbering with the generator's output as uninterpreted bytes: each bit of a random number must be the bit of the generator's output "
           "the definition names, the forced bits must be one, all others zero, and the number must be in normal form; a failing generator must be reported.")
    c.assumptions.append("a generator delivers the bytes it is asked for (decided in P19)")
    js = []
    for v in ("default", "word32", "ndebug", "word32-ndebug") if c.thorough else ("default", "word32"):
        W = 32 if v.startswith("word32") else 64
        bits = range(1, 200) if c.thorough else (1, 2, 7, 8, 9, 15, 31, 32, 33, 47, 48, 63, 64, 65, 95, 96, 97, 100, 127, 128, 129, 160, 192)
        for b in bits:
            n = (b + W - 1) // W
            for op in range(3):
                js.append(number(v, op, b, max(n + 1, 2)))
                if n > 1 and b % 32 == 0:
                    js.append(number(v, op, b, n))
        for op in range(3):
            for b in (7, W, 2 * W - 1):
                js.append(number(v, op, b, 3, neg=1))
            js.append(number(v, op, 0, 2))
            js.append(number(v, op, 3 * W - 5, 4, own=1))
            js.append(number(v, op, 64, 3, own=1, code=OOM))
        for k in (1, 2, 3, 8, 20, 40, 64, 100):
            js.append(number(v, 3, k, 2))
            js.append(number(v, 3, k, 2, own=1))
        js.append(number(v, 3, 8, 2, own=1, code=OOM))
    for v in ("ndebug", "word32-ndebug"):
        for op in range(3):
            js.append(number(v, op, 200, 2))
    for op in (0, 2):
        for b in (512, 1024, 2048):
            js.append(number("default", op, b, b // 64 + 1))
    jobs.report(c, jobs.run(js, 600 if c.thorough else 200))
    c.need("configurations", 100)

"""Conversions of big numbers."""
from .. import jobs
from ..bnjobs import bn0, bnfrom, bnto, wordsize


def run(c):
    c.rule("Global value numbering of conversions between machine integers, byte strings and big numbers with unknown contents: for each length, "
           "every word, the sign, the length and every byte produced must have the value number of the exact conversion.")
    js = []
    for v in ("default", "word32", "ndebug", "word32-ndebug") if c.thorough else ("default", "word32"):
        W = wordsize(v)
        for op in range(6):
            for vt in (-2, -1) + tuple(range(0, 64, 1 if c.thorough else 9)) + (7, 8, 15, 16, 31, 32):
                if op in (1, 4) and vt > 31 or W == 4 and op in (0, 3) and vt > 31:
                    continue
                if op < 3 and (vt == -2 or vt == (31 if op == 1 or W == 4 and op == 0 else 63)):
                    continue
                js.append(bn0(v, op, vt, 0))
                if vt != -1:
                    js.append(bn0(v, op, vt, 1))
        js.append(bn0(v, 6, -2, 0, 3))
        for ln in range(1, 26 if c.thorough else 18):
            for f in (b"\1", b"\x7f", b"\x80", b"\xa5", b"\0\1", b"\0\x80", b"\0\0\x40", b"\xff\x7f", b"\xff\x80", b"\xff\xff\x12", b"\xfe"):
                js.append(bnfrom(v, 0, ln, f, 10))
            for f in (b"\1", b"\x80", b"\xff", b"\0\xfe", b"\0\0\0\7"):
                js.append(bnfrom(v, 1, ln, f, 10))
            if ln <= W or c.thorough:
                js.append(bnfrom(v, 1, ln, b"", 10))
        B = 8 * W
        for an in (1, 2, 3):
            for at in (-1,) + (tuple(range(B)) if c.thorough else (0, 1, 6, 7, 8, 9, 15, 16, B - 9, B - 8, B - 2, B - 1)):
                if at == -1 and an > 1:
                    continue
                need = an * W + 2
                js.append(bnto(v, 0, an, at, 0, -1, need))
                js.append(bnto(v, 1, an, at, 0, -1, need))
                js.append(bnto(v, 2, an, at, 0, -1, 0))
                js.append(bnto(v, 3, an, at, 0, -1, 0))
                for low in (0, 3, B - 1) if an > 1 else (0, 3, at):
                    if at >= 0 and (an > 1 or low <= at):
                        js.append(bnto(v, 0, an, at, 1, low, need))
                        js.append(bnto(v, 2, an, at, 1, low, 0))
    jobs.report(c, jobs.run(js, 750 if c.thorough else 400))
    c.need("configurations", 200)

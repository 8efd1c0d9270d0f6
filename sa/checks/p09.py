"""Exactness of big-number arithmetic."""
from .. import jobs
from ..bnjobs import bn1, bn2, wordsize


def pairs(v, big, sizes):
    """operations on two numbers; every result fits"""
    W = wordsize(v)
    T = 8 * W - 1
    js = []
    for an, bn in sizes:
        n = max(an, bn)
        tops = ((T, T), (T, 0), (0, T), (20, T - 1)) if big else ((T, T), (20, T - 1)) if an * bn <= 6 else ((T, T),)
        for at, bt in tops:
            for sa in (0, 1):
                for sb in (0, 1):
                    if not big and (at, bt) != (T, T) and (sa, sb) not in ((0, 1), (1, 1)):
                        continue
                    js.append(bn2(v, "ADD", an, at, sa, bn, bt, sb, n + 1))
                    js.append(bn2(v, "SUB", an, at, sa, bn, bt, sb, n + 1))
                    js.append(bn2(v, "CMP", an, at, sa, bn, bt, sb))
            js.append(bn2(v, "MUL", an, at, 0, bn, bt, 1, an + bn))
            js.append(bn2(v, "MUL", an, at, 1, bn, bt, 1, an + bn + 1))
            js.append(bn2(v, "ADDR", an, at, 1, bn, bt, 1, n + 1))
            if (an, at) > (bn, bt):
                js.append(bn2(v, "SUBR", an, at, 0, bn, bt, 0, n))
        # the result replaces an operand, or one number is both operands
        js.append(bn2(v, "ADD", an, T, 1, bn, T, 1, n + 1, 1))
        js.append(bn2(v, "ADD", an, T, 0, bn, T, 0, n + 1, 2))
        js.append(bn2(v, "SUB", an, T, 0, bn, T, 0, n + 1, 1))
        js.append(bn2(v, "SUB", an, T, 0, bn, T, 0, n + 1, 2))
        js.append(bn2(v, "SUB", an, 9, 0, bn, T, 1, n + 1, 2))
        if an == bn:
            js.append(bn2(v, "ADD", an, T, 1, an, 0, 0, n + 1, 3))
            js.append(bn2(v, "SUB", an, T, 1, an, 0, 0, n + 1, 3))
            js.append(bn2(v, "MUL", an, T, 1, an, 0, 0, 2 * n, 3))
            js.append(bn2(v, "CMP", an, T, 1, an, 0, 0, 0, 3))
            for at in (T, T - 1, 0, 9):
                if at or an == 1:
                    js.append(bn2(v, "SQR", an, at, 1, 1, 0, 0, 2 * an))
                js.append(bn2(v, "DBL", an, at, 1, 1, 0, 0, an + 1))
            js.append(bn2(v, "DBL", an, T, 0, 1, 0, 0, an + 1, 1))
            # operands of the same size that may be equal up to the last word
            js.append(bn2(v, "SUB", an, T, 0, an, T, 0, n + 1))
    # zeros and one-word numbers of any value
    for a in (-2, -1):
        for b in (-2, -1):
            for sa in (0, 1):
                js.append(bn2(v, "CMP", 1, a, sa, 1, b, 1))
                js.append(bn2(v, "CMP", 1, a, sa, 1, b, 0))
                js.append(bn2(v, "ADD", 1, a, sa, 1, b, 1, 2))
                js.append(bn2(v, "SUB", 1, a, sa, 1, b, 1, 2))
                if a == b == -1:
                    js.append(bn2(v, "MUL", 1, a, sa, 1, b, 1, 2))
        js.append(bn2(v, "ADD", 2, 5, 0, 1, a, 1, 3))
        js.append(bn2(v, "SUB", 1, a, 0, 2, 5, 0, 3))
        if a == -1:
            js.append(bn2(v, "MUL", 2, 5, 0, 1, a, 1, 3))
            js.append(bn2(v, "MUL", 1, a, 0, 2, 5, 0, 3))
            js.append(bn2(v, "SQR", 1, a, 1, 1, 0, 0, 2))
        js.append(bn2(v, "DBL", 1, a, 1, 1, 0, 0, 2))
    return js


def words(v, big, sizes):
    """a number and a machine word, or a count"""
    W = wordsize(v)
    B = 8 * W
    T = B - 1
    js = []
    for an in sizes:
        for at in (T, 7, 40 % B) if big else (T,) if an > 2 else (T, 7):
            for s in (0, 1):
                for neg in (0, 1):
                    for vt in (20, T - 1) if big else (20,):
                        for op in ("ADDI", "SUBI", "MULI", "CMPI"):
                            js.append(bn1(v, op, an, at, s, an + 1, vt, neg))
                        if an == 1 or an == 2 and at < T:
                            js.append(bn1(v, "DIVI", an, at, s, an, vt, neg))
                for vt in (20, T):
                    for op in ("ADDU", "SUBU", "MULU", "CMPU", "MODU"):
                        if op == "SUBU" and s == 0 or op == "ADDU" and s == 1:
                            if an == 1 and at == vt:
                                continue
                        if op != "MODU" or an <= 2 or vt == 20:
                            js.append(bn1(v, op, an, at, s, an + 1, vt))
                    if an == 1 or an == 2 and at < T:
                        js.append(bn1(v, "DIVU", an, at, s, an, vt))
            for op in ("ADDI", "SUBI", "MULI", "ADDU", "SUBU", "MULU", "CMPI", "CMPU"):
                js.append(bn1(v, op, an, at, 1, an + 1, -1))
                if an == 1 and op in ("SUBU", "CMPU"):
                    js.append(bn1(v, op, 1, -2, 1, 2, -2))
                    js.append(bn1(v, op, 1, -1, 1, 2, -2))
            if v.endswith("ndebug"):
                js += zero(v, an, at)
        for at in (T, 0, 9):
            for n in range(0, 2 * B + 12, 1 if big else 11):
                js.append(bn1(v, "SHL", an, at, 1, an + n // B + 1, cnt=n))
                js.append(bn1(v, "SHR", an, at, 1, an, cnt=n))
            for n in (1, T, B, B + 1, an * B - 1, an * B, an * B + 1):
                js.append(bn1(v, "SHL", an, at, 0, an + n // B + 1, cnt=n))
                js.append(bn1(v, "SHR", an, at, 0, an, cnt=n))
        for at in range(0, B, 1 if big else 7):
            js.append(bn1(v, "BITS", an, at, 0, an))
        for op in ("INVERT", "LOW32", "LOW64"):
            if op != "LOW64" or W == 8 or an > 1:
                js.append(bn1(v, op, an, 9, 0, max(an, 2)))
                js.append(bn1(v, op, an, T, 1, max(an, 2)))
        for cnt in (an, an + 1, 8):
            js.append(bn1(v, "SET", an, T, 1, an, cnt=max(cnt, 2)))
            js.append(bn1(v, "SET", an, 0, 0, an, cnt=max(cnt, 2)))
    for n in (0, 1, T, B, B + 1, 2 * B):
        js.append(bn1(v, "SHL", 1, -1, 1, 4, cnt=n))
        js.append(bn1(v, "SHR", 1, -1, 1, 4, cnt=n))
    js.append(bn1(v, "BITS", 1, -1, 0, 2))
    js.append(bn1(v, "SET", 1, -1, 1, 2, cnt=2))
    return js


def zero(v, an, at):
    """divisor zero: an error in builds without assertions"""
    return [bn1(v, op, an, at, s, an, -1) for op in ("DIVI", "DIVU", "MODU") for s in (0, 1)]


def run(c):
    c.rule("Global value numbering with multi-word integers in a linear normal form (sums, products, floors by powers of two): for each size, sign and "
           "position of the highest bit, with unknown words, every word, the length, the sign and the status of the result must have the value number "
           "of the exact integer result in normal form, and the operands that are not the result must keep theirs.")
    js = []
    for v in ("default", "word32", "ndebug", "word32-ndebug") if c.thorough else ("default", "word32"):
        if c.thorough:
            sizes = [(a, b) for a in range(1, 5) for b in range(1, 5)] + [(6, 3), (3, 6), (5, 5), (6, 6)]
        else:
            sizes = ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (4, 1), (1, 4), (4, 4))
        js += pairs(v, c.thorough, sizes)
        js += words(v, c.thorough, (1, 2, 3, 4, 5) if c.thorough else (1, 2, 3))
    if not c.thorough:
        for v in ("ndebug", "word32-ndebug"):
            js += zero(v, 1, 9) + zero(v, 3, 9)
    jobs.report(c, jobs.run(js, 800 if c.thorough else 500))
    c.need("configurations", 300)

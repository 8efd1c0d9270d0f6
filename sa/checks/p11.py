"""Results that do not fit."""
from .. import jobs
from ..bnjobs import bn0, bn1, bn2, bnfrom, bnto, wordsize


def tight(v, big):
    W = wordsize(v)
    B = 8 * W
    T = B - 1
    js = []
    sizes = [(a, b) for a in range(1, 5) for b in range(1, 5)] if big else [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (3, 3)]
    for an, bn in sizes:
        n = max(an, bn)
        for room in range(2, n + 1):
            # the magnitudes are added: into exactly the longer operand's room, and into less
            for at, bt in ((T, T), (T, 3), (3, T), (T - 1, T - 1), (20, 9)):
                js.append(bn2(v, "ADD", an, at, 0, bn, bt, 0, room))
                js.append(bn2(v, "ADD", an, at, 1, bn, bt, 1, room))
                js.append(bn2(v, "SUB", an, at, 0, bn, bt, 1, room))
                if room >= an:
                    js.append(bn2(v, "ADDR", an, at, 0, bn, bt, 0, room))
                if room == n and (an, at) != (bn, bt):
                    js.append(bn2(v, "SUB", an, at, 0, bn, bt, 0, room))
                    js.append(bn2(v, "ADD", an, at, 1, bn, bt, 0, room))
        for room in range(2, an + bn + 1):
            for at, bt in ((T, T), (T, 9), (9, 9), (T - 1, 9)):
                top = (an - 1) * B + at + (bn - 1) * B + bt
                bits = top + 2
                if (top // B) != (bits - 1) // B and room * B < bits:
                    continue            # whether it fits depends on the values; the library asks for the larger room
                if room * B < bits or room * B >= bits:
                    js.append(bn2(v, "MUL", an, at, 0, bn, bt, 1, room))
                if an == bn and at == bt:
                    js.append(bn2(v, "SQR", an, at, 0, 1, 0, 0, room))
    for an in (1, 2, 3, 4) if big else (1, 2, 3):
        for at in (T, T - 1, 7):
            for room in range(2, an + 1):
                js.append(bn2(v, "DBL", an, at, 1, 1, 0, 0, room))
            if an > 1:
                js.append(bn2(v, "DBL", an, at, 0, 1, 0, 0, an, 1))
        m = max(an, 2)
        for vt in (20, T):
            for op in ("ADDU", "SUBU"):
                for s in (0, 1):
                    if (s == 1) == (op == "SUBU"):
                        js.append(bn1(v, op, an, T, s, an, vt))
                        js.append(bn1(v, op, an, 7, s, an, vt))
        for op, neg in (("ADDI", 0), ("SUBI", 1)):
            js.append(bn1(v, op, an, T, 0, an, 20, neg))
        for at in (T, 7):
            for s in range(0, 2 * B + 3, 1 if big else 9):
                need = an + (at + s) // B
                for room in {m, m + 1, need, need - 1}:
                    if room >= m:
                        js.append(bn1(v, "SHL", an, at, 0, room, cnt=s))
        for room in range(2, an + 1):
            js.append(bn1(v, "SET", an, T, 1, an, cnt=room))
    # conversions
    for ln in range(1, 4 * W + 1, 1 if big else 3):
        for room in (2, 3):
            for f in (b"\1", b"\x80", b"\xff"):
                js.append(bnfrom(v, 1, ln, f, room))
            for f in (b"\1", b"\x7f", b"\x80"):
                js.append(bnfrom(v, 0, ln, f, room))
    for an in (1, 2):
        for at in (0, 6, 7, 8, 15, T - 1, T):
            n = ((an - 1) * B + at + 1 + 7) // 8
            for room in sorted({0, max(n - 1, 0), n, n + 1}):
                js.append(bnto(v, 0, an, at, 0, -1, room))
                js.append(bnto(v, 1, an, at, 0, -1, room))
                if an > 1 or at > 3:
                    js.append(bnto(v, 0, an, at, 1, 3, room))
                    js.append(bnto(v, 1, an, at, 1, 3, room))
    return js


def run(c):
    c.rule("Global value numbering of big-number operations on results with little room: every store stays within the allocation, and the status, "
           "length, sign and words are those of the definition, which reports a result that does not fit and otherwise gives the exact result.")
    js = []
    for v in ("ndebug", "word32-ndebug"):
        js += tight(v, c.thorough)
    c_ = 800 if c.thorough else 500
    jobs.report(c, jobs.run(js, c_))
    c.need("configurations", 300)

"""Comparisons of big-number operations with their definitions (harness/bn.c)."""
from .jobs import Job

OPS2 = "ADD SUB MUL SQR DBL ADDR SUBR CMP".split()
OPS1 = "ADDI SUBI ADDU SUBU MULI MULU DIVI DIVU MODU CMPI CMPU SHL SHR SET BITS INVERT LOW32 LOW64".split()
NAMES = dict(ADD="sum", SUB="difference", MUL="product", SQR="square", DBL="double", ADDR="in-place sum of magnitudes", SUBR="in-place difference of magnitudes",
             CMP="comparison", ADDI="sum with a signed word", SUBI="difference with a signed word", ADDU="sum with an unsigned word",
             SUBU="difference with an unsigned word", MULI="product with a signed word", MULU="product with an unsigned word",
             DIVI="quotient by a signed word", DIVU="quotient by an unsigned word", MODU="remainder by a word", CMPI="comparison with a signed word",
             CMPU="comparison with an unsigned word", SHL="left shift", SHR="right shift", SET="copy", BITS="bit length", INVERT="negation",
             LOW32="low 32 bits", LOW64="low 64 bits")
SHOW = 8 + 12 * 8


def wordsize(v):
    return 4 if v.startswith("word32") else 8


def num(n, top, sign):
    return "%s%d word%s%s" % ("-" if sign else "", n, "s" if n > 1 else "", " (zero)" if top == -1 else "" if top == -2 else " to bit %d" % top)


def bn2(v, op, an, at, asg, bn=1, bt=0, bsg=0, rmax=0, alias=0, cost=None):
    W = wordsize(v)
    al = ("", ", result over the first operand", ", result over the second operand", ", operand used twice")[alias]
    return Job("%s of %s%s%s%s, %s build" % (NAMES[op], num(an, at, asg), "" if op in ("SQR", "DBL") or alias == 3 else " and " + num(bn, bt, bsg),
                                            "" if op == "CMP" else ", room for %d" % rmax, al, v),
               v, "bn.c", "lib_bn2", "ref_bn2", {"op": OPS2.index(op), "an": an, "at": at, "as": asg, "bn": bn, "bt": bt, "bs": bsg, "rmax": rmax, "alias": alias},
               {"A": ("in", an * W), "B": ("in", bn * W), "old": ("in", max(rmax, 1) * W), "out": ("out", 8 + 12 * W), "keepa": ("out", 8 + 12 * W),
                "keepb": ("out", 8 + 12 * W)}, cost=cost or 0.05 * (an * bn if op in ("MUL", "SQR") else an + bn), mem=0.8, group=NAMES[op], limb=8 * W)


def bn1(v, op, an, at, asg, amax, vt=20, vneg=0, cnt=0, cost=None):
    W = wordsize(v)
    arg = ", by %d" % cnt if op in ("SHL", "SHR") else "" if op in ("BITS", "INVERT", "LOW32", "LOW64") else ", room for %d" % cnt if op == "SET" else \
          ", word %s%s" % ("-" if vneg else "", "0" if vt == -1 else "any" if vt == -2 else "to bit %d" % vt)
    return Job("%s of %s, room for %d%s, %s build" % (NAMES[op], num(an, at, asg), amax, arg, v),
               v, "bn.c", "lib_bn1", "ref_bn1", {"op": OPS1.index(op), "an": an, "at": at, "as": asg, "amax": amax, "vt": vt, "vneg": vneg, "cnt": cnt},
               {"A": ("in", an * W), "V": ("in", W), "old": ("in", max(cnt, 12) * W), "out": ("out", 8 + 12 * W), "rem": ("out", 8)},
               cost=cost or 0.05 * an, mem=0.8, group=NAMES[op], limb=8 * W)


OPS0 = ("from a signed word", "from a signed 32-bit integer", "from a signed 64-bit integer", "from an unsigned word", "from an unsigned 32-bit integer",
        "from an unsigned 64-bit integer", "as a clone")


def bn0(v, op, vt, vneg, mx=4):
    W = wordsize(v)
    return Job("number %s (%s%s), room for %d, %s build" % (OPS0[op], "-" if vneg else "", "0" if vt == -1 else "any" if vt == -2 else "to bit %d" % vt, mx, v),
               v, "bn.c", "lib_bn0", "ref_bn0", {"op": op, "vt": vt, "vneg": vneg, "max": mx},
               {"V": ("in", 8), "old": ("in", max(mx, 1) * W), "out": ("out", 8 + 12 * W)}, cost=0.05, mem=0.8, group=OPS0[op], limb=8 * W)


def bnfrom(v, op, ln, first, mx):
    """first: the leading bytes"""
    W = wordsize(v)
    first = first[:ln]
    return Job("number from %d %s bytes%s, room for %d, %s build" % (ln, ("two's-complement", "unsigned")[op], ", the first " + first.hex() if first else "", mx, v),
               v, "bn.c", "lib_bnfrom", "ref_bnfrom", {"op": op, "len": ln, "f": first[0] if first else -1, "max": mx},
               {"D": ("in", max(ln, 1), dict(enumerate(first))), "old": ("in", max(mx, 1) * W), "out": ("out", 8 + 12 * W)},
               cost=0.05 + ln / 200, mem=0.8, group="from bytes", limb=8 * W)


OPST = ("two's-complement bytes", "bytes of fixed length", "two's-complement length", "fixed length")


def bnto(v, op, an, at, asg, low, room):
    W = wordsize(v)
    return Job("%s of %s%s, room for %d, %s build" % (OPST[op], num(an, at, asg), "" if low < 0 else ", lowest set bit %d" % low, room, v),
               v, "bn.c", "lib_bnto", "ref_bnto", {"op": op, "an": an, "at": at, "as": asg, "low": low, "room": room},
               {"A": ("in", an * W), "out": ("out", room)}, cost=0.05 + room / 200, mem=0.8, group="to " + OPST[op], limb=8 * W)

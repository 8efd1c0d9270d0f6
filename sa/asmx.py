"""Reads AT&T inline-assembly templates: instruction list, labels, and the memory
each instruction touches relative to an operand of the asm statement."""
import re

SIZES = {"movdqa": 16, "movdqu": 16, "movups": 16, "movaps": 16, "pxor": 16, "paddd": 16, "pshufb": 16, "aesenc": 16,
         "aesdec": 16, "aesenclast": 16, "aesdeclast": 16, "movd": 4, "movl": 4, "movq": 8, "movhlps": 8, "movss": 4,
         "pextrd": 4, "pinsrd": 4, "pshufd": 16, "movw": 2, "movb": 1}
NODEST = {"cmp", "test", "cmpl", "cmpq", "push", "jmp", "jz", "jb", "jnz", "ja", "jae", "jbe", "je", "jne"}


class Op:
    """one operand: ('imm', n) ('reg', name) ('opnd', k) ('mem', base operand k or register, index, scale, disp)"""

    def __init__(s, text):
        s.text = t = text.strip()
        s.kind = "?"
        s.k = s.base = s.index = None
        s.scale, s.disp, s.val = 1, 0, None
        m = re.fullmatch(r"\$\$(0x[0-9a-fA-F]+|0b[01]+|-?\d+)", t)
        if m:
            s.kind, s.val = "imm", int(m.group(1), 0)
            return
        m = re.fullmatch(r"%(\w+)", t)
        if m:
            s.kind, s.base = "reg", m.group(1)
            return
        m = re.fullmatch(r"\$\{?(\d+)(?::\w)?\}?", t)
        if m:
            s.kind, s.k = "opnd", int(m.group(1))
            return
        m = re.fullmatch(r"(-?(?:0x[0-9a-fA-F]+|\d+))?\s*\(([^,()]*)(?:,([^,()]*))?(?:,([^,()]*))?\)", t)
        if m:
            s.kind = "mem"
            s.disp = int(m.group(1), 0) if m.group(1) else 0
            s.base = Op(m.group(2)) if m.group(2).strip() else None
            s.index = Op(m.group(3)) if m.group(3) and m.group(3).strip() else None
            s.scale = int(m.group(4), 0) if m.group(4) and m.group(4).strip() else 1
            return
        m = re.fullmatch(r"(-?(?:0x[0-9a-fA-F]+|\d+))\s*\+?\s*\$\{?(\d+)\}?", t)
        if m:
            s.kind, s.k, s.disp = "opnd", int(m.group(2)), int(m.group(1), 0)
            return

    def __repr__(s):
        return s.text


class Line:
    def __init__(s, op, ops, n):
        s.op, s.ops, s.n = op, ops, n

    def __repr__(s):
        return "%s %s" % (s.op, ", ".join(map(repr, s.ops)))


def parse(tmpl):
    """([Line], {label: index})"""
    out, labels = [], {}
    for n, ln in enumerate(re.split(r"[\n;]", tmpl)):
        ln = re.sub(r"(#|//).*", "", ln).strip()
        while True:
            m = re.match(r"([.\w${}:]*?)(\w+):\s*", ln)
            if m and re.match(r"^[.\w]+:", ln):
                lab = ln.split(":", 1)[0]
                labels[lab] = len(out)
                ln = ln.split(":", 1)[1].strip()
                continue
            break
        if not ln:
            continue
        p = ln.split(None, 1)
        ops = []
        if len(p) > 1:
            depth, cur = 0, ""
            for ch in p[1]:
                if ch == "(":
                    depth += 1
                elif ch == ")":
                    depth -= 1
                if ch == "," and depth == 0:
                    ops.append(Op(cur))
                    cur = ""
                else:
                    cur += ch
            ops.append(Op(cur))
        out.append(Line(p[0], ops, n))
    return out, labels


def operand_args(asm):
    """asm operand number -> index of the call argument that supplies it (or None for register outputs)"""
    m, a, k = {}, 0, 0
    for c in asm.cons:
        if c.startswith("~"):
            continue
        if c.startswith("=") and "*" not in c:
            m[k] = None
        else:
            m[k] = a
            a += 1
        k += 1
    return m


def is_mem(asm, k):
    i = 0
    for c in asm.cons:
        if c.startswith("~"):
            continue
        if i == k:
            return "*" in c
        i += 1
    return False


def accesses(asm):
    """[(line, operand number k, offset or None, size, 'r'|'w')] for memory reached through operands"""
    out = []
    lines, _ = parse(asm.tmpl)
    for l in lines:
        for j, o in enumerate(l.ops):
            last = j == len(l.ops) - 1
            if l.op == "lea" or l.op.startswith("j") or l.op.startswith("prefetch"):
                continue
            sz = SIZES.get(l.op, 16 if any(x.kind == "reg" and x.base.startswith("xmm") for x in l.ops) else 8)
            k = None
            if o.kind == "mem" and o.base is not None and o.base.kind == "opnd":
                k = o.base.k
                off = o.disp if o.index is None else None
            elif o.kind == "opnd" and is_mem(asm, o.k):
                k, off = o.k, o.disp
            if k is None:
                continue
            wr = last and l.op not in NODEST and (len(l.ops) > 1 or l.op not in ("push",))
            out.append((l, k, off, sz, "w" if wr else "r"))
            if wr and l.op not in ("movdqa", "movdqu", "movd", "movq", "mov", "movups", "movaps", "movl", "movss"):
                out.append((l, k, off, sz, "r"))
    return out


def written_args(asm):
    m = operand_args(asm)
    return sorted({m[k] for _, k, _, _, d in accesses(asm) if d == "w" and m.get(k) is not None})

"""Transfer functions of the inline-assembly instructions the library uses, for
the value-numbering analysis: every instruction maps value numbers to value
numbers, following the definition in the Intel manual."""
import re

from . import asmx
from .valnum import Broken, Obj, Ptr, Undecided


def rotl8(x, n):
    return ((x << n) | (x >> (8 - n))) & 255


def _sbox():
    p = q = 1
    s = [0] * 256
    while True:
        p = p ^ ((p << 1) & 255) ^ (0x1b if p & 128 else 0)
        q ^= (q << 1) & 255
        q ^= (q << 2) & 255
        q ^= (q << 4) & 255
        if q & 128:
            q ^= 9
        s[p] = q ^ rotl8(q, 1) ^ rotl8(q, 2) ^ rotl8(q, 3) ^ rotl8(q, 4) ^ 0x63
        if p == 1:
            break
    s[0] = 0x63
    return s


SBOX = _sbox()
INV = [SBOX.index(i) for i in range(256)]


class Shifted:
    """address >> n"""

    def __init__(s, p, n):
        s.p, s.n = p, n


class X86:
    """asm model; cpuid: value of every register the instruction returns (0 or ~0)"""

    def __init__(s, cpuid):
        s.cpuid = cpuid
        s.lines = 0

    def run(s, eng, inst, asm, args):
        return _Run(s, eng, inst, asm, args).go()


class _Run:
    def __init__(s, model, eng, inst, asm, args):
        s.model, s.e, s.inst, s.asm = model, eng, inst, asm
        s.b = eng.b
        s.lines, s.labels = asmx.parse(asm.tmpl)
        s.map = asmx.operand_args(asm)
        s.args = args
        s.mem = {k for k in s.map if asmx.is_mem(asm, k)}
        s.reg = {k: args[a] for k, a in s.map.items() if a is not None and k not in s.mem}
        s.x = {}
        s.first = {}
        s.flags = None
        s.stack = []
        s.gp = {}

    # ------------------------------------------------------------ operands
    def xmm(s, n):
        v = s.x.get(n)
        if v is None:
            v = s.x[n] = s.first[n] = tuple(s.b.atom(("undef", "asm", n, i)) for i in range(128))
        return v

    def addr(s, o):
        if o.kind == "opnd":
            if o.k not in s.mem:
                raise Undecided("assembly operand")
            p = s.args[s.map[o.k]]
            if not isinstance(p, Ptr):
                raise Undecided("assembly address")
            return Ptr(p.obj, p.off + o.disp, p.terms)
        if o.kind != "mem":
            raise Undecided("assembly operand")
        p, off = None, o.disp
        for q, sc in ((o.base, 1), (o.index, o.scale)):
            if q is None:
                continue
            v = s.gpr(q)
            if isinstance(v, Ptr) and p is None and sc == 1:
                p = v
            elif isinstance(v, int):
                off += (v - (1 << 64) if v >> 63 else v) * sc
            else:
                raise Undecided("assembly address")
        if p is None:
            raise Undecided("assembly address")
        return Ptr(p.obj, p.off + off, p.terms)

    def gpr(s, o):
        if o.kind == "imm":
            return o.val & ((1 << 64) - 1)
        if o.kind == "opnd" and o.k not in s.mem:
            if o.k not in s.reg:
                raise Undecided("assembly operand without a value")
            return s.reg[o.k]
        if o.kind == "reg" and o.base in s.gp:
            return s.gp[o.base]
        raise Undecided("assembly register %s" % o.text)

    def setgpr(s, o, v):
        if o.kind == "opnd" and o.k not in s.mem:
            s.reg[o.k] = v
        elif o.kind == "reg" and not o.base.startswith("xmm"):
            s.gp[o.base] = v
        else:
            raise Undecided("assembly destination %s" % o.text)

    def isx(s, o):
        return o.kind == "reg" and o.base.startswith("xmm")

    def rd(s, o, n=16):
        """n bytes (a 128-bit register, or memory) as bits"""
        if s.isx(o):
            return s.xmm(o.base)[:8 * n]
        return s.e.bitsof(s.e.load(s.addr(o), n), 8 * n)

    def w32(s, t):
        return [t[32 * i:32 * i + 32] for i in range(4)]

    def add(s, *ws):
        return s.b.sum(32, 0, [(w, 1) for w in ws])

    def bits(s, v):
        return s.e.bitsof(v, 128)

    @staticmethod
    def rol(t, n):
        return t[32 - n:] + t[:32 - n]

    @staticmethod
    def ror(t, n):
        return t[n:] + t[:n]

    @staticmethod
    def shr(t, n):
        return t[n:] + (0,) * n

    def xor(s, *ws):
        r = ws[0]
        for w in ws[1:]:
            r = s.b.wxor(r, w)
        return r

    # ------------------------------------------------------------ run
    def go(s):
        n = 0
        pc = 0
        while pc < len(s.lines):
            l = s.lines[pc]
            n += 1
            if n > 20000:
                raise Undecided("assembly loop")
            s.model.lines += 1
            pc += 1
            if l.op.startswith("j"):
                if s.jump(l.op):
                    t = re.sub(r"[bf]$", "", l.ops[0].text) if re.match(r"^\d+[bf]$", l.ops[0].text) else l.ops[0].text
                    if t not in s.labels:
                        raise Undecided("assembly label")
                    pc = s.labels[t]
                continue
            s.step(l)
        # registers nobody declared as changed
        clob = {c[2:-1] for c in s.asm.cons if c.startswith("~{")}
        for r, v in s.x.items():
            if r not in clob and v != s.first.get(r):
                raise Broken("the assembly statement changes %s without declaring it" % r, s.inst)
        outs = [k for k in sorted(s.map) if s.map[k] is None]
        if not outs:
            return None
        vals = []
        for k in outs:
            if k not in s.reg:
                raise Undecided("assembly output without a value")
            vals.append(s.reg[k])
        return vals if len(vals) > 1 else vals[0]

    def jump(s, op):
        if op == "jmp":
            return True
        if s.flags is None:
            raise Undecided("assembly branch without a comparison")
        a, c = s.flags
        if not isinstance(a, int) or not isinstance(c, int):
            raise Undecided("assembly branch on data")
        r = {"jz": a == c, "je": a == c, "jnz": a != c, "jne": a != c, "jb": a < c, "jc": a < c, "jae": a >= c, "jnc": a >= c,
             "ja": a > c, "jbe": a <= c}.get(op)
        if r is None:
            sa, sc = (x - (1 << 64) if x >> 63 else x for x in (a, c))
            r = {"jl": sa < sc, "jge": sa >= sc, "jg": sa > sc, "jle": sa <= sc}.get(op)
        if r is None:
            raise Undecided("assembly branch %s" % op)
        return r

    def step(s, l):
        op, o = l.op, l.ops
        b = s.b
        M = (1 << 64) - 1
        if op == "cpuid":
            # outputs are tied to a, b, c, d
            outs = [k for k in sorted(s.map) if s.map[k] is None]
            for k in outs:
                s.reg[k] = s.model.cpuid & 0xffffffff
            return
        if op in ("nop", "prefetchnta", "prefetcht0") or op.startswith("."):
            return
        if op in ("movdqa", "movdqu", "movups", "movaps", "movapd", "movupd", "lddqu"):
            src, dst = o
            if op in ("movdqa", "movaps", "movapd"):
                for q in (src, dst):
                    if not s.isx(q):
                        p = s.addr(q)
                        if p.off & 15 or p.terms:
                            raise Broken("aligned access at an address that is not a multiple of 16", s.inst)
            v = s.rd(src)
            if s.isx(dst):
                s.xmm(dst.base)
                s.x[dst.base] = v
            else:
                s.e.store(s.addr(dst), s.e.norm(v), 16)
            return
        if op in ("movd", "movq"):
            n = 4 if op == "movd" else 8
            src, dst = o
            if s.isx(src) or src.kind == "mem" or (src.kind == "opnd" and src.k in s.mem):
                v = s.rd(src, n)
            else:
                g = s.gpr(src)
                v = s.e.bitsof(g, 64)[:8 * n]
            if s.isx(dst):
                s.xmm(dst.base)
                s.x[dst.base] = v + (0,) * (128 - 8 * n)
            elif dst.kind == "mem" or (dst.kind == "opnd" and dst.k in s.mem):
                s.e.store(s.addr(dst), s.e.norm(v), n)
            else:
                s.setgpr(dst, s.e.norm(v + (0,) * (64 - 8 * n)))
            return
        if op in ("mov", "movl"):
            src, dst = o
            if op == "mov" and (src.kind != "mem" and dst.kind != "mem") and not (src.kind == "opnd" and src.k in s.mem) and not (
                    dst.kind == "opnd" and dst.k in s.mem):
                s.setgpr(dst, s.gpr(src))
                return
            raise Undecided("assembly instruction %s" % op)
        if op in ("add", "sub", "addq", "subq", "addl"):
            x, y = s.gpr(o[1]), s.gpr(o[0])
            if isinstance(x, Ptr) and isinstance(y, int):
                d = y - (1 << 64) if y >> 63 else y
                s.setgpr(o[1], Ptr(x.obj, x.off + (d if op.startswith("add") else -d), x.terms))
                s.flags = None
                return
            if isinstance(x, int) and isinstance(y, int):
                r = (x + y if op.startswith("add") else x - y) & M
                s.setgpr(o[1], r)
                s.flags = (x, y) if op.startswith("sub") else (r, 0)
                return
            raise Undecided("assembly arithmetic")
        if op in ("and", "andq"):
            x, y = s.gpr(o[1]), s.gpr(o[0])
            if isinstance(x, Ptr) and isinstance(y, int):
                s.setgpr(o[1], s.e.ptrop("and", 64, x, y))
            elif isinstance(x, int) and isinstance(y, int):
                s.setgpr(o[1], x & y)
                s.flags = (x & y, 0)
            else:
                raise Undecided("assembly arithmetic")
            return
        if op in ("shl", "shr", "sal", "shlq", "shrq"):
            n = s.gpr(o[0]) if len(o) == 2 else 1
            d = o[-1]
            x = s.gpr(d)
            if not isinstance(n, int):
                raise Undecided("assembly shift")
            n &= 63
            if isinstance(x, int):
                s.setgpr(d, (x << n) & M if op[2] == "l" else x >> n)
                s.flags = (s.gpr(d), 0)
            elif isinstance(x, Ptr) and op.startswith("shr") and not x.terms and (1 << n) <= x.obj.align:
                s.setgpr(d, Shifted(x, n))
            elif isinstance(x, Shifted) and op[2] == "l" and x.n == n:
                s.setgpr(d, Ptr(x.p.obj, x.p.off >> n << n))
            else:
                raise Undecided("assembly shift of an address")
            return
        if op in ("dec", "inc"):
            x = s.gpr(o[0])
            if not isinstance(x, int):
                raise Undecided("assembly arithmetic")
            r = (x + (1 if op == "inc" else -1)) & M
            s.setgpr(o[0], r)
            s.flags = (r, 0)
            return
        if op in ("cmp", "test", "cmpq"):
            x, y = s.gpr(o[1]), s.gpr(o[0])
            if op == "test":
                s.flags = (x & y, 0) if isinstance(x, int) and isinstance(y, int) else None
            else:
                s.flags = (x, y)
            return
        if op in ("push", "pushq"):
            s.stack.append(s.gpr(o[0]))
            return
        if op in ("pop", "popq"):
            if not s.stack:
                raise Broken("the assembly statement pops more than it pushed", s.inst)
            s.setgpr(o[0], s.stack.pop())
            return
        # ---- two-operand vector instructions: last operand is the destination
        if not o or not s.isx(o[-1]):
            raise Undecided("assembly instruction %s" % op)
        dn = o[-1].base
        d = s.xmm(dn)
        if op in ("pshufd", "palignr", "sha1rnds4"):
            if o[0].kind != "imm":
                raise Undecided("assembly operand")
            imm, v = o[0].val, s.rd(o[1])
        elif op in ("pslldq", "psrldq", "pslld", "psrld", "psllq", "psrlq") and len(o) == 2 and o[0].kind == "imm":
            k = o[0].val
            if op.endswith("dq"):
                k = min(k, 16) * 8
                s.x[dn] = (0,) * k + d[:128 - k] if op[2:4] == "ll" else d[k:] + (0,) * k
            else:
                n = 32 if op[-1] == "d" else 64
                k = min(k, n)
                r = ()
                for i in range(0, 128, n):
                    t = d[i:i + n]
                    r += (0,) * k + t[:n - k] if op[2:4] == "ll" else t[k:] + (0,) * k
                s.x[dn] = r
            return
        else:
            if len(o) != 2 and not (op == "sha256rnds2" and len(o) == 3):
                raise Undecided("assembly instruction %s" % op)
            v = s.rd(o[-2])
        D, V = s.w32(d), s.w32(v)
        cat = lambda *ws: tuple(q for w in ws for q in w)
        if op in ("pxor", "xorps"):
            r = b.wxor(d, v)
        elif op == "por":
            r = b.wor(d, v)
        elif op == "pand":
            r = b.wand(d, v)
        elif op == "paddd":
            r = cat(*[s.add(x, y) for x, y in zip(D, V)])
        elif op == "psubd":
            r = cat(*[b.sum(32, 0, [(x, 1), (y, -1)]) for x, y in zip(D, V)])
        elif op == "pshufd":
            r = cat(*[V[(imm >> (2 * i)) & 3] for i in range(4)])
        elif op == "pshufb":
            r = ()
            for i in range(16):
                m = v[8 * i:8 * i + 8]
                k = b.value(m)
                if k is None:
                    raise Undecided("shuffle by unknown bytes")
                r += (0,) * 8 if k & 128 else d[8 * (k & 15):8 * (k & 15) + 8]
        elif op == "palignr":
            t = v + d + (0,) * 256
            r = t[8 * imm:8 * imm + 128] if imm < 32 else (0,) * 128
        elif op == "punpckldq":
            r = cat(D[0], V[0], D[1], V[1])
        elif op == "punpckhdq":
            r = cat(D[2], V[2], D[3], V[3])
        elif op in ("punpcklqdq", "movlhps"):
            r = cat(D[0], D[1], V[0], V[1])
        elif op == "punpckhqdq":
            r = cat(D[2], D[3], V[2], V[3])
        elif op in ("aesenc", "aesenclast", "aesdec", "aesdeclast"):
            r = b.wxor(s.aes(d, op), v)
        elif op == "aesimc":
            r = s.mix(v, (14, 11, 13, 9))
        elif op == "sha1rnds4":
            r = s.sha1rnds4(D, V, imm & 3)
        elif op == "sha1nexte":
            r = cat(V[0], V[1], V[2], s.add(V[3], s.rol(D[3], 30)))
        elif op == "sha1msg1":
            w0, w1, w2, w3 = D[3], D[2], D[1], D[0]
            w4, w5 = V[3], V[2]
            r = cat(s.xor(w5, w3), s.xor(w4, w2), s.xor(w3, w1), s.xor(w2, w0))
        elif op == "sha1msg2":
            w16 = s.rol(s.xor(D[3], V[2]), 1)
            w17 = s.rol(s.xor(D[2], V[1]), 1)
            w18 = s.rol(s.xor(D[1], V[0]), 1)
            w19 = s.rol(s.xor(D[0], w16), 1)
            r = cat(w19, w18, w17, w16)
        elif op == "sha256rnds2":
            r = s.sha256rnds2(D, V, s.w32(s.xmm("xmm0")))
        elif op == "sha256msg1":
            s0 = lambda w: s.xor(s.ror(w, 7), s.ror(w, 18), s.shr(w, 3))
            r = cat(s.add(D[0], s0(D[1])), s.add(D[1], s0(D[2])), s.add(D[2], s0(D[3])), s.add(D[3], s0(V[0])))
        elif op == "sha256msg2":
            s1 = lambda w: s.xor(s.ror(w, 17), s.ror(w, 19), s.shr(w, 10))
            w16 = s.add(D[0], s1(V[2]))
            w17 = s.add(D[1], s1(V[3]))
            w18 = s.add(D[2], s1(w16))
            w19 = s.add(D[3], s1(w17))
            r = cat(w16, w17, w18, w19)
        else:
            raise Undecided("assembly instruction %s" % op)
        s.x[dn] = r

    # ------------------------------------------------------------ AES
    def xt(s, t, k):
        """product of a byte and a constant in the AES field"""
        r = (0,) * 8
        while k:
            if k & 1:
                r = s.b.wxor(r, t)
            top = t[7]
            t = (0,) + t[:7]
            x = s.b.xor
            t = (top, x(t[1], top), t[2], x(t[3], top), x(t[4], top), t[5], t[6], t[7])
            k >>= 1
        return r

    def mix(s, v, row):
        r = ()
        for c in range(4):
            col = [v[32 * c + 8 * i:32 * c + 8 * i + 8] for i in range(4)]
            for i in range(4):
                r += s.xor(*[s.xt(col[j], row[(j - i) % 4]) for j in range(4)])
        return r

    def aes(s, d, op):
        dec = op.startswith("aesdec")
        tab = INV if dec else SBOX
        byte = [s.b.lookup(tab, d[8 * i:8 * i + 8], 8) for i in range(16)]
        r = ()
        for c in range(4):
            for i in range(4):
                r += byte[4 * ((c - i if dec else c + i) % 4) + i]
        if not op.endswith("last"):
            r = s.mix(r, (14, 11, 13, 9) if dec else (2, 3, 1, 1))
        return r

    # ------------------------------------------------------------ SHA
    def sha1rnds4(s, D, V, imm):
        K = (0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6)[imm]
        a, bb, c, d = D[3], D[2], D[1], D[0]
        e = None
        W = (V[3], V[2], V[1], V[0])
        B = s.b
        for i in range(4):
            if imm == 0:
                f = s.xor(B.wand(bb, c), B.wand(tuple(B.inv(q) for q in bb), d))
            elif imm == 2:
                f = s.xor(B.wand(bb, c), B.wand(bb, d), B.wand(c, d))
            else:
                f = s.xor(bb, c, d)
            ad = [(f, 1), (s.rol(a, 5), 1), (W[i], 1)]
            if e is not None:
                ad.append((e, 1))
            t = B.sum(32, K, ad)
            e, d, c, bb, a = d, c, s.rol(bb, 30), a, t
        return d + c + bb + a

    def sha256rnds2(s, D, V, X):
        a, bb, e, f = V[3], V[2], V[1], V[0]
        c, d, g, h = D[3], D[2], D[1], D[0]
        B = s.b
        for i in range(2):
            ch = s.xor(B.wand(e, f), B.wand(tuple(B.inv(q) for q in e), g))
            maj = s.xor(B.wand(a, bb), B.wand(a, c), B.wand(bb, c))
            S1 = s.xor(s.ror(e, 6), s.ror(e, 11), s.ror(e, 25))
            S0 = s.xor(s.ror(a, 2), s.ror(a, 13), s.ror(a, 22))
            t = [(ch, 1), (S1, 1), (X[i], 1), (h, 1)]
            na = B.sum(32, 0, t + [(maj, 1), (S0, 1)])
            ne = B.sum(32, 0, t + [(d, 1)])
            a, bb, c, d, e, f, g, h = na, a, bb, c, ne, e, f, g
        return f + e + bb + a

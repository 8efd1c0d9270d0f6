"""Value-numbering jobs about RSA keys.  Modular exponentiation is an uninterpreted function of modulus, base and exponent here."""
from .bnjobs import wordsize
from .jobs import Job
from .valnum import NULL, Broken, Obj, Ptr, Undecided

OPS = ("encryption", "decryption", "signing", "verification", "key length", "public key export", "private key export")


class Exp:
    """modular exponentiation as an uninterpreted function; its result has `n` words, the highest bit of which is set"""

    def __init__(s, ws, n):
        s.ws, s.n = ws, n
        s.mod = {}

    def externs(s):
        return {"RaMontCreate": s.create, "GetGCDEx": s.gcd, "RaMontExpMod": s.exp}

    def content(s, e, p):
        """the words of a number"""
        n = e.num(e.load(Ptr(p.obj, p.off), 4))
        if e.num(e.load(Ptr(p.obj, p.off + 8), 4)):
            raise Undecided("negative number")
        d = e.load_ptr(Ptr(p.obj, p.off + 16))
        return e.b.word(e.bitsof(e.load(d, n * s.ws), 8 * n * s.ws)), n

    def create(s, e, a):
        if not isinstance(a[0], Ptr) or a[0].obj is None:
            raise Broken("modulus missing", e.where)
        m = s.content(e, a[0])
        r = e.call(e.m.funcs["RaMontCreate"], a)
        if r == 0:
            s.mod[e.load_ptr(a[1]).obj] = m
        return r

    def gcd(s, e, a):
        """numbers that nothing here depends on"""
        for r in a[:3]:
            if isinstance(r, Ptr) and r.obj is not None:
                e.store(Ptr(r.obj, r.off), 1, 4)
                e.store(Ptr(r.obj, r.off + 8), 0, 4)
                e.store(e.load_ptr(Ptr(r.obj, r.off + 16)), 5, s.ws)
        return 0

    def put(s, e, r, k, name, args):
        if e.num(e.load(Ptr(r.obj, r.off + 4), 4)) < k:
            raise Undecided("little room")
        e.store(Ptr(r.obj, r.off), k, 4)
        e.store(Ptr(r.obj, r.off + 8), 0, 4)
        d = e.load_ptr(Ptr(r.obj, r.off + 16))
        w = 8 * s.ws
        for i in range(k):
            t = [e.b.atom(("fn", name, args, i * w + j)) for j in range(w)]
            if i == k - 1:
                t[-1] = 1
            e.store(Ptr(d.obj, d.off + i * s.ws), tuple(t), s.ws)

    def exp(s, e, a):
        for p in a[1:4]:
            if not isinstance(p, Ptr) or p.obj is None:
                raise Broken("missing number", e.where)
        if not isinstance(a[0], Ptr) or a[0].obj not in s.mod:
            raise Undecided("unknown modulus")
        e.check(a[0], 8, "read")
        m, n = s.mod[a[0].obj]
        b, bn = s.content(e, a[2])
        if bn > n:
            return e.call(e.m.funcs["RaMontExpMod"], a)
        s.put(e, a[1], s.n, "expmod", (m, b, s.content(e, a[3])[0]))
        return 0


def externs(ws, n):
    return lambda: Exp(ws, n).externs()


def size(private, nl, el, dl, pl, ql):
    def tl(n):
        return 1 + (1 if n < 128 else 2 if n < 256 else 3) + n
    n = sum(tl(x + 1) for x in ((nl, el, dl, pl, ql, pl, ql, pl) if private else (nl, el)))
    return tl(tl(tl(n + 3)) + 40)


def rsa(v, op, private, form, nl, el, dl, pl, ql, top, pad=0, wide=0, room=-1, ml=None, rl=None):
    ws = wordsize(v)
    words = (nl + ws - 1) // ws
    ml = nl - 1 if ml is None else ml
    rl = words if rl is None else rl
    vl = room                                   # verification: bytes of the expected message
    if op == 3:
        vl = room = room if room >= 0 else rl * ws
    n = 8 + (words + 2) * ws if op < 4 else max(room, 1)
    what = "%s with %s%s-byte modulus 0x%02x.., %d-byte exponent%s%s%s%s%s, %s build" % (
        OPS[op], "private key, " if private else "public key, ", nl, top, el, ", bare" if form else "", ", %d zero bytes before numbers" % pad if pad else "",
        ", lengths of %d octets" % wide if wide else "", ", room for %d" % room if op > 4 and room >= 0 else ", result of %d words" % rl if op < 4 else "",
        ", expected message of %d bytes" % vl if op == 3 else "", v)
    return Job(what, v, "rsa.c", "lib_rsa", "ref_rsa",
               dict(op=op, private=private, form=form, nl=nl, el=el, dl=dl, pl=pl, ql=ql, top=top, pad=pad, wide=wide, ml=ml, room=room & 0xffffffff),
               {"K": ("in", nl + el + dl + 3 * pl + 2 * ql + 16), "M": ("in", ml + max(ml, room if op == 3 else 0) + 8), "out": ("out", n)},
               externs=externs(ws, rl), cost=0.2 + nl * (9 if private else 2) / 300, mem=0.7, group=OPS[op], limb=8 * ws if op == 3 else None)


def reject(v, private, form, nl, el, dl, pl, ql, top, how, pos, val, why):
    ws = wordsize(v)
    return Job("%s%s key data %s, %s build" % ("bare " if form else "", "private" if private else "public", why, v), v, "rsa.c", "lib_reject", "ref_reject",
               dict(private=private, form=form, nl=nl, el=el, dl=dl, pl=pl, ql=ql, top=top, how=how, pos=pos, val=val),
               {"K": ("in", nl + el + dl + 3 * pl + 2 * ql + 16)}, externs=externs(ws, (nl + ws - 1) // ws), cost=0.1, mem=0.7,
               group="malformed " + ("private" if private else "public"))


def lenlen(n):
    return 1 if n < 128 else 2 if n < 256 else 3 if n < 65536 else 4


def layout(private, form, nl, el, dl, pl, ql, top):
    """offsets of [(what, offset)] in the key data the harness builds, and its size"""
    leads = [top, 0x01, 0x5b if top else 0x9c, top or 0x41, top or 0x41, 0x2f, 0xf1, 0x2f]
    lens = [nl, el, dl, pl, ql, pl, ql, pl]
    cnt = 8 if private else 2
    names = ["modulus", "public exponent", "private exponent", "first prime", "second prime", "first exponent", "second exponent", "coefficient"]
    body = [lens[i] + (leads[i] >= 128) for i in range(cnt)]
    inner = sum(1 + lenlen(b) + b for b in body) + (3 if private else 0)
    seq = 1 + lenlen(inner) + inner
    wrapped = seq if private else seq + 1
    outer = (3 if private else 0) + 15 + 1 + lenlen(wrapped) + wrapped
    at = []
    o = 0
    total = seq
    if not form:
        total = 1 + lenlen(outer) + outer
        at += [("tag of the container", 0, "tag"), ("length of the container", lenlen(outer), "len")]
        o = 1 + lenlen(outer)
        if private:
            at.append(("tag of the version", o, "tag"))
            o += 3
        at.append(("tag of the algorithm", o, "tag"))
        at.append(("tag of the algorithm's name", o + 2, "tag"))
        at += [("byte %d of the algorithm's name" % k, o + 4 + k, "oid") for k in range(9)]
        at += [("length of the algorithm", o + 1, "len"), ("length of the algorithm's name", o + 3, "len")]
        o += 15
        at += [("tag of the wrapped key", o, "tag"), ("length of the wrapped key", o + lenlen(wrapped), "len")]
        o += 1 + lenlen(wrapped)
        if not private:
            at.append(("number of unused bits", o, "oid"))
            o += 1
    at += [("tag of the key sequence", o, "tag"), ("length of the key sequence", o + lenlen(inner), "len")]
    o += 1 + lenlen(inner) + (3 if private else 0)
    for i in range(cnt):
        at.append(("tag of the " + names[i], o, "tag"))
        if i == cnt - 1:
            at.append(("length of the " + names[i], o + lenlen(body[i]), "len"))
        o += 1 + lenlen(body[i]) + body[i]
    assert o == total
    return at, total

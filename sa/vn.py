"""Value numbering of bits.

Every bit a program computes gets a number that depends only on how it is built
from the inputs; numbers are assigned to canonical forms, so that two programs
that compute a bit in different ways get the same number:

  * exclusive-or over: constants, products of atoms (algebraic normal form),
    and Boolean functions of an index tuple (table look-ups, merged per tuple)
  * sums modulo 2^w as multisets of addends with coefficients
  * opaque reads from tables whose contents are not constant

A number can stand for one function only; equality of numbers is therefore
proof of equality of values for every input.  There is no search and no solver.
"""

CAP = 4096          # largest polynomial built by distributing a product


class Undecided(Exception):
    pass


class Bits:
    def __init__(s, cut=None):
        s.cut = cut             # longest exclusive or kept as such once it has been stored
        s.named = {}            # form -> the atom that stands for it
        s.forms = [(0, frozenset(), ()), (1, frozenset(), ())]
        s.ids = {s.forms[0]: 0, s.forms[1]: 1}
        s.atoms = {}            # description -> atom number
        s.desc = []
        s.terms = {}            # frozenset of atoms -> term number
        s.tset = []
        s.xmemo = {}
        s.amemo = {}
        s.tuples = {}           # tuple of bits -> word number
        s.wlist = []
        s.sums = {}             # (w, const, addends) -> bits
        s.sumof = {}            # word number -> (w, const, addends)
        s.atombit = {}
        s.splits = {}
        s.wsup = {}
        s.num = None            # integer forms (sa/num.py), where carries matter

    # ---------------------------------------------------------------- bits
    def form(s, c, terms, groups):
        k = (c, terms, groups)
        i = s.ids.get(k)
        if i is None:
            i = len(s.forms)
            s.forms.append(k)
            s.ids[k] = i
        return i

    def term(s, atoms):
        t = s.terms.get(atoms)
        if t is None:
            t = len(s.tset)
            s.tset.append(atoms)
            s.terms[atoms] = t
        return t

    def atom(s, d):
        """bit number of an atom"""
        b = s.atombit.get(d)
        if b is None:
            a = len(s.desc)
            s.desc.append(d)
            s.atoms[d] = a
            b = s.form(0, frozenset((s.term(frozenset((a,))),)), ())
            s.atombit[d] = b
        return b

    def single(s, f):
        """the atom a bit consists of"""
        (t,) = s.forms[f][1]
        (a,) = s.tset[t]
        return a

    def bitof(s, a):
        return s.atombit[s.desc[a]]

    def exclusive(s, cnt):
        """rewrite products of two atoms that the integer forms know more about"""
        todo = [z for z in cnt if cnt[z]]
        out = {}
        while todo:
            z = todo.pop()
            if len(z) > 1:
                l = sorted(z)
                p = None
                for i, a in enumerate(l):
                    for e in l[i + 1:]:
                        p = s.num.product(a, e)
                        if p is not None:
                            break
                    if p is not None:
                        break
                if p is not None:
                    r = z - {a, e}
                    todo += [r | t for t in p]
                    continue
            out[z] = out.get(z, 0) ^ 1
        return out

    def name(s, f):
        """a value that was stored: later uses see an atom instead of a long exclusive or"""
        c, t, g = s.forms[f]
        if len(t) + len(g) <= s.cut or f in s.named:
            return
        f0 = s.form(0, t, g)
        a = s.atom(("bit", f0))
        n = s.form(1, s.forms[a][1], ())
        f1 = s.form(1, t, g)
        s.named[f0], s.named[f1] = a, n

    def xor(s, a, b):
        if s.named:
            a = s.named.get(a, a)
            b = s.named.get(b, b)
        if a == b:
            return 0
        if a == 0:
            return b
        if b == 0:
            return a
        k = (a, b) if a < b else (b, a)
        r = s.xmemo.get(k)
        if r is None:
            c1, t1, g1 = s.forms[a]
            c2, t2, g2 = s.forms[b]
            if g1 and g2:
                d = dict(g1)
                for i, tt in g2:
                    x = d.get(i, 0) ^ tt
                    if x:
                        d[i] = x
                    else:
                        d.pop(i, None)
                g = tuple(sorted(d.items()))
            else:
                g = g1 or g2
            t = t1 ^ t2 if t1 and t2 else (t1 or t2)
            r = s.form(c1 ^ c2, t, g)
            s.xmemo[k] = r
        return r

    def inv(s, a):
        return s.xor(a, 1)

    def and_(s, a, b):
        if s.named:
            a = s.named.get(a, a)
            b = s.named.get(b, b)
        if a == b:
            return a
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1:
            return a
        k = (a, b) if a < b else (b, a)
        r = s.amemo.get(k)
        if r is not None:
            return r
        c1, t1, g1 = s.forms[a]
        c2, t2, g2 = s.forms[b]
        if s.xor(a, b) == 1:
            r = 0
        elif not g1 and not g2 and (len(t1) + c1) * (len(t2) + c2) <= 256:
            cnt = {}
            for x in [s.tset[t] for t in t1] + ([frozenset()] if c1 else []):
                for y in [s.tset[t] for t in t2] + ([frozenset()] if c2 else []):
                    z = x | y
                    cnt[z] = cnt.get(z, 0) ^ 1
            if s.num:
                cnt = s.exclusive(cnt)
            c = cnt.pop(frozenset(), 0)
            r = s.form(c, frozenset(s.term(z) for z, n in cnt.items() if n), ())
        else:
            # keep the linear parts opaque
            pa = s.form(0, t1, g1)
            pb = s.form(0, t2, g2)

            def opaque(p):
                f = s.forms[p]
                if not f[2] and len(f[1]) == 1:
                    return s.tset[next(iter(f[1]))]
                s.atom(("bit", p))
                return frozenset((s.atoms[("bit", p)],))
            r = s.form(0, frozenset((s.term(opaque(pa) | opaque(pb)),)), ())
            if c2:
                r = s.xor(r, pa)
            if c1:
                r = s.xor(r, pb)
            if c1 and c2:
                r = s.xor(r, 1)
        s.amemo[k] = r
        return r

    def or_(s, a, b):
        if a == 0:
            return b
        if b == 0:
            return a
        if a == 1 or b == 1:
            return 1
        return s.xor(s.xor(a, b), s.and_(a, b))

    def mux(s, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a == b:
            return a
        return s.xor(b, s.and_(c, s.xor(a, b)))

    # ---------------------------------------------------------------- words
    def word(s, t):
        if s.named:
            n = s.named
            t = tuple([n.get(b, b) for b in t])
        w = s.tuples.get(t)
        if w is None:
            w = len(s.wlist)
            s.wlist.append(t)
            s.tuples[t] = w
        return w

    @staticmethod
    def const(v, w):
        return tuple((v >> i) & 1 for i in range(w))

    @staticmethod
    def value(t):
        """integer value of a constant word, or None"""
        v = 0
        for i, b in enumerate(t):
            if b == 1:
                v |= 1 << i
            elif b:
                return None
        return v

    def wxor(s, a, b):
        x = s.xor
        return tuple([x(p, q) for p, q in zip(a, b)])

    def wand(s, a, b):
        x = s.and_
        return tuple([x(p, q) for p, q in zip(a, b)])

    def wor(s, a, b):
        x = s.or_
        return tuple([x(p, q) for p, q in zip(a, b)])

    def sum(s, w, const, adds):
        """const + sum(coefficient * word) mod 2^w; adds: [(word tuple, coefficient)]"""
        if s.num and (len({b for t, _ in adds for b in t if b > 1}) > 2 or any(s.num.deepword(t) for t, _ in adds)):
            return s.num.sum(w, const, adds)
        if s.num:
            q = {}
            for t, c in adds:
                for i, x in enumerate(t):
                    if x > 1 and s.forms[x][0]:
                        const += c << i
                        x = s.inv(x)
                        q[x] = q.get(x, 0) - (c << i)
                    elif x > 1:
                        q[x] = q.get(x, 0) + (c << i)
                    elif x:
                        const += c << i
            return s.num.table(const % (1 << w), [(x, c % (1 << w)) for x, c in q.items()], w)
        M = 1 << w
        acc = {}
        const %= M

        def put(t, c):
            nonlocal const
            c %= M
            if not c:
                return
            v = s.value(t)
            if v is not None:
                const = (const + c * v) % M
                return
            n = s.tuples.get(t) if not s.named else None
            if n is None:
                n = s.word(t)
            q = s.sumof.get(n)
            if q is not None and q[0] == w:
                const = (const + c * q[1]) % M
                for m, d in q[2]:
                    acc[m] = (acc.get(m, 0) + c * d) % M
                return
            # known ones and complements: bit = 1 - complement
            p = s.split(n)
            if p is None:
                acc[n] = (acc.get(n, 0) + c) % M
            else:
                const = (const + c * p[0]) % M
                for m, d in p[1]:
                    acc[m] = (acc.get(m, 0) + c * d) % M
        for t, c in adds:
            put(t, c)
        items = tuple(sorted((m, c) for m, c in acc.items() if c))
        if not items:
            return s.const(const, w)
        if len(items) == 1 and items[0][1] == 1 and const == 0:
            return s.wlist[items[0][0]]
        ub = {b for m, _ in items for b in s.wlist[m] if b > 1}
        if len(ub) == 1:
            # one unknown bit: two constants chosen by it
            u = ub.pop()
            v = [const, const]
            for m, c in items:
                for i, b in enumerate(s.wlist[m]):
                    if b == 1:
                        v[0] += c << i
                        v[1] += c << i
                    elif b:
                        v[1] += c << i
            r = []
            for i in range(w):
                p, q = (v[0] >> i) & 1, (v[1] >> i) & 1
                r.append(p if p == q else u if q else s.inv(u))
            return tuple(r)
        if all(c & (c - 1) == 0 for _, c in items):
            # addends that never have a one in the same place are just combined
            used = [(const >> i) & 1 for i in range(w)]
            ok = True
            parts = []
            for m, c in items:
                k = c.bit_length() - 1
                t = (0,) * k + s.wlist[m][:w - k]
                parts.append(t)
                for i, b in enumerate(t):
                    if b:
                        if used[i]:
                            ok = False
                            break
                        used[i] = 1
                if not ok:
                    break
            if ok:
                r = list(s.const(const, w))
                for t in parts:
                    for i, b in enumerate(t):
                        if b:
                            r[i] = b
                return tuple(r)
        if len(items) <= 2 and any(c == M - 1 for _, c in items) and all(c in (1, M - 1) for _, c in items):
            pos = [s.wlist[m] for m, c in items if c == 1]
            neg = [s.wlist[m] for m, c in items if c == M - 1]
            if len(neg) == 1:
                mp = [sum(1 << i for i, b in enumerate(t) if b) for t in pos + neg]
                k = (const - mp[-1]) % M
                if not k & mp[-1] and (len(mp) == 1 or not (mp[0] & mp[1] or mp[0] & k)):
                    r = list(s.const(k, w))
                    for t, f in [(t, 0) for t in pos] + [(t, 1) for t in neg]:
                        for i, b in enumerate(t):
                            if b:
                                r[i] = s.inv(b) if f else b
                    return tuple(r)
        key = (w, const, items)
        r = s.sums.get(key)
        if r is None:
            # low places are those of the narrower sum, so that truncation commutes with addition
            k = 32 if w > 32 else 16 if w > 16 else 8 if w > 8 else 0
            lo = s.sum(k, const, [(s.wlist[m][:k], c) for m, c in items]) if k else ()
            top = w
            hi = const
            for m, c in items:
                if c > M >> 1:
                    break
                hi += c * sum(1 << i for i, b in enumerate(s.wlist[m]) if b)
            else:
                if hi < M:
                    top = max(hi.bit_length(), k)
            r = lo + tuple([s.atom(("sum", key, i)) for i in range(k, top)]) + (0,) * (w - top)
            s.sums[key] = r
            s.sumof[s.word(r)] = key
        return r

    def split(s, n):
        """(constant, [(word, coefficient)]) of a word with known ones, complemented bits or one unknown bit; None otherwise"""
        p = s.splits.get(n, 0)
        if p != 0:
            return p
        t = s.wlist[n]
        forms = s.forms
        k = 0
        pos, neg = [], []
        for i, b in enumerate(t):
            x = y = 0
            if b == 1:
                k += 1 << i
            elif b:
                f = forms[b]
                if f[0]:
                    k += 1 << i
                    y = s.form(0, f[1], f[2])
                else:
                    x = b
            pos.append(x)
            neg.append(y)
        out = []
        u = {b for b in pos + neg if b}
        if len(u) == 1:
            # a multiple of one bit
            c = sum(1 << i for i, b in enumerate(pos) if b) - sum(1 << i for i, b in enumerate(neg) if b)
            m = s.word((u.pop(),) + (0,) * (len(t) - 1))
            p = None if m == n else (k, [(m, c)])
        elif not k:
            p = None
        else:
            for v, c in ((pos, 1), (neg, -1)):
                if any(v):
                    m = s.word(tuple(v))
                    q = s.sumof.get(m)
                    if q is not None and q[0] == len(t):
                        k += c * q[1]
                        out += [(x, c * d) for x, d in q[2]]
                    else:
                        out.append((m, c))
            p = (k, out)
        s.splits[n] = p
        return p

    def low(s, t, k):
        """the low k bits of a word"""
        return t[:k]

    # ---------------------------------------------------------------- tables
    def _leaves(s, bits):
        """bits as Boolean functions of at most eight leaf bits: (leaves, [function values]) or None"""
        leaves = set()
        for b in bits:
            c, t, g = s.forms[b]
            for x in t:
                leaves.add(s.form(0, frozenset((x,)), ()))
            for gi, _ in g:
                leaves.update(s.wlist[gi])
            if len(leaves) > 8:
                return None
        L = sorted(leaves)
        pos = {b: i for i, b in enumerate(L)}
        n = len(L)
        out = []
        for b in bits:
            c, t, g = s.forms[b]
            m = 0
            for x in t:
                m |= 1 << pos[s.form(0, frozenset((x,)), ())]
            gg = [([pos[q] for q in s.wlist[gi]], tt) for gi, tt in g]
            vals = []
            for v in range(1 << n):
                r = c ^ (bin(v & m).count("1") & 1)
                for ps, tt in gg:
                    k = 0
                    for j, p in enumerate(ps):
                        k |= ((v >> p) & 1) << j
                    r ^= (tt >> k) & 1
                vals.append(r)
            out.append(vals)
        return L, out

    def _pivot(s, f):
        c, t, g = s.forms[f]
        if t:
            return min(t)
        if g:
            w, tt = g[0]
            return (w, tt & -tt)
        return None

    def _has(s, f, p):
        c, t, g = s.forms[f]
        if isinstance(p, int):
            return p in t
        for w, tt in g:
            if w == p[0]:
                return bool(tt & p[1])
        return False

    def _compose(s, bits):
        """bits that are all functions of one index word already in use: (leaves, [function values])"""
        cand = None
        for b in bits:
            g = {w for w, _ in s.forms[b][2]}
            cand = g if cand is None else cand & g
            if not cand:
                break
        if not cand:
            # some bits may be plain leaves
            cand = {w for b in bits for w, _ in s.forms[b][2]}
            if not cand or len(cand) > 4:
                return None
        for w in sorted(cand):
            L = s.wlist[w]
            n = len(L)
            if n > 10:
                continue
            # what is left beside the functions of this word must come from its own bits
            sup = s.wsup.get(w)
            if sup is None:
                ut, ug = set(), set()
                for l in L:
                    ut |= s.forms[l][1]
                    ug.update(x[0] for x in s.forms[l][2])
                sup = s.wsup[w] = (ut, ug)
            if not all(s.forms[b][1] <= sup[0] and all(x[0] == w or x[0] in sup[1] for x in s.forms[b][2]) for b in bits):
                continue
            basis = []
            for i, l in enumerate(L):
                v, m = l, 1 << i
                for p, bv, bm in basis:
                    if s._has(v, p):
                        v, m = s.xor(v, bv), m ^ bm
                p = s._pivot(v)
                if p is None:
                    break
                basis.append((p, v, m))
            else:
                out = []
                for b in bits:
                    c, t, g = s.forms[b]
                    tt = dict(g).get(w, 0)
                    v, m = s.form(c, t, tuple(x for x in g if x[0] != w)), 0
                    for p, bv, bm in basis:
                        if s._has(v, p):
                            v, m = s.xor(v, bv), m ^ bm
                    if v > 1:
                        break
                    out.append([v ^ (bin(k & m).count("1") & 1) ^ ((tt >> k) & 1) for k in range(1 << n)])
                else:
                    return list(L), out
        return None

    def lookup(s, table, idx, width):
        """bits of table[idx]; table: list of ints (None where out of range), idx: word of bits"""
        if s.named:
            idx = tuple([s.named.get(b, b) for b in idx])
        var = [(i, b) for i, b in enumerate(idx) if b > 1]
        base = sum((1 << i) for i, b in enumerate(idx) if b == 1)
        if not var:
            if base >= len(table) or table[base] is None:
                raise Undecided("constant index outside the table")
            return s.const(table[base], width)
        if len(var) > 10:
            raise Undecided("table index with %d unknown bits" % len(var))
        lv = s._compose([b for _, b in var]) or s._leaves([b for _, b in var])
        if lv is not None:
            L, fs = lv
        else:
            # the index bits themselves, without their constants
            L = sorted({s.form(0, s.forms[b][1], s.forms[b][2]) for _, b in var})
            pos = {b: i for i, b in enumerate(L)}
            fs = []
            for _, b in var:
                p, c = pos[s.form(0, s.forms[b][1], s.forms[b][2])], s.forms[b][0]
                fs.append([((v >> p) & 1) ^ c for v in range(1 << len(L))])
        n = len(L)
        vals = []
        for v in range(1 << n):
            k = base
            for (i, _), f in zip(var, fs):
                k |= f[v] << i
            if k >= len(table) or table[k] is None:
                raise Undecided("index may leave the table")
            vals.append(table[k])
        Lw = s.word(tuple(L))
        out = []
        for j in range(width):
            tt = 0
            for v in range(1 << n):
                tt |= ((vals[v] >> j) & 1) << v
            out.append(s.func(L, Lw, tt))
        return tuple(out)

    def func(s, L, Lw, tt):
        n = len(L)
        c = tt & 1
        lin = [((tt >> (1 << i)) & 1) ^ c for i in range(n)]
        m = sum(l << i for i, l in enumerate(lin))
        for v in range(1 << n):
            if c ^ (bin(v & m).count("1") & 1):
                tt ^= 1 << v
        r = c
        for i in range(n):
            if lin[i]:
                r = s.xor(r, L[i])
        if tt:
            r = s.xor(r, s.form(0, frozenset(), ((Lw, tt),)))
        return r

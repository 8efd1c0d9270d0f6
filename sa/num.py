"""Integer normal forms of machine words.

A word is an integer linear form over symbols:
    w   a word of the program's input (or one the domain cannot look into), 0 <= w < 2^n
    p   a product of two words
    f   floor(N / 2^k) of another linear form N
Carries, borrows, high halves and shifted words are all f symbols; two
computations that add up the same things in a different order or with carries
found in different ways end in the same form.  The rules:
    floor((2^k Q + R) / 2^k)          = Q + floor(R / 2^k)
    floor((X + floor(N / 2^a)) / 2^k) = floor((2^a X + N) / 2^(a+k)), likewise with a minus sign
    floor(R / 2^k) is a constant when the range of R says so
    x mod 2^w                         = x - 2^w floor(x / 2^w)
    x < y  (w bits)                   = - floor((x - y) / 2^w)
"""


class Num:
    def __init__(s, bits, limb):
        s.b = bits
        s.limb = limb
        s.syms = []         # (kind, ...)
        s.rng = []          # (lo, hi)
        s.sid = {}
        s.lins = []         # (const, ((sym, coef), ...))
        s.lid = {}
        s.home = {}         # bit -> (form, place, width, exact): bit = place-th bit of form mod 2^width
        s.dec = {}          # tuple -> form
        s.tup = {}          # (form, width) -> tuple
        s.fmemo = {}
        s.sbits = {}
        s.prods = {}
        s.rmemo = {}
        s.facts = {}
        s.over = None       # (items, lo, hi): a bound that holds under an assumption
        s.umemo = {}

    # ---- forms
    def sym(s, d, lo, hi):
        i = s.sid.get(d)
        if i is None:
            i = s.sid[d] = len(s.syms)
            s.syms.append(d)
            s.rng.append((lo, hi))
        return i

    def lin(s, const, items):
        k = (const, tuple(sorted((m, c) for m, c in items if c)))
        i = s.lid.get(k)
        if i is None:
            i = s.lid[k] = len(s.lins)
            s.lins.append(k)
        return i

    def const(s, c):
        return s.lin(c, ())

    def comb(s, const, parts):
        """const + sum of coefficient * form"""
        acc = {}
        for f, k in parts:
            c, it = s.lins[f]
            const += c * k
            for m, q in it:
                acc[m] = acc.get(m, 0) + q * k
        return s.lin(const, acc.items())

    def range(s, f):
        memo = s.umemo if s.over else s.rmemo
        r = memo.get(f)
        if r is not None:
            return r
        c, it = s.lins[f]
        if s.over:
            z = s.part(it)
            if z is not None:
                l, h, rest = z
                a, b = s.range(s.lin(c, rest))
                memo[f] = (a + l, b + h)
                return memo[f]
        lo = hi = c
        fl = []
        for m, q in it:
            a, b = s.rng[m]
            if q > 0:
                lo += q * a
                hi += q * b
            else:
                lo += q * b
                hi += q * a
            if s.syms[m][0] == "f":
                fl.append((m, q))
        if hi - lo > 1 and fl and len(it) > 1:
            # floor(N / K) = (N - r) / K with 0 <= r < K
            K = max(s.syms[m][2] for m, _ in fl)
            parts = [(s.lin(c, [(m, q) for m, q in it if s.syms[m][0] != "f"]), 1 << K)]
            rl = rh = 0
            for m, q in fl:
                _, N, k = s.syms[m]
                parts.append((N, q << (K - k)))
                r = -q * ((1 << k) - 1) << (K - k)
                rl, rh = rl + min(r, 0), rh + max(r, 0)
            a, b = s.range(s.comb(0, parts))
            lo, hi = max(lo, -(-(a + rl) >> K)), min(hi, (b + rh) >> K)
        z = s.facts.get(it)
        if z:
            lo, hi = max(lo, c + z[0]), min(hi, c + z[1])
        memo[f] = (lo, hi)
        return lo, hi

    def fact(s, f, lo, hi):
        """bounds of a form that its terms do not show"""
        c, it = s.lins[f]
        if len(it) < 2:
            return
        a, b = s.range(f)
        if a >= lo and b <= hi:
            return
        lo, hi = max(a, lo), min(b, hi)
        s.facts[it] = (lo - c, hi - c)
        s.facts[tuple((m, -q) for m, q in it)] = (c - hi, c - lo)
        s.rmemo.pop(f, None)

    def floor(s, f, k):
        if k == 0:
            return f
        if s.over:
            memo = s.umemo
        else:
            memo = s.fmemo
        r = memo.get((f, k))
        if r is not None:
            return r
        c, it = s.lins[f]
        M = 1 << k
        Q, R = [], []
        for m, q in it:
            r = q % M
            if r > M >> 1:
                r -= M
            if r:
                R.append((m, r))
            if q != r:
                Q.append((m, (q - r) >> k))
        cq, cr = c >> k, c & (M - 1)
        if not R:
            r = s.lin(cq, Q)
        else:
            j = min((q & -q).bit_length() - 1 for _, q in R)
            if j:
                rest = s.floor(s.lin(cr >> j, [(m, q >> j) for m, q in R]), k - j)
            else:
                rest = s.floor1(s.lin(cr, R), k)
            r = s.comb(cq, [(s.lin(0, Q), 1), (rest, 1)])
        memo[f, k] = r
        return r

    def floor1(s, f, k):
        lo, hi = s.range(f)
        if lo >> k == hi >> k:
            return s.const(lo >> k)
        if (hi >> k) - (lo >> k) == 1:
            # a comparison: the least shift that tells
            T = hi >> k << k
            n = max((hi - T).bit_length(), (T - lo - 1).bit_length())
            if n < k:
                return s.comb(T >> k, [(s.floor(s.comb(-T, [(f, 1)]), n), 1)])
        if hi == lo + 1 and hi >> k != lo >> k:
            return s.comb((lo >> k) - lo, [(f, 1)])
        # low parts that cannot carry
        c, it = s.lins[f]
        if it[0][1] < 0:
            # floor(N / M) = -1 - floor((-N - 1) / M)
            return s.comb(-1, [(s.floor(s.lin(-c - 1, [(m, -q) for m, q in it]), k), -1)])
        val = sorted({(q & -q).bit_length() - 1 for _, q in it})
        for a in reversed(val):
            if a == 0 or a > k:
                continue
            A = 1 << a
            ylo = yhi = 0
            low = []
            for m, q in it:
                if q % A:
                    low.append((m, q))
            if s.over:
                ylo, yhi = s.range(s.lin(0, low))
            else:
                for m, q in low:
                    l, h = s.rng[m]
                    ylo += q * (l if q > 0 else h)
                    yhi += q * (h if q > 0 else l)
            cl = -ylo + ((c + ylo) & (A - 1))       # the least one that is >= -ylo
            if yhi + cl < A:
                return s.floor(s.lin((c - cl) >> a, [(m, q >> a) for m, q in it if q % A == 0]), k - a)
            # 2^a X + Y where X takes floor(Y / 2^a) away again
            cl = c & (A - 1)
            G = s.floor(s.lin(cl, low), a)
            d = dict(it)
            if any(d.get(m, 0) == -q << a for m, q in s.lins[G][1]):
                X = s.lin((c - cl) >> a, [(m, q >> a) for m, q in it if q % A == 0])
                return s.floor(s.comb(0, [(X, 1), (G, 1)]), k - a)
        fl = [(m, q) for m, q in it if s.syms[m][0] == "f" and q in (1, -1)]
        if len(fl) == 1:
            m, q = fl[0]
            _, N, a = s.syms[m]
            X = s.lin(c, [x for x in it if x[0] != m])
            if q == 1:
                return s.floor(s.comb(0, [(X, 1 << a), (N, 1)]), k + a)
            return s.floor(s.comb((1 << a) - 1, [(X, 1 << a), (N, -1)]), k + a)
        if s.over:
            o, s.over = s.over, None
            lo, hi = s.range(f)
            s.over = o
        m = s.sym(("f", f, k), lo >> k, hi >> k)
        return s.lin(0, ((m, 1),))

    def mod(s, f, w):
        r = s.comb(0, [(f, 1), (s.floor(f, w), -(1 << w))])
        s.fact(r, 0, (1 << w) - 1)
        return r

    # ---- between forms and bits
    def symbits(s, m):
        """(bits, offset): symbol = offset + unsigned value of bits"""
        r = s.sbits.get(m)
        if r is None:
            d = s.syms[m]
            lo, hi = s.rng[m]
            if d[0] == "w":
                r = (d[1], 0)
            elif d[0] == "f" and s.lins[d[1]][0] == 0 and len(s.lins[d[1]][1]) == 1 and s.lins[d[1]][1][0][1] == 1 \
                    and s.syms[s.lins[d[1]][1][0][0]][0] == "w":
                r = (s.syms[s.lins[d[1]][1][0][0]][1][d[2]:], 0)
            else:
                off = lo if lo < 0 else 0
                n = (hi - off).bit_length()
                f = s.lin(-off, ((m, 1),))
                # leading bits that the range settles are constants
                bs = tuple(lo >> i & 1 if lo > 0 and lo >> i == hi >> i else s.b.atom(("lin", f, i)) for i in range(n))
                for i, x in enumerate(bs):
                    if x > 1:
                        s.home.setdefault(x, (f, i, n, True))
                r = (bs, off)
            s.sbits[m] = r
        return r

    def product(s, a, e):
        """two atoms whose product is known: its terms, or None"""
        k = (a, e) if a < e else (e, a)
        if k in s.prods:
            return s.prods[k]
        r = None
        for c, f in ((a, e), (e, a)):
            v = s.gated(c, f)
            if v is not None:
                cc, t, g = s.b.forms[v]
                if not g:
                    r = tuple([frozenset()] * cc + [s.b.tset[x] for x in t])
                    break
        else:
            r = s.lexic(a, e) or s.lexic(e, a)
        s.prods[k] = r
        return r

    def threshold(s, a):
        """a form that is >= 0 exactly when the atom is 1, or None"""
        h = s.home.get(s.b.bitof(a))
        if h is None or h[2] != 1:
            return None
        off, it = s.lins[h[0]]
        if len(it) != 1 or it[0][1] != 1 or s.syms[it[0][0]][0] != "f":
            return None
        m = it[0][0]
        if s.rng[m] != (-off, 1 - off):
            return None
        _, N, k = s.syms[m]
        return s.comb(-((1 - off) << k), [(N, 1)])

    def place(s, f):
        """lowest and highest offset of the input words of a form; None when there are others"""
        r = []
        for m, _ in s.lins[f][1]:
            d = s.syms[m]
            if d[0] != "w":
                return None
            x = s.b.forms[d[1][0]]
            if x[0] or x[2] or len(x[1]) != 1:
                return None
            (x,) = x[1]
            x = s.b.tset[x]
            if len(x) != 1:
                return None
            (x,) = x
            x = s.b.desc[x]
            if x[0] != "in":
                return None
            r.append(x[2])
        return (min(r), max(r)) if r else None

    def lexic(s, a, e):
        """[H >= 1] [L >= 0] = [M H + L >= 0] + [H >= 1] + [H >= 0] [L >= 0] (mod 2) for |L| < M:
        comparisons word by word are a comparison of the whole"""
        X, L = s.threshold(a), s.threshold(e)
        if X is None or L is None or s.lins[X][0] != -1:
            return None
        ph, pl = s.place(X), s.place(L)
        if ph is None or pl is None or ph[0] <= pl[1]:
            return None
        H = s.comb(1, [(X, 1)])
        lo, hi = s.range(L)
        M = 1 << max(hi.bit_length(), (-lo - 1).bit_length())
        out = [frozenset((a,))]
        for f, rest in ((H, (e,)), (s.comb(0, [(H, M), (L, 1)]), ())):
            lo, hi = s.range(f)
            K = max(hi.bit_length(), (-lo - 1).bit_length())
            v = s.bit(s.comb(1, [(s.floor(f, K), 1)]))
            c, t, g = s.b.forms[v]
            if g or v < 2:
                return None
            out += [frozenset(rest)] * c + [s.b.tset[x] | frozenset(rest) for x in t]
        return tuple(out)

    def gated(s, c, e):
        """c and e for two bits c, e that are 0/1-valued forms, when the ranges say what it is"""
        hc, he = s.home.get(s.b.bitof(c)), s.home.get(s.b.bitof(e))
        if hc is None or he is None or hc[2] != 1 or he[2] != 1:
            return None
        co, ci = s.lins[hc[0]]
        if len(ci) == 1 and ci[0][1] in (1, -1):
            m, q = ci[0]
            r = []
            for v in (0, 1):
                lo, hi = s.given(he[0], m, (v - co) * q)
                r.append(0 if hi <= 0 else 1 if lo >= 1 else None)
            if r[0] == 0 or r[1] == 1:
                # e only with c; or c only with e
                return s.b.bitof(e) if r[0] == 0 and r[1] != 1 else s.b.bitof(c)
            if r[1] == 0:
                return 0
            if r[0] == 1:
                return s.b.inv(s.b.xor(s.b.bitof(c), s.b.bitof(e)))
        off, it = s.lins[he[0]]
        if len(it) != 1 or it[0][1] not in (1, -1) or s.syms[it[0][0]][0] != "f":
            return None
        m, q = it[0]
        _, N, k = s.syms[m]
        # e = floor((N + d) / 2^k) and floor(N / 2^k) is known: the step d is taken with c only
        for d in (1, -1):
            z = s.comb(-d, [(N, 1)])
            v = s.lins[s.floor(z, k)]
            if not v[1] and off + q * v[0] == 0:
                return s.bit(s.comb(off, [(s.floor(s.comb(0, [(z, 1), (hc[0], d)]), k), q)]))
        # ... or is taken without c only; what e is without the step is 1
        x = s.b.xor
        for d in (1, -1):
            z = s.comb(-d, [(N, 1)])
            v = s.lins[s.floor(z, k)]
            if v[1] or off + q * v[0] not in (0, 1):
                continue
            F = s.bit(s.comb(off, [(s.floor(s.comb(d, [(z, 1), (hc[0], -d)]), k), q)]))
            if off + q * v[0]:
                # (not c) and e = F xor c
                return x(s.b.bitof(e), x(F, s.b.bitof(c)))
            return x(s.b.bitof(e), F)
        return None

    def given(s, f, m, v):
        """bounds of the form when a symbol has this value (also for what it says about the other symbols)"""
        d = s.syms[m]
        c, it = s.lins[f]
        lo = hi = c
        for x, q in it:
            if x == m:
                a = b = v
            else:
                a, b = s.rng[x]
                e = s.syms[x]
                if d[0] == "f" and e[0] == "f":
                    k, K = d[2], e[2]
                    D = s.comb(0, [(e[1], 1), (d[1], -1)])
                    m0, q0 = s.lins[d[1]][1][0]
                    z = dict(s.lins[e[1]][1]).get(m0, 0)
                    if z and z % q0 == 0 and z // q0 > 1:
                        # a multiple of the other form
                        z //= q0
                        dl, dh = s.range(s.comb(0, [(e[1], 1), (d[1], -z)]))
                        nl, nh = s.range(d[1])
                        a = max(a, (z * max(v << k, nl) + dl) >> K)
                        b = min(b, (z * min(((v + 1) << k) - 1, nh) + dh) >> K)
                    dl, dh = s.range(D)
                    a = max(a, ((v << k) + dl) >> K)
                    b = min(b, (((v + 1) << k) - 1 + dh) >> K)
                    xc, xi = s.lins[D]
                    M = 1 << k
                    if k <= K and not any(z % M for _, z in xi):
                        # N = 2^k X + N2 + r: floor(N / 2^K) is that of X + v, or of X + v + 1 when r > 0
                        X = s.lin((xc >> k) + v, [(i, z >> k) for i, z in xi])
                        a = max(a, s.range(s.floor(X, K - k))[0])
                        b = min(b, s.range(s.floor(s.comb(1 if xc % M else 0, [(X, 1)]), K - k))[1])
            lo += q * (a if q > 0 else b)
            hi += q * (b if q > 0 else a)
        return lo, hi

    def bits(s, f, w):
        """the bits of form mod 2^w"""
        r = s.tup.get((f, w))
        if r is not None:
            return r
        if w > s.limb:
            lo = s.bits(f, s.limb)
            hi = s.bits(s.floor(f, s.limb), w - s.limb)
            r = s.zeros(lo, s.limb) + s.zeros(hi, w - s.limb)
            s.tup[f, w] = r
            return r
        M = 1 << w
        c, it = s.lins[f]
        items = []
        const = c
        for m, q in it:
            q %= M
            if not q:
                continue
            t, off = s.symbits(m)
            const += q * off
            items.append((t, q, m))
        const %= M
        r = s.simple(const, items, w)
        if r is None:
            lo, hi = s.range(f)
            if (hi > 255 or lo < 0) and len(items) <= 3 and all(len(t) == 1 for t, _, _ in items):
                # few alternatives: each bit from them
                r = s.table(const, [(t[0], q) for t, q, _ in items], w)
                s.dec.setdefault(r, f if lo >= 0 and hi < M else s.mod(f, w))
                s.tup[f, w] = r
                return r
            n = min(w, hi.bit_length()) if lo >= 0 else w
            out = []
            for i in range(n):
                if 0 < lo and hi < M and lo >> i == hi >> i:
                    out.append(lo >> i & 1)         # settled by the range
                    continue
                k = 8
                while k <= i:
                    k *= 2
                g = s.reduced(f, min(k, max(w, 8)))
                out.append(s.b.atom(("lin", g, i)))
            r = tuple(out) + (0,) * (w - n)
            v = f if n < w else s.mod(f, w)
            for i, x in enumerate(out):
                if x > 1:
                    s.home.setdefault(x, (v, i, n, True))
            s.dec.setdefault(r, v)
            s.fact(v, 0, (1 << n) - 1)
        s.tup[f, w] = r
        return r

    def table(s, const, items, w):
        b = s.b
        terms = [(1, const)]
        for x, q in items:
            terms = [(b.and_(m, y), v + d) for m, v in terms for y, d in ((x, q), (b.inv(x), 0))]
        out = []
        for i in range(w):
            r = 0
            for m, v in terms:
                if (v >> i) & 1:
                    r = b.xor(r, m)
            out.append(r)
        return tuple(out)

    def reduced(s, f, k):
        M = 1 << k
        c, it = s.lins[f]
        return s.lin(c % M, [(m, q % M) for m, q in it])

    def simple(s, const, items, w):
        M = 1 << w
        b = s.b
        if not items:
            return b.const(const, w)
        ub = {x for t, _, _ in items for x in t if x > 1}
        if len(ub) == 1 and all(x == 0 or x in ub for t, _, _ in items for x in t):
            u = ub.pop()
            v = [const, const]
            for t, q, _ in items:
                v[1] += q * sum(1 << i for i, x in enumerate(t) if x)
            r = []
            for i in range(w):
                p, q = (v[0] >> i) & 1, (v[1] >> i) & 1
                r.append(p if p == q else u if q else b.inv(u))
            return tuple(r)
        parts = []
        for t, q, _ in items:
            if q & (q - 1) == 0:
                k = q.bit_length() - 1
                parts.append((0,) * k + t)
            elif (M - q) & (M - q - 1) == 0:
                k = (M - q).bit_length() - 1
                const -= ((1 << len(t)) - 1) << k
                parts.append((0,) * k + tuple(b.inv(x) for x in t))
            else:
                return None
        const %= M
        r = [(const >> i) & 1 for i in range(w)]
        for t in parts:
            for i, x in enumerate(t[:w]):
                if x == 0:
                    continue
                if r[i]:
                    return None
                r[i] = x
        return tuple(r)

    def word(s, t):
        """a base symbol for a stretch of bits"""
        m = s.sym(("w", t), 0, (1 << len(t)) - 1)
        f = s.lin(0, ((m, 1),))
        for i, x in enumerate(t):
            s.home.setdefault(x, (f, i, len(t), True))
        return f

    def slice(s, h, i, j):
        f, _, n, exact = h
        hi = s.floor(f, j) if not (exact and j >= n) else s.const(0)
        return s.comb(0, [(s.floor(f, i), 1), (hi, -(1 << (j - i)))])

    def form(s, t):
        """the form of an unsigned word"""
        n = len(t)
        while n and t[n - 1] == 0:
            n -= 1
        if n < len(t):
            t = t[:n]
        r = s.dec.get(t)
        if r is not None:
            return r
        b = s.b
        const = 0
        parts = []
        ones = {}           # single bits
        i = 0
        cons = lambda x: b.forms[x][0]
        while i < n:
            x = t[i]
            if x < 2:
                const += x << i
                i += 1
                continue
            neg = cons(x) and b.inv(x) in s.home
            y = b.inv(x) if neg else x
            h = s.home.get(y)
            if h is not None:
                j = i + 1
                while j < n and t[j] > 1:
                    z = b.inv(t[j]) if neg else t[j]
                    g = s.home.get(z)
                    if g is None or g[0] != h[0] or g[1] != h[1] + j - i or g[2] != h[2]:
                        break
                    j += 1
                if j == i + 1 and h[2] == 1:
                    ones[y, h] = ones.get((y, h), 0) + ((-1 if neg else 1) << i)
                    const += neg << i
                else:
                    f = s.slice(h, h[1], h[1] + j - i)
                    if neg:
                        const += ((1 << (j - i)) - 1) << i
                    parts.append((f, (-1 if neg else 1) << i))
                i = j
                continue
            # no home: the longest stretch of the like
            j = i + 1
            while j < n and t[j] > 1 and t[j] not in s.home and not (cons(t[j]) and b.inv(t[j]) in s.home):
                j += 1
            st = t[i:j]
            u = {b.inv(z) if cons(z) else z for z in st}
            if len(u) <= 2 or len(st) < 8:
                # few different bits: each stands for itself
                for k, z in enumerate(st):
                    y, ng = (b.inv(z), 1) if cons(z) else (z, 0)
                    if y not in s.home:
                        s.word((y,))
                    h = s.home[y]
                    ones[y, h] = ones.get((y, h), 0) + ((-1 if ng else 1) << (i + k))
                    const += ng << (i + k)
            elif len(set(st)) == len(st):
                parts.append((s.word(st), 1 << i))
            else:
                m = s.sym(("w", st), 0, (1 << len(st)) - 1)
                parts.append((s.lin(0, ((m, 1),)), 1 << i))
            i = j
        for (y, h), q in ones.items():
            parts.append((s.slice(h, h[1], h[1] + 1), q))
        r = s.comb(const, parts)
        s.dec[t] = r
        s.fact(r, 0, (1 << n) - 1)
        s.tup.setdefault((r, n), t)
        return r

    # ---- operations
    def sum(s, w, const, adds):
        """bits of const + sum of coefficient * word, mod 2^w; small coefficients are taken as signed"""
        M = 1 << w
        ps = []
        for t, c in adds:
            c %= M
            if c > M >> 1:
                c -= M
            ps.append((s.form(t), c))
        return s.zeros(s.bits(s.comb(const, ps), w), w)

    @staticmethod
    def zeros(t, w):
        return t + (0,) * (w - len(t)) if len(t) < w else t[:w]

    def mul(s, w, x, y):
        fx, fy = s.form(x), s.form(y)
        for a, c in ((fx, fy), (fy, fx)):
            k, it = s.lins[a]
            if not it:
                return s.zeros(s.bits(s.comb(0, [(c, k)]), w), w)
        top = lambda t: sum(1 << i for i, q in enumerate(t) if q)
        bot = lambda t: sum(1 << i for i, q in enumerate(t) if q == 1)
        m = s.sym(("p",) + tuple(sorted((fx, fy))), bot(x) * bot(y), top(x) * top(y))
        return s.zeros(s.bits(s.lin(0, ((m, 1),)), w), w)

    def ult(s, x, y):
        w = len(x)
        D = s.comb(0, [(s.form(x), 1), (s.form(y), -1)])
        B = s.comb(0, [(s.floor(D, w), -1)])
        return s.bit(B)

    def bit(s, B):
        """the bit of a form that is 0 or 1"""
        s.fact(B, 0, 1)
        c, it = s.lins[B]
        if not it:
            return c & 1
        if len(it) == 1:
            t, off = s.symbits(it[0][0])
            if len(t) == 1 and abs(it[0][1]) == 1:
                v = c + it[0][1] * off
                return t[0] if not v & 1 else s.b.inv(t[0])
        key = (B, "bit")
        r = s.tup.get(key)
        if r is None:
            r = s.tup[key] = s.b.atom(("lin", B, 0))
            s.home.setdefault(r, (B, 0, 1, True))
        return r

    def deepbit(s, x):
        """a bit of a sum or of a product"""
        h = s.home.get(s.b.inv(x) if s.b.forms[x][0] else x)
        return h is not None and s.deep(h[0])

    def deepword(s, t):
        return any(x > 1 and s.deepbit(x) for x in t)

    def mux(s, c, x, y, full=True):
        """word c ? x : y, or None when only the bits can tell"""
        fx, fy = s.form(x), s.form(y)
        fc = s.form((c,))
        w = len(x)
        M = 1 << w
        k, it = s.lins[s.comb(0, [(fx, 1), (fy, -1)])]
        if all(q % M == 0 for _, q in it):
            k %= M
            if k >> (w - 1):
                k -= M
            f = s.comb(0, [(fy, 1), (fc, k)])
        else:
            f = s.same(c, w, fx, fy)
            if f is None:
                j = [(m, q) for m, q in it if q % M]
                if len(j) == 1 and s.rng[j[0][0]] == (0, 1):
                    # x = y + k + q e (mod 2^w) with a two-valued e
                    m, q = j[0]
                    k %= M
                    if k >> (w - 1):
                        k -= M
                    z = s.bit(s.lin(0, ((m, 1),)))
                    if (k + q) % M == 0:
                        z, k, q = s.b.inv(z), 0, k
                    g = s.b.and_(c, z)
                    if g < 2 or s.deepbit(g):
                        f = s.comb(0, [(fy, 1), (fc, k), (s.form((g,)), q)])
            if f is None and full:
                f = s.muxf(fc, fx, fy, 0)
        if f is None:
            return None
        return s.zeros(s.bits(f, w), w)

    def part(s, it):
        """the range of the part of a form an assumption is about, and the rest"""
        oi, lo, hi = s.over
        d = dict(it)
        m0, q0 = oi[0]
        t = d.get(m0, 0)
        if not t or t % q0:
            return None
        t //= q0
        for m, q in oi:
            if d.get(m) != t * q:
                return None
        om = {m for m, _ in oi}
        return min(t * lo, t * hi), max(t * lo, t * hi), [x for x in it if x[0] not in om]

    def assume(s, c, v):
        """what the value of a bit says: (items, lo, hi)"""
        cc, t, g = s.b.forms[c]
        if g or len(t) != 1:
            return None
        (z,) = t
        z = s.b.tset[z]
        if len(z) != 1:
            return None
        (a,) = z
        h = s.home.get(s.b.bitof(a))
        if h is None or h[2] != 1:
            return None
        off, it = s.lins[h[0]]
        if len(it) != 1 or it[0][1] not in (1, -1):
            return None
        m, q = it[0]
        if s.syms[m][0] != "f":
            return None
        y = ((v ^ cc) - off) * q
        _, N, k = s.syms[m]
        lo, hi = s.range(N)
        lo, hi = max(lo, y << k), min(hi, ((y + 1) << k) - 1)
        n, ni = s.lins[N]
        return (ni, lo - n, hi - n) if lo <= hi else None

    def under(s, f, seen):
        """a form under the assumption s.over"""
        r = seen.get(f)
        if r is None:
            c, it = s.lins[f]
            parts = []
            for m, q in it:
                d = s.syms[m]
                g = s.lin(0, ((m, 1),))
                if d[0] == "f":
                    g = s.floor(s.under(d[1], seen), d[2])
                parts.append((g, q))
            r = seen[f] = s.comb(c, parts)
        return r

    def same(s, c, w, fx, fy):
        """the words are equal when c is 1 (the result is y), or when c is 0 (x)"""
        M = 1 << w
        for v, r in ((1, fy), (0, fx)):
            o = s.assume(c, v)
            if o is None:
                continue
            s.over, s.umemo = o, {}
            try:
                D = s.comb(0, [(s.under(fx, {}), 1), (s.under(fy, {}), -1)])
                k, it = s.lins[D]
                D = s.lin(k, [(m, q) for m, q in it if q % M])
                lo, hi = s.range(D)
            finally:
                s.over = None
            if lo == hi and lo % M == 0:
                return r
        return None

    def deep(s, f):
        """more than a word of the input"""
        return any(s.syms[m][0] != "w" for m, _ in s.lins[f][1])

    def muxf(s, fc, fx, fy, depth):
        D = s.comb(0, [(fx, 1), (fy, -1)])
        k, it = s.lins[D]
        if not it:
            return s.comb(0, [(fy, 1), (fc, k)])
        if depth > 3 or len(it) > 4:
            return None
        pos = [(m, q) for m, q in it if q > 0]
        neg = [(m, -q) for m, q in it if q < 0]
        if len(pos) != len(neg):
            return None
        parts = [(fy, 1), (fc, k)]
        for m, q in pos:
            dm = s.syms[m]
            if dm[0] != "f":
                return None
            for e in neg:
                dn = s.syms[e[0]]
                if dn[0] == "f" and dn[2] == dm[2] and e[1] == q:
                    # q (c ? m - e : 0) = q ((c ? m : e) - e) = -q ((c ? e : m) - m)
                    if dict(s.lins[fy][1]).get(m, 0) < 0:
                        g = s.muxf(fc, dn[1], dm[1], depth + 1)
                        r, z = -q, m
                    else:
                        g = s.muxf(fc, dm[1], dn[1], depth + 1)
                        r, z = q, e[0]
                    if g is not None:
                        neg.remove(e)
                        parts += [(s.floor(g, dm[2]), r), (s.lin(0, ((z, 1),)), -r)]
                        break
            else:
                return None
        return s.comb(0, parts)

    # ---- values
    def need(s, f, seen):
        """bits a form depends on"""
        if f in seen:
            return set()
        seen.add(f)
        out = set()
        for m, _ in s.lins[f][1]:
            d = s.syms[m]
            if d[0] == "w":
                out.update(x for x in d[1] if x > 1)
            elif d[0] == "f":
                out |= s.need(d[1], seen)
            else:
                out |= s.need(d[1], seen) | s.need(d[2], seen)
        return out

    def value(s, f, bit, memo):
        r = memo.get(f)
        if r is None:
            c, it = s.lins[f]
            r = c
            for m, q in it:
                d = s.syms[m]
                if d[0] == "w":
                    v = sum(bit(x) << i for i, x in enumerate(d[1]))
                elif d[0] == "f":
                    v = s.value(d[1], bit, memo) >> d[2]
                else:
                    v = s.value(d[1], bit, memo) * s.value(d[2], bit, memo)
                r += q * v
            memo[f] = r
        return r

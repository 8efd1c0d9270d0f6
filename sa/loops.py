"""Dominators and natural loops."""


def dominators(f):
    """block -> immediate dominator (entry maps to None)"""
    order = []
    seen = set()

    def dfs(b):
        st = [(b, iter(b.succs))]
        seen.add(b)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(y.succs)))
                    break
            else:
                order.append(x)
                st.pop()
    dfs(f.blocks[0])
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in b.preds if p in idom]
            n = ps[0]
            for p in ps[1:]:
                a, c = p, n
                while a is not c:
                    while num[a] > num[c]:
                        a = idom[a]
                    while num[c] > num[a]:
                        c = idom[c]
                n = a
            if idom.get(b) is not n:
                idom[b] = n
                ch = True
    r = dict(idom)
    r[rpo[0]] = None
    return r


def dominates(idom, a, b):
    while b is not None:
        if a is b:
            return True
        b = idom.get(b)
    return False


def natural_loops(f):
    """[(header, set(blocks))] merged per header"""
    idom = dominators(f)
    loops = {}
    for b in idom:
        for h in b.succs:
            if dominates(idom, h, b):
                body = loops.setdefault(h, {h})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(p for p in x.preds if p in idom)
    return list(loops.items())

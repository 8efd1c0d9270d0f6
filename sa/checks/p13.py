"""Message digests compute the published functions."""
from .. import jobs

NAMES = ["MD2", "MD4", "MD5", "SHA1", "SHA224", "SHA256", "SHA384", "SHA512", "SHA512_224", "SHA512_256", "HAS160"]
LEN = [16, 16, 16, 20, 28, 32, 48, 64, 28, 32, 20]
OWN = ("SHA256", "SHA512")


def blocklen(a):
    return 16 if a == "MD2" else 128 if a.startswith(("SHA384", "SHA512")) else 64


def percost(a):
    return 3.2 if a == "MD2" else 3.0 if blocklen(a) == 128 else 0.9 if a.startswith("SHA2") else 0.4


def digest(variant, a, way, l1, l2=0, l3=0, junk=0, finish=0, cpuid=-1):
    k = NAMES.index(a)
    n = l1 + max(l2, 0) + l3
    bl = blocklen(a)
    blocks = (n + 1 + bl // 8) // bl + 1 + (junk // bl + 1 if way == 3 else 0)
    w = ["new object", "caller's object", "single call", "object used before", "caller's object, own entry points"][way]
    return jobs.Job("%s of %d bytes (%s, pieces %d+%d+%d%s), %s build%s" % (
        a, n, w, l1, l2, l3, ", after %d other bytes" % junk if way == 3 else "", variant, " without the processor's instructions" if cpuid == 0 else ""),
        variant, "digest.c", "lib_digest", "ref_digest_", dict(alg=k, way=way, l1=l1, l2=l2, l3=l3, junk=junk, finish=finish),
        {"msg": ("in", max(n, 1)), "old": ("in", max(junk, 1)), "out": ("out", LEN[k])}, cpuid=cpuid, cut=16 if a == "MD2" else None,
        cost=0.3 + percost(a) * blocks * (2 if n > bl else 1), mem=0.6 + 0.25 * blocks, group="%s/%s/%s" % (a, w, variant))


def run(c):
    c.rule("Global value numbering of the library's digest interface (object creation, data, end of message, destruction; all callees, "
           "tables, compression functions and SHA inline assembly included) against a statement of the published algorithm, message bytes "
           "unknown, message length fixed per configuration. Equal value numbers of every output bit prove equality for all messages of that "
           "length. Lengths cover every case of the padding rule.")
    js = []
    for a in NAMES:
        bl = blocklen(a)
        p = bl - bl // 8
        if c.thorough:
            ls = list(range(0, 2 * bl + 2 + (bl if bl < 128 else 0)))
        elif a == "MD2":
            ls = [0, 1, 15, 16, 17, 32]
        else:
            ls = [0, 1, 3, p - 2, p - 1, p, p + 1, bl - 1, bl, bl + 1, bl + p - 1, bl + p, 2 * bl]
        vs = ["noasm", "nounroll"] + (["default"] if a in ("SHA1", "SHA224", "SHA256") else [])
        for v in vs:
            for n in ls if v == "noasm" or not c.thorough else ls[::3] + [p - 1, p, bl - 1, bl]:
                if v == "nounroll" and not c.thorough and n not in (1, p, bl, 2 * bl):
                    continue
                js.append(digest(v, a, 0, n))
        js.append(digest("default", a, 0, 5, cpuid=0))
        if a not in ("SHA224", "SHA384", "SHA512_224", "SHA512_256"):
            js += [digest("noasm", a, 2, n) for n in (0, 7, p)]
        if a in OWN:
            js += [digest("noasm", a, 4, n) for n in (0, 7, p)]
    jobs.report(c, jobs.run(js, 800 if c.thorough else 600))
    c.need("configurations", 50)

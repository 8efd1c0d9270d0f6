"""Block ciphers compute the published functions."""
from .. import jobs

ALG = dict(AES=0, DES=1, SEED=2, ARIA=3, BLOWFISH=4)
DESK = dict(alg=5)          # the published DES with the entry of the known finding
KNOWN = ("des-s1-entry-63", "DES with entry 63 of the first S-box (row 3, column 15) 0 instead of 13; otherwise the published cipher")
KEYS = dict(AES=(16, 24, 32), DES=(8, 16, 24), SEED=(16,), ARIA=(16, 24, 32))
COST = dict(AES=12, DES=6, SEED=2, ARIA=10, BLOWFISH=200)


def block(variant, alg, dec, kl, cpuid=-1):
    bl = 8 if alg in ("DES", "BLOWFISH") else 16
    return jobs.Job("%s, %d-byte key, %s, %s build%s" % (alg, kl, "decryption" if dec else "encryption", variant,
                                                        " without the processor's instructions" if cpuid == 0 else ""),
                    variant, "cipher.c", "lib_block", "ref_block", dict(alg=ALG[alg], dec=dec, keylen=kl),
                    {"key": ("in", kl), "in": ("in", bl), "out": ("out", bl)}, cpuid=cpuid,
                    alt=DESK if alg == "DES" else None, altkey=KNOWN,
                    cut=12 if alg == "BLOWFISH" else None, cost=COST[alg] * (kl / 16 if alg != "BLOWFISH" else 1),
                    mem=9 if alg == "BLOWFISH" else 2.0 if alg == "AES" else 1.2, group="%s/%d/%s/%s" % (alg, kl, "dec" if dec else "enc", variant))


def both(variant, alg, kl):
    bl = 8 if alg in ("DES", "BLOWFISH") else 16
    return jobs.Job("%s, %d-byte key, both directions with one object, %s build" % (alg, kl, variant), variant, "cipher.c", "lib_both", "ref_both",
                    dict(alg=ALG[alg], keylen=kl), {"key": ("in", kl), "in": ("in", bl), "out": ("out", bl), "back": ("out", bl)},
                    alt=DESK if alg == "DES" else None, altkey=KNOWN, cost=COST[alg] * 3, mem=2.5, group="%s/%d/both/%s" % (alg, kl, variant))


def run(c):
    c.rule("Translation validation by global value numbering: the IR of the library's public interface (creation, one block, "
           "destruction; callees, tables and inline assembly included) and the IR of a statement of the published algorithm are "
           "abstractly interpreted over canonical value numbers of bits (affine forms over products and table functions, n-ary sums "
           "modulo 2^w, array states); key and data bytes are unknown. Every output bit must get the same value number, which "
           "proves the two equal for all keys and blocks.")
    js = []
    for alg, ks in KEYS.items():
        for kl in ks:
            for dec in (0, 1):
                js.append(block("noasm", alg, dec, kl))
                if alg == "AES":
                    js.append(block("default", alg, dec, kl))
                    js.append(block("mintable", alg, dec, kl))
    js += [block("default", "AES", dec, 16, 0) for dec in (0, 1)]
    js += [block("noasm", "BLOWFISH", dec, kl) for dec, kl in ((0, 16), (1, 56), (1, 3))]
    js += [both("noasm", "SEED", 16), both("noasm", "DES", 8), both("noasm", "ARIA", 16), both("default", "AES", 16)]
    if c.thorough:
        for kl in (4, 5, 7, 71, 72):
            js.append(block("noasm", "BLOWFISH", kl & 1, kl))
        js += [both("noasm", "AES", 32), both("noasm", "DES", 24), both("mintable", "AES", 24), both("noasm", "ARIA", 32)]
        for alg, ks in KEYS.items():
            if alg != "AES":
                js += [block("default", alg, dec, kl) for kl in ks for dec in (0, 1)]
        for kl in (24, 32):
            js += [block("default", "AES", dec, kl, 0) for dec in (0, 1)]
    jobs.report(c, jobs.run(js, 720 if c.thorough else 650, per=560))
    c.need("configurations", 20)

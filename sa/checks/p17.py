"""Removing PKCS#7 padding."""
from .. import jobs
from .p08 import ALG


def unpad(alg, kl, blocks, prev, p, bad=None):
    """last block ends in p (bytes before as they must be); bad: distance from the end of one byte that is not p"""
    bl = 8 if alg in ("DES", "BLOWFISH") else 16
    self = int(bl == 8)                         # the library's own block function: P08 is about that
    plain = {bl - 1: p}
    for i in range(2, min(p, bl) + 1):
        plain[bl - i] = p
    if bad:
        plain[bl - bad] = (p ^ 0x41) & 255
    ok = 1 <= p <= bl and not (bad and bad <= p)
    n = bl * blocks - (p if ok else 0)
    return jobs.Job("%s, %d blocks (%d bytes before the last call), last byte %d%s" % (alg, blocks, prev, p, ", byte %d from the end differs" % bad if bad else ""),
                    "noasm" if alg != "AES" else "default", "cipher.c", "lib_unpad", "ref_unpad", dict(alg=ALG[alg], self=self, keylen=kl, blocks=blocks, prev=prev),
                    {"key": ("in", kl, {i: 17 * i + 3 & 255 for i in range(kl)} if alg == "BLOWFISH" else {}), "in": ("in", bl * (blocks + 1)), "plain": ("in", bl, plain), "out": ("out", bl * blocks)},
                    cost=(0.7 if alg == "SEED" else 1.0 if alg == "DES" else 6) * (blocks + 1), mem=1 + 0.3 * blocks, group="%s/%s" % (alg, "valid" if ok else "invalid"),
                    what={"out": n})


def run(c):
    c.rule("Global value numbering of decryption with PKCS#7 padding; the vector is chosen as a function of the unknown key and data so that the last "
           "plaintext block ends in given byte values (unknown bytes elsewhere). For each last byte and each single deviation inside the padding, "
           "the reported length must be the input length less the padding if it is well-formed, and the input length otherwise, and every reported byte must be the published plaintext.")
    js = []
    for alg, kl in (("SEED", 16), ("DES", 8)):
        bl = 8 if alg == "DES" else 16
        vals = range(256) if c.thorough else list(range(0, bl + 3)) + [24, 32, 127, 128, 129, 240, 254, 255]
        for p in vals:
            js.append(unpad(alg, kl, 1, 0, p))
        for p in range(2, bl + 1):
            for bad in range(2, p + 1) if c.thorough else sorted({2, p, (p + 2) // 2}):
                js.append(unpad(alg, kl, 1, 0, p, bad))
        for p in (0, 1, 3, bl - 1, bl, bl + 1, 200):
            js.append(unpad(alg, kl, 2, 0, p))
            js.append(unpad(alg, kl, 2, bl, p))
            js.append(unpad(alg, kl, 2, 5, p))
            js.append(unpad(alg, kl, 3, bl + 3, p))
        js += [unpad(alg, kl, 2, bl, bl, bl), unpad(alg, kl, 2, bl - 1, 4, 3), unpad(alg, kl, 1, 0, 3, 4)]
    js += [unpad("AES", 16, 2, 5, 4), unpad("ARIA", 16, 1, 0, 16)]
    for p in (1, 3, 8, 9, 0, 255):
        js += [unpad("BLOWFISH", 16, 1, 0, p), unpad("BLOWFISH", 16, 2, 8, p)]
    js += [unpad("BLOWFISH", 16, 1, 0, 5, 3), unpad("BLOWFISH", 16, 2, 5, 8, 8)]
    jobs.report(c, jobs.run(js, 800 if c.thorough else 500))
    c.need("configurations", 50)

"""RC4."""
from .. import jobs


def rc4(kl, dec, l1, l2, l3, way=0, variant="noasm"):
    n = l1 + l2 + l3
    return jobs.Job("%d-byte key, pieces %d+%d+%d, %s%s" % (kl, l1, l2, l3, "decryption" if dec else "encryption",
                                                          ("", ", in place", ", caller's object used before")[way]),
                    variant, "cipher.c", "lib_rc4", "ref_rc4s", dict(keylen=kl, dec=dec, way=way, l1=l1, l2=l2, l3=l3),
                    {"key": ("in", max(kl, 1)), "in": ("in", max(n, 1)), "out": ("out", max(n, 1))}, cost=0.5 + n / 300, group="%d" % kl)


def run(c):
    c.rule("Global value numbering with array states: the 256-byte permutation is tracked as a chain of exchanges at unknown places. Key and "
           "data bytes are unknown; every output byte must have the value number of the published cipher's, for each key length and split.")
    js = []
    ks = range(1, 257) if c.thorough else [1, 2, 3, 5, 7, 13, 16, 24, 32, 64, 100, 128, 255, 256]
    for k in ks:
        js.append(rc4(k, k & 1, 3, 0, 5))
    for a, b, d in ((0, 0, 1), (1, 1, 1), (255, 1, 1), (256, 0, 3), (100, 200, 300), (0, 5, 0)):
        for way in range(3):
            js.append(rc4(16, way & 1, a, b, d, way))
    js.append(rc4(16, 0, 600 if not c.thorough else 1500, 1, 0))
    jobs.report(c, jobs.run(js, 600))
    c.need("configurations", 20)

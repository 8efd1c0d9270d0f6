"""A digest does not depend on how the message arrives, nor on what the object did before."""
from .. import jobs
from .p13 import NAMES, OWN, blocklen, digest, percost


def run(c):
    c.rule("Global value numbering of sequences of update calls: for each split of a message of unknown bytes into pieces of fixed "
           "lengths, and for objects that were used before, every output bit must have the value number of the published digest of the "
           "whole message. Splits cover every relation between the bytes already held, the piece and the block size.")
    js = []
    for a in NAMES:
        B = blocklen(a)
        heavy = percost(a) > 2
        v = "default" if a in ("SHA1", "SHA256") else "noasm"
        # first piece leaves f bytes pending; the second ends before, at and after each block boundary; the third follows on
        if a == "MD2":
            fs = list(range(16)) if c.thorough else [1, 8, 15]
        elif c.thorough:
            fs = list(range(0, B, 8 if heavy else 1)) + [1, B - 9, B - 8, B - 1]
        else:
            fs = [1, B - 9, B - 1]
        for n, f in enumerate(fs):
            seconds = [B - f, B - f - 1, B - f + 1, 2 * B - f] + ([0, 1, 2 * B - f + 1] if c.thorough else [])
            if heavy and not c.thorough:
                seconds = [B - f, B - f - 1] if n else [B - f, B - f + 1, 2 * B - f]
            for k, s in enumerate(seconds):
                if s < 0:
                    continue
                js.append(digest(v, a, (0, 1)[(n + k) & 1], f, s, (0, 3)[k & 1]))
        js.append(digest(v, a, 0, 0, 0, 0))
        js.append(digest(v, a, 0, B, 0, 0))
        js.append(digest(v, a, 1, 0, -1, 0))
        js.append(digest(v, a, 1, 0, 3, 0))
        # an object used before, finished or abandoned
        for junk, fin in ((5, 1), (5, 0), (B - 1, 1), (B + 3, 0)):
            if heavy and not c.thorough and junk > 5:
                continue
            js.append(digest(v, a, 3, 3, 4, 0, junk, fin))
        if a in OWN:
            js.append(digest(v, a, 4, 3, B - 3, 5))
        # same through the portable code of the same build
        if v == "default":
            js.append(digest(v, a, 0, 9, B - 9, 4, cpuid=0))
    jobs.report(c, jobs.run(js, 800 if c.thorough else 600))
    c.need("configurations", 50)

"""Modes of operation over messages that arrive in pieces."""
from .. import jobs
from .p08 import ALG, DESK

MODES = ("ECB", "CBC", "CFB", "OFB")
PADS = ("no padding", "zero padding", "PKCS#7 padding")
COST = dict(AES=7, DES=2, SEED=1.2, ARIA=4, BLOWFISH=180)


def session(alg, kl, mode, dec, pad, l1, l2, l3, set=1, inplace=0, again=0, own=0, variant=None):
    bl = 8 if alg in ("DES", "BLOWFISH") else 16
    p = [max(x, 0) for x in (l1, l2, l3)]
    n = sum(p)
    full = n // bl * bl
    res = full + (bl if not dec and (pad == 2 or (pad == 1 and n > full)) else 0)
    cap = max(res, (n + bl - 1) // bl * bl, bl)
    name = "%s/%d %s %s, %s, pieces %s%s%s%s%s" % (
        alg, kl, MODES[mode], "decryption" if dec else "encryption", PADS[pad], "+".join(map(str, p)), "" if set else ", vector never set",
        ", in place" if inplace else "", ("", ", after a finished message", ", after an abandoned message")[again],
        ("", ", caller's object", ", caller's object set up before for another mode")[own])
    return jobs.Job(name, variant or ("default" if alg == "AES" else "noasm"), "cipher.c", "lib_session", "ref_session",
                    dict(alg=ALG[alg], keylen=kl, mode=mode, dec=dec, pad=pad, l1=l1 & 0xffffffff, l2=l2 & 0xffffffff, l3=l3, set=set, inplace=inplace,
                         again=again, own=own),
                    {"key": ("in", kl), "iv": ("in", bl), "in": ("in", max(n, 1)), "junk": ("in", 32), "out": ("out", cap), "ivout": ("out", bl),
                     "lens": ("out", 12)},
                    alt=DESK if alg == "DES" else None, cut=12 if alg == "BLOWFISH" else None, cost=COST[alg] * (1 + n // bl if alg != "BLOWFISH" else 1.2) * (kl / 16 + .3),
                    mem=11 if alg == "BLOWFISH" else 1 + (0.5 if alg == "AES" else 0.25) * (n // bl), group="%s/%s/%s" % (alg, MODES[mode], "dec" if dec else "enc"),
                    what={"out": res})


def run(c):
    c.rule("Global value numbering of whole sessions through each cipher's public interface (object creation, vector, pieces of fixed "
           "lengths, end of message, reading the vector back) against the published mode over the published cipher, all data unknown: the "
           "number of bytes each call returns, every output byte and the final vector must have equal value numbers. Piece lengths cover every "
           "relation between pending bytes, piece and block size.")
    js = []
    for alg, kl in (("SEED", 16), ("DES", 8)):
        bl = 8 if alg == "DES" else 16
        for mode in range(4):
            for dec in (0, 1):
                shapes = [(-1, -1, 2 * bl), (bl, bl, bl), (5, bl - 5, bl + 3), (bl - 1, 1, 0), (3, 2, bl), (bl + 3, bl, bl - 2), (1, 2 * bl - 1, bl)]
                if c.thorough:
                    shapes += [(f, s, t) for f in range(1, bl) for s in (bl - f - 1, bl - f, bl - f + 1, 2 * bl - f) for t in (0, bl - 1)
                               if (f + s + t) % 3 == 0 or f in (1, bl - 1)]
                for k, sh in enumerate(shapes):
                    js.append(session(alg, kl, mode, dec, 0 if dec else k % 3, *sh))
                js.append(session(alg, kl, mode, dec, 0, -1, -1, 2 * bl, set=0))
                js.append(session(alg, kl, mode, dec, 0, bl, bl, bl, inplace=1))
                js.append(session(alg, kl, mode, dec, 0, 5, bl - 5, bl, again=1))
                js.append(session(alg, kl, mode, dec, 0, 5, bl - 5, bl, again=2))
                js.append(session(alg, kl, mode, dec, 0, 5, bl - 5, bl, own=1 + dec))
                js.append(session(alg, kl, mode, dec, 0, 0, 0, bl + 1, own=2 - dec))
        for pad in range(3):
            for n in (0, 1, bl - 1, bl, bl + 1) if not c.thorough else range(0, 2 * bl + 2):
                js.append(session(alg, kl, 1, 0, pad, -1, -1, n))
        js.append(session(alg, kl, 1, 1, 1, 3, bl, bl - 3))
    for mode in range(4):
        for dec in (0, 1):
            js.append(session("AES", 16, mode, dec, 0 if dec else 2, 7, 16, 9))
            js.append(session("ARIA", 16, mode, dec, 0 if dec else 2, 7, 16, 9))
    for alg in ("AES", "ARIA"):
        for kl in (24, 32):
            js.append(session(alg, kl, 1, 0, 1, 3, -1, 14, own=1))
            js.append(session(alg, kl, 1, 1, 0, 16, -1, 16, own=1))
        js.append(session(alg, 16, 2, 1, 0, 32, -1, 0, inplace=1, again=1))
    for kl in (16, 24):
        js.append(session("DES", kl, 1, 0, 2, 3, -1, 14, own=1))
        js.append(session("DES", kl, 1, 1, 0, 8, -1, 8, own=1))
    js.append(session("BLOWFISH", 9, 1, 0, 2, 3, 8, 2, own=1))
    if c.thorough:
        for m in range(4):
            js.append(session("BLOWFISH", 16, m, 1, 0, 3, 8, 5))
    jobs.report(c, jobs.run(js, 820 if c.thorough else 650, per=600))
    c.need("configurations", 50)

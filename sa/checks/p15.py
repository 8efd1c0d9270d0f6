"""The length recorded at the end of a long message."""
from .. import jobs

ALG = dict(MD4=1, MD5=2, SHA1=3, SHA256=5, SHA512=7, HAS160=10)


def run(c):
    c.rule("Global value numbering from a digest object in the state it has after a given number of bytes (fixed per configuration, up to and "
           "past 2^29, 2^31, 2^32, 2^61 and 2^64), with unknown chaining value and unknown pending bytes: more unknown data and the end of the message must give "
           "the published result, whose last block holds the total length in bits modulo 2^64 (2^128 for SHA-384/512).")
    js = []
    M = 1 << 32

    def s32(v):
        v %= M
        return v - M if v >= M >> 1 else v
    for a, k in ALG.items():
        B = 128 if a == "SHA512" else 64
        st = {"MD4": 16, "MD5": 16, "SHA1": 20, "HAS160": 20, "SHA256": 32, "SHA512": 64}[a]
        pts = []
        for hi in (0, 1, 0x12345678, 0x1fffffff, 0x20000000, 0xffffffff):
            for lo, n in ((0, 0), (0, 5), (M - B, B), (M - B, B - 1), (M - 1, 1), (M - 1, 0), (M - 1, 2), (M - 5, B), (M - B + 3, B - 4),
                          ((1 << 29) - 1, 1), (1 << 29, 3), ((1 << 31) - 1, 1), (1 << 31, B), (0x89abcde3, 17), (M - 3 * B, 3 * B + 1)):
                pts.append((hi, lo, n))
        if not c.thorough:
            pts = [p for i, p in enumerate(pts) if i % 4 == 0 or p[1] in (M - 1, M - B)][:26]
        v = "default" if a in ("SHA1", "SHA256") else "noasm"
        for hi, lo, n in pts:
            for top in ((0, 5) if a == "SHA512" and (c.thorough or lo == M - 1) else (0,)):
                fill = lo % B
                js.append(jobs.Job("%s after %d bytes, then %d more" % (a, (top << 64) + (hi << 32) + lo, n), v, "counter.c", "lib_long", "ref_long",
                                   dict(alg=k, hi=s32(hi) % M, lo=s32(lo) % M, len=n, way=top),
                                   {"state": ("in", st), "pend": ("in", max(fill, 1)), "msg": ("in", max(n, 1)), "out": ("out", st)},
                                   cost=(3 if B == 128 else 1) * (1 + (fill + n) // B), mem=1.0, group=a))
    jobs.report(c, jobs.run(js, 800 if c.thorough else 600))
    c.need("configurations", 20)

"""Export of keys."""
from .. import jobs
from ..rsajobs import layout, rsa
from .p18 import SMALL


def exports(v, big):
    js = []
    shapes = [s for s in SMALL] + [(64, 3, 64, 32, 32), (126, 3, 126, 63, 63), (127, 4, 125, 64, 63), (128, 3, 128, 64, 64), (129, 3, 127, 64, 65)]
    if big:
        shapes += [(k, 3, k - 1, (k + 1) // 2, k // 2) for k in (17, 31, 32, 33, 125, 130, 250, 253, 254, 255, 256, 257)]
    for sh in shapes:
        for private in (0, 1):
            for op in (5, 6):
                for top in ((0xc1, 0x80, 0x7f, 0x01) if sh[0] < 100 or big else (0xc1, 0x7f)):
                    js.append(rsa(v, op, private, 0, *sh, top, room=900 if sh[0] < 100 else 1800))
                    js.append(rsa(v, op, private, 1, *sh, top, room=-1))
    # as much room as needed, and less
    for op in (5, 6):
        for sh in SMALL[:2]:
            for room in range(0, 150, 1 if big else 3):
                js.append(rsa(v, op, 1, 0, *sh, 0xc1, room=room))
    for private, op in ((1, 5), (1, 6), (0, 5)):
        for sh in shapes:
            need = layout(private if op == 6 else 0, 0, *sh, 0xc1)[1]
            for room in (need - 2, need - 1, need, need + 1):
                js.append(rsa(v, op, private, 0, *sh, 0xc1, room=room))
    # other encodings of the same key
    for sh in SMALL:
        for op in (5, 6, 2, 0):
            for pad, wide in ((1, 0), (2, 0), (9, 0), (0, 1), (0, 2), (0, 4), (3, 3)):
                js.append(rsa(v, op, 1, 0, *sh, 0xc1, pad, wide, room=200))
                js.append(rsa(v, op, 0, 1, *sh, 0x35, pad, wide, room=200))
    return js


def run(c):
    c.rule("Global value numbering of key import followed by export: the status, the length and every byte produced must have the value number of the "
           "canonical DER encoding of the integers in the imported data, of which all bytes but the first are unknown; with too little room nothing "
           "past the buffer is written and the failure is reported.")
    js = []
    for v in ("default", "word32", "ndebug") if c.thorough else ("default", "word32"):
        js += exports(v, c.thorough)
    jobs.report(c, jobs.run(js, 800 if c.thorough else 500))
    c.need("configurations", 200)

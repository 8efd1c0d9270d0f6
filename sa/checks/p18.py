"""RSA operations with imported keys."""
from .. import jobs
from ..rsajobs import rsa

SMALL = ((16, 3, 16, 8, 8), (15, 1, 14, 7, 8), (9, 3, 8, 5, 4))


def uses(v, big):
    js = []
    for nl, el, dl, pl, ql in SMALL + ((24, 2, 23, 12, 12),):
        W = 4 if v.startswith("word32") else 8
        n = (nl + W - 1) // W
        for private in (0, 1):
            for form in (0, 1):
                for top in (0xc1, 0x80, 0x41, 0x01):
                    if form and top != 0x41 and not big:
                        continue
                    for op in range(4):
                        for ml in {nl - 1, 1, min(W, nl - 1), n * W + 1}:
                            for rl in {n, 2} if op == 3 else {n, 1} if top == 0x41 else {n}:
                                if op == 3 and rl == 1:
                                    continue            # a comparison of single words has no common normal form
                                js.append(rsa(v, op, private, form, nl, el, dl, pl, ql, top, ml=ml, rl=rl))
                            if op == 3 and top == 0x41 and form == 0:
                                for vl in {1, n * W - W, n * W - 1, n * W + W} - {0} if n > 1 else ():
                                    js.append(rsa(v, op, private, form, nl, el, dl, pl, ql, top, ml=ml, rl=n, room=vl))
                    js.append(rsa(v, 4, private, form, nl, el, dl, pl, ql, top))
    for nl in (64, 128, 256) if big else (64, 128):
        for op in range(5):
            js.append(rsa(v, op, 1, 0, nl, 3, nl, nl // 2, nl // 2, 0xb3))
            js.append(rsa(v, op, 0, 0, nl, 3, nl, nl // 2, nl // 2, 0xb3))
    for top in (1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255):
        for nl in (7, 8, 9, 12, 16):
            js.append(rsa(v, 4, 0, 0, nl, 1, 8, 4, 4, top))
    return js


def run(c):
    c.rule("Global value numbering of import followed by an operation, with modular exponentiation as an uninterpreted function of modulus, base and "
           "exponent: the status and the result must have the value number the definition gives them in terms of the integers "
           "in the imported data, of which all bytes but the first are unknown.")
    js = []
    for v in ("default", "word32", "ndebug") if c.thorough else ("default", "word32"):
        js += uses(v, c.thorough)
    jobs.report(c, jobs.run(js, 800 if c.thorough else 500))
    c.need("configurations", 300)

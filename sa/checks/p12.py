"""Malformed key data."""
from .. import jobs
from ..rsajobs import layout, reject


def malformed(v, big):
    js = []
    shapes = [(16, 3, 16, 8, 8, 0xc1), (15, 1, 14, 7, 8, 0x41)] + ([(64, 3, 64, 32, 32, 0xb0), (128, 3, 128, 64, 64, 0xb0), (130, 3, 129, 65, 65, 0x20)] if big else [(128, 3, 127, 64, 64, 0xb0)])
    for sh in shapes:
        for private in (0, 1):
            for form in (0, 1):
                at, total = layout(private, form, *sh)
                step = 1 if big or total < 160 else 7
                for pos in sorted(set(range(0, total, step)) | set(range(total - 8, total)) | set(range(0, min(50, total)))):
                    js.append(reject(v, private, form, *sh, 1, pos, 0, "of %d bytes cut to %d" % (total, pos)))
                for what, pos, kind in at:
                    if kind == "tag":
                        vals = [0x04, 0x05, 0x82] + ([0x03] if not ("wrapped" in what and not private) else []) + ([0x02] if "modulus" not in what and "exp" not in what and "prime" not in what and "coef" not in what and "version" not in what else [])
                        if "wrapped" in what and private:
                            vals = [0x03, 0x05, 0x02, 0x84]
                    elif kind == "len":
                        vals = ["+1", "+2"]
                    elif "unused" in what:
                        vals = [1, 7, 8, 0xff]
                    else:
                        vals = [0x00, 0x02, 0xff]
                    for x in vals:
                        js.append((v, private, form, sh, pos, x, what))
                for k in range(1, 8 if private else 2):
                    js.append(reject(v, private, form, *sh, 3, k, 0, "without its last %d numbers" % k))
                js.append(reject(v, private, form, *sh, 3, 8 if private else 2, 0, "without any number"))
                # a modulus of zero
                js.append(reject(v, private, form, 1, *sh[1:5], 0, 0, 0, 0, "with a modulus of zero"))
    # empty numbers
    for private in (0, 1):
        for form in (0, 1):
            for i in range(5 if private else 2):
                l = [16, 3, 16, 8, 8]
                l[i] = 0
                js.append(reject(v, private, form, *l, 0x41, 0, 0, 0, "with an empty number (%d)" % i))
    return js


def run(c):
    c.rule("Global value numbering of key import on malformed data (contents of the numbers unknown): the status must be an error, the output must stay "
           "untouched and every read must stay inside the data given.")
    js = []
    for v in ("default", "word32", "ndebug", "verifykey") if c.thorough else ("default",):
        for j in malformed(v, c.thorough):
            if isinstance(j, tuple):
                v_, private, form, sh, pos, x, what = j
                rel = isinstance(x, str)
                js.append(reject(v_, private, form, *sh, 4 if rel else 2, pos, int(x) if rel else x,
                                 "with the %s %s" % (what, "enlarged by " + x[1:] if rel else "replaced by 0x%02x" % x)))
            else:
                js.append(j)
    jobs.report(c, jobs.run(js, 800 if c.thorough else 500))
    c.need("configurations", 300)

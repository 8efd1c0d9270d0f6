"""Constructors deliver an object exactly when they report success."""
from .. import own


def run(c):
    c.rule("For every function that returns an error code and has an object-pointer out parameter: on every path that "
           "returns an error the out parameter is untouched or null, on every path that returns success it points to a "
           "live object.")
    evs = own.analyse(c, ["ndebug"] if not c.thorough else ["ndebug", "default", "verifykey", "word32-ndebug", "noasm"],
                      2 if c.thorough else 1, {"out-on-failure", "no-out-on-success"})
    con = sorted(c.last[3]["constructors"])
    c.cov["constructors"] = len(con)
    c.need("constructors", 5)
    c.ok(len(con) + sum(v for k, v in c.cov.items() if k.startswith("exits")))
    own.report(c, evs)
    c.sample("constructors: %s" % con)

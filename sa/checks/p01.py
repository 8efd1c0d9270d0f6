"""Allocation failure is never turned into a use of missing memory."""
from .. import own


def run(c):
    c.rule("Path-sensitive abstract interpretation of every function of the library (callees inlined or summarised): "
           "at each allocation both outcomes are followed; on no path is a null, never-assigned or released pointer "
           "dereferenced, passed to a function that dereferences it, or released uninitialised, and no path on which memory "
           "could not be obtained ends in a report of success.")
    evs = own.analyse(c, ["ndebug"] if not c.thorough else ["ndebug", "default", "verifykey", "word32-ndebug", "noasm"],
                      2 if c.thorough else 1, {"null-deref", "uninit-use", "swallowed-error"})
    evs = [(v, x) for v, x in evs if x.rule != "swallowed-error" or x.extra[1] == "env"]
    c.ok(sum(v for k, v in c.cov.items() if k.startswith("derefs")))
    own.report(c, evs)
    c.sample("allocation sites followed with both outcomes: %s" % sorted(c.last[4])[:12])

"""Every allocation is released exactly once."""
from .. import own


def run(c):
    c.rule("Ownership typestate on every path of every function: memory allocated on a path is, at each exit, either "
           "released or reachable from the caller (return value or out parameter); nothing is released twice, used "
           "after release or released when not allocated; descriptors are closed on every exit.")
    evs = own.analyse(c, ["ndebug"] if not c.thorough else ["ndebug", "default", "verifykey", "word32-ndebug", "noasm"],
                      2 if c.thorough else 1, {"leak", "double-free", "use-after-free", "bad-free", "fd-leak"})
    c.ok(sum(v for k, v in c.cov.items() if k.startswith(("exits", "release_sites", "allocation_sites"))))
    own.report(c, evs)
    c.sample("release sites: %s" % sorted(c.last[5])[:12])

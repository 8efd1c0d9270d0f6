"""Key material is erased before its memory is released."""
from .. import own


def run(c):
    c.rule("Typestate on every path to a release: an object of a context or key type (every type a public destroy function "
           "accepts), and every number owned by one, has its whole allocated size overwritten through a store the "
           "optimiser may not remove after its last write and before free(); stack copies of generator state and of "
           "operating-system entropy are erased before the frame dies.")
    evs = own.analyse(c, ["ndebug"] if not c.thorough else ["ndebug", "default", "verifykey", "word32-ndebug", "noasm"],
                      2 if c.thorough else 1, {"unwiped-free", "weak-wipe", "unwiped-stack"})
    c.cov["erased_types"] = len(c.last[3]["destroy_types"])
    c.need("erased_types", 8)
    c.ok(len(c.last[5]) + c.cov["erased_types"])
    own.report(c, evs)
    c.sample("types erased on release: %s" % sorted(c.last[3]["destroy_types"]))

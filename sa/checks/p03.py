"""A failed step is never reported as success."""
from .. import own


def run(c):
    c.rule("At every call of a function that can report failure (lack of memory, entropy, or malformed data) the failing "
           "outcome is followed: no path on which it failed reaches an exit of the caller that reports success or "
           "delivers a result, unless the code compares the result with that specific error.")
    evs = own.analyse(c, ["ndebug"] if not c.thorough else ["ndebug", "default", "verifykey", "word32-ndebug", "noasm"],
                      2 if c.thorough else 1, {"swallowed-error"})
    evs = [(v, x) for v, x in evs if x.extra[1] in ("env", "data")]
    c.ok(sum(v for k, v in c.cov.items() if k.startswith("fallible_call_sites")))
    own.report(c, evs)
    c.sample("fallible call sites: %s" % sorted(c.last[6])[:12])

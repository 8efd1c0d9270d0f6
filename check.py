#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]

Decides one property from /repo's current source.  Exit 0: every obligation of
the rule is met (known findings are listed).  Exit 1: a VIOLATION line.  Any
other exit: the analysis itself could not be carried out."""
import importlib
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"          # set and dict order must not depend on the run
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa import build, framework  # noqa: E402


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    mod = importlib.import_module("sa.checks." + pid.lower())
    c = framework.Check(pid, tier, HERE)
    try:
        mod.run(c)
        return c.finish()
    except (framework.AnalysisError, build.BuildError) as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 3
    finally:
        build.cleanup()


if __name__ == "__main__":
    sys.exit(main(sys.argv))

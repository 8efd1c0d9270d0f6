"""What all checks share: loading the IR of a build variant, alarms, known
findings, evidence."""
import json
import os
import re
import sys
import time

from . import build, debuginfo, llvmc


class AnalysisError(Exception):
    pass


class Alarm:
    def __init__(s, key, where, rule, msg):
        s.key, s.where, s.rule, s.msg = key, where, rule, msg

    def __str__(s):
        return "%s [%s] %s" % (s.where, s.rule, s.msg)


class Check:
    def __init__(s, pid, tier, home):
        s.pid, s.tier, s.home = pid, tier, home
        s.t0 = time.time()
        s.alarms = {}
        s.obligations = 0
        s.discharged = 0
        s.cov = {}
        s.rules = []
        s.samples = []
        s.assumptions = []
        s.level = "other"
        s._mods = {}

    @property
    def thorough(s):
        return s.tier == "thorough"

    # ---------------------------------------------------------- program
    def module(s, variant="default", passes="sroa,early-cse"):
        k = (variant, passes)
        if k not in s._mods:
            out, raw = build.compile_variant(variant, passes)
            m = llvmc.Module(out, build.REPO)
            d = debuginfo.DI(raw)
            s._mods[k] = (m, d)
        return s._mods[k]

    # ---------------------------------------------------------- reporting
    def rule(s, text):
        s.rules.append(text)

    def ok(s, n=1):
        s.obligations += n
        s.discharged += n

    def sample(s, text):
        if len(s.samples) < 12:
            s.samples.append(text)

    def alarm(s, key, where, rule, msg, fresh=True):
        """key identifies the failing construct independently of line numbers"""
        if fresh:
            s.obligations += 1
        s.alarms.setdefault(key, Alarm(key, where, rule, msg))

    def count(s, name, n=1):
        s.cov[name] = s.cov.get(name, 0) + n

    def need(s, name, least=1):
        """the rule must have applied to something"""
        if s.cov.get(name, 0) < least:
            raise AnalysisError("rule instance count '%s' is %d, expected at least %d" % (name, s.cov.get(name, 0), least))

    # ---------------------------------------------------------- known findings
    def known(s):
        res = {}
        p = os.path.join(s.home, "known_findings.txt")
        if os.path.exists(p):
            for ln in open(p):
                m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", ln)
                if m and m.group(1) == s.pid:
                    res[m.group(2)] = m.group(3).strip()
        return res

    def finish(s):
        known = s.known()
        bad = []
        for k, a in sorted(s.alarms.items()):
            if k in known:
                print("KNOWN-FINDING: property=%s %s (%s)" % (s.pid, known[k], a))
            else:
                bad.append(a)
        ev = os.path.join(s.home, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = dict(s.cov)
        cov["explanation"] = " ".join(s.rules)
        cov["obligations"] = s.obligations
        cov["discharged"] = s.obligations - len(s.alarms)
        cov["checker_cmd"] = "python3 check.py %s --tier %s" % (s.pid, s.tier)
        cov["trusted_base"] = ["clang 18 front end and LLVM bitcode reader", "the rule implementation under /verif/sa"]
        cov["samples"] = s.samples
        cov["known_findings_matched"] = len(s.alarms) - len(bad)
        json.dump({"property": s.pid, "tier": s.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
                   "level": s.level, "coverage": cov, "assumptions": s.assumptions,
                   "wall_s": round(time.time() - s.t0, 2), "violations": len(bad)},
                  open(os.path.join(ev, s.pid + ".json"), "w"), indent=1, default=str)
        for a in bad:
            print("%s: %s" % (s.pid, a))
        print("%s: %d obligations, %d not met, %.1f s" % (s.pid, s.obligations, len(bad), time.time() - s.t0))
        rp = os.path.join(ev, s.pid + ".report.txt")
        if bad:
            with open(rp, "w") as f:
                f.write("reproduce: cd /verif && python3 check.py %s --tier %s\n" % (s.pid, s.tier))
                for a in bad:
                    f.write("%s\n   key=%s\n" % (a, a.key))
            print("VIOLATION property=%s replay=%s" % (s.pid, rp))
            return 1
        if os.path.exists(rp):
            os.unlink(rp)
        return 0

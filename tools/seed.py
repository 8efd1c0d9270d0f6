#!/usr/bin/env python3
"""seed.py <spec.py>: build /verif/seeded/<id>/ from a spec (ID, PROP, NEEDS, BREAKS, EDITS, DEMO [, LINK, CFLAGS]) and
confirm in a scratch copy: the demo passes on the clean build and fails on the changed one; runs the property's check."""
import json, os, runpy, shutil, subprocess, sys, tempfile

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    out = os.path.join(H, "seeded", s["ID"])
    os.makedirs(out, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed_")
    subprocess.check_call("cp -a " + os.environ.get("SEED_BASE", "/repo") + "/. %s && cd %s && git checkout -q -- ." % (t, t), shell=True)

    def build():
        subprocess.check_call("cd %s && cmake -S . -B _b2 -G Ninja -DCMAKE_BUILD_TYPE= -DCMAKE_PROJECT_racrypt_INCLUDE=/opt/vp/harness/extra.cmake >/dev/null "
                              "&& ninja -C _b2 >/tmp/w/ninja.log 2>&1 && rm -rf _build && cp -a _b2 _build" % t, shell=True)
    open(os.path.join(out, "demo.c"), "w").write(s["DEMO"])
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\n# run from the repository root after its build\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d)\n'
                'trap \'rm -rf "$T"\' EXIT\ngcc -g -w %s -Isrc/include -Isrc "$D/demo.c" _build/libracrypt.a %s -o "$T/demo" || exit 9\n'
                'timeout %d "$T/demo"\n' % (s.get("CFLAGS", ""), s.get("LINK", ""), s.get("TIMEOUT", 60)))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)

    def demo():
        r = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        print("   demo:", r.returncode, r.stdout.strip()[-300:])
        return r.returncode
    build()
    a = demo()
    E = s["EDITS"]
    for f, old, new in E:
        p = os.path.join(t, f)
        x = open(p, newline="").read()
        if "\r\n" in x:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert x.count(old) == 1, (f, old, x.count(old))
        open(p, "w", newline="").write(x.replace(old, new))
    d = subprocess.run(["git", "-C", t, "diff"], stdout=subprocess.PIPE).stdout
    open(os.path.join(out, "patch.diff"), "wb").write(d)
    build()
    b = demo()
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    chk = []
    for c in [s["PROP"]] + s.get("ALSO", []):
        if os.path.exists(os.path.join(H, "sa/checks/%s.py" % c.lower())):
            r = subprocess.run([sys.executable, os.path.join(H, "check.py"), c], env=dict(os.environ, SA_REPO=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            chk.append((c, r.returncode))
            print("   ", "\n    ".join(l[:220] for l in r.stdout.splitlines()[-4:]))
    if "-t" in os.environ.get("SEEDOPT", "-t"):
        subprocess.run("cd %s && ninja -C _build racrypt_case >/dev/null && cat /opt/vp/harness/run_cases.py | sed 's#/repo#%s#g' > /tmp/w/rc.py && mkdir -p %s/logs && python3 /tmp/w/rc.py %s/logs > /tmp/w/rc.out 2>&1" % (t, t, t, t), shell=True)
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        try:
            txt = open(t + "/logs/results.txt").read()
            ok = subprocess.run(["python3", "/opt/vp/results.py", t + "/o.json", "lines:" + t + "/logs/results.txt"], stdout=subprocess.PIPE)
            res = json.load(open(t + "/o.json"))
            miss = base - set(res["passed"])
            print("    tests: missing", sorted(miss))
        except Exception as e:
            print("    tests: ?", e)
            miss = {"?"}
    else:
        miss = {"skipped"}
    print("%s: clean=%d patched=%d checks=%s tests=%s => %s" % (s["ID"], a, b, chk, "ok" if not miss else miss, "GOOD" if a == 0 and b and not miss else "BAD"))
    shutil.rmtree(t)

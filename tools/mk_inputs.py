"""Proposes sa/tables/inputs.json (parameters of non-static functions that are pure inputs); the result was
reviewed by hand and frozen."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa import build, llvmc, debuginfo, flow
o, raw = build.compile_variant("default"); m = llvmc.Module(o, "/repo"); d = debuginfo.DI(raw); build.cleanup()
F = flow.Flow(m, d)
t = {}
for n, f in sorted(F.funcs.items()):
    if f.internal or "Destroy" in n or n == "BnFree":
        continue
    r = [a.idx for a in f.args if a.ty.kind == "ptr" and ("arg", a.idx) not in F.writes[n] and a.idx not in F.ro.get(n, ()) and
         d.fn_types(n)[1][a.idx][1][0] not in ("fn", "void")]
    if r:
        t["%s/%d" % (n, len(f.args))] = r
json.dump(t, open(os.path.join(H, "sa/tables/inputs.json"), "w"), indent=0)
print(t)

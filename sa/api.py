"""Which functions form the public interface: declared in the installed headers."""
import glob
import os
import re

from . import build

_hdr = None


def header_text():
    global _hdr
    if _hdr is None:
        t = []
        for f in sorted(glob.glob(os.path.join(build.REPO, "src/include/*.h"))):
            s = open(f, encoding="utf-8", errors="replace").read()
            s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
            t.append(re.sub(r"//[^\n]*", " ", s))
        _hdr = "\n".join(t)
    return _hdr


def public(mod):
    """names of the functions defined in the library that an installed header declares"""
    t = header_text()
    return sorted(n for n, f in mod.funcs.items() if not f.decl and not f.internal and
                  re.search(r"\b%s\s*\(" % re.escape(n), t))


def destroyers(mod, di):
    """{function: struct type} of public functions that release an object"""
    out = {}
    for n in public(mod):
        t = di.fn_types(n)
        if not t or t[0][0] != "void" or len(t[1]) != 1:
            continue
        p = t[1][0]
        if p[0] == "ptr" and p[1][0] == "struct" and ("Destroy" in n or "Free" in n):
            out[n] = p[1][1]
    return out

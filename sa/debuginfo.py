"""C-level types of functions, parameters and struct members, read from the
debug-info metadata of the bitcode (textual form)."""
import re
import subprocess

_line = re.compile(r"^!(\d+) = (?:distinct )?!(\w+)\((.*)\)$")
_tuple = re.compile(r"^!(\d+) = (?:distinct )?!\{(.*)\}$")


class DI:
    def __init__(s, bc):
        txt = subprocess.run(["llvm-dis", bc, "-o", "-"], stdout=subprocess.PIPE, check=True).stdout.decode("utf-8", "replace")
        s.n = {}
        s.fns = {}
        for ln in txt.splitlines():
            if not ln.startswith("!"):
                m = re.match(r"define .*?@([\w.]+)\(.*!dbg !(\d+)", ln)
                if m:
                    s.fns[m.group(1)] = m.group(2)
                continue
            m = _line.match(ln)
            if m:
                s.n[m.group(1)] = (m.group(2), s._attrs(m.group(3)))
                continue
            m = _tuple.match(ln)
            if m:
                s.n[m.group(1)] = ("tuple", [x.strip() for x in m.group(2).split(",")] if m.group(2).strip() else [])
        s.text = None

    @staticmethod
    def _attrs(t):
        out = {}
        for k, v in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,]+)', t):
            out[k] = v.strip('"')
        return out

    def node(s, ref):
        if ref is None or ref == "null":
            return None
        return s.n.get(ref.lstrip("!"))

    # C type description: ('ptr', const?, T) ('struct', name) ('int', name,size) ('void',) ('array', T, n) ('enum', name)
    def ctype(s, ref, depth=0, const=False):
        nd = s.node(ref)
        if nd is None:
            return ("void", const)
        k, a = nd
        if k == "DIBasicType":
            return ("int", a.get("name"), int(a.get("size", 0)), const)
        if k == "DIDerivedType":
            tag = a.get("tag")
            if tag == "DW_TAG_pointer_type":
                if depth > 6:
                    return ("ptr", ("void", False), const)
                return ("ptr", s.ctype(a.get("baseType"), depth + 1), const)
            if tag == "DW_TAG_const_type":
                return s.ctype(a.get("baseType"), depth, True)
            return s.ctype(a.get("baseType"), depth, const)
        if k == "DICompositeType":
            tag = a.get("tag")
            if tag == "DW_TAG_array_type":
                return ("array", s.ctype(a.get("baseType"), depth + 1), const)
            if tag == "DW_TAG_enumeration_type":
                return ("enum", a.get("name"), const)
            return ("struct", a.get("name"), const)
        if k == "DISubroutineType":
            return ("fn",)
        return ("?",)

    def enums(s):
        """enum name -> {enumerator: value}"""
        out = {}
        for k, a in s.n.values():
            if k == "DICompositeType" and a.get("tag") == "DW_TAG_enumeration_type" and a.get("elements"):
                els = s.node(a["elements"])
                d = {}
                for e in els[1]:
                    en = s.node(e)
                    if en:
                        d[en[1]["name"]] = int(en[1]["value"])
                out[a.get("name")] = d
        return out

    def fn_types(s, name):
        """(return type, [param types]) or None"""
        r = s.fns.get(name)
        if not r:
            return None
        k, a = s.n[r]
        st = s.node(a.get("type"))
        tl = s.node(st[1].get("types"))[1]
        ts = [s.ctype(x) for x in tl]
        return ts[0], ts[1:]

    def fn_decl(s, name):
        r = s.fns.get(name)
        if not r:
            return None
        a = s.n[r][1]
        f = s.node(a.get("file"))
        return (f[1].get("filename") if f else None, int(a.get("line", 0)))

    def members(s, struct):
        """[(byte offset, size bytes, name, ctype)] of a struct, nested anonymous members flattened"""
        out = []
        for k, a in s.n.values():
            if k == "DICompositeType" and a.get("name") == struct and a.get("elements"):
                for e in s.node(a["elements"])[1]:
                    en = s.node(e)
                    if not en or en[0] != "DIDerivedType":
                        continue
                    m = en[1]
                    out.append((int(m.get("offset", 0)) // 8, int(m.get("size", 0)) // 8, m.get("name", ""),
                                s.ctype(m.get("baseType"))))
                break
        return sorted(out, key=lambda x: x[0])

    def struct_size(s, struct):
        for k, a in s.n.values():
            if k == "DICompositeType" and a.get("name") == struct and a.get("elements"):
                return int(a.get("size", 0)) // 8
        return None

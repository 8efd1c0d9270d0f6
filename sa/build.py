"""Compile /repo's current working tree to LLVM bitcode with the real build's
source list, defines and include paths (taken from a fresh cmake configure).
Nothing built here is ever run."""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get("SA_REPO", "/repo")


class BuildError(Exception):
    pass


_tmp = []


def tmpdir():
    d = tempfile.mkdtemp(prefix="sa_")
    _tmp.append(d)
    return d


def cleanup():
    for d in _tmp:
        shutil.rmtree(d, ignore_errors=True)
    _tmp.clear()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


_cc = None


def commands():
    """[(source, [flags])] of the racrypt library target."""
    global _cc
    if _cc is not None:
        return _cc
    d = tmpdir()
    env = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS"):
        env.pop(k, None)
    env["CC"] = "/usr/bin/gcc"
    run(["cmake", "-S", REPO, "-B", d, "-DCMAKE_BUILD_TYPE=", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"], env=env)
    out = []
    for e in json.load(open(os.path.join(d, "compile_commands.json"))):
        f = os.path.normpath(os.path.join(e["directory"], e["file"]))
        if "/src/test/" in f:
            continue
        if "racrypt.dir" not in e["command"] and "racrypt.dir" not in e.get("output", ""):
            continue
        flags = [a for a in e["command"].split() if a.startswith(("-D", "-I", "-std", "-m"))]
        out.append((f, flags))
    if not out:
        raise BuildError("no library sources found in compile_commands.json")
    _cc = sorted(out)
    return _cc


VARIANTS = {
    "default": ([], []),
    "ndebug": (["-DNDEBUG"], []),
    "word32": (["-DBN_WORD_BYTE=4"], []),
    "word32-ndebug": (["-DBN_WORD_BYTE=4", "-DNDEBUG"], []),
    "noasm": ([], ["-DRACRYPT_USE_ASM"]),
    "mintable": (["-DRACRYPT_AES_MIN_TABLE", "-DRACRYPT_PRIME_MIN_TABLE"], ["-DRACRYPT_USE_ASM"]),
    "verifykey": (["-DRACRYPT_RSA_VERIFY_KEY", "-DNDEBUG"], []),
    "nounroll": (["-URACRYPT_DIGEST_UNROLL"], ["-DRACRYPT_USE_ASM"]),
}


def compile_variant(name="default", passes="sroa,early-cse", link=True, opt_args=()):
    """returns path of the linked, pre-processed bitcode"""
    add, drop = VARIANTS[name]
    d = tmpdir()
    jobs = []
    for i, (f, flags) in enumerate(commands()):
        fl = [x for x in flags if x not in drop] + add
        if "-DRACRYPT_USE_ASM" in drop and f.endswith(("_x86.c",)):
            # platform sources belong to the asm build only
            pass
        o = os.path.join(d, "%02d_%s.bc" % (i, os.path.basename(f)[:-2]))
        jobs.append((["clang-18" if shutil.which("clang-18") else "clang", "-O0", "-Xclang", "-disable-O0-optnone", "-g",
                      "-fno-discard-value-names", "-w", "-emit-llvm", "-c", f, "-o", o] + fl, o))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: run(j[0]), jobs))
    raw = os.path.join(d, "all.bc")
    run(["llvm-link"] + [o for _, o in jobs] + ["-o", raw])
    out = os.path.join(d, "opt.bc")
    if passes:
        run(["opt", "-passes=" + passes, raw, "-o", out] + list(opt_args))
    else:
        out = raw
    return out, raw


def reopt(raw, passes, tag, opt_args=()):
    out = raw + "." + tag + ".bc"
    run(["opt", "-passes=" + passes, raw, "-o", out] + list(opt_args))
    return out

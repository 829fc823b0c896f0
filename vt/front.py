"""Front end: /repo's current tree -> one linked, normalised LLVM module per build configuration.

Nothing is executed from /repo.  cmake only *configures* (to obtain the generated feature
header and the exact per-unit flags), clang compiles every library unit to bitcode, llvm-link
joins them.  All outputs live in a scratch directory removed on exit.
"""
import os, json, subprocess, shlex, sys, tempfile, shutil, atexit, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """The machinery cannot answer (anchor vanished, tool failed): exit code 2, never 0/1."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vtsa.")
        pid = os.getpid()
        def _rm(d=_scratch, p=pid):
            if os.getpid() == p:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(_rm)
    return _scratch


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise Broken("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), (r.stdout + r.stderr)[-3000:]))
    return r


CONFIGS = {
    "openssl": [],
    "mbedtls": ["-DNOSTR_CRYPTO_MBEDTLS=ON"],
}


def configure(name):
    b = os.path.join(scratch(), "cfg-" + name)
    if os.path.isdir(b):
        return b
    args = ["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_C_COMPILER=gcc",
            "-DCMAKE_BUILD_TYPE=Debug", "-DBUILD_TESTING=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
            "-DNOSTR_FEATURE_HD_KEYS=ON", "-DNOSTR_FEATURE_CRYPTO_NOSCRYPT=OFF",
            "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"] + CONFIGS[name]
    run(args, stdin=subprocess.DEVNULL)
    return b


def units(name):
    b = configure(name)
    db = json.load(open(os.path.join(b, "compile_commands.json")))
    out = {}
    for e in db:
        f = os.path.realpath(os.path.join(e["directory"], e["file"]))
        if not f.startswith(os.path.join(REPO, "src") + "/"):
            continue
        argv = e.get("arguments") or shlex.split(e["command"])
        keep = []
        i = 1
        while i < len(argv):
            a = argv[i]
            if a in ("-I", "-D", "-isystem", "-U", "-include"):
                keep += [a, argv[i + 1]]
                i += 2
                continue
            if a.startswith(("-I", "-D", "-isystem", "-U", "-std=")):
                keep.append(a)
            i += 1
        out.setdefault(f, keep)
    if len(out) < 15:
        raise Broken("only %d library units found in the %s configuration" % (len(out), name))
    return b, out


def compile_all(name, extra=None):
    """-> (list of (src, bc))"""
    b, us = units(name)
    d = os.path.join(scratch(), "bc-" + name)
    os.makedirs(d, exist_ok=True)
    def one(item):
        src, flags = item
        bc = os.path.join(d, os.path.basename(src) + ".bc")
        run(["clang-18", "-c", "-emit-llvm", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-w",
             "-fno-discard-value-names", "-U_FORTIFY_SOURCE"] + flags + (extra or []) + [src, "-o", bc], cwd=b)
        return src, bc
    with ThreadPoolExecutor(8) as ex:
        return sorted(ex.map(one, us.items()))


_linked = {}


def linked(name):
    if name in _linked:
        return _linked[name]
    bcs = compile_all(name)
    out = os.path.join(scratch(), name + ".bc")
    run(["llvm-link-18", "-o", out] + [x[1] for x in bcs])
    _linked[name] = (out, [x[0] for x in bcs])
    return _linked[name]

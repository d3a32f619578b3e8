"""Builds the frontend and extracts the resolved program of /repo's current working tree.

Everything is written below /verif/.cache (git-ignored); /repo is only read."""
import hashlib
import json
import os
import re
import shlex
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CAPI_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
LLVM = "/usr/lib/llvm-18"
FRONTEND = os.path.join(VERIF, "frontend", "capi_extract.cpp")
CPP_ROOT = "capi/src/implementation/visibility_graphs"


class AnalysisBroken(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _lib(prefix):
    d = os.path.join(LLVM, "lib")
    for f in sorted(os.listdir(d)):
        if f.startswith(prefix):
            return os.path.join(d, f)
    raise AnalysisBroken("no " + prefix + " in " + d)


def frontend():
    src = open(FRONTEND, "rb").read()
    out = os.path.join(CACHE, "capi_extract-" + _sha(src))
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    flags = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True, check=True).stdout.split()
    flags = [f for f in flags if f not in ("-DNDEBUG", "-O2") and not f.startswith("-std=")]
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++", "-O1"] + flags + ["-std=c++17", "-fno-rtti", FRONTEND, "-o", tmp,
                                        _lib("libclang-cpp.so"), _lib("libLLVM-18.so")]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build the frontend:\n" + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


def omp_include():
    d = os.path.join(CACHE, "omp")
    f = os.path.join(d, "omp.h")
    if not os.path.exists(f):
        os.makedirs(d, exist_ok=True)
        base = "/usr/lib/gcc/x86_64-linux-gnu"
        src = None
        for v in sorted(os.listdir(base), reverse=True):
            p = os.path.join(base, v, "include", "omp.h")
            if os.path.exists(p):
                src = p
                break
        if src is None:
            raise AnalysisBroken("no omp.h")
        text = open(src).read()
        text = re.sub(r"__malloc__\s*\([^()]*\)", "__malloc__", text)
        tmp = f + ".%d" % os.getpid()
        open(tmp, "w").write(text)
        os.replace(tmp, f)
    return d


def compile_commands():
    """(source file -> flags) of the library, the bindings and the example, from the real CMake project."""
    tmp = tempfile.mkdtemp(prefix="capi-cm-")
    try:
        env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1")
        r = subprocess.run(
            ["cmake", "-S", REPO, "-B", tmp, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
             "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON",
             "-DCMAKE_CXX_FLAGS_DEBUG=-g -include /opt/capi/include/pypy_compat.h -DCATCH_CONFIG_NO_POSIX_SIGNALS",
             "-DPython_EXECUTABLE=/opt/capi/pypy/bin/python",
             "-DS2_LIB=/usr/lib/x86_64-linux-gnu/libs2.so", "-DS2_HEADERS=/usr/include/s2"],
            capture_output=True, text=True, env=env)
        if r.returncode:
            raise AnalysisBroken("cmake configure failed:\n" + r.stderr[-3000:])
        cc = json.load(open(os.path.join(tmp, "compile_commands.json")))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    out = {}
    for c in cc:
        f = os.path.normpath(c["file"])
        if not f.startswith(os.path.join(REPO, CPP_ROOT)) or f in out:
            continue
        a = shlex.split(c["command"])[1:]
        flags, i = [], 0
        while i < len(a):
            if a[i] == "-o":
                i += 2
                continue
            if a[i] == "-c" or os.path.normpath(a[i]) == f or a[i] == "-g":
                i += 1
                continue
            flags.append(a[i])
            i += 1
        out[f] = flags
    return out


def tree_key():
    h = hashlib.sha256()
    h.update(open(FRONTEND, "rb").read())
    files = [os.path.join(REPO, "CMakeLists.txt")]
    for d, _, fs in sorted(os.walk(os.path.join(REPO, CPP_ROOT))):
        for f in sorted(fs):
            if f.endswith((".cpp", ".hpp", ".h", ".cc", ".ipp")):
                files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def header_key():
    h = hashlib.sha256(open(FRONTEND, "rb").read())
    for d, _, fs in sorted(os.walk(os.path.join(REPO, CPP_ROOT))):
        for f in sorted(fs):
            if not f.endswith((".cpp", ".cc")):
                f = os.path.join(d, f)
                if os.path.isfile(f) and f.endswith((".hpp", ".h", ".ipp", ".inl", ".inc")):
                    h.update(f.encode() + b"\0" + open(f, "rb").read())
    return h.hexdigest()


def layout_key():
    h = hashlib.sha256((REPO + "\0").encode() + open(os.path.join(REPO, "CMakeLists.txt"), "rb").read())
    for d, _, fs in sorted(os.walk(REPO)):
        if "/_build" in d or "/.git" in d:
            continue
        for f in sorted(fs):
            if f.endswith((".cpp", ".hpp", ".h", ".cc")):
                h.update(os.path.join(d, f).encode() + b"\0")
            elif f.endswith(".cmake") or f == "CMakeLists.txt":
                h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:24]


def cached(name, make):
    """a value computed from the sources named in the key"""
    p = os.path.join(CACHE, name + ".json")
    if os.path.exists(p):
        try:
            return json.load(open(p))
        except ValueError:
            pass
    v = make()
    os.makedirs(CACHE, exist_ok=True)
    tmp = "%s.%d" % (p, os.getpid())
    json.dump(v, open(tmp, "w"))
    os.replace(tmp, p)
    return v


def prune():
    """keep the cache small"""
    for pre, keep in (("tu-", 2), ("unit-", 400), ("cc-", 4)):
        fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith(pre) and f.endswith(".json")]
        try:
            fs.sort(key=os.path.getmtime)
            for f in fs[:-keep]:
                os.unlink(f)
        except OSError:
            pass


def extract():
    """-> {source file: parsed JSON}"""
    key = tree_key()
    store = os.path.join(CACHE, "tu-" + key + ".json")
    if os.path.exists(store):
        try:
            return json.load(open(store))
        except ValueError:
            pass
    exe = frontend()
    omp = omp_include()
    cmds = cached("cc-" + layout_key(), compile_commands)
    hk = header_key()
    if len(cmds) < 10:
        raise AnalysisBroken("only %d translation units found" % len(cmds))

    def one(item):
        h = hashlib.sha256((hk + repr(item)).encode() + open(item[0], "rb").read()).hexdigest()[:24]
        return item[0], cached("unit-" + h, lambda: unit(item))

    def unit(item):
        f, flags = item
        r = subprocess.run([exe, os.path.join(REPO, "capi", "src"), f, "--"] + flags +
                           ["-resource-dir", LLVM + "/lib/clang/18", "-idirafter", omp, "-w"],
                           capture_output=True, text=True, cwd="/tmp")
        if r.returncode:
            raise AnalysisBroken("cannot analyse %s:\n%s" % (f, r.stderr[-3000:]))
        return json.loads(r.stdout)

    with ThreadPoolExecutor(8) as ex:
        res = dict(ex.map(one, cmds.items()))
    os.makedirs(CACHE, exist_ok=True)
    prune()
    tmp = store + ".%d" % os.getpid()
    json.dump(res, open(tmp, "w"))
    os.replace(tmp, store)
    return res


if __name__ == "__main__":
    try:
        r = extract()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN:", e, file=sys.stderr)
        sys.exit(2)
    print("extracted %d units, %d functions" % (len(r), sum(len(x["functions"]) for x in r.values())))

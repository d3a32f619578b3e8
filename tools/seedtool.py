#!/usr/bin/env python3
"""planting and confirming seeded bugs (not used by any check)

seedtool.py new ID PROP MODE 'needs' 'what it breaks' file old new [file old new ...] < demo source
   MODE: link (C++ linked with the built objects), src:<flags> (C++ with the sources recompiled with flags), py (Python)
seedtool.py confirm ID...       build, stable tests, demo before and after, and the property's check
"""
import json
import os
import shutil
import subprocess
import sys

V = "/verif/seeded"
SC = "/tmp/w/sc"
CODE = "capi/src/implementation/visibility_graphs/"

HEAD = '''#!/bin/bash
# exit 0: the property holds for the demonstrated case; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
'''
INC = '-I/repo/capi/src/implementation/visibility_graphs/code -I/repo/capi/cpp_libs/fmt/include -I/repo/capi/cpp_libs/mio -I/repo/capi/cpp_libs/indicators/include'
LINK = HEAD + '''O=$(find /repo/_build/CMakeFiles/capi_example.dir -name '*.o' ! -name 'example.cpp.o')
g++ -std=gnu++17 -O1 -fopenmp %s "$here/demo.cpp" $O -o "$t/demo" -ls2 -lpthread || exit 98
cd "$t" && timeout 120 ./demo
''' % INC
SRC = HEAD + '''cd "$t"
C=$(find /repo/capi/src/implementation/visibility_graphs/code -name '*.cpp')
i=0
for f in $C "$here/demo.cpp" /repo/capi/cpp_libs/fmt/src/format.cc; do i=$((i+1)); echo "$i $f"; done |
  xargs -P 8 -L 1 sh -c 'g++ -std=gnu++17 -g -O1 -fopenmp FLAGS -include /opt/capi/include/pypy_compat.h %s -c "$1" -o "$0.o"' || exit 98
g++ -fopenmp FLAGS *.o -o demo -Wl,--copy-dt-needed-entries -ls2 -lpthread || exit 98
RUN timeout 120 ./demo
''' % INC
PYD = HEAD + '''cd /repo
export PYTHONDONTWRITEBYTECODE=1
timeout 120 /opt/capi/pypy/bin/python "$here/demo.py" "$t"
'''


def new(a):
    sid, prop, mode, needs, what = a[:5]
    d = os.path.join(V, sid)
    os.makedirs(d, exist_ok=True)
    w = "/tmp/w/sd"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    e = a[5:]
    for i in range(0, len(e), 3):
        f, o, n = e[i:i + 3]
        p = next(q for q in (os.path.join(w, f), os.path.join(w, CODE, f), os.path.join(w, CODE, "code", f)) if os.path.exists(q))
        s = open(p).read()
        if "@@" in o:                                   # anchor@@old: the first old after anchor
            anc, o = o.split("@@", 1)
            k = s.index(anc)
        else:
            k = 0
        k = s.index(o, k)
        s = s[:k] + n + s[k + len(o):]
        open(p, "w").write(s)
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout
    assert diff
    base = subprocess.run(["git", "-C", w, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(w)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    src = sys.stdin.read()
    if mode == "py":
        open(os.path.join(d, "demo.py"), "w").write(src)
        sh = PYD
    else:
        open(os.path.join(d, "demo.cpp"), "w").write(src)
        if mode == "link":
            sh = LINK
        else:
            fl, _, run = mode[4:].partition("|")
            sh = SRC.replace("FLAGS", fl).replace("RUN ", run + " " if run else "")
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(sh)
    os.chmod(p, 0o755)


def inrepo(cmd, out=None):
    return subprocess.run(["bash", "/tmp/w/inrepo.sh", SC, "bash", "-c", cmd], capture_output=True, text=True)


def confirm(ids):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "_build", "/repo/", SC + "/"], check=True)
    if not os.path.exists(SC + "/_build"):
        subprocess.run(["cp", "-a", "/repo/_build", SC + "/"], check=True)
    inrepo("bash /opt/vp/build.sh")
    for i in ids:
        d = os.path.join(V, i)
        demo = "/tmp/w/dd"
        inrepo("bash /opt/vp/build.sh")
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r = inrepo("bash %s/demo.sh" % demo)
        a0 = r.returncode
        t0 = (r.stdout + r.stderr)[-200:]
        subprocess.run(["git", "-C", SC, "apply", os.path.join(d, "patch.diff")], check=True)
        b = inrepo("bash /opt/vp/test.sh /tmp/w/seed.json")
        try:
            res = json.load(open("/tmp/w/seed.json"))
        except Exception:
            res = {"passed": [], "failed": ["nothing ran"]}
        bad = sorted((stable or set()) - set(res["passed"])) if stable else res["failed"]
        r = inrepo("bash %s/demo.sh" % demo)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        k = subprocess.run([sys.executable, "-m", "sa.check", prop], cwd="/verif", env=dict(os.environ, CAPI_REPO=SC), capture_output=True, text=True)
        ok = a0 == 0 and not bad and r.returncode != 0
        print(i, "OK" if ok else "NOT A SEED", "demo %d->%d" % (a0, r.returncode), "passed %d" % len(res["passed"]), bad[:2], "| check", k.returncode,
              [l[:160] for l in k.stdout.splitlines() if "VIOL" in l][:1], flush=True)
        if not ok:
            print("   ", t0, "//", (r.stdout + r.stderr)[-300:])
            if not res["passed"]:
                print(b.stdout[-600:])
        subprocess.run(["git", "-C", SC, "checkout", "-q", "--", "."], check=True)
    inrepo("bash /opt/vp/build.sh")


if __name__ == "__main__":
    {"new": new, "confirm": confirm}[sys.argv[1]](sys.argv[2:])

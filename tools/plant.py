#!/usr/bin/env python3
"""Keeps the planted changes of seeded/ (see DESIGN.md).

  plant.py verify ID [PROP]   confirms the change (applies, builds, tests pass, demo) and runs the check of its property
  plant.py demo ID            the demonstration on the unchanged tree
"""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")


def sh(cmd, t=900, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **kw)


def clean():
    return sh(["git", "-C", R, "status", "--porcelain"]).stdout.strip() == ""


def build():
    r = sh(["bash", "/opt/vp/build.sh"], cwd=R)
    return r.returncode == 0, r.stdout


def tests():
    with tempfile.NamedTemporaryFile(suffix=".json") as f:
        r = sh(["bash", "/opt/vp/test.sh", f.name], cwd=R)
        last = r.stdout.strip().splitlines()[-1]
    return last == "408 passed, 0 failed", last


def demo(i):
    with tempfile.TemporaryDirectory() as d:
        subprocess.check_call("cp -a %s/seeded/%s %s/x && rm -f %s/x/*.diff %s/x/meta.json" % (V, i, d, d, d), shell=True)
        try:
            r = sh(["bash", d + "/x/demo.sh"], t=300, cwd=R)
        except subprocess.TimeoutExpired:
            return 124, "timeout"
    return r.returncode, r.stdout


def make(i, prop, edits, needs, breaks, cpp, flags="", pre=""):
    """Writes seeded/<i>; edits: [(file, old, new, nth)]"""
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    assert clean()
    try:
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(R, f)
            t = open(p).read()
            k = t.count(old)
            nth = e[3] if len(e) > 3 else None
            if nth is None:
                assert k == 1, (f, old, k)
                nth = 0
            assert k > nth, (f, old, k)
            at = -1
            for _ in range(nth + 1):
                at = t.index(old, at + 1)
            t = t[:at] + new + t[at + len(old):]
            open(p, "w").write(t)
        diff = subprocess.check_output(["git", "-C", R, "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(cpp)
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
%sg++ -std=c++11 -g -w -include cstdint -I. -I/usr/include/mkl -DIL_MKL -DIL_BLAS %s "$here/demo.cpp" -o "$work/demo" || exit 2
cd "$work" && ASAN_OPTIONS=detect_leaks=0 timeout 100 ./demo
""" % (pre, flags))


def verify(i, prop=None, check=True):
    meta = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    prop = prop or meta["property"]
    assert clean(), "/repo is not clean"
    rc, out = demo(i)
    if rc != 0:
        return "demo fails on the unchanged tree (%d): %s" % (rc, out[-600:])
    patch = os.path.join(V, "seeded", i, "patch.diff")
    r = sh(["git", "-C", R, "apply", patch])
    if r.returncode:
        return "does not apply: " + r.stdout
    try:
        ok, out = build()
        if not ok:
            return "does not build: " + out[-1500:]
        ok, last = tests()
        if not ok:
            return "tests: " + last
        rc, out = demo(i)
        if rc == 0:
            return "demo passes with the change"
        if not check:
            return "ok (unchecked)"
        r = sh(["python3", os.path.join(V, "bin", "check.py"), prop, "quick"], cwd=V)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % prop)]
        cl = [l for l in r.stdout.splitlines() if l.startswith("---- ")]
        if r.returncode == 1 and v:
            return "caught by %s: %s" % (prop, cl[0] if cl else "")
        return "MISSED by %s (exit %d) %s" % (prop, r.returncode, r.stdout[-500:])
    finally:
        subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])


if __name__ == "__main__":
    if sys.argv[1] == "demo":
        rc, out = demo(sys.argv[2])
        print(out, rc)
    elif sys.argv[1] == "verify":
        for i in sys.argv[2].split(","):
            print(i, verify(i, sys.argv[3] if len(sys.argv) > 3 else None), flush=True)
    elif sys.argv[1] == "verify-all":
        for i in sorted(os.listdir(os.path.join(V, "seeded"))):
            print(i, verify(i), flush=True)

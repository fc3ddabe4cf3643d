"""Undoes each repair of a defect in turn and runs the property's check: it must report it.
usage: revert_fixes.py PROP[,PROP] [commit...]   (known_findings.txt or commit range names the commits)"""
import os, subprocess, sys, re
R = os.environ.get("VERIF_REPO", "/repo")  # a clone may be given, so that /repo is not touched
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
props, commits = sys.argv[1].split(","), sys.argv[2:]
assert not run(["git", "-C", R, "status", "--porcelain", "-uno"]).stdout.strip(), "/repo is not clean"
for c in commits:
    msg = run(["git", "-C", R, "log", "-1", "--format=%h %s", c]).stdout.strip()
    d = subprocess.run(["git", "-C", R, "show", "--format=", c], stdout=subprocess.PIPE).stdout
    r = subprocess.run(["git", "-C", R, "apply", "-R", "-3", "-"], input=d, stderr=subprocess.PIPE)
    if r.returncode:
        run(["git", "-C", R, "reset", "-q", "--hard"])
        print("%s: cannot be undone on its own" % msg, flush=True)
        continue
    try:
        res = []
        for p in props:
            o = run(["timeout", "300", "python3", "/verif/bin/check.py", p, "quick"])
            m = re.findall(r"(?m)^VIOLATION.*$|^.*class[^\n]*$", o.stdout)
            res.append("%s rc=%d %s" % (p, o.returncode, (m or [""])[0][:160]))
        print("%s: %s" % (msg, "; ".join(res)), flush=True)
    finally:
        run(["git", "-C", R, "reset", "-q", "--hard"])

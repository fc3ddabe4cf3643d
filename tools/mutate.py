#!/usr/bin/env python3
"""Mutation testing of the checks: small random changes of a source file, each given to the checks of some properties.
usage: mutate.py CLONE FILE PROP[,PROP] COUNT [SEED] [FIRST-LAST]
Prints the changes that no check reports (to be examined by hand: equivalent, out of reach of the property, or a hole)."""
import os, random, re, subprocess, sys
clone, path, props, count = sys.argv[1], sys.argv[2], sys.argv[3].split(","), int(sys.argv[4])
seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
lo, hi = (int(x) for x in sys.argv[6].split("-")) if len(sys.argv) > 6 else (1, 10 ** 9)
full = os.path.join(clone, path)
src = open(full).read().split("\n")
RULES = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
         (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" && ", " || "), (r" \|\| ", " && "),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "1"),
         (r"\+\+(\w)", r"--\1"), (r"if \((.*)\) \{$", r"if (!(\1)) {"), (r"if \((.*)\) \{$", "if (true) {"), (r"if \((.*)\) \{$", "if (false) {"),
         (r"std::move\((.*?)\)", r"\1"), (r"\bsize_\b", "capacity_"), (r"\bcapacity_\b", "size_"), (r"\bbreak;", ""), (r"\bcontinue;", ""),
         (r" / ", " * "), (r" % ", " / "), (r" \+= ", " -= "), (r" -= ", " += "), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\bn\b", "(n - 1)"),
         (r"\bil::max\b", "il::min"), (r"\bil::min\b", "il::max"), (r"\bSetError\b(.*);", "SetOk();"), ("DELETE", "")]
cands = []
for k, line in enumerate(src):
    s = line.strip()
    if not (lo <= k + 1 <= hi) or s.startswith(("//", "#", "*", "/*", "IL_EXPECT", "IL_ENSURE", "template", "namespace", "using")) or not s:
        continue
    code = line.split("//")[0]
    for a, b in RULES:
        if a == "DELETE":
            if re.match(r"^\s+[\w:\*\[\]\(\)>\-\.~]+.*;$", code) and not re.match(r"^\s+(return|il::|const|auto|T |int|double|char|bool|std::size_t|break|typedef|[\w:<>]+[\*&]? \w+(\{|;| =|\())", code):
                cands.append((k, "// deleted"))
            continue
        for m in re.finditer(a, code):
            cands.append((k, code[:m.start()] + m.expand(b) + code[m.end():]))
random.Random(seed).shuffle(cands)
stat = {"caught": 0, "no build": 0, "survived": 0}
for k, new in cands[:count]:
    t = list(src)
    t[k] = new
    open(full, "w").write("\n".join(t))
    env = dict(os.environ, VERIF_REPO=clone, VERIF_SEED="1")
    verdict = "survived"
    try:
        for p in props:
            r = subprocess.run(["timeout", "600", "python3", "/verif/bin/check.py", p, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                verdict = "caught"
                break
            if r.returncode != 0:
                verdict = "no build" if "does not build" in r.stdout else "error: " + r.stdout[-300:]
                break
    finally:
        open(full, "w").write("\n".join(src))
    stat[verdict] = stat.get(verdict, 0) + 1
    if verdict != "caught" and verdict != "no build":
        print("%s %s:%d\n  - %s\n  + %s" % (verdict, path, k + 1, src[k].strip(), new.strip()), flush=True)
print(path, stat, flush=True)

#!/usr/bin/env python3
"""Write the 'fixed:' lines of known_findings.txt from /repo's fix commits (keeps the finding: lines)."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = [l.rstrip("\n").split("|", 2) for l in open(V + "/tools/fixes.txt") if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
h = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
p = V + "/known_findings.txt"
old = [l for l in open(p).read().splitlines() if not l.startswith("fixed:")] if os.path.exists(p) else ["# finding: id=<ID> property=<P> <what fails>   a genuine defect left in place; only the stated class of inputs is excused", "# fixed: property=<P> <commit> <what failed>   repaired; suppresses nothing"]
for subj, prop, what in W:
    old.append("fixed: property=%s %s %s" % (prop, h[subj], what))
for s in h:
    if s.startswith("fix:") and s not in [w[0] for w in W]: print("not recorded:", s)
open(p, "w").write("\n".join(old) + "\n")

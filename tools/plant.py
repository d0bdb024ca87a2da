#!/usr/bin/env python3
"""plant.py [--nocheck] [--notest] [ids or prefixes...]: turns tools/bugs/*.py into seeded/<id>/, confirms each in scratch copies of /repo
(applies, builds, stable tests pass, demo 0 without / nonzero with), and runs the property's quick check on it."""
import sys, os, subprocess, shutil, json, glob, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
def bug(id, prop, file, edits, needs, breaks, demo, flags=""):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags))
for f in sorted(glob.glob(V + "/tools/bugs/*.py")):
    exec(open(f).read())
DEMO = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: does not
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -w -DTOON_USE_LAPACK -DTOON_CHECK_BOUNDS %s -I . "$(dirname "$0")/demo.cc" -o "$d/demo" -llapack -lblas || exit 3
timeout 60 "$d/demo"
'''
HEAD = '''#include <TooN/TooN.h>
#include <cstdlib>
#include <cmath>
#include <sstream>
#include <iostream>
#include <vector>
#include <complex>
#define CHECK(c) do { if (!(c)) { std::cerr << "fails: " #c << std::endl; exit(1); } } while (0)
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opt = [a for a in sys.argv[1:] if a.startswith("--")]
todo = [b for b in BUGS if not args or any(b["id"].startswith(a) for a in args)]
assert len(set(b["id"] for b in BUGS)) == len(BUGS)
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
def one(b):
    d = f"{V}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
    w = f"/tmp/plant/{b['id']}"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    R = w + "/repo"; sh(f"cp -a {os.environ.get('TOON_REPO', '/repo')} {R}")
    try:
        code = HEAD + b["demo"] if "int main" in b["demo"] else HEAD + re.sub(r"(?s)^(.*?)(?=\n---\n|\Z)", "", "") + _wrap(b["demo"])
        open(d + "/demo.cc", "w").write(code)
        if "fadbad.h" in b["demo"]:
            os.makedirs(d + "/FADBAD++", exist_ok=True); shutil.copy(V + "/harness/stubs/FADBAD++/fadiff.h", d + "/FADBAD++/")
        open(d + "/demo.sh", "w").write(DEMO % b["flags"]); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh(f"bash {d}/demo.sh", cwd=R)
        if r0.returncode: return b["id"], "DEMO FAILS ON CLEAN: " + r0.stdout[-1500:]
        for f, edits in ([(b["file"], b["edits"])] if isinstance(b["file"], str) else zip(b["file"], b["edits"])):
            p = R + "/" + f; s = open(p).read()
            for o, n in edits:
                if s.count(o) != 1: return b["id"], f"EDIT matches {s.count(o)} times in {f}: {o!r}"
                s = s.replace(o, n)
            open(p, "w").write(s)
        # the changed lines must be original ones
        base = sh("git rev-list --max-parents=0 HEAD", cwd=R).stdout.strip()
        r = sh("git diff", cwd=R); patch = r.stdout
        open(d + "/patch.diff", "w").write(patch)
        orig = sh(f"git diff --name-only {base} HEAD", cwd=R).stdout
        for f in ([b["file"]] if isinstance(b["file"], str) else b["file"]):
            o = sh(f"git show {base}:{f}", cwd=R).stdout.splitlines()
            for l in patch.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:] not in o and isinstance(b["file"], str): return b["id"], "CHANGES A LINE OF MY OWN: " + l
        msg = ""
        if "--notest" not in opt:
            for s in ("build.sh", "test.sh", "toon_build.sh"):
                open(w + "/" + s, "w").write(open("/opt/vp/" + s).read().replace("/opt/vp/toon_build.sh", w + "/toon_build.sh").replace("/repo", R))
            r = sh(f"bash {w}/build.sh")
            if r.returncode: return b["id"], "DOES NOT BUILD: " + r.stdout[-800:]
            r = sh(f"bash {w}/test.sh {w}/o.json"); o = json.load(open(w + "/o.json"))
            if o["failed"] and len(o["failed"]): return b["id"], "TESTS FAIL: " + str(o["failed"])
        r1 = sh(f"bash {d}/demo.sh", cwd=R)
        if r1.returncode in (0, 3): return b["id"], f"DEMO exits {r1.returncode} WITH THE CHANGE " + r1.stdout[-800:]
        msg = "ok; demo: " + r1.stdout.strip()[-120:]
        if "--nocheck" not in opt:
            r = sh(f"python3 {V}/check.py {b['prop']} quick", env=dict(os.environ, TOON_REPO=R, VERIF_SEED="1"))
            m = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            msg += f"\n     check {b['prop']}: exit {r.returncode} " + (("CAUGHT " + "; ".join([l for l in r.stdout.splitlines() if "VIOLATION" not in l][-2:])[:200]) if m and r.returncode == 1 else "*** MISSED *** " + r.stdout[-300:])
        return b["id"], msg
    finally: shutil.rmtree(w, ignore_errors=True)
def _wrap(s):
    inc = "".join(l + "\n" for l in s.splitlines() if l.startswith("#include")); rest = "\n".join(l for l in s.splitlines() if not l.startswith("#include"))
    return inc + "using namespace TooN;\nint main() {\n" + rest + "\n}\n"
with ThreadPoolExecutor(3) as ex:
    for i, m in ex.map(one, todo): print(f"{i}: {m}", flush=True)

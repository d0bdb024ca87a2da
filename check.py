#!/usr/bin/env python3
"""check.py ID [quick|thorough]          decide one property against /repo's working tree
   check.py ID --replay FILE             re-run one saved failing case
Exit 0: held on everything explored.  Exit 1 + 'VIOLATION property=ID replay=PATH': it is broken."""
import sys, os, json, time, subprocess, hashlib, glob, shutil, importlib.util
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TOON_REPO", "/repo")
H = os.path.join(V, "harness")
BUILD = os.path.join(V, "build")
os.environ["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", "")
os.environ["LC_ALL"] = "C"
# uninitialised heap memory is never accidentally zero
os.environ["MALLOC_PERTURB_"] = "165"
os.environ["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=202:detect_stack_use_after_return=0"
os.environ["UBSAN_OPTIONS"] = "print_stacktrace=0"
os.environ["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_bugs=1"
os.environ["OPENBLAS_NUM_THREADS"] = "1"
os.environ["OMP_NUM_THREADS"] = "1"

from properties_table import TABLE, CONFIGS  # noqa

def digest():
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(os.path.join(REPO, "TooN"))):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(p[len(REPO):].encode()); h.update(open(p, "rb").read())
    for p in sorted(glob.glob(H + "/*.h")) + sorted(glob.glob(H + "/stubs/*/*")) + [H + "/pbt.cc"]:
        h.update(open(p, "rb").read())
    return h

def compile_one(job):
    """job = (out, cmd); returns (ok, log)"""
    out, cmd = job
    if os.path.exists(out): return True, ""
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    log = ""
    for attempt in range(2):
        r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        log = r.stdout
        if r.returncode == 0:
            os.replace(tmp, out); return True, log
        time.sleep(1)
    return False, " ".join(cmd) + "\n" + log

def runs(cfg):
    """whether a trivial program built with this configuration runs here"""
    d = os.path.join(BUILD, "probe-%d" % os.getpid()); os.makedirs(d, exist_ok=True)
    with open(d + "/p.cc", "w") as f: f.write("#include <thread>\n#include <unistd.h>\n#include <sys/wait.h>\nint main() { if (!fork()) { std::thread t([] {}); t.join(); _exit(7); } int s; wait(&s); return !(WIFEXITED(s) && WEXITSTATUS(s) == 7); }\n")
    ok = False
    try: ok = subprocess.run([cfg["cc"], d + "/p.cc", "-o", d + "/p"] + cfg["flags"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 and subprocess.run([d + "/p"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode == 0
    except Exception: pass
    shutil.rmtree(d, ignore_errors=True)
    return ok

def main():
    pid = sys.argv[1]
    tier = "quick"
    replay = None
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"): tier = a
        elif a == "--replay": replay = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = TABLE[pid]
    base = digest()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    evfile = os.path.join(V, "evidence", pid + ".json")
    known = []
    fixed = []
    kf = os.path.join(V, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line.startswith("finding:") and ("property=" + pid + " ") in line:
                known.append(line)
    known_ids = [[w for w in k.split() if w.startswith("id=")][0][3:] for k in known]

    builds = [b for b in P["builds"] if tier == "thorough" or b.get("quick", 1)]
    left_out = []
    for b in list(builds):
        cfg = CONFIGS[b["config"]]
        if cfg.get("optional") and not runs(cfg): builds.remove(b); left_out.append(b["name"]); print("%s/%s: left out, this machine cannot run programs built so" % (pid, b["name"]))
    bins, jobs = [], []
    for b in builds:
        cfg = CONFIGS[b["config"]]
        cc = cfg["cc"]
        objs = []
        for s in b["src"] + ["pbt.cc"]:
            if isinstance(s, tuple): s, extra = s[0], list(s[1])
            else: extra = []
            src = os.path.join(H, s)
            flags = cfg["flags"] if s != "pbt.cc" else [f for f in cfg["flags"] if not f.startswith("-DTOON")]
            cmd = [cc, "-w", "-c", src, "-I", REPO, "-I", H, "-I", H + "/stubs"] + flags + extra
            k = base.copy(); k.update(open(src, "rb").read()); k.update(repr(cmd).encode())
            o = os.path.join(BUILD, "obj", k.hexdigest()[:24] + ".o")
            jobs.append((o, cmd)); objs.append(o)
        k = base.copy(); k.update(repr(objs).encode()); k.update(repr(cfg).encode())
        binp = os.path.join(BUILD, "bin", pid + "-" + k.hexdigest()[:20])
        bins.append((b, binp, [cc] + objs + cfg["flags"] + cfg.get("libs", []), objs))
    uniq = {}
    for o, c in jobs: uniq[o] = c
    with ThreadPoolExecutor(int(os.environ.get("VERIF_BUILD_JOBS", "8"))) as ex:
        res = list(ex.map(compile_one, uniq.items()))
        fail = [l for ok, l in res if not ok]
        if not fail:
            res = list(ex.map(compile_one, [(p, c) for _, p, c, _ in bins]))
            fail = [l for ok, l in res if not ok]
    tbuild = time.time() - t0
    rdir = os.path.join(BUILD, "replay"); os.makedirs(rdir, exist_ok=True)

    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": P["rule"], "samples": []},
          "assumptions": P.get("assumptions", []), "wall_s": 0.0, "violations": 0}
    def finish(rc):
        ev["wall_s"] = round(time.time() - t0, 2)
        with open(evfile, "w") as f: json.dump(ev, f, indent=1)
        # keep the object cache from growing without bound
        def age(f):
            try: return os.path.getmtime(f)
            except OSError: return time.time()  # another run has just removed it
        fs = sorted(glob.glob(BUILD + "/obj/*") + glob.glob(BUILD + "/bin/*"), key=age)
        while len(fs) > int(os.environ.get("VERIF_CACHE", "400")):
            if time.time() - age(fs[0]) < 7200: break  # may be in use by another run
            try: os.remove(fs.pop(0))
            except OSError: pass
        sys.exit(rc)

    if fail:
        path = os.path.join(rdir, pid + "-compile.log")
        with open(path, "w") as f: f.write("\n\n".join(fail))
        print("The documented calls this check makes do not compile against the current tree:")
        print("\n".join([l for l in fail[0].splitlines() if "error" in l][:6]))
        ev["violations"] = 1
        ev["coverage"]["samples"] = ["compile failure"]
        print("VIOLATION property=%s replay=%s" % (pid, path))
        finish(1)

    if replay:
        head = open(replay).read()
        for b, binp, _, _ in bins:
            if ("build " + b["name"]) in head or "build " not in head:
                r = subprocess.run([binp, "--replay", replay])
                if r.returncode == 1:
                    print("VIOLATION property=%s replay=%s" % (pid, replay)); sys.exit(1)
        sys.exit(0)

    agg = {"discarded": 0, "tests": {}, "classes": {}, "builds": {}, "draws": 0}
    rc = 0
    for b, binp, _, _ in bins:
        n = max(1, int(b["cases"][0 if tier == "quick" else 1] * float(os.environ.get("VERIF_SCALE", "1"))))
        if n <= 0: continue
        tl = b.get("time", (240, 5400))[0 if tier == "quick" else 1]
        outp = os.path.join(BUILD, "%s-%s-%s.json" % (pid, b["name"], os.getpid()))
        rout = os.path.join(rdir, "%s-%s-seed%d.txt" % (pid, b["name"], seed))
        attempts = 0; flaky = 0
        while True:
            attempts += 1
            cmd = [binp, "--seed", str(seed), "--cases", str(n), "--jobs", str(b.get("jobs", 8)), "--time", str(tl), "--cpu", str(b.get("cpu", 60)), "--out", outp, "--replay-out", rout]
            for k in known_ids: cmd += ["--known", k]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, errors="replace")
            if r.returncode in (0, 1): break
            if r.returncode == 3: flaky += 1
            sys.stderr.write("%s/%s: attempt %d ended with status %d\n%s\n" % (pid, b["name"], attempts, r.returncode, r.stdout))
            if flaky >= 2 or attempts >= 3: break
        try: st = json.load(open(outp)); os.remove(outp)
        except Exception: st = None
        if st:
            c = ev["coverage"]
            c["evaluations"] += st["evaluations"]; c["distinct_nontrivial"] += st["distinct_nontrivial"]
            agg["discarded"] += st["discarded"]; agg["draws"] += st["draws"]
            for k, v in st["tests"].items(): agg["tests"][k] = agg["tests"].get(k, 0) + v
            for k, v in st["tags"].items(): agg["classes"][k] = agg["classes"].get(k, 0) + v
            c["samples"] += [s for s in st["samples"] if len(c["samples"]) < 30]
            agg["builds"][b["name"]] = {"evaluations": st["evaluations"], "distinct_nontrivial": st["distinct_nontrivial"], "config": b["config"], "wall_s": round(st["wall"], 2), "all_cases_run": st["complete"]}
        print("%s/%s: %s cases, %s distinct non-trivial, %.1f s" % (pid, b["name"], st and st["evaluations"], st and st["distinct_nontrivial"], st["wall"] if st else -1))
        if r.returncode == 1 or flaky >= 2:
            sys.stdout.write(r.stdout)
            if r.returncode != 1:
                with open(rout, "w") as f: f.write("# fails in every full run, though not when the case is replayed alone (it depends on uninitialised data)\n# rerun: %s\n%s" % (" ".join(cmd), r.stdout))
            with open(rout, "a") as f: f.write("build %s\n# re-run with: python3 %s %s --replay %s\n" % (b["name"], os.path.join(V, "check.py"), pid, rout))
            ev["violations"] += 1
            print("VIOLATION property=%s replay=%s" % (pid, rout))
            rc = 1
            break
        if r.returncode != 0:
            sys.stderr.write("%s/%s: no answer\n" % (pid, b["name"])); rc = 2; break
    if left_out: ev["coverage"]["builds_left_out"] = left_out
    ev["coverage"].update({"generated_but_discarded": agg["discarded"], "choices_drawn": agg["draws"], "cases_per_test": agg["tests"], "classes": agg["classes"], "per_build": agg["builds"], "build_s": round(tbuild, 2)})
    if not ev["coverage"]["samples"]: ev["coverage"]["samples"] = ["(violation before any sample was kept)"]
    for k in known:
        hits = sum(v for n, v in agg["classes"].items() if "known finding " in n and any(("known finding " + i) in n for i in known_ids if ("id=" + i + " ") in k))
        print("KNOWN-FINDING: property=%s %s (%d cases of this run)" % (pid, k.split(" ", 3)[-1], hits))
    finish(rc)

sys.path.insert(0, V)
main()

#!/usr/bin/env python3
"""Judges planted bugs in scratch copies of /repo.
   seedcheck.py [--tests] [--checks[=C01,C02|own|all]] [--jobs=N] [id…]
   Default: patch applies, both trees build, demo exits 0 / nonzero. --tests: the stable tests pass with the patch.
   --checks: run.py of the bug's property (or the listed ones) against the patched copy, one after another."""
import concurrent.futures as cf, glob, json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a.startswith("--")]; ids = [a for a in sys.argv[1:] if not a.startswith("--")]
opt = dict((a[2:].split("=", 1) + ["own"])[:2] for a in args)
ids = ids or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(ROOT + "/seeded/*/patch.diff"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
if stable and isinstance(next(iter(stable)), dict): stable = {s["id"] for s in stable}
def sh(c, cwd, timeout=900, env=None):
    try: r = subprocess.run(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return 124, "timeout"
    return r.returncode, r.stdout.decode("utf-8", "replace")
def copy(base, name):
    d = os.path.join(base, name); subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/opt/vp/build.sh", d + "/../%s-build.sh" % name)
        t = "".join(l if "/opt/vp" in l and "/repo" not in l else l for l in t.splitlines(1)).replace("/repo", d)
        open("%s/%s-%s" % (base, name, f), "w").write(t)
    return d
def one(i):
    s = os.path.join(ROOT, "seeded", i); out = {"id": i}; base = tempfile.mkdtemp(prefix="seed-")
    try:
        a = copy(base, "x"); r, o = sh(["git", "apply", s + "/patch.diff"], a)
        if r: return dict(out, bad="patch: " + o[-300:])
        r, o = sh(["bash", base + "/x-build.sh"], a)
        if r: return dict(out, bad="build: " + o[-600:])
        if "nodemo" not in opt:
            d = os.path.join(base, "demo"); shutil.copytree(s, d, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
            c = copy(base, "c"); r, o = sh(["bash", base + "/c-build.sh"], c)
            if r: return dict(out, bad="clean build")
            t = time.time(); r, o = sh(["bash", d + "/demo.sh"], c, 300); out["clean"] = (r, round(time.time() - t), o[-200:] if r else "")
            t = time.time(); r, o = sh(["bash", d + "/demo.sh"], a, 300); out["patched"] = (r, round(time.time() - t), o[-200:])
        if "tests" in opt:
            r, o = sh(["bash", base + "/x-test.sh", base + "/o.json"], a)
            res = json.load(open(base + "/o.json")); p = res["passed"]; out["missing"] = sorted(stable - set(p))[:4]
        if "checks" in opt:
            prop = json.load(open(s + "/meta.json"))["property"]; w = opt["checks"]
            L = [prop] if w == "own" else ["C%02d" % k for k in range(1, 40) if os.path.exists("/verif/evidence/C%02d.json" % k)] if w == "all" else w.split(",")
            for c in L:
                t = time.time(); r, o = sh(["python3", ROOT + "/run.py", c], ROOT, 900, dict(os.environ, VERIF_REPO=a, VERIF_TIER=os.environ.get("VERIF_TIER", "quick"), VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
                out[c] = (r, round(time.time() - t), [l[:160] for l in o.splitlines() if "VIOLATION" in l or "stage" in l and "fail" in l][:3] if r else "")
        return out
    finally: shutil.rmtree(base)
with cf.ThreadPoolExecutor(int(opt.get("jobs", 4))) as p:
    for f in cf.as_completed([p.submit(one, i) for i in ids]):
        o = f.result(); ok = not o.get("bad") and (o.get("clean") is None or o["clean"][0] == 0 and o["patched"][0] not in (0, 3, 124)) and not o.get("missing")
        for k, v in o.items():
            if k[0] == "C" and k[1:].isdigit(): ok = ok and (v[0] == 1 or opt.get("checks") == "all")
        print("ok " if ok else "BAD", json.dumps(o), flush=True)

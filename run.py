#!/usr/bin/env python3
"""Runs one property check: builds the library flavours from /repo's working tree and the check's harness,
runs the generated-input search, confirms and stores a failing case, writes evidence/<ID>.json.

    run.py C04              tier from VERIF_TIER (quick), seed from VERIF_SEED (1)
    run.py --setup          builds everything all checks need
    run.py C04 --replay F   replays a stored case against the current tree
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

JOBS = os.cpu_count() or 8


class BuildError(Exception):
    pass


# ------------------------------------------------------------------ building
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "big"))
        h.update(p)
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def run_cmd(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode("utf-8", "replace")[-6000:]))
    return r.stdout


def publish(tmp, dst):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    os.replace(tmp, dst)


def repo_headers():
    return sorted(glob.glob(REPO + "/*.h"))


_hdr = None


def headers_digest():
    global _hdr
    if _hdr is None:
        _hdr = sha(*[x for h in repo_headers() for x in (os.path.basename(h), read(h))])
    return _hdr


def repo_sources(fast):
    """All C files of the library itself, with one of the two cores."""
    out = []
    for f in sorted(glob.glob(REPO + "/*.c")):
        b = os.path.basename(f)
        if b == ("xmss_core.c" if fast else "xmss_core_fast.c"):
            continue
        if re.search(rb"^\s*int\s+main\s*\(", read(f), re.M):
            continue
        out.append(f)
    return out


WRAPS_MOCK = "-Wl,--wrap=wots_pkgen,--wrap=wots_sign,--wrap=wots_pk_from_sig,--wrap=thash_h"
BASEFLAGS = ["-std=gnu11", "-fPIC", "-g1", "-w", "-fno-omit-frame-pointer"]
KINDS = {
    "plain": dict(cc="gcc", cflags=["-O3"], ldflags=[], shim=[]),
    "asan": dict(cc="gcc", cflags=["-O1", "-fsanitize=address,bounds", "-fno-sanitize-recover=bounds"],
                 ldflags=["-fsanitize=address,bounds"], shim=["-DSHIM_NO_SHA"]),
    "fuzz": dict(cc="clang", cflags=["-O1", "-fsanitize=address,bounds,fuzzer-no-link", "-fno-sanitize-recover=bounds"],
                 ldflags=["-fsanitize=address,bounds"], shim=[]),
}


_locks_lock = threading.Lock()
_locks = {}


def obj(cc, src, flags, extra=()):
    key = sha("obj", cc, " ".join(flags), src, read(src), headers_digest(), *[read(e) for e in extra])
    dst = os.path.join(BUILD, "obj", key + ".o")
    with _locks_lock:
        lock = _locks.setdefault(key, threading.Lock())
    with lock:
        if os.path.exists(dst):
            return dst
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        tmp = "%s.%d.%d.tmp.o" % (dst, os.getpid(), threading.get_ident())
        run_cmd([cc, *flags, "-I", REPO, "-I", HARN, "-c", src, "-o", tmp])
        publish(tmp, dst)
    return dst


def pmap(pool, f, items):
    return list(pool.map(f, items))


def lib_so(pool, flavour):
    """basic, fast, mockbasic, mockfast, the same with asan in front, and with yield in front"""
    fast = flavour.endswith("fast")
    mock = "mock" in flavour
    kind = KINDS["asan" if flavour.startswith("asan") else "plain"]
    fl = BASEFLAGS + kind["cflags"]
    srcs = [(s, fl) for s in repo_sources(fast)]
    gives = flavour.startswith("yield")
    srcs.append((HARN + "/shim.c", fl + kind["shim"] + (["-DSHIM_YIELD"] if gives else [])))
    if mock:
        srcs.append((HARN + "/mock.c", fl))
    extra = [HARN + "/mockmix.h"]
    objs = pmap(pool, lambda a: obj(kind["cc"], a[0], a[1], extra if a[0].startswith(HARN) else ()), srcs)
    key = sha("so", flavour, *objs)
    dst = os.path.join(BUILD, "lib", "%s-%s.so" % (flavour, key))
    if not os.path.exists(dst):
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        tmp = "%s.%d.%d.tmp" % (dst, os.getpid(), threading.get_ident())
        run_cmd([kind["cc"], "-shared", "-o", tmp, *objs, *kind["ldflags"], "-Wl,-Bsymbolic", "-Wl,--wrap=randombytes",
                 *([WRAPS_MOCK] if mock else []), *(["-Wl,--wrap=shake128,--wrap=shake256"] if gives else []), "-lcrypto"])
        publish(tmp, dst)
    return dst


# Declarations the harness relies on; a tree that no longer declares one of them this way only loses the
# stages that call it directly.
API = {
    "prf": ("hash.h", "int (*)(const xmss_params *, unsigned char *, const unsigned char *, const unsigned char *)"),
    "prf_keygen": ("hash.h", "int (*)(const xmss_params *, unsigned char *, const unsigned char *, const unsigned char *)"),
    "thash_h": ("hash.h", "int (*)(const xmss_params *, unsigned char *, const unsigned char *, const unsigned char *, uint32_t *)"),
    "thash_f": ("hash.h", "int (*)(const xmss_params *, unsigned char *, const unsigned char *, const unsigned char *, uint32_t *)"),
    "hash_message": ("hash.h", "int (*)(const xmss_params *, unsigned char *, const unsigned char *, const unsigned char *, unsigned long long, unsigned char *, unsigned long long)"),
    "wots_pkgen": ("wots.h", "void (*)(const xmss_params *, unsigned char *, const unsigned char *, const unsigned char *, uint32_t *)"),
    "wots_sign": ("wots.h", "void (*)(const xmss_params *, unsigned char *, const unsigned char *, const unsigned char *, const unsigned char *, uint32_t *)"),
    "wots_pk_from_sig": ("wots.h", "void (*)(const xmss_params *, unsigned char *, const unsigned char *, const unsigned char *, const unsigned char *, uint32_t *)"),
    "gen_leaf_wots": ("xmss_commons.h", "void (*)(const xmss_params *, unsigned char *, const unsigned char *, const unsigned char *, uint32_t *, uint32_t *)"),
    "shake128": ("fips202.h", "void (*)(unsigned char *, unsigned long long, const unsigned char *, unsigned long long)"),
    "shake256": ("fips202.h", "void (*)(unsigned char *, unsigned long long, const unsigned char *, unsigned long long)"),
    "ull_to_bytes": ("utils.h", "void (*)(unsigned char *, unsigned int, unsigned long long)"),
    "bytes_to_ull": ("utils.h", "unsigned long long (*)(const unsigned char *, unsigned int)"),
    "randombytes": ("randombytes.h", "void (*)(unsigned char *, unsigned long long)"),
    "xmssmt_core_seed_keypair": ("xmss_core.h", "int (*)(const xmss_params *, unsigned char *, unsigned char *, unsigned char *)"),
}


def missing_api(pool):
    def prog(names):
        s = "#include <stdint.h>\n#include \"params.h\"\n"
        for n in names:
            s += "#include \"%s\"\n" % API[n][0]
        for i, n in enumerate(names):
            s += "void *volatile p%d; void f%d(void) { %s = %s; (void)x; }\n" % (i, i, API[n][1].replace("(*)", "(*x)", 1), n)
        return s

    def ok(names):
        r = subprocess.run(["gcc", "-std=gnu11", "-w", "-Werror=incompatible-pointer-types", "-Werror=int-conversion",
                            "-Werror=implicit-function-declaration", "-fsyntax-only", "-I", REPO, "-x", "c", "-"],
                           input=prog(names).encode(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return r.returncode == 0

    names = sorted(API)
    if ok(names):
        return []
    good = pmap(pool, lambda n: ok([n]), names)
    return [n for n, g in zip(names, good) if not g]


def harness_bin(pool, check):
    c = CHECKS[check]
    asan = c.get("asan", False)
    fl = ["-std=c++17", "-O2", "-g1", "-Wall", "-Wextra", "-Wno-missing-field-initializers", "-Wno-dangling-reference"] + (["-fsanitize=address"] if asan else [])
    srcs = [HARN + "/" + s for s in ["engine.cpp"] + c.get("common", ["ref.cpp", "lib.cpp"]) + [c["src"]]]
    hh = sorted(glob.glob(HARN + "/*.hpp") + glob.glob(HARN + "/*.h"))
    objs = pmap(pool, lambda s: obj("g++", s, fl, hh), srcs)
    key = sha("bin", " ".join(c.get("ldflags", [])), *objs)
    dst = os.path.join(BUILD, "bin", "%s-%s" % (check, key))
    if not os.path.exists(dst):
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        tmp = "%s.%d.%d.tmp" % (dst, os.getpid(), threading.get_ident())
        run_cmd(["g++", *(["-fsanitize=address"] if asan else []), "-o", tmp, *objs, "-lrapidcheck", "-lcrypto", "-ldl", "-lpthread",
                 *c.get("ldflags", [])])
        publish(tmp, dst)
    return dst


def cli_bins(pool, variants):
    """The command-line tools, compiled like the Makefile does, outside /repo. variant: (mt, fast, kind), kind "",
    "mock" (cheap one-time functions) or "asan". Names: [kind_]xmss[mt]_<tool>[_fast]"""
    def one(a):
        tool, mt, fast, kind = a
        fl = ["-O1" if kind == "asan" else "-O3", "-w", "-g1"] + (["-fsanitize=address", "-fno-omit-frame-pointer"] if kind == "asan" else [])
        srcs = [REPO + "/ui/%s.c" % tool] + repo_sources(fast) + [HARN + "/shim_cli.c"] + ([HARN + "/mock.c"] if kind == "mock" else [])
        ff = fl + (["-DXMSSMT"] if mt else [])
        objs = [obj("gcc", s, ff, [HARN + "/mockmix.h"] if s.startswith(HARN) else ()) for s in srcs]
        key = sha("cli", tool, kind, *objs)
        name = "%s%s_%s%s" % (kind + "_" if kind else "", "xmssmt" if mt else "xmss", tool, "_fast" if fast else "")
        dst = os.path.join(BUILD, "cli", key, name)
        if not os.path.exists(dst):
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            tmp = "%s.%d.%d.tmp" % (dst, os.getpid(), threading.get_ident())
            run_cmd(["gcc", "-o", tmp, *objs, *(["-fsanitize=address"] if kind == "asan" else []), "-Wl,--wrap=randombytes,--wrap=malloc,--wrap=calloc,--wrap=realloc", *([WRAPS_MOCK] if kind == "mock" else []), "-lcrypto"])
            publish(tmp, dst)
        return name, dst

    todo = [(t, mt, f, k) for (mt, f, k) in variants for t in ("keypair", "sign", "open")]
    return dict(pmap(pool, one, todo))


def fuzz_bin(pool, src):
    k = KINDS["fuzz"]
    fl = BASEFLAGS + k["cflags"]
    objs = pmap(pool, lambda s: obj("clang", s, fl, [HARN + "/mockmix.h"]), repo_sources(False) + [HARN + "/shim.c", HARN + "/mock.c"])
    cfl = ["-std=c++17", "-O1", "-g1", "-fsanitize=address,bounds,fuzzer-no-link"]
    hh = sorted(glob.glob(HARN + "/*.hpp") + glob.glob(HARN + "/*.h"))
    objs += pmap(pool, lambda s: obj("clang++", s, cfl, hh), [HARN + "/" + src, HARN + "/ref.cpp"])
    key = sha("fuzz", *objs)
    dst = os.path.join(BUILD, "bin", "fuzz-" + key)
    if not os.path.exists(dst):
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        tmp = "%s.%d.%d.tmp" % (dst, os.getpid(), threading.get_ident())
        run_cmd(["clang++", "-fsanitize=address,bounds,fuzzer", "-o", tmp, *objs, "-Wl,--wrap=randombytes", WRAPS_MOCK, "-lcrypto"])
        publish(tmp, dst)
    return dst


def build(check):
    """Returns the harness binary and its arguments."""
    c = CHECKS[check]
    with cf.ThreadPoolExecutor(JOBS) as outer, cf.ThreadPoolExecutor(JOBS) as pool:
        headers_digest()
        fb = outer.submit(harness_bin, pool, check)
        fs = {f: outer.submit(lib_so, pool, f) for f in c.get("flavours", [])}
        fm = outer.submit(missing_api, pool)
        fc = outer.submit(cli_bins, pool, c["cli"]) if c.get("cli") else None
        ff = outer.submit(fuzz_bin, pool, c["fuzz"]) if c.get("fuzz") else None
        fx = outer.submit(c["extra_build"], sys.modules[__name__], pool) if c.get("extra_build") else None
        args = []
        for f, x in fs.items():
            args.append("--so_%s=%s" % (f, x.result()))
        m = fm.result()
        if m:
            args.append("--missing=" + ",".join(m))
        if fc:
            for n, p in fc.result().items():
                args.append("--bin_%s=%s" % (n, p))
        if ff:
            args.append("--fuzzbin=" + ff.result())
        if fx:
            args += fx.result()
        return fb.result(), args


def prune():
    """Keeps the git-ignored build folder from growing without bound over many trees."""
    ent = []
    for root, _, files in os.walk(BUILD):
        for f in files:
            p = os.path.join(root, f)
            try:
                st = os.stat(p)
                ent.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    total = sum(e[1] for e in ent)
    if total < 3 << 30:
        return
    for mt, size, p in sorted(ent):
        if time.time() - mt < 3600 or total < 2 << 30:
            break
        try:
            os.unlink(p)
            total -= size
        except OSError:
            pass


# ------------------------------------------------------------------ running
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=1")


def parse_fail(path):
    d = {}
    for line in open(path, errors="replace"):
        k, _, v = line.rstrip("\n").partition("=")
        if k and k not in d:
            d[k] = v
    return d


def replay(binary, args, tier, seed, path, work, limit):
    def lim():
        resource.setrlimit(resource.RLIMIT_CPU, (limit + 5, limit + 10))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = subprocess.run([binary, *args, "--tier=" + tier, "--seed=%d" % seed, "--work=" + work, "--replay=" + path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=limit + 30, preexec_fn=lim,
                           start_new_session=True)
    except subprocess.TimeoutExpired:
        return True, "did not end within %d s" % limit
    out = r.stdout.decode("utf-8", "replace")
    if r.returncode == 0:
        return False, "passes"
    if r.returncode == 1 and "REPLAY-FAIL" in out:
        return True, out[out.index("REPLAY-FAIL"):].strip()[:1500]
    if r.returncode in (2, 3):
        return False, "cannot be replayed: " + out[-500:]
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*)", out)
    where = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+ \S+)", out)[:4]
    if r.returncode < 0:
        return True, "killed by signal %d" % -r.returncode
    return True, "exit status %d %s %s" % (r.returncode, m.group(1) if m else "", "; ".join(where))


def known_findings(check):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == check:
                out.append((m.group(2), m.group(3).strip()))
    return out


def collect(work):
    stages, order = {}, []
    rules = {}
    rp = os.path.join(work, "rules")
    if os.path.exists(rp):
        for line in open(rp):
            k, _, v = line.rstrip("\n").partition("\t")
            rules[k] = v
            order.append(k)
    for f in sorted(glob.glob(work + "/stats.*")):
        cur = None
        for line in open(f, errors="replace"):
            t, _, v = line.rstrip("\n").partition(" ")
            if t == "stage":
                cur = stages.setdefault(v, dict(evaluations=0, nontrivial=0, skipped=0, shrink_runs=0, labels={}, samples=[], hashes=set(), cpu=0.0, longest=0.0))
            elif t == "n":
                a = list(map(int, v.split()))
                for k, x in zip(("evaluations", "nontrivial", "skipped", "shrink_runs"), a):
                    cur[k] += x
            elif t == "t":
                a = list(map(float, v.split()))
                cur["cpu"] += a[0]
                cur["longest"] = max(cur["longest"], a[1])
            elif t == "l":
                n, _, name = v.partition(" ")
                cur["labels"][name] = cur["labels"].get(name, 0) + int(n)
            elif t == "s":
                if len(cur["samples"]) < 3:
                    cur["samples"].append(v[:600])
            elif t == "h":
                cur["hashes"].add(v)
    return stages, order, rules


def evidence(check, tier, seed, level, wall, work, violations, notes, extra=None):
    stages, order, rules = collect(work)
    cov = dict(
        evaluations=sum(s["evaluations"] for s in stages.values()),
        distinct_nontrivial=sum(len(s["hashes"]) for s in stages.values()),
        rule=CHECKS[check]["rule"] + " Per stage: " + " | ".join("%s: %s" % (k, rules[k]) for k in order),
        samples=[("%s: %s" % (k, x)) for k in order if k in stages for x in stages[k]["samples"][:2]],
        stages={k: dict(evaluations=s["evaluations"], distinct_nontrivial=len(s["hashes"]), skipped=s["skipped"],
                        shrink_runs=s["shrink_runs"], worker_s=round(s["cpu"], 1), longest_case_s=round(s["longest"], 2), classes=dict(sorted(s["labels"].items())))
                for k in order if k in stages for s in [stages[k]]},
        notes=notes,
    )
    if extra:
        for k, v in extra.items():
            if k in ("evaluations", "distinct_nontrivial"):
                cov[k] += v
            elif k == "samples":
                cov[k] += v
            else:
                cov[k] = v
    ev = dict(property=check, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=CHECKS[check].get("assumptions", []), wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", check + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)
    return cov


def with_history(binary, args, tier, seed, fail, keep, work):
    """A failure that does not show in a process of its own may need what the same process did before. Runs the cases the
    worker ran before it, in order, and keeps the shortest tail of them (by powers of two) after which it fails again."""
    try:
        lines = open(fail.replace("/fail.", "/ran.")).read().splitlines()
    except OSError:
        return False
    if len(lines) < 2:
        return False
    stage, case = lines[-1].split("\t", 1)
    before = lines[:-1]
    d = parse_fail(fail)
    end = time.time() + 240

    def fails(n):
        with open(keep + ".try", "w") as f:
            f.write("check=%s\nstage=%s\nkind=case\n" % (d.get("check", ""), stage))
            for b in before[len(before) - n:]:
                f.write("before=%s\n" % b)
            f.write("case=%s\nwhy=%s\n" % (case, d.get("why", "")))
        bad, why = replay(binary, args, tier, seed, keep + ".try", work, int(max(5, end - time.time())))
        return bad and not why.startswith("did not end") and not re.match(r"killed by signal (9|15|24)$", why)

    try:
        n = 1
        while time.time() < end:
            n = min(n, len(before))
            if fails(n) and fails(n):
                os.replace(keep + ".try", keep)
                return True
            if n == len(before):
                return False
            n *= 4
    finally:
        if os.path.exists(keep + ".try"):
            os.unlink(keep + ".try")
    return False


def violation(check, path):
    print("VIOLATION property=%s replay=%s" % (check, path))
    sys.stdout.flush()


def main():
    argv = sys.argv[1:]
    if argv and argv[0] == "--setup":
        for c in CHECKS:
            build(c)
        return 0
    check = argv[0]
    c = CHECKS[check]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        binary, args = build(check)
    except BuildError as e:
        print("build failed:\n%s" % e)
        return 2
    args = ["--id=" + check] + args + c.get("args", [])
    if len(argv) > 2 and argv[1] == "--replay":
        work = tempfile.mkdtemp(prefix="verif-%s-" % check)
        try:
            bad, why = replay(binary, args, tier, seed, os.path.abspath(argv[2]), work, 600)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print("%s: %s" % ("reproduced" if bad else "not reproduced", why))
        if bad:
            violation(check, os.path.abspath(argv[2]))
        return 1 if bad else 0
    more = [a for a in argv[1:] if a.startswith("--")]
    work = tempfile.mkdtemp(prefix="verif-%s-" % check, dir=os.environ.get("VERIF_TMP"))
    budget = c.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
    notes = []
    violations = 0
    rc = 0
    try:
        cmd = [binary, *args, "--tier=" + tier, "--seed=%d" % seed, "--work=" + work, "--budget=%d" % budget, "--workers=%d" % min(JOBS, 16), *more]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=budget + 300)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            notes.append("harness ended after %d s" % (budget + 300))
        out = out.decode("utf-8", "replace")
        if os.path.exists(work + "/budget"):
            notes.append(open(work + "/budget").read().strip() + "; the remaining cases were not run")
        fails = sorted(glob.glob(work + "/fail.[0-9]*"))
        fails = [f for f in fails if not f.endswith(".tmp")]
        known = known_findings(check)
        unrepro = []
        for f in fails:
            d = parse_fail(f)
            sig = sha(d.get("stage", ""), d.get("case", ""))[:12]
            keep = os.path.join(VERIF, "evidence", "replay", "%s-%s-%s.txt" % (check, d.get("stage", "x"), sig))
            os.makedirs(os.path.dirname(keep), exist_ok=True)
            shutil.copyfile(f, keep)
            limit = 110 if d.get("kind") == "hang" else 300
            tries = 1 if d.get("kind") == "hang" else 3
            hits, why = 0, ""
            for _ in range(tries):
                bad, w = replay(binary, args, tier, seed, keep, work, limit)
                hits += bad
                why = w if bad or not why else why
            print("%s %s: %s\n  case: %s\n  replay: %d of %d fail: %s" % (check, d.get("stage"), d.get("why"), d.get("case"), hits, tries, why))
            if hits == 0 and d.get("kind") != "hang" and with_history(binary, args, tier, seed, f, keep, work):
                hits = 1
                print("  it fails after other cases in the same process: %s" % keep)
            if hits == 0:
                unrepro.append(keep)
                continue
            kn = [k for k in known if k[0] == sig]
            if kn:
                print("KNOWN-FINDING: property=%s %s" % (check, kn[0][1]))
                continue
            violations += 1
            violation(check, keep)
            rc = 1
            break
        if rc == 0 and unrepro:
            notes.append("%d failing cases did not fail again when replayed: %s" % (len(unrepro), unrepro[0]))
            print("not reproducible: " + unrepro[0])
        if rc == 0 and not fails and p.returncode != 0:
            tail = out[-3000:]
            print(tail)
            print("harness ended with status %d" % p.returncode)
            notes.append("harness ended with status %d: %s" % (p.returncode, tail[-300:]))
            rc = 2
        extra = None
        if rc == 0 and c.get("post"):
            r, extra = c["post"](sys.modules[__name__], check, tier, seed, binary, args, work, notes)
            if r:
                violations += 1
                violation(check, r)
                rc = 1
        cov = evidence(check, tier, seed, c["level"], time.time() - t0, work, violations, notes, extra)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s%s" % (
            check, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0,
            "" if not notes else " [" + "; ".join(notes) + "]"))
        for k, s in cov["stages"].items():
            print("   %-18s %7d cases %7d non-trivial %6.1f s (max %.2f)%s %s" % (k, s["evaluations"], s["distinct_nontrivial"], s["worker_s"], s["longest_case_s"],
                  " %d skipped" % s["skipped"] if s["skipped"] else "", s["classes"]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
        prune()
    return rc


if __name__ == "__main__":
    sys.exit(main())

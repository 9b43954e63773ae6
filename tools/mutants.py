#!/usr/bin/env python3
"""Mutation sweep, to find what the checks miss: small random changes of /repo's sources, each judged by the checks in
   turn until one reports it. mutants.py [--seed=N] [--count=N] [--jobs=N] [--out=FILE] [file…]
   Works on scratch copies; mutants that compile to the same code are left out."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
opt = dict((a[2:].split("=", 1) + ["1"])[:2] for a in sys.argv[1:] if a.startswith("--"))
files = [a for a in sys.argv[1:] if not a.startswith("--")] or "params.c hash.c fips202.c hash_address.c randombytes.c wots.c xmss.c xmss_commons.c utils.c xmss_core.c xmss_core_fast.c ui/sign.c ui/open.c ui/keypair.c".split()
ORDER = {"ui": "C18 C14 C15 C23 C24 C19", "params.c": "C10 C04 C11 C21 C12 C18", "randombytes.c": "C13 C22 C16 C21", "fips202.c": "C09 C04 C17 C21 C22",
         "": "C04 C05 C02 C07 C08 C06 C01 C12 C03 C11 C20 C21 C22 C16 C17 C10 C14 C13 C09"}
OPS = [(r"(?<![<>=!+\-*/&|^%-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![<>=!-])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r"&&", "||"), (r"\|\|", "&&"), (r"<<", ">>"), (r">>", "<<"),
       (r"(?<!\|)\|(?!\|)", "&"), (r"(?<!&)&(?![&\w])", "|"), (r" \* ", " + "), (r" / 2", " / 4"), (r" % ", " / "), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"),
       (r"\b(\d+)\b", lambda m: str(int(m[1]) + 1)), (r"\b(\d+)\b", lambda m: str(max(0, int(m[1]) - 1))), (r"\+=", "-="), (r"-=", "+="), (r"\^=", "|="), (r"\+\+", "--"),
       (r"unsigned long long", "unsigned int"), (r"uint64_t", "uint32_t"), (r"params->n\b", "params->padding_len"), (r"tree_height", "full_height"), (r"full_height", "tree_height"), (r"index_bytes", "n"),
       (r"sk_seed", "pub_seed"), (r"pub_seed", "sk_seed"), (r"^(\s+)[^;{}=]*\([^;{}]*\);$", r"\1;"), (r"^(\s+)[\w\[\]>.\-]+ [+|^]?= [^;]*;$", r"\1;"), (r"\bif \((?!.*\bNULL)(.*)\) \{$", r"if (!(\1)) {")]


def code(text):
    """Line numbers without comments and preprocessor lines."""
    out, c = [], False
    for i, l in enumerate(text):
        s = l.strip()
        if c or s.startswith("/*"):
            c = "*/" not in s
            continue
        if s and not s.startswith(("//", "#", "*")):
            out.append(i)
    return out


def mutants(n, seed):
    r = random.Random(seed)
    src = {f: open("/repo/" + f).read().split("\n") for f in files}
    lines = [(f, i) for f in files for i in code(src[f])]
    seen = set()
    while len(seen) < n:
        f, i = r.choice(lines)
        a, b = r.choice(OPS)
        l = src[f][i]
        ms = list(re.finditer(a, l.split("//")[0]))
        if not ms:
            continue
        m = r.choice(ms)
        new = l[:m.start()] + m.expand(b) + l[m.end():] if isinstance(b, str) else l[:m.start()] + b(m) + l[m.end():]
        if new == l or (f, i, new) in seen:
            continue
        seen.add((f, i, new))
        yield f, i, l, new


def obj(d, f):
    o = b""
    for fl in ([], ["-DXMSSMT"]) if f.startswith("ui/") else ([],):
        t = tempfile.mktemp(suffix=".s")
        if subprocess.run(["gcc", "-w", "-O2", *fl, "-S", "-o", t, f], cwd=d, stderr=subprocess.DEVNULL).returncode:
            return None
        o += open(t, "rb").read()
        os.unlink(t)
    return o


def one(a):
    f, i, old, new = a
    res = dict(file=f, line=i + 1, old=old.strip(), new=new.strip())
    base = tempfile.mkdtemp(prefix="mut-")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C " + base, shell=True, check=True)
        before = obj(base, f)
        t = open(base + "/" + f).read().split("\n")
        t[i] = new
        open(base + "/" + f, "w").write("\n".join(t))
        after = obj(base, f)
        if after is None or after == before:
            return None
        env = dict(os.environ, VERIF_REPO=base, VERIF_NOSHRINK="1", VERIF_TMP=base)
        res["killed"] = None
        for c in ORDER.get(f, ORDER["ui" if f.startswith("ui") else ""]).split():
            t0 = time.time()
            p = subprocess.Popen(["python3", ROOT + "/run.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
            try:
                o = p.communicate(timeout=400)[0].decode("utf-8", "replace")
                rc = p.returncode
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.communicate()
                rc, o = 124, ""
            if rc:
                res["killed"], res["rc"], res["s"] = c, rc, round(time.time() - t0)
                res["why"] = next((l for l in o.splitlines() if l.startswith(c + " ")), o[-200:])[:200]
                if rc == 1 or rc == 124:
                    break
        return res
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    out = open(opt.get("out", "/tmp/mutants.jsonl"), "a")
    n = k = 0
    with cf.ThreadPoolExecutor(int(opt.get("jobs", 3))) as ex:
        for r in ex.map(one, mutants(int(opt.get("count", 100)), int(opt.get("seed", 1)))):
            if r is None:
                continue
            n += 1
            k += bool(r["killed"])
            out.write(json.dumps(r) + "\n")
            out.flush()
            print("%d/%d %-5s %-5s %s:%d  %s  ->  %s" % (k, n, r["killed"] or "ALIVE", r.get("rc", ""), r["file"], r["line"], r["old"], r["new"]), flush=True)

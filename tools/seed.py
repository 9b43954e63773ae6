#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for the planted bugs listed in seedlist.py (patches against /repo's HEAD)."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from seedlist import SEEDS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(ROOT, "tools", "seedsrc")
HEAD = '''#!/bin/bash
# %s
# Run in the repository after its build: exit 0 when the property holds here, nonzero when it is broken.
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 3; trap 'rm -rf "$t"' EXIT
C="params.c hash.c fips202.c hash_address.c wots.c xmss.c xmss_commons.c utils.c"
cc_() { gcc -w -O2 -I. -I"$here" "$@" -lcrypto || exit 3; }
'''
def main():
    want = set(sys.argv[1:])
    for s in SEEDS:
        if want and s["id"] not in want: continue
        d = os.path.join(ROOT, "seeded", s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        w = tempfile.mkdtemp()
        try:
            subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (w, w), shell=True, check=True)
            for f, old, new, *cnt in s["edits"]:
                p = os.path.join(w, f); t = open(p).read(); n = t.count(old); k = cnt[0] if cnt else None
                if k is None and n != 1: sys.exit("%s: %d places in %s for %r" % (s["id"], n, f, old))
                if k is None or k == "all": t = t.replace(old, new)
                else:                      # k-th occurrence, counted from 0
                    at = -1
                    for _ in range(k + 1): at = t.index(old, at + 1)
                    t = t[:at] + new + t[at + len(old):]
                open(p, "w").write(t)
            diff = subprocess.run(["git", "-C", w, "diff", "--no-color"], stdout=subprocess.PIPE, text=True, check=True).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
        finally: shutil.rmtree(w)
        files = {"common.h"} | set(s.get("use", []))
        for f in files: shutil.copy(os.path.join(SRC, f) if os.path.exists(os.path.join(SRC, f)) else os.path.join(ROOT, "harness", "plat", f), d)
        for f, t in s.get("files", {}).items(): open(os.path.join(d, f), "w").write(t)
        with open(os.path.join(d, "demo.sh"), "w") as o: o.write(HEAD % s["shows"] + s["sh"].strip() + "\n")
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(s["id"])
main()

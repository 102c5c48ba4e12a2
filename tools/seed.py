#!/usr/bin/env python3
"""Development helper: creates and tries planted bugs in a scratch clone of the repository.

usage: seed.py make SPEC.py     write seeded/<id>/ from the specifications in SPEC.py
       seed.py try ID...        demo on both trees, native tests and checks with the bug applied
"""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/sc/repo"

DEMO = """#!/bin/bash
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w %s-I include "$d/demo.cpp" -o "$t/demo"
"$t/demo"
"""

# for code which needs the field library
DEMO_KIT = """#!/bin/bash
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
tar -xJf "$d/kit.tar.xz" -C "$t"
g++ -std=c++17 -O1 -w -fconstexpr-ops-limit=4294967295 -I "$t/kit" -I "$t/shim" -I include "$d/demo.cpp" -o "$t/demo" -lboost_random
"$t/demo" > /dev/null
"""

def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def reset():
    if not os.path.exists(SC):
        os.makedirs("/tmp/sc", exist_ok=True)
        sh("git clone -q /repo " + SC)
    sh("git fetch -q origin && git reset -q --hard origin/HEAD && git clean -fdq", cwd=SC)

def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns["BUGS"]:
        reset()
        for f, old, new in b["edits"]:
            p = os.path.join(SC, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(VERIF, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", cwd=SC).stdout)
        open(os.path.join(d, "demo.cpp"), "w").write(b["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(b.get("demo_sh") or (DEMO_KIT if b.get("kit") else DEMO % b.get("flags", "")))
        if b.get("kit"):
            shutil.copy("/tmp/kit.tar.xz", os.path.join(d, "kit.tar.xz"))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", b["id"])

def native_tests():
    r = []
    for t in ("manifest", "detail/huang_lu"):
        o = sh("g++ -std=c++17 -O1 -w -Iinclude -DBOOST_TEST_DYN_LINK test/%s.cpp -o /tmp/sc/t -lboost_unit_test_framework && /tmp/sc/t" % t, cwd=SC)
        r.append(o.returncode)
    return r

def try_(ids):
    for i in ids:
        d = os.path.join(VERIF, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        reset()
        clean = sh(["bash", os.path.join(d, "demo.sh")], cwd=SC)
        a = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=SC)
        if a.returncode:
            print(i, "does not apply", a.stdout)
            continue
        dirty = sh(["bash", os.path.join(d, "demo.sh")], cwd=SC)
        nt = native_tests()
        env = dict(os.environ, VERIF_REPO=SC)
        props = [meta["property"]]
        res = {}
        for p in props:
            c = sh(["python3", os.path.join(VERIF, "bin/check.py"), p], cwd=VERIF, env=env)
            res[p] = c.returncode
            first = next((l for l in c.stdout.splitlines() if l.startswith("  ")), c.stdout[-300:])
        print("%s demo clean=%d bug=%d native tests %s check %s  %s" % (i, clean.returncode, dirty.returncode, nt, res, first[:150]))
        if clean.returncode:
            print(clean.stdout[-1500:])
        sys.stdout.flush()
    reset()

if sys.argv[1] == "make":
    make(sys.argv[2])
else:
    try_(sys.argv[2:] or sorted(os.listdir(os.path.join(VERIF, "seeded"))))

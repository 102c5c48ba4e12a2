#!/usr/bin/env python3
"""Builds and runs the harnesses of one property against the working tree of the repository.

usage: check.py ID              run the check of a property (VERIF_SEED, VERIF_TIER)
       check.py --build [ID..]  only build
       check.py ID --replay F   replay a recorded case
Exit: 0 held, 1 violation (line VIOLATION property=ID replay=PATH), 2 the check itself failed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
sys.path.insert(0, HERE)
from registry import CHECKS, PROFILES  # noqa: E402

JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def flags(profile):
    return PROFILES[profile] + ["-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(REPO, "include"),
                                "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "harness")]


def compiler():
    return "g++"


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


class BuildError(Exception):
    pass


def compile_unit(src, profile, extra):
    fl = flags(profile) + extra
    path = os.path.join(VERIF, "harness", src)
    pre = subprocess.run([compiler()] + fl + ["-E", "-P", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        raise BuildError("preprocessing %s failed:\n%s" % (src, pre.stderr.decode(errors="replace")[-3000:]))
    rel = [f for f in fl if not f.startswith("-I")]
    h = hashlib.sha256(pre.stdout + "\0".join(rel).encode()).hexdigest()[:32]
    obj = os.path.join(BUILD, h + ".o")
    if not os.path.exists(obj):
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        r = run([compiler()] + fl + ["-c", path, "-o", tmp])
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-6000:]))
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


def link(objs, name, profile):
    h = hashlib.sha256(("\0".join(objs) + profile).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "%s-%s" % (name, h))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        r = run([compiler()] + PROFILES[profile] + objs + ["-o", tmp, "-lpthread"] + (["-lboost_random"] if profile != "san" else []))
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" % (name, r.stderr[-3000:]))
        os.replace(tmp, exe)
    else:
        os.utime(exe)
    return exe


def build(ids):
    """Returns {id: [(harness, exe)]}; raises BuildError."""
    os.makedirs(BUILD, exist_ok=True)
    jobs = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for i in ids:
            for hn in CHECKS[i]["harnesses"]:
                for src in hn["sources"]:
                    key = (src, hn["profile"], tuple(hn.get("flags", [])))
                    if key not in jobs:
                        jobs[key] = ex.submit(compile_unit, src, hn["profile"], list(hn.get("flags", [])))
        errors = []
        for key, j in jobs.items():
            try:
                j.result()
            except BuildError as e:
                errors.append(str(e))
    if errors:
        raise BuildError("\n".join(errors))
    out = {}
    for i in ids:
        out[i] = []
        for hn in CHECKS[i]["harnesses"]:
            objs = [jobs[(s, hn["profile"], tuple(hn.get("flags", [])))].result() for s in hn["sources"]]
            out[i].append((hn, link(objs, hn["name"], hn["profile"])))
    return out


def prune():
    """Keeps the build directory bounded."""
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        fs = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in fs if os.path.isfile(f)), reverse=True)
        total = 0
        for _, size, f in fs:
            total += size
            if total > 6 << 30:
                os.unlink(f)
    except OSError:
        pass


def known_findings(pid):
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, what = rest.split(" ", 1)
                assert key.startswith("key=")
                res.append((key[4:], what))
    return res


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build":
        ids = args[1:] or sorted(CHECKS)
        bad = 0
        prune()
        try:
            build(ids)
        except BuildError as e:
            # each check reports its own build problems
            print(str(e)[-4000:])
            bad = 1
        return 0 if not bad or os.environ.get("VERIF_BUILD_STRICT") != "1" else 2
    pid = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    t0 = time.time()
    spec = CHECKS[pid]
    try:
        exes = build([pid])[pid]
    except BuildError as e:
        print("check %s: the harness cannot be built against the working tree" % pid)
        print(str(e)[-6000:])
        return 2
    if "--replay" in args:
        f = args[args.index("--replay") + 1]
        rc = 2
        for hn, exe in exes:
            r = run([exe, "--replay", f])
            if r.returncode in (0, 1):
                print(r.stdout)
                rc = r.returncode
        return rc
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    known = known_findings(pid)
    env = dict(os.environ)
    env["VERIF_SEED"] = str(seed)
    env["VERIF_TIER"] = tier
    env["PBT_KNOWN"] = ",".join(k for k, _ in known)
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1")
    total = {"evaluations": 0, "distinct_nontrivial": 0, "oracle_checks": 0, "discarded": 0, "violations": 0}
    per_test, labels, samples = {}, {}, []
    rc = 0
    for hn, exe in exes:
        if total["violations"] and time.time() - t0 > 300:
            print("check %s: harness %s was not run any more" % (pid, hn["name"]))
            continue
        summary = os.path.join(BUILD, "%s.%s.summary.json" % (pid, hn["name"]))
        if os.path.exists(summary):
            os.unlink(summary)
        cmd = [exe, "--property", pid, "--replay-dir", REPLAYS, "--summary", summary, "--workers", str(hn.get("workers", 8))]
        if "only" in hn:
            cmd += ["--only", hn["only"]]
        r = run(cmd, env=env)
        sys.stdout.write(r.stdout)
        if r.returncode not in (0, 1) or not os.path.exists(summary):
            sys.stdout.write(r.stderr[-3000:])
            print("check %s: harness %s ended with status %d" % (pid, hn["name"], r.returncode))
            rc = max(rc, 2)
            continue
        s = json.load(open(summary))
        os.unlink(summary)
        for k in total:
            total[k] += s[k]
        for k, v in s["per_test"].items():
            per_test[hn["name"] + "/" + k] = v
        for k, v in s["labels"].items():
            labels[hn["name"] + "/" + k] = v
        samples += s["samples"]
        if r.returncode == 1:
            rc = 1 if rc in (0, 1) else rc
    if total["violations"]:
        rc = 1
    for key, what in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["evaluations"],
            "distinct_nontrivial": total["distinct_nontrivial"],
            "rule": spec["rule"],
            "samples": samples[:12],
            "exhaustive": False,
            "oracle_checks": total["oracle_checks"],
            "discarded": total["discarded"],
            "per_test": per_test,
            "labels": labels,
        },
        "assumptions": spec.get("assumptions", []),
        "violations": total["violations"],
        "wall_s": round(time.time() - t0, 3),
    }
    tmp = os.path.join(EVIDENCE, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(EVIDENCE, pid + ".json"))
    if rc == 0:
        print("property %s held on %d generated cases (%d distinct non-trivial), tier %s, seed %d, %.1f s" %
              (pid, total["evaluations"], total["distinct_nontrivial"], tier, seed, time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())

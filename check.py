#!/usr/bin/env python3
"""Driver of the checks:  check.py <property> [quick|thorough]

Builds the explorers of the property from /repo's working tree, runs them,
writes evidence/<property>.json and prints the verdict.

exit 0: held on everything explored; exit 1: VIOLATION line printed;
anything else: error of the check.
"""
import concurrent.futures
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LAGER_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
REPLAY = os.path.join(HERE, "replay")
KNOWN = os.path.join(HERE, "known_findings.txt")
sys.path.insert(0, HERE)
from registry import CHECKS, MODES  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def file_hash(p):
    try:
        with open(p, "rb") as f:
            return hashlib.sha1(f.read()).hexdigest()
    except OSError:
        return "missing"


def pkg(libs):
    if not libs:
        return [], []
    c = sh(["pkg-config", "--cflags"] + libs)
    l = sh(["pkg-config", "--libs"] + libs)
    if c.returncode or l.returncode:
        raise RuntimeError(c.stdout + l.stdout)
    return c.stdout.split(), l.stdout.split()


def compile_one(src, obj, flags):
    """compile unless an up to date object exists (content hashes of all the
    files that the previous compilation read)"""
    stamp = obj + ".stamp"
    cmd = ["g++", "-std=c++17", "-g", "-Wno-deprecated-declarations",
           "-I" + REPO, "-I" + HERE] + flags + \
          ["-MD", "-MF", obj + ".d", "-c", src, "-o", obj]
    key = " ".join(cmd)
    try:
        st = json.load(open(stamp))
        if st["key"] == key and os.path.exists(obj) and \
           all(file_hash(p) == h for p, h in st["deps"].items()):
            return
    except Exception:
        pass
    for f in (stamp, obj):
        if os.path.exists(f):
            os.unlink(f)
    r = sh(cmd)
    if r.returncode:
        raise RuntimeError("compilation of %s failed:\n%s" %
                           (src, "\n".join(r.stdout.splitlines()[:60])))
    deps = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    json.dump({"key": key, "deps": {p: file_hash(p) for p in deps}},
              open(stamp, "w"))


def moc(header):
    """what Qt's compiler generates from the header, as build/moc_HEADER.cpp"""
    r = subprocess.run(["moc", "-I" + REPO, "-I" + HERE,
                        os.path.join(HERE, "checks", header)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise RuntimeError("moc failed:\n" + r.stderr)
    with open(os.path.join(BUILD, "moc_" + header.replace(".hpp", ".cpp")),
              "w") as f:
        f.write(r.stdout)


def build(b):
    os.makedirs(BUILD, exist_ok=True)
    mode = MODES[b["mode"]]
    name = b["src"].replace(".cpp", "").replace("/", "_")
    cflags, libs = pkg(b.get("pkg", []))
    flags = mode["cflags"] + b.get("cflags", []) + cflags
    for h in b.get("moc", []):  # included by the source
        flags = flags + ["-I" + BUILD]
    tag = hashlib.sha1(" ".join(flags).encode()).hexdigest()[:8]
    objs = []
    srcs = [os.path.join(HERE, "checks", b["src"])]
    jobs = [(srcs[0], os.path.join(BUILD, "%s.%s.o" % (name, tag)), flags)]
    for extra in ["engine/mc.cpp"] + mode.get("engine", []) + b.get("engine", []):
        eflags = mode.get("cflags_of", {}).get(extra, mode["cflags"])
        etag = hashlib.sha1(" ".join(eflags).encode()).hexdigest()[:8]
        jobs.append((os.path.join(HERE, extra), os.path.join(
            BUILD, "%s.%s.o" % (os.path.basename(extra).replace(".cpp", ""),
                                etag)), eflags))
    for j in jobs:
        objs.append(j[1])
    exe = os.path.join(BUILD, "%s.%s" % (name, tag))
    return jobs, objs, exe, mode["ldflags"] + b.get("ldflags", []) + libs


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        "VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    limit = 840 if tier == "quick" else 6 * 3600
    conf = CHECKS[prop]
    bins = [b for b in conf["bins"] if tier == "thorough" or
            not b.get("thorough_only")]
    os.makedirs(REPLAY, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    # build everything in parallel
    os.makedirs(BUILD, exist_ok=True)
    for h in sorted({h for b in bins for h in b.get("moc", [])}):
        try:
            moc(h)
        except (OSError, RuntimeError) as e:
            print("ERROR: %s" % e)
            sys.exit(2)
    plans = [build(b) for b in bins]
    jobs = {}
    for js, _, _, _ in plans:
        for j in js:
            jobs[j[1]] = j
    failed = set()  # programs that did not build: the others still answer
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        done = {j[1]: ex.submit(compile_one, *j) for j in jobs.values()}
    for _, objs, exe, ld in plans:
        try:
            for o in objs:
                done[o].result()
            r = sh(["g++", "-o", exe] + objs + ld)
            if r.returncode:
                raise RuntimeError("link failed:\n" + r.stdout[:4000])
        except RuntimeError as e:
            print("ERROR: %s" % e)
            failed.add(exe)
    build_s = time.time() - t0
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
           "distinct_outcomes": 0, "exhaustive": True, "scenarios": [],
           "samples": [], "known_findings": [], "build_s": round(build_s, 1)}
    violations = 0
    rc = 0
    broken = len(failed)
    for b, (_, _, exe, _) in zip(bins, plans):
        if exe in failed:
            continue
        left = limit - (time.time() - t0)
        tag = os.path.basename(exe).split(".")[0] + "-" + b["mode"]
        out = os.path.join(BUILD, "ev.%s.%s.json" % (prop, tag))
        if os.path.exists(out):
            os.unlink(out)
        budget = min(b.get("budget", 300) if tier == "quick"
                     else b.get("thorough_budget", 3600), max(5, left - 60))
        cmd = [exe, "--property", prop, "--tier", tier, "--out", out,
               "--replay-dir", REPLAY, "--known", KNOWN, "--tag", tag,
               "--jobs", str(b.get("jobs", os.cpu_count() or 4)),
               "--budget", str(budget), "--seed", str(seed),
               "--hang", str(b.get("hang", 60))]
        for s in b.get("scenarios", []):
            cmd += ["--scenario", s]
        print("== %s %s" % (prop, os.path.basename(exe)), flush=True)
        env = dict(os.environ)
        env.update(b.get("env", {}))
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True,
                               timeout=max(30, left), env=env)
            print(r.stdout, end="", flush=True)
            code = r.returncode
        except subprocess.TimeoutExpired as e:
            o = e.stdout or b""
            print(o.decode() if isinstance(o, bytes) else o)
            print("ERROR: explorer exceeded its time limit")
            broken += 1
            continue
        if code == 1:
            rc = 1
        elif code != 0:
            print("ERROR: explorer ended with status %d" % code)
            broken += 1
            continue
        ev = json.load(open(out))
        cov["states"] += ev["states"]
        cov["transitions"] += ev["transitions"]
        cov["traces_validated_against_impl"] += ev["executions"]
        cov["distinct_outcomes"] += ev["outcomes"]
        cov["exhaustive"] = cov["exhaustive"] and ev["exhaustive"]
        for s in ev["scenarios"]:
            s["binary"] = tag
            cov["scenarios"].append(s)
        cov["samples"] += ev["samples"][:6]
        cov["known_findings"] += ev["known_findings"]
        violations += ev["violations"]
    if broken and rc == 0:
        return 2
    cov["rule"] = conf.get("rule", "")
    if not cov["distinct_outcomes"]:
        del cov["distinct_outcomes"]
    ev = {"property": prop, "tier": tier, "seed": seed,
          "level": "model_checking", "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": violations,
          "assumptions": conf.get("assumptions", [])}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"),
              indent=1)
    print("%s: %s (%d states, %d transitions, %d executions, %s, %.1fs)" % (
        prop, "VIOLATED" if rc else "held", cov["states"], cov["transitions"],
        cov["traces_validated_against_impl"],
        "exhaustive" if cov["exhaustive"] else "not exhaustive",
        time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Runs checks against the planted bugs in a scratch clone of /repo (development tool).
matrix.py [--all] [--seed N] [BUG ...]: the check of the bug's own property, or all checks."""
import json, os, re, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
allc = "--all" in a
if allc: a.remove("--all")
seed = "1"
if "--seed" in a: i = a.index("--seed"); seed = a[i + 1]; del a[i:i + 2]
table = None
if "--table" in a: i = a.index("--table"); table = a[i + 1]; del a[i:i + 2]
bugs = a or sorted(os.listdir(os.path.join(V, "seeded")))
ids = ["C%02d" % i for i in range(1, 23)]
missed = []
with tempfile.TemporaryDirectory() as t:
    w = os.path.join(t, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    vw = os.path.join(t, "verif")
    subprocess.run(["cp", "-a", V, vw], check=True)
    env = dict(os.environ, VF_REPO=w, VF_BUILD=os.path.join(t, "build"), VERIF_SEED=seed)
    for b in bugs:
        d = os.path.join(V, "seeded", b)
        meta = json.load(open(os.path.join(d, "meta.json")))
        subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."], check=True)
        subprocess.run(["git", "-C", w, "apply", os.path.join(d, "patch.diff")], check=True)
        out = []
        for p in (ids if allc else [meta["property"]]):
            t0 = time.time()
            r = subprocess.run([os.path.join(vw, "bin/check"), p], cwd=vw, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode(errors="replace")
            hit = r.returncode == 1 and "VIOLATION property=%s " % p in o
            if hit: out.append(p)
            elif r.returncode: out.append("%s!rc%d" % (p, r.returncode)); print(o[-1500:])
            if p == meta["property"]:
                keys = sorted(set(re.findall(r"^  (\S+) \[", o, re.M)))
                own = (hit, keys[:4], time.time() - t0)
        print("%-26s %s %s %s %.0fs%s" % (b, meta["property"], "CAUGHT" if own[0] else "MISSED", own[1], own[2], " | " + " ".join(out) if allc else ""), flush=True)
        if not own[0]: missed.append(b)
        if table:
            with open(table, "a") as tf: tf.write("%s\t%s\t%s\t%s\n" % (b, meta["property"], "caught" if own[0] else "missed", " ".join(own[1])))
        subprocess.run("find %s/build -mindepth 1 -delete" % t if len(os.listdir(env["VF_BUILD"])) and allc else "true", shell=True)
print("missed:", missed)

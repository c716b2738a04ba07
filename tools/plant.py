#!/usr/bin/env python3
"""Builds seeded/<id>/ from the bugs described in tools/bugs/*.py and confirms each in a scratch copy of /repo:
the patch applies, builds, passes the stable tests, and demo.sh fails with it and passes without it.
Usage: plant.py [ID ...]   (development tool; no check uses it)"""
import glob, json, os, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, flags=""):
    """edits: (file, old, new[, nth occurrence or None])"""
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


DEMO_SH = """#!/bin/bash
# run with cwd = the repository: builds the demonstration from its sources and runs it
set -u
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
g++ -std=c++17 -O1 %s -I. -Iiir "$d/demo.cpp" iir/*.cpp -o "$t/demo" -pthread
rc=$?
if [ $rc -eq 0 ]; then timeout 250 "$t/demo"; rc=$?; fi
find "$t" -delete
exit $rc
"""
PRE = """#include "Iir.h"
#include <cstdio>
#include <cmath>
#include <memory>
#include <vector>
using namespace Iir;
static int fails = 0;
static void expect(bool ok, const char* what) { if (!ok) { std::printf("FAILED: %s\\n", what); fails++; } }
template <class F> static bool throws(F f) { try { f(); } catch (const std::invalid_argument&) { return true; } return false; }
template <class F> static double dB(F& f, double x) { return 20 * std::log10(std::abs(f.response(x))); }
"""


def main():
    for f in sorted(glob.glob(os.path.join(V, "tools/bugs/*.py"))):
        exec(compile(open(f).read(), f, "exec"), dict(bug=bug))
    want = sys.argv[1:]
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("passing", []) or [])
    bad = []
    for b in BUGS:
        if want and b["id"] not in want: continue
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryDirectory() as t:
            w = os.path.join(t, "repo")
            sh(["git", "clone", "-q", "/repo", w], t, check=True)
            demo = b["demo"] if b["demo"].startswith("//full") else PRE + b["demo"]
            open(os.path.join(d, "demo.cpp"), "w").write(demo)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % b["flags"])
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            r = sh([os.path.join(d, "demo.sh")], w)
            if r.returncode: bad.append((b["id"], "demo fails on the unchanged tree", r.stdout.decode()[-1500:])); continue
            err = None
            for e in b["edits"]:
                p = os.path.join(w, e[0])
                s = open(p).read()
                n = s.count(e[1])
                if len(e) > 3:
                    parts = s.split(e[1])
                    if e[3] >= n: err = "%s: only %d occurrences" % (e[0], n); break
                    s = e[1].join(parts[:e[3] + 1]) + e[2] + e[1].join(parts[e[3] + 1:])
                else:
                    if n != 1: err = "%s: %d occurrences of %r" % (e[0], n, e[1][:60]); break
                    s = s.replace(e[1], e[2])
                open(p, "w").write(s)
            if err: bad.append((b["id"], err, "")); continue
            diff = sh(["git", "diff"], w).stdout.decode()
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            # does it change original lines?
            r = sh([os.path.join(d, "demo.sh")], w)
            if r.returncode == 0: bad.append((b["id"], "demo passes with the patch", "")); continue
            if r.returncode == 124 or (b"error:" in r.stdout and b["id"] != "c19-direct-throw"): bad.append((b["id"], "demo does not build", r.stdout.decode()[-1500:])); continue
            # stable tests
            r = sh("cmake -S . -B _b -DCMAKE_BUILD_TYPE=Release >/dev/null 2>&1 && cmake --build _b -j8 2>&1 | tail -30 && ctest --test-dir _b -j8 2>&1 | tail -20", w, shell=True)
            o = r.stdout.decode()
            if "100% tests passed" not in o: bad.append((b["id"], "tests fail or build fails", o[-1800:])); continue
            print("ok", b["id"], b["prop"])
    for x in bad: print("BAD", *x)
    return 1 if bad else 0


sys.exit(main())

#!/usr/bin/env python3
"""author a planted bug: python3 tools/mkseed.py SPEC.py [ids...]
SPEC.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo="C++ program")].
The change is confirmed in a scratch copy (builds, stable tests pass, demo 0 without / nonzero with), then
written to seeded/<id>/."""
import json, os, runpy, subprocess, sys
W = "/tmp/seedwork"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
DEMO = '''#!/bin/bash
# run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
g++ -std=c++17 -O1 -w %s -I. -Icommon/include -Igeometry/include -I/usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -lboost_filesystem -lboost_system -lpthread || exit 0
cd "$T" && timeout 120 ./demo > out.txt 2> err.txt
rc=$?
tail -c 400 out.txt err.txt
exit $rc
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def prep():
    if os.path.exists(W):
        sh("git -C /repo worktree prune; cd %s && git checkout -q -f --detach $(git -C /repo rev-parse HEAD)" % W)
    else:
        r = sh("git clone -q /repo %s" % W)
    sh("cd %s && git fetch -q origin && git checkout -q -f $(git -C /repo rev-parse HEAD)" % W)
    if not os.path.exists(W + "/_build/build.ninja"):
        sh("cd %s && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DFETCHCONTENT_FULLY_DISCONNECTED=ON" % W)


def build():
    r = sh("ninja -C %s/_build" % W)
    return r.returncode == 0, r.stdout[-1500:]


def tests():
    bad = []
    for t in STABLE:
        a = {"common/test_morton_functions": "-test split", "common/test_io": "-dir %s/common/app" % W}.get(t, "")
        os.makedirs("/tmp/seedrun", exist_ok=True)
        r = sh("cd /tmp/seedrun && timeout 30 %s/_build/%s %s </dev/null >/dev/null" % (W, t, a))
        if r.returncode:
            bad.append((t, r.returncode))
    return bad


def main():
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    prep()
    for s in spec:
        if only and s["id"] not in only:
            continue
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.cpp", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(DEMO % s.get("flags", ""))
        os.chmod(d + "/demo.sh", 0o755)
        sh("cd %s && git checkout -q -f ." % W)
        r0 = sh("bash %s/demo.sh" % d, cwd=W)
        # does the demo compile at all?
        c = sh("g++ -std=c++17 -fsyntax-only -w %s -I. -Icommon/include -Igeometry/include -I/usr/include/eigen3 %s/demo.cpp" % (s.get("flags", ""), d), cwd=W)
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "edit matches", t.count(old), "times in", f)
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        diff = sh("git -C %s diff" % W).stdout
        b, log = build()
        bt = tests() if b else None
        r1 = sh("bash %s/demo.sh" % d, cwd=W)
        sh("cd %s && git checkout -q -f ." % W)
        good = c.returncode == 0 and b and not bt and r0.returncode == 0 and r1.returncode != 0
        print("%-28s %s compile=%s build=%s tests=%s demo0=%d demo1=%d" % (s["id"], "OK" if good else "REJECT", c.returncode == 0, b, bt, r0.returncode, r1.returncode))
        if not good:
            print(c.stderr[:500], log if not b else "", r0.stdout[-300:])
            sh("rm -r %s" % d)
            continue
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


main()

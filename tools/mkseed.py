#!/usr/bin/env python3
"""Build a planted bug: python3 tools/mkseed.py SPEC.py

SPEC.py defines  id, prop, needs, breaks, edits=[(file, old, new), ...], demo = C++ source of the demonstration.
The change is applied in a scratch copy, built, tested, and the demonstration run with and without it.
"""
import sys, os, subprocess, json, shutil
W = "/tmp/seedwt"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = '''#!/bin/bash
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -r -f -- "$tmp"' EXIT
R=${DEMO_REPO:-$PWD}
for f in $R/source/*.cc "$here/demo.cc"; do
  g++ -std=c++17 -O0 -w -fno-access-control -DFMT_HEADER_ONLY=1 -DMINI_OPT_SERIALIZATION -DMINI_OPT_TRACING \\
    -I$R/include -isystem /usr/include/eigen3 -c "$f" -o "$tmp/$(basename "$f").o" &
done
wait
g++ "$tmp"/*.o -o "$tmp/demo" -pthread || exit 99
cd "$tmp" && timeout 120 ./demo
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def prepare():
    if not os.path.exists(W):
        sh("git clone -q /repo %s" % W)
        sh("cp -a /repo/dependencies %s/ 2>/dev/null" % W)
        b = open("/opt/vp/build.sh").read().replace("/repo", W)
        open("/tmp/seedbuild.sh", "w").write(b)
        t = open("/opt/vp/test.sh").read().replace("/repo", W).replace("/opt/vp/build.sh", "/tmp/seedbuild.sh")
        open("/tmp/seedtest.sh", "w").write(t)
    sh("git -C %s checkout -q -- . && git -C %s pull -q" % (W, W))

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    prepare()
    d = os.path.join(VERIF, "seeded", ns["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cc", "w").write(ns["demo"])
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % d, cwd=W)
    if r.returncode != 0:
        print("demo fails on the unchanged tree", r.returncode, r.stdout[-1500:], r.stderr[-1500:]); return 1
    for f, old, new in ns["edits"]:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            print("edit matches %d times in %s: %s" % (s.count(old), f, old)); return 1
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % W).stdout)
    b = sh("bash /tmp/seedbuild.sh")
    if b.returncode != 0:
        print("build fails", b.stdout[-3000:]); return 1
    t = sh("bash /tmp/seedtest.sh /tmp/seedout.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    out = json.load(open("/tmp/seedout.json"))
    print("tests:", str(out)[:300] if t.returncode else "ok")
    want = base["stable"]
    got = out["passed"]
    missing = [x for x in want if x not in got] if isinstance(want, list) else []
    if missing:
        print("TESTS NOW FAIL", missing)
    r = sh("bash %s/demo.sh" % d, cwd=W)
    print("demo with the patch:", r.returncode, r.stdout[-500:], r.stderr[-300:])
    sh("git -C %s checkout -q -- ." % W)
    ok = r.returncode not in (0, 99) and not missing
    print(ns["id"], "OK" if ok else "REJECTED")
    return 0 if ok else 1
sys.exit(main())

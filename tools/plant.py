#!/usr/bin/env python3
"""plant.py FILE.py : FILE defines BUGS = {id: dict(property, needs, what_it_breaks, edits=[(relpath, old, new)], demo=C++ body of main returning 0 when fine)}.
Confirms each change in a scratch copy (applies, builds, stable tests pass, demo passes without / fails with it), runs the property's check on it, writes seeded/<id>/."""
import sys, os, json, shutil, subprocess, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
DEMO = '''#!/bin/bash
# exit 0: behaviour as specified
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -w %s -I "$PWD/src" "$d/demo.cpp" -o "$t/demo" || exit 1
timeout 60 "$t/demo"
'''
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for bid, b in B.items():
    if only and bid not in only: continue
    d = os.path.join(V, "seeded", bid)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/demo.cpp", "w").write(b.get("head", "") + '#include "theoretica.h"\n#include <cstdio>\nusing namespace theoretica;\nint main() {\n' + b["demo"] + "\n}\n")
    open(d + "/demo.sh", "w").write(DEMO % b.get("flags", "")); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what_it_breaks"]), open(d + "/meta.json", "w"), indent=1)
    assert not sh("git -C /repo status --short").stdout.strip(), "repo dirty"
    try:
        r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
        for p, o, n in b["edits"]:
            s = open("/repo/" + p).read(); assert s.count(o) == 1, (bid, p, o, s.count(o))
            open("/repo/" + p, "w").write(s.replace(o, n))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r1 = sh("bash %s/demo.sh" % d, cwd="/repo")
        with_tests = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/plant_t.json")
        try:
            t = json.load(open("/tmp/plant_t.json")); miss = sorted(stable - set(t["passed"]))
        except Exception as e: miss = [str(e)]
        c = sh("python3-vt %s/check.py %s" % (V, b["property"]))
    finally:
        sh("git -C /repo checkout -- .")
        if os.path.exists("/tmp/plant_t.json"): os.remove("/tmp/plant_t.json")
    blame = ""
    ok = r0.returncode == 0 and r1.returncode != 0 and not miss and with_tests.returncode == 0
    print("%-24s %s demo %d->%d tests-missing %s  CHECK %s: %s" % (bid, "VALID" if ok else "INVALID", r0.returncode, r1.returncode, miss[:3], b["property"],
          {0: "MISSED", 1: "caught", 2: "no answer"}.get(c.returncode, c.returncode) if c.returncode != 1 or "VIOLATION" in c.stdout else "CRASH"))
    if not ok: print(r0.stdout[-600:], r1.stdout[-600:], with_tests.stdout[-300:])
    if c.returncode == 1: print("    " + c.stdout.split("\n")[0][:220])
    elif c.returncode == 2: print(c.stdout[-500:])
    if not ok: shutil.rmtree(d)
sh("bash /opt/vp/build.sh")

#!/usr/bin/env python3
"""seed.py SPEC.py : development helper, confirms planted changes.
SPEC.py defines S = [dict(id=, prop=, needs=, breaks=, edits=[(file, old, new)], demo=c++ text)]"""
import json, os, subprocess, sys
R = "/repo"; SD = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken
set -e
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++20 -g -I"$PWD/include" -I"$PWD/src" -I"$PWD/_build/include" -I"$PWD/_build/src" $(pkg-config --cflags libxml-2.0 2>/dev/null) "$d/demo.cpp" -o "$t/demo" -L"$PWD/_build/src" -lfimex-2.4 -Wl,-rpath,"$PWD/_build/src"
cd "$t"
timeout 100 "$t/demo"
'''
def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def build():
    r = sh("bash /opt/vp/build.sh"); return r.returncode == 0, r.stdout[-1500:]
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    res = []
    for s in ns["S"]:
        if only and s["id"] not in only: continue
        d = os.path.join(SD, s["id"]); os.makedirs(d, exist_ok=True)
        assert not sh("git -C /repo status --porcelain").stdout.strip()
        try:
            for f, old, new in s["edits"]:
                t = open(os.path.join(R, f)).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(os.path.join(R, f), "w").write(t.replace(old, new))
            diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE, text=True).stdout
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.cpp", "w").write(s["demo"])
            open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            ok, log = build()
            if not ok: print(s["id"], "BUILD FAILED", log); continue
            sh("bash /opt/vp/test.sh /tmp/t.json"); t = json.load(open("/tmp/t.json"))
            tests = "%d/%d" % (len(t["passed"]), len(t["failed"]))
            dm = sh([d + "/demo.sh"], cwd=R)
            c = sh("python3 check.py %s" % s["prop"], cwd="/verif")
            caught = c.returncode == 1 and ("VIOLATION property=%s " % s["prop"]) in c.stdout
            out = [l for l in c.stdout.splitlines() if l.startswith("  ") or "OK " in l or "ERROR" in l][:2]
        finally:
            sh("git -C /repo checkout -- .")
        ok, log = build()
        d0 = sh([d + "/demo.sh"], cwd=R)
        print("%-28s tests %s demo(bug)=%d demo(ok)=%d %s %s" % (s["id"], tests, dm.returncode, d0.returncode, "CAUGHT" if caught else "MISSED rc=%d" % c.returncode, out), flush=True)
        cf = "/verif/tools/caught.json"; cj = json.load(open(cf)) if os.path.exists(cf) else {}
        cj[s["id"]] = (s["prop"] + " " + out[0].strip().split(":")[0]) if caught and out else "missed"
        json.dump(cj, open(cf, "w"), indent=1, sort_keys=True)
        if d0.returncode: print(d0.stdout[-800:])
        if not dm.returncode: print("  demo does not fail:", dm.stdout[-300:])
main()

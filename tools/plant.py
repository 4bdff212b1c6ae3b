"""plant.py SPEC.py: make /verif/seeded/<id> from a spec (ID, PROP, NEEDS, BREAKS, EDITS, DEMO), confirm it and run the property's check against it.
It works on /repo's tree (apply, build, test, demo, check, undo), so nothing else may use /repo meanwhile."""
import json, os, runpy, subprocess, sys
spec = runpy.run_path(sys.argv[1])
checks = sys.argv[2:] or [spec["PROP"]]
ID = spec["ID"]
d = "/verif/seeded/" + ID
os.makedirs(d, exist_ok=True)
R = "/repo"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
LINK = '''#!/bin/bash
# exit 0: the property holds on this example; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
B=/repo/_build/src
g++ -std=c++17 -O1 -pthread -fno-access-control -I/repo/include -I/repo/src -I/usr/include/ompl-1.5 -I/usr/include/eigen3 -I/repo/src/util/external/kdl_parser/include "$here/demo.cpp" -o "$D/demo" \\
  -Wl,--start-group $B/planners/ompl_interface/libOMPLPlanner.a $B/planners/libHRM2D.a $B/planners/libHRM3D.a $B/test/util/libTestUtil.a $B/planners/libHighwayRoadMap.a $B/datastructure/libDataStructure.a $B/geometry/libGeometry.a $B/util/libUtil.a $B/util/external/kdl_parser/libKDL_Parser.a -Wl,--end-group \\
  -lompl -lfcl -lccd -lgmp -lorocos-kdl -lgtest -ltinyxml2 -lurdfdom_sensor -lurdfdom_model_state -lurdfdom_model -lurdfdom_world || exit 4
cd "$D" && mkdir tmp && timeout 250 ./demo
'''
if "SH" in spec: demo = spec["SH"]
else:
    demo = LINK
    open(d + "/demo.cpp", "w").write(spec["DEMO"].lstrip("\n"))
open(d + "/demo.sh", "w").write(demo)
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
def build():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: print(r.stdout[-3000:]); raise SystemExit("BUILD FAILED")
def rundemo():
    r = sh("bash %s/demo.sh" % d, cwd=R)
    return r.returncode, r.stdout[-600:]
build()
print("demo on clean tree:", rundemo())
try:
    for f, l in spec["EDITS"].items():
        s = open(R + "/" + f).read()
        for o, n in l:
            assert s.count(o) == 1, (f, s.count(o), o)
            s = s.replace(o, n)
        open(R + "/" + f, "w").write(s)
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    build()
    print("demo on patched tree:", rundemo())
    if not os.environ.get("NOTEST"):
        sh("bash /opt/vp/test.sh /tmp/seed/out.json")
        o = json.load(open("/tmp/seed/out.json"))
        print("tests: %d passed, failed %s" % (len(o["passed"]), o["failed"]))
    for c in checks:
        if c == "-": continue
        r = sh("python3 /verif/run.py " + c)
        print(c, "exit", r.returncode, "\n".join(x for x in r.stdout.splitlines() if "VIOLATION" in x or "replay" in x)[:600] if r.returncode == 1 else r.stdout[-600:])
finally:
    sh("git -C /repo checkout -- .")
    build()

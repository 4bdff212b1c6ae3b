#!/usr/bin/env python3
"""replay.py replays/<id>-n.json : rebuild the harness and run exactly the recorded choices, without the explorer."""
import sys, os, json, subprocess, tempfile, shutil
import run
j = json.load(open(sys.argv[1]))
c = run.CHECKS[j["property"]]
s = tempfile.mkdtemp(prefix="hrm_replay_")
try:
    exe, _, _ = run.build(c, s)
    w = os.path.join(s, "work")
    for d in ("mcconfig", "mcresult/benchmark", "mcresult/details"):
        os.makedirs(os.path.join(w, d))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
    extra = []
    if j.get("how", "alone") != "alone":   # the executions that have to come before it in the same process
        open(os.path.join(s, "context.txt"), "w").write(j["how"] + " " + j["context"] + "\n")
        extra = ["--context", os.path.join(s, "context.txt")]
    r = subprocess.run([exe] + c.get("args", []) + ["--tier", j["tier"], "--scratch", s, "--out", "/dev/null", "--replay", ",".join(map(str, j["choices"])) or ","] + extra, cwd=w, env=env)
    print("exit", r.returncode)
finally:
    shutil.rmtree(s, ignore_errors=True)

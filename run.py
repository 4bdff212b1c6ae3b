#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--keep]

Builds the harness of one property against /repo's current working tree, explores its whole bounded space,
replays every failure before believing it, writes evidence/<id>.json and ends with 0 (held) or 1 (VIOLATION).
"""
import signal, sys, os, re, glob, json, hashlib, subprocess, time, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HRM_REPO", "/repo")
sys.path.insert(0, V)
from registry import CHECKS  # noqa

BUILD = os.path.join(V, "build")
NPROC = os.cpu_count() or 4


class BuildError(Exception):
    pass


def lib_sources():
    """library sources, as the repository's own CMake files list them"""
    out = {}
    for d, _, files in os.walk(os.path.join(REPO, "src")):
        if "CMakeLists.txt" not in files:
            continue
        txt = open(os.path.join(d, "CMakeLists.txt"), errors="replace").read()
        txt = re.sub(r"#.*", "", txt)
        for m in re.finditer(r"file\s*\(\s*GLOB(?:_RECURSE)?\s+(\w+)\s+([^)]*)\)", txt):
            got = []
            for pat in m.group(2).split():
                got += sorted(glob.glob(os.path.join(d, pat.replace("${CMAKE_CURRENT_SOURCE_DIR}/", ""))))
            txt = txt.replace("${%s}" % m.group(1), " ".join(got))
        for m in re.finditer(r"add_library\s*\(\s*(\w+)\s+([^)]*)\)", txt, re.S):
            fs = [f for f in m.group(2).split() if re.search(r"\.(cpp|cc|cxx)$", f)]
            fs = [f.replace("${CMAKE_CURRENT_SOURCE_DIR}", d) for f in fs]
            fs = [f if os.path.isabs(f) else os.path.join(d, f) for f in fs]
            out[m.group(1)] = [os.path.normpath(f) for f in fs if os.path.exists(f)]
    return out


GROUP = {  # which libraries each harness kind needs
    "geom": ["Geometry", "Util", "KDL_Parser"],
    "data": ["DataStructure", "Geometry", "Util", "KDL_Parser"],
    "plan": ["HighwayRoadMap", "HRM2D", "HRM3D", "DataStructure", "Geometry", "Util", "KDL_Parser"],
    "ompl": ["OMPLPlanner", "DataStructure", "Geometry", "Util", "KDL_Parser"],
    "io": ["TestUtil", "DataStructure", "Geometry", "Util", "KDL_Parser"],
    "all": None,
}

LINK = ["-lgtest", "-lompl", "-lfcl", "-lccd", "-lgmp", "-lorocos-kdl", "-ltinyxml2", "-lurdfdom_sensor",
        "-lurdfdom_model_state", "-lurdfdom_model", "-lurdfdom_world", "-lboost_serialization", "-lboost_system",
        "-lboost_filesystem", "-lpthread", "-ldl"]


def ompl_inc():
    c = sorted(glob.glob("/usr/include/ompl-*"))
    return c[-1] if c else "/usr/include"


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for top in dirs:
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts) and f != "config.h":
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(check, scratch):
    mode = check.get("mode", "san")
    flags = ["-std=c++17", "-pthread", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_MALLOC_ALREADY_ALIGNED=1", "-fno-omit-frame-pointer", "-w",
             "-include", os.path.join(V, "lib/pre.hpp")]
    if mode == "san":
        flags += ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                  "-fno-sanitize=vptr,alignment,null"]
    else:
        flags += ["-O2"]
    os.makedirs(BUILD, exist_ok=True)
    # config.h of our own: nothing a harness runs may write into /repo
    cfgroot = os.path.join(BUILD, "cfg")
    inc = os.path.join(cfgroot, "hrm")
    os.makedirs(inc, exist_ok=True)
    cfg = """#pragma once
#include <string>
#include <cstdlib>
#define RESOURCES_PATH "%s/resources"
#define CONFIG_PATH "./mcconfig"
#define BENCHMARK_DATA_PATH "./mcresult/benchmark"
#define SOLUTION_DETAILS_PATH "./mcresult/details"
""" % REPO
    # /repo/include/hrm/config.h (generated) would be found first by a quoted include of its neighbours, so the
    # headers are mirrored by symlink without it
    mir = os.path.join(scratch, "inc")

    for d, ds, fs in os.walk(os.path.join(REPO, "include")):
        rel = os.path.relpath(d, os.path.join(REPO, "include"))
        os.makedirs(os.path.join(mir, rel), exist_ok=True)
        for f in fs:
            if f in ("config.h",):
                continue
            shutil.copy2(os.path.join(d, f), os.path.join(mir, rel, f))
    open(os.path.join(mir, "hrm", "config.h"), "w").write(cfg)
    incs = ["-I" + mir, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(V, "lib"), "-I" + ompl_inc(),
            "-I/usr/include/eigen3", "-I/usr/include/urdfdom", "-I/usr/include/urdfdom_headers", "-I" + os.path.join(REPO, "src/util/external/kdl_parser/include")]
    libs = lib_sources()
    want = GROUP[check["group"]]
    srcs = []
    for l, fs in libs.items():
        if want is None or l in want:
            srcs += fs
    # anything in the library directories that CMake does not list is not part of the library
    hsrc = os.path.join(V, "checks", check["src"])
    hdr = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src")], (".h", ".hpp")) + cfg
    mine = tree_hash([os.path.join(V, "lib")], (".hpp",))
    for m in re.findall(r'#include "([^"]+\.cpp)"', open(hsrc).read()):
        mine += open(os.path.join(V, "checks", m)).read()
    fl = " ".join(flags).replace(V, "")
    objs, jobs = [], []
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    pre = open(os.path.join(V, "lib/pre.hpp"), "rb").read()
    # the oracle may be compiled without sanitizers: the library objects keep them
    hbase = [f for f in flags if not f.startswith(("-fsanitize", "-fno-sanitize", "-O"))] + ["-O2"] if check.get("fast", True) else flags
    hflags = ["-fno-access-control"] + ["-D" + d for d in check.get("defs", [])]
    for s in srcs + [hsrc]:
        isH = s == hsrc
        key = sha(s, open(s, "rb").read(), hdr, fl, pre, mine if isH else "", " ".join(hbase + hflags) if isH else "")
        o = os.path.join(BUILD, "obj", os.path.basename(s) + "." + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            t = o + ".%d.tmp" % os.getpid()
            cmd = ["g++"] + (hbase + hflags if isH else flags) + incs + ["-c", s, "-o", t]
            jobs.append((cmd, t, o))

    def comp(j):
        r = sh(j[0])
        if r.returncode == 0:
            os.rename(j[1], j[2])
        return r, j

    t0 = time.time()
    with ThreadPoolExecutor(NPROC) as ex:
        for r, j in ex.map(comp, jobs):
            if r.returncode:
                raise BuildError(" ".join(j[0]) + "\n" + r.stdout[-6000:])
    exe = os.path.join(scratch, "harness")
    r = sh(["g++"] + flags + objs + ["-o", exe] + LINK + ["-Wl,--no-as-needed"])
    if r.returncode:
        raise BuildError(r.stdout[-6000:])

    return exe, time.time() - t0, len(srcs)


def runGroup(cmd, cwd, env, timeout):
    """runs cmd in its own process group; on timeout the whole group ends (the explorer forks workers)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


def load_known(pid):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid and k.get("status", "open") == "open"]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = CHECKS[pid]
    t0 = time.time()
    # The scratch directory holds the harness and everything it writes; its cwd is inside it.
    scratch = tempfile.mkdtemp(prefix="hrm_%s_" % pid)
    try:
        rc = go(pid, tier, seed, check, scratch, t0)
    finally:
        if "--keep" not in sys.argv:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def replayed(exe, check, tier, scratch, work, env, f, ch, how):
    """Does the failure happen again, twice, in a process of its own."""
    cmd = [exe] + check.get("args", []) + ["--tier", tier, "--scratch", scratch, "--out", os.path.join(scratch, "rep.json"), "--replay", ch]
    if how != "alone":
        ctx = os.path.join(scratch, "context.txt")
        open(ctx, "w").write(how + " " + f[how] + "\n")
        cmd += ["--context", ctx]
    ok, last = 0, ""
    for _ in range(2):
        try:
            rr = runGroup(cmd, work, env, 150)
            last = rr.stderr[-1500:]
            if f["key"] == "crash":
                good = rr.returncode not in (0, 1, 97, 98) or (rr.returncode == 1 and "key=crash" in rr.stderr)
            elif f["key"] == "hang":
                good = rr.returncode == -14
            else:
                good = rr.returncode == 1 and ("key=" + f["key"]) in rr.stderr
        except subprocess.TimeoutExpired:
            good, last = False, "timeout"
        if not good:
            return False, last
        ok += 1
    return ok == 2, last


def go(pid, tier, seed, check, scratch, t0):
    try:
        exe, bt, nsrc = build(check, scratch)
    except BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (pid, e))
        return 2
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=78"
    env["VERIF_SEED"] = str(seed)
    env["LC_ALL"] = "C"
    work = os.path.join(scratch, "work")
    os.makedirs(os.path.join(work, "mcconfig"))
    os.makedirs(os.path.join(work, "mcresult/benchmark"))
    os.makedirs(os.path.join(work, "mcresult/details"))
    out = os.path.join(scratch, "out.json")
    args = [exe] + check.get("args", []) + ["--tier", tier, "--workers", str(max(2, NPROC)), "--scratch", scratch, "--out", out]
    budget = (780 if tier == "quick" else 6 * 3600) - (time.time() - t0)
    try:
        r = runGroup(args + ["--wall", "%.0f" % budget], work, env, budget + 30)
    except subprocess.TimeoutExpired:
        print("ERROR property=%s exploration did not finish in %.0f s" % (pid, budget))
        return 2
    if r.returncode != 0 or not os.path.exists(out):
        print("ERROR property=%s harness ended with %s\n%s" % (pid, r.returncode, r.stderr[-3000:]))
        return 2
    res = json.load(open(out))
    if res["internal_error"]:
        print("ERROR property=%s %s" % (pid, r.stderr[-3000:]))
        return 2
    known = load_known(pid)
    used = {}
    viol = []
    errors = []
    for f in res["fails"]:
        k = next((k for k in known if k["key"] == f["key"]), None)
        if k:
            used[k["key"]] = (k, f)
            continue
        # replay before report: the same choices must fail again, twice
        ch = ",".join(map(str, f["choices"])) or ","
        last = ""
        # alone in a fresh process; otherwise after the executions its worker had run before it (the code keeps
        # something between calls that it should not), the last ones or all of them
        if viol and time.time() - t0 > 600:
            break
        for how in ("alone", "context", "origin"):
            if how != "alone" and not f.get(how):
                continue
            ok, last = replayed(exe, check, tier, scratch, work, env, f, ch, how)
            if ok:
                f["how"] = how
                break
            if time.time() - t0 > 700 and tier == "quick":
                break
        if ok:
            viol.append((f, last))
        else:
            errors.append((f, last))
    for k in known:
        if k["key"] in used:
            print("KNOWN-FINDING: property=%s %s (%d executions)" % (pid, k["what"], used[k["key"]][1]["count"]))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    wall = time.time() - t0
    cov = {
        "states": res["states"],
        "transitions": res["transitions"],
        "traces_validated_against_impl": res["validated"],
        "executions": res["executions"],
        "oracle_comparisons": res["evaluations"],
        "choice_points": res["choice_points"],
        "outside_assumption": res["pruned"],
        "distinct_outcomes": len(res["outcomes"]),
        "outcomes": dict(sorted(res["outcomes"].items(), key=lambda x: -x[1])[:40]),
        "metrics": res["metrics"],
        "maxima": res["maxima"],
        "exhaustive": "capped" not in res["metrics"] and not viol,
        "bounds": check.get("bounds", ""),
        "samples": res["samples"][:8],
        "build_s": round(bt, 1),
        "library_sources": nsrc,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": check.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(viol)}
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s tier=%s executions=%d states=%d transitions=%d comparisons=%d outcomes=%d pruned=%d build=%.1fs wall=%.1fs" % (
        pid, tier, res["executions"], res["states"], res["transitions"], res["evaluations"], len(res["outcomes"]), res["pruned"], bt, wall))
    if "-v" in sys.argv:
        print(json.dumps({k: cov[k] for k in ("outcomes", "metrics", "maxima")}, indent=1))
    if viol:
        for n, (f, last) in enumerate(viol):
            path = os.path.join(V, "replays", "%s-%d.json" % (pid, n))
            json.dump({"property": pid, "key": f["key"], "message": f["msg"], "trace": f["trace"], "choices": f["choices"], "count": f["count"],
                       "how": f["how"], "context": f.get(f["how"], ""),
                       "replay_cmd": "python3 replay.py %s" % os.path.relpath(path, V), "tier": tier, "stderr": last}, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  key=%s count=%d: %s\n  trace: %s" % (f["key"], f["count"], f["msg"][:900], f["trace"][:900]))
        return 1
    if errors:
        for f, last in errors:
            print("ERROR property=%s failure did not replay: key=%s %s trace=%s\n%s" % (pid, f["key"], f["msg"][:600], f["trace"][:400], last))
        return 2
    if "wall_capped" in res["metrics"]:
        print("ERROR property=%s exploration did not finish in %.0f s" % (pid, budget))
        return 2
    if res["executions"] == 0:
        print("ERROR property=%s nothing explored" % pid)
        return 2
    return 0


if __name__ == "__main__":
    main()

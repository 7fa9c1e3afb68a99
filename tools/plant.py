"""Development tool (not used by any check): create and try planted bugs.
  plant.py make SPEC.py   SPEC defines: id, prop, needs, breaks, edits=[(file, old, new[, nth])], demo (C++ text), srcs, flags
  plant.py try ID...      apply to /repo, build, test, demo, the property's check; undo; demo again
"""
import json, os, subprocess, sys, runpy, re
SEED = "/verif/seeded"
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 %s -I src "$here/demo.cpp" %s -o "$tmp/demo" -lpthread || exit 3
timeout 120 "$tmp/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(spec):
    s = runpy.run_path(spec)
    d = f"{SEED}/{s['id']}"; os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain -uno").stdout == "", "repo dirty"
    try:
        for f, old, new in s["edits"]:
            p = "/repo/" + f; t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally:
        sh("git -C /repo checkout -- .")
    open(d + "/demo.cpp", "w").write(s["demo"])
    srcs = " ".join("src/c4/" + x for x in s.get("srcs", "base64.cpp char_traits.cpp error.cpp format.cpp language.cpp memory_resource.cpp memory_util.cpp utf.cpp".split()))
    open(d + "/demo.sh", "w").write(DEMO % (s.get("flags", "-O1 -g -DC4_NO_DEBUG_BREAK"), srcs)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
def tryone(i, tests=True):
    d = f"{SEED}/{i}"; prop = json.load(open(d + "/meta.json"))["property"]; out = [i, prop]
    r = sh(f"bash {d}/demo.sh", cwd="/repo"); out.append("clean-demo=%d" % r.returncode)
    if r.returncode: print(r.stdout[-600:], r.stderr[-600:])
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode: print("APPLY FAILED", r.stderr); return
    try:
        r = sh(f"bash {d}/demo.sh", cwd="/repo"); out.append("bug-demo=%d" % r.returncode)
        if r.returncode == 3: print(r.stderr[-800:])
        elif tests: print("   demo says:", (r.stdout + r.stderr)[-200:].strip())
        if tests:
            r = sh("bash /tmp/rt.sh"); out.append("tests:" + ("ok" if "missing []" in r.stdout else "FAIL " + r.stdout[-300:]))
        r = sh(f"python3 check.py --property {prop}", cwd="/verif"); out.append("check=%d" % r.returncode)
        m = re.search(r"VIOLATION.*", r.stdout); out.append(m.group(0) if m else "")
        print("  ", (r.stdout)[-400:].strip().replace("\n", "\n   "))
    finally:
        sh("git -C /repo checkout -- .")
    print("RESULT", *out, flush=True)
if sys.argv[1] == "make":
    for s in sys.argv[2:]: make(s)
elif sys.argv[1] == "try":
    for i in sys.argv[2:]: tryone(i)
elif sys.argv[1] == "quick":
    for i in sys.argv[2:]: tryone(i, False)

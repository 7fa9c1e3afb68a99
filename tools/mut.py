"""Development tool (not used by any check): run a batch of mutants.
  mut.py SPECS.py [id-prefix...]   SPECS defines M = [(id, prop, [(file, old, new)...]), ...]
Works on scratch copies: /tmp/mrepo (repository), /tmp/mt (build and test scripts pointed at it), /tmp/vb (copy of /verif)."""
import sys, subprocess, runpy, os, json, re
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
M = runpy.run_path(sys.argv[1])["M"]; want = sys.argv[2:]
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
env = dict(os.environ, C4_REPO="/tmp/mrepo")
for id, prop, edits in M:
    if want and not any(id.startswith(w) for w in want): continue
    sh("git -C /tmp/mrepo checkout -q -- .")
    bad = None
    for f, old, new in edits:
        p = "/tmp/mrepo/" + f; t = open(p).read()
        if t.count(old) != 1: bad = "%s: %d matches of %r" % (f, t.count(old), old[:60]); break
        open(p, "w").write(t.replace(old, new))
    if bad: print("SPEC", id, bad, flush=True); continue
    if sh("bash /tmp/mt/build.sh").returncode: print("NOBUILD", id, flush=True); continue
    sh("bash /tmp/mt/test.sh /tmp/mt/out.json"); lost = base - set(json.load(open("/tmp/mt/out.json"))["passed"])
    if lost: print("TESTS-CATCH", id, len(lost), sorted(lost)[:2], flush=True); continue
    r = sh("python3 check.py --property " + prop, cwd="/tmp/vb", env=env)
    m = re.search(r"class=.*", r.stdout)
    print({0: "MISSED", 1: "caught"}.get(r.returncode, "BROKEN"), id, prop, (m.group(0) if m else r.stdout[-300:])[:220], flush=True)
sh("git -C /tmp/mrepo checkout -q -- .")

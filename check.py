#!/usr/bin/env python3
"""Runs the deterministic simulation that decides one property.

  check.py --property C01 [--tier quick|thorough] [--seed N]
  check.py --replay FILE          re-executes a replay file, printing its history
  check.py --build-all            compiles everything (setup)
"""
import argparse, array, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("C4_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from props import PROPS, FLAVOURS, LIBSRC  # noqa

def sh_hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def tree(root):
    r = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        r += [os.path.join(d, f) for f in fs if f.endswith((".hpp", ".cpp", ".h", ".hh", ".c", ".def", ".natvis"))]
    return r

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception): pass

def compile_obj(job):
    src, obj, cmd = job
    if os.path.exists(obj): return
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = "%s.%d.tmp.o" % (obj, os.getpid())
    r = run(cmd + ["-c", src, "-o", tmp])
    if r.returncode: raise BuildError("%s\n%s" % (" ".join(cmd + [src]), r.stdout[-1500:]))
    os.rename(tmp, obj)

def build(pid, flavours=None):
    """returns {flavour: executable}, built from the current tree"""
    cfg = PROPS[pid]; out = {}; jobs = []; links = []
    repo_files = tree(os.path.join(REPO, "src"))
    core = [os.path.join(HERE, "sim", f) for f in os.listdir(os.path.join(HERE, "sim")) if f.endswith(".hpp")]
    rh = sh_hash(repo_files, "repo")
    for fl in (flavours or cfg["flavours"]):
        F = FLAVOURS[fl]
        base = [F["cxx"], "-std=c++17", "-I" + os.path.join(REPO, "src"), "-DC4_NO_DEBUG_BREAK", "-U_FORTIFY_SOURCE", "-w", "-fno-omit-frame-pointer", "-g1"] + F["flags"] + cfg.get("defs", [])
        lib = base + F.get("libflags", []); har = base + F.get("harflags", []) + ["-I" + os.path.join(HERE, "sim")]
        coreflags = [f for f in base] + ["-I" + os.path.join(HERE, "sim"), "-DSIM_CHUNK=%d" % cfg.get("chunk", 128)]
        objs = []
        for s in LIBSRC:
            src = os.path.join(REPO, "src/c4", s)
            if not os.path.exists(src): continue
            o = os.path.join(BUILD, "obj", sh_hash([], rh + " ".join(lib) + s) + "-" + s + ".o")
            objs.append(o); jobs.append((src, o, lib))
        for s in cfg["src"]:
            src = os.path.join(HERE, "sim", s)
            o = os.path.join(BUILD, "obj", sh_hash(core + [src], rh + " ".join(har)) + "-" + s + ".o")
            objs.append(o); jobs.append((src, o, har))
        for s in ["main.cpp"] + cfg.get("core", []):
            src = os.path.join(HERE, "sim", s)
            o = os.path.join(BUILD, "obj", sh_hash(core + [src], rh + " ".join(coreflags)) + "-" + s + ".o")
            objs.append(o); jobs.append((src, o, coreflags))
        exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (pid, fl, sh_hash([], " ".join(objs))))
        links.append((exe, [F["cxx"]] + F["flags"] + cfg.get("defs", []) + objs + cfg.get("link", []) + ["-lpthread", "-o"]))
        out[fl] = exe
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(compile_obj, {j[1]: j for j in jobs}.values()))
        def link(l):
            if os.path.exists(l[0]): return
            os.makedirs(os.path.dirname(l[0]), exist_ok=True)
            tmp = "%s.%d.tmp" % (l[0], os.getpid())
            r = run(l[1] + [tmp])
            if r.returncode: raise BuildError(" ".join(l[1]) + "\n" + r.stdout[-4000:])
            os.rename(tmp, l[0])
        list(ex.map(link, links))
    return out

def known_findings(pid):
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/ (.*)$", l.strip())
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3), m.group(4)))
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay"); ap.add_argument("--build-all", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0); ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    if a.build_all:
        for p in PROPS: build(p)
        return 0
    if a.replay:
        txt = open(a.replay).read()
        pid = re.search(r"^property (\S+)", txt, re.M).group(1); fl = re.search(r"^flavour (\S+)", txt, re.M).group(1)
        exe = build(pid, [fl])[fl]
        return subprocess.call([exe, "replay", "--in", a.replay])
    pid = a.property; cfg = PROPS[pid]; t0 = time.time()
    exes = build(pid)
    t_build = time.time() - t0
    ev_dir = os.path.join(HERE, "evidence"); os.makedirs(ev_dir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="sim-%s-" % pid, dir=BUILD)
    try:
        return search(a, pid, cfg, exes, work, ev_dir, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def search(a, pid, cfg, exes, work, ev_dir, t0, t_build):
    stop = os.path.join(work, "stop"); procs = []
    fls = list(exes)
    for i, fl in enumerate(fls):
        W = max(1, a.workers // len(fls) + (i < a.workers % len(fls)))
        runs, secs = cfg["budget"][a.tier][fl]
        per = max(1, int(runs * a.scale) // W)
        for w in range(W):
            out = os.path.join(work, "%s-%d" % (fl, w))
            cmd = [exes[fl], "search", "--seed", str(a.seed), "--worker", str(w), "--workers", str(W), "--runs", str(per), "--secs", str(secs), "--out", out + ".json", "--sigs", out + ".sig", "--stop", stop]
            procs.append((fl, w, out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    live = list(procs); bad = []
    while live:
        for p in list(live):
            rc = p[3].poll()
            if rc is None: continue
            live.remove(p)
            if rc == 1: bad.append(p); open(stop, "w").close()
            elif rc != 0: print("check error: worker %s/%d ended with %s" % (p[0], p[1], rc)); [q[3].kill() for q in live]; return 2
        time.sleep(0.05)
    tot = dict(runs=0, nontrivial=0, steps=0, draws=0, faults=0, rechecks=0); faults = {}; probes = {}; sigs = set(); perfl = {}; nondet = []
    wall_search = 0
    viols = []
    for fl, w, out, _ in procs:
        r = json.load(open(out + ".json"))
        for k in tot: tot[k] += r[k]
        perfl[fl] = perfl.get(fl, 0) + r["runs"]; wall_search = max(wall_search, r["wall"])
        for kind, name, n in r["counters"]:
            d = faults if kind == "f" else probes
            d[name] = d.get(name, 0) + n
        if os.path.exists(out + ".sig"):
            s = array.array("Q"); s.frombytes(open(out + ".sig", "rb").read()); sigs.update(s)
        if r["nondet"]: nondet.append((fl, r["nondet"]))
        if "violation" in r: viols.append((fl, w, r["violation"]))
    samples = []
    for fl in fls[:1]:
        for s in (a.seed * 1000003 + 1, a.seed * 1000003 + 2):
            r = run([exes[fl], "one", "--runseed", str(s)], timeout=300, errors="replace")
            samples.append({"flavour": fl, "run_seed": s, "history": r.stdout.splitlines()[:25]})
    result = 0; nviol = 0; lines = []
    known = known_findings(pid)
    if viols:
        viols.sort(key=lambda v: (v[2]["class"] == "hang", fls.index(v[0]), v[1]))
        gated = None; errs = []
        for fl, w, v in viols[:6]:
            raw = os.path.join(work, "raw-%s-%d" % (fl, w)); mn = raw + ".min"
            open(raw, "w").write("seed %d\nclass %s\nhash %s\nprelude %d %s\ntape 0\n" % (v["seed"], v["class"], v["hash"], len(v["prelude"]), " ".join(map(str, v["prelude"]))))
            m = run([exes[fl], "min", "--in", raw, "--out", mn, "--secs", "40"])
            if m.returncode != 0: errs.append("%s seed %s class %s: %s" % (fl, v["seed"], v["class"], m.stdout.strip())); continue
            c1 = run([exes[fl], "check", "--in", mn]); c2 = run([exes[fl], "check", "--in", mn])
            if c1.returncode == 1 and c2.returncode == 1: gated = (fl, v, mn, m.stdout.strip()); break
            errs.append("%s seed %s class %s: replay rc %s/%s" % (fl, v["seed"], v["class"], c1.returncode, c2.returncode))
        if gated:
            fl, v, mn, info = gated
            rd = os.path.join(ev_dir, "replay"); os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s-%d.replay" % (pid, fl, v["seed"]))
            body = "property %s\nflavour %s\n" % (pid, fl) + open(mn).read()
            hist = run([exes[fl], "replay", "--in", mn], errors="replace").stdout
            body += "# minimised history:\n" + "".join("#   " + l + "\n" for l in hist.splitlines()[-200:])
            open(path, "w").write(body)
            msg = json.loads(info)["msg"] if info.startswith("{") else v["msg"]
            kf = [k for k in known if k[0] == v["class"] and re.search(k[1], msg)]
            nviol = 1
            if kf: lines.append("KNOWN-FINDING: property=%s %s" % (pid, kf[0][2]))
            else:
                lines.append("VIOLATION property=%s replay=%s" % (pid, path)); lines.append("  class=%s flavour=%s seed=%d: %s" % (v["class"], fl, v["seed"], msg)); result = 1
        else:
            print("check error: a violation was seen but could not be replayed exactly:"); print("\n".join(errs)); result = 2
    if nondet and result == 0 and not viols: print("check error: same seed gave different histories: %s" % nondet); result = 2
    wall = time.time() - t0
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration", "wall_s": round(wall, 2), "violations": nviol,
          "coverage": {"evaluations": tot["runs"], "distinct_nontrivial": len(sigs), "rule": cfg["rule"] + " Non-trivial: at least one fault or pre-emption was injected; distinct by the 64-bit hash of the whole event history.", "samples": samples,
                       "simulated_runs": tot["runs"], "runs_per_flavour": perfl, "runs_per_hour": int(tot["runs"] / max(wall_search, 0.01) * 3600), "seeds_per_hour": int(tot["runs"] / max(wall_search, 0.01) * 3600),
                       "nontrivial_runs": tot["nontrivial"], "simulated_steps": tot["steps"], "simulated_time": "no clock in the code under test: time is counted in simulated steps (events)", "choices_drawn": tot["draws"],
                       "faults_injected": tot["faults"], "fault_kinds": faults, "probes": probes, "determinism_rechecks": tot["rechecks"],
                       "distinct_measure": "distinct event-history hashes of non-trivial runs (lower bound: at most 120000 are kept per worker)",
                       "real_components": cfg["real"], "stub_components": cfg["stub"], "build_s": round(t_build, 1), "search_s": round(wall_search, 1)},
          "assumptions": cfg.get("assumptions", [])}
    json.dump(ev, open(os.path.join(ev_dir, pid + ".json"), "w"), indent=1)
    for l in lines: print(l)
    print("%s %s seed=%d: %d runs (%s), %d distinct non-trivial, %d faults, %.0fs build + %.0fs search" % (pid, a.tier, a.seed, tot["runs"], perfl, len(sigs), tot["faults"], t_build, wall_search))
    return result

if __name__ == "__main__":
    try: sys.exit(main())
    except BuildError as e: print("check error: build failed\n" + str(e)); sys.exit(2)

#!/usr/bin/env python3
"""Build the simulation of /repo's current tree and decide one property.

  check.py C01                 quick or thorough, by VERIF_TIER (default quick)
  check.py --build-only        compile everything (setup_cmd)
  check.py --replay FILE       replay a violation file

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the check itself is in trouble (not deterministic, cannot build...).
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = 8
CXX = "clang++"
BASE = ["-std=c++17", "-O1", "-g1", "-fsanitize=address",
        "-D_GLIBCXX_ASSERTIONS", "-w"]
INC = ["-I" + REPO + "/include", "-I" + HERE + "/stubs", "-isystem",
       "/usr/include/eigen3", "-DPROXSUITE_NLP_ENABLE_TEMPLATE_INSTANTIATION"]
COV = ["-fsanitize-coverage=trace-pc-guard"]
WRAP = "-Wl," + ",".join("--wrap=" + s for s in (
    "malloc calloc realloc free __cxa_guard_acquire __cxa_guard_release "
    "__cxa_guard_abort pthread_mutex_lock pthread_mutex_unlock").split())

# runs per tier; wall-clock caps in seconds
PLAN = json.load(open(HERE + "/tools/plan.json"))

REAL = ["proxsuite::nlp solver, workspace, results, merit function, line "
        "search, factorisations, BFGS, logger, constraint sets, costs, "
        "functions, spaces, callbacks: compiled from /repo's working tree"]
STUB = ["generated headers config.hpp/deprecated.hpp/warning.hpp (stubs with "
        "the same macros)", "user code (costs, functions, a manifold, "
        "callbacks): simulated", "allocator, stdout, thread scheduler: owned "
        "by the simulator"]


def die(msg):
    print("check error: " + msg, flush=True)
    sys.exit(2)


def digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def walk(d):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]


def build(props):
    repo_files = walk(REPO + "/include") + walk(REPO + "/src")
    lib_srcs = sorted(glob.glob(REPO + "/src/*.cpp"))
    sim_hdr = [HERE + "/sim/core.hpp", HERE + "/sim/world.hpp",
               HERE + "/sim/props/common.hpp"] + walk(HERE + "/stubs")
    flags = " ".join(BASE + INC + COV + [WRAP])
    tree = digest(repo_files + walk(HERE + "/stubs")) + \
        hashlib.sha256(flags.encode()).hexdigest()[:6]
    root = HERE + "/.build"
    os.makedirs(root, exist_ok=True)
    out = root + "/" + tree
    if not os.path.isdir(out):  # keep the cache small
        old = sorted((os.path.join(root, d) for d in os.listdir(root)),
                     key=os.path.getmtime)
        for d in old[:-2]:
            shutil.rmtree(d, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    jobs = []  # (source, object, flags)

    def add(src, flags, deps):
        o = "%s/%s-%s.o" % (out, os.path.basename(src)[:-4],
                            digest([src] + deps)[:12])
        if not os.path.exists(o):
            jobs.append((src, o, flags))
        return o
    lib = [add(s, BASE + INC + COV, []) for s in lib_srcs]
    core = add(HERE + "/sim/core.cpp", BASE, [HERE + "/sim/core.hpp"])
    world = add(HERE + "/sim/world.cpp", BASE + INC + COV, sim_hdr)
    common = add(HERE + "/sim/props/common.cpp", BASE + INC + COV, sim_hdr)
    pobj = {p: add("%s/sim/props/%s.cpp" % (HERE, p.lower()),
                   BASE + INC + COV, sim_hdr) for p in props}
    # longest first
    slow = ("prox-solver", "world", "c0", "c1", "workspace", "block-ldlt")
    jobs.sort(key=lambda j: next((i for i, s in enumerate(slow)
                                  if os.path.basename(j[0]).startswith(s)), 9))

    def cc(j):
        src, o, fl = j
        tmp = "%s.%d.tmp" % (o, os.getpid())
        r = subprocess.run([CXX] + fl + ["-c", src, "-o", tmp],
                           capture_output=True, text=True)
        if r.returncode:
            return src + ":\n" + r.stderr[-3000:]
        os.rename(tmp, o)
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(cc, jobs) if e]
    if errs:
        die("does not compile: " + errs[0])
    bins = {}
    for p in props:
        objs = [pobj[p], common, world, core] + lib
        b = "%s/%s-%s" % (out, p.lower(),
                          hashlib.sha256("".join(objs).encode()).hexdigest()[:12])
        if not os.path.exists(b):
            tmp = "%s.%d.tmp" % (b, os.getpid())
            r = subprocess.run([CXX, "-fsanitize=address", WRAP] + objs +
                               ["-lfmt", "-lpthread", "-o", tmp],
                               capture_output=True, text=True)
            if r.returncode:
                die("does not link: " + r.stderr[-3000:])
            os.rename(tmp, b)
        bins[p] = b
    return bins


def findings():
    """known findings and fixed defects"""
    known, fixed = [], []
    path = HERE + "/KNOWN_FINDINGS.txt"
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) class=(\S+) (.*)", line)
            if m:
                known.append(m.groups())
            m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
            if m:
                fixed.append(m.groups())
    return known, fixed


def run_workers(binary, prop, seed, tier, count, cap, known, work, njobs, tag,
                limit=None):
    ps = []
    for i in range(njobs):
        out = "%s/%s.%d.json" % (work, tag, i)
        cmd = [binary, "run", "--vseed", str(seed), "--from", str(i),
               "--stride", str(njobs), "--count", str(limit or count),
               "--time", str(cap), "--tier", tier, "--out", out]
        if known:
            cmd += ["--known", ",".join(known)]
        err = open(out + ".err", "wb")
        ps.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err),
                   out))
    rcs = []
    for p, out in ps:
        try:
            rcs.append((p.wait(timeout=cap + 150), out))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rcs.append((-1, out))
    return rcs


def main():
    if "--build-only" in sys.argv:
        build(sorted(PLAN))
        print("built")
        return 0
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        prop = re.search(r"^property (\S+)", open(f).read(), re.M).group(1)
        b = build([prop])[prop]
        r = subprocess.run([b, "replay", "--file", f, "--out", f + ".out"])
        for line in open(f + ".out"):
            if line.startswith(("trace", "detail", "class")):
                print(line.rstrip())
        os.unlink(f + ".out")
        return 1 if r.returncode == 1 else r.returncode
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    plan = PLAN[prop]
    t0 = time.time()
    binary = build([prop])[prop]
    t_build = time.time() - t0
    print("seed %d tier %s property %s (build %.0f s)" %
          (seed, tier, prop, t_build), flush=True)
    known_all, _ = findings()
    known = [k for k in known_all if k[0] == prop]
    work = "%s/.work/%s-%s-%d" % (HERE, prop, tier, os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    t1 = time.time()
    count, cap = plan[tier]["runs"], plan[tier]["cap"]
    rcs = run_workers(binary, prop, seed, tier, count, cap,
                      [k[1] for k in known], work, JOBS, "w")
    wall = time.time() - t1
    viols = [o + ".viol" for rc, o in rcs if os.path.exists(o + ".viol")]
    bad = [(rc, o) for rc, o in rcs
           if rc != 0 and not os.path.exists(o + ".viol")]
    if bad:
        print(open(bad[0][1] + ".err", errors="replace").read()[-2000:])
        die("a worker ended with %s and left no trace" % bad[0][0])

    # a run is a function of its seed: another process layout must agree
    det_bad, det_n = None, 0
    if not viols:
        hashes = {}
        for rc, o in rcs:
            for l in open(o + ".hashes"):
                a, b = l.split()
                hashes[a] = b
        n = plan[tier].get("det", 120 if tier == "quick" else 1000)
        for rc, o in run_workers(binary, prop, seed, tier, count, cap,
                                 [k[1] for k in known], work, 5, "d", n):
            if not os.path.exists(o + ".hashes"):
                die("determinism pass failed")
            for l in open(o + ".hashes"):
                a, b = l.split()
                if a in hashes:
                    det_n += 1
                    if hashes[a] != b:
                        det_bad = a
    if det_bad:
        die("run %s is not deterministic" % det_bad)

    # evidence
    runs = nontriv = ticks = switches = khits = 0
    fa, pr, si = Counter(), Counter(), Counter()
    samples, shapes, loghashes, rule = [], set(), set(), ""
    edges, etotal = 0, 0
    wmax = 0.
    for rc, o in rcs:
        if not os.path.exists(o):
            continue
        d = json.load(open(o))
        runs += d["runs"]
        ticks += d["ticks"]
        switches += d["switches"]
        khits += d["known_hits"]
        wmax = max(wmax, d["wall"])
        fa.update(d["faults"])
        pr.update(d["probes"])
        si.update(d["sites"])
        rule = d["rule"]
        etotal = d["edges_total"]
        if d["edges"]:
            edges |= int(d["edges"][::-1] or "0", 16)
        if len(samples) < 4:
            samples += d["samples"][:1]
        shapes |= set(open(o + ".shapes").read().split())
        loghashes |= {l.split()[1] for l in open(o + ".hashes")}
    status = 0
    nviol = 0
    if viols:
        status, nviol = report(binary, prop, viols, work)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": plan.get("level", "exploration"),
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": len(shapes),
            "rule": rule, "samples": samples,
            "runs_per_hour": int(runs / max(wmax, 1e-3) * 3600),
            "seeds_per_run": 1,
            "simulated_time": {
                "unit": "basic blocks of the code under test executed (the "
                        "library reads no clock)", "total": ticks,
                "user_code_evaluations": sum(si.values())},
            "faults_injected": dict(fa),
            "task_switches": switches,
            "distinct_executions": {
                "measure": "distinct digests of the whole event log of a run "
                           "(first 4096 seeds)", "count": len(loghashes)},
            "edges_covered": bin(edges).count("1"), "edges_total": etotal,
            "evaluations_by_site": dict(si), "probes": dict(pr),
            "determinism_double_runs": det_n,
            "known_finding_hits": khits,
            "real_components": REAL, "stubbed_components": STUB,
            "build_s": round(t_build, 1)},
        "assumptions": ["sampling, not enumeration: a clean batch is evidence",
                        "x86-64, clang " + "-O1, AddressSanitizer"],
        "wall_s": round(time.time() - t0, 1), "violations": nviol}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (HERE, prop), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%d runs, %d distinct non-trivial, %.0f s, faults %s" %
          (runs, len(shapes), wall, dict(fa)), flush=True)
    return status


def report(binary, prop, viols, work):
    os.makedirs(HERE + "/replays", exist_ok=True)
    seen = {}
    for v in viols:
        txt = open(v, errors="replace").read()
        m = re.search(r"^class (\S+)", txt, re.M)
        cls = m.group(1) if m else "?"
        ntok = len(txt)
        if cls not in seen or ntok < seen[cls][1]:
            seen[cls] = (v, ntok)
    shown = 0
    for cls, (v, _) in sorted(seen.items()):
        if cls.startswith("harness/"):
            print(open(v, errors="replace").read()[-1500:])
            continue
        if shown >= 3:
            break
        out = "%s/min-%d" % (work, shown)
        budget = 45 if shown == 0 else 15
        try:
            subprocess.run([binary, "min", "--in", v, "--out", out, "--time",
                            str(budget)], timeout=budget + 150,
                           stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            pass
        for cand in (out, v):
            if not os.path.exists(cand):
                continue
            ok = True
            for i in range(2):  # fresh processes, exactly the same
                r = subprocess.run([binary, "replay", "--file", cand, "--quiet",
                                    "1", "--tmp", out + ".replay"],
                                   stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL)
                ok &= r.returncode == 1
            if ok:
                h = hashlib.sha256(open(cand, "rb").read()).hexdigest()[:10]
                dst = "%s/replays/%s-%s.txt" % (HERE, prop, h)
                shutil.copy(cand, dst)
                for line in open(dst, errors="replace"):
                    if line.startswith(("class ", "detail ", "trace ")):
                        print("  " + line.rstrip()[:600])
                print("VIOLATION property=%s replay=%s" % (prop, dst),
                      flush=True)
                shown += 1
                break
        else:
            print("class %s did not replay exactly" % cls)
    if not shown:
        for cls, (v, _) in seen.items():
            err = v[:-5] + ".err"
            print(cls, open(err, errors="replace").read()[-1500:]
                  if os.path.exists(err) else "")
        die("violations that do not replay: " + ", ".join(seen))
    return 1, shown


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Runner: builds the simulator, the harnesses and /repo's current sources, explores, gates, reports.

  check.py P01 [--tier quick|thorough] [--seed N] [--seconds T]      run one check (VERIF_SEED / VERIF_TIER are honoured)
  check.py --build                                                   build everything
  check.py --replay FILE [--trace]                                   replay a recorded violation in a fresh process
"""
import sys, os, json, time, subprocess, hashlib, re, fcntl, glob, shutil, tempfile

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = min(8, os.cpu_count() or 8)
BINS = {  # binary -> harness sources; checks are looked up in PLAN
    "pool": ["pool"],
    "api": ["api"],
    "nebo": ["nebo"],
    "mem": ["mem"],
    "extra": ["extra"],
}
PLAN = {}
for _p in ("P01", "P02", "P03", "P04", "P05", "P06"): PLAN[_p] = "pool"
for _p in ("P07", "P08", "P09", "P10"): PLAN[_p] = "api"
for _p in ("P11", "P12", "P13", "P14", "P15", "P16", "P17", "P23"): PLAN[_p] = "nebo"
for _p in ("P18", "P19", "P20", "P21", "P22", "P24", "P25", "P26"): PLAN[_p] = "mem"
for _p in ("P27", "P28", "P29", "P30", "P31", "P32", "P33"): PLAN[_p] = "extra"
SKIP = {"pool": {"StencilBuilder.cpp"}, "api": {"StencilBuilder.cpp"}}   # slow to compile and not needed
QUICK_SECONDS, THOROUGH_SECONDS = 40, 600
GATE_RUNS = {"quick": 48, "thorough": 400}

SIMF = "-std=gnu++17 -O2 -g -w"
LIBF = ("-std=gnu++14 -O1 -g1 -w -fsanitize=thread --param=tsan-distinguish-volatile=1 -fno-omit-frame-pointer"
        " -DBOOST_ALLOW_DEPRECATED_HEADERS -DBOOST_BIND_GLOBAL_PLACEHOLDERS")
SYMS = "--redefine-sym memcpy=sim_memcpy --redefine-sym memmove=sim_memmove --redefine-sym memset=sim_memset".split()
LINK = "-no-pie"
LIBS = "-lboost_thread -lboost_system -lboost_filesystem -lpthread -ldl"

def die(msg):
    print("ERROR " + msg, file=sys.stderr); sys.exit(3)

def sh(cmd):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fp: h.update(fp.read())
        h.update(b"\0")
    return h.hexdigest()[:20]

def repo_sources():
    inc, cpp = [], []
    for root, dirs, files in os.walk(os.path.join(REPO, "spatialops")):
        dirs[:] = [d for d in dirs if d not in ("test", "tests", "example", "examples", "tutorial", "quickstart", "_build", "docs", "doc")]
        for f in files:
            p = os.path.join(root, f)
            if f.endswith((".h", ".hpp", ".ipp", ".inl")): inc.append(p)
            elif f.endswith(".cpp"): cpp.append(p)
    return sorted(inc), sorted(cpp)

def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text: return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f: f.write(text)

def configure(d):
    """What cmake does with SpatialOpsConfigure.h.in for -DENABLE_THREADS=ON -DNTHREADS=4."""
    on = {"ENABLE_THREADS", "FIELD_EXPRESSION_THREADS"}
    val = {"NTHREADS": "4", "SOPS_REPO_DATE": '"sim"', "SOPS_REPO_HASH": '"sim"'}
    out = []
    for l in open(os.path.join(REPO, "SpatialOpsConfigure.h.in")):
        m = re.match(r"\s*#cmakedefine\s+(\w+)(.*)", l)
        if m: l = "#define %s%s\n" % (m.group(1), m.group(2)) if m.group(1) in on else "/* #undef %s */\n" % m.group(1)
        l = re.sub(r"@(\w+)@", lambda k: val.get(k.group(1), '""'), l)
        out.append(l)
    write_if_changed(os.path.join(d, "inc/spatialops/SpatialOpsConfigure.h"), "".join(out))

def build(names):
    """Builds the given binaries from the current sources; returns {name: path}."""
    B = os.path.join(V, "build"); os.makedirs(B, exist_ok=True)
    inc, cpp = repo_sources()
    simsrc = glob.glob(V + "/sim/*"); har = glob.glob(V + "/harness/*")
    cfg = [os.path.join(REPO, "SpatialOpsConfigure.h.in")]
    base = digest(inc + cfg, LIBF)
    simkey = digest(simsrc, SIMF)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        res, need = {}, []
        for n in names:
            key = digest(inc + cpp + cfg + simsrc + [h for h in har if h.endswith(".h") or os.path.basename(h).split(".")[0].split("_")[0] == n], SIMF + LIBF + LINK + LIBS)
            exe = os.path.join(B, "bin", n + "-" + key); res[n] = exe
            if not os.path.exists(exe): need.append(n)
        if not need: return res
        os.makedirs(B + "/obj", exist_ok=True); os.makedirs(B + "/bin", exist_ok=True)
        cdir = os.path.join(B, "cfg"); configure(cdir)
        jobs = []
        def obj(src, flags, redefine, key):
            o = os.path.join(B, "obj", os.path.basename(src).replace(".cpp", "") + "-" + hashlib.sha256((src + key).encode()).hexdigest()[:16] + ".o")
            if not os.path.exists(o): jobs.append((src, flags, redefine, o))
            return o
        simo = [obj(V + "/sim/%s.cpp" % f, SIMF, False, simkey) for f in ("sim", "io", "driver")]
        lf = LIBF + " -I%s/inc -I%s" % (cdir, REPO)
        skip = set.intersection(*[SKIP.get(n, set()) for n in need])
        cpp = [c for c in cpp if os.path.basename(c) not in skip]
        libo = [(c, obj(c, lf, True, base + digest([c]))) for c in cpp]
        hobj = {}
        for n in need:
            parts = sorted(h for h in har if h.endswith(".cpp") and os.path.basename(h)[:-4].split("_")[0] == n)
            hobj[n] = [obj(h, lf, True, base + simkey + digest([h] + [x for x in har if x.endswith(".h")])) for h in parts]
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        jobs.sort(key=lambda j: 0 if j[0].startswith(V + "/harness") else 1)
        running, failed = [], {}
        def reap(block):
            for r in running[:]:
                if r[0].poll() is not None or block:
                    out, _ = r[0].communicate(); running.remove(r)
                    if r[0].returncode: failed[r[1]] = out
                    if block: return
        for src, flags, redef, o in jobs:
            while len(running) >= JOBS: reap(False); time.sleep(0.02)
            t = o + ".tmp%d" % os.getpid()
            c = "g++ %s -c %s -o %s" % (flags, src, t)
            if redef: c += " && objcopy %s %s" % (" ".join(SYMS), t)
            c += " && mv %s %s" % (t, o)
            running.append((subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), src))
        while running: reap(True)
        bad = [s for s in failed if not s.startswith(REPO)]
        if bad: die("cannot compile %s:\n%s" % (bad[0], failed[bad[0]][-6000:]))
        lib = [o for c, o in libo if c not in failed]
        ar = os.path.join(B, "obj", "lib-%s.a" % digest(cpp, base))
        if not os.path.exists(ar):
            rc, out = sh(["ar", "rcs", ar + ".tmp"] + lib)
            if rc: die(out)
            os.rename(ar + ".tmp", ar)
        for n in need:
            rc, out = sh("g++ %s %s %s %s -o %s.tmp %s && mv %s.tmp %s" % (LINK, " ".join(simo), " ".join(hobj[n]), ar, res[n], LIBS, res[n], res[n]))
            if rc:
                for c in failed: out += "\n%s:\n%s" % (c, failed[c][-3000:])
                die("link of %s failed:\n%s" % (n, out[-6000:]))
        # keep the cache small
        keep = sorted(glob.glob(B + "/bin/*") + glob.glob(B + "/obj/*"), key=os.path.getmtime)
        for f in keep[:-160]:
            if time.time() - os.path.getmtime(f) > 3600:
                try: os.unlink(f)
                except OSError: pass
        return res

def symbolise(exe, pcs):
    if not pcs: return []
    rc, out = sh(["addr2line", "-Cfpie", exe] + pcs)
    return [l.strip() for l in out.splitlines()][:12] if rc == 0 else []

def known_lines(prop):
    f = os.path.join(V, "known_findings.txt")
    return [l.rstrip("\n") for l in open(f)] if os.path.exists(f) else []

def merge(a, b):
    for k, v in b.items(): a[k] = a.get(k, 0) + v

def run_check(prop, tier, seed, seconds):
    t0 = time.time()
    if prop not in PLAN: die("no check for " + prop)
    exe = build([PLAN[prop]])[PLAN[prop]]
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return explore(prop, tier, seed, seconds, exe, work, t0, tb)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def explore(prop, tier, seed, seconds, exe, work, t0, tb):
    os.makedirs(V + "/evidence", exist_ok=True); os.makedirs(V + "/replays", exist_ok=True)
    rf = "%s/replays/%s.replay" % (V, prop)
    if os.path.exists(rf): os.unlink(rf)
    known = [l for l in known_lines(prop) if l.startswith("suppress ") and ("property=%s " % prop) in l]
    # determinism gate: the same runs in differently partitioned fresh processes
    n = GATE_RUNS[tier]; gates = []
    env = dict(os.environ)
    for part, (frm, st) in (("a", (0, 1)),) + tuple(("b%d" % i, (i, 3)) for i in range(3)):
        e = dict(env);
        if part != "a": e["SIM_GATE_PAD"] = "x" * (37 * (int(part[1]) + 1))
        gates.append((part, subprocess.Popen([exe, "hashes", "--check", prop, "--seed", str(seed), "--n", str(n), "--from", str(frm), "--stride", str(st)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e)))
    ga, gb, gerr = {}, {}, ""
    for part, p in gates:
        out, err = p.communicate()
        if p.returncode: gerr += "gate process exited with %s: %s\n" % (p.returncode, err[-800:])
        for l in out.splitlines(): k, rest = l.split(" ", 1); (ga if part == "a" else gb)[int(k)] = rest
    gate_ok = not gerr and len(ga) == n and ga == gb
    # exploration
    ws = []
    kf = os.path.join(V, "known_findings.txt")
    for i in range(JOBS):
        out = "%s/w%d" % (work, i)
        ws.append((out, subprocess.Popen([exe, "explore", "--check", prop, "--seed", str(seed), "--index", str(i), "--jobs", str(JOBS), "--seconds", str(seconds), "--out", out, "--minimise", "25" if tier == "quick" else "90"] + (["--known", kf] if os.path.exists(kf) else []),
                                         stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"))))
    stopped = False
    while any(p.poll() is None for _, p in ws):
        time.sleep(0.05)
        if not stopped and any(os.path.exists(o + ".stopme") or os.path.exists(o + ".replay") for o, _ in ws):
            stopped = True
            for o, _ in ws: open(o + ".stop", "w").close()
    tot = {"runs": 0, "nontrivial": 0, "discards": 0, "steps": 0, "sync_ops": 0, "switches": 0, "decisions": 0, "sim_seconds": 0.0, "runs_past_fault_window": 0}
    faults, probes, scen, strat, disc, kn = {}, {}, {}, {}, {}, {}
    samples, errors, vios, maxthr = [], [], [], 0
    inter, seen = set(), set()
    import array
    for o, p in ws:
        err = open(o + ".err").read()
        if p.returncode not in (0, 1): errors.append("worker exited with %s: %s" % (p.returncode, err[-1500:])); continue
        if not os.path.exists(o): errors.append("worker left no result: " + err[-500:]); continue
        d = json.load(open(o))
        for k in tot: tot[k] += d[k]
        for a, b in ((faults, "faults"), (probes, "probes"), (scen, "scenarios"), (strat, "strategies"), (disc, "discard_reasons"), (kn, "known")): merge(a, d[b])
        samples += d["samples"]; maxthr = max(maxthr, d["max_threads"])
        for s, f in ((inter, ".inter"), (seen, ".seen")):
            a = array.array("Q"); data = open(o + f, "rb").read(); a.frombytes(data); s.update(a)
        if d["violation"]: vios.append((d["violation"]["ops"] * 100 + d["violation"]["decisions"], o, d["violation"]))
    explore_wall = time.time() - t0 - tb
    violation, exact = None, False
    if vios:
        vios.sort(key=lambda v: v[:2])
        for _, o, v in vios:                      # fresh-process replays must reproduce the violation exactly
            r = [subprocess.run([exe, "replay", "--file", o + ".replay", "--quiet"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for _ in range(2)]
            if all(x.returncode == 1 and "REPLAY-EXACT" in x.stdout for x in r):
                violation = v; exact = True
                where = symbolise(exe, re.findall(r"^pc ([0-9a-f]+)$", open(o + ".replay").read(), re.M))
                with open(rf, "w") as f:
                    f.write("".join("# at %s\n" % w for w in where)); f.write(open(o + ".replay").read())
                v["where"] = where
                break
            errors.append("replay of %s is not exact: %s" % (o, r[0].stdout[-500:]))
    if gerr or not gate_ok:
        diff = [k for k in ga if ga.get(k) != gb.get(k)][:5]
        if not (violation and exact): errors.append("determinism gate failed (%s; differing runs %s) %s" % (n, diff, gerr))
    wall = time.time() - t0
    hours = max(explore_wall, 1e-6) / 3600.0
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(seen),
        "rule": "one evaluation is one simulated run: a program generated from the seed (see samples) executed under a seeded schedule and fault sequence in a fresh forked process. "
                "Non-trivial: the run reached the end of the scenario's checks after having exercised the operation under test (set by the harness). "
                "Distinct: different pair of (program, order of all synchronisation operations by thread and object).",
        "samples": samples[:6],
        "distinct_interleavings": len(inter),
        "interleaving_measure": "hash of the sequence (thread, operation, object) of all synchronisation operations of a run",
        "runs_per_hour": int(tot["runs"] / hours), "seeds_per_hour": int(tot["runs"] / hours), "master_seed": seed,
        "nontrivial_runs": tot["nontrivial"], "discarded_runs": tot["discards"], "discard_reasons": disc,
        "simulated_seconds": round(tot["sim_seconds"], 6), "simulated_steps": tot["steps"], "synchronisation_operations": tot["sync_ops"],
        "context_switches": tot["switches"], "schedule_and_fault_decisions": tot["decisions"], "runs_reaching_fault_free_phase": tot["runs_past_fault_window"], "max_threads_in_a_run": maxthr,
        "faults_injected": faults, "probes": probes, "scenarios": scen, "scheduling_strategies": strat,
        "determinism_gate": {"runs_compared": n, "processes": 4, "identical": bool(gate_ok)},
        "real_code": "all of /repo/spatialops and Boost (thread, bind, smart_ptr, date_time) as compiled; std::iostream",
        "stubbed": "pthread threads/mutexes/conditions, clocks and sleeps, operator new/malloc, file system calls (simulated disk)",
        "build_s": round(tb, 2),
    }
    if violation: cov["violation"] = violation
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["memory accesses are sequentially consistent between scheduling points; unordered conflicting accesses are reported as data races instead of being executed with weak ordering",
                          "code is compiled by g++ -O1 with thread-sanitizer instrumentation, ENABLE_THREADS=ON, NTHREADS=4"],
          "wall_s": round(wall, 3), "violations": 1 if violation else 0}
    with open("%s/evidence/%s.json" % (V, prop), "w") as f: json.dump(ev, f, indent=1)
    for i, l in enumerate(known): print("KNOWN-FINDING: property=%s %s" % (prop, l.split("contains=", 1)[-1]))
    if violation:
        print("%s: %s" % (violation["category"], violation["message"]))
        for w in violation.get("where", []): print("   at " + w)
        print("program: " + violation["program"])
        print("VIOLATION property=%s replay=%s" % (prop, rf))
        return 1
    if errors:
        for e in errors: print("ERROR " + e, file=sys.stderr)
        return 3
    print("%s held on %d runs (%d distinct non-trivial, %d interleavings, %.1f simulated s, faults %s) in %.1f s" % (prop, tot["runs"], len(seen), len(inter), tot["sim_seconds"], faults, wall))
    if tot["runs"] < 50 or not seen: print("ERROR too little was explored", file=sys.stderr); return 3
    return 0

def main():
    a = sys.argv[1:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    if "--build" in a:
        names = sorted({PLAN[p] for p in PLAN if os.path.exists(V + "/harness/%s.cpp" % PLAN[p])})
        t = time.time(); build(names); print("built %s in %.1f s" % (" ".join(names), time.time() - t)); return 0
    if "--replay" in a:
        f = opt("--replay", ""); m = re.search(r"^property (\S+)", open(f).read(), re.M)
        exe = build([PLAN[m.group(1)]])[PLAN[m.group(1)]]
        return subprocess.run([exe, "replay", "--file", f] + (["--trace"] if "--trace" in a else [])).returncode
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")) or 1)
    secs = float(opt("--seconds", QUICK_SECONDS if tier == "quick" else THOROUGH_SECONDS))
    return run_check(a[0], tier, seed, secs)

if __name__ == "__main__":
    sys.exit(main())

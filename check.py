#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]

Decides one property of duma by deterministic simulation: builds the simulator around the sources in
/repo's working tree, executes many seeded runs, gates and minimises what violates the property.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (an error of the check)
"""
import fcntl, glob, hashlib, json, os, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
VARIANTS = ["static", "so", "preload"]
WORKERS = 8
# one build per worker; the preload configuration writes no positions and no leak report
SPREAD = ["static", "so", "preload", "static", "static", "so", "preload", "static"]
SPREAD_LEAK = ["static", "so", "static", "so", "static", "so", "static", "static"]
# runs per worker (quick); thorough multiplies by THOROUGH and is limited by time
COUNT = {"C04": 800, "C12": 1000, "C19": 800, "C20": 1500}
DEFAULT_COUNT = 2500
QUICK_SECS = 50.0
THOROUGH_SECS = 2400.0
RUN = 'one simulated process: 1-6 client threads, generated operations, settings, kernel placements and faults, all from one seed'

RULES = {
    "C01": "a guard page was probed by an out-of-bounds access, or a preemption or a failed allocation happened",
    "C02": "a thread was preempted inside a call, an allocation failed, a block moved or the table grew",
    "C03": "released memory was probed, protected memory was given back, or a thread was preempted inside a call",
    "C04": "a limit took effect: freed memory was protected under a limit or given back",
    "C05": "an allocation failed (null, exception, exit) or could not be represented",
    "C06": "threads were preempted inside calls, or checks, size queries or nested releases ran",
    "C07": "a misuse was detected (double, mismatched or wild release, also racing)",
    "C08": "padding was overwritten and reported, or checks ran while other threads were in calls",
    "C09": "a block moved on resize, had a large alignment or size, or its size was queried",
    "C10": "a leak report with lines was compared, or the process ended while threads ran",
    "C11": "a preemption, a failed allocation or a give-back happened before the accessible memory was compared",
    "C12": "the lock was contended, taken recursively, or its holder preempted",
    "C13": "a fatal diagnosis was written",
    "C14": "a new-handler was called or bad_alloc thrown",
    "C15": "trace, leak or error lines with positions were compared",
    "C16": "every run: the settings in force and the start-up are compared in each",
    "C17": "a zero-size request was made under one of the strategies",
    "C18": "trace lines were compared",
    "C19": "an allocation/release workload was repeated",
    "C20": "a mapping of the program was a neighbour of, or placed where, memory of the tool was, or a thread was preempted",
}
REAL = ["src/duma.c", "src/dumapp.cpp", "src/print.c", "src/sem_inc.c", "paging.h and duma_hlp.h (inlined in duma.c)",
        "duma_config.h as createconf generates it here",
        "builds: static library; shared library without leak detection (as GNUmakefile makes it); shared library with leak detection"]
STUBS = ["kernel virtual memory (mmap, munmap, mprotect: placement, limits, errors; real pages with real protections behind it)",
         "write, open, close (outputs, errors, short and interrupted writes)", "pthread mutex, spinlock, once, semaphores and thread scheduling",
         "environment, atexit, exit, abort, signals that end the process, getpid, sysconf", "std::set_new_handler/get_new_handler",
         "the client program (generated operations)"]


def tree_key():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build"))
        for f in sorted(files):
            if f.endswith((".c", ".h", ".cpp", ".hpp", ".inc", ".cc", ".hh", ".inl")):
                p = os.path.join(base, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fd:
                    h.update(fd.read())
    for p in sorted(glob.glob(HERE + "/sim/*")) + [HERE + "/tools/build.sh"]:
        with open(p, "rb") as fd:
            h.update(p.encode() + b"\0" + fd.read())
    return h.hexdigest()


def build():
    out = HERE + "/build"
    os.makedirs(out, exist_ok=True)
    with open(out + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_key()
        try:
            old = open(out + "/key").read()
        except OSError:
            old = ""
        if old != key or not all(os.path.exists(f"{out}/simbin.{v}") for v in VARIANTS):
            if os.path.exists(out + "/key"):
                os.unlink(out + "/key")
            r = subprocess.run(["bash", HERE + "/tools/build.sh", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, REPO=REPO))
            if r.returncode:
                sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
                print("ERROR: the simulator does not build around this tree")
                sys.exit(2)
            with open(out + "/key", "w") as f:
                f.write(key)
        # private copies: another check may rebuild meanwhile
        mine = f"{out}/run.{os.getpid()}"
        os.makedirs(mine)
        for v in VARIANTS:
            os.link(f"{out}/simbin.{v}", f"{mine}/simbin.{v}")
    return mine


def verdict(text):
    for line in reversed(text.splitlines()):
        if line.startswith("{"):
            try:
                return json.loads(line)
            except ValueError:
                pass
    return None


def replay(mine, variant, plan, secs=300):
    try:
        r = subprocess.run([f"{mine}/simbin.{variant}", "replay", plan], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=secs)
    except subprocess.TimeoutExpired:
        return None
    return verdict(r.stdout.decode(errors="replace"))


def same(a, b):
    return a and b and a["verdict"] == b["verdict"] == 1 and a["class"] == b["class"] and a["hash"] == b["hash"]


def known_findings(prop):
    res = []
    with open(HERE + "/known-findings.txt") as f:
        for line in f:
            if line.startswith("finding: "):
                d = dict(x.split("=", 1) for x in line.split(" | ")[0].split()[1:])
                if d["property"] == prop:
                    d["text"] = line.split(" | ", 1)[1].strip()
                    res.append(d)
    return res


def confirm(mine, prop, v, log):
    """gate: the violation must come back, twice, in fresh processes; then minimise and check that again"""
    variant, path = v["variant"], v["path"]
    for cand in (path, path + ".seed"):
        a, b = replay(mine, variant, cand), replay(mine, variant, cand)
        if same(a, b):
            break
        log.append(f"{cand}: not reproduced: {a} {b}")
    else:
        return None
    final, shown = cand, a
    if cand == path:
        small = path.replace(".plan", ".min.plan")
        try:
            subprocess.run([f"{mine}/simbin.{variant}", "minimise", path, small, "20"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        except subprocess.TimeoutExpired:
            pass
        if os.path.exists(small):
            c, d = replay(mine, variant, small), replay(mine, variant, small)
            if same(c, d):
                final, shown = small, c
    os.makedirs(HERE + "/replays", exist_ok=True)
    kept = HERE + "/replays/" + os.path.basename(final).replace(".plan.seed", ".seed.plan")
    shutil.copyfile(final, kept)
    return kept, shown


def main():
    args = sys.argv[1:]
    if not args:
        sys.exit(__doc__)
    if args[0] == "build":
        shutil.rmtree(build())
        return 0
    if args[0] == "replay":                 # check.py replay FILE
        mine = build()
        variant = [l.split()[1] for l in open(args[1]) if l.startswith("variant ")][0]
        print(json.dumps(replay(mine, variant, args[1])))
        shutil.rmtree(mine)
        return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = None
    for k, v in zip(args[1::2], args[2::2]):
        if k == "--tier":
            tier = v
        if k == "--seed":
            seed = int(v)
        if k == "--secs":
            secs = float(v)
    n = int(prop[1:])
    t0 = time.time()
    mine = build()
    try:
        return run(prop, n, tier, seed, secs, t0, mine)
    finally:
        shutil.rmtree(mine, ignore_errors=True)


def run(prop, n, tier, seed, secs, t0, mine):
    tbuild = time.time() - t0
    print(f"{prop}: tier {tier}, seed {seed}, build {tbuild:.1f} s", flush=True)
    viol = mine + "/viol"
    os.makedirs(viol)
    count = COUNT.get(prop, DEFAULT_COUNT)
    if tier == "thorough":
        count *= 1000
    if secs is None:
        secs = THOROUGH_SECS if tier == "thorough" else QUICK_SECS
    stop = mine + "/stop"
    procs = []
    tb = time.time()
    spread = SPREAD_LEAK if prop in ("C10", "C15") else SPREAD
    for i in range(WORKERS):
        variant = spread[i]
        out = f"{mine}/out.{i}"
        cmd = [f"{mine}/simbin.{variant}", "batch", "--prop", str(n), "--seed", str(seed), "--first", str(i), "--stride", str(WORKERS),
               "--count", str(count), "--secs", str(secs), "--out", out, "--viol", viol, "--maxviol", "3", "--tier", str(int(tier == "thorough")),
               "--stop", stop]
        procs.append((variant, out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(f"{out}.err", "w"), env=dict(os.environ, SIM_CORE=str(i)))))
    for variant, out, p in procs:
        try:
            p.wait(max(1, secs + 200 - (time.time() - tb)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    twork = time.time() - tb
    tot = {}
    inj, probes, ops = {}, {}, {}
    vs, others, harness, samples = [], [], [], []
    sigs, hashes = set(), set()
    dead = 0
    per_variant = {}
    for variant, out, p in procs:
        try:
            d = json.load(open(out))
        except (OSError, ValueError):
            dead += 1
            harness.append(f"a worker ({variant}) gave no result, exit {p.returncode}: " + open(f"{out}.err").read()[-300:])
            continue
        for k, x in d.items():
            if isinstance(x, int) and not isinstance(x, bool):
                tot[k] = tot.get(k, 0) + x
        per_variant[variant] = per_variant.get(variant, 0) + d["runs"]
        for k, x in d["injected"].items():
            inj[k] = inj.get(k, 0) + x
        for k, x in d["opsdone"].items():
            ops[k] = ops.get(k, 0) + x
        for k, x in d["probes"].items():
            q = probes.setdefault(k, [0, 0])
            q[0] += x[0]
            q[1] += x[1]
        for x in d["violations"]:
            x["variant"] = variant
            vs.append(x)
        others += [dict(x, variant=variant) for x in d["others"]]
        harness += d["harness"]
        samples += d["samples"][:1]
        for ext, s in ((".sig", sigs), (".hash", hashes)):
            b = open(out + ext, "rb").read()
            s.update(struct.unpack(f"<{len(b) // 8}Q", b))
    # what is known to fail
    log = []
    known_seen = []
    for k in known_findings(prop):
        r = replay(mine, k["variant"], f"{HERE}/{k['plan']}")
        if r and r["verdict"] == 1 and r["class"] == k["class"]:
            known_seen.append(k["plan"])
            print(f"KNOWN-FINDING: property={prop} {k['text']}")
        else:
            log.append(f"known finding {k['plan']} does not fail now: {r}")
    # violations
    confirmed = None
    for v in sorted(vs, key=lambda x: x.get("overflow", 0)):
        confirmed = confirm(mine, prop, v, log)
        if confirmed:
            break
    runs = tot.get("runs", 0)
    broken = dead == WORKERS or runs == 0 or tot.get("gate_failed", 0) or tot.get("harness_errors", 0) > 0.02 * runs + 1 or (vs and not confirmed)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hashes),
            "rule": "each case is " + RUN + "; non-trivial: " + RULES[prop] + "; distinct: by the hash of the whole event log",
            "samples": samples[:4],
            "simulated_runs": runs,
            "runs_per_build": per_variant,
            "seeds_per_hour": round(runs / twork * 3600) if twork else 0,
            "simulated_time": "duma reads no clock: the simulated time is the count of scheduler steps (instrumented accesses and intercepted calls)",
            "simulated_steps": tot.get("steps", 0),
            "operations": tot.get("ops", 0),
            "operations_by_kind": ops,
            "intercepted_system_calls": tot.get("syscalls", 0),
            "thread_switches": tot.get("switches", 0),
            "thread_switches_inside_calls": tot.get("switches_in_call", 0),
            "distinct_interleavings": len(sigs),
            "distinct_interleavings_measure": "hash of the sequence (thread, code position) at every switch inside an allocator call",
            "faults_injected": inj,
            "rare_conditions_hit": {k: {"times": x[0], "runs": x[1]} for k, x in probes.items()},
            "rare_conditions_never_hit": sorted(k for k, x in probes.items() if not x[1]),
            "runs_ended_by_the_tool": tot.get("died", 0),
            "seeds_executed_twice_to_compare_event_logs": tot.get("gate", 0),
            "differing_event_logs": tot.get("gate_failed", 0),
            "runs_that_only_violate_other_properties": tot.get("other", 0),
            "runs_without_answer": tot.get("harness_errors", 0),
            "real_components": REAL,
            "stubbed_components": STUBS,
        },
        "assumptions": ["x86-64 Linux configuration as createconf generates it; threads are preempted at instrumented memory accesses and intercepted calls (-O0 builds), sequentially consistent memory",
                        "the kernel model: mmap/munmap/mprotect act as documented, atomically, and may fail with ENOMEM"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if confirmed else 0,
    }
    if known_seen:
        ev["coverage"]["known_findings_seen"] = known_seen
    if others:
        ev["coverage"]["violations_of_other_properties"] = others[:8]
    if harness or log:
        ev["coverage"]["notes"] = (harness + log)[:12]
    os.makedirs(HERE + "/evidence", exist_ok=True)
    tmp = f"{HERE}/evidence/.{prop}.{os.getpid()}"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, f"{HERE}/evidence/{prop}.json")
    print(f"{prop}: {runs} runs ({len(hashes)} distinct non-trivial), {tot.get('steps', 0)} steps, {len(sigs)} interleavings, {sum(inj.values())} faults, {time.time() - t0:.1f} s")
    for x in (harness + log)[:6]:
        print("note:", x[:400])
    if confirmed:
        print(f"{confirmed[1]['class']}: {confirmed[1]['message']}")
        print(f"VIOLATION property={prop} replay={confirmed[0]}")
        return 1
    if broken:
        print(f"ERROR: no answer ({tot.get('harness_errors', 0)} runs without answer, {tot.get('gate_failed', 0)} gate failures, {dead} workers lost, {len(vs)} unconfirmed violations)")
        return 2
    return 0


sys.exit(main())

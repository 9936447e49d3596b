#!/usr/bin/env python3
"""check.py PROPERTY: build the simulator from the current sources, run the
simulated executions of one property, gate and minimise what it finds, write the
evidence."""
import fcntl, glob, hashlib, json, os, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
PY = os.path.join(HERE, "py")
BUILD = os.path.join(HERE, ".build")
REPLAYS = os.path.join(HERE, "replays")

ASSUMPTIONS = [
    "sequential consistency between callers: switches happen between instrumented memory accesses, no weak-memory effects",
    "the C++ standard library, the compiler and the kernel behave as documented",
    "meshes of mostly at most 100 cells, seldom up to 9000, very seldom 144000, and at most 18 levels stand for larger ones",
]
RULE = {
    "C01": "distinct event histories (hash over every scheduling decision with its position, every injected fault, every call outcome and result) of runs with more context switches inside library calls than twice the number of callers and at least 2 completed agglomerations",
    "C02": "distinct event histories of runs with a suspended caller or at least one completed agglomeration",
    "C03": "distinct event histories of runs in which an injected fault fired and made a call fail",
    "C04": "distinct event histories of runs in which an injected fault fired and made a call fail",
    "C05": "distinct event histories of runs with at least one leak probe (same call, same fault, five times)",
    "C06": "distinct event histories of runs with at least one agglomeration under a heap placement, stale memory content, reused buffer or retry different from the baseline",
    "C10": "distinct event histories of runs in which the correction changed the partition",
    "C11": "distinct event histories of runs in which at least one line was agglomerated",
    "C12": "distinct event histories of runs in which at least one line was agglomerated",
    "C15": "distinct event histories of runs with at least one invalid request",
    "C16": "distinct event histories of runs in which standard output failed during a call",
    "C18": "distinct event histories (hash over calls, injected faults, outcomes and results) of runs in which an injected failure fired and a call raised",
    "C27": "distinct event histories of runs with leak probes (same call, same failure, six times) in which an injected failure fired and a call raised",
    "C23": "distinct event histories of runs with at least one agglomeration made under a memory limit with its stack depth measured",
    "C24": "distinct event histories of runs with at least three levels",
    "C25": "distinct event histories of runs with host settings other than the defaults in which at least one call failed",
    "C26": "distinct event histories of runs in which at least one call was made in the middle of another one",
    "C28": "distinct event histories of runs in which at least one thread was ended inside a call",
    "C29": "distinct event histories of runs in which a call made before main, after main or during the destruction of a thread's objects completed",
    "C31": "distinct event histories of runs in which at least one agglomeration completed on inputs in write-protected memory",
    "C30": "distinct event histories of runs in which at least one agglomeration completed while floating-point exceptions would have stopped the process",
    "C19": "distinct event histories of runs in which the process was killed inside or between calls, restarted, and completed at least one level after that",
}
DEFAULT_RULE = "distinct event histories (hash over injected faults, call outcomes and results) of runs producing at least two coarse cells"


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.exit(code)


class Cpp:
    """The library used from C++ (sim/)."""
    src, name, ext, slack = SIM, "sim", "scn", 300
    inputs = ("include", "config_files")

    def __init__(self, out):
        self.exe = [os.path.join(out, "sim")]
        self.env = dict(os.environ)

    def worker(self, prop, seed, w, nw, secs, prefix):
        return self.exe + ["run", prop, str(seed), str(w), str(nw), str(secs), "100000000", prefix]

    def replay(self, f):
        return self.exe + ["replay", f]

    def minimise(self, f, out, secs):
        return self.exe + ["min", f, out, secs]

    def what(self, f):
        head = open(f).read().splitlines()
        return head[1][2:] if len(head) > 1 else "?"


class Python:
    """The library used through its Python module (py/)."""
    src, name, ext, slack = PY, "py", "json", 120
    inputs = ("include", "config_files", "src")

    def __init__(self, out):
        self.exe = ["/usr/bin/python3", os.path.join(PY, "pysim.py")]
        self.out = out
        self.env = dict(os.environ, LD_PRELOAD=os.path.join(out, "shim.so"), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        self.env.pop("PYTHONPATH", None)

    def worker(self, prop, seed, w, nw, secs, prefix):
        return self.exe + ["run", self.out, prop, str(seed), str(w), str(nw), str(secs), prefix]

    def replay(self, f):
        return self.exe + ["replay", self.out, f]

    def minimise(self, f, out, secs):
        return self.exe + ["min", self.out, f, out, secs]

    def what(self, f):
        return json.load(open(f))["what"]


def tree_hash(eng):
    h = hashlib.sha256()
    for root in (eng.src,) + tuple(os.path.join(REPO, i) for i in eng.inputs):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def build(eng):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash(eng)
        out = os.path.join(BUILD, f"{eng.name}-{key}")
        if not os.path.exists(os.path.join(out, "ok")):
            for old in glob.glob(os.path.join(BUILD, eng.name + "-*")):
                if old != out:
                    shutil.rmtree(old, ignore_errors=True)
            r = subprocess.run(["bash", os.path.join(eng.src, "build.sh"), REPO, out], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                die("the simulator does not build:\n" + r.stdout[-4000:])
            open(os.path.join(out, "ok"), "w").close()
        return eng(out)


def replay(sim, f, timeout=300):
    try:
        r = subprocess.run(sim.replay(f), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           env=sim.env)
    except subprocess.TimeoutExpired:
        return None
    line = [l for l in r.stdout.splitlines() if l.startswith("RESULT ")]
    if r.returncode not in (0, 1) or not line:
        return None
    _, what, h = line[-1].split(" ", 2)[:3]
    return what, h.split(" ", 1)[0], line[-1]


def gate(sim, f):
    """The same execution, twice, each time in a fresh process."""
    a, b = replay(sim, f), replay(sim, f)
    if not a or not b:
        return None
    return a if a == b and a[0] != "OK" else None


def cpp_coverage(counts, cov, other):
    cb = (cov or 0).to_bytes((1 << 17) + (1 << 15), "little")
    edges = sum(1 for x in cb[:1 << 17] if x)
    sites = sum(1 for x in cb[1 << 17:] if x)
    faults = {k: counts.get(k, 0) for k in (
        "alloc_one", "alloc_burst", "alloc_from", "alloc_big", "alloc_quota", "alloc_handler", "alloc_thread_end", "out_silent", "out_throw_mask", "out_throw_device",
        "out_closed", "out_nested", "out_thread_end", "stalls", "crashes", "resumes", "rejects", "switches", "switches_at_shared_accesses")}
    faults.update({"heap placement " + n: counts.get("hmode_%d" % i, 0) for i, n in enumerate(("ascending", "descending", "lifo", "random"))})
    faults.update({"memory content " + n: counts.get("fill_%d" % i, 0) for i, n in enumerate(("zero", "ones", "pattern", "random", "stale"))})
    faults["salted iteration order (runs)"] = counts.get("runs_salted_iteration_order", 0)
    faults["host settings changed (runs)"] = counts.get("runs_host_state_changed", 0)
    faults["reused buffers (runs)"] = counts.get("runs_reused_buffers", 0)
    return {
        "simulated_time_steps": counts.get("sim_steps", 0),
        "simulated_time_unit": "one step = one instrumented memory access, branch edge or allocation inside the library; the library reads no clock",
        "faults_injected": faults,
        "library_calls": {k: counts.get(k, 0) for k in ("calls", "calls_ok", "calls_failed", "retries", "levels", "lines", "coarse_cells", "aniso_coarse_cells", "leak_probes", "sweeps", "swept_points", "checkpoints", "resumed_past_level_0", "output_writes", "env_reads", "nested_calls", "calls_before_main", "calls_after_main", "calls_at_thread_end", "calls_with_floating_point_traps", "protected_inputs", "runs_host_exception", "calls_in_long_histories", "max_calls_in_one_history", "huge_runs", "huge_runs_given_up")},
        "library_edges_covered": edges,
        "distinct_failing_allocation_sites": sites,
        "largest_share_of_step_budget_ppm": counts.get("max_step_budget_ppm", 0),
        "largest_stack_bytes": counts.get("max_stack_bytes", 0),
        "largest_heap_bytes_per_cell_and_edge": counts.get("max_bytes_per_entry", 0),
        "findings_of_other_properties": other,
        "real_code": "all library headers, C++ standard library, exceptions, iostream formatting, real threads",
        "simulated": "allocator, device behind standard output, thread scheduler, iteration order of unordered containers, clocks and entropy, process death",
    }


def python_coverage(counts):
    pick = lambda pre: {k[len(pre):]: v for k, v in sorted(counts.items()) if k.startswith(pre)}
    return {
        "simulated_time_steps": counts.get("allocations", 0),
        "simulated_time_unit": "one step = one C++ allocation inside a call of the module",
        "faults_injected": {**pick("fault_"), **{"standard output " + k: v for k, v in pick("stdout_").items()}},
        "library_calls": {"calls": counts.get("calls", 0), **pick("call_")},
        "leak_probes": {"all": counts.get("leak_probes", 0), **pick("leak_probes_")},
        "findings_of_other_properties": counts.get("findings_of_other_properties", 0),
        "outcomes": pick("out_"),
        "real_code": "interpreter, binding layer, Python module, all library headers",
        "simulated": "C++ allocator, device behind standard output, sequence objects that run host code while they are read",
    }


def main():
    if sys.argv[1] == "--build":
        build(Cpp), build(Python)
        return
    if sys.argv[1] == "--replay":
        sim = build(Python if sys.argv[2].endswith(".json") else Cpp)
        sys.exit(subprocess.run(sim.replay(sys.argv[2]) + ["-v"], env=sim.env).returncode)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = float(os.environ.get("VERIF_SECONDS", "600" if tier == "thorough" else "36"))
    t0 = time.time()
    sim = build(Python if prop in ("C18", "C27") else Cpp)
    t_build = time.time() - t0
    nw = max(2, min(8, os.cpu_count() or 2))
    tmp = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    code = 0
    try:
        ps = []
        for w in range(nw):
            ps.append(subprocess.Popen(
                sim.worker(prop, seed, w, nw, secs, os.path.join(tmp, f"w{w}")), env=sim.env,
                stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, f"w{w}.err"), "w")))
        for p in ps:
            try:
                p.wait(timeout=secs + sim.slack)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        errs = []
        for w, p in enumerate(ps):
            if p.returncode not in (0, 1):
                errs.append(f"worker {w}: exit {p.returncode}: " + open(os.path.join(tmp, f"w{w}.err")).read()[-500:])
        viols = sorted(glob.glob(os.path.join(tmp, "w*.viol")))
        messages, violation = [], None
        for v in viols:
            messages.append(sim.what(v))
            if violation:
                continue
            if not gate(sim, v):
                errs.append("finding did not reproduce: " + messages[-1])
                continue
            best = v
            if os.path.exists(v + "x") and gate(sim, v + "x"):
                best = v + "x"
            m = v + ".min"
            lim = "240" if tier == "thorough" else "60"
            subprocess.run(sim.minimise(best, m, lim), timeout=600, env=sim.env)
            if os.path.exists(m) and gate(sim, m):
                best = m
            os.makedirs(REPLAYS, exist_ok=True)
            dst = os.path.join(REPLAYS, f"{prop}-seed{seed}-{os.getpid()}.{sim.ext}")
            shutil.copy(best, dst)
            g = gate(sim, dst)
            if not g:
                errs.append("replay file does not reproduce")
                continue
            violation = (dst, g[2])
        # evidence
        runs = nontriv = det = 0
        wall = 0.
        counts, other, samples, hashes = {}, {}, [], set()
        cov = None
        for w in range(nw):
            j = os.path.join(tmp, f"w{w}.json")
            if not os.path.exists(j):
                continue
            d = json.load(open(j))
            runs += d["runs"]
            nontriv += d["nontrivial"]
            det += d["determinism_pairs"]
            wall = max(wall, d["wall"])
            for k, v in d["counts"].items():
                counts[k] = max(counts.get(k, 0), v) if k.startswith("max") else counts.get(k, 0) + v
            for k, v in d.get("other", {}).items():
                other[k] = other.get(k, 0) + v
            samples += d["samples"][:1]
            raw = open(os.path.join(tmp, f"w{w}.hash"), "rb").read()
            hashes.update(struct.unpack(f"<{len(raw) // 8}Q", raw))
            if isinstance(sim, Cpp):
                c = int.from_bytes(open(os.path.join(tmp, f"w{w}.cov"), "rb").read(), "little")
                cov = c if cov is None else cov | c
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": len(hashes),
                "rule": RULE.get(prop, DEFAULT_RULE),
                "samples": (samples or ["no run completed"])[:5],
                "runs_nontrivial": nontriv,
                "runs_per_hour": int(runs / wall * 3600) if wall else 0,
                **(cpp_coverage(counts, cov, other) if isinstance(sim, Cpp) else python_coverage(counts)),
                "determinism_pairs_checked": det,
                "build_s": round(t_build, 1),
            },
            "assumptions": ASSUMPTIONS,
            "wall_s": round(time.time() - t0, 2),
            "violations": len(messages) if violation else 0,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if violation:
            print(f"violated: {violation[1]}")
            print(f"VIOLATION property={prop} replay={violation[0]}")
            code = 1
        elif errs:
            for e in errs:
                print("ERROR: " + e)
            code = 2
        else:
            print(f"{prop}: held in {runs} simulated executions ({len(hashes)} distinct histories), {wall:.0f} s, build {t_build:.0f} s")
            for k, v in other.items():
                print(f"note: {v} executions also show a problem of {k}; see that check")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()

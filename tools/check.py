#!/usr/bin/env python3
"""check.py C07 [--tier quick|thorough]: decides one property of the code in /repo as it is now.

Builds the LLVM IR of the program with its harnesses, lets the symbolic engine execute every harness of the property
(all values of the symbolic inputs within the harness's bounds, deciding branches and assertions with Z3), replays
counterexamples and a sample of the explored paths on the natively compiled program, and writes the evidence file.
Exit 0: no violation in what was explored. 1: a violation, reproduced natively. 2: no answer.
"""
import glob, json, os, random, re, signal, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vfbuild
from plan import PLAN

VERIF = vfbuild.VERIF
SLOTS = int(os.environ.get("VF_SLOTS") or os.cpu_count() or 8)

def demangle(names):
    names = sorted(names)
    if not names:
        return {}
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.split("\n")
        return {n: re.sub(r"\[[0-9a-f]+\]", "", r[i]) for i, n in enumerate(names)}
    except Exception:
        return {n: n for n in names}

def write_replay(path, harness, params, inputs, comment=()):
    with open(path, "w") as f:
        for c in comment:
            f.write("# " + c.replace("\n", "\\n") + "\n")
        f.write("harness %s\n" % harness)
        for p in params:
            f.write("param %d\n" % p)
        for i in inputs:
            f.write("input %d\n" % i)

def replay(exe, path, timeout=15):
    """-> (exit status or None for a timeout, stderr)"""
    p = subprocess.Popen([exe], env=dict(os.environ, VF_REPLAY=path, RUST_BACKTRACE="0"), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        _, e = p.communicate(timeout=timeout)
        return p.returncode, e.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "timeout"

def failed(rc, kind):
    """does this outcome of a native replay show the violation?"""
    if rc == 42:
        return True
    if rc is None:
        return kind in ("nontermination", "memory")
    return rc == 101 or rc < 0  # panic or killed by a signal, outside a place where the harness expects it

class Job:
    def __init__(self, spec):
        self.harness = spec["h"]
        self.params = spec.get("p", [])
        # the harnesses are told which property is judged (parameter 15): some of them serve several
        self.all_params = self.params + [0] * (15 - len(self.params)) + [spec.get("as") or int(spec["property"][1:])]
        self.bound = spec.get("bound", "")
        self.time = spec.get("time", 0)
        self.steps = spec.get("steps", 0)
        self.covers = spec.get("covers", ["end"])
        self.fallback = spec.get("fallback", False)
        self.id = self.harness + "".join("_%d" % p for p in self.params)
        self.results = []
        self.problem = None
    def total(self, *keys):
        t = 0
        for r in self.results:
            v = r
            for k in keys:
                v = v[k]
            t += v
        return t

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])

def main():
    t0 = time.time()
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    only = None
    for i, a in enumerate(args):
        if a == "--tier":
            tier = args[i + 1]
        if a == "--only":
            only = args[i + 1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    plan = PLAN[prop]
    specs = plan["quick"] if tier == "quick" else plan.get("thorough", plan["quick"])
    jobs = [Job(dict(s, property=prop)) for s in specs if not only or re.search(only, s["h"])]
    budget = float(os.environ.get("VF_BUDGET") or (plan.get("budget", 150) if tier == "quick" else plan.get("thorough_budget", 1500)))
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for old in glob.glob(os.path.join(evdir, prop + "-*.replay")):
        os.unlink(old)

    box = {}
    def build_native():
        try:
            box["native"] = vfbuild.native(plan["mods"])
        except vfbuild.BuildError as e:
            box["native_error"] = str(e)
    th = threading.Thread(target=build_native)
    engbox = {}
    def build_engine():
        try:
            engbox["exe"] = vfbuild.engine()
        except vfbuild.BuildError as e:
            engbox["err"] = str(e)
    te = threading.Thread(target=build_engine)
    try:
        te.start()
        ir, mods, dropped = vfbuild.ir(plan["mods"])
        te.join()
        if "err" in engbox:
            raise vfbuild.BuildError(engbox["err"])
        engine = engbox["exe"]
    except vfbuild.BuildError as e:
        print("no answer: the program with its harnesses does not build")
        print(e)
        sys.exit(2)
    # checks through the command line that stand in where harnesses for inner functions do not fit the program
    jobs = [j for j in jobs if dropped or not j.fallback]
    th.start()
    t_build = time.time() - t0
    with open(ir, "rb") as f:
        irtext = f.read()
    defined = set(re.findall(rb"^define [^\n]*?@(vf_h_\w+)\(", irtext, re.M))
    ndefs = len(re.findall(rb"^define ", irtext, re.M))
    del irtext

    work = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir=vfbuild.BUILD)
    slots = os.path.join(work, "slots")
    deadline = time.time() + budget
    procs = []
    for j in jobs:
        if j.harness.encode() not in defined:
            j.problem = "harness does not fit this program (module left out): " + "; ".join(dropped.values())
            continue
        out = os.path.join(work, j.id + ".json")
        cmd = [engine, "--ir", ir, "--entry", j.harness, "--out", out, "--slots", slots, str(SLOTS), "--deadline", "%.1f" % deadline, "--seed", str(seed)]
        for p in j.all_params:
            cmd += ["--param", str(p)]
        if j.time:
            cmd += ["--time", str(j.time)]
        if j.steps:
            cmd += ["--steps", str(j.steps)]
        log = open(out + ".log", "w")
        procs.append((j, out, subprocess.Popen(cmd, stdout=log, stderr=log, stdin=subprocess.DEVNULL, start_new_session=True)))
        time.sleep(0.01)

    def collect():
        for j, out, p in procs:
            j.results = []
            for f in glob.glob(out + "*"):
                if f.endswith(".log") or f.endswith(".tmp"):
                    continue
                try:
                    j.results.append(json.load(open(f)))
                except ValueError as e:
                    j.problem = "unreadable result: %s" % e
    def find_violations():
        return [(j, r["violation"]) for j, _, _ in procs for r in j.results if r["status"] == "violation"]
    def stop():
        for _, _, p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for _, _, p in procs:
            p.wait()

    # violations are replayed as they come; one that is reproduced ends the run
    seen, known, unreproduced, confirmed = set(), [], [], None
    findings = [k for k in known_findings() if k.get("property") == prop]
    last_new = None
    def handle(j, v):
        nonlocal confirmed
        path = os.path.join(evdir, "%s-%s.replay" % (prop, j.id))
        write_replay(path, j.harness, v["params"], v["inputs"], ["property %s, harness %s, %s: %s" % (prop, j.harness, v["kind"], v["message"])] + ["note: " + n for n in v["notes"]])
        th.join()
        if "native" not in box:
            unreproduced.append((j, v, "no native build: " + box.get("native_error", "")[-500:]))
            return
        tries, rc, err = 0, 0, ""
        t = time.time()
        while tries < 400 and time.time() - t < 40:
            tries += 1
            rc, err = replay(box["native"], path)
            if failed(rc, v["kind"]):
                break
            if rc in (43, 44, 45, 46):
                break
        if failed(rc, v["kind"]):
            for k in findings:
                if k.get("harness") == j.harness and k.get("message") in (v["message"], None) and k.get("inputs") in (v["inputs"], None):
                    known.append(k)
                    return
            confirmed = (j, v, path, rc, err, tries)
        else:
            unreproduced.append((j, v, "native replay ended with %s after %d runs: %s" % (rc, tries, err.strip()[-300:])))
    hard = deadline + 30
    while True:
        alive = [p for _, _, p in procs if p.poll() is None]
        collect()
        for j, v in find_violations():
            key = (j.id, tuple(v["inputs"]))
            if key not in seen:
                seen.add(key)
                handle(j, v)
                if confirmed:
                    break
        if confirmed or not alive:
            break
        if time.time() > hard:
            break
        time.sleep(0.1 if time.time() - t0 < 20 else 0.3)
    stop()
    if not confirmed:
        collect()
        for j, v in find_violations():
            key = (j.id, tuple(v["inputs"]))
            if key not in seen and not confirmed:
                seen.add(key)
                handle(j, v)
    th.join()

    # what each job amounts to
    undecided, incomplete, vacuous = [], [], []
    for j, out, p in procs:
        if any(r["status"] == "violation" for r in j.results):
            continue
        if not j.results:
            log = open(out + ".log").read().strip()[-400:]
            j.problem = "engine failed (%s): %s" % (p.returncode, log)
        elif len(j.results) != 1 + j.total("splits") and not confirmed:
            j.problem = "%d of %d engine processes ended without a result" % (1 + j.total("splits") - len(j.results), 1 + j.total("splits"))
        elif any(r["aborted"] for r in j.results):
            j.problem = "%d paths given up: %s" % (j.total("aborted"), next(r["abort_reason"] for r in j.results if r["aborted"]))
        elif any(r["status"] != "complete" for r in j.results):
            incomplete.append(j)
        else:
            for c in j.covers:
                if not any(c in r["covers"] for r in j.results):
                    vacuous.append("%s never reaches '%s'" % (j.id, c))
    undecided = [j for j in jobs if j.problem]

    # replay a sample of the explored paths: the real program must satisfy the same assertions on them
    rng = random.Random(seed)
    samples = [(j, s) for j in jobs for r in j.results for s in r["samples"]]
    rng.shuffle(samples)
    validated, mismatch, shown = 0, [], []
    limit = 40 if tier == "quick" else 300
    if "native" in box and not confirmed:
        tv = time.time()
        for j, s in samples[:limit]:
            if time.time() - tv > (10 if tier == "quick" else 120):
                break
            path = os.path.join(work, "sample.replay")
            write_replay(path, j.harness, j.all_params, s["inputs"])
            rc, err = replay(box["native"], path)
            if rc == 0:
                validated += 1
                if len(shown) < 8:
                    shown.append({"harness": j.harness, "params": j.params, "inputs": s["inputs"][:80], "path_constraints": s["path_constraints"], "notes": s["notes"], "native": "assertions hold"})
            elif failed(rc, "check"):
                path = os.path.join(evdir, "%s-%s.replay" % (prop, j.id))
                write_replay(path, j.harness, j.all_params, s["inputs"], ["property %s, harness %s: a path sampled for validation fails on the native program" % (prop, j.harness)])
                confirmed = (j, {"kind": "check", "message": "assertion fails on the native program", "inputs": s["inputs"], "notes": s["notes"], "where": ""}, path, rc, err, 1)
                break
            else:
                mismatch.append("%s: native replay of a sampled path ended with %s: %s" % (j.id, rc, err.strip()[-200:]))
    if not shown:
        shown = [{"harness": j.harness, "params": j.params, "inputs": s["inputs"][:80], "path_constraints": s["path_constraints"], "notes": s["notes"]} for j, s in samples[:4]]
    if "native_error" in box:
        mismatch.append("no native build: " + box["native_error"][-500:])

    fns = {}
    for j in jobs:
        for r in j.results:
            for n, c in r["ripcalc_functions"].items():
                fns[n] = fns.get(n, 0) + c
    dm = demangle(fns)
    def harness_fn(n):
        return any(x in dm[n] for x in ["::%s::" % m for m in vfbuild.modules() + ["vf", "vflib"]])
    program = sorted({dm[n] for n in fns if not harness_fn(n)})
    def tot(*k):
        return sum(j.total(*k) for j in jobs)
    exhaustive = not incomplete and not undecided and not vacuous and not dropped
    cov = {
        "states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": validated, "samples": shown, "exhaustive": exhaustive,
        "explanation": "states are complete symbolic execution paths (each stands for all inputs that follow it), transitions are LLVM instructions executed symbolically; exhaustive means: all paths of every harness explored and every assertion decided for all values within the bounds",
        "assertions_checked": tot("checks"), "assertions_decided_by_solver": tot("checks_by_solver"), "assertions_decided_by_simplification_or_path_facts": tot("checks_static"),
        "program_runs": tot("program_runs"), "paths_outside_bounds": tot("pruned"), "paths_pending": tot("pending"),
        "solver": {"name": "Z3 (QF_FD, incremental)", "queries": tot("solver", "queries"), "sat": tot("solver", "sat"), "unsat": tot("solver", "unsat"), "unknown": tot("solver", "unknown"), "time_s": round(tot("solver", "time_s"), 2), "slowest_query_s": max([r["solver"]["max_s"] for j in jobs for r in j.results] or [0])},
        "functions_encoded": program, "functions_executed_in_total": max([r["functions_executed"] for j in jobs for r in j.results] or [0]), "functions_in_ir": ndefs,
        "harnesses": [{"harness": j.harness, "params": j.params, "bounds": j.bound, "status": "undecided: " + j.problem if j.problem else "violation" if any(r["status"] == "violation" for r in j.results) else "incomplete (time)" if j in incomplete else "complete", "paths": j.total("paths"), "pending": j.total("pending"), "assertions": j.total("checks"), "queries": j.total("solver", "queries"), "solver_s": round(j.total("solver", "time_s"), 2), "processes": len(j.results), "covers": {c: sum(r["covers"].get(c, 0) for r in j.results) for c in sorted({c for r in j.results for c in r["covers"]})}} for j in jobs],
        "modules_left_out": dropped, "build_s": round(t_build, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": plan.get("outside", []) + COMMON, "wall_s": round(time.time() - t0, 1), "violations": 1 if confirmed else 0}
    with open(os.path.join(evdir, prop + ".json.tmp"), "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(os.path.join(evdir, prop + ".json.tmp"), os.path.join(evdir, prop + ".json"))
    subprocess.run(["find", work, "-delete"])

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k.get("what", k.get("message"))))
    print("%s %s: %d paths, %d assertions, %d queries (%.1f s solver), %d paths replayed natively, build %.1f s, total %.1f s" % (prop, tier, cov["states"], cov["assertions_checked"], cov["solver"]["queries"], cov["solver"]["time_s"], validated, t_build, time.time() - t0))
    for j in incomplete:
        print("  not exhausted within the time budget: %s (%d paths done, %d open)" % (j.id, j.total("paths"), j.total("pending")))
    if confirmed:
        j, v, path, rc, err, tries = confirmed
        print("  harness %s: %s: %s" % (j.id, v["kind"], v["message"]))
        for n in v["notes"]:
            print("  note: " + n)
        print("  native replay: status %s (run %d) %s" % (rc, tries, err.strip()[-600:]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    bad = False
    for j in undecided:
        print("  undecided: %s: %s" % (j.id, j.problem))
    for j, v, why in unreproduced:
        print("  counterexample not reproduced: %s %s: %s (%s) inputs %s notes %s" % (j.id, v["kind"], v["message"], why, v["inputs"][:60], v["notes"]))
        bad = True
    for m in mismatch + vacuous:
        print("  " + m)
        bad = True
    if bad or len(undecided) == len(jobs):
        print("no answer")
        sys.exit(2)
    sys.exit(0)

COMMON = [
    "the LLVM IR that is executed symbolically is what the stable compiler produces from /repo's current source at opt-level 1 with overflow checks and debug assertions; counterexamples and sampled paths are replayed on a development-profile build",
    "the engine's IR semantics, simplifier and Z3 are trusted (simplifier and translation are tested by symex --selftest; sampled paths are validated natively)",
    "memory allocation succeeds; standard output and error accept everything; not a terminal (no colors) unless the harness says otherwise",
    "inputs outside the stated bounds of the harnesses are not covered",
]

if __name__ == "__main__":
    try:
        main()
    except Exception:
        import traceback
        traceback.print_exc()
        print("no answer: the check itself failed")
        sys.exit(2)

#!/usr/bin/env python3
"""Decides one property by seeded simulation of the code in /repo's working tree.

  check.py C01                 search (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  check.py --replay FILE [-v]  run one recorded schedule again
Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no answer.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import build  # noqa: E402
from plan import PLAN  # noqa: E402

WORKERS = 8


def scratch_root():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    # A fixed-length path: the code under test handles it, so its length is part of a run's input.
    return tempfile.mkdtemp(prefix="vsim-", dir=base)


def environment(directory):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL", "TMPDIR")}
    env["HOME"] = directory
    return env


def worker_dir(root, k):
    d = os.path.join(root, "w%02d" % k)
    os.makedirs(d, exist_ok=True)
    return d


def command(exe, prop, directory, *rest):
    return [exe, "--prop", prop, "--scratch", directory] + [str(x) for x in rest]


def read_out(path):
    out = {"stats": {}, "counters": {}, "scheds": [], "hashes": [], "samples": [], "violation": None, "error": None}
    if os.path.exists(path):
        for line in open(path, errors="replace"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            for k, v in d.items():
                if k == "sample":
                    out["samples"].append(v)
                else:
                    out[k] = v
    return out


def known_findings(prop):
    """Lines `finding: property=<id> class=<class> <what fails>` (open) and `fixed: ...` (history)."""
    found = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            words = line.split()
            if line.startswith("finding:") and "property=" + prop in words:
                cls = [w[6:] for w in words if w.startswith("class=")]
                found.append((cls[0] if cls else "", line.split(":", 1)[1].strip()))
    return found


def confirm(exe, prop, root, replay, cls):
    """The minimised schedule must show the same violation, twice, in fresh processes."""
    seen = []
    for k in range(2):
        d = worker_dir(root, 90 + k)
        r = subprocess.run(command(exe, prop, d, "--replay", replay), env=environment(d), cwd=d, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=200)
        viol = [x for x in r.stdout.splitlines() if x.startswith("VIOL ") and "|%s|" % cls in x]
        h = [x.split()[1] for x in r.stdout.splitlines() if x.startswith("HASH ")]
        seen.append((r.returncode, viol[:1], h))
    return seen[0] == seen[1] and seen[0][0] == 1 and bool(seen[0][1])


def search(prop):
    t_start = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[prop]
    harness = plan["harness"]
    try:
        exe = build.build(harness)
    except build.BuildError as e:
        print(e)
        print("check %s: the harness does not build against /repo" % prop)
        return 2
    t_built = time.time()
    runs, limit = plan[tier]
    if os.environ.get("VERIF_RUNS"):
        runs = int(os.environ["VERIF_RUNS"])
    if os.environ.get("VERIF_LIMIT"):
        limit = float(os.environ["VERIF_LIMIT"])
    root = scratch_root()
    code = 0
    try:
        procs = []
        for k in range(WORKERS):
            d = worker_dir(root, k)
            out = os.path.join(root, "out%02d" % k)
            procs.append((k, out, subprocess.Popen(
                command(exe, prop, d, "--run", "--seed", seed, "--start", k, "--count", runs, "--stride", WORKERS,
                        "--limit", limit, "--recheck", plan.get("recheck", 50), "--out", out),
                env=environment(d), cwd=d, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"))))
        # One violation settles it: stop the others.
        pending = dict((k, (o, p)) for k, o, p in procs)
        results = {}
        stopped = False
        while pending:
            for k in list(pending):
                o, p = pending[k]
                if p.poll() is not None:
                    results[k] = (p.returncode, read_out(o))
                    del pending[k]
                    if p.returncode == 1 and not stopped:
                        stopped = True
                        for _, q in pending.values():
                            q.terminate()
            time.sleep(0.02)
        t_searched = time.time()
        violations, errors = [], []
        for k in sorted(results):
            rc, o = results[k]
            if o["violation"]:
                violations.append(o["violation"])
            elif o["error"]:
                errors.append(o["error"])
            elif rc != 0 and not stopped:
                errors.append("worker %d ended with %s: %s" % (
                    k, rc, open(os.path.join(root, "out%02d.err" % k), errors="replace").read()[-500:]))
        violations.sort(key=lambda v: v["seed"])
        confirmed = None
        for v in violations[:3]:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (prop, v["class"], v["seed"]))
            d = worker_dir(root, 80)
            r = subprocess.run(command(exe, prop, d, "--minimise", v["replay"], path, "--budget",
                                       plan.get("minimise", 20)),
                               env=environment(d), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0 and confirm(exe, prop, root, path, v["class"]):
                confirmed = (v, path)
                break
            errors.append("seed %s: %s found but its replay does not reproduce: %s" % (
                v["seed"], v["class"], r.stdout[-300:]))
        for cls, text in known_findings(prop):
            print("KNOWN-FINDING: %s" % text)
        write_evidence(prop, tier, seed, plan, results, exe, t_start, t_built, t_searched, violations)
        if confirmed:
            v, path = confirmed
            m = json.load(open(path))
            print("%s: %s" % (m["class"], m["message"]))
            for line in m["trace"][-40:]:
                print("  " + line[:240])
            print("seed %s, %d choices after minimisation; run again with: python3 %s --replay %s" % (
                v["seed"], len(m["choices"]), os.path.join(VERIF, "check.py"), path))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
        elif errors:
            for e in errors[:5]:
                print("ERROR " + e)
            code = 2
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return code


def write_evidence(prop, tier, seed, plan, results, exe, t_start, t_built, t_searched, violations):
    total, counters, scheds, hashes, samples = {}, {}, set(), set(), []
    for rc, o in results.values():
        for k, v in o["stats"].items():
            total[k] = total.get(k, 0) + v
        for k, v in o["counters"].items():
            counters[k] = counters.get(k, 0) + v
        scheds.update(o["scheds"])
        hashes.update(o["hashes"])
        samples += o["samples"]
    wall = max(t_searched - t_built, 1e-3)
    runs = total.get("runs", 0)
    components = {}
    try:
        r = subprocess.run([exe, "--components"], stdout=subprocess.PIPE, text=True, env=environment("/tmp"))
        components = json.loads(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError, OSError):
        pass
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": min(total.get("nontrivial", 0), len(hashes)),
            "rule": "One evaluation is one simulated run of the real code, decided entirely by its seed (run i of "
                    "VERIF_SEED s has seed s*1000003+i). A run is distinct if its hash over all choices, scheduling "
                    "points, faults and I/O events differs from every other run, and non-trivial "
                    "if at least one fault was injected or control was switched between tasks more than 4 times.",
            "samples": [s[:2500] for s in samples[:2]],
            "runs_per_hour": round(runs / wall * 3600),
            "first_seed": seed * 1000003,
            "simulated_seconds": round(total.get("sim_s", 0), 3),
            "scheduling_points": total.get("steps", 0),
            "task_switches": total.get("switches", 0),
            "instrumented_accesses": total.get("accesses", 0),
            "distinct_interleavings": {"count": len(scheds),
                                       "measure": "distinct hashes over the sequence (step, task switched to) of a run"},
            "runs_with_faults": total.get("faulty_runs", 0),
            "runs_with_concurrency": total.get("concurrent_runs", 0),
            "runs_repeated_to_prove_determinism": total.get("rechecked", 0),
            "faults_injected": {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault.")},
            "workload_and_probes": {k: v for k, v in sorted(counters.items()) if not k.startswith("fault.")},
            "components": components,
            "build_s": round(t_built - t_start, 2), "search_s": round(wall, 2),
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t_start, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)


def replay(path, verbose):
    d = json.load(open(path))
    prop = d["property"]
    try:
        exe = build.build(PLAN[prop]["harness"])
    except build.BuildError as e:
        print(e)
        return 2
    root = scratch_root()
    try:
        w = worker_dir(root, 90)
        r = subprocess.run(command(exe, prop, w, "--replay", os.path.abspath(path), *(["-v"] if verbose else [])),
                           env=environment(w), cwd=w)
        if r.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return r.returncode
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2], "-v" in sys.argv))
    if len(sys.argv) != 2 or sys.argv[1] not in PLAN:
        print(__doc__)
        sys.exit(2)
    sys.exit(search(sys.argv[1]))

"""Runner: python -B -m engine.run <property> [--tier quick|thorough]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")  # overridden only when trying the checks on a copy
OUT = os.environ.get("VERIF_OUT", HERE)
KF = os.path.join(HERE, "KNOWN_FINDINGS.json")


def setup_paths():
    sys.path.insert(0, os.path.join(REPO, "src"))
    if HERE not in sys.path:
        sys.path.insert(0, HERE)


def trace_functions(seen):
    """Record which functions of /repo/src the symbolic runs execute."""
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, "verif")
    root = os.path.join(REPO, "src") + os.sep

    def start(code, off):
        if code.co_filename.startswith(root):
            seen.add(code.co_filename[len(root):] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def worker(prop, task, seed, conn):
    try:
        import contextlib
        import io
        from engine import shims
        shims.inject()
        from engine.explore import explore
        seen = set()
        trace_functions(seen)
        mod = importlib.import_module("props." + prop)
        t = dict(task)
        name = t.pop("name")
        fn = getattr(mod, t.pop("fn"))
        cfg = t.pop("cfg", {})
        t.pop("weight", None)
        if t.get("ufs"):
            t["ufs"] = getattr(mod, t["ufs"])
        r = explore(fn, cfg, seed=seed, **t)
        r["name"] = name
        r["functions"] = sorted(seen)
        conn.send(r)
    except BaseException as e:  # noqa: BLE001
        conn.send({"name": task["name"], "error": "".join(traceback.format_exception(e))[-3000:]})
    finally:
        conn.close()


def run_tasks(prop, tasks, seed, jobs, grace=60, first=False):
    pending = list(tasks)
    running = []
    results = []
    while pending or running:
        while pending and len(running) < jobs:
            t = pending.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=(prop, t, seed, b))
            p.start()
            b.close()
            running.append((p, a, t, time.time()))
        time.sleep(0.01)
        for r in list(running):
            p, a, t, t0 = r
            done = False
            if a.poll():
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append({"name": t["name"], "error": "worker died"})
                done = True
            elif not p.is_alive():
                results.append({"name": t["name"], "error": "worker died (exit %s)" % p.exitcode})
                done = True
            elif time.time() - t0 > t.get("budget", 60) + grace:
                p.kill()
                results.append({"name": t["name"], "error": "hard timeout", "timeout": True})
                done = True
            if done:
                a.close()
                p.join(5)
                if p.is_alive():
                    p.kill()
                running.remove(r)
                if first and any(x["failed"] for x in replay_batch(prop, [{"fn": t["fn"], "cfg": t.get("cfg", {}), "asg": c["asg"]} for c in results[-1].get("cands", [])[:6]])):
                    for q in running:
                        q[0].kill()
                    return results
    return results


def replay_batch(prop, items, timeout=300):
    """items: [{fn, cfg, asg}] -> results, from a process that runs the unpatched code."""
    if not items:
        return []
    n = max(1, min(8, (len(items) + 19) // 20))
    chunks = [items[i::n] for i in range(n)]
    procs = []
    with tempfile.TemporaryDirectory(prefix="verif_replay_") as d:
        for i, ch in enumerate(chunks):
            f = os.path.join(d, "in%d.json" % i)
            with open(f, "w") as fh:
                json.dump(ch, fh)
            procs.append((i, subprocess.Popen([sys.executable, "-B", "-W", "ignore", "-m", "engine.concrete", prop, f, os.path.join(d, "out%d.json" % i)],
                                              cwd=HERE, env=dict(os.environ, PYTHONHASHSEED="0"), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        res = {}
        for i, p in procs:
            try:
                _, err = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                err = b"timeout"
            o = os.path.join(d, "out%d.json" % i)
            out = []
            if os.path.exists(o):
                for line in open(o):
                    out.append(json.loads(line))
            while len(out) < len(chunks[i]):
                out.append({"status": "error", "failed": [], "obs": {}, "why": err.decode()[-400:]})
            res[i] = out
    final = [None] * len(items)
    for i in range(n):
        for k, r in enumerate(res[i]):
            final[i + k * n] = r
    return final


def known(prop):
    if not os.path.exists(KF):
        return []
    return [k for k in json.load(open(KF)).get("findings", []) if k["property"] == prop and k.get("status") == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--task", default=None)
    ap.add_argument("--first", action="store_true", help="stop at the first violation")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    setup_paths()
    from engine import shims
    shims.install()
    import compas_cem
    if not compas_cem.__file__.startswith(REPO + "/src/"):
        print("compas_cem comes from", compas_cem.__file__)
        sys.exit(2)
    shims.install_autograd()
    mod = importlib.import_module("props." + a.prop)
    shims.inject()
    tasks = mod.tasks(a.tier)
    if a.task:
        tasks = [t for t in tasks if a.task in t["name"]]
    tasks.sort(key=lambda t: -t.get("weight", 1))
    byname = {t["name"]: t for t in tasks}
    results = run_tasks(a.prop, tasks, seed, a.jobs, first=a.first)
    # replay candidates, then validate traces, on the unpatched code
    cands, valid = [], []
    for r in results:
        t = byname[r["name"]]
        for c in r.get("cands", []):
            cands.append({"task": r["name"], "fn": t["fn"], "cfg": t.get("cfg", {}), "asg": c["asg"], "label": c["label"], "detail": c["detail"], "kind": c["kind"]})
        for v in r.get("valid", []):
            valid.append({"task": r["name"], "fn": t["fn"], "cfg": t.get("cfg", {}), "asg": v["asg"], "expect": v["obs"]})
    rc = replay_batch(a.prop, cands)
    rv = replay_batch(a.prop, valid)
    violations, unrepro = [], []
    for c, r in zip(cands, rc):
        if r["failed"]:
            violations.append((c, r))
        elif c["kind"] != "timeout":
            unrepro.append((c, r))
    validated = mismatched = 0
    mism = []
    for v, r in zip(valid, rv):
        if r["failed"]:
            violations.append((dict(v, label=r["failed"][0][0], detail="trace validation", kind="trace"), r))
            continue
        if r["status"] == "error":
            mismatched += 1
            mism.append(("error", r.get("why", "")))
            continue
        bad = [k for k, x in v["expect"].items() if k in r["obs"] and not abs(r["obs"][k] - x) <= 1e-5 * (1 + abs(x))]
        if bad or r["status"] == "skip":
            mismatched += 1
            mism.append((v["task"], bad[:3], r["status"], r.get("why"), [(v["expect"][k], r["obs"][k]) for k in bad[:3]]))
        else:
            validated += 1
    # known findings
    kn = known(a.prop)
    fresh = []
    khit = {}
    for c, r in violations:
        labels = [f[0] for f in r["failed"]]
        hit = None
        for k in kn:
            if k.get("task") and k["task"] not in c["task"]:
                continue
            if all(any(l.startswith(p) for p in k["labels"]) for l in labels):
                hit = k
                break
        if hit:
            khit.setdefault(hit["id"], 0)
            khit[hit["id"]] += 1
        else:
            fresh.append((c, r))
    for k in kn:
        if k["id"] in khit:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    # report
    tot = {}
    for r in results:
        for k, v in r.get("stats", {}).items():
            tot[k] = tot.get(k, 0) + v
    errors = [(r["name"], r["error"]) for r in results if "error" in r]
    incon = {}
    for r in results:
        for k, v in r.get("incon", {}).items():
            incon["%s: %s" % (r["name"], k)] = v
    trunc = {r["name"]: r["truncated"] for r in results if r.get("truncated")}
    functions = sorted(set(f for r in results for f in r.get("functions", [])))
    wall = time.time() - t0
    complete = tot.get("complete", 0)
    # reachability: every task must have produced a path that ran to its end
    vac = [r["name"] for r in results if "error" not in r and r["stats"]["complete"] == 0 and not r["cands"]]
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0), "transitions": tot.get("decisions", 0),
            "traces_validated_against_impl": validated,
            "samples": [dict(s, task=r["name"]) for r in results for s in r.get("samples", [])][:6],
            "technique": "symbolic execution of the real functions; z3 decides branches and goals",
            "functions_encoded": functions,
            "bounds": getattr(mod, "BOUNDS", ""),
            "tasks": [{"name": r["name"], "paths": r.get("stats", {}).get("paths"), "complete": r.get("stats", {}).get("complete"), "goals": r.get("stats", {}).get("goals"),
                       "truncated": r.get("truncated", 0), "wall_s": round(r.get("wall", 0), 2)} for r in sorted(results, key=lambda r: r["name"])],
            "paths_complete": complete, "paths_infeasible": tot.get("infeasible", 0), "paths_aborted": tot.get("aborted", 0),
            "zero_sets_cut": tot.get("cut_generic", 0),
            "goals": tot.get("goals", 0), "goals_proved": tot.get("goals_proved", 0), "goals_by_normal_form": tot.get("goals_rewrite", 0),
            "goals_by_z3": tot.get("goals_z3", 0), "goals_inconclusive": tot.get("goals_inconclusive", 0),
            "queries": tot.get("queries", 0), "unsat": tot.get("unsat", 0), "sat": tot.get("sat", 0), "unknown": tot.get("unknown", 0),
            "solver_time_s": round(tot.get("solver_time", 0.0), 3),
            "inconclusive": incon, "truncated": trunc, "task_errors": [n for n, _ in errors],
            "counterexamples_not_reproduced": len(unrepro), "trace_mismatches": mismatched,
            "reachability": "%d paths ran to the end and their witnesses were replayed on the unpatched code" % validated,
            "vacuous_tasks": vac, "known_findings_seen": khit,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "real arithmetic stands for IEEE floats (replays use floats, tolerance 1e-6 relative)",
            "stubs: math/numpy/scipy scalar primitives and float() on symbolic values (engine/shims.py)"],
        "wall_s": round(wall, 3), "violations": len(fresh),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths (%d complete, %d infeasible, %d aborted), %d goals, %d proved, %d inconclusive, %d queries, %.1fs solver, %d traces validated, %d mismatched, %.1fs wall"
          % (a.prop, a.tier, tot.get("paths", 0), complete, tot.get("infeasible", 0), tot.get("aborted", 0), tot.get("goals", 0), tot.get("goals_proved", 0),
             tot.get("goals_inconclusive", 0), tot.get("queries", 0), tot.get("solver_time", 0), validated, mismatched, wall))
    if trunc:
        print("  truncated:", trunc)
    if incon:
        print("  inconclusive:", dict(list(incon.items())[:12]))
    for n, e in errors:
        print("  task error", n, e if a.v else e.strip().splitlines()[-1])
    if a.v:
        for r in sorted(results, key=lambda r: -r.get("wall", 0))[:40]:
            print("   ", r["name"], {k: v for k, v in r.get("stats", {}).items() if v and k in ("paths", "complete", "infeasible", "goals", "goals_z3", "aborted", "goals_inconclusive", "concretised")}, "wall %.1f" % r.get("wall", 0), "trunc", r.get("truncated"))
            for nt in r.get("notes", [])[:3]:
                print("       ", nt)
        for m in mism[:6]:
            print("   mismatch", m)
    for c, r in unrepro[:8]:
        print("  not reproduced: %s [%s] %s -> %s %s" % (c["label"], c["task"], c["detail"][:160], r["status"], r.get("why", "")))
    if fresh:
        rd = os.path.join(OUT, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        c, r = fresh[0]
        path = os.path.join(rd, "%s.json" % a.prop)
        with open(path, "w") as f:
            json.dump({"property": a.prop, "task": c["task"], "fn": c["fn"], "cfg": c["cfg"], "asg": c["asg"], "label": c["label"], "failed": r["failed"],
                       "how": "cd /verif && ./replay.sh %s %s" % (a.prop, path)}, f, indent=1)
        for c, r in fresh[:6]:
            print("  violated: %s [%s] %s" % (r["failed"][0], c["task"], c["detail"][:120]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        sys.exit(1)
    if complete == 0 or tot.get("goals_proved", 0) == 0 or validated == 0:
        print("nothing was decided")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()

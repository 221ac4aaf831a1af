"""Entry point: python -m mc.run C01 [quick|thorough] | --replay FILE"""
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _reexec():
    want = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}
    if all(os.environ.get(k) == v for k, v in want.items()):
        return
    env = dict(os.environ, **want)
    env["PYTHONPATH"] = HERE
    py = "/opt/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    os.execve(py, [py, "-B", "-m", "mc.run"] + sys.argv[1:], env)


def run_task(args):
    prop, tier, idx, deadline = args
    from . import core, props

    core.DEADLINE[0] = deadline

    core.setup_process()
    t0 = time.time()
    name, kind, payload = props.tasks(prop, tier)[idx][:3]
    res = core.Result(name)
    try:
        if kind == "explore":
            core.explore(payload(), res)
        else:
            cases, fn = payload()
            core.sweep(name, res, cases, fn)
    except Exception:  # noqa: BLE001
        res.error = traceback.format_exc()[-3000:]
    res.wall = round(time.time() - t0, 3)
    d = res.as_dict()
    d["idx"] = idx
    d["kind"] = kind
    return d


def _child(job, tx):
    try:
        tx.send(run_task(job))
    finally:
        tx.close()


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "open"]


def run_property(prop, tier):
    from . import props

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tasks = props.tasks(prop, tier)
    # tasks stop cleanly (and say so in the evidence) at the soft limit
    soft = t0 + float(os.environ.get(
        "VERIF_SOFT", "560" if tier == "quick" else "3000"))
    jobs = [(prop, tier, i, soft) for i in range(len(tasks))]
    ncpu = max(1, min(int(os.environ.get("VERIF_JOBS", "8")),
                      os.cpu_count() or 1, len(jobs)))
    ctx = mp.get_context("fork")
    results = []
    budget = float(os.environ.get(
        "VERIF_BUDGET", "820" if tier == "quick" else "3600"))
    died = None
    # longest first, if a task says so
    queue = sorted(jobs, key=lambda j: -props.weight(tasks[j[2]]))
    running = {}
    while queue or running:
        while queue and len(running) < ncpu:
            j = queue.pop(0)
            rx, tx = ctx.Pipe(duplex=False)
            pr = ctx.Process(target=_child, args=(j, tx), daemon=True)
            pr.start()
            tx.close()
            running[rx] = (j, pr)
        ready = mpc.wait(list(running), timeout=1)
        stop = False
        for rx in ready:
            j, pr = running.pop(rx)
            try:
                d = rx.recv()
            except EOFError:
                pr.join()
                d = None
                died = "task %s ended without an answer (exit code %s)" % (
                    tasks[j[2]][0], pr.exitcode)
            rx.close()
            pr.join()
            if d is not None:
                results.append(d)
                if d["violations"]:
                    stop = True
        if time.time() - t0 > budget:
            died = "time budget used up by %s" % ", ".join(
                tasks[j[2]][0] for j, _p in running.values())
            stop = True
        if stop and not died and load_known():
            stop = False
        if stop:
            for rx, (j, pr) in running.items():
                pr.kill()
                pr.join()
            break
    results.sort(key=lambda d: d["idx"])
    return report(prop, tier, seed, results, died, t0)


def report(prop, tier, seed, results, died, t0):
    from . import props

    known = load_known()
    viol, found = [], []
    for d in results:
        for v in d["violations"]:
            k = next((k for k in known if k["property"] == prop
                      and k["system"] == v["system"]
                      and k["history"] == v["history"]), None)
            (found if k else viol).append((v, k, d))
    errors = [(d["name"], d["error"]) for d in results if d["error"]]
    states = sum(d["states"] for d in results)
    trans = sum(d["transitions"] for d in results)
    val = sum(d["validated"] for d in results)
    exhaustive = all(d["exhaustive"] for d in results) and not died
    outcomes = {}
    for d in results:
        for k, n in d["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + n
    samples = []
    for d in results:
        for s in d["samples"][:1]:
            samples.append({"task": d["name"], "history": s[:40]})
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states, "transitions": trans,
            "traces_validated_against_impl": val,
            "exhaustive": bool(exhaustive and not errors),
            "samples": samples[:12],
            "distinct_outcomes": outcomes,
            "tasks": [
                {"name": d["name"], "kind": d["kind"], "states": d["states"],
                 "transitions": d["transitions"],
                 "executions_replayed": d["validated"],
                 "max_depth": d["max_depth"],
                 "exhaustive_within_bound": d["exhaustive"],
                 "note": d["note"], "wall_s": d["wall"],
                 "longest_execution_cpu_s": round(d["longest"], 2)} for d in results],
        },
        "assumptions": props.assumptions(prop),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for v, k, _d in found:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: %d states, %d transitions, %d traces replayed, "
          "%d tasks, %.1fs" % (prop, tier, states, trans, val, len(results),
                               time.time() - t0))
    if viol:
        out = os.path.join(HERE, "out")
        os.makedirs(out, exist_ok=True)
        for i, (v, _k, d) in enumerate(viol[:5]):
            path = os.path.join(out, "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "task": d["name"],
                           "system": v["system"], "history": v["history"],
                           "what": v["what"],
                           "replay": "cd %s && python3 -m mc.run --replay %s"
                           % (HERE, path)}, f, indent=1, ensure_ascii=False)
            print("  %s: %s\n    history: %s" % (
                d["name"], v["what"], " ; ".join(v["history"][-12:])))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors or died:
        for n, e in errors:
            print("ERROR in %s:\n%s" % (n, e))
        if died:
            print("ERROR: " + died)
        return 2
    return 0


def replay(path):
    from . import core, props

    core.setup_process()
    v = json.load(open(path))
    for name, kind, payload in (t[:3] for t in props.tasks(v["property"], v["tier"])):
        if name != v["task"]:
            continue
        hist = [eval(h, {"inf": float("inf"), "nan": float("nan"),
                         "slice": slice}) for h in v["history"]]
        try:
            core.arm(6)
            if kind == "explore":
                s = payload()
                s.check(s.replay(()))
                for i in range(1, len(hist) + 1):
                    print("step %d: %r" % (i, hist[i - 1]))
                    s.check(s.replay(hist[:i]))
            else:
                _c, fn = payload()
                core.fresh_world()
                print("case: %r" % (hist[0],))
                fn(hist[0])
        except core.Hang:
            print("does not terminate")
            return 1
        except core.Violation as e:
            print("reproduced: %s" % e)
            return 1
        finally:
            core.disarm()
        print("does not fail any more")
        return 0
    print("no such task")
    return 2


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run_property(a[0], tier)


if __name__ == "__main__":
    _reexec()
    sys.exit(main())

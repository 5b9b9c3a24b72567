"""Command line: run, replay, setup, determinism, list, show."""
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import core
from .registry import all_ids, load, scenario_for

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("DST_WORKERS", "8"))
# Real-time safety net: a batch normally ends long before this.
BATCH_CAP_S = {"quick": 420.0, "thorough": 3600.0}
KNOWN = os.path.join(ROOT, "known_findings.json")


def known_findings(prop):
    try:
        with open(KNOWN, encoding="utf-8") as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == prop]


def plan_for(scenario, prop, seed, index, tier):
    rng = core.seed_rng(prop, seed, index)
    return core.canonical(scenario.gen(rng, tier))


def worker(prop, seed, tier, first, stride, count, best, queue, deadline):
    scenario = scenario_for(prop)
    done = 0
    results = []
    try:
        for index in range(first, count, stride):
            if index > best.value:
                break
            if time.monotonic() > deadline:
                results.append({"index": index, "status": "cap"})
                break
            plan = plan_for(scenario, prop, seed, index, tier)
            res = core.execute(scenario, plan)
            if res["status"] == "violation" and res["cls"] in ("hang", "crash"):
                # a stalled or overloaded machine is not a fault of the code: only what
                # happens again, with more time, counts
                res = core.execute(scenario, plan, timeout=2 * core.RUN_TIMEOUT_S)
            res["index"] = index
            done += 1
            if res["status"] == "violation":
                with best.get_lock():
                    if index < best.value:
                        best.value = index
            elif res["status"] == "harness":
                with best.get_lock():
                    if index < best.value:
                        best.value = index
            results.append(res)
    except BaseException:  # pylint: disable=broad-except
        results.append(
            {
                "index": first,
                "status": "harness",
                "cls": "harness",
                "msg": traceback.format_exc(),
            }
        )
    queue.put(results)


def run_batch(prop, seed, tier, count, workers=WORKERS):
    ctx = multiprocessing.get_context("fork")
    best = ctx.Value("q", 1 << 60)
    queue = ctx.SimpleQueue()
    deadline = time.monotonic() + BATCH_CAP_S[tier]
    n = max(1, min(workers, count))
    procs = [
        ctx.Process(
            target=worker,
            args=(prop, seed, tier, i, n, count, best, queue, deadline),
        )
        for i in range(n)
    ]
    for p in procs:
        p.start()
    results = []
    for _ in procs:
        results.extend(queue.get())
    for p in procs:
        p.join()
    results.sort(key=lambda r: r["index"])
    return results


def fresh_replay(path, timeout=120):
    """Replay a file in a fresh interpreter; returns its parsed result."""
    import subprocess  # pylint: disable=import-outside-toplevel

    try:
        out = subprocess.run(
            [sys.executable, "-W", "ignore", "-m", "dst.main", "replay", path, "--json"],
            cwd=ROOT,
            capture_output=True,
            timeout=timeout,
            check=False,
        )
        return json.loads(out.stdout.decode().strip().splitlines()[-1])
    except Exception as e:  # pylint: disable=broad-except
        return {"status": "harness", "cls": "harness", "msg": repr(e)}


def write_replay(prop, seed, index, plan, res, tag):
    folder = os.path.join(ROOT, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}-seed{seed}-run{index}-{tag}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(
            {
                "property": prop,
                "seed": seed,
                "run": index,
                "class": res["cls"],
                "message": res["msg"],
                "digest": res.get("digest"),
                "plan": plan,
            },
            f,
            indent=1,
        )
    return path


def matches_known(entry, res):
    return entry.get("class") == res["cls"] and entry.get("match", "") in (
        res["msg"] or ""
    )


def cmd_run(prop, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scenario = scenario_for(prop)
    if scenario.warm:
        scenario.warm()
    count = scenario.quick if tier == "quick" else scenario.thorough
    if os.environ.get("DST_RUNS"):
        count = int(os.environ["DST_RUNS"])
    for k in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    results = run_batch(prop, seed, tier, count)
    explored = [r for r in results if r["status"] != "cap"]
    harness = [r for r in results if r["status"] == "harness"]
    viol = [r for r in results if r["status"] == "violation"]
    first_v = viol[0]["index"] if viol else None
    code = 0
    replay = None
    vres = None
    if harness and (not viol or harness[0]["index"] < first_v):
        core.eprint(f"HARNESS ERROR property={prop} run={harness[0]['index']}")
        core.eprint(harness[0]["msg"])
        code = 2
    elif viol:
        r = viol[0]
        plan = plan_for(scenario, prop, seed, r["index"], tier)
        small, n_exec = plan, 0
        if not os.environ.get("DST_FAST"):
            small, n_exec = core.minimise(scenario, plan, r["cls"])
        res = core.execute(scenario, small)
        if res["status"] != "violation":
            small, res = plan, r
        replay = write_replay(prop, seed, r["index"], small, res, "min")
        again = fresh_replay(replay)
        if again["status"] != "violation" or again["cls"] != res["cls"]:
            # fall back to the plan as generated
            res = r
            replay = write_replay(prop, seed, r["index"], plan, res, "full")
            again = fresh_replay(replay)
        if again["status"] == "violation":
            print(f"violation: {again['cls']}: {again['msg']}")
            print(
                f"seed={seed} run={r['index']} of {count}, minimised in {n_exec} executions,"
                f" replayed in a fresh process"
                f" (digest {'identical' if again.get('digest') == res.get('digest') else 'differs'})"
            )
            print(f"VIOLATION property={prop} replay={replay}")
            vres = again
            code = 1
        else:
            core.eprint(
                f"HARNESS ERROR property={prop} run={r['index']}: a violation"
                f" ({r['cls']}: {r['msg']}) did not reproduce: {again}"
            )
            code = 2
    # determinism sample: re-execute a few runs in other processes
    redo, differing = 0, 0
    if code == 0:
        step = max(1, len(explored) // 12)
        for r in explored[::step][:12]:
            plan = plan_for(scenario, prop, seed, r["index"], tier)
            res = core.execute(scenario, plan)
            redo += 1
            if res.get("digest") != r.get("digest"):
                differing += 1
                core.eprint(f"WARNING: run {r['index']} is not deterministic")
    write_evidence(
        prop, tier, seed, scenario, count, explored, t0, code, vres, redo, differing
    )
    return code


def write_evidence(
    prop, tier, seed, scenario, count, explored, t0, code, vres, redo, differing
):
    ok = [r for r in explored if r["status"] in ("ok", "violation")]
    faults, probes = {}, {}
    states, digests = set(), set()
    simtime = 0.0
    steps = oracle = amb = events = 0
    for r in ok:
        for k, v in r.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + v
        states.update(r.get("states", ()))
        simtime += r.get("simtime", 0.0)
        steps += r.get("steps", 0)
        oracle += r.get("oracle", 0)
        events += r.get("events", 0)
        amb += bool(r.get("ambiguous"))
        if r.get("nontrivial"):
            digests.add(r["digest"])
    wall = time.monotonic() - t0
    samples = []
    for r in ok[:2]:
        plan = plan_for(scenario, prop, seed, r["index"], tier)
        text = json.dumps(plan)
        samples.append(
            {
                "run": r["index"],
                "digest": r.get("digest"),
                "plan": plan if len(text) < 6000 else text[:6000] + " ...",
            }
        )
    if not samples:
        samples = ["no run completed"]
    data = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(ok),
            "distinct_nontrivial": len(digests),
            "rule": scenario.rule
            + " One evaluation is one simulated run of one generated plan (run i of"
            " property P under VERIF_SEED s is a pure function of P, s, i)."
            " Non-trivial: at least one fault or adverse event actually fired in the run;"
            " distinct: different event log digest.",
            "samples": samples,
            "planned_runs": count,
            "runs_per_hour": int(len(ok) / max(wall, 1e-9) * 3600),
            "seed_note": "every run has its own derived seed, so seeds per hour are runs per hour",
            "simulated_time": round(simtime, 3),
            "simulated_time_unit": scenario.time_unit,
            "simulated_steps": steps,
            "oracle_evaluations": oracle,
            "log_events": events,
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "distinct_states": len(states),
            "distinct_states_measure": scenario.state_measure,
            "runs_stopped_at_an_excluded_tie": amb,
            "real_components": list(scenario.real),
            "stubbed_components": list(scenario.stub),
            "determinism_reexecuted": redo,
            "determinism_differing": differing,
            "workers": WORKERS,
        },
        "assumptions": list(scenario.assumptions),
        "wall_s": round(wall, 3),
        "violations": 1 if code == 1 else 0,
    }
    if vres:
        data["coverage"]["violation"] = {"class": vres["cls"], "message": vres["msg"]}
    folder = os.path.join(ROOT, "evidence")
    os.makedirs(folder, exist_ok=True)
    tmp = os.path.join(folder, f".{prop}.{os.getpid()}.tmp")
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(data, f, indent=1)
    os.replace(tmp, os.path.join(folder, f"{prop}.json"))
    print(
        f"{prop} {tier} seed={seed}: {len(ok)} runs, {len(digests)} distinct non-trivial,"
        f" {len(states)} states, {oracle} oracle evaluations, faults={sum(faults.values())},"
        f" {wall:.1f}s -> exit {code}"
    )


def cmd_replay(path, as_json=False):
    with open(path, encoding="utf-8") as f:
        rec = json.load(f)
    prop = rec["property"]
    scenario = scenario_for(prop)
    if scenario.warm:
        scenario.warm()
    res = core.execute(scenario, rec["plan"], keep_log=not as_json)
    if as_json:
        print(json.dumps({k: res.get(k) for k in ("status", "cls", "msg", "digest")}))
        return 0
    for line in res.get("log", [])[-40:]:
        print("  ", line[:400])
    print(f"status={res['status']} class={res['cls']} digest={res.get('digest')}")
    print(f"recorded class={rec['class']} digest={rec['digest']}")
    if res["status"] == "violation":
        print(res["msg"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0 if res["status"] == "ok" else 2


def cmd_setup():
    """Nothing is compiled: check that the tools and the code under test import."""
    for prop in all_ids():
        scenario = scenario_for(prop)
        plan = plan_for(scenario, prop, 1, 0, "quick")
        if not isinstance(plan, dict):
            raise RuntimeError(prop)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    print("setup ok:", " ".join(all_ids()))
    return 0


def cmd_determinism(n, props):
    """Print digests of the first n runs of every property (to be diffed)."""
    seed = int(os.environ.get("VERIF_SEED", "1"))
    for prop in props or all_ids():
        scenario = scenario_for(prop)
        if scenario.warm:
            scenario.warm()
        for r in run_batch(prop, seed, "quick", n):
            print(prop, r["index"], r["status"], r.get("cls"), r.get("digest"))
    return 0


def main(argv):
    cmd = argv[0] if argv else "list"
    if cmd == "run":
        tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return cmd_run(argv[1], tier)
    if cmd == "replay":
        return cmd_replay(argv[1], "--json" in argv)
    if cmd == "setup":
        return cmd_setup()
    if cmd == "determinism":
        n = int(argv[1]) if len(argv) > 1 else 20
        return cmd_determinism(n, argv[2:])
    if cmd == "plan":
        scenario = scenario_for(argv[1])
        seed = int(os.environ.get("VERIF_SEED", "1"))
        print(json.dumps(plan_for(scenario, argv[1], seed, int(argv[2]), "quick"), indent=1))
        return 0
    if cmd == "exec":
        scenario = scenario_for(argv[1])
        if scenario.warm:
            scenario.warm()
        seed = int(os.environ.get("VERIF_SEED", "1"))
        plan = plan_for(scenario, argv[1], seed, int(argv[2]), "quick")
        res = core.run_here(scenario, plan, keep_log="-v" in argv)
        print("\n".join(res.pop("log", [])))
        res["states"] = len(res["states"])
        print(json.dumps(res, indent=1))
        return 0
    load()
    print("\n".join(f"{p} {scenario_for(p).name}" for p in all_ids()))
    return 0


if __name__ == "__main__":
    try:
        CODE = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
        CODE = 2
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(CODE)

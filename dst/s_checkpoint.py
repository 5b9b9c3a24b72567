"""C36: state saved at any moment and restored, in the same or a new process, continues alike."""
import base64
import copy
import pickle

import cv2
import numpy as np

from . import world as w
from .core import Scenario, reseed, run_forked
from .s_life import Shift
from .s_state import KINDS, HelpersC35, Stream

import norfair

PICKLED = ("motion", "fixed", "grid", "boxes", "points")


class Armed:
    """A distance between numbered detections that fails when it is told to; can be pickled."""

    arm = [0]

    def __init__(self, table):
        self.table = table

    def __call__(self, a, b):
        if Armed.arm[0]:
            Armed.arm[0] -= 1
            if Armed.arm[0] == 0:
                raise RuntimeError("injected failure (distance)")
        return self.table.between(a, b)


class Run:
    """A tracker, what it reported, and how far it has come."""

    def __init__(self, plan):
        table = plan["table"]
        reid = Armed(w.Table(dict(table, key=table["key"] ^ 0x5A5A, scale=1.0, shift=0.0)))
        distance, thr = Armed(w.Table(table)), table["scale"] + table.get("shift", 0.0)
        if plan["metric"]:
            distance, thr = plan["metric"], plan["thr"]
        self.tracker = w.make_tracker(plan["cfg"], distance, thr, reid)
        self.objs = []
        self.t = 0

    def step(self, op):
        dets = [w.make_detection(d) for d in op["d"]]
        kw = {"coord_transformations": Shift(*op["cam"])} if op.get("cam") else {}
        Armed.arm[0] = op.get("fail", 0)
        failed = False
        try:
            self.objs = self.tracker.update(None if op.get("none") and not dets else dets, op["p"], **kw)
        except RuntimeError as e:
            if "injected" not in str(e):
                raise
            failed = True
        finally:
            Armed.arm[0] = 0
        self.t += 1
        return [failed, self.state()]

    def state(self):
        objs = sorted(self.tracker.tracked_objects, key=lambda o: o.initializing_id)
        return {
            "count": [self.tracker.total_object_count, self.tracker.current_object_count],
            "reported": [o.id for o in self.objs],
            "active": sorted(o.id for o in self.tracker.get_active_objects()),
            "same": [any(o is x for x in self.tracker.tracked_objects) for o in self.objs],
            "objects": [
                {
                    "init_id": o.initializing_id,
                    "id": o.id,
                    "counter": o.hit_counter,
                    "age": o.age,
                    "label": repr(o.label),
                    "live": [bool(v) for v in o.live_points],
                    "estimate": np.asarray(o.estimate, dtype=float).tolist(),
                    "velocity": np.asarray(o.estimate_velocity, dtype=float).tolist(),
                    "last_distance": None if o.last_distance is None else float(o.last_distance),
                    "last": w.uid(o.last_detection),
                    "past": [[w.uid(d), d.age] for d in o.past_detections],
                }
                for o in objs
            ],
        }


def run_ops(run, ops, end, trace):
    while run.t < end:
        t = run.t
        trace.append([t, run.step(ops[t])])


def pack(x):
    return base64.b64encode(pickle.dumps(x)).decode()


def unpack(x):
    return pickle.loads(base64.b64decode(x))


class CheckpointC36(Scenario):
    name = "checkpoint"
    quick = 700
    thorough = 16000
    list_keys = ("ops", "cuts")
    rule = (
        "A history (dropouts, gaps, ReID, periods, failing updates, camera motion) is run"
        " without interruption in one process, and again with checkpoints and crashes at"
        " generated points: the tracker is pickled and restored in a new process, or deep"
        " copied, possibly while the original goes on with other detections, and continues from"
        " the last checkpoint; the same for motion estimators, drawers and stabilizers."
    )
    state_measure = "distinct (kinds and places of interruption)"
    real = ("norfair.tracker", "norfair.filter", "norfair.distances", "norfair.camera_motion", "norfair.drawing")
    stub = ("detector", "distance function (table) in part of the runs")
    assumptions = ("global ids are unique within a process only and are not compared",
                   "path drawers are deep copied, not pickled (they hold functions)")

    def gen(self, rng, tier):
        plan = {"mode": rng.choice(["tracker", "tracker", "tracker", "stream"])}
        if plan["mode"] == "stream":
            streams = []
            while not streams:
                p = HelpersC35().gen(rng, tier)
                streams = [s for s in p["streams"] if len(s["ops"]) > 3]
            plan["stream"] = dict(streams[0], kind=streams[0]["kind"])
            n = len(plan["stream"]["ops"])
            kinds = ["deepcopy", "both"] + (["pickle", "pickle"] if plan["stream"]["kind"] in PICKLED else [])
            plan["ops"] = []
        else:
            cfg = w.gen_cfg(rng, reid=rng.random() < 0.5, dims=(2, 2, 3))
            n = rng.choice([10, 20, 40])
            labels = w.gen_labels(rng, 3) if rng.random() < 0.4 else None
            ops = w.gen_history(rng, cfg, n, rng.choice([1, 2, 4]), labels, spurious=rng.choice([0, 0.4]), none_prob=0.05)
            table = w.gen_table(rng, clean=rng.random() < 0.6)
            plan.update(cfg=cfg, ops=ops, table=table, metric=None, thr=None)
            if rng.random() < 0.4:
                plan["metric"] = rng.choice(["euclidean", "mean_euclidean", "cityblock", "frobenius"])
                plan["thr"] = rng.choice([20.0, 60.0])
            for op in ops:
                if rng.random() < 0.05:
                    op["fail"] = rng.choice([1, 1, 2, 4])
            if rng.random() < 0.4:
                at = [0.0] * cfg["dim"]
                for op in ops:
                    at = [round(v + rng.uniform(-3, 3), 3) for v in at]
                    op["cam"] = [list(at), 1.0]
            kinds = ["pickle", "pickle", "deepcopy", "both"]
        # [checkpoint, crash, how it is restored]
        plan["cuts"] = sorted(
            [a, min(n, a + rng.choice([0, 0, 1, 3])), rng.choice(kinds)]
            for a in (rng.randint(0, n) for _ in range(rng.choice([1, 1, 2, 3])))
        )
        return plan

    def simplify_op(self, op):
        if isinstance(op, dict):
            yield from w.simplify_frame_op(op)
            for key in ("fail", "cam", "none"):
                if key in op:
                    yield {k: v for k, v in op.items() if k != key}

    def simplify_plan(self, plan):
        if plan["mode"] == "stream":
            ops = plan["stream"]["ops"]
            for m in (len(ops) // 2, len(ops) - 1):
                if 0 < m < len(ops):
                    yield dict(plan, stream=dict(plan["stream"], ops=ops[:m]))

    def child(self, ctx, what, fn):
        res = run_forked(lambda: {"status": "ok", "value": fn()})
        if res["status"] != "ok":
            text = str(res.get("msg")).strip().splitlines()
            ctx.check(False, "failed", f"{what}: {text[-1] if text else res['status']}")
        return res["value"]

    def exec(self, plan, ctx):
        cv2.setNumThreads(1)
        if plan["mode"] == "stream":
            n = len(plan["stream"]["ops"])
            new = lambda: StreamRun(plan["stream"])
            ops = list(range(n))
            others = list(range(n - 1, -1, -1))
        else:
            n = len(plan["ops"])
            new = lambda: Run(plan)
            ops = plan["ops"]
            others = [dict(op, d=[dict(d, pts=[[v + 37.0 for v in p] for p in d["pts"]]) for d in op["d"]]) for op in ops[::-1]]
            for t in range(n):
                w.note_frame_faults(ctx, ops, t)
                if ops[t].get("fail"):
                    ctx.fault("distance_failure")

        def whole():
            run, trace = new(), []
            run_ops(run, ops, n, trace)
            return trace

        want = dict(map(lambda x: (x[0], x[1]), self.child(ctx, "the uninterrupted run", whole)))
        cuts = [[min(a, n), min(b, n), how] for a, b, how in plan["cuts"]]
        saved = None
        done = 0
        got = []

        def compare(trace, where):
            for t, x in trace:
                ctx.steps += 1
                ctx.simtime += 1
                if x != want[t]:
                    self.report(ctx, t, x, want[t], where)
                ctx.check(True, "same", "")

        # segments between pickles run in a process of their own
        k = 0
        while True:
            part = []
            while k < len(cuts) and cuts[k][2] != "pickle":
                part.append(cuts[k])
                k += 1
            last = cuts[k] if k < len(cuts) else None
            k += 1

            def segment(saved=saved, part=part, last=last, done=done):
                reseed(done + 1)  # another process has other random states
                run = new() if saved is None else unpack(saved)
                trace = []
                for a, b, how in part:
                    if a < run.t:
                        continue
                    run_ops(run, ops, a, trace)
                    other = copy.deepcopy(run)
                    if how == "both":
                        # the original goes on differently, and more are made of it
                        for t in range(3):
                            run.step(others[(a + t) % n])
                        copy.deepcopy(run).step(others[0])
                    else:
                        run_ops(run, ops, b, trace)
                    run = other
                end = n if last is None else max(last[0], run.t)
                run_ops(run, ops, end, trace)
                kept = None
                if last is not None:
                    kept = pack(run)
                    # what happens between the checkpoint and the crash is lost
                    run_ops(run, ops, max(last[1], run.t), trace)
                return {"trace": trace, "saved": kept}

            if n == 0:
                break
            res = self.child(ctx, f"the run restored at {done}", segment)
            compare(res["trace"], f"interrupted as {cuts[:k]}")
            got += [t for t, _ in res["trace"]]
            for a, b, how in part + ([last] if last else []):
                ctx.fault("restart_" + how)
                ctx.fault("updates_lost", b - a)
            if last is None:
                break
            saved, done = res["saved"], last[0]
        ctx.check(n == 0 or sorted(set(got)) == list(range(n)), "frames", lambda: f"frames {sorted(set(got))} of {n}")
        ctx.log(cuts, sorted(got))
        ctx.state((plan["mode"], tuple(map(tuple, cuts))))

    @staticmethod
    def report(ctx, t, got, want, where):
        if isinstance(got, list) and len(got) == 2 and isinstance(got[1], dict):
            if got[0] != want[0]:
                ctx.check(False, "failure", f"frame {t}: the update {'fails' if got[0] else 'succeeds'}, uninterrupted it does not")
            a, b = got[1], want[1]
            for key in a:
                if key != "objects" and a[key] != b[key]:
                    ctx.check(False, key, f"frame {t}: {key} {a[key]}, uninterrupted {b[key]} ({where})")
            ids = lambda s: [o["init_id"] for o in s["objects"]]
            if ids(a) != ids(b):
                ctx.check(False, "objects", f"frame {t}: objects {ids(a)}, uninterrupted {ids(b)} ({where})")
            for x, y in zip(a["objects"], b["objects"]):
                for key in x:
                    if x[key] != y[key]:
                        ctx.check(False, key, f"frame {t}: {key} of object {x['init_id']} is {x[key]}, uninterrupted {y[key]} ({where})")
        ctx.check(False, "stream", f"frame {t}: {got}, uninterrupted {want} ({where})")


class StreamRun:
    """A motion estimator, drawer or stabilizer with its inputs."""

    def __init__(self, spec):
        self.stream = Stream(spec)

    @property
    def t(self):
        return self.stream.t

    def step(self, op):
        keep = self.stream.t
        self.stream.t = op
        self.stream.step()
        self.stream.t = keep + 1
        return self.stream.trace[-1]


SCENARIOS = {"C36": CheckpointC36}
_ = (KINDS, norfair)

"""C04 global ids under thread interleavings, C12 isolation and determinism of trackers."""
import json
import os
import subprocess
import sys

import numpy as np

from . import seams
from . import world as w
from .core import Scenario, reseed, run_forked, u01
from .sched import Scheduler

import norfair

REAL = ("norfair.tracker", "norfair.filter", "norfair.distances", "threads of the interpreter")


def gen_schedule(rng, total, threads):
    """Preemptions of each thread: a few random ones, or dense (lockstep) switching.

    total: rough number of scheduling points of one thread.
    """
    out = []
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 2, 3, 6, 20])):
            out.append([rng.randrange(threads), rng.randrange(1, total), rng.randrange(threads)])
    else:
        stride = rng.choice([1, 1, 2, 3, 5, 7, 13])
        n = rng.choice([150, 400, 900])
        start = 1 if rng.random() < 0.6 else rng.randrange(1, total)
        random_target = rng.random() < 0.4
        for t in range(threads):
            step = start
            for _ in range(n):
                target = rng.randrange(threads) if random_target else (t + 1) % threads
                out.append([t, step, target])
                step += stride if rng.random() < 0.8 else rng.randint(1, 2 * stride)
        if rng.random() < 0.5:
            for _ in range(10):
                out.append([rng.randrange(threads), rng.randrange(1, total), rng.randrange(threads)])
    out.sort()
    return out


def shrink_schedule(plan, key="schedule"):
    sched = plan.get(key) or []
    n = len(sched)
    if n:
        yield dict(plan, **{key: []})
    size = n // 2
    while size >= 1:
        for start in range(0, n, size):
            yield dict(plan, **{key: sched[:start] + sched[start + size :]})
        size //= 2


def note_schedule(ctx, s):
    if s.mids:
        ctx.fault("preemption", s.mids)
    for sw in s.switches:
        if len(sw) == 4 and sw[3] == "blocked":
            ctx.fault("thread_blocked_on_lock")
    ctx.state(tuple(s.switches))


# ---------------------------------------------------------------------- C04
class ThreadsC04(Scenario):
    name = "threads_global_ids"
    quick = 1000
    thorough = 30000
    list_keys = ()
    ddmin_keys = ("schedule",)
    rule = (
        "2-4 threads, each creating and updating its own trackers (objects appear in"
        " waves, so that ids are given out in most updates); a seeded schedule preempts"
        " them between single bytecodes of the norfair package."
    )
    time_unit = "frames"
    state_measure = "distinct sequences of thread switches (point, from, to)"
    real = REAL
    stub = ("thread scheduler (one thread at a time, switched at planned bytecodes)", "locks")

    def gen(self, rng, tier):
        threads = rng.choice([2, 2, 2, 3, 4])
        same = rng.random() < 0.6
        bodies = []
        for i in range(threads):
            if same and bodies:
                bodies.append(bodies[0])
                continue
            delay = rng.choice([0, 0, 1])
            bodies.append(
                {
                    "delay": delay,
                    "hit_max": rng.choice([1, 2]) + delay,
                    "trackers": rng.choice([1, 1, 2]),
                    "waves": [rng.randint(0, 2) for _ in range(rng.randint(2, 5))],
                    "period": rng.choice([1, 1, 2]),
                }
            )
        total = 1200 * max(len(b["waves"]) * b["trackers"] for b in bodies)
        return {
            "bodies": bodies,
            "granularity": "opcode" if rng.random() < 0.9 else "line",
            "schedule": gen_schedule(rng, total, threads),
        }

    def simplify(self, plan):
        yield from shrink_schedule(plan)
        if len(plan["bodies"]) > 2:
            yield dict(plan, bodies=plan["bodies"][:-1])
        for i, b in enumerate(plan["bodies"]):
            for nb in (
                dict(b, trackers=1),
                dict(b, waves=b["waves"][:-1]),
                dict(b, waves=[min(1, k) for k in b["waves"]]),
            ):
                if nb != b and nb["waves"]:
                    yield dict(plan, bodies=plan["bodies"][:i] + [nb] + plan["bodies"][i + 1 :])

    @staticmethod
    def body(spec, out):
        trackers = []
        seen = {}

        def run():
            for _ in range(spec["trackers"]):
                trackers.append(
                    norfair.Tracker(
                        distance_function=lambda d, o: float(
                            np.abs(d.points - o.estimate).max()
                        ),
                        distance_threshold=50,
                        hit_counter_max=spec["hit_max"],
                        initialization_delay=spec["delay"],
                        filter_factory=w.NoFilterFactory(),
                        past_detections_length=1,
                    )
                )
                out["totals"].append(0)
            made = [0] * len(trackers)
            for wave in spec["waves"] + [0] * spec["delay"]:
                for k, tracker in enumerate(trackers):
                    made[k] += wave
                    dets = [
                        norfair.Detection(np.array([[1000.0 * i, 0.0]]))
                        for i in range(made[k])
                    ]
                    returned = tracker.update(dets, spec["period"])
                    out["updates"] += 1
                    out["totals"][k] = tracker.total_object_count
                    for o in list(tracker.tracked_objects) + list(returned):
                        if o.id is None and o.global_id is None:
                            continue
                        key = (k, id(o))
                        if key not in seen:
                            seen[key] = o
                            out["ids"].append((k, o.id, o.global_id))
                        elif (k, o.id, o.global_id) not in out["ids"]:
                            out["ids"].append((k, o.id, o.global_id))
            out["keep"] = seen

        return run

    def exec(self, plan, ctx):
        outs = [{"ids": [], "totals": [], "updates": 0} for _ in plan["bodies"]]
        s = Scheduler(plan["schedule"], seams.PACKAGE, plan["granularity"])
        s.run([self.body(b, o) for b, o in zip(plan["bodies"], outs)])
        note_schedule(ctx, s)
        ctx.steps += s.step
        ctx.simtime += sum(o["updates"] for o in outs)
        ctx.check(not s.stuck, "deadlock", lambda: f"{s.stuck} after {s.step} steps")
        for i, e in sorted(s.errors.items()):
            ctx.check(False, "exception", f"thread {i} failed: {type(e).__name__}: {e}")
        owner = {}
        for i, o in enumerate(outs):
            for k, oid, gid in o["ids"]:
                ctx.check(
                    gid is not None and oid is not None,
                    "missing",
                    lambda: f"object of thread {i} tracker {k} has id {oid} and global id {gid}",
                )
                ctx.check(
                    gid not in owner,
                    "duplicate",
                    lambda: f"global id {gid} belongs to object {oid} of thread {i} tracker {k} and to {owner[gid]}",
                )
                owner[gid] = f"object {oid} of thread {i} tracker {k}"
            for k, total in enumerate(o["totals"]):
                ids = sorted(oid for kk, oid, _ in o["ids"] if kk == k)
                ctx.check(
                    ids == list(range(1, total + 1)),
                    "numbering",
                    lambda: f"tracker {k} of thread {i} counts {total} objects, its ids are {ids}",
                )
        ctx.log(sorted(owner), s.switches[:50], [o["ids"] for o in outs])


# ---------------------------------------------------------------------- C12
def snapshot(returned, tracker):
    out = []
    for o in returned:
        out.append(
            {
                "id": o.id,
                "hc": o.hit_counter,
                "age": o.age,
                "label": repr(o.label),
                "last": w.uid(o),
                "live": [bool(v) for v in o.live_points],
                "past": [d.data["u"] for d in o.past_detections],
                "dist": None if o.last_distance is None else float(o.last_distance),
                "pos": np.asarray(o.estimate, dtype=float).tolist(),
                "vel": np.asarray(o.estimate_velocity, dtype=float).tolist(),
            }
        )
    return {
        "objects": sorted(out, key=lambda x: x["id"]),
        "total": tracker.total_object_count,
        "current": tracker.current_object_count,
        "tracked": len(tracker.tracked_objects),
    }


def same(a, b):
    """Equal up to rounding; returns the first difference."""
    for k in ("total", "current", "tracked"):
        if a[k] != b[k]:
            return f"{k}: {a[k]} instead of {b[k]}"
    if [o["id"] for o in a["objects"]] != [o["id"] for o in b["objects"]]:
        return f"ids {[o['id'] for o in a['objects']]} instead of {[o['id'] for o in b['objects']]}"
    for x, y in zip(a["objects"], b["objects"]):
        for k in ("hc", "age", "label", "last", "live", "past"):
            if x[k] != y[k]:
                return f"object {x['id']}: {k} {x[k]} instead of {y[k]}"
        for k in ("pos", "vel"):
            if not w.close(x[k], y[k], 1e-9):
                return f"object {x['id']}: {k} {x[k]} instead of {y[k]}"
        if (x["dist"] is None) != (y["dist"] is None) or (
            x["dist"] is not None and not w.close([x["dist"]], [y["dist"]], 1e-6)
        ):
            return f"object {x['id']}: last_distance {x['dist']} instead of {y['dist']}"
    return None


def named_distance(name):
    if name == "custom":
        return lambda d, o: float(np.linalg.norm(d.points - o.estimate))
    if name == "voting":
        return norfair.create_keypoints_voting_distance(60, 0.2)
    if name == "normalized":
        return norfair.create_normalized_mean_euclidean_distance(1000, 1000)
    return name


THRESHOLDS = {"iou": 0.9, "voting": 0.9, "normalized": 0.06, "sqeuclidean": 5000}


class Life:
    """One tracker with its configuration and history."""

    def __init__(self, spec, distance=None, factory=None, shared_dets=None):
        self.spec = spec
        self.shared_dets = shared_dets  # detections of each update, the same for all trackers
        cfg = spec["cfg"]
        reid = None
        if cfg["reid"]:
            reid = lambda a, b: float(np.linalg.norm(a.estimate - b.estimate))
            cfg = dict(cfg, reid=dict(cfg["reid"], thr=120.0))
        self.tracker = w.make_tracker(
            cfg,
            named_distance(spec["dist"]) if distance is None else distance,
            THRESHOLDS.get(spec["dist"], 60),
            reid,
            factory,
        )
        self.t = 0
        self.trace = []

    def done(self):
        return self.t >= len(self.spec["ops"])

    def step(self, meddle=None):
        op = self.spec["ops"][self.t]
        if self.shared_dets is None:
            dets = [w.make_detection(d) for d in op["d"]]
        else:
            dets = self.shared_dets[self.t]
        given = None if op.get("none") and not dets else dets
        returned = self.tracker.update(given, op["p"])
        self.trace.append(snapshot(returned, self.tracker))
        if meddle:
            meddle(self.t, self.tracker, returned, dets)
        self.t += 1


def solo_trace(spec):
    life = Life(spec)
    while not life.done():
        life.step()
    return life.trace


class IsolationC12(Scenario):
    name = "isolation"
    quick = 700
    thorough = 16000
    list_keys = ()
    ddmin_keys = ("schedule",)
    rule = (
        "2-4 trackers with their own configurations and histories, sharing distance and"
        " filter factory objects; each is first run alone in a fresh process. Then they are"
        " run together: updates interleaved in a seeded order with other trackers created,"
        " failing and dropped in between, with detections of their own or with the same"
        " Detection objects; or in threads preempted between bytecodes or"
        " lines; or with a caller that modifies every returned list and array; or in an"
        " interpreter with another hash seed. Reported state must equal the solo run."
    )
    time_unit = "frames"
    state_measure = "distinct interleavings (update order or thread switches)"
    real = REAL
    stub = ("thread scheduler (one thread at a time, switched at planned lines or bytecodes)",)

    def gen(self, rng, tier):
        kind = rng.random()
        if kind < 0.03:
            mode = "hashseed"
        elif kind < 0.45:
            mode = "interleave"
        elif kind < 0.7:
            mode = "meddle"
        else:
            mode = "threads"
        n = 4 if mode == "hashseed" else rng.choice([2, 2, 3]) if mode != "meddle" else 1
        same_filter = rng.random() < 0.6
        same_dist = rng.random() < 0.6
        base = None
        lives = []
        for _ in range(n):
            cfg = w.gen_cfg(rng, reid=rng.random() < 0.3)
            dist = rng.choice(
                ["custom", "euclidean", "mean_euclidean", "frobenius", "iou", "voting",
                 "normalized", "chebyshev", "sqeuclidean", "mean_manhattan"]
            )
            if base and same_filter:
                cfg["filter"] = base["cfg"]["filter"]
            if base and same_dist:
                dist = base["dist"]
            if dist.startswith("iou"):
                cfg["n_points"] = 2
            if dist == "voting":
                cfg["scores"] = True
            labels = [["s", "car"], ["i", 3], ["s", "person"], None] if rng.random() < 0.4 else None
            frames = rng.choice([8, 15]) if mode == "threads" else rng.choice([15, 40])
            actors = rng.choice([1, 2, 3])
            if mode == "hashseed":
                # what is kept in sets or dicts by label comes in another order
                if rng.random() < 0.8:
                    labels = [["s", name] for name in ("car", "dog", "cat", "bus", "person", "")]
                actors = rng.choice([3, 6, 8])
            ops = w.gen_history(rng, cfg, frames, actors, labels, spurious=0.2)
            for op in ops:
                for d in op["d"]:
                    if dist.startswith("iou"):
                        (x, y), _ = d["pts"]
                        d["pts"] = [[x, y], [x + 150.0, y + 100.0]]
                    if dist == "voting" and d.get("sc") is None:
                        d["sc"] = [1.0] * len(d["pts"])
            lives.append({"cfg": cfg, "dist": dist, "ops": ops})
            base = base or lives[0]
        one_detector = mode in ("interleave", "threads") and rng.random() < 0.25
        if one_detector:
            # differently configured trackers follow the same detections
            for life in lives[1:]:
                for key in ("n_points", "dim", "scores"):
                    life["cfg"][key] = lives[0]["cfg"][key]
                life["ops"] = lives[0]["ops"]
                life["dist"] = lives[0]["dist"]
                if not same_dist:
                    life["dist"] = rng.choice([lives[0]["dist"], "euclidean", "frobenius"])
        plan = {
            "mode": mode,
            "one_detector": one_detector,
            "lives": lives,
            "share_filter": same_filter,
            "share_dist": same_dist,
            "order": [],
            "schedule": [],
            "extra": rng.random() < 0.5,
        }
        if mode == "interleave":
            left = [i for i, l in enumerate(lives) for _ in l["ops"]]
            rng.shuffle(left)
            plan["order"] = left
        if mode == "threads":
            plan["granularity"] = rng.choice(["line", "line", "opcode"])
            per = 150 if plan["granularity"] == "line" else 900
            total = per * max(len(l["ops"]) for l in lives)
            plan["schedule"] = gen_schedule(rng, total, n)
        if mode == "hashseed":
            plan["hashseed"] = rng.randint(1, 1 << 30)
        if mode == "meddle":
            plan["key"] = rng.randrange(1 << 30)
        return plan

    def simplify(self, plan):
        if plan["mode"] == "threads":
            yield from shrink_schedule(plan)
        lives = plan["lives"]
        if len(lives) > 2:
            for k in range(len(lives)):
                yield dict(
                    plan,
                    lives=lives[:k] + lives[k + 1 :],
                    order=[i - (i > k) for i in plan["order"] if i != k],
                )
        for k, life in enumerate(lives):
            n = len(life["ops"])
            for m in (n // 2, n - 1):
                if 0 < m < n:
                    yield dict(
                        plan, lives=lives[:k] + [dict(life, ops=life["ops"][:m])] + lives[k + 1 :]
                    )
        if plan["extra"]:
            yield dict(plan, extra=False)

    def exec(self, plan, ctx):
        mode = plan["mode"]
        want = []
        for spec in plan["lives"]:
            res = run_forked(lambda spec=spec: {"status": "ok", "trace": solo_trace(spec)})
            if res["status"] != "ok":
                # the solo run itself fails: let it raise here
                ctx.call("solo run", solo_trace, spec)
                raise RuntimeError(res.get("msg"))
            want.append(res["trace"])
        # nothing may depend on what the process has drawn from its random generators
        reseed(len(plan["lives"][0]["ops"]))
        ctx.fault("other_random_state")
        if mode == "hashseed":
            got = self.other_interpreter(plan)
            ctx.fault("other_hash_seed")
        elif mode == "meddle":
            got = self.meddled(plan, ctx)
        elif mode == "threads":
            got = self.threaded(plan, ctx)
        else:
            got = self.interleaved(plan, ctx)
        for k, (a, b) in enumerate(zip(got, want)):
            ctx.check(
                len(a) == len(b), "length", lambda: f"tracker {k}: {len(a)} updates, alone {len(b)}"
            )
            for t, (x, y) in enumerate(zip(a, b)):
                diff = same(x, y)
                ctx.steps += 1
                ctx.simtime += 1
                ctx.check(
                    diff is None,
                    mode,
                    lambda: f"tracker {k}, update {t}: {diff} when run alone ({mode})",
                )
            ctx.log(k, [[o["id"] for o in x["objects"]] for x in a])

    @staticmethod
    def shared(plan):
        distance = named_distance(plan["lives"][0]["dist"]) if plan["share_dist"] else None
        factory = (
            w.make_filter(plan["lives"][0]["cfg"]["filter"]) if plan["share_filter"] else None
        )
        return distance, factory

    @staticmethod
    def detections(plan, ctx):
        """The very same detections for all trackers, if the plan says so."""
        if not plan.get("one_detector"):
            return None
        ctx.fault("detections_shared_by_trackers")
        ops = max((spec["ops"] for spec in plan["lives"]), key=len)
        return [[w.make_detection(d) for d in op["d"]] for op in ops]

    def interleaved(self, plan, ctx):
        distance, factory = self.shared(plan)
        dets = self.detections(plan, ctx)
        lives = [Life(spec, distance, factory, dets) for spec in plan["lives"]]
        for n, k in enumerate(plan["order"]):
            if k >= len(lives) or lives[k].done():
                continue
            if plan["extra"] and n % 7 == 3:
                # an unrelated tracker lives for one update, or fails in it
                other = norfair.Tracker(
                    distance if distance is not None else "euclidean", 10.0, initialization_delay=0
                )
                try:
                    if n % 2:
                        other.update([norfair.Detection(np.zeros((1, 2)), label="car")])
                        other.update([norfair.Detection(np.ones((1, 2)), label="car")])
                    else:
                        other.update([None])
                    ctx.fault("unrelated_tracker")
                except Exception:  # pylint: disable=broad-except
                    ctx.fault("unrelated_tracker_fails")
            ctx.call(f"update {lives[k].t} of tracker {k}", lives[k].step)
            if n and plan["order"][n - 1] != k:
                ctx.fault("interleaved_update")
        ctx.state(tuple(plan["order"]))
        for life in lives:
            while not life.done():
                life.step()
        return [life.trace for life in lives]

    def meddled(self, plan, ctx):
        def meddle(t, tracker, returned, dets):
            key = plan["key"]
            for o in returned:
                for j, arr in enumerate(
                    (o.estimate, o.get_estimate(), o.estimate_velocity, o.live_points)
                ):
                    if u01(key, t, o.id, j) < 0.7:
                        try:
                            arr[...] = 0 if arr.dtype == bool else -12345.0
                            ctx.fault("caller_overwrites_array")
                        except ValueError:
                            pass  # read-only arrays are fine
            active = tracker.get_active_objects()
            for j, lst in enumerate((returned, active, dets)):
                what = u01(key, t, "list", j)
                if not isinstance(lst, list):
                    continue
                if what < 0.4:
                    lst.clear()
                    ctx.fault("caller_clears_list")
                elif what < 0.7:
                    lst.reverse()
                    lst.append(None)
                    ctx.fault("caller_changes_list")

        lives = [Life(spec) for spec in plan["lives"]]
        for life in lives:
            while not life.done():
                ctx.call(f"update {life.t}", life.step, meddle)
        return [life.trace for life in lives]

    def threaded(self, plan, ctx):
        distance, factory = self.shared(plan)
        dets = self.detections(plan, ctx)
        lives = [None] * len(plan["lives"])

        def body(k):
            def run():
                lives[k] = Life(plan["lives"][k], distance, factory, dets)
                while not lives[k].done():
                    lives[k].step()

            return run

        s = Scheduler(plan["schedule"], seams.PACKAGE, plan["granularity"])
        s.run([body(k) for k in range(len(lives))])
        note_schedule(ctx, s)
        ctx.check(not s.stuck, "deadlock", lambda: f"{s.stuck} after {s.step} steps")
        for i, e in sorted(s.errors.items()):
            ctx.check(False, "exception", f"thread {i} failed: {type(e).__name__}: {e}")
        return [life.trace for life in lives]

    @staticmethod
    def other_interpreter(plan):
        env = dict(os.environ, PYTHONHASHSEED=str(plan["hashseed"]))
        code = (
            "import sys, json\n"
            "from dst import seams\n"
            "seams.install()\n"
            "from dst.s_threads import solo_trace\n"
            "print('\\n' + json.dumps([solo_trace(s) for s in json.load(sys.stdin)]))\n"
        )
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        out = subprocess.run(
            [sys.executable, "-W", "ignore", "-c", code],
            input=json.dumps(plan["lives"]).encode(),
            capture_output=True,
            cwd=root,
            env=env,
            check=True,
            timeout=20,
        )
        return json.loads(out.stdout.decode().strip().splitlines()[-1])


SCENARIOS = {"C04": ThreadsC04, "C12": IsolationC12}

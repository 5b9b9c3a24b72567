"""C01 lifecycle, C03 ids, C06 conservation, C13 past detections, C15 live points."""
import numpy as np

from . import world as w
from .core import Scenario

import norfair

REAL = (
    "norfair.tracker (Tracker, TrackedObject, Detection)",
    "norfair.filter",
    "norfair.distances (matrix construction)",
)


class HistoryScenario(Scenario):
    """A tracker driven by a generated history of detections, misses and periods."""

    list_keys = ("ops",)
    quick = 2600
    thorough = 40000
    rule = (
        "A history of 8-60 frames over 1-6 objects (visibility runs and gaps concentrated"
        " on the boundaries of the hit counter, changing periods, skipped frames, spurious"
        " detections, dropped points) drives a real Tracker."
    )
    state_measure = "distinct (multiset of per-object counters and phases) after a frame"
    real = REAL
    stub = ("detector (generated detections)", "distance function (table) in part of the runs")
    assumptions = (
        "the identity of Detection objects is preserved by last_detection (used to observe matches)",
    )
    reid = False
    labels = False
    dims = (2,)
    scores = None
    spurious = 0.15
    long = 0.02
    crowd = 0.015

    def gen(self, rng, tier):
        cfg = w.gen_cfg(rng, reid=self.reid and rng.random() < 0.5, scores=self.scores, dims=self.dims)
        frames = rng.choice([8, 12, 20, 30, 60])
        actors = rng.choice([1, 1, 2, 3, 4, 6])
        if rng.random() < self.long:
            frames, actors = rng.choice([350, 600]), rng.choice([1, 2])
            w.make_long(rng, cfg)
        elif rng.random() < self.crowd:
            frames, actors = rng.choice([5, 8]), rng.choice([15, 25, 45, 70])
        labels = None
        if self.labels and rng.random() < 0.5:
            labels = w.gen_labels(rng, rng.randint(2, 5))
            if actors >= 15 and rng.random() < 0.6:
                labels = [["i", k] for k in range(rng.choice([15, 50, 300]))]
        ops = w.gen_history(
            rng,
            cfg,
            frames,
            actors,
            labels,
            spurious=rng.choice([0, self.spurious]),
            none_prob=rng.choice([0, 0.05, 0.2]),
        )
        plan = {"cfg": cfg, "ops": ops, "table": w.gen_table(rng, clean=rng.random() < 0.5)}
        self.extend(rng, plan)
        return plan

    def extend(self, rng, plan):
        pass

    def simplify_op(self, op):
        return w.simplify_frame_op(op)

    def simplify_plan(self, plan):
        cfg = plan["cfg"]
        if cfg["filter"] != ["none"]:
            yield dict(plan, cfg=dict(cfg, filter=["none"]))
        if cfg["filter"][0] != "opt" or len(cfg["filter"]) > 1:
            yield dict(plan, cfg=dict(cfg, filter=["opt"]))
        if cfg["reid"] is not None:
            yield dict(plan, cfg=dict(cfg, reid=None))
        table = plan["table"]
        if set(table) - {"key", "scale"}:
            yield dict(plan, table={"key": table["key"], "scale": table["scale"]})

    # ---- execution
    def start(self, plan):
        cfg = plan["cfg"]
        table = w.Table(plan["table"])
        rtable = w.Table(dict(plan["table"], key=plan["table"]["key"] ^ 0x5A5A, scale=1.0, shift=0.0))
        threshold = plan["table"]["scale"] + plan["table"].get("shift", 0.0)
        tracker = w.make_tracker(cfg, table.between, threshold, rtable.between)
        return tracker

    def exec(self, plan, ctx):
        tracker = ctx.call("Tracker()", self.start, plan)
        watch = w.Watch(tracker)
        st = self.begin(plan, ctx, tracker, watch)
        for t, op in enumerate(plan["ops"]):
            w.note_frame_faults(ctx, plan["ops"], t)
            dets = [w.make_detection(d) for d in op["d"]]
            if op.get("none") and not dets:
                returned = ctx.call(f"update(None) of frame {t}", tracker.update, None, op["p"])
            else:
                returned = ctx.call(
                    f"update of frame {t}", tracker.update, detections=dets, period=op["p"]
                )
            fr = watch.observe(dets, op["p"])
            ctx.steps += 1
            ctx.simtime += op["p"]
            ctx.log(
                t,
                [(r.number, d.data["u"]) for r, d in fr.births],
                [(r.number, d.data["u"]) for r, d in fr.hits],
                [(a.number, b.number) for a, b, _ in fr.merges],
                [r.number for r in fr.gone],
                [o.id for o in returned],
            )
            self.after(plan, ctx, tracker, watch, fr, st, t, op, dets, returned)
        self.end(plan, ctx, tracker, watch, st)

    def begin(self, plan, ctx, tracker, watch):
        return {}

    def after(self, plan, ctx, tracker, watch, fr, st, t, op, dets, returned):
        raise NotImplementedError

    def end(self, plan, ctx, tracker, watch, st):
        pass


class Life:
    """Reference lifecycle of one object."""

    def __init__(self, period, cfg):
        self.hc = period
        self.age = 0
        self.delay = w.effective_delay(cfg)
        self.max = cfg["hit_max"]
        self.init = self.hc > self.delay

    def step(self):
        self.hc -= 1
        self.age += 1

    def hit(self, period):
        self.hc = min(self.hc + 2 * period, self.max)
        self.init = self.init or self.hc > self.delay


class LifecycleC01(HistoryScenario):
    name = "lifecycle"

    def after(self, plan, ctx, tracker, watch, fr, st, t, op, dets, returned):
        cfg = plan["cfg"]
        life = st.setdefault("life", {})
        # objects that should have been removed at the start of this update
        expected = {}
        for n, m in life.items():
            if m.hc < 0:
                continue
            expected[n] = m
        hit = {r.number: d for r, d in fr.hits}
        for n, m in expected.items():
            m.step()
            if n in hit:
                m.hit(op["p"])
        for n in hit:
            ctx.check(
                n in expected,
                "resurrection",
                lambda: f"frame {t}: an object without inertia left was matched again",
            )
        for rec, _ in fr.births:
            expected[rec.number] = Life(op["p"], cfg)
        st["life"] = expected
        ctx.check(not fr.orphans, "orphan", f"frame {t}: an object appeared out of nothing")
        present = {r.number: r for r in watch.present}
        gone = sorted(set(expected) - set(present))
        ctx.check(
            not gone,
            "removed_early",
            lambda: f"frame {t}: object {gone} disappeared with hit counter {expected[gone[0]].hc}",
        )
        extra = sorted(set(present) - set(expected))
        ctx.check(
            not extra,
            "kept_dead",
            lambda: f"frame {t}: object {extra} is still tracked one update after its hit counter became negative",
        )
        for n, m in expected.items():
            o = present[n].obj
            ctx.check(
                o.hit_counter == m.hc,
                "hit_counter",
                lambda: f"frame {t}: object {n} has hit counter {o.hit_counter}, expected {m.hc}",
            )
            ctx.check(
                o.age == m.age,
                "age",
                lambda: f"frame {t}: object {n} has age {o.age}, expected {m.age}",
            )
            ctx.check(
                (o.id is not None) == m.init,
                "initialization",
                lambda: f"frame {t}: object {n} with counter {m.hc} (delay {m.delay}) has id {o.id},"
                f" expected {'an id' if m.init else 'none'}",
            )
        want = sorted(n for n, m in expected.items() if m.init and m.hc >= 0)
        got = sorted(watch.rec_of(o).number if watch.rec_of(o) else -1 for o in returned)
        ctx.check(
            want == got,
            "returned",
            lambda: f"frame {t}: update returned objects {got}, expected {want}",
        )
        active = sorted(
            watch.rec_of(o).number if watch.rec_of(o) else -1
            for o in tracker.get_active_objects()
        )
        ctx.check(
            active == want and tracker.current_object_count == len(want),
            "active",
            lambda: f"frame {t}: active objects {active}, count {tracker.current_object_count}, expected {want}",
        )
        ctx.state(tuple(sorted((m.hc, m.init) for m in expected.values())))
        for n, m in expected.items():
            if m.hc < 0:
                ctx.probe("object_died")
                if m.init:
                    ctx.probe("initialized_object_died")
            if m.hc == 0 and n in hit:
                ctx.probe("hit_at_zero")
            if m.hc == m.max and n in hit:
                ctx.probe("counter_capped")


class IdsC03(HistoryScenario):
    """Several trackers used in turn, some of their updates failing."""

    name = "ids"
    reid = True
    labels = True
    quick = 2000
    rule = (
        "1-3 trackers with histories as above (with and without ReID) are updated in a"
        " generated interleaving; distances, ReID distances, filter creations and corrections"
        " fail at generated invocations."
    )

    def gen(self, rng, tier):
        n = rng.choice([1, 2, 3])
        parts = [super(IdsC03, self).gen(rng, tier) for _ in range(n)]
        for part in parts:
            part["ops"] = part["ops"][:30]
        # merge the histories in a random interleaving
        ops, idx = [], [0] * n
        while True:
            alive = [i for i in range(n) if idx[i] < len(parts[i]["ops"])]
            if not alive:
                break
            i = rng.choice(alive)
            op = dict(parts[i]["ops"][idx[i]], k=i)
            if rng.random() < 0.06:
                site = rng.choice(["distance", "distance", "create", "create", "correct", "reid"])
                op["fail"] = [site, rng.choice([1, 1, 2, 2, 3, 4])]
            idx[i] += 1
            ops.append(op)
        return {
            "trackers": [{"cfg": p["cfg"], "table": p["table"]} for p in parts],
            "ops": ops,
        }

    def simplify_plan(self, plan):
        return ()

    def simplify_op(self, op):
        if op.get("fail"):
            nop = dict(op)
            del nop["fail"]
            yield nop
        yield from w.simplify_frame_op(op)

    def exec(self, plan, ctx):
        sims = []
        for spec in plan["trackers"]:
            cfg, table = spec["cfg"], w.Table(spec["table"])
            arm = {"site": None, "left": 0, "fired": None}

            def hook(site, arm=arm):
                if arm["site"] == site and arm["fired"] is None:
                    arm["left"] -= 1
                    if arm["left"] == 0:
                        arm["fired"] = RuntimeError(f"injected failure ({site})")
                        raise arm["fired"]

            rtable = w.Table(dict(spec["table"], key=spec["table"]["key"] ^ 0x5A5A, scale=1.0, shift=0.0))

            def distance(d, o, table=table, hook=hook):
                hook("distance")
                return table.between(d, o)

            def reid(new, old, rtable=rtable, hook=hook):
                hook("reid")
                return rtable.between(new, old)

            threshold = spec["table"]["scale"] + spec["table"].get("shift", 0.0)
            factory = w.FailingFactory(w.make_filter(cfg["filter"]), hook)
            tracker = ctx.call("Tracker()", w.make_tracker, cfg, distance, threshold, reid, factory)
            sims.append({"t": tracker, "w": w.Watch(tracker), "b": arm, "ids": {}, "gids": {}, "temp": {}})
        all_global = {}
        for t, op in enumerate(plan["ops"]):
            sim = sims[op["k"]]
            tracker, watch = sim["t"], sim["w"]
            dets = [w.make_detection(d) for d in op["d"]]
            site, left = op.get("fail") or [None, 0]
            sim["b"].update(site=site, left=left, fired=None)
            returned = None
            try:
                returned = tracker.update(dets if not op.get("none") else None, op["p"])
            except Exception as e:  # pylint: disable=broad-except
                if e is not sim["b"]["fired"]:
                    ctx.call("update", _reraise, e)
                ctx.fault(f"{site}_failure")
            sim["b"]["site"] = None
            if not op["d"]:
                ctx.fault("frame_without_detections")
            fr = watch.observe(dets, op["p"])
            if fr.merges:
                ctx.probe("reid_merge", len(fr.merges))
            if fr.gone:
                ctx.fault("object_died", len(fr.gone))
            ctx.steps += 1
            ctx.simtime += op["p"]
            for i, other in enumerate(sims):
                self.check_ids(ctx, t, i, other, all_global)
            if returned is not None:
                ctx.check(
                    tracker.current_object_count == len(returned)
                    and all(o.id is not None for o in returned)
                    and len({id(o) for o in returned}) == len(returned),
                    "current_count",
                    lambda: f"op {t}: {len(returned)} objects returned, current_object_count"
                    f" {tracker.current_object_count}, ids {[o.id for o in returned]}",
                )
            ctx.log(t, op["k"], [o.id for o in returned or []], tracker.total_object_count)
            ctx.state(
                tuple(sorted((r.obj.hit_counter, r.obj.id is not None) for r in watch.present))
            )

    @staticmethod
    def check_ids(ctx, t, i, sim, all_global):
        watch, tracker = sim["w"], sim["t"]
        for rec in watch.recs.values():
            o = rec.obj
            temporary = sim["temp"].setdefault(rec.number, o.initializing_id)
            ctx.check(
                temporary == o.initializing_id
                and all(n == rec.number or v != temporary for n, v in sim["temp"].items()),
                "initializing_id",
                lambda: f"op {t} tracker {i}: object {rec.number} has initializing_id {o.initializing_id},"
                f" of object {[n for n, v in sim['temp'].items() if v == o.initializing_id]}",
            )
            known = sim["ids"].get(rec.number)
            if known is not None:
                ctx.check(
                    o.id == known,
                    "id_changed",
                    lambda: f"op {t} tracker {i}: object {rec.number} had id {known}, now {o.id}",
                )
            elif o.id is not None:
                taken = [n for n, v in sim["ids"].items() if v == o.id]
                ctx.check(
                    not taken,
                    "id_reused",
                    lambda: f"op {t} tracker {i}: id {o.id} given to object {rec.number} was object {taken}'s",
                )
                sim["ids"][rec.number] = o.id
            ctx.check(
                (o.id is None) == (o.global_id is None) == bool(o.is_initializing),
                "id_phase",
                lambda: f"op {t} tracker {i}: object {rec.number} id {o.id} global {o.global_id}"
                f" initializing {o.is_initializing}",
            )
            if o.global_id is not None:
                owner = all_global.setdefault(o.global_id, (i, rec.number))
                ctx.check(
                    owner == (i, rec.number),
                    "global_id_shared",
                    lambda: f"op {t}: global id {o.global_id} of {owner} given to {(i, rec.number)}",
                )
                first = sim["gids"].setdefault(rec.number, o.global_id)
                ctx.check(first == o.global_id, "global_id_changed", f"op {t}: global id changed")
        ids = sorted(sim["ids"].values())
        ctx.check(
            ids == list(range(1, len(ids) + 1)),
            "id_gap",
            lambda: f"op {t} tracker {i}: ids given so far {ids}",
        )
        ctx.check(
            tracker.total_object_count == len(ids),
            "total_count",
            lambda: f"op {t} tracker {i}: total_object_count {tracker.total_object_count}, ids given {ids}",
        )


def _reraise(e):
    raise e


class Shift(norfair.camera_motion.CoordinatesTransformation if hasattr(norfair, "camera_motion") else object):
    """A user-defined camera transformation (translation and scale)."""

    def __init__(self, offset, scale):
        self.offset = np.array(offset, dtype=float)
        self.scale = float(scale)

    def abs_to_rel(self, points):
        return (np.asarray(points, dtype=float) - self.offset) * self.scale

    def rel_to_abs(self, points):
        return np.asarray(points, dtype=float) / self.scale + self.offset


class ConservationC06(HistoryScenario):
    name = "conservation"
    reid = True
    labels = True
    dims = (2, 2, 3)
    spurious = 0.5

    def extend(self, rng, plan):
        cfg = plan["cfg"]
        mode = rng.random()
        plan["builtin"] = None
        if mode < 0.4:
            plan["builtin"] = rng.choice(
                ["euclidean", "cityblock", "frobenius", "mean_manhattan", "chebyshev"]
            )
        elif mode < 0.5 and cfg["n_points"] == 2 and cfg["dim"] == 2:
            plan["builtin"] = "iou"
        if rng.random() < 0.4:
            # the detector reports the same thing more than once
            fresh = 1000000
            labels = [d.get("l") for op in plan["ops"] for d in op["d"]] or [None]
            for op in plan["ops"]:
                for d in list(op["d"]):
                    if rng.random() < 0.15:
                        fresh += 1
                        twin = dict(d, u=fresh)
                        if rng.random() < 0.4:
                            twin["l"] = rng.choice(labels)
                        op["d"].insert(rng.randint(0, len(op["d"])), twin)
        if rng.random() < 0.3:
            off = [0.0] * cfg["dim"]
            for op in plan["ops"]:
                off = [v + rng.uniform(-20, 20) for v in off]
                op["cam"] = [[round(v, 3) for v in off], rng.choice([1.0, 1.0, 2.0])]

    def exec(self, plan, ctx):
        cfg = plan["cfg"]
        table = w.Table(plan["table"])
        rtable = w.Table(dict(plan["table"], key=plan["table"]["key"] ^ 0x5A5A, scale=1.0, shift=0.0))
        threshold = plan["table"]["scale"] + plan["table"].get("shift", 0.0)
        distance = table.between
        if plan["builtin"]:
            distance, threshold = plan["builtin"], 60.0
            if distance == "iou":
                threshold = 0.9
        tracker = ctx.call("Tracker()", w.make_tracker, cfg, distance, threshold, rtable.between)
        watch = w.Watch(tracker)
        kept_inputs = []
        hcs = {}
        rid = cfg["reid"]["max"] if cfg["reid"] else None
        for t, op in enumerate(plan["ops"]):
            w.note_frame_faults(ctx, plan["ops"], t)
            dets = [w.make_detection(d) for d in op["d"]]
            given = list(dets)
            frozen = [
                (d, d.points, d.points.copy(), None if d.scores is None else d.scores.copy())
                for d in dets
            ]
            cam = Shift(*op["cam"]) if op.get("cam") else None
            before = {r.number: r.obj.hit_counter for r in watch.present}
            ctx.call(
                f"update of frame {t}",
                tracker.update,
                detections=None if op.get("none") and not dets else given,
                period=op["p"],
                coord_transformations=cam,
            )
            fr = watch.observe(dets, op["p"])
            ctx.steps += 1
            ctx.simtime += op["p"]
            ctx.log(t, len(fr.births), len(fr.hits), len(fr.merges), len(fr.gone))
            ctx.check(
                len(given) == len(dets) and all(a is b for a, b in zip(given, dets)),
                "input_list",
                f"frame {t}: the caller's detection list was modified",
            )
            kept_inputs.extend(frozen)
            holders = {}
            for o in tracker.tracked_objects:
                holders.setdefault(id(o.last_detection), []).append(o)
            for d in dets:
                n = len(holders.get(id(d), ()))
                ctx.check(
                    n == 1,
                    "lost_detection" if n == 0 else "shared_detection",
                    lambda: f"frame {t}: detection {d.data['u']} is the latest detection of {n} objects",
                )
            ctx.check(
                len({id(o) for o in tracker.tracked_objects}) == len(tracker.tracked_objects),
                "duplicate_object",
                f"frame {t}: an object is tracked twice",
            )
            ctx.check(not fr.orphans, "orphan", f"frame {t}: an object appeared out of nothing")
            for rec, d in fr.births:
                o = rec.obj
                if cam is not None:
                    pos = ctx.call("get_estimate", o.get_estimate, absolute=True)
                    want = cam.rel_to_abs(frozen[dets.index(d)][2])
                else:
                    pos, want = o.estimate, frozen[dets.index(d)][2]
                ctx.check(
                    w.close(pos, want, 1e-9),
                    "birth_position",
                    lambda: f"frame {t}: object born at {pos.tolist()} from detection at {want.tolist()}",
                )
                ctx.check(
                    o.label == d.label and type(o.label) is type(d.label),
                    "birth_label",
                    lambda: f"frame {t}: object born with label {o.label!r} from {d.label!r}",
                )
                ctx.probe("birth")
            for rec, d in fr.hits:
                ctx.check(
                    rec.obj.label == d.label,
                    "hit_label",
                    lambda: f"frame {t}: object with label {rec.obj.label!r} took {d.label!r}",
                )
            for rec in fr.gone:
                hc = before[rec.number]
                ctx.check(
                    hc < 0,
                    "vanished",
                    lambda: f"frame {t}: {rec} disappeared while its hit counter was {hc}",
                )
                if rid is not None:
                    hist = hcs.get(rec.number, [])
                    # updates since it ran out of inertia
                    dead = 0
                    for v in reversed(hist):
                        if v >= 0:
                            break
                        dead += 1
                    ctx.check(
                        dead > rid,
                        "vanished_early",
                        lambda: f"frame {t}: {rec} was destroyed {dead} updates after it ran out of"
                        f" inertia, within the ReID window of {rid}",
                    )
            for old, new, d in fr.merges:
                ctx.probe("reid_merge")
                ctx.check(
                    rid is not None and old.obj.label == new.obj.label,
                    "bad_merge",
                    lambda: f"frame {t}: {new} was merged into {old}",
                )
            for r in watch.present:
                hcs.setdefault(r.number, []).append(r.obj.hit_counter)
            ctx.state((len(dets), len(fr.hits), len(fr.births), len(fr.merges), len(fr.gone), len(watch.present)))
        for d, arr, pts, sc in kept_inputs:
            ctx.check(
                np.array_equal(arr, pts)
                and np.array_equal(d.points, pts)
                and (sc is None or np.array_equal(d.scores, sc)),
                "input_points",
                lambda: f"the points of detection {d.data['u']} were modified",
            )


class PastC13(HistoryScenario):
    name = "past_detections"
    reid = True

    @staticmethod
    def add(m, d, length, ctx):
        if length == 0:
            return
        if len(m["past"]) < length:
            m["past"].append((d, m["age"]))
        elif m["age"] >= m["past"][0][1] * length:
            m["past"].pop(0)
            m["past"].append((d, m["age"]))
            ctx.probe("replaced_oldest")
        else:
            ctx.probe("not_kept")

    def gen(self, rng, tier):
        plan = super().gen(rng, tier)
        if rng.random() < 0.6:
            # long-lived objects: fill the memory many times over
            cfg = plan["cfg"]
            cfg["hit_max"] = rng.choice([6, 8, 15])
            cfg["delay"] = rng.choice([0, 1, 2])
            plan["ops"] = w.gen_history(
                rng, cfg, rng.choice([40, 80, 120]), rng.choice([1, 2]), None,
                none_prob=rng.choice([0.0, 0.1]),
            )
        return plan

    def after(self, plan, ctx, tracker, watch, fr, st, t, op, dets, returned):
        length = plan["cfg"]["past_len"]
        for rec, d in fr.births:
            rec.model = {"past": [(d, 0)] if length > 0 else [], "age": 0}
        hit = {r.number: d for r, d in fr.hits}
        merged = {new.number: d for _, new, d in fr.merges}
        for rec in list(fr.kept) + [new for _, new, _ in fr.merges]:
            m = rec.model
            m["age"] += 1
            d = merged.get(rec.number) if rec.number in merged else hit.get(rec.number)
            if d is not None:
                self.add(m, d, length, ctx)
        for old, new, d in fr.merges:
            ctx.probe("reid_merge")
            hit[old.number] = d
            for past, _ in new.model["past"]:
                self.add(old.model, past, length, ctx)
        for rec in watch.present:
            o, m = rec.obj, rec.model
            got = list(o.past_detections)
            ctx.check(
                len(got) <= length,
                "too_many",
                lambda: f"frame {t}: {len(got)} past detections, length {length}",
            )
            ctx.check(
                [id(d) for d in got] == [id(d) for d, _ in m["past"]],
                "contents",
                lambda: f"frame {t}: past detections {[w.uid(d) for d in got]} of {rec},"
                f" expected {[w.uid(d) for d, _ in m['past']]} (length {length}, age {m['age']})",
            )
            ctx.check(
                [d.age for d in got] == [a for _, a in m["past"]],
                "stamp",
                lambda: f"frame {t}: past detections of {rec} are stamped {[d.age for d in got]},"
                f" expected {[a for _, a in m['past']]}",
            )
            want = hit.get(rec.number)
            if want is not None:
                ctx.check(
                    o.last_detection is want, "last", f"frame {t}: last_detection is stale"
                )
            ctx.state((length, m["age"], tuple(a for _, a in m["past"])))


class LiveC15(HistoryScenario):
    name = "live_points"
    reid = True
    scores = True

    def after(self, plan, ctx, tracker, watch, fr, st, t, op, dets, returned):
        cfg = plan["cfg"]
        thr = cfg["det_thr"]
        hit = {r.number: d for r, d in fr.hits}
        merged = {new.number: (old, new, d) for old, new, d in fr.merges}
        for rec in list(fr.kept) + [new for _, new, _ in fr.merges]:
            m = rec.model
            if rec.number in merged:
                rec.model = m = {"live": list(m["live"]), "cap": m["cap"]}
            m["live"] = [max(0, v - 1) for v in m["live"]]
            d = hit.get(rec.number) or (merged[rec.number][2] if rec.number in merged else None)
            if d is not None:
                for k, good in enumerate(w.reliable(d, thr)):
                    if good:
                        if m["live"][k] == 0:
                            ctx.probe("point_revived")
                        m["live"][k] = min(m["cap"], m["live"][k] + 2 * op["p"])
                    else:
                        # after a merge the counter may be above this object's cap
                        m["live"][k] = min(m["cap"], m["live"][k])
                        ctx.fault("point_dropout")
        for old, new, _ in fr.merges:
            ctx.probe("reid_merge")
            # the old object is in the list of kept ones: replace its liveness, keep its cap
            old.model = {"live": list(new.model["live"]), "cap": old.model["cap"]}
        for rec, d in fr.births:
            rec.model = {
                "live": [1 if g else 0 for g in w.reliable(d, thr)],
                "cap": max(cfg["pw_max"], op["p"]),
            }
        for rec in watch.present:
            m = rec.model
            got = [bool(v) for v in rec.obj.live_points]
            want = [v > 0 for v in m["live"]]
            ctx.check(
                got == want,
                "live_points",
                lambda: f"frame {t}: live points of {rec} are {got}, expected {want} (counters {m['live']})",
            )
            ctx.state((tuple(m["live"]), m["cap"]))


SCENARIOS = {
    "C01": LifecycleC01,
    "C03": IdsC03,
    "C06": ConservationC06,
    "C13": PastC13,
    "C15": LiveC15,
}

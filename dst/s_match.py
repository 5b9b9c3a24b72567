"""C05 matching, C07 ReID, C08 failure containment, C14 order insensitivity."""
import math

import numpy as np

from . import world as w
from .core import Ambiguous, Scenario, Violation, u01
from .model import GEOMETRIC, RefDet, RefTracker
from .s_life import HistoryScenario

import norfair


def expected_state(model):
    return {o.birth: o for o in model.objs}


class MatchC05(HistoryScenario):
    name = "matching"
    quick = 3200
    thorough = 60000
    labels = True
    spurious = 0.6
    rule = (
        "Histories as in the lifecycle check with crowded conflicting distances (a table of"
        " exact values including the threshold itself, or a built-in geometric distance on"
        " filtered estimates), mixed label types and extreme thresholds; every update is"
        " compared with a reference matcher."
    )
    state_measure = "distinct (detections, initialized, initializing, matched, new) per frame"

    def extend(self, rng, plan):
        cfg = plan["cfg"]
        mode = rng.random()
        if mode < 0.45:
            name = rng.choice(list(GEOMETRIC))
            plan["builtin"] = name
            spread = rng.choice([30, 100, 400])
            scale = rng.choice([1, 1, 10])
            if name.startswith("iou"):
                cfg["n_points"] = cfg["dim"] = 2
                plan["thr"] = rng.choice([0.5, 0.9, 0.99])
            else:
                plan["thr"] = rng.choice([20, 60, 200]) * (40 if name == "sqeuclidean" else 1)
            actors = {}
            for op in plan["ops"]:
                for d in op["d"]:
                    if d["a"] not in actors:
                        actors[d["a"]] = [rng.uniform(0, spread) for _ in range(cfg["dim"])]
                    base = [v + rng.uniform(-5, 5) * scale for v in actors[d["a"]]]
                    if name.startswith("iou"):
                        size = [rng.uniform(15, 60), rng.uniform(15, 60)]
                        d["pts"] = [base, [base[0] + size[0], base[1] + size[1]]]
                    else:
                        d["pts"] = [
                            [v + 3 * k + rng.uniform(-4, 4) for v in base]
                            for k in range(cfg["n_points"])
                        ]
                    d["pts"] = [[round(v, 4) for v in p] for p in d["pts"]]
                    if d.get("sc") is not None:
                        d["sc"] = (d["sc"] * 9)[: cfg["n_points"]]
        elif mode < 0.6:
            # thresholds far beyond the distances: everything may match everything
            plan["thr"] = rng.choice(
                [1e6, 1e9, 1e20, 3e38, 1e300, "inf", 0.0, -1.0, rng.uniform(1.6e7, 1e9), rng.uniform(1e9, 1e15)]
            )

    def exec(self, plan, ctx):
        cfg = plan["cfg"]
        if plan.get("builtin"):
            name = plan["builtin"]
            geo = GEOMETRIC[name]
            threshold = plan["thr"]
            distance = name
            tie = 2e-5
            ref_distance = lambda d, o: geo(d.points, o.points.estimate())
        else:
            table = w.Table(plan["table"])
            threshold = plan["table"]["scale"] + plan["table"].get("shift", 0.0)
            if "thr" in plan:
                threshold = float(plan["thr"])
                ctx.fault("extreme_threshold")
            distance = table.between
            tie = 0.0
            ref_distance = lambda d, o: table.value(d.u, d.a, o.last.u, o.last.a)
        tracker = ctx.call("Tracker()", w.make_tracker, cfg, distance, threshold)
        ref = RefTracker(cfg, ref_distance, threshold, tie_rel=tie)
        watch = w.Watch(tracker)
        for t, op in enumerate(plan["ops"]):
            w.note_frame_faults(ctx, plan["ops"], t)
            dets = [w.make_detection(d) for d in op["d"]]
            groups = (
                sum(1 for o in ref.objs if o.init and o.hc >= 0),
                sum(1 for o in ref.objs if not o.init and o.hc >= 0),
            )
            ctx.call(
                f"update of frame {t}",
                tracker.update,
                detections=None if op.get("none") and not dets else dets,
                period=op["p"],
            )
            fr = watch.observe(dets, op["p"])
            ctx.steps += 1
            ctx.simtime += op["p"]
            out, _ = ref.update([RefDet(d, cfg["det_thr"]) for d in op["d"]], op["p"])
            got = {}
            for rec, d in fr.hits:
                ctx.check(
                    d.data["u"] not in got,
                    "shared_detection",
                    f"frame {t}: detection {d.data['u']} matched twice",
                )
                got[d.data["u"]] = ("hit", rec.birth.data["u"])
            for rec, d in fr.births:
                ctx.check(
                    d.data["u"] not in got,
                    "matched_and_new",
                    f"frame {t}: detection {d.data['u']} was matched and also created an object",
                )
                got[d.data["u"]] = ("birth", d.data["u"])
            ctx.check(
                got == out,
                "matching",
                lambda: f"frame {t}: matches {diff(got, out)} (got, expected) threshold {threshold}",
            )
            for rec, d in fr.hits:
                want = next(o for o in ref.objs if o.birth == rec.birth.data["u"]).last_distance
                have = rec.obj.last_distance
                ctx.check(
                    have is not None and math.isclose(have, want, rel_tol=1e-4, abs_tol=1e-5),
                    "last_distance",
                    lambda: f"frame {t}: {rec} reports last distance {have}, matched at {want}",
                )
            nh, nb = len(fr.hits), len(fr.births)
            ctx.log(t, sorted(got.items()))
            ctx.state((len(dets), groups, nh, nb))
            if groups[0] and groups[1]:
                ctx.probe("both_stages_populated")
            if nh and nb:
                ctx.probe("some_matched_some_not")


def diff(got, want):
    return {
        k: (got.get(k), want.get(k))
        for k in sorted(set(got) | set(want))
        if got.get(k) != want.get(k)
    }


class ReidC07(HistoryScenario):
    name = "reid"
    quick = 3200
    thorough = 60000
    reid = True
    labels = True
    rule = (
        "Histories of objects that disappear and come back around the end of their inertia"
        " and of the ReID window (gap lengths drawn at the boundaries), with ReID distances"
        " from a table (same object close with high, others with low probability), labels"
        " and changing periods; every update is compared with a reference tracker."
    )
    state_measure = "distinct multisets of (counter, countdown, phase) after a frame"

    def gen(self, rng, tier):
        cfg = w.gen_cfg(rng, reid=True)
        cfg["hit_max"] = rng.choice([2, 3, 4, 5, 6])
        cfg["delay"] = min(rng.choice([None, 1, 1, 2, 3, 0]) or 1, cfg["hit_max"] - 1)
        if rng.random() < 0.15:
            cfg["delay"] = 0
        labels = w.gen_labels(rng, rng.randint(2, 4)) if rng.random() < 0.4 else None
        ops = w.gen_history(
            rng,
            cfg,
            rng.choice([15, 30, 60]),
            rng.choice([1, 1, 2, 3, 4]),
            labels,
            spurious=rng.choice([0, 0.1, 0.4]),
            none_prob=rng.choice([0, 0.05]),
        )
        table = w.gen_table(rng, clean=rng.random() < 0.7)
        rtable = {"key": rng.randrange(1 << 40), "scale": 1.0}
        rtable.update(
            same=rng.choice([1.0, 1.0, 0.8, 0.0]), cross=rng.choice([0.0, 0.0, 0.3, 0.8])
        )
        if rng.random() < 0.3:
            rtable["edge"] = 0.15
        if rng.random() < 0.12:
            # negative ReID distances, as of a similarity, under the default threshold
            cfg["reid"]["thr"], rtable["shift"] = 0, -1.0
        return {"cfg": cfg, "ops": ops, "table": table, "rtable": rtable}

    def simplify_plan(self, plan):
        cfg = plan["cfg"]
        if cfg["filter"] != ["none"]:
            yield dict(plan, cfg=dict(cfg, filter=["none"]))

    def exec(self, plan, ctx):
        cfg = plan["cfg"]
        table, rtable = w.Table(plan["table"]), w.Table(plan["rtable"])
        threshold = plan["table"]["scale"] + plan["table"].get("shift", 0.0)

        def reid(new, old):
            # objects that never got an id are not worth reviving
            return 2.0 if old.id is None else rtable.between(new, old)

        def ref_reid(new, old):
            if not old.init:
                return 2.0
            return rtable.value(new.last.u, new.last.a, old.last.u, old.last.a)

        tracker = ctx.call("Tracker()", w.make_tracker, cfg, table.between, threshold, reid)
        ref = RefTracker(
            cfg,
            lambda d, o: table.value(d.u, d.a, o.last.u, o.last.a),
            threshold,
            ref_reid,
        )
        watch = w.Watch(tracker)
        ids = {}
        for t, op in enumerate(plan["ops"]):
            w.note_frame_faults(ctx, plan["ops"], t)
            dets = [w.make_detection(d) for d in op["d"]]
            before = {o.birth: (o.hc, o.rhc, o.init) for o in ref.objs}
            returned = ctx.call(
                f"update of frame {t}",
                tracker.update,
                detections=None if op.get("none") and not dets else dets,
                period=op["p"],
            )
            fr = watch.observe(dets, op["p"])
            ctx.steps += 1
            ctx.simtime += op["p"]
            _, merges = ref.update([RefDet(d, cfg["det_thr"]) for d in op["d"]], op["p"])
            model = expected_state(ref)
            for old, new in merges:
                hc, rhc, _ = before[old]
                ctx.probe("merge_dead" if hc < 0 else "merge_not_yet_dead")
                if rhc == 0:
                    ctx.probe("merge_in_last_update_of_window")
                ctx.fault("reid_revival")
            for b in set(before) - set(model) - {n for _, n in merges}:
                ctx.fault("reid_window_expired")
                ctx.probe("expired_initialized" if before[b][2] else "expired_initializing")
            got_merges = sorted((a.birth.data["u"], b.birth.data["u"]) for a, b, _ in fr.merges)
            ctx.check(
                got_merges == sorted(merges),
                "merges",
                lambda: f"frame {t}: merged {got_merges} (old, newcomer by first detection), expected {sorted(merges)}",
            )
            have = {r.birth.data["u"]: r.obj for r in watch.present}
            ctx.check(
                sorted(have) == sorted(model),
                "objects",
                lambda: f"frame {t}: tracked objects (by first detection) {sorted(have)}, expected {sorted(model)}",
            )
            for b, m in model.items():
                o = have[b]
                known = ids.get(b)
                ctx.check(
                    (o.id is not None) == m.init and (known is None or known == o.id),
                    "id",
                    lambda: f"frame {t}: object {b} has id {o.id}, before {known}, initialized {m.init}",
                )
                if o.id is not None:
                    ids[b] = o.id
                ctx.check(
                    w.uid(o) == m.last.u,
                    "last_detection",
                    lambda: f"frame {t}: object {b} has latest detection {w.uid(o)}, expected {m.last.u}",
                )
                ctx.check(
                    o.hit_counter == m.hc,
                    "hit_counter",
                    lambda: f"frame {t}: object {b} has counter {o.hit_counter}, expected {m.hc}",
                )
                ctx.check(
                    o.age == m.age,
                    "age",
                    lambda: f"frame {t}: object {b} has age {o.age}, it was created {m.age} updates ago",
                )
                ctx.check(
                    w.close(o.estimate, m.points.estimate())
                    and w.close(o.estimate_velocity, m.points.velocity()),
                    "position",
                    lambda: f"frame {t}: object {b} is at {o.estimate.tolist()}, expected {m.points.estimate().tolist()}",
                )
                ctx.check(
                    [bool(v) for v in o.live_points] == [v > 0 for v in m.points.live],
                    "liveness",
                    lambda: f"frame {t}: object {b} live points {o.live_points}, expected {m.points.live}",
                )
            for b, _ in merges:
                got, exp = have[b].last_distance, model[b].last_distance
                ctx.check(
                    got is not None and math.isclose(got, exp, rel_tol=1e-4, abs_tol=1e-5),
                    "last_distance",
                    lambda: f"frame {t}: revived object {b} reports last distance {got}, matched at {exp}",
                )
            ctx.check(
                len(set(ids.values())) == len(ids), "id_shared", f"frame {t}: an id was given twice"
            )
            want = sorted(ids[b] for b, m in model.items() if m.init and m.hc >= 0)
            ctx.check(
                sorted(o.id for o in returned) == want,
                "returned",
                lambda: f"frame {t}: reported ids {sorted(o.id for o in returned)}, expected {want}",
            )
            ctx.log(t, want, sorted(merges))
            ctx.state(tuple(sorted((m.hc, -9 if m.rhc is None else m.rhc, m.init) for m in model.values())))


class Boom(Exception):
    pass


INVALID = {
    "none": lambda: None,
    "int": lambda: 5,
    "array": lambda: np.zeros((1, 2)),
    "dict": lambda: {"points": [[0, 0]]},
    "text": lambda: "detection",
}


class FailureC08(HistoryScenario):
    name = "failure_containment"
    quick = 2800
    thorough = 50000
    reid = True
    labels = True
    spurious = 0.3
    rule = (
        "Histories as in the lifecycle check; at generated updates a generated invocation"
        " (the n-th call) of the distance, the ReID distance, filter creation or filter"
        " correction raises or (distances) returns NaN, or something that is not a Detection"
        " is put in the list; with a moving camera also the transformation of the n-th"
        " detection raises."
    )
    state_measure = "distinct (fault site, invocation, objects, new, hit) per failing update"

    def extend(self, rng, plan):
        plan["table"] = w.gen_table(rng, clean=True)
        cfg = plan["cfg"]
        sites = ["distance", "distance_nan", "create", "correct", "invalid"]
        if cfg["reid"]:
            sites += ["reid", "reid_nan", "reid", "reid_nan"]
            cfg["hit_max"] = rng.choice([2, 3, 4, 5])
            cfg["delay"] = rng.choice([1, 1, cfg["hit_max"] - 1])
        plan["camera"] = rng.randrange(1, 1 << 30) if rng.random() < 0.35 else None
        if plan["camera"]:
            sites += ["transform", "invalid"]
        rate = rng.choice([0.05, 0.15, 0.4])
        for op in plan["ops"]:
            if rng.random() < rate:
                site = rng.choice(sites)
                op["fail"] = [site, rng.choice([1, 1, 2, 3, 5, 9])]
                if site == "invalid":
                    op["fail"] += [rng.choice(list(INVALID)), rng.randint(0, len(op["d"]))]
                    op.pop("none", None)

    def simplify_op(self, op):
        if op.get("fail"):
            nop = dict(op)
            del nop["fail"]
            yield nop
            if op["fail"][1] > 1:
                yield dict(op, fail=[op["fail"][0], 1] + op["fail"][2:])
        for nop in w.simplify_frame_op(op):
            if len(op.get("fail", ())) == 4 and op["fail"][3] > len(nop["d"]):
                continue
            yield nop

    def exec(self, plan, ctx):
        cfg = plan["cfg"]
        table = w.Table(plan["table"])
        rtable = w.Table({"key": plan["table"]["key"] ^ 0x77, "scale": 1.0})
        threshold = plan["table"]["scale"]
        arm = {"site": None, "left": 0, "fired": None}

        def hook(site):
            """Returns "nan" if the caller must return NaN, raises if it must fail."""
            if arm["site"] is None or arm["fired"] is not None:
                return None
            if arm["site"].split("_")[0] != site:
                return None
            arm["left"] -= 1
            if arm["left"] > 0:
                return None
            arm["fired"] = Boom(site)
            if arm["site"].endswith("_nan"):
                return "nan"
            raise arm["fired"]

        def distance(d, o):
            return float("nan") if hook("distance") else table.between(d, o)

        def reid(new, old):
            return float("nan") if hook("reid") else rtable.between(new, old)

        factory = w.FailingFactory(w.make_filter(cfg["filter"]), hook)

        class Camera(norfair.camera_motion.CoordinatesTransformation):
            def __init__(self, t):
                self.move = np.array([u01(plan["camera"], t, k) * 80 - 40 for k in (0, 1)])

            def abs_to_rel(self, points):
                return points + self.move[: points.shape[1]].sum()

            def rel_to_abs(self, points):
                hook("transform")
                return points - self.move[: points.shape[1]].sum()

        tracker = ctx.call("Tracker()", w.make_tracker, cfg, distance, threshold, reid, factory)
        watch = w.Watch(tracker)
        rid = cfg["reid"]["max"] if cfg["reid"] else None
        ids, dead_for, life = {}, {}, {}
        for t, op in enumerate(plan["ops"]):
            w.note_frame_faults(ctx, plan["ops"], t)
            dets = [w.make_detection(d) for d in op["d"]]
            given = list(dets)
            fail = op.get("fail")
            arm.update(site=None, left=0, fired=None)
            if fail and fail[0] == "invalid":
                given.insert(min(fail[3], len(given)), INVALID[fail[2]]())
            elif fail:
                arm.update(site=fail[0], left=fail[1])
            before = {
                r.number: (r.obj.hit_counter, r.obj.age, r.obj.id, r.obj.last_detection)
                for r in watch.present
            }
            old_present = {r.number: r for r in watch.present}
            error = None
            returned = None
            try:
                kw = {"coord_transformations": Camera(t)} if plan.get("camera") else {}
                returned = tracker.update(
                    None if op.get("none") and not given else given, op["p"], **kw
                )
            except (Violation, Ambiguous):
                raise
            except Exception as e:  # pylint: disable=broad-except
                error = e
            fr = watch.observe(dets, op["p"])
            ctx.steps += 1
            ctx.simtime += op["p"]
            failed = False
            if fail and fail[0] == "invalid":
                failed = True
                ctx.fault("not_a_detection")
                ctx.check(
                    error is not None,
                    "swallowed",
                    lambda: f"frame {t}: {fail[2]} in the detection list was accepted",
                )
            elif arm["fired"] is not None:
                failed = True
                ctx.fault(arm["site"])
                if arm["site"].endswith("_nan"):
                    ctx.check(
                        isinstance(error, ValueError),
                        "nan",
                        lambda: f"frame {t}: NaN from {arm['site']} gave {error!r}",
                    )
                else:
                    ctx.check(
                        error is arm["fired"],
                        "swallowed",
                        lambda: f"frame {t}: the error raised by {arm['site']} reached the caller as {error!r}",
                    )
            elif error is not None:
                ctx.call(f"update of frame {t}", _raise, error)
            ctx.log(t, failed, sorted(before), len(fr.births), len(fr.hits), len(fr.merges))
            # --- invariants that hold whether the update failed or not
            ctx.check(
                len({id(o) for o in tracker.tracked_objects}) == len(tracker.tracked_objects),
                "duplicated",
                f"frame {t}: an object is tracked twice",
            )
            ctx.check(not fr.orphans, "orphan", lambda: f"frame {t}: an object appeared that comes from no detection of the frame")
            holders = {}
            for r in watch.present:
                holders.setdefault(id(r.obj.last_detection), []).append(r)
            for d in dets:
                n = len(holders.get(id(d), ()))
                ctx.check(
                    n == 1 or (failed and n == 0),
                    "holders",
                    lambda: f"frame {t}: detection {d.data['u']} is held by {n} objects (failed={failed})",
                )
            for rec in fr.gone:
                hc = before[rec.number][0]
                ctx.check(
                    hc < 0 and (rid is None or dead_for.get(rec.number, 0) > rid),
                    "lost",
                    lambda: f"frame {t}: {rec} was lost (counter {hc}, failed={failed})",
                )
            for rec in fr.kept:
                hc, age, oid, last = before[rec.number]
                o = rec.obj
                ctx.check(
                    o.age == age + 1,
                    "age",
                    lambda: f"frame {t}: {rec} has age {o.age} after {age} (failed={failed})",
                )
                ctx.check(
                    oid is None or o.id == oid,
                    "renumbered",
                    lambda: f"frame {t}: {rec} had id {oid}, now {o.id}",
                )
            for rec, d in fr.hits:
                ctx.check(
                    d.data["a"] == before[rec.number][3].data["a"]
                    and rec.obj.label == d.label,
                    "wrong_match",
                    lambda: f"frame {t}: {rec} took a detection of another object (failed={failed})",
                )
                ctx.check(
                    before[rec.number][0] >= 0,
                    "dead_match",
                    lambda: f"frame {t}: {rec} was dead and matched",
                )
            for old, new, d in fr.merges:
                ctx.probe("reid_merge")
                ctx.check(
                    d.data["a"] == before[old.number][3].data["a"],
                    "wrong_merge",
                    lambda: f"frame {t}: {new} was merged into {old}, a different object",
                )
            for r in watch.present:
                if r.obj.id is not None:
                    ids.setdefault(r.number, r.obj.id)
                    ctx.check(ids[r.number] == r.obj.id, "renumbered", f"frame {t}: id changed")
                dead_for[r.number] = dead_for.get(r.number, 0) + 1 if r.obj.hit_counter < 0 else 0
            ctx.check(len(set(ids.values())) == len(ids), "id_shared", f"frame {t}: id given twice")
            if failed:
                ctx.state((fail[0], fail[1], len(before), len(fr.births), len(fr.hits)))
                life = {}
            else:
                # --- a successful update works normally
                taken = {id(d): r for r, d in fr.hits}
                merged = {id(d): old for old, _, d in fr.merges}
                for d in dets:
                    cands = [
                        r
                        for n, r in old_present.items()
                        if before[n][2] is not None
                        and before[n][0] >= 0
                        and before[n][3].data["a"] == d.data["a"]
                        and r.obj.label == d.label
                    ]
                    if cands:
                        ctx.probe("redetected_within_inertia")
                        got = taken.get(id(d)) or merged.get(id(d))
                        ctx.check(
                            got in cands and got.obj in returned and got.obj.id == before[got.number][2],
                            "not_reported",
                            lambda: f"frame {t}: detection {d.data['u']} of a known object was not reported under its id",
                        )
                hit = {r.number for r, _ in fr.hits}
                nlife = {}
                for r in watch.present:
                    hc = r.obj.hit_counter
                    if r.number in life and not any(old is r for old, _, _ in fr.merges):
                        want = life[r.number] - 1
                        if r.number in hit:
                            want = min(want + 2 * op["p"], cfg["hit_max"])
                        ctx.check(
                            hc == want,
                            "counter",
                            lambda: f"frame {t}: {r} has counter {hc}, expected {want}",
                        )
                    nlife[r.number] = hc
                life = nlife


def _raise(e):
    raise e


class OrderC14(HistoryScenario):
    name = "order"
    quick = 1300
    thorough = 30000
    reid = True
    labels = True
    spurious = 0.5
    rule = (
        "The same history is given to two trackers, the second one with the detections of"
        " every frame in another generated order."
    )
    state_measure = "distinct (detections, matched, new, merged) per frame"

    def extend(self, rng, plan):
        ConservMode.extend(rng, plan)
        for op in plan["ops"]:
            perm = list(range(len(op["d"])))
            mode = rng.random()
            if mode < 0.4:
                perm.reverse()
            else:
                rng.shuffle(perm)
            op["perm"] = perm

    def simplify_op(self, op):
        for nop in w.simplify_frame_op(op):
            if len(nop["d"]) != len(op["d"]):
                # keep the relative order of what is left
                keep = [k for k, d in enumerate(op["d"]) if d in nop["d"]]
                nop = dict(nop, perm=[keep.index(k) for k in op["perm"] if k in keep])
            yield nop
        if op["perm"] != sorted(op["perm"]):
            yield dict(op, perm=sorted(op["perm"]))

    def exec(self, plan, ctx):
        sims = []
        for _ in range(2):
            sims.append(OrderSim(plan, ctx))
        for t, op in enumerate(plan["ops"]):
            w.note_frame_faults(ctx, plan["ops"], t)
            if op["perm"] != sorted(op["perm"]):
                ctx.fault("detections_reordered")
            a = sims[0].step(op, list(range(len(op["d"]))), t)
            b = sims[1].step(op, op["perm"], t)
            ctx.steps += 1
            ctx.simtime += op["p"]
            ctx.check(
                sorted(a) == sorted(b),
                "objects",
                lambda: f"frame {t}: objects (by first detection) {sorted(a)} in the original order, {sorted(b)} in the other",
            )
            for u in a:
                for what, x, y in zip(("track", "counter", "age", "label", "reported", "live points", "last distance", "initialized"), a[u][0], b[u][0]):
                    ctx.check(
                        x == y,
                        "differs",
                        lambda: f"frame {t}: {what} of the object first seen as detection {u} is {x} in the original order, {y} in the other",
                    )
                ctx.check(
                    w.close(a[u][1], b[u][1], 1e-9) and w.close(a[u][2], b[u][2], 1e-9),
                    "estimate",
                    lambda: f"frame {t}: estimate of object {u} is {a[u][1].tolist()} or {b[u][1].tolist()} depending on the order",
                )
            ids = [s.new_ids for s in sims]
            ctx.check(
                ids[0] == ids[1], "ids", lambda: f"frame {t}: ids given {ids[0]} or {ids[1]} depending on the order"
            )
            ctx.log(t, sorted((u, v[0][0]) for u, v in a.items()))
            ctx.state((len(op["d"]), len(a), len(ids[0])))


class ConservMode:
    @staticmethod
    def extend(rng, plan):
        cfg = plan["cfg"]
        plan["builtin"] = None
        if rng.random() < 0.4:
            plan["builtin"] = rng.choice(
                ["euclidean", "cityblock", "frobenius", "mean_manhattan", "mean_euclidean", "chebyshev"]
            )
            if rng.random() < 0.7:
                for op in plan["ops"]:
                    for d in op["d"]:
                        d["pts"] = [[round(v / 5 + rng.uniform(-3, 3), 5) for v in p] for p in d["pts"]]


class OrderSim:
    def __init__(self, plan, ctx):
        cfg = plan["cfg"]
        self.ctx = ctx
        table = w.Table(plan["table"])
        rtable = w.Table(
            dict(plan["table"], key=plan["table"]["key"] ^ 0x5A5A, scale=1.0, shift=0.0)
        )
        self.threshold = plan["table"]["scale"] + plan["table"].get("shift", 0.0)
        self.seen = []
        self.rseen = []

        def distance(d, o):
            v = table.between(d, o)
            self.seen.append((v, w.uid(d), w.uid(o)))
            return v

        def reid(a, b):
            v = rtable.between(a, b)
            self.rseen.append((v, w.uid(a), w.uid(b)))
            return v

        if plan["builtin"]:
            distance, self.threshold = plan["builtin"], 60.0
        self.tracker = ctx.call("Tracker()", w.make_tracker, cfg, distance, self.threshold, reid)
        self.watch = w.Watch(self.tracker)
        self.tracks = {}
        self.new_ids = []
        self.known = set()

    @staticmethod
    def ties(seen, threshold):
        seen = sorted(s for s in seen if s[0] < threshold)
        for x, y in zip(seen, seen[1:]):
            if x[0] == y[0]:
                raise Ambiguous("exact tie between distances")

    def step(self, op, perm, t):
        self.seen, self.rseen = [], []
        dets = [w.make_detection(op["d"][k]) for k in perm]
        returned = self.ctx.call(f"update of frame {t}", self.tracker.update, dets, op["p"])
        self.ties(self.seen, self.threshold)
        self.ties(self.rseen, 1.0)
        fr = self.watch.observe(dets, op["p"])
        for rec, d in fr.births + fr.hits + [(old, d) for old, _, d in fr.merges]:
            self.tracks.setdefault(rec.birth.data["u"], []).append(d.data["u"])
        if fr.merges:
            self.ctx.probe("reid_merge")
        out = {}
        new = []
        for r in self.watch.present:
            o = r.obj
            u = r.birth.data["u"]
            if o.id is not None and u not in self.known:
                self.known.add(u)
                new.append(o.id)
            out[u] = (
                (
                    list(self.tracks[u]),
                    o.hit_counter,
                    o.age,
                    repr(o.label),
                    any(x is o for x in returned),
                    [bool(v) for v in o.live_points],
                    None if o.last_distance is None else round(float(o.last_distance), 5),
                    o.id is not None,
                ),
                o.estimate,
                o.estimate_velocity,
            )
        self.new_ids = sorted(new)
        return out


SCENARIOS = {"C05": MatchC05, "C07": ReidC07, "C08": FailureC08, "C14": OrderC14}
_ = Scenario

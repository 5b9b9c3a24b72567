"""C31 coordinates, C32 independent groups, C33 forms of a distance: twin trackers."""
import math

import numpy as np
from scipy.spatial.distance import cdist

from . import world as w
from .core import Ambiguous
from .s_life import REAL, HistoryScenario, Shift

import norfair
from norfair import distances as nd

STATE = ("track", "counter", "age", "label", "reported", "live points", "initialized")


class Recording(nd.Distance):
    """Passes on a Distance and keeps the matrices it returned."""

    def __init__(self, inner, out):
        self.inner = inner
        self.out = out

    def get_distances(self, objects, candidates):
        got = self.inner.get_distances(objects, candidates)
        self.out.append((np.array(got, dtype=float), [w.uid(c) for c in candidates], [w.uid(o) for o in objects]))
        return got


def decisions(out, threshold, rel=1e-4):
    """Raises Ambiguous if a decision of the update hangs on a tiny difference."""
    for mat, _, _ in out:
        flat = np.sort(mat[np.isfinite(mat)])
        if flat.size and (np.abs(flat - threshold) <= rel * (1 + abs(threshold))).any():
            raise Ambiguous("distance at the threshold")
        below = flat[flat < threshold]
        if below.size > 1 and (np.diff(below) <= rel * (1 + np.abs(below[1:]))).any():
            raise Ambiguous("tie")
    out.clear()


def gen_camera(rng, plan, step):
    """A camera that wanders by fractions of a pixel, in a part of the runs."""
    if rng.random() < 0.35:
        dim = plan["cfg"]["dim"]
        at = [0.0] * dim
        for op in plan["ops"]:
            at = [round(v + rng.uniform(-step, step), 3) for v in at]
            op["cam"] = [at, rng.choice([1.0, 1.0, 1.0, 1.001])]


def camera(op):
    return {"coord_transformations": Shift(*op["cam"])} if op.get("cam") else {}


class Twin:
    """One of the trackers that are compared; objects are known by their first detection."""

    def __init__(self, ctx, tracker, name):
        self.ctx, self.tracker, self.name = ctx, tracker, name
        self.watch = w.Watch(tracker)
        self.tracks = {}
        self.ids = {}

    def step(self, dets, op, t, **kw):
        none = op.get("none") and not dets
        if kw:
            self.ctx.fault("camera_motion")
        returned = self.ctx.call(
            f"update of frame {t} ({self.name})", self.tracker.update,
            None if none else dets, op["p"], **kw
        )
        return self.state(dets, op, returned)

    def state(self, dets, op, returned):
        fr = self.watch.observe(dets, op["p"])
        for rec, d in fr.births + fr.hits + [(old, d) for old, _, d in fr.merges]:
            self.tracks.setdefault(rec.birth.data["u"], []).append(d.data["u"])
        if fr.merges:
            self.ctx.probe("reid_merge", len(fr.merges))
        out = {}
        for r in self.watch.present:
            o = r.obj
            u = r.birth.data["u"]
            if o.id is not None:
                self.ids.setdefault(u, o.id)
            out[u] = (
                (
                    list(self.tracks[u]),
                    o.hit_counter,
                    o.age,
                    repr(o.label),
                    any(x is o for x in returned),
                    [bool(v) for v in o.live_points],
                    o.id is not None,
                ),
                np.array(o.estimate, dtype=float),
                np.array(o.estimate_velocity, dtype=float),
                None if o.last_distance is None else float(o.last_distance),
                o.id,
            )
        return out


def same_objects(ctx, t, a, b, what):
    ctx.check(
        sorted(a) == sorted(b),
        "objects",
        lambda: f"frame {t}: objects (by first detection) {sorted(a)}, {what} {sorted(b)}",
    )
    for u in a:
        for name, x, y in zip(STATE, a[u][0], b[u][0]):
            ctx.check(
                x == y,
                "differs",
                lambda: f"frame {t}: {name} of the object first seen as detection {u} is {x}, {what} {y}",
            )


# ------------------------------------------------------------------ C31
METRICS = ["euclidean", "frobenius", "cityblock", "chebyshev", "sqeuclidean", "mean_manhattan", "mean_euclidean"]


class CoordinatesC31(HistoryScenario):
    name = "coordinates"
    quick = 1300
    thorough = 30000
    reid = True
    labels = True
    dims = (2, 2, 3)
    spurious = 0.3
    rule = (
        "A generated history (dropouts, gaps, ReID, periods) is given to a tracker with a"
        " built-in distance, and in other coordinates to a second one: shifted, scaled,"
        " mirrored, with exchanged axes, with the points in another order, or several of"
        " these; part of the histories has objects at and around the origin."
    )
    state_measure = "distinct (change of coordinates, distance, objects, matched) per frame"
    assumptions = ("runs whose decisions depend on relative differences below 1e-4 are stopped there",)

    def extend(self, rng, plan):
        cfg = plan["cfg"]
        # motion and spacing on the scale of the threshold, so that objects compete
        scale = rng.choice([1.0, 0.2, 0.05])
        for op in plan["ops"]:
            for d in op["d"]:
                d["pts"] = [[round(v * scale + rng.uniform(-2, 2), 5) for v in p] for p in d["pts"]]
                if rng.random() < 0.05:
                    d["pts"][rng.randrange(len(d["pts"]))] = [0.0] * cfg["dim"]
        n, dim = cfg["n_points"], cfg["dim"]
        kinds = rng.sample(["shift", "scale", "mirror", "axes", "points"], rng.choice([1, 1, 2, 5]))
        boxes = n == 2 and dim == 2 and rng.random() < 0.3
        if boxes:
            kinds = [k for k in kinds if k in ("shift", "scale")] or ["shift"]
            for op in plan["ops"]:
                for d in op["d"]:
                    x, y = d["pts"][0]
                    d["pts"][1] = [round(x + 30 + rng.uniform(0, 4), 5), round(y + 22 + rng.uniform(0, 4), 5)]
                    d.pop("sc", None)
        t = {"s": 1.0, "off": [0.0] * dim, "sign": [1.0] * dim, "axes": list(range(dim)), "perm": list(range(n))}
        if "shift" in kinds:
            t["off"] = [rng.choice([0.0, 1000.0, -350.5, 12345.0, rng.uniform(-9, 9)]) for _ in range(dim)]
        if "scale" in kinds:
            t["s"] = rng.choice([0.5, 2.0, 10.0, 0.125, 1 / 1280])
        if "mirror" in kinds:
            t["sign"] = [rng.choice([1.0, -1.0]) for _ in range(dim)]
        if "axes" in kinds:
            rng.shuffle(t["axes"])
        if "points" in kinds:
            rng.shuffle(t["perm"])
        plan["map"] = t
        plan["metric"] = "iou" if boxes else rng.choice(METRICS)
        plan["thr"] = 0.8 if boxes else rng.choice([10.0, 40.0])
        plan["kinds"] = kinds
        gen_camera(rng, plan, 2.0)

    def simplify_plan(self, plan):
        yield from super().simplify_plan(plan)
        if any(op.get("cam") for op in plan["ops"]):
            yield dict(plan, ops=[{k: v for k, v in op.items() if k != "cam"} for op in plan["ops"]])
        t = plan["map"]
        for key, val in (
            ("s", 1.0), ("off", [0.0] * len(t["off"])), ("sign", [1.0] * len(t["sign"])),
            ("axes", sorted(t["axes"])), ("perm", sorted(t["perm"])),
        ):
            if t[key] != val:
                yield dict(plan, map=dict(t, **{key: val}))

    def exec(self, plan, ctx):
        cfg, m = plan["cfg"], plan["map"]
        sign, off, s = np.array(m["sign"]), np.array(m["off"]), m["s"]
        perm, axes = m["perm"], m["axes"]

        def there(pts, shift=True):
            out = np.asarray(pts, dtype=float)[perm][:, axes] * sign * s
            return out + off if shift else out

        factor = 1.0 if plan["metric"] == "iou" else s * s if plan["metric"] == "sqeuclidean" else s
        thr = plan["thr"] ** (2 if plan["metric"] == "sqeuclidean" else 1)
        rtable = w.Table(dict(plan["table"], key=plan["table"]["key"] ^ 0x5A5A, scale=1.0, shift=0.0))
        seen = []
        sims = []
        for k in range(2):
            tracker = ctx.call(
                "Tracker()", w.make_tracker, cfg, plan["metric"], thr * (factor if k else 1.0), rtable.between
            )
            if k == 0:
                tracker.distance_function = Recording(tracker.distance_function, seen)
                # note the distances of both for exact ties
            sims.append(Twin(ctx, tracker, "original" if k == 0 else "changed coordinates"))
        for t, op in enumerate(plan["ops"]):
            w.note_frame_faults(ctx, plan["ops"], t)
            for kind in plan["kinds"]:
                ctx.probe("coordinates_" + kind)
            kw, kw2 = camera(op), {}
            if kw:
                at, zoom = np.array(op["cam"][0]), op["cam"][1]
                kw2 = camera({"cam": [at[axes] * sign * s + off * (1 - 1 / zoom), zoom]})
            a = sims[0].step([w.make_detection(d) for d in op["d"]], op, t, **kw)
            decisions(seen, thr)
            moved = []
            for d in op["d"]:
                nd_ = dict(d, pts=there(d["pts"]).tolist())
                if d.get("sc") is not None:
                    nd_["sc"] = [d["sc"][i] for i in perm]
                moved.append(w.make_detection(nd_))
            b = sims[1].step(moved, op, t, **kw2)
            ctx.steps += 1
            ctx.simtime += op["p"]
            for u, (st, est, vel, last, oid) in b.items():
                live = [None] * len(perm)
                for i, p in enumerate(perm):
                    live[p] = st[5][i]
                b[u] = (st[:5] + (live,) + st[6:], est, vel, last, oid)
            same_objects(ctx, t, a, b, "in the other coordinates")
            for u in a:
                ctx.check(
                    a[u][4] == b[u][4],
                    "ids",
                    lambda: f"frame {t}: object {u} has id {a[u][4]}, in the other coordinates {b[u][4]}",
                )
                want, wvel = there(a[u][1]), there(a[u][2], shift=False)
                size = 1e-7 * (np.abs(want).max() + np.abs(off).max() + s)
                ctx.check(
                    np.abs(b[u][1] - want).max() <= size and np.abs(b[u][2] - wvel).max() <= size,
                    "estimate",
                    lambda: f"frame {t}: object {u} is estimated at {b[u][1].tolist()} moving by {b[u][2].tolist()}"
                    f" in the other coordinates, which should be {want.tolist()}, {wvel.tolist()}",
                )
                x, y = a[u][3], b[u][3]
                ctx.check(
                    (x is None) == (y is None)
                    and (x is None or math.isclose(x * factor, y, rel_tol=1e-3, abs_tol=1e-3 * (1 + thr) * factor)),
                    "distance",
                    lambda: f"frame {t}: last distance of object {u} is {x}, in the other coordinates {y}",
                )
            ctx.log(t, sorted((u, v[4]) for u, v in a.items()))
            ctx.state((tuple(sorted(plan["kinds"])), plan["metric"], len(op["d"]), len(a)))


# ------------------------------------------------------------------ C32
class GroupsC32(HistoryScenario):
    name = "independent_groups"
    quick = 1200
    thorough = 30000
    spurious = 0.3
    rule = (
        "Two or three histories whose detections can never match each other (different"
        " labels, or distances and ReID distances at or above the thresholds) are given to"
        " one tracker, interleaved within the frames, and each of them to a tracker of its"
        " own; objects of the groups die, return and are revived at different times."
    )
    state_measure = "distinct (how groups are separated, objects and matches per group) per frame"

    def gen(self, rng, tier):
        reid = rng.random() < 0.5
        cfg = w.gen_cfg(rng, reid=reid)
        n = rng.choice([2, 2, 3])
        frames = rng.choice([10, 25, 45])
        periods = w.gen_periods(rng, frames)
        mode = rng.choice(["labels", "labels", "distance"])
        pool = [None, ["i", 1], ["s", "1"], ["s", "car"], ["t", [["s", "a"]]], ["i", 0], ["o", "x"], ["s", "None"]]
        if rng.random() < 0.3:
            pool = w.distinct(rng.choice(w.CONFUSABLE))
        n = min(n, len(pool))
        pool = rng.sample(pool, n)
        crowd = rng.random() < 0.02
        if crowd:
            frames = 6
        gens = [
            w.HistoryGen(
                rng, cfg, rng.choice([15, 25, 35] if crowd else [1, 2, 3]), [pool[g]] if mode == "labels" else None
            )
            for g in range(n)
        ]
        ops = []
        for t in range(frames):
            parts = []
            for g, gen in enumerate(gens):
                op = gen.frame(periods[t], 0.3, rng.choice([0, 0.2]))
                for d in op["d"]:
                    d["u"] = d["u"] * 10 + g
                    if d["a"] is not None:
                        d["a"] = d["a"] * 10 + g
                    d["g"] = g
                    parts.append(d)
            rng.shuffle(parts)
            ops.append({"p": periods[t], "d": parts})
        table = w.gen_table(rng, clean=rng.random() < 0.4)
        table["cross"] = max(table.get("cross", 0), rng.choice([0, 0.3]))
        metric = None
        if mode == "labels":
            metric = rng.choice([None, None, "euclidean", "mean_euclidean", "chebyshev", "frobenius"])
            if metric and rng.random() < 0.7:
                for op in ops:
                    for d in op["d"]:
                        d["pts"] = [[round(v / 8, 5) for v in p] for p in d["pts"]]
        plan = {"cfg": cfg, "ops": ops, "table": table, "mode": mode, "n": n, "metric": metric}
        gen_camera(rng, plan, 2.0)
        return plan

    def exec(self, plan, ctx):
        cfg = plan["cfg"]
        table = w.Table(plan["table"])
        rtable = w.Table(dict(plan["table"], key=plan["table"]["key"] ^ 0x5A5A, scale=1.0, shift=0.0))
        threshold = plan["table"]["scale"] + plan["table"].get("shift", 0.0)
        group = lambda x: w.uid(x) % 10

        def between(tab, thr, a, b):
            if plan["mode"] == "distance" and group(a) != group(b):
                return [thr, thr + 1, max(1e9, thr * 3), float("inf")][(w.uid(a) + w.uid(b)) % 4]
            return tab.between(a, b)

        def distance(d, o):
            return between(table, threshold, d, o)

        def reid(a, b):
            return between(rtable, 1.0, a, b)

        metric = plan["metric"] or distance
        thr = 25.0 if plan["metric"] else threshold
        seen = []

        def make(name):
            tracker = ctx.call("Tracker()", w.make_tracker, cfg, metric, thr, reid)
            tracker.distance_function = Recording(tracker.distance_function, seen)
            if cfg["reid"]:
                tracker.reid_distance_function = Recording(tracker.reid_distance_function, rseen)
            return Twin(ctx, tracker, name)

        rseen = []
        whole = make("all together")
        alone = [make(f"group {g} alone") for g in range(plan["n"])]
        names = [{} for _ in alone]
        for t, op in enumerate(plan["ops"]):
            w.note_frame_faults(ctx, plan["ops"], t)
            parts = [[d for d in op["d"] if d["g"] == g] for g in range(plan["n"])]
            if any(parts) and not all(parts):
                ctx.fault("group_without_detections")
            b = {}
            new = []
            for g, part in enumerate(parts):
                got = alone[g].step([w.make_detection(d) for d in part], op, t, **camera(op))
                ties(seen, thr)
                ties(rseen, 1.0)
                b.update(got)
                new.append(len(alone[g].ids))
            a = whole.step([w.make_detection(d) for d in op["d"]], op, t, **camera(op))
            seen.clear()
            rseen.clear()
            ctx.steps += 1
            ctx.simtime += op["p"]
            same_objects(ctx, t, a, b, "each group by itself")
            for u in a:
                ctx.check(
                    w.close(a[u][1], b[u][1], 1e-12) and w.close(a[u][2], b[u][2], 1e-12) and a[u][3] == b[u][3],
                    "estimate",
                    lambda: f"frame {t}: object {u} is at {a[u][1].tolist()} with last distance {a[u][3]}, its group"
                    f" by itself has {b[u][1].tolist()}, {b[u][3]}",
                )
                # the ids of a group are those of its own tracker, renamed
                if a[u][4] is not None:
                    name = names[u % 10].setdefault(b[u][4], a[u][4])
                    ctx.check(
                        name == a[u][4],
                        "ids",
                        lambda: f"frame {t}: id {b[u][4]} of group {u % 10} is id {name} and {a[u][4]} among all",
                    )
            ctx.check(
                whole.tracker.total_object_count == sum(s.tracker.total_object_count for s in alone),
                "count",
                lambda: f"frame {t}: {whole.tracker.total_object_count} objects in total,"
                f" {[s.tracker.total_object_count for s in alone]} in the groups",
            )
            ctx.log(t, sorted(a))
            ctx.state((plan["mode"], tuple(len(p) for p in parts), tuple(new)))


def ties(out, threshold):
    for mat, _, _ in out:
        flat = np.sort(mat[np.isfinite(mat) & (mat < threshold)])
        if flat.size > 1 and (np.diff(flat) == 0).any():
            raise Ambiguous("exact tie")
    out.clear()


# ------------------------------------------------------------------ C33
SMALL_INTS = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "uint64")


class Box(norfair.Detection):
    """What an application may derive to keep more with its detections."""

    __slots__ = ()


class FormsC33(HistoryScenario):
    name = "distance_forms"
    quick = 1100
    thorough = 30000
    labels = True
    reid = False
    spurious = 0.4
    rule = (
        "The same history is given to trackers whose distance is supplied by name, as a"
        " function of detection and object, as ScalarDistance, as VectorizedDistance and as"
        " ScipyDistance, with the points as floats or integers, contiguous or strided, and"
        " single points as flat arrays, detections of a class derived from Detection; labels of mixed types (nan too), frames without"
        " detections."
    )
    state_measure = "distinct (metric, forms, points, objects, matched) per frame"
    assumptions = ("runs whose decisions depend on relative differences below 1e-4 are stopped there",)

    def extend(self, rng, plan):
        cfg = plan["cfg"]
        scale = rng.choice([1.0, 0.2, 0.1])
        for op in plan["ops"]:
            for d in op["d"]:
                # representable exactly in every format
                d["pts"] = [[float(round(v * scale)) for v in p] for p in d["pts"]]
        if any(d.get("l") is None for op in plan["ops"] for d in op["d"]) and rng.random() < 0.5:
            for op in plan["ops"]:
                for d in op["d"]:
                    d.setdefault("l", ["s", "x"])
        if rng.random() < 0.1:
            # missing labels, as pandas marks them
            for op in plan["ops"]:
                for d in op["d"]:
                    if rng.random() < 0.4:
                        d["l"] = ["nan", 0]
        plan["metric"] = rng.choice(
            ["euclidean", "cityblock", "chebyshev", "sqeuclidean", "mean_euclidean", "mean_manhattan", "frobenius"]
        )
        if cfg["n_points"] == 2 and cfg["dim"] == 2 and rng.random() < 0.4:
            plan["metric"] = "iou"
            size = rng.choice([(31.0, 24.0), (31.0, 24.0), (220.0, 300.0)])
            for op in plan["ops"]:
                for d in op["d"]:
                    x, y = d["pts"][0]
                    d["pts"][1] = [x + size[0], y + size[1]]
                    d.pop("sc", None)
        plan["thr"] = {"iou": 0.7, "sqeuclidean": 900.0}.get(plan["metric"], 30.0)
        forms = ["scalar", "ScalarDistance", "Vectorized"]
        if plan["metric"] not in ("iou", "mean_euclidean", "mean_manhattan", "frobenius"):
            forms.append("Scipy")
        plan["forms"] = rng.sample(forms, rng.choice([1, 2, len(forms)]))
        gen_camera(rng, plan, 2.0)
        layouts = ["float", "int", "strided", "float32", "fortran", "flat", "readonly", "bigendian", "derived"]
        flat = [v for op in plan["ops"] for d in op["d"] for p in d["pts"] for v in p] or [0]
        for dtype in SMALL_INTS:
            info = np.iinfo(dtype)
            if info.min <= min(flat) and max(flat) <= info.max:
                layouts.append(dtype)
        if max(map(abs, flat)) <= 2048:
            layouts.append("float16")
        plan["layout"] = rng.choice(layouts)

    @staticmethod
    def scalar(metric):
        if metric == "iou":
            def fn(d, o):
                (ax0, ay0), (ax1, ay1) = d.points.astype(float)
                (bx0, by0), (bx1, by1) = o.estimate
                iw = max(0.0, min(ax1, bx1) - max(ax0, bx0))
                ih = max(0.0, min(ay1, by1) - max(ay0, by0))
                union = (ax1 - ax0) * (ay1 - ay0) + (bx1 - bx0) * (by1 - by0) - iw * ih
                return 1 - iw * ih / union
            return fn
        return {
            "euclidean": lambda d, o: float(np.sqrt(((d.points - o.estimate) ** 2).sum())),
            "cityblock": lambda d, o: float(np.abs(d.points - o.estimate).sum()),
            "chebyshev": lambda d, o: float(np.abs(d.points - o.estimate).max()),
            "sqeuclidean": lambda d, o: float(((d.points - o.estimate) ** 2).sum()),
            "mean_euclidean": lambda d, o: float(np.sqrt(((d.points - o.estimate) ** 2).sum(axis=1)).mean()),
            "mean_manhattan": lambda d, o: float(np.abs(d.points - o.estimate).sum(axis=1).mean()),
            "frobenius": lambda d, o: float(np.sqrt(((d.points - o.estimate) ** 2).sum())),
        }[metric]

    @staticmethod
    def vectorized(metric, n, dim):
        if metric == "iou":
            def fn(c, o):
                lo = np.maximum(c[:, None, :2], o[None, :, :2])
                hi = np.minimum(c[:, None, 2:], o[None, :, 2:])
                inter = np.clip(hi - lo, 0, None).prod(axis=2)
                c = c.astype(float)
                area = lambda b: (b[:, 2] - b[:, 0]) * (b[:, 3] - b[:, 1])
                return 1 - inter / (area(c)[:, None] + area(o)[None] - inter)
            return fn
        if metric == "mean_euclidean":
            return lambda c, o: np.sqrt(
                ((c[:, None] - o[None]).reshape(len(c), len(o), n, dim) ** 2).sum(axis=3)
            ).mean(axis=2)
        if metric == "mean_manhattan":
            return lambda c, o: cdist(c, o, metric="cityblock") / n
        return lambda c, o: cdist(c, o, metric="euclidean" if metric == "frobenius" else metric)

    @staticmethod
    def layout(spec, how):
        det = w.make_detection(spec)
        pts = det.points
        if how == "int":
            pts = pts.astype(int)
        elif how in SMALL_INTS + ("float16", "float32"):
            pts = pts.astype(how)
        elif how == "bigendian":
            pts = pts.astype(">f8")
        elif how == "readonly":
            pts.setflags(write=False)
        elif how == "fortran":
            pts = np.asfortranarray(pts)
        elif how == "strided":
            big = np.full((2 * len(pts) + 1, 2 * pts.shape[1] + 1), 7e5)
            big[1::2, 1::2] = pts
            pts = big[1::2, 1::2]
        elif how == "flat" and len(pts) == 1:
            pts = pts.reshape(-1)
        sc = None if det.scores is None else det.scores
        kind = Box if how == "derived" else norfair.Detection
        return kind(points=pts, scores=sc, data=det.data, label=det.label)

    def exec(self, plan, ctx):
        cfg, metric, thr = plan["cfg"], plan["metric"], plan["thr"]
        seen = []
        sims = []
        for form in ["named", "the same name"] + plan["forms"]:
            arg = metric
            if form == "scalar":
                arg = self.scalar(metric)
            tracker = ctx.call("Tracker()", w.make_tracker, cfg, arg, thr)
            if form == "ScalarDistance":
                tracker.distance_function = nd.ScalarDistance(self.scalar(metric))
            elif form == "Vectorized":
                tracker.distance_function = nd.VectorizedDistance(
                    self.vectorized(metric, cfg["n_points"], cfg["dim"])
                )
            elif form == "Scipy":
                tracker.distance_function = nd.ScipyDistance(metric)
            elif form == "named":
                tracker.distance_function = Recording(tracker.distance_function, seen)
            sims.append((form, Twin(ctx, tracker, form)))
        for t, op in enumerate(plan["ops"]):
            w.note_frame_faults(ctx, plan["ops"], t)
            base = None
            for form, sim in sims:
                if form == "named":
                    dets = [w.make_detection(d) for d in op["d"]]
                else:
                    dets = [self.layout(d, plan["layout"]) for d in op["d"]]
                    ctx.probe(f"{form}_{plan['layout']}")
                got = sim.step(dets, op, t, **camera(op))
                if base is None:
                    base = got
                    decisions(seen, thr)
                    continue
                same_objects(ctx, t, base, got, f"with {form} ({plan['layout']} points)")
                for u in base:
                    ctx.check(
                        w.close(base[u][1], got[u][1], 1e-9) and w.close(base[u][2], got[u][2], 1e-9),
                        "estimate",
                        lambda: f"frame {t}: object {u} is at {base[u][1].tolist()}, with {form}"
                        f" ({plan['layout']} points) at {got[u][1].tolist()}",
                    )
                    x, y = base[u][3], got[u][3]
                    ctx.check(
                        base[u][4] == got[u][4]
                        and (x is None) == (y is None)
                        and (x is None or math.isclose(x, y, rel_tol=1e-4, abs_tol=1e-4)),
                        "ids",
                        lambda: f"frame {t}: object {u} has id {base[u][4]} and last distance {x}, with {form}"
                        f" {got[u][4]}, {y}",
                    )
            ctx.steps += 1
            ctx.simtime += op["p"]
            ctx.log(t, sorted((u, v[4]) for u, v in base.items()))
            ctx.state((metric, tuple(sorted(plan["forms"])), plan["layout"], len(op["d"]), len(base)))


SCENARIOS = {"C31": CoordinatesC31, "C32": GroupsC32, "C33": FormsC33}
_ = REAL

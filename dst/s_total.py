"""C38: no valid history makes a tracker fail or lose the shape of its objects."""
import numpy as np

import norfair
from norfair import Detection
from norfair.camera_motion import HomographyTransformation, TranslationTransformation
from norfair.distances import create_keypoints_voting_distance, create_normalized_mean_euclidean_distance

from .core import Scenario
from .world import gen_filter, make_filter, make_label, simplify_frame_op

SPACING = 70
# name -> threshold in units of length, or fixed
LENGTHS = {
    "mean_euclidean": 20,
    "mean_manhattan": 25,
    "frobenius": 40,
    "euclidean": 30,
    "cityblock": 30,
    "chebyshev": 15,
    "minkowski": 30,
}
FIXED = {"iou": 0.9, "iou_opt": 0.9, "canberra": 0.01, "voting": 0.6, "normalized": 0.02}
FORMS = ("plain", "float32", "int", "small", "fortran", "strided", "readonly", "flat", "big_endian")


def gap_of_estimates(new, old):
    return float(np.abs(np.asarray(new.estimate) - np.asarray(old.estimate)).max())


class TotalC38(Scenario):
    name = "any_history"
    quick = 1800
    thorough = 40000
    list_keys = ("ops",)
    rule = (
        "A tracker with any predefined distance, any filter and 1-4 labels, each with its own"
        " number of points and dimensions, follows 1-9 objects at rest over 4-60 frames"
        " (sometimes 1200) in coordinates from thousandths to millions, given as arrays of any"
        " type and layout; with missed and empty frames, a stalled detector that repeats its"
        " last detections, changing periods up to 1000, unreliable and missing scores, empty"
        " boxes, and a moving camera."
    )
    time_unit = "frames"
    state_measure = "distinct (label, object ids, live points) sets per frame"
    real = ("norfair.Tracker", "norfair.distances", "norfair.filter", "norfair.camera_motion transformations")
    stub = ("detector",)

    def gen(self, rng, tier):
        kind = rng.choice(sorted(LENGTHS) + sorted(FIXED))
        boxes = kind in ("iou", "iou_opt")
        camera = kind != "canberra" and rng.random() < 0.3
        hit_max = rng.choice([1, 2, 4, 15])
        delay = rng.choice([None, 0, 0, 1, 2])
        labels = rng.sample([None, ["s", "a"], ["i", 0], ["s", ""], ["b", 1], ["t", [["s", "x"], ["i", 2]]]], rng.choice([1, 1, 2, 3, 4]))
        shapes = [
            [2, 2]
            if boxes
            else [rng.choice([1, 1, 2, 3, 17]), 2 if camera or kind == "normalized" else rng.choice([2, 2, 3])]
            for _ in labels
        ]
        cfg = {
            "distance": kind,
            "hit_max": hit_max,
            "delay": delay if delay is None else min(delay, hit_max - 1),
            "pw_max": rng.choice([0, 1, 4]),
            "det_thr": rng.choice([0, 0.3]),
            "past_len": rng.choice([0, 1, 4]),
            "filter": gen_filter(rng),
            "scale": rng.choice([1, 1, 1, 1024, 2.0**-10, 2.0**17]),
            "reid": rng.choice([None, None, None, rng.choice([0, 1, 3, 10])]),
        }
        actors = []
        for l, (n, dim) in enumerate(shapes):
            cells = rng.sample(range(9), rng.choice([1, 1, 2, 3]))
            for cell in cells:
                at = [1 + (cell % 3) * SPACING, 1 + (cell // 3) * SPACING, 5][:dim]
                shape = [[rng.randint(0, 12) for _ in range(dim)] for _ in range(n)]
                if boxes:
                    size = [rng.randint(6, 12), rng.randint(6, 12)]
                    if rng.random() < 0.15:
                        size[rng.randrange(2)] = 0
                    if rng.random() < 0.05:
                        size = [0, 0]
                    shape = [[0, 0], size]
                actors.append({"l": l, "pts": [[a + b for a, b in zip(at, p)] for p in shape]})
        n = rng.choice([4, 8, 15, 30, 60])
        if rng.random() < 0.01:
            n = 1200
        ops = []
        seen = [rng.choice([0.4, 0.8, 1.0]) for _ in actors]
        period = 1
        uid = 0
        for _ in range(n):
            if rng.random() < 0.1:
                period = rng.choice([1, 1, 2, 5, 30, 1000])
            dets = []
            for a, actor in enumerate(actors):
                if rng.random() > seen[a]:
                    continue
                d = {"u": uid, "a": a, "f": rng.choice(FORMS)}
                uid += 1
                if kind == "voting":
                    d["sc"] = [rng.choice([0.5, 1.0]) for _ in actor["pts"]]
                elif rng.random() < 0.5:
                    d["sc"] = [rng.choice([0, 0.2, 0.31, 1, 1]) for _ in actor["pts"]]
                dets.append(d)
            rng.shuffle(dets)
            op = {"p": period, "d": dets}
            r = rng.random()
            if r < 0.08:
                op = {"p": period, "d": [], "none": rng.choice([True, False])}
            elif r < 0.16 and ops:
                op = {"p": period, "d": [], "again": True}
            if camera and rng.random() < 0.7:
                op["cam"] = [rng.choice(["t", "t", "h"]), rng.randint(-300, 300), rng.randint(-300, 300)]
            ops.append(op)
        return {"cfg": cfg, "labels": labels, "actors": actors, "ops": ops, "camera": camera}

    def simplify_op(self, op):
        yield from simplify_frame_op(op)
        for k, d in enumerate(op["d"]):
            if d["f"] != "plain":
                yield dict(op, d=op["d"][:k] + [dict(d, f="plain")] + op["d"][k + 1 :])

    @staticmethod
    def points(spec, form):
        """The same coordinates, as arrays of different types and layouts."""
        pts = np.array(spec, dtype=float)
        whole = bool((pts == np.round(pts)).all())
        if form == "float32" and (pts.astype(np.float32) == pts).all():
            return pts.astype(np.float32)
        if form == "int" and whole and np.abs(pts).max() < 2**31:
            return pts.astype(np.int32)
        if form == "small" and whole and pts.min() >= 0 and pts.max() < 256:
            return pts.astype(np.uint8)
        if form == "fortran":
            return np.asfortranarray(pts)
        if form == "strided":
            wide = np.full((2 * pts.shape[0], pts.shape[1] + 1), -7.0)
            wide[::2, :-1] = pts
            return wide[::2, :-1]
        if form == "readonly":
            pts.flags.writeable = False
            return pts
        if form == "flat" and len(pts) == 1:
            return pts[0]
        if form == "big_endian":
            return pts.astype(">f8")
        return pts

    @staticmethod
    def tracker(cfg):
        kind, scale = cfg["distance"], cfg["scale"]
        distance = kind
        if kind == "voting":
            distance = create_keypoints_voting_distance(15 * scale, 0.3)
        elif kind == "normalized":
            distance = create_normalized_mean_euclidean_distance(1000 * scale, 1000 * scale)
        kw = {}
        if cfg["reid"] is not None:
            kw = {
                "reid_distance_function": gap_of_estimates,
                "reid_distance_threshold": 15 * scale,
                "reid_hit_counter_max": cfg["reid"],
            }
        return norfair.Tracker(
            distance_function=distance,
            distance_threshold=LENGTHS[kind] * scale if kind in LENGTHS else FIXED[kind],
            hit_counter_max=cfg["hit_max"],
            initialization_delay=cfg["delay"],
            pointwise_hit_counter_max=cfg["pw_max"],
            detection_threshold=cfg["det_thr"],
            past_detections_length=cfg["past_len"],
            filter_factory=make_filter(cfg["filter"]),
            **kw,
        )

    def exec(self, plan, ctx):
        cfg, scale = plan["cfg"], plan["cfg"]["scale"]
        tracker = ctx.call("Tracker()", self.tracker, cfg)
        labels = [None if l is None else make_label(l) for l in plan["labels"]]
        actors = plan["actors"]
        rows = [np.array(a["pts"], dtype=float) for a in actors]
        empty = [cfg["distance"].startswith("iou") and (r[1] - r[0]).min() == 0 for r in rows]
        delay = int(cfg["hit_max"] / 2) if cfg["delay"] is None else cfg["delay"]
        streak = [0] * len(actors)
        previous = []
        cam = (0, 0)
        for t, op in enumerate(plan["ops"]):
            transformation = None
            if "cam" in op:
                cam = tuple(op["cam"][1:])
                ctx.fault("camera_move")
            move = np.array(cam) * scale
            if plan["camera"]:
                if "cam" in op and op["cam"][0] == "h":
                    transformation = HomographyTransformation(
                        np.array([[1.0, 0, move[0]], [0, 1, move[1]], [0, 0, 1]])
                    )
                else:
                    transformation = TranslationTransformation(move.astype(float))
            if op.get("again"):
                ctx.fault("stalled_detector")
                dets = previous
            else:
                dets = []
                for d in op["d"]:
                    pts = rows[d["a"]] * scale
                    if plan["camera"]:
                        pts = pts + move
                    pts = self.points(pts, d["f"])
                    scores = None if d.get("sc") is None else np.array(d["sc"])
                    if scores is not None and scores.min() <= cfg["det_thr"]:
                        ctx.fault("point_dropout")
                    dets.append(
                        ctx.call(
                            "Detection()", Detection, pts, scores, {"a": d["a"]}, labels[actors[d["a"]]["l"]]
                        )
                    )
            if plan["camera"] and op.get("again"):
                # what a stalled detector repeats was seen from another place
                dets = [] if "cam" in op else dets
            previous = dets
            if not dets:
                ctx.fault("frame_without_detections")
            if op["p"] > 1:
                ctx.fault("frames_skipped")
            arg = None if op.get("none") else dets
            shown = ctx.call(
                f"update of frame {t}",
                tracker.update,
                detections=arg,
                period=op["p"],
                coord_transformations=transformation,
            )
            ctx.steps += 1
            ctx.simtime += op["p"]
            seen = {d.data["a"] for d in dets}
            for a in range(len(actors)):
                streak[a] = streak[a] + 1 if a in seen else 0
            self.judge(plan, ctx, t, tracker, shown, labels, rows, move if plan["camera"] else 0)
            owners = [o.last_detection.data["a"] for o in shown]
            for a, n in enumerate(streak):
                if n > delay and not empty[a] and cfg["reid"] is None:
                    ctx.check(
                        owners.count(a) == 1,
                        "lost",
                        lambda: f"frame {t}: object {a} has been detected in the last {n} frames, which is more"
                        f" than the delay of {delay}, but {owners.count(a)} objects follow it",
                    )
                    ctx.probe("followed")

    def judge(self, plan, ctx, t, tracker, shown, labels, rows, move):
        cfg, scale = plan["cfg"], plan["cfg"]["scale"]
        for o in shown:
            a = o.last_detection.data["a"]
            label = labels[plan["actors"][a]["l"]]
            est = np.asarray(o.estimate)
            want = rows[a] * scale + move
            ctx.check(
                est.shape == want.shape and np.asarray(o.live_points).shape == (len(want),),
                "shape",
                lambda: f"frame {t}: object {o.id} has an estimate of shape {est.shape} and live points of shape"
                f" {np.shape(o.live_points)}, its detections have {want.shape}",
            )
            ctx.check(
                bool(np.isfinite(est).all()) and bool(np.isfinite(o.estimate_velocity).all()),
                "finite",
                lambda: f"frame {t}: object {o.id} is at {est.tolist()}, velocity {np.asarray(o.estimate_velocity).tolist()}",
            )
            tol = 1e-6 * (np.abs(rows[a]).max() * scale + 600 * scale)
            ctx.check(
                bool((np.abs(est - want) <= tol).all()),
                "rest",
                lambda: f"frame {t}: object {o.id} has only ever been detected at {want.tolist()}, its estimate"
                f" is {est.tolist()}",
            )
            ctx.check(
                o.label == label and type(o.label) is type(label),
                "label",
                lambda: f"frame {t}: object {o.id} has label {o.label!r}, its detections {label!r}",
            )
            ctx.check(
                isinstance(o.id, (int, np.integer)) and o.id > 0 and o.num_points == len(want),
                "id",
                lambda: f"frame {t}: id {o.id!r}, {o.num_points} points",
            )
            ctx.check(
                len(o.past_detections) <= cfg["past_len"], "past", lambda: f"{len(o.past_detections)} past detections"
            )
        ctx.state(
            tuple(sorted((str(o.label), o.id, tuple(map(bool, o.live_points))) for o in shown))
        )
        ctx.log(t, [(o.id, np.round(np.asarray(o.estimate) / scale, 4).tolist()) for o in shown])


SCENARIOS = {"C38": TotalC38}

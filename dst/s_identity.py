"""C02 identity under detector faults, C09 camera motion equivalence."""
import math

import numpy as np

from . import world as w
from .core import Ambiguous, Scenario

import norfair
from norfair.camera_motion import (
    CoordinatesTransformation,
    HomographyTransformation,
    TranslationTransformation,
)

REAL = ("norfair.tracker", "norfair.filter", "norfair.distances")

T_PX = 100.0  # matching tolerance in pixels


def distance_for(name, n):
    """(distance argument of the tracker, threshold) with a tolerance of T_PX pixels."""
    if name in ("euclidean", "frobenius"):
        return name, T_PX * math.sqrt(n)
    if name in ("mean_euclidean", "chebyshev"):
        return name, T_PX
    if name == "mean_manhattan":
        return name, T_PX * 1.5
    if name == "cityblock":
        return name, T_PX * 1.5 * n
    if name == "sqeuclidean":
        return name, T_PX * T_PX * n
    if name == "iou":
        return name, 0.95
    if name == "voting":
        return norfair.create_keypoints_voting_distance(T_PX, 0.2), 0.99
    if name == "normalized":
        return norfair.create_normalized_mean_euclidean_distance(1000, 1000), T_PX / 1000
    raise ValueError(name)


class IdentityC02(Scenario):
    name = "identity"
    quick = 1000
    thorough = 25000
    list_keys = ("events",)
    rule = (
        "1-6 real objects moving slowly and far apart; a simulated real-time detector"
        " captures a frame, works for a generated latency and delivers (stale) results with"
        " the period it took, losing objects and whole results, adding jitter, duplicates"
        " and false positives, in any order, up to the limit the hit counters survive."
    )
    state_measure = "distinct (latency, period, sorted hit counters) at deliveries"
    real = REAL
    stub = ("detector and its latency (discrete events)",)
    assumptions = (
        "speed <= 1 px/frame, jitter <= 1 px, separation >= 5x and displacement < 1x the matching tolerance (100 px)",
    )
    NAMES = (
        "euclidean",
        "frobenius",
        "mean_euclidean",
        "mean_manhattan",
        "cityblock",
        "chebyshev",
        "sqeuclidean",
        "iou",
        "voting",
        "normalized",
    )

    def gen(self, rng, tier):
        name = rng.choice(self.NAMES)
        n_points = 2 if name == "iou" else rng.choice([1, 2, 3])
        hit_max = rng.choice([3, 4, 6, 8, 15])
        delay = rng.choice([None, 0, 1, 2, hit_max - 1])
        if delay is not None:
            delay = min(delay, hit_max - 1)
        cfg = {
            "hit_max": hit_max,
            "delay": delay,
            "pw_max": 4,
            "det_thr": 0,
            "past_len": 4,
            "filter": rng.choice(
                [["opt"], ["opt", 1.0, 0.1], ["fpy"], ["fpy", 4.0, 0.05, 5.0], ["none"]]
            ),
            "reid": None,
        }
        eff = w.effective_delay(cfg)
        n = rng.choice([1, 2, 3, 4, 6])
        actors = []
        for i in range(n):
            ang = rng.uniform(0, 2 * math.pi)
            speed = rng.choice([0, 0.3, 1.0]) * rng.uniform(0.5, 1)
            actors.append(
                {
                    "base": [i * 700.0 + rng.uniform(-20, 20), rng.uniform(-300, 300)],
                    "vel": [round(speed * math.cos(ang), 4), round(speed * math.sin(ang), 4)],
                    "turn": rng.choice([None, rng.randint(10, 60)]),
                    "label": rng.choice([None, ["s", "car"], ["i", 3]]),
                }
            )
        if rng.random() < 0.5:
            for a in actors:
                a["label"] = actors[0]["label"]
        # discrete-event detector: list of deliveries
        frames = rng.choice([40, 80, 150])
        rate = {k: rng.choice([0.0, r]) for k, r in (("miss", 0.4), ("lost", 0.15), ("fp", 0.3), ("dup", 0.3))}
        p0 = rng.choice([1, 1, 2, 3])
        if p0 > hit_max:
            p0 = 1
        hc = [None] * n
        init = [False] * n
        dup_until = [-1] * n
        events, t, captured, uid, fp = [], 0, 0, 0, 0
        jitter = rng.choice([0.0, 0.5, 1.0])
        first = True
        while True:
            if first:
                lat = p0
            elif not all(init):
                lat = p0
            else:
                room = min(h for h in hc) + 1
                lat = rng.choice([1, 1, 1, p0, rng.randint(1, 6), room])
                lat = max(1, min(lat, room, 9))
            t += lat
            if t >= frames:
                break
            stale = rng.randint(0, lat - 1) if lat > 1 else 0
            dets = []
            lost = all(init) and rng.random() < rate["lost"] and min(hc) - lat >= 0
            for i in range(n):
                if hc[i] is None:
                    hc[i] = lat
                else:
                    h = hc[i] - lat
                    miss = init[i] and h >= 0 and (lost or rng.random() < rate["miss"])
                    if not miss and not init[i]:
                        miss = False
                    if miss:
                        hc[i] = h
                        continue
                    hc[i] = min(h + 2 * lat, hit_max)
                init[i] = init[i] or hc[i] > eff
                k = 1
                if init[i] and hc[i] is not None and not first and lat <= eff and t > dup_until[i] and rng.random() < rate["dup"]:
                    # the object was initialized before this delivery as well
                    if actors[i].get("_init_before"):
                        k = 2
                        dup_until[i] = t + lat + 3
                for c in range(k):
                    jit = [
                        [round(rng.uniform(-jitter, jitter), 4) for _ in range(2)]
                        for _ in range(n_points)
                    ]
                    dets.append({"a": i, "u": uid, "j": jit, "dup": c == 1})
                    uid += 1
            for i in range(n):
                actors[i]["_init_before"] = init[i]
            if all(init) and lat <= eff and rng.random() < rate["fp"] and not lost:
                dets.append({"fp": fp, "u": uid, "a": None})
                uid += 1
                fp += 1
            rng.shuffle(dets)
            events.append({"at": t, "lat": lat, "stale": stale, "d": dets, "lost": lost})
            first = False
        for a in actors:
            a.pop("_init_before", None)
        return {
            "cfg": cfg,
            "name": name,
            "n_points": n_points,
            "actors": actors,
            "events": events,
            "frames": frames,
            "none": rng.random() < 0.5,
        }

    def simplify(self, plan):
        """Dropping a delivery changes the periods, so only suffixes and extras are dropped."""
        ev = plan["events"]
        for n in (len(ev) // 4, len(ev) // 2, 3 * len(ev) // 4, len(ev) - 1):
            if 0 < n < len(ev):
                yield dict(plan, events=ev[:n], frames=ev[n - 1]["at"] + 1)
        if len(plan["actors"]) > 1:
            last = len(plan["actors"]) - 1
            yield dict(
                plan,
                actors=plan["actors"][:-1],
                events=[dict(e, d=[d for d in e["d"] if d["a"] != last]) for e in ev],
            )
        for i, e in enumerate(ev):
            for k, d in enumerate(e["d"]):
                if d.get("dup") or "fp" in d:
                    yield dict(
                        plan, events=ev[:i] + [dict(e, d=e["d"][:k] + e["d"][k + 1 :])] + ev[i + 1 :]
                    )
        for i, e in enumerate(ev):
            order = sorted(e["d"], key=lambda d: d["u"])
            if order != e["d"]:
                yield dict(plan, events=ev[:i] + [dict(e, d=order)] + ev[i + 1 :])

    @staticmethod
    def position(a, t):
        turn = a["turn"]
        if turn is None or t <= turn:
            k = t
        else:
            k = turn - (t - turn)
        return np.array([a["base"][0] + a["vel"][0] * k, a["base"][1] + a["vel"][1] * k])

    @staticmethod
    def shape(name, n_points):
        if name == "iou":
            return np.array([[-150.0, -150.0], [150.0, 150.0]])
        return np.array([[0.0, 0.0], [12.0, 5.0], [-7.0, 9.0]])[:n_points]

    def exec(self, plan, ctx):
        cfg, name = plan["cfg"], plan["name"]
        shape = self.shape(name, plan["n_points"])
        distance, threshold = distance_for(name, plan["n_points"])
        tracker = ctx.call("Tracker()", w.make_tracker, cfg, distance, threshold)
        at = {e["at"]: e for e in plan["events"]}
        own = {}  # actor -> id
        fresh = [0] * len(plan["actors"])
        hc = [None] * len(plan["actors"])
        eff = w.effective_delay(cfg)
        init = [False] * len(plan["actors"])
        for t in range(plan["frames"]):
            e = at.get(t)
            ctx.steps += 1
            ctx.simtime += 1
            hc = [None if h is None else h - 1 for h in hc]
            if e is None:
                returned = ctx.call(
                    "update()", tracker.update, None if plan["none"] else []
                )
            else:
                dets, detected = [], set()
                when = t - e["stale"]
                if e["stale"]:
                    ctx.fault("late_result")
                if e["lost"]:
                    ctx.fault("result_lost")
                if e["lat"] > 1:
                    ctx.fault("detector_latency")
                for d in e["d"]:
                    if "fp" in d:
                        pos = np.array([-6000.0 - 900.0 * d["fp"], 4000.0])
                        pts = pos + shape
                        label = plan["actors"][0]["label"]
                        ctx.fault("false_positive")
                    else:
                        a = plan["actors"][d["a"]]
                        pts = self.position(a, when) + shape + np.array(d["j"])
                        label = a["label"]
                        detected.add(d["a"])
                        if d["dup"]:
                            ctx.fault("duplicate_detection")
                    scores = np.ones(len(shape)) if name == "voting" else None
                    dets.append(norfair.Detection(pts, scores=scores, label=w.make_label(label)))
                if [d["u"] for d in e["d"]] != sorted(d["u"] for d in e["d"]):
                    ctx.fault("detections_reordered")
                for i in range(len(plan["actors"])):
                    if i in detected:
                        fresh[i] += 1
                        hc[i] = e["lat"] if hc[i] is None else min(hc[i] + 2 * e["lat"], cfg["hit_max"])
                        init[i] = init[i] or hc[i] > eff
                    elif hc[i] is not None:
                        fresh[i] = 0
                        ctx.fault("object_missed")
                        if hc[i] == 0:
                            ctx.probe("missed_until_counter_zero")
                returned = ctx.call("update(detections)", tracker.update, dets, e["lat"])
                ctx.state((e["lat"], tuple(sorted(-1 if h is None else h for h in hc))))
            # assign reported objects to real ones
            seen = {}
            for o in returned:
                centre = o.estimate.mean(axis=0) - shape.mean(axis=0)
                gaps = [np.abs(self.position(a, t) - centre).max() for a in plan["actors"]]
                best = int(np.argmin(gaps))
                ctx.check(
                    gaps[best] < 250,
                    "ghost",
                    lambda: f"frame {t}: id {o.id} is reported at {centre.tolist()}, far from every real object",
                )
                ctx.check(
                    best not in seen,
                    "twice",
                    lambda: f"frame {t}: real object {best} is reported twice, as {seen[best]} and {o.id}",
                )
                seen[best] = o.id
                known = own.setdefault(best, o.id)
                ctx.check(
                    known == o.id,
                    "identity_switch",
                    lambda: f"frame {t}: real object {best} was id {known}, now {o.id}",
                )
                if fresh[best] >= 5 and e is not None and best in {d["a"] for d in e["d"]}:
                    ctx.check(
                        gaps[best] <= 40,
                        "position",
                        lambda: f"frame {t}: real object {best} is reported {gaps[best]:.1f} px away from the truth",
                    )
            for i in range(len(plan["actors"])):
                if init[i]:
                    ctx.check(
                        i in seen,
                        "lost",
                        lambda: f"frame {t}: real object {i} (counter {hc[i]}) is not reported",
                    )
            ctx.log(t, sorted(seen.items()))
        ctx.check(
            tracker.total_object_count == sum(init),
            "total",
            lambda: f"{tracker.total_object_count} ids were given to {sum(init)} initialized real objects",
        )


# ---------------------------------------------------------------------- camera motion
class Affine(CoordinatesTransformation):
    """User-defined transformation in any dimension: relative = scale * (absolute - offset)."""

    def __init__(self, offset, scale):
        self.offset = np.array(offset, dtype=float)
        self.scale = float(scale)

    def abs_to_rel(self, points):
        return (np.asarray(points) - self.offset) * self.scale

    def rel_to_abs(self, points):
        return np.asarray(points) / self.scale + self.offset


def ref_abs_to_rel(spec, pts):
    kind = spec[0]
    pts = np.asarray(pts, dtype=float)
    if kind == "t":
        return pts + np.array(spec[1])
    if kind == "h":
        m = np.array(spec[1])
        out = []
        for x, y in pts:
            X, Y, Z = m @ np.array([x, y, 1.0])
            out.append([X / Z, Y / Z])
        return np.array(out)
    return (pts - np.array(spec[1])) * spec[2]


def ref_rel_to_abs(spec, pts):
    kind = spec[0]
    pts = np.asarray(pts, dtype=float)
    if kind == "t":
        return pts - np.array(spec[1])
    if kind == "h":
        m = np.array(spec[1])
        out = []
        for x, y in pts:
            # solve m (X, Y, 1) ~ (x, y, 1)
            a = np.array(
                [
                    [m[0][0] - x * m[2][0], m[0][1] - x * m[2][1]],
                    [m[1][0] - y * m[2][0], m[1][1] - y * m[2][1]],
                ]
            )
            b = np.array([x * m[2][2] - m[0][2], y * m[2][2] - m[1][2]])
            out.append(np.linalg.solve(a, b))
        return np.array(out)
    return pts / spec[2] + np.array(spec[1])


def build_transform(spec):
    if spec[0] == "t":
        return TranslationTransformation(np.array(spec[1], dtype=float))
    if spec[0] == "h":
        return HomographyTransformation(np.array(spec[1], dtype=float))
    return Affine(spec[1], spec[2])


class CameraC09(Scenario):
    name = "camera_equivalence"
    quick = 1300
    thorough = 30000
    list_keys = ("ops",)
    rule = (
        "Twin trackers: one sees generated histories (with dropouts, skipped frames, ReID"
        " revivals, detections delivered again) through a moving camera, the other the same"
        " detections in absolute coordinates; translation, homography and user-defined"
        " transformations with smooth motion and sudden jumps."
    )
    state_measure = "distinct (transformation, objects, matched, new) per frame"
    real = REAL + ("norfair.camera_motion transformations",)
    stub = ("detector", "camera (generated transformations)")
    assumptions = ("runs whose decisions depend on differences below 1e-6 are stopped there",)

    def gen(self, rng, tier):
        kind = rng.choice(["t", "h", "u"])
        dim = rng.choice([2, 3]) if kind in ("u", "t") else 2
        cfg = w.gen_cfg(rng, reid=rng.random() < 0.5, dims=(dim,))
        if rng.random() < 0.5:
            cfg["scores"] = False
        if cfg["reid"]:
            cfg["hit_max"] = rng.choice([2, 3, 4])
            cfg["delay"] = 1
        hist = w.HistoryGen(rng, cfg, rng.choice([1, 2, 3]), None)
        frames = rng.choice([10, 25, 45])
        periods = w.gen_periods(rng, frames)
        ops = []
        state = [0.0] * dim
        theta, zoom = 0.0, 1.0
        h7, h8 = 0.0, 0.0
        recent = []
        for t in range(frames):
            op = hist.frame(periods[t], 0.15, 0.08)
            jump = rng.random() < 0.1
            step = 300.0 if jump else 8.0
            state = [v + rng.uniform(-step, step) for v in state]
            if jump:
                op["jump"] = True
            if kind == "t":
                op["cam"] = ["t", [round(v, 3) for v in state]]
            elif kind == "u":
                zoom = min(3.0, max(0.4, zoom * rng.choice([1.0, 1.0, 1.1, 0.9])))
                op["cam"] = ["u", [round(v, 3) for v in state], round(zoom, 3)]
            else:
                theta += rng.uniform(-0.05, 0.05)
                h7 = max(-1e-4, min(1e-4, h7 + rng.uniform(-2e-5, 2e-5)))
                h8 = max(-1e-4, min(1e-4, h8 + rng.uniform(-2e-5, 2e-5)))
                c, s = math.cos(theta), math.sin(theta)
                op["cam"] = [
                    "h",
                    [
                        [round(c, 6), round(-s, 6), round(state[0], 3)],
                        [round(s, 6), round(c, 6), round(state[1], 3)],
                        [round(h7, 8), round(h8, 8), 1.0],
                    ],
                ]
            if rng.random() < 0.3:
                op["nocam"] = True
            if recent and rng.random() < 0.12:
                op["again"] = rng.choice(recent)
            recent = (recent + [d["u"] for d in op["d"]])[-6:]
            ops.append(op)
        modes = ["abs", "abs", "table"]
        if kind == "t":
            modes += ["euclidean", "frobenius", "mean_manhattan", "chebyshev"]
        return {
            "cfg": cfg,
            "ops": ops,
            "mode": rng.choice(modes),
            "table": w.gen_table(rng, clean=rng.random() < 0.6),
        }

    def simplify_op(self, op):
        yield from w.simplify_frame_op(op)
        for key in ("again", "nocam"):
            if key in op:
                nop = dict(op)
                del nop[key]
                yield nop

    def exec(self, plan, ctx):
        cfg, mode = plan["cfg"], plan["mode"]
        table = w.Table(plan["table"])
        rtable = w.Table(
            dict(plan["table"], key=plan["table"]["key"] ^ 0x5A5A, scale=1.0, shift=0.0)
        )
        values, rvalues = [], []
        threshold = 40.0
        if mode == "abs":
            cam_distance = lambda d, o: np.linalg.norm(
                d.absolute_points - o.get_estimate(absolute=True)
            )

            def static_distance(d, o):
                v = np.linalg.norm(d.points - o.estimate)
                values.append((v, id(d), id(o)))
                return v

        elif mode == "table":
            threshold = plan["table"]["scale"] + plan["table"].get("shift", 0.0)
            cam_distance = static_distance = table.between
        else:
            cam_distance = static_distance = mode
        if cfg["reid"]:
            reid_cam = rtable.between
            reid_static = rtable.between
            if mode == "abs":
                cfg = dict(cfg, reid=dict(cfg["reid"], thr=60.0))
                reid_cam = lambda a, b: np.linalg.norm(
                    a.get_estimate(absolute=True) - b.get_estimate(absolute=True)
                )

                def reid_static(a, b):
                    v = np.linalg.norm(a.estimate - b.estimate)
                    rvalues.append((v, id(a), id(b)))
                    return v

        else:
            reid_cam = reid_static = None
        moving = ctx.call("Tracker()", w.make_tracker, cfg, cam_distance, threshold, reid_cam)
        static = ctx.call("Tracker()", w.make_tracker, cfg, static_distance, threshold, reid_static)
        made = {}
        spec = None
        for t, op in enumerate(plan["ops"]):
            # a frame without detections may come without a transformation: the last one holds
            blind = bool(op.get("nocam") and spec is not None and not op["d"] and op.get("again") not in made)
            if blind:
                ctx.fault("motion_estimate_missing")
                ct = None
            else:
                spec = op["cam"]
                ct = ctx.call("transformation", build_transform, spec)
            w.note_frame_faults(ctx, plan["ops"], t)
            if op.get("jump"):
                ctx.fault("camera_jump")
            cam_dets, static_dets = [], []
            for d in op["d"]:
                rel = ref_abs_to_rel(spec, d["pts"])
                det = w.make_detection(dict(d, pts=rel.tolist()))
                made[d["u"]] = (det, d, rel)
                cam_dets.append(det)
                static_dets.append(w.make_detection(d))
            if op.get("again") in made and op["again"] not in {d["u"] for d in op["d"]}:
                det, d, rel = made[op["again"]]
                cam_dets.append(det)
                static_dets.append(
                    w.make_detection(dict(d, pts=ref_rel_to_abs(spec, rel).tolist()))
                )
                ctx.fault("detection_delivered_again")
            none = op.get("none") and not cam_dets
            values.clear()
            rvalues.clear()
            b = ctx.call(f"update of frame {t}", static.update, None if none else static_dets, op["p"])
            near_decision(values, threshold)
            near_decision(rvalues, 60.0)
            a = ctx.call(
                f"update of frame {t} with camera motion",
                moving.update,
                detections=None if none else cam_dets,
                period=op["p"],
                coord_transformations=ct,
            )
            ctx.steps += 1
            ctx.simtime += op["p"]
            ctx.check(
                sorted(o.id for o in a) == sorted(o.id for o in b)
                and moving.total_object_count == static.total_object_count,
                "ids",
                lambda: f"frame {t}: ids {sorted(o.id for o in a)} with the moving camera,"
                f" {sorted(o.id for o in b)} in absolute coordinates",
            )
            ctx.check(
                len(moving.tracked_objects) == len(static.tracked_objects),
                "objects",
                lambda: f"frame {t}: {len(moving.tracked_objects)} objects tracked with the moving camera,"
                f" {len(static.tracked_objects)} in absolute coordinates",
            )
            for p, q in zip(moving.tracked_objects, static.tracked_objects):
                pos = ctx.call("get_estimate(absolute)", p.get_estimate, absolute=True)
                ctx.check(
                    p.id == q.id
                    and p.hit_counter == q.hit_counter
                    and w.close(pos, q.estimate, 1e-6)
                    and w.close(p.estimate_velocity, q.estimate_velocity, 1e-6),
                    "absolute",
                    lambda: f"frame {t}: object {p.id} is at absolute {pos.tolist()} (counter {p.hit_counter}),"
                    f" in absolute coordinates object {q.id} is at {q.estimate.tolist()} (counter {q.hit_counter})",
                )
                want = ref_abs_to_rel(spec, pos)
                for got in (p.estimate, p.get_estimate(), p.get_estimate(absolute=False)):
                    ctx.check(
                        w.close(got, want, 1e-6),
                        "relative",
                        lambda: f"frame {t}: object {p.id} at absolute {pos.tolist()} is seen at {got.tolist()},"
                        f" expected {want.tolist()}",
                    )
            for d, s in zip(cam_dets, static_dets):
                ctx.check(
                    w.close(d.absolute_points, s.points, 1e-6),
                    "detection",
                    lambda: f"frame {t}: a detection at relative {d.points.tolist()} has absolute position"
                    f" {d.absolute_points.tolist()}, expected {s.points.tolist()}",
                )
            ctx.log(t, sorted(o.id for o in a), len(moving.tracked_objects))
            ctx.state((spec[0], len(cam_dets), len(moving.tracked_objects), len(a)))


def near_decision(values, threshold):
    ordered = sorted(values)
    for v, _, _ in ordered:
        if abs(v - threshold) < 1e-5 * (1 + threshold):
            raise Ambiguous("distance at the threshold")
    for (v1, a1, b1), (v2, a2, b2) in zip(ordered, ordered[1:]):
        if v2 - v1 < 1e-5 * (1 + v1) and v1 < threshold:
            raise Ambiguous("tie")


SCENARIOS = {"C02": IdentityC02, "C09": CameraC09}

"""Building blocks of the tracker scenarios: histories, detections, observation."""
import math

import numpy as np

from .core import Ambiguous, h64

import norfair
from norfair.filter import (
    FilterPyKalmanFilterFactory,
    NoFilterFactory,
    OptimizedKalmanFilterFactory,
)


# ------------------------------------------------------------------ labels
class Tag:
    """A user-defined hashable label: equal by value, never identical."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Tag) and other.name == self.name

    def __hash__(self):
        return hash(("Tag", self.name))

    def __repr__(self):
        return f"Tag({self.name})"


def make_label(spec):
    """A fresh object for every detection, so that only equality can match labels."""
    if spec is None:
        return None
    kind, val = spec
    if kind == "i":
        return int(str(val))
    if kind == "f":
        return float(str(val))
    if kind == "b":
        return bool(val)
    if kind == "s":
        return "".join(list(val))
    if kind == "t":
        return tuple(make_label(v) for v in val)
    if kind == "fs":
        return frozenset(val)
    if kind == "nan":
        return math.nan  # always the same object, and not equal to itself
    if kind == "o":
        return Tag("".join(list(val)))
    raise ValueError(spec)


LABEL_POOL = [
    None,
    ["i", 1],
    ["f", 1.0],
    ["b", 1],
    ["s", "1"],
    ["s", "car"],
    ["s", ""],
    ["i", 0],
    ["b", 0],
    ["i", 100000],
    ["t", [["s", "a"], ["i", 5000]]],
    ["fs", [1, 2, 3]],
    ["o", "x"],
    ["s", "person"],
]

# labels that are easily taken for one another
CONFUSABLE = [
    [["s", "car"], ["s", "Car"], ["s", "car "], ["s", "cars"], ["s", "car\x00"]],
    [["s", "pedestrian crossing" + "." * 60 + c] for c in ("a", "b", "")],
    [["s", "caf\u00e9"], ["s", "cafe\u0301"], ["s", "cafe"]],
    [["i", 2**53], ["i", 2**53 + 1], ["f", float(2**53)]],
    [["i", -1], ["i", -2], ["i", 0], ["i", 2**61 - 1], ["f", -0.0]],
    [["i", 1], ["i", 257], ["i", 65537], ["i", 2**32 + 1], ["f", 1.5]],
    [["s", "None"], None, ["s", ""], ["s", "nan"]],
    [["t", [["i", 1], ["i", 2]]], ["t", [["i", 1]]], ["i", 1], ["s", "(1, 2)"], ["t", []]],
]


def distinct(pool):
    """The first of each group of labels that are equal as Python values."""
    out = []
    for spec in pool:
        if all(make_label(spec) != make_label(other) for other in out):
            out.append(spec)
    return out


def gen_labels(rng, n):
    pool = rng.choice(CONFUSABLE) if rng.random() < 0.3 else LABEL_POOL
    return rng.sample(pool, min(n, len(pool)))


# ------------------------------------------------------------------ filters
def make_filter(spec):
    kind = spec[0]
    if kind == "opt":
        return OptimizedKalmanFilterFactory(*spec[1:])
    if kind == "fpy":
        return FilterPyKalmanFilterFactory(*spec[1:])
    if kind == "none":
        return NoFilterFactory()
    raise ValueError(spec)


def gen_filter(rng, kinds=("opt", "fpy", "none")):
    kind = rng.choice(kinds)
    if kind == "opt":
        if rng.random() < 0.4:
            return ["opt"]
        return [
            "opt",
            rng.choice([0.1, 1.0, 4.0, 25.0]),
            rng.choice([0.0, 0.01, 0.1, 2.0]),
            rng.choice([1.0, 10.0, 50.0]),
            rng.choice([0.0, 0.5]),
            rng.choice([0.1, 1.0, 10.0]),
        ]
    if kind == "fpy":
        if rng.random() < 0.4:
            return ["fpy"]
        return [
            "fpy",
            rng.choice([0.1, 1.0, 4.0, 25.0]),
            rng.choice([0.001, 0.01, 0.1, 2.0]),
            rng.choice([1.0, 10.0, 50.0]),
        ]
    return ["none"]


class RefFilter:
    """Reference filter: a two-state Kalman recursion per coordinate, written plainly."""

    def __init__(self, spec, flat):
        n = len(flat)
        self.kind = spec[0]
        self.pos = [float(v) for v in flat]
        self.vel = [0.0] * n
        if self.kind == "opt":
            r, q, pv, pvc, vv = (list(spec[1:]) + [4.0, 0.1, 10, 0, 1][len(spec) - 1 :])
            self.r, self.qp, self.qv = r, q, q
            self.cov = [[float(pv), float(pvc), float(vv)] for _ in range(n)]
        elif self.kind == "fpy":
            r, q, p = (list(spec[1:]) + [4.0, 0.1, 10.0][len(spec) - 1 :])
            self.r, self.qp, self.qv = r, 1.0, q
            self.cov = [[1.0, 0.0, float(p)] for _ in range(n)]

    def _propagate(self, i):
        a, b, c = self.cov[i]
        self.cov[i] = [a + 2 * b + c + self.qp, b + c, c + self.qv]

    def step(self):
        if self.kind == "none":
            return
        for i in range(len(self.pos)):
            self.pos[i] += self.vel[i]
            if self.kind == "fpy":
                self._propagate(i)

    def correct(self, flat, measured):
        for i, z in enumerate(flat):
            if self.kind == "none":
                if measured[i]:
                    self.pos[i] = float(z)
                continue
            if self.kind == "opt":
                self._propagate(i)
            if not measured[i]:
                continue
            a, b, c = self.cov[i]
            s = a + self.r
            k1, k2 = a / s, b / s
            err = float(z) - self.pos[i]
            self.pos[i] += k1 * err
            self.vel[i] += k2 * err
            self.cov[i] = [(1 - k1) * a, (1 - k1) * b, c - k2 * b]


class ShadowPoints:
    """Reference for estimate, velocity and liveness of one object."""

    def __init__(self, spec, points, reliable, pw_max, period):
        self.n, self.dim = points.shape
        self.filter = RefFilter(spec, points.ravel())
        self.seen = list(reliable)
        self.cap = max(pw_max, period)
        self.live = [1 if r else 0 for r in reliable]

    def step(self):
        self.filter.step()
        self.live = [max(0, v - 1) for v in self.live]

    def hit(self, points, reliable, period):
        dim = self.dim
        flat = points.ravel()
        mask = [r for r in reliable for _ in range(dim)]
        self.filter.correct(flat, mask)
        for p in range(self.n):
            for k in range(p * dim, (p + 1) * dim):
                if not self.seen[p]:
                    self.filter.vel[k] = 0.0
                    if reliable[p]:
                        self.filter.pos[k] = float(flat[k])
            if reliable[p]:
                self.live[p] = self.live[p] + 2 * period
                self.seen[p] = True
        # after a merge the counter may have been above this object's cap
        self.live = [min(self.cap, v) for v in self.live]

    def estimate(self):
        return np.array(self.filter.pos).reshape(self.n, self.dim)

    def velocity(self):
        return np.array(self.filter.vel).reshape(self.n, self.dim)


def close(a, b, tol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = 1.0 + max(np.abs(a).max(), np.abs(b).max())
    return bool(np.isfinite(a).all() and np.abs(a - b).max() <= tol * scale)


# ------------------------------------------------------------------ detections
def make_detection(spec):
    points = np.array(spec["pts"], dtype=float)
    scores = None if spec.get("sc") is None else np.array(spec["sc"], dtype=float)
    return norfair.Detection(
        points=points,
        scores=scores,
        data={"u": spec["u"], "a": spec.get("a")},
        label=make_label(spec.get("l")),
        embedding=spec.get("e"),
    )


def uid(obj_or_det):
    det = getattr(obj_or_det, "last_detection", obj_or_det)
    return det.data["u"]


def actor(obj_or_det):
    det = getattr(obj_or_det, "last_detection", obj_or_det)
    return det.data["a"]


def reliable(det, threshold):
    if det.scores is None:
        return [True] * len(det.points)
    return [bool(s > threshold) for s in det.scores]


GRID = 1 << 20


class Table:
    """Distances that are a pure function of two detection numbers.

    Values are multiples of thr/2^20 and therefore exact in single and double
    precision; a fraction of them is exactly the threshold.
    """

    def __init__(self, spec):
        self.key = spec["key"]
        self.scale = spec["scale"]
        self.same = spec.get("same", 1.0)
        self.cross = spec.get("cross", 0.0)
        self.edge = spec.get("edge", 0.0)
        self.shift = spec.get("shift", 0.0)

    def value(self, u1, a1, u2, a2):
        h = h64((self.key, u1, u2))
        pick = (h & 0xFFFF) / 65536.0
        edge = ((h >> 16) & 0xFFF) / 4096.0
        q = (h >> 28) % GRID
        below = pick < (self.same if (a1 == a2 and a1 is not None) else self.cross)
        if edge < self.edge:
            q = GRID
        elif below:
            q = max(q, 1)
            q = min(q, GRID - 1)
        else:
            q = q + GRID + 1
        return self.scale * (q / GRID) + self.shift

    def between(self, a, b):
        return self.value(uid(a), actor(a), uid(b), actor(b))


def gen_table(rng, clean=False):
    scale = rng.choice([1.0, 1.0, 2.0, 2.0, 64.0, 64.0, 0.5, 0.5, 2.0**30, 2.0**-12])
    spec = {"key": rng.randrange(1 << 40), "scale": scale}
    if clean:
        return spec
    mode = rng.random()
    if mode < 0.4:
        spec.update(same=1.0, cross=0.0)
    elif mode < 0.8:
        spec.update(same=0.9, cross=rng.choice([0.1, 0.3, 0.6]))
    else:
        spec.update(same=0.7, cross=0.9)
    if rng.random() < 0.4:
        spec["edge"] = 0.1
    if rng.random() < 0.1:
        spec["shift"] = -scale
    return spec


# ------------------------------------------------------------------ histories
def gen_cfg(rng, reid=False, scores=None, dims=(2,), max_points=4, filters=None):
    hit_max = rng.choice([1, 2, 3, 4, 5, 6, 8, 15])
    delay = rng.choice([None, 0, 0, 1, 2, 3])
    if delay is not None:
        delay = min(delay, hit_max - 1)
    n_points = rng.choice([1, 1, 2, 2, 3, max_points])
    use_scores = rng.random() < 0.6 if scores is None else scores
    cfg = {
        "hit_max": hit_max,
        "delay": delay,
        "pw_max": rng.choice([0, 1, 2, 4, 4, 7]),
        "det_thr": rng.choice([0, 0, 0.3, 0.5]),
        "past_len": rng.choice([0, 1, 2, 3, 4, 6]),
        "n_points": n_points,
        "dim": rng.choice(dims),
        "scores": use_scores,
        "filter": gen_filter(rng) if filters is None else gen_filter(rng, filters),
        "reid": None,
    }
    if reid:
        cfg["reid"] = {"max": rng.choice([0, 1, 2, 3, 5, 8]), "thr": 1.0}
    if rng.random() < 0.15:
        # arguments that have their documented default are left out
        cfg["omit"] = True
        for key, val in DEFAULTS.items():
            if rng.random() < 0.6 and (key != "hit_max" or cfg["delay"] is None):
                cfg[key] = val
    return cfg


DEFAULTS = {"hit_max": 15, "pw_max": 4, "det_thr": 0, "past_len": 4}


def effective_delay(cfg):
    return int(cfg["hit_max"] / 2) if cfg["delay"] is None else cfg["delay"]


class HistoryGen:
    """Generates frames of actors that appear, are missed and come back.

    It keeps a rough idea of each actor's hit counter so that gaps concentrate around
    the boundaries where an object is about to die, or has just died.
    """

    def __init__(self, rng, cfg, n_actors, labels=None, score_drop=0.3, garbage=False):
        self.rng = rng
        self.cfg = cfg
        self.n = n_actors
        self.labels = labels
        self.next_uid = 0
        self.score_drop = score_drop
        self.garbage = garbage
        self.hc = [None] * n_actors
        # actors seen just often enough to keep their counter where it is
        share = rng.choice([0, 0, 0, 0.3, 1.0])
        self.flicker = [rng.random() < share for _ in range(n_actors)]
        self.gap = [rng.choice([0, 0, 0, rng.randint(0, 6)]) for _ in range(n_actors)]
        self.run = [self._run() for _ in range(n_actors)]
        self.base = [
            [rng.uniform(-500, 500) for _ in range(cfg["dim"])] for _ in range(n_actors)
        ]
        self.vel = [
            [rng.uniform(-3, 3) for _ in range(cfg["dim"])] for _ in range(n_actors)
        ]
        self.shape = [
            [
                [rng.uniform(-20, 20) for _ in range(cfg["dim"])]
                for _ in range(cfg["n_points"])
            ]
            for _ in range(n_actors)
        ]
        self.label = [rng.choice(labels) if labels else None for _ in range(n_actors)]
        # points that the detector does not find for a while
        self.lost = [[0] * cfg["n_points"] for _ in range(n_actors)]
        self.t = 0

    def _run(self):
        r = self.rng
        if self.cfg.get("long"):
            return r.choice([3, 30, 150, 320])
        return r.choice([1, 1, 2, 3, r.randint(1, 6), r.randint(3, 12), 20])

    def _gap(self, i):
        r = self.rng
        hc = self.hc[i] if self.hc[i] is not None else 1
        reid = self.cfg["reid"]
        choices = [1, 1, 2, max(1, hc), max(1, hc), hc + 1, hc + 1, hc + 2, r.randint(1, 5)]
        if reid:
            m = reid["max"]
            choices += [hc + 1 + m, hc + 2 + m, hc + 2 + m, hc + 3 + m, hc + 4 + m, hc + 6 + m]
        return max(1, r.choice(choices))

    def points(self, i, jitter=1.0):
        r = self.rng
        return [
            [
                self.base[i][k] + self.vel[i][k] * self.t + s[k] + r.uniform(-jitter, jitter)
                for k in range(self.cfg["dim"])
            ]
            for s in self.shape[i]
        ]

    def det(self, i, pts=None, label=None):
        r = self.rng
        d = {"u": self.next_uid, "a": i, "pts": pts if pts is not None else self.points(i)}
        self.next_uid += 1
        if self.cfg["scores"]:
            sc = [
                0.0 if r.random() < self.score_drop else r.choice([0.31, 0.6, 0.9, 1.0])
                for _ in d["pts"]
            ]
            if r.random() < 0.15:
                near = self.cfg["det_thr"]
                near = [near + 1e-5, near - 1e-5, near + 1e-12]
                sc = [r.choice([0.3, 0.5, 0.0, s, s, *near]) for s in sc]
            lost = self.lost[i]
            for k in range(len(sc)):
                if lost[k]:
                    lost[k] -= 1
                    sc[k] = 0.0
                elif r.random() < 0.06:
                    lost[k] = r.choice([2, 4, 8, 20] if not self.cfg.get("long") else [5, 140, 280])
            d["sc"] = sc
            if r.random() < 0.1:
                d["sc"] = None
        lab = self.label[i] if label is None else label
        if lab is not None:
            d["l"] = lab
        d["pts"] = [[round(float(v), 6) for v in p] for p in d["pts"]]
        return d

    def frame(self, period=1, spurious=0.0, none_prob=0.05):
        r = self.rng
        dets = []
        skip = r.random() < none_prob
        for i in range(self.n):
            if self.hc[i] is not None:
                self.hc[i] -= 1
                if self.hc[i] < -1:
                    self.hc[i] = None
            if self.gap[i] > 0:
                self.gap[i] -= 1
                continue
            if skip:
                continue
            dets.append(self.det(i))
            if self.hc[i] is None:
                self.hc[i] = period
            else:
                self.hc[i] = min(self.hc[i] + 2 * period, self.cfg["hit_max"])
            self.run[i] -= 1
            if self.flicker[i] and r.random() < 0.97:
                self.gap[i] = 2 * period - 1
            elif self.run[i] <= 0:
                self.gap[i] = self._gap(i)
                self.run[i] = self._run()
        if not skip and r.random() < spurious:
            i = r.randrange(self.n)
            d = self.det(i)
            d["a"] = 1000 + d["u"]
            d["pts"] = [[v + r.uniform(-300, 300) for v in p] for p in d["pts"]]
            d["pts"] = [[round(v, 6) for v in p] for p in d["pts"]]
            dets.append(d)
        r.shuffle(dets)
        self.t += 1
        op = {"p": period, "d": dets}
        if skip:
            op["none"] = r.choice([True, False])
        return op


def make_long(rng, cfg):
    """Turns a configuration into one for long lives, with counters in the hundreds."""
    cfg["long"] = True
    cfg["hit_max"] = rng.choice([5, 40, 150, 300, 1000])
    cfg["delay"] = rng.choice([None, 0, min(130, cfg["hit_max"] - 1)])
    cfg["pw_max"] = rng.choice([4, 140, 300])
    cfg["past_len"] = rng.choice([1, 3, 8])
    if cfg["reid"]:
        cfg["reid"]["max"] = rng.choice([3, 140, 280])


def gen_periods(rng, n):
    mode = rng.random()
    if mode < 0.4:
        p = rng.choice([1, 1, 1, 2, 3])
        return [p] * n
    if mode < 0.8:
        out, p = [], 1
        for _ in range(n):
            if rng.random() < 0.2:
                p = rng.choice([1, 1, 2, 3, 4])
            out.append(p)
        return out
    return [rng.choice([1, 1, 2, 5, 9]) for _ in range(n)]


def gen_history(rng, cfg, frames, actors, labels=None, spurious=0.0, none_prob=0.05, **kw):
    gen = HistoryGen(rng, cfg, actors, labels, **kw)
    periods = gen_periods(rng, frames)
    return [gen.frame(periods[t], spurious, none_prob) for t in range(frames)]


def note_frame_faults(ctx, ops, t):
    """Count the adverse events of a frame (for evidence)."""
    op = ops[t]
    if not op["d"]:
        ctx.fault("frame_without_detections")
    if op.get("none"):
        ctx.fault("update_skipped_detections_none")
    if t and op["p"] != ops[t - 1]["p"]:
        ctx.fault("period_change")
    if t:
        before = {d["a"] for d in ops[t - 1]["d"]}
        now = {d["a"] for d in op["d"]}
        for _ in before - now:
            ctx.fault("object_missed")
        for a in now - before:
            if a is not None and a >= 1000:
                ctx.fault("spurious_detection")
            else:
                ctx.probe("object_appears_or_returns")
    for d in op["d"]:
        if d.get("sc") is not None and any(s == 0.0 for s in d["sc"]):
            ctx.fault("point_dropout")


def simplify_frame_op(op):
    """Simpler versions of one frame."""
    if op["p"] != 1:
        yield dict(op, p=1)
    for k in range(len(op["d"]) - 1, -1, -1):
        yield dict(op, d=op["d"][:k] + op["d"][k + 1 :])
    for k, d in enumerate(op["d"]):
        if d.get("sc") is not None:
            nd = dict(d)
            del nd["sc"]
            yield dict(op, d=op["d"][:k] + [nd] + op["d"][k + 1 :])
        if d.get("l") is not None:
            nd = dict(d)
            del nd["l"]
            yield dict(op, d=op["d"][:k] + [nd] + op["d"][k + 1 :])


# ------------------------------------------------------------------ tracker
class FailingFactory(norfair.filter.FilterFactory):
    """Calls hook("create") and hook("correct") before creating and correcting a filter."""

    def __init__(self, inner, hook):
        self.inner = inner
        self.hook = hook

    def create_filter(self, initial_detection):
        self.hook("create")
        f = self.inner.create_filter(initial_detection)
        real_update = f.update

        def update(*args, **kwargs):
            self.hook("correct")
            return real_update(*args, **kwargs)

        f.update = update
        return f


def make_tracker(cfg, distance, threshold, reid_distance=None, factory=None):
    kw = {}
    if cfg.get("reid") is not None:
        kw = {
            "reid_distance_function": reid_distance,
            "reid_hit_counter_max": cfg["reid"]["max"],
        }
        if cfg["reid"]["thr"] != 0:
            kw["reid_distance_threshold"] = cfg["reid"]["thr"]
    for name, key in (
        ("hit_counter_max", "hit_max"),
        ("initialization_delay", "delay"),
        ("pointwise_hit_counter_max", "pw_max"),
        ("detection_threshold", "det_thr"),
        ("past_detections_length", "past_len"),
    ):
        if not cfg.get("omit") or cfg[key] != DEFAULTS.get(key):
            kw[name] = cfg[key]
    if factory is not None:
        kw["filter_factory"] = factory
    elif not cfg.get("omit") or cfg["filter"] != ["opt"]:
        kw["filter_factory"] = make_filter(cfg["filter"])
    return norfair.Tracker(distance_function=distance, distance_threshold=threshold, **kw)


class Rec:
    """What the observer knows about one tracked object."""

    def __init__(self, obj, det, frame, period, number):
        self.obj = obj
        self.number = number
        self.birth = det
        self.frame = frame
        self.period0 = period
        self.last = det
        self.gone = None
        self.model = None

    def __repr__(self):
        return f"<object born of detection {self.birth.data['u']}>"


class Frame:
    def __init__(self):
        self.births = []  # [(rec, det)]
        self.hits = []  # [(rec, det)]
        self.merges = []  # [(old rec, newcomer rec, det)]
        self.gone = []  # recs that disappeared and were not merged
        self.kept = []  # recs that were there before and still are
        self.orphans = []  # objects that appeared without a detection of this frame
        self.dets = []


class Watch:
    """Observes a tracker from outside: which object took which detection."""

    def __init__(self, tracker):
        self.tracker = tracker
        self.recs = {}
        self.present = []
        self.t = 0
        self.count = 0

    def rec_of(self, obj):
        return self.recs.get(id(obj))

    def observe(self, dets, period):
        """Call right after update(); dets are the Detection objects of the frame."""
        fr = Frame()
        fr.dets = list(dets)
        by_id = {id(d): d for d in dets}
        objects = list(self.tracker.tracked_objects)
        now = set()
        for obj in objects:
            now.add(id(obj))
            rec = self.recs.get(id(obj))
            last = obj.last_detection
            if rec is None:
                det = by_id.get(id(last))
                if det is None:
                    fr.orphans.append(obj)
                    continue
                rec = Rec(obj, det, self.t, period, self.count)
                self.count += 1
                self.recs[id(obj)] = rec
                fr.births.append((rec, det))
            else:
                fr.kept.append(rec)
                if last is not rec.last and id(last) in by_id:
                    fr.hits.append((rec, last))
                rec.last = last
        for rec in self.present:
            if id(rec.obj) in now:
                continue
            rec.gone = self.t
            taken = rec.obj.last_detection
            merged = None
            if id(taken) in by_id and taken is not rec.last:
                for k, (old, det) in enumerate(fr.hits):
                    if det is taken:
                        merged = (old, rec, det)
                        del fr.hits[k]
                        break
            if merged:
                fr.merges.append(merged)
            else:
                fr.gone.append(rec)
        self.present = [self.recs[id(o)] for o in objects if id(o) in self.recs]
        self.t += 1
        return fr


def greedy(pairs_below, n_cand, n_obj, tie_rel=0.0):
    """Closest-pair-first matching of a distance dict {(c, o): d}; exact ties abort.

    A tie only matters when the two pairs conflict (share a candidate or an object).
    """
    order = sorted(pairs_below.items(), key=lambda kv: (kv[1], kv[0]))
    used_c, used_o, out = set(), set(), []
    for k, ((c, o), d) in enumerate(order):
        if c in used_c or o in used_o:
            continue
        for (c2, o2), d2 in order[k + 1 :]:
            if d2 - d > tie_rel * (1.0 + abs(d)):
                break
            if (c2 == c) != (o2 == o) and c2 not in used_c and o2 not in used_o:
                raise Ambiguous(f"tie at distance {d}")
        used_c.add(c)
        used_o.add(o)
        out.append((c, o, d))
    return out


def near(a, b, rel=1e-4):
    return math.isclose(a, b, rel_tol=rel, abs_tol=rel)

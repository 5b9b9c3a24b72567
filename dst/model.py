"""Executable reference model of the tracker's documented behaviour (no norfair code)."""
import numpy as np

from . import world as w
from .core import Ambiguous


class RefDet:
    def __init__(self, spec, det_thr):
        self.u = spec["u"]
        self.a = spec.get("a")
        self.label = w.make_label(spec.get("l"))
        self.points = np.array(spec["pts"], dtype=float)
        sc = spec.get("sc")
        self.reliable = [True] * len(self.points) if sc is None else [s > det_thr for s in sc]


class RefObj:
    def __init__(self, det, period, cfg):
        self.birth = det.u
        self.label = det.label
        self.last = det
        self.hc = period
        self.period0 = period
        self.rhc = None
        self.age = 0
        self.init = period > w.effective_delay(cfg)
        self.last_distance = None
        self.points = w.ShadowPoints(
            cfg["filter"], det.points, det.reliable, cfg["pw_max"], period
        )


class RefTracker:
    """distance(det, obj) and reid_distance(newcomer, obj) are given as functions."""

    def __init__(self, cfg, distance, threshold, reid_distance=None, tie_rel=0.0):
        self.cfg = cfg
        self.distance = distance
        self.threshold = threshold
        self.reid = cfg.get("reid")
        self.reid_distance = reid_distance
        self.objs = []
        self.tie_rel = tie_rel

    def _match(self, cands, objs, fn, threshold, rel):
        pairs = {}
        for c, cand in enumerate(cands):
            for o, obj in enumerate(objs):
                if cand.label != obj.label:
                    continue
                d = fn(cand, obj)
                if rel and abs(d - threshold) <= rel * (1 + abs(threshold)):
                    raise Ambiguous("distance at the threshold")
                if d < threshold:
                    pairs[(c, o)] = d
        return w.greedy(pairs, len(cands), len(objs), rel)

    def update(self, dets, period):
        """Returns {det uid: ("hit"|"birth", birth uid of the object)}, and the merges."""
        cfg = self.cfg
        delay = w.effective_delay(cfg)
        if self.reid is None:
            self.objs = [o for o in self.objs if o.hc >= 0]
            alive, dead = list(self.objs), []
        else:
            self.objs = [o for o in self.objs if o.rhc is None or o.rhc >= 0]
            alive = [o for o in self.objs if o.hc >= 0]
            dead = [o for o in self.objs if o.hc < 0]
        for o in self.objs:
            if o.rhc is None:
                if o.hc <= 0 and self.reid is not None:
                    o.rhc = self.reid["max"]
            else:
                o.rhc -= 1
            o.hc -= 1
            o.age += 1
            o.points.step()
        out, free = {}, list(dets)
        stages = [[o for o in alive if o.init], [o for o in alive if not o.init]]
        lost, matched_new = [], []
        for k, group in enumerate(stages):
            got = self._match(free, group, self.distance, self.threshold, self.tie_rel)
            used_c, used_o = set(), set()
            for c, o, d in got:
                obj, det = group[o], free[c]
                used_c.add(c)
                used_o.add(o)
                obj.last = det
                obj.hc = min(obj.hc + 2 * period, cfg["hit_max"])
                obj.rhc = None
                obj.init = obj.init or obj.hc > delay
                obj.last_distance = d
                obj.points.hit(det.points, det.reliable, period)
                out[det.u] = ("hit", obj.birth)
                if k == 1:
                    matched_new.append(obj)
            if k == 0:
                lost = [o for i, o in enumerate(group) if i not in used_o]
            free = [d for i, d in enumerate(free) if i not in used_c]
        merges = []
        if self.reid is not None and self.reid_distance is not None:
            targets = lost + dead
            got = self._match(
                matched_new, targets, self.reid_distance, self.reid["thr"], self.tie_rel
            )
            for c, o, _ in got:
                new, old = matched_new[c], targets[o]
                merges.append((old.birth, new.birth))
                old.last = new.last
                old.rhc = None
                old.hc = 2 * old.period0
                old.last_distance = new.last_distance
                cap = old.points.cap
                old.points = new.points
                old.points.cap = cap
                out[new.last.u] = ("merge", old.birth)
                self.objs = [x for x in self.objs if x is not new]
        for det in free:
            obj = RefObj(det, period, cfg)
            self.objs.append(obj)
            out[det.u] = ("birth", det.u)
        return out, merges


# ------------------------------------------------------------------ geometric distances
def _mean_euclidean(a, b):
    return float(np.sqrt(((a - b) ** 2).sum(axis=1)).mean())


def _mean_manhattan(a, b):
    return float(np.abs(a - b).sum(axis=1).mean())


def _euclidean(a, b):
    return float(np.sqrt(((a - b) ** 2).sum()))


def _iou(a, b):
    (ax0, ay0), (ax1, ay1) = a
    (bx0, by0), (bx1, by1) = b
    iw = max(0.0, min(ax1, bx1) - max(ax0, bx0))
    ih = max(0.0, min(ay1, by1) - max(ay0, by0))
    inter = iw * ih
    union = (ax1 - ax0) * (ay1 - ay0) + (bx1 - bx0) * (by1 - by0) - inter
    return float(1 - inter / union)


GEOMETRIC = {
    "euclidean": _euclidean,
    "frobenius": _euclidean,
    "mean_euclidean": _mean_euclidean,
    "mean_manhattan": _mean_manhattan,
    "cityblock": lambda a, b: float(np.abs(a - b).sum()),
    "chebyshev": lambda a, b: float(np.abs(a - b).max()),
    "sqeuclidean": lambda a, b: float(((a - b) ** 2).sum()),
    "iou": _iou,
    "iou_opt": _iou,
}

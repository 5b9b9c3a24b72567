"""C23 motion estimation with bad frames and failing routines, C24 accuracy over a video."""
import math

import cv2
import numpy as np

from . import seams
from .core import Scenario, h64, u01
from .world import close

from norfair.camera_motion import (
    HomographyTransformation,
    HomographyTransformationGetter,
    MotionEstimator,
    TransformationGetter,
    TranslationTransformation,
    TranslationTransformationGetter,
)

REAL = ("norfair.camera_motion", "OpenCV feature detection, optical flow and homography")
_SCENES = {}


def scene(key, size=(900, 1100)):
    """A static scene full of corners."""
    got = _SCENES.get((key, size))
    if got is not None:
        return got
    rng = np.random.RandomState(key)
    h, w = size
    img = np.full((h, w, 3), 90, np.uint8)
    for _ in range(int(h * w / 260)):
        x, y = int(rng.randint(0, w)), int(rng.randint(0, h))
        a, b = int(rng.randint(4, 26)), int(rng.randint(4, 26))
        col = tuple(int(v) for v in rng.randint(0, 256, 3))
        if rng.rand() < 0.7:
            cv2.rectangle(img, (x, y), (x + a, y + b), col, -1)
        else:
            cv2.circle(img, (x, y), max(3, a // 2), col, -1)
    img = cv2.GaussianBlur(img, (3, 3), 0.7)
    _SCENES.clear()
    _SCENES[(key, size)] = img
    return img


def render(img, view, mat):
    """The frame of `view` = (h, w) seen by a camera: mat maps scene to frame coordinates."""
    return cv2.warpPerspective(
        img, mat, (view[1], view[0]), flags=cv2.INTER_LINEAR, borderMode=cv2.BORDER_REFLECT
    )


def apply(mat, pts):
    p = np.hstack([pts, np.ones((len(pts), 1))]) @ mat.T
    return p[:, :2] / p[:, 2:]


def shift(x, y):
    return np.array([[1.0, 0, x], [0, 1.0, y], [0, 0, 1.0]])


def grid(view, n=4, margin=0.15):
    h, w = view
    xs = np.linspace(margin * w, (1 - margin) * w, n)
    ys = np.linspace(margin * h, (1 - margin) * h, n)
    return np.array([[x, y] for x in xs for y in ys])


class Custom(TransformationGetter):
    """A stateful user-defined getter that fails when told to."""

    plan = {}  # frame -> failure (class attributes: not copied with the getter)
    frame = 0
    seen = []

    def __init__(self):
        self.offset = np.zeros(2)
        self.trace = []
        self.config = {"tries": 0}

    def __call__(self, curr_pts, prev_pts):
        Custom.seen.append((Custom.frame, len(self.trace), self.config["tries"]))
        self.trace.append(Custom.frame)
        self.config["tries"] += 1
        if len(curr_pts) == 0:
            raise ValueError("no points")
        kind = Custom.plan.get(Custom.frame)
        if kind:
            self.offset = self.offset + 1000.0
            Custom.fired.append(kind)
        if kind == "getter_raises":
            raise RuntimeError("injected")
        if kind == "getter_bad_result":
            return 5
        flow = np.median(curr_pts - prev_pts, axis=0)
        total = self.offset + flow
        spread = np.median(np.abs(curr_pts - prev_pts - flow))
        moved = bool(np.abs(flow).max() > 12 or spread > 3)
        if moved:
            self.offset = total
        return moved, TranslationTransformation(total)

    fired = []


ROUTINES = {
    "features_raise": "goodFeaturesToTrack",
    "features_none": "goodFeaturesToTrack",
    "flow_raises": "calcOpticalFlowPyrLK",
    "flow_lost": "calcOpticalFlowPyrLK",
    "flow_few": "calcOpticalFlowPyrLK",
    "flow_none": "calcOpticalFlowPyrLK",
    "homography_raises": "findHomography",
    "homography_none": "findHomography",
}
HOMOGRAPHY = ("homography", "default")


FRAMES = ("blank", "white", "occluded", "small", "large")


class Caller:
    """Hands out frames and masks: new arrays, or always the same ones with new contents."""

    def __init__(self, ctx, reuse):
        self.ctx, self.reuse, self.kept = ctx, reuse, {}

    def give(self, what, array):
        if array is None or not self.reuse:
            return array
        kept = self.kept.get(what)
        if kept is None or kept.shape != array.shape:
            self.kept[what] = array
            return array
        self.ctx.fault(what + "_reused")
        kept[...] = array
        return kept


class Optics:
    """A simulated scene, camera and point tracker behind OpenCV's vision routines.

    Static scene points lie on a plane, objects carry points of their own.  Frames only
    encode their number; features and their flow are computed from the true motion, with
    points leaving the view lost, a generated share of points tracked to wrong places and
    arbitrary flow from and to frames that show something else.
    """

    VIEW = (180, 240)

    def __init__(self, ctx, key, prop, density=520.0):
        self.ctx, self.key, self.prop = ctx, key, prop
        rng = np.random.RandomState(h64(("scene", key)) % (1 << 31))
        n = int(1400 * 1400 / density)
        self.scene = rng.uniform(-580, 820, (n, 2))
        self.motion = {}  # frame number -> matrix from absolute to frame coordinates
        self.objects = {}  # frame number -> [(object, x, y, side)]
        self.bad = {}  # frame number -> kind of frame that shows something else
        self.outliers = {}  # frame number -> share of points tracked wrongly
        self.names = {}  # content of a gray frame -> frame number
        self.owner = {}  # (frame number, point) -> object
        self.samplings = 0
        self.sampled = {}  # frame number -> number of points

    def frame(self, t, view=None):
        h, w = view or self.VIEW
        out = np.full((h, w, 3), 40, np.uint8)
        out[0, :6] = np.array([[(t >> (4 * k)) % 16 * 16] * 3 for k in range(6)], np.uint8)
        gray = cv2.cvtColor(out, cv2.COLOR_BGR2GRAY)
        self.names[gray.tobytes()] = t
        return out

    def number(self, gray):
        got = self.names.get(np.asarray(gray).tobytes())
        if got is None:
            raise cv2.error("unknown image")
        return got

    def rng(self, *what):
        return np.random.RandomState(h64((self.key,) + what) % (1 << 31))

    def spots(self, k, side):
        """Points of object k relative to its corner."""
        rng = self.rng("object", k)
        return rng.uniform(3, side - 3, (max(6, int(side * side / 90)), 2))

    def features(
        self, real, image=None, maxCorners=100, qualityLevel=0, minDistance=0, corners=None,
        mask=None, *args, **kwargs
    ):  # pylint: disable=invalid-name
        gray = image
        t = self.number(gray)
        self.samplings += 1
        h, w = gray.shape[:2]
        kind = self.bad.get(t)
        if kind in ("blank", "white"):
            return None
        if kind:  # something else is in view
            pts = self.rng("other", t).uniform(3, min(h, w) - 3, (90, 2))
            owner = [None] * len(pts)
        else:
            pts = apply(self.motion[t], self.scene)
            pts = pts[((pts > 2) & (pts < (w - 2, h - 2))).all(axis=1)]
            keep = np.ones(len(pts), bool)
            extra, owner = [], []
            for k, x, y, side in self.objects.get(t, []):
                keep &= ~(((pts >= (x, y)) & (pts < (x + side, y + side))).all(axis=1))
                q = self.spots(k, side) + (x, y)
                q = q[((q > 2) & (q < (w - 2, h - 2))).all(axis=1)]
                extra.append(q)
                owner += [k] * len(q)
            pts = pts[keep]
            owner = [None] * len(pts) + owner
            pts = np.vstack([pts] + extra)
        if mask is not None:
            if mask.shape != gray.shape:
                raise cv2.error("mask and image differ in size")
            ok = mask[pts[:, 1].astype(int), pts[:, 0].astype(int)] != 0
            pts, owner = pts[ok], [o for o, k in zip(owner, ok) if k]
        order = self.rng("order", t).permutation(len(pts))[:maxCorners]
        if len(order) == 0:
            return None
        self.sampled[t] = len(order)
        pts = pts[order].astype(np.float32)
        for p, o in zip(pts, order):
            if owner[o] is not None:
                self.owner[(t, p.tobytes())] = owner[o]
        return pts.reshape(-1, 1, 2)

    def flow(self, real, prevImg=None, nextImg=None, prevPts=None, *args, **kwargs):
        # pylint: disable=invalid-name
        prev, nxt, pts = prevImg, nextImg, prevPts
        if prev.shape != nxt.shape:
            raise cv2.error("frames differ in size")
        if not isinstance(pts, np.ndarray) or pts.dtype != np.float32 or pts.shape[-1] != 2:
            raise cv2.error("bad points")
        a, b = self.number(prev), self.number(nxt)
        p = pts.reshape(-1, 2)
        n = len(p)
        h, w = nxt.shape[:2]
        rng = self.rng("flow", a, b)
        if self.bad.get(a) or self.bad.get(b):
            # a textured picture is never found again in another one without moving
            how = 2 if a == b else rng.randint(2 if self.bad.get(a) else 3)
            self.ctx.probe(["flow_all_lost", "flow_arbitrary", "flow_zero"][how])
            out = p + rng.uniform(-90, 90, (n, 2)) * (how == 1)
            status = np.full(n, how != 0)
        else:
            out = apply(self.motion[b] @ np.linalg.inv(self.motion[a]), p.astype(float))
            where_a = {k: (x, y) for k, x, y, _ in self.objects.get(a, [])}
            where_b = {k: (x, y, s) for k, x, y, s in self.objects.get(b, [])}
            moving = np.zeros(n, bool)
            hidden = np.zeros(n, bool)
            for k, (x, y, s) in where_b.items():
                hidden |= ((out >= (x, y)) & (out < (x + s, y + s))).all(axis=1)
            for i in range(n):
                k = self.owner.get((a, p[i].tobytes()))
                if k is None:
                    continue
                moving[i] = True
                if k in where_b:
                    out[i] = p[i] + (np.array(where_b[k][:2]) - where_a[k])
                else:
                    out[i] = -99
            status = ((out > 0) & (out < (w, h))).all(axis=1)
            status &= moving | ~hidden
            # points tracked to wrong places
            if a != b:
                alive = np.flatnonzero(status & ~moving)
                share = self.outliers.get(b, 0.0)
                count = int(share * len(alive))
                if len(alive) < max(16, 0.45 * self.sampled.get(a, 0)):
                    # seen from far away from the reference, more points are tracked badly
                    count = math.ceil((1 - self.prop) * len(alive)) + 1
                    self.ctx.probe("few_points_left")
                wrong = rng.permutation(alive)[: min(count, len(alive) // 3)]
                angle = rng.uniform(0, 2 * math.pi, len(wrong))
                dist = rng.uniform(25, 80, len(wrong))
                out[wrong] += np.stack([dist * np.cos(angle), dist * np.sin(angle)], axis=1)
        return (
            out.astype(np.float32).reshape(-1, 1, 2),
            status.astype(np.uint8).reshape(-1, 1),
            np.zeros((n, 1), np.float32),
        )

    def hooks(self):
        return {"goodFeaturesToTrack": self.features, "calcOpticalFlowPyrLK": self.flow}


class BadFramesC23(Scenario):
    name = "motion_bad_frames"
    quick = 1500
    thorough = 40000
    list_keys = ("bad",)
    rule = (
        "A camera panning over a scene for 8-40 frames; generated frames are blank, white,"
        " covered by something else, of another size, or one of the vision routines or the"
        " transformation getter fails in them (raises, finds nothing, returns garbage). Three"
        " of four runs use simulated point features and flow, the rest rendered frames."
    )
    time_unit = "frames"
    state_measure = "distinct (getter, kinds and positions of bad frames)"
    real = REAL
    stub = (
        "feature detection and optical flow (simulated scene; real in a quarter of the runs)",
        "OpenCV routines at the calls where a failure is injected",
        "camera (generated frames)",
    )

    def gen(self, rng, tier):
        n = rng.choice([8, 14, 25, 40])
        getter = rng.choice(["translation", "homography", "default", "custom"])
        rendered = getter not in HOMOGRAPHY and rng.random() < 0.4
        if rendered:
            n = min(n, 25)
        # OpenCV sometimes follows one or two stray points into a flat picture
        kinds = (["occluded"] if rendered else ["blank", "white", "occluded"]) + ["small", "large", "masked"]
        kinds += [
            k
            for k, r in ROUTINES.items()
            if getter in HOMOGRAPHY or not (r == "findHomography" or k == "flow_few")
        ]
        if getter == "custom":
            kinds += ["getter_raises"] * 4 + ["getter_bad_result"] * 3
        bad = {}
        for _ in range(rng.choice([1, 1, 2, 3, 6])):
            start = rng.choice([0, 1, rng.randrange(n), rng.randrange(n)])
            same = rng.choice([None, rng.choice(kinds)])
            for t in range(start, min(n, start + rng.choice([1, 1, 2, 4]))):
                bad[t] = same or rng.choice(kinds)
        speed = rng.choice([0.0, 1.0, 3.0, 6.0, 11.0] if not rendered else [0.0, 1.0, 3.0, 5.0])
        ang = rng.uniform(0, 2 * math.pi)
        return {
            "n": n,
            "getter": getter,
            "rendered": rendered,
            "bad": sorted([t, k] for t, k in bad.items()),
            "step": [round(speed * math.cos(ang), 3), round(speed * math.sin(ang), 3)],
            "turn": rng.choice([0, 5, 9]),
            "wrong": rng.choice([0.0, 0.0, 0.05, 0.16]),
            "mask": rng.choice([False, False, False, True, True, "sometimes"]),
            "draw": rng.random() < 0.2,
            "scene": rng.choice([1, 2, 3]),
            "key": rng.randrange(1 << 20),
            "reuse": rng.random() < 0.4,
        }

    def simplify_plan(self, plan):
        if plan["n"] > 4:
            yield dict(plan, n=plan["n"] - 1, bad=[b for b in plan["bad"] if b[0] < plan["n"] - 1])
        for key, val in (("mask", False), ("draw", False), ("turn", 0), ("wrong", 0.0), ("reuse", False)):
            if plan[key] != val:
                yield dict(plan, **{key: val})

    def exec(self, plan, ctx):
        view = (160, 220) if plan["rendered"] else Optics.VIEW
        getter = {
            "translation": TranslationTransformationGetter,
            "homography": HomographyTransformationGetter,
            "default": lambda: None,
            "custom": Custom,
        }[plan["getter"]]()
        bad = {int(t): k for t, k in plan["bad"]}
        Custom.plan = {t: k for t, k in bad.items() if k.startswith("getter")}
        Custom.seen = []
        Custom.fired = []
        est = ctx.call(
            "MotionEstimator()",
            MotionEstimator,
            max_points=120,
            min_distance=9,
            transformations_getter=getter,
            draw_flow=plan["draw"],
        )
        optics = Optics(ctx, plan["key"], 0.9)
        optics.bad = {t: k for t, k in bad.items() if k in FRAMES}
        pts = grid(view)
        off = np.zeros(2)
        step = np.array(plan["step"])
        caller = Caller(ctx, plan["reuse"])
        run = []  # good frames since the last bad one: [(t, position, transformation)]
        drift = 0
        for t in range(plan["n"]):
            if plan["turn"] and t and t % plan["turn"] == 0:
                step = np.array([-step[1], step[0]])
            if np.abs(off + step).max() > 350:
                step = -step
            off = off + step
            kind = bad.get(t)
            mask = np.ones(view, np.uint8) if plan["mask"] else None
            if mask is not None:
                mask[:30] = 0
                if plan["mask"] == "sometimes" and u01(plan["key"], t, "mask") < 0.5:
                    mask = None
                    ctx.fault("mask_left_out")
            hooks = {}
            if plan["rendered"]:
                pos = off + (400.0, 350.0)
                frame = render(scene(plan["scene"]), view, shift(-pos[0], -pos[1]))
                frame, mask = self.spoil(kind, frame, mask, t)
            else:
                optics.motion[t] = shift(-off[0], -off[1])
                optics.outliers[t] = plan["wrong"]
                size = {"small": (140, 100), "large": (260, 300)}.get(kind, view)
                frame = optics.frame(t, size)
                if mask is not None and size != view:
                    mask = np.ones(size, np.uint8)
                if kind == "masked":
                    mask = np.zeros(size, np.uint8)
                hooks.update(optics.hooks())
            frame, mask = caller.give("frame", frame), caller.give("mask", mask)
            Custom.frame = t
            fired = []
            hooks.update(self.failure(kind, fired, int(u01(plan["key"], t) * 4)))
            keep = frame.copy()
            before = optics.samplings
            with seams.hooks(**hooks):
                tr = ctx.call(f"update with frame {t} ({kind or 'good'})", est.update, frame, mask)
            ctx.check(
                plan["draw"] or np.array_equal(keep, frame), "modified", "update modifies the frame"
            )
            ctx.steps += 1
            ctx.simtime += 1
            if kind in ROUTINES:
                for _ in fired:
                    ctx.fault(kind)
            elif kind in ("getter_raises", "getter_bad_result"):
                if kind in Custom.fired:
                    ctx.fault(kind)
                Custom.fired = []
            elif kind:
                ctx.fault("frame_" + kind)
            ctx.check(
                tr is None or (hasattr(tr, "rel_to_abs") and hasattr(tr, "abs_to_rel")),
                "result",
                lambda: f"frame {t} ({kind}): update returns {tr!r}",
            )
            ctx.log(t, kind, tr is None)
            if kind:
                run = []
                continue
            run.append((t, off.copy(), tr))
            if len(run) < 2:
                continue
            drift = 0 if len(run) == 2 else drift + (optics.samplings - before)
            ctx.check(
                tr is not None,
                "no_recovery",
                lambda: f"frame {t}: no transformation in good frame {len(run)} after the bad one",
            )
            t0, off0, tr0 = run[1]
            here = pts + off0 - off  # the same static points seen now
            inside = ((here > 0) & (here < (view[1], view[0]))).all(axis=1)
            if not inside.any():
                continue
            try:
                a0 = np.asarray(tr0.rel_to_abs(pts[inside]))
                back = np.asarray(tr.abs_to_rel(a0))
                a1 = np.asarray(tr.rel_to_abs(here[inside]))
                same = np.abs(np.asarray(tr0.abs_to_rel(a0)) - pts[inside]).max()
            except Exception as e:  # pylint: disable=broad-except
                ctx.check(False, "exception", f"frame {t}: converting points raised {type(e).__name__}: {e}")
            if not same < 0.05 and plan["getter"] in HOMOGRAPHY:
                # a bad frame that was matched by chance has made the absolute coordinates
                # degenerate: positions in them cannot be compared
                ctx.probe("degenerate_coordinates")
                continue
            err = np.abs(back - here[inside]).max()
            if plan["getter"] not in HOMOGRAPHY:
                err = max(err, np.abs(a0 - a1).max())
            tol = 3.0 if plan["rendered"] else 1.0 + 0.1 * drift
            ctx.check(
                err < tol,
                "drift",
                lambda: f"frame {t}, {len(run)} good frames after a failure: static points have moved by"
                f" {err:.2f} px since frame {t0} (bad frames: {plan['bad']})",
            )
        self.leaks(plan, ctx, bad)
        ctx.state((plan["getter"], str(plan["bad"])))

    @staticmethod
    def leaks(plan, ctx, bad):
        """After a failure the getter is called in its pristine state."""
        if plan["getter"] != "custom":
            return
        before = None
        for frame, calls, tries in Custom.seen:
            if before is not None and Custom.plan.get(before):
                ctx.check(
                    calls == 0 and tries == 0,
                    "leak",
                    lambda: f"frame {frame}: the getter that failed in frame {before} is called with"
                    f" state of {calls} earlier calls",
                )
            before = frame

    @staticmethod
    def spoil(kind, frame, mask, t):
        if kind == "blank":
            frame = np.zeros_like(frame)
        elif kind == "white":
            frame = np.full_like(frame, 255)
        elif kind == "occluded":
            frame = np.random.RandomState(t).randint(0, 256, frame.shape).astype(np.uint8)
        elif kind in ("small", "large"):
            size = (140, 100) if kind == "small" else (260, 300)
            frame = cv2.resize(frame, size)
            if mask is not None:
                mask = np.ones(frame.shape[:2], np.uint8)
        elif kind == "masked":
            mask = np.zeros(frame.shape[:2], np.uint8)
        return frame, mask

    @staticmethod
    def failure(kind, fired, few):
        if kind not in ROUTINES:
            return {}
        name = ROUTINES[kind]

        def raising(real, *args, **kwargs):
            fired.append(kind)
            raise cv2.error("injected")

        def features_none(real, *args, **kwargs):
            fired.append(kind)
            return None

        def flow_lost(real, prevImg=None, nextImg=None, prevPts=None, *args, **kwargs):
            pts = prevPts
            fired.append(kind)
            n = len(pts)
            return np.zeros((n, 1, 2), np.float32), np.zeros((n, 1), np.uint8), np.zeros((n, 1), np.float32)

        def flow_few(real, prevImg=None, nextImg=None, prevPts=None, *args, **kwargs):
            pts = prevPts
            fired.append(kind)
            n = len(pts)
            status = np.zeros((n, 1), np.uint8)
            status[:few] = 1
            return np.array(pts, np.float32) + 1, status, np.zeros((n, 1), np.float32)

        def none3(real, *args, **kwargs):
            fired.append(kind)
            return None, None, None

        def none2(real, *args, **kwargs):
            fired.append(kind)
            return None, None

        fn = {
            "features_none": features_none,
            "flow_lost": flow_lost,
            "flow_few": flow_few,
            "flow_none": none3,
            "homography_none": none2,
        }.get(kind, raising)
        return {name: fn}


class AccuracyC24(Scenario):
    name = "motion_accuracy"
    quick = 700
    thorough = 20000
    list_keys = ()
    rule = (
        "A camera moving over a scene for 15-80 frames (pans with turns and pauses; for"
        " homographies also rotation, zoom and tilt), with up to three moving objects in view,"
        " small or masked, and generated shares of wrongly tracked points; static points are"
        " followed through all returned transformations. A sixth of the runs uses rendered"
        " frames and OpenCV's features and flow (translations), the rest simulated ones."
    )
    time_unit = "frames"
    state_measure = "distinct (getter, trajectory key, moving objects, mask)"
    real = REAL
    stub = (
        "feature detection and optical flow (simulated scene; real in a sixth of the runs)",
        "camera (generated frames)",
    )
    assumptions = (
        "consecutive frames overlap by at least 90 %; at most 20 % of the sampled points are"
        " tracked wrongly or belong to moving objects; tolerance half a bin per change of"
        " reference plus 0.5 px (translation), 1 px (homography), 4-5 px with rendered frames",
    )

    def gen(self, rng, tier):
        kind = rng.choice(["translation", "homography"])
        rendered = kind == "translation" and rng.random() < 0.33
        n = rng.choice([20, 40, 60]) if rendered else rng.choice([15, 30, 50, 80])
        top = 6.0 if rendered else 11.0
        moves = []
        vel = [0.0, 0.0]
        wrong = 0.0
        for t in range(n):
            if t % 8 == 0:
                s = rng.choice([0.0, 1.0, 3.0, top])
                a = rng.uniform(0, 2 * math.pi)
                vel = [s * math.cos(a), s * math.sin(a)]
            if rng.random() < 0.3:
                wrong = rng.choice([0.0, 0.0, 0.04, 0.08, 0.11])
            m = {"v": [round(v, 3) for v in vel], "w": wrong}
            if kind == "homography":
                m["r"] = round(rng.uniform(-1.5, 1.5), 3)
                m["z"] = round(rng.uniform(-0.01, 0.01), 5)
                m["p"] = [round(rng.uniform(-6e-6, 6e-6), 8), round(rng.uniform(-6e-6, 6e-6), 8)]
            moves.append(m)
        masked = rng.random() < 0.5
        return {
            "kind": kind,
            "rendered": rendered,
            "moves": moves,
            "objects": rng.choice(
                [0, 0, 1, 3] if rendered or masked else [0, 0, 1] if kind == "translation" else [0]
            ),
            "mask": masked,
            "reuse": rng.random() < 0.4,
            "size": 36 if rendered else (rng.choice([36, 60, 80]) if masked else 24),
            "scene": rng.choice([11, 12, 13, 14]),
            "prop": rng.choice([0.9, 0.9, 0.8]) if rendered else rng.choice([0.9, 0.9, 0.8, 0.97]),
            "bin": rng.choice([0.2, 0.2, 0.1]),
            "pts": rng.choice([120, 200]),
            "key": rng.randrange(1 << 20),
        }

    def simplify_plan(self, plan):
        m = plan["moves"]
        for k in (len(m) // 2, len(m) - 1):
            if 2 < k < len(m):
                yield dict(plan, moves=m[:k])
        if plan["objects"]:
            yield dict(plan, objects=0)
        if plan["mask"]:
            yield dict(plan, mask=False, size=24, objects=min(1, plan["objects"]))
        if plan["reuse"]:
            yield dict(plan, reuse=False)

    def exec(self, plan, ctx):
        view = Optics.VIEW
        if plan["kind"] == "translation":
            getter = TranslationTransformationGetter(plan["bin"], plan["prop"])
        else:
            getter = HomographyTransformationGetter(proportion_points_used_threshold=plan["prop"])
        est = MotionEstimator(
            max_points=plan["pts"], min_distance=8, transformations_getter=getter
        )
        optics = Optics(ctx, plan["key"], plan["prop"])
        caller = Caller(ctx, plan["reuse"])
        origin = np.array([500.0, 430.0])
        centre = shift(view[1] / 2, view[0] / 2)
        uncentre = shift(-view[1] / 2, -view[0] / 2)
        # motion: maps first-frame (absolute) coordinates to the current frame
        motion = np.eye(3)
        off = np.zeros(2)
        pts = grid(view)
        self.identities(plan, ctx)
        for t, m in enumerate(plan["moves"]):
            if t:
                v = np.array(m["v"])
                if np.abs(off + v).max() > 330:
                    v = -v
                off = off + v
                delta = shift(-v[0], -v[1])
                if plan["kind"] == "homography":
                    a, z = math.radians(m["r"] if t % 12 < 6 else -m["r"]), 1 + m["z"]
                    rot = np.array(
                        [
                            [z * math.cos(a), -z * math.sin(a), 0],
                            [z * math.sin(a), z * math.cos(a), 0],
                            [m["p"][0], m["p"][1], 1],
                        ]
                    )
                    delta = centre @ rot @ uncentre @ delta
                motion = delta @ motion
                if np.abs(v).max() > 0:
                    ctx.fault("camera_moves")
                else:
                    ctx.fault("camera_pauses")
            mask = np.ones(view, np.uint8) if plan["mask"] else None
            places = []
            side = plan["size"]
            for k in range(plan["objects"]):
                x = int((u01(plan["key"], k) * view[1] + (k + 2.3) * t * 3.1) % (view[1] + side + 4)) - side
                y = int(u01(plan["key"], k, "y") * (view[0] - side - 4))
                places.append((k, x, y, side))
            if plan["rendered"]:
                frame = render(
                    scene(plan["scene"], (1100, 1300)), view, motion @ shift(-origin[0], -origin[1])
                )
            else:
                optics.motion[t] = motion
                optics.objects[t] = places
                optics.outliers[t] = m["w"]
                if m["w"]:
                    ctx.fault("wrongly_tracked_points")
                frame = optics.frame(t)
            for k, x, y, _ in places:
                x0, x1 = max(0, x), min(view[1], x + side)
                if x1 > x0:
                    if plan["rendered"]:
                        tile = np.random.RandomState(77 + k).randint(0, 256, (6, 6, 3)).astype(np.uint8)
                        patch = cv2.resize(tile, (side, side), interpolation=cv2.INTER_NEAREST)
                        frame[y : y + side, x0:x1] = patch[:, x0 - x : x1 - x]
                    ctx.fault("moving_object_in_view")
                    if mask is not None:
                        mask[y : y + side, x0:x1] = 0
            frame, mask = caller.give("frame", frame), caller.give("mask", mask)
            keep = frame.copy()
            with seams.hooks(**({} if plan["rendered"] else optics.hooks())):
                tr = ctx.call(f"update with frame {t}", est.update, frame, mask)
            ctx.check(np.array_equal(keep, frame), "modified", "update modifies the frame")
            ctx.steps += 1
            ctx.simtime += 1
            ctx.check(tr is not None, "no_result", lambda: f"no transformation for frame {t}")
            # static points visible in this frame, and their absolute positions
            absolute = apply(np.linalg.inv(motion), pts)
            got = np.asarray(tr.rel_to_abs(pts))
            seen = np.asarray(tr.abs_to_rel(absolute))
            err = max(np.abs(got - absolute).max(), np.abs(seen - pts).max())
            if plan["rendered"]:
                tol = 4.0 + 0.02 * t
            elif plan["kind"] == "translation":
                tol = 0.5 + 0.5 * plan["bin"] * optics.samplings
            else:
                tol = 1.0
            ctx.check(
                err <= tol,
                "drift",
                lambda: f"frame {t}: static points are {err:.2f} px off ({plan['kind']}, tolerance {tol:.2f})",
            )
            ctx.probe(
                ("rendered" if plan["rendered"] else plan["kind"]) + f"_error_below_{math.ceil(err * 2) / 2:g}px"
            )
            back = np.asarray(tr.rel_to_abs(np.asarray(tr.abs_to_rel(absolute))))
            ctx.check(
                close(back, absolute, 1e-6),
                "round_trip",
                lambda: f"frame {t}: absolute points change by {np.abs(back - absolute).max()} in a round trip",
            )
            ctx.log(t, np.round(got[0], 3).tolist())
        ctx.probe("reference_changes", max(0, optics.samplings - 1))
        ctx.state((plan["kind"], plan["key"], plan["objects"], plan["mask"]))

    @staticmethod
    def identities(plan, ctx):
        """Converting back and forth is the identity, for any transformation, and pure."""
        rng = np.random.RandomState(plan["key"])
        for n in (1, 2, 5):
            pts = rng.uniform(-500, 2000, (n, 2))
            mat = np.eye(3) + rng.uniform(-0.2, 0.2, (3, 3))
            mat[:2, 2] = rng.uniform(-300, 300, 2)
            mat[2] = [rng.uniform(-1e-5, 1e-5), rng.uniform(-1e-5, 1e-5), 1]
            for tr in (
                HomographyTransformation(mat),
                TranslationTransformation(rng.uniform(-300, 300, 2)),
            ):
                keep = pts.copy()
                a = tr.rel_to_abs(tr.abs_to_rel(pts))
                b = tr.abs_to_rel(tr.rel_to_abs(pts))
                ctx.check(
                    close(a, keep, 1e-9) and close(b, keep, 1e-9) and np.array_equal(pts, keep),
                    "round_trip",
                    lambda: f"{type(tr).__name__}: {keep.tolist()} becomes {a.tolist()} and {b.tolist()}",
                )


SCENARIOS = {"C23": BadFramesC23, "C24": AccuracyC24}

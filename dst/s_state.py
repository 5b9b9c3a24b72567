"""C34 bounded memory over endless streams, C35 isolation of estimators and drawers."""
import gc
import hashlib
import os
import sys
import types
import weakref
from collections import deque

import cv2
import numpy as np

from . import seams
from . import world as w
from .core import Scenario, h64, run_forked, u01
from .s_threads import gen_schedule, note_schedule, shrink_schedule
from .s_video import Scratch, gen_clock, make_clock, touch
from .sched import Scheduler

import norfair
from norfair import Detection, Tracker, Video
from norfair.camera_motion import (
    HomographyTransformation,
    HomographyTransformationGetter,
    MotionEstimator,
    TranslationTransformation,
    TranslationTransformationGetter,
)
from norfair.drawing import AbsolutePaths, FixedCamera, Paths, draw_absolute_grid
from norfair.metrics import PredictionsTextFile


def texture(key, shape, off=(0, 0)):
    """A picture with corners, moved by off."""
    h, wd = shape
    rng = np.random.RandomState(h64(("texture", key)) % (1 << 31))
    base = np.kron(rng.randint(0, 256, (h // 6 + 14, wd // 6 + 14)), np.ones((6, 6))).astype(np.uint8)
    y, x = 30 + int(off[1]), 30 + int(off[0])
    gray = base[y : y + h, x : x + wd]
    return np.ascontiguousarray(np.repeat(gray[:, :, None], 3, axis=2))


# ------------------------------------------------------------------ C34
def census(roots):
    """Number of things and bytes of arrays that norfair keeps reachable from the roots."""
    seen, count, size = set(), 0, 0
    todo = list(roots)
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        if isinstance(x, (str, bytes, int, float, bool, type(None), types.ModuleType)):
            count += 1
            continue
        seen.add(id(x))
        count += 1
        if isinstance(x, np.ndarray):
            size += x.nbytes
            if x.dtype == object:
                todo.extend(x.ravel().tolist())
            continue
        if isinstance(x, dict):
            todo.extend(x.keys())
            todo.extend(x.values())
        elif isinstance(x, (list, tuple, set, frozenset, deque)):
            todo.extend(x)
        elif isinstance(x, types.FunctionType):
            if x.__module__ and x.__module__.startswith("norfair"):
                todo.extend(x.__defaults__ or ())
                todo.extend((x.__kwdefaults__ or {}).values())
                todo.extend(x.__dict__.values())
                for cell in x.__closure__ or ():
                    try:
                        todo.append(cell.cell_contents)
                    except ValueError:
                        pass
        elif isinstance(x, types.MethodType):
            todo.append(x.__self__)
            todo.append(x.__func__)
        elif hasattr(x, "cache_info"):
            count += x.cache_info().currsize
        elif isinstance(x, type):
            if x.__module__.startswith("norfair"):
                todo.extend(v for k, v in vars(x).items() if not k.startswith("__"))
        elif type(x).__module__.startswith(("norfair", "filterpy", "dst")):
            todo.extend(getattr(x, "__dict__", {}).values())
    return count, size


def module_globals():
    out = []
    for name, mod in sorted(sys.modules.items()):
        if name == "norfair" or name.startswith("norfair."):
            out.extend(v for k, v in vars(mod).items() if not k.startswith("__"))
    return out


class StreamC34(Scenario):
    name = "bounded_memory"
    quick = 260
    thorough = 6000
    list_keys = ("ops",)
    rule = (
        "A stream that repeats a generated scene 5-9 times (objects with dropouts, gaps, ReID,"
        " moving camera, failing updates, unreadable frames) through Video, MotionEstimator,"
        " Tracker, path drawing, stabilization and the predictions file; every frame,"
        " detection and object is followed by a weak reference, and everything reachable"
        " from the components and from norfair's modules is counted after each repetition."
    )
    state_measure = "distinct (frames, detections, objects alive) after an update"
    real = ("norfair.video", "norfair.tracker", "norfair.filter", "norfair.camera_motion", "norfair.drawing",
            "norfair.metrics.PredictionsTextFile", "OpenCV (vision and drawing)")
    stub = ("video devices, GUI, clock", "detector", "distance function")
    assumptions = ("AbsolutePaths may keep one path per object id for ever",)

    def gen(self, rng, tier):
        cfg = w.gen_cfg(rng, reid=rng.random() < 0.5, filters=("opt", "opt", "fpy", "none"))
        frames = rng.choice([4, 8, 12])
        ops = w.gen_history(rng, cfg, frames, rng.choice([1, 2, 4]), None, spurious=rng.choice([0, 0.5]))
        for op in ops:
            for d in op["d"]:
                d["pts"] = [[round(v / 10 + 40, 4) for v in p] for p in d["pts"]]
            if rng.random() < 0.08:
                op["fail"] = rng.choice([1, 1, 2, 3])
            if rng.random() < 0.5:
                op["cam"] = [rng.randint(-6, 6), rng.randint(-6, 6)]
        return {
            "cfg": cfg,
            "ops": ops,
            "table": w.gen_table(rng, clean=rng.random() < 0.6),
            "repeats": rng.choice([5, 6, 9]),
            "use": [c for c in ("motion", "paths", "absolute", "fixed", "grid", "preds", "video", "boxes") if rng.random() < 0.6],
            "getter": rng.choice(["translation", "homography"]),
            "clock": gen_clock(rng),
            "key": rng.randrange(1 << 20),
            "mask": rng.random() < 0.5,
            "steady": None
            if rng.random() < 0.6
            else {
                "distance": rng.choice(["scalar", "scalar", "euclidean", "mean_euclidean", "cosine"]),
                "miss": rng.choice([0, 0, 5, 6]),
                "drop": rng.random() < 0.5,
                "drift": rng.choice([0.0, 0.01]),
                "camera": rng.random() < 0.5,
            },
        }

    def simplify_op(self, op):
        yield from w.simplify_frame_op(op)
        for key in ("fail", "cam"):
            if key in op:
                yield {k: v for k, v in op.items() if k != key}

    def simplify_plan(self, plan):
        for k in range(len(plan["use"])):
            yield dict(plan, use=plan["use"][:k] + plan["use"][k + 1 :])
        if plan["cfg"]["reid"]:
            yield dict(plan, cfg=dict(plan["cfg"], reid=None))
        if plan["steady"]:
            yield dict(plan, steady=None)
            yield dict(plan, ops=plan["ops"][:1], repeats=3, use=[])
            for key, val in (("miss", 0), ("drop", False), ("drift", 0.0), ("camera", False), ("distance", "scalar")):
                if plan["steady"][key] != val:
                    yield dict(plan, steady=dict(plan["steady"], **{key: val}))

    def exec(self, plan, ctx):
        if plan["steady"]:
            self.steady(plan, ctx)
        with Scratch() as root, make_clock(plan, ctx):
            self.stream(plan, ctx, root)

    def steady(self, plan, ctx):
        """Objects that stay in view for ever."""
        cfg, how = plan["cfg"], plan["steady"]
        distance, threshold = how["distance"], 1e6
        if distance == "scalar":

            def distance(d, o):
                return float(np.abs(d.points - o.estimate).mean())

        tracker = ctx.call(
            "Tracker()", w.make_tracker, cfg, distance, threshold,
            lambda a, b: float(np.abs(a.estimate - b.estimate).mean()),
        )
        paths = Paths() if "paths" in plan["use"] else None
        comps = [tracker] + [paths] * (paths is not None)
        frame = np.zeros((40, 60, 3), np.uint8)
        start = np.array([[10.0 + 2 * k + k * i for i in range(cfg["dim"])] for k in range(cfg["n_points"])])
        counts = []
        for block in range(4):
            for t in range(60):
                ctx.steps += 1
                ctx.simtime += 1
                scores = None
                if how["drop"]:
                    scores = np.full(cfg["n_points"], cfg["det_thr"] + 1.0)
                    scores[t % 3 :: 3] = cfg["det_thr"] - 1.0
                points = start + how["drift"] * (60 * block + t)
                dets = [
                    norfair.Detection(points + 500.0 * k, scores=scores, label=k, data={"u": t})
                    for k in range(2)
                ]
                if how["miss"] and t % how["miss"] == 3:
                    dets = []
                    ctx.fault("frame_without_detections")
                tr = TranslationTransformation(np.array([t % 5, 1.0])) if how["camera"] and cfg["dim"] == 2 else None
                objs = ctx.call("update", tracker.update, dets, 1, tr)
                if paths is not None and cfg["dim"] == 2:
                    ctx.call("Paths.draw", paths.draw, frame, objs)
                dets = objs = None
            counts.append(census(comps + module_globals()))
        ctx.fault("objects_in_view_for_ever")
        ctx.check(
            counts[3][0] - counts[1][0] < 20 and counts[3][1] - counts[1][1] < 400,
            "growth",
            lambda: "things and bytes of arrays reachable from a tracker of two objects that stay in view"
            f" after each 60 updates: {counts}",
        )

    def stream(self, plan, ctx, root):
        cfg, use = plan["cfg"], set(plan["use"])
        table = w.Table(plan["table"])
        rtable = w.Table(dict(plan["table"], key=plan["table"]["key"] ^ 0x5A5A, scale=1.0, shift=0.0))
        arm = [0]

        def distance(d, o):
            if arm[0]:
                arm[0] -= 1
                if arm[0] == 0:
                    raise RuntimeError("injected failure (distance)")
            return table.between(d, o)

        threshold = plan["table"]["scale"] + plan["table"].get("shift", 0.0)
        tracker = ctx.call("Tracker()", w.make_tracker, cfg, distance, threshold, rtable.between)
        frames, dets_alive, objs_alive = {}, {}, {}
        feed = {"n": 0}
        shape = (60, 84)

        class Cap:
            def isOpened(self):
                return True

            def get(self, prop):
                return {cv2.CAP_PROP_FRAME_COUNT: 1e6, cv2.CAP_PROP_FPS: 25.0,
                        cv2.CAP_PROP_FRAME_HEIGHT: float(shape[0]), cv2.CAP_PROP_FRAME_WIDTH: float(shape[1])}.get(prop, 0.0)

            def read(self, *_a):
                return True, make_frame()

            def release(self):
                pass

        class Out:
            def isOpened(self):
                return True

            def write(self, frame):
                pass

            def release(self):
                pass

        def make_frame():
            k = feed["n"]
            feed["n"] += 1
            op = plan["ops"][k % period] if k % period < len(plan["ops"]) else {}
            img = texture(plan["key"], shape, op.get("cam", (0, 0)))
            frames[k] = weakref.ref(img)
            return img

        # a repetition ends when everything has died
        rid = cfg["reid"]["max"] + 4 if cfg["reid"] else 0
        period = len(plan["ops"]) + 2 * cfg["hit_max"] + 18 + rid
        touch(os.path.join(root, "in.mp4"))
        os.makedirs(os.path.join(root, "seq"))
        hooks = dict(
            VideoCapture=lambda real, *a, **k: Cap(),
            VideoWriter=lambda real, *a, **k: Out(),
            imshow=lambda real, *a, **k: None,
            waitKey=lambda real, *a, **k: -1,
            destroyAllWindows=lambda real, *a, **k: None,
        )
        with seams.hooks(**hooks):
            comps = {"tracker": tracker}
            video = it = None
            if "video" in use:
                video = ctx.call(
                    "Video()", Video, input_path=os.path.join(root, "in.mp4"), output_path=root
                )
                comps["video"] = video
                it = iter(video)
            if "motion" in use:
                getter = TranslationTransformationGetter if plan["getter"] == "translation" else HomographyTransformationGetter
                comps["motion"] = MotionEstimator(max_points=60, min_distance=6, transformations_getter=getter())
            if "paths" in use:
                comps["paths"] = Paths()
            if "fixed" in use:
                comps["fixed"] = FixedCamera(1.5)
            absolute = AbsolutePaths(max_history=3) if "absolute" in use else None
            if "preds" in use:
                with open(os.path.join(root, "seq", "seqinfo.ini"), "w", encoding="utf8") as f:
                    f.write("[Sequence]\nname=seq\nimDir=img1\nframeRate=25\nseqLength=1000000\nimWidth=84\nimHeight=60\nimExt=.jpg\n")
                comps["preds"] = PredictionsTextFile(os.path.join(root, "seq"), root)
            gc.collect()
            gc.freeze()
            counts = []
            uid = 0
            recent = deque(maxlen=3)
            for rep in range(plan["repeats"]):
                for t in range(period):
                    op = plan["ops"][t] if t < len(plan["ops"]) else {"p": 1, "d": []}
                    frame = ctx.call("reading", next, it) if it is not None else make_frame()
                    mask = np.ones(shape, np.uint8) if plan["mask"] else None
                    tr = None
                    if "motion" in comps:
                        tr = ctx.call("motion", comps["motion"].update, frame, mask)
                    if tr is None:
                        tr = TranslationTransformation(np.array(op.get("cam", (0, 0)), dtype=float))
                    if "motion" in comps and plan["getter"] == "homography":
                        tr = TranslationTransformation(np.array(op.get("cam", (0, 0)), dtype=float))
                    dets = []
                    for d in op["d"]:
                        det = w.make_detection(dict(d, u=d["u"] + 100000 * rep))
                        dets.append(det)
                        dets_alive[uid] = weakref.ref(det)
                        uid += 1
                    arm[0] = op.get("fail", 0)
                    try:
                        objs = tracker.update(dets, op["p"], coord_transformations=tr)
                    except RuntimeError as e:
                        if "injected" not in str(e):
                            raise
                        ctx.fault("distance_failure")
                        objs = tracker.get_active_objects()
                    finally:
                        arm[0] = 0
                    for o in tracker.tracked_objects:
                        objs_alive.setdefault(id(o), weakref.ref(o))
                    if not op["d"]:
                        ctx.fault("frame_without_detections")
                    out = frame
                    if cfg["dim"] == 2:
                        if "boxes" in use:
                            out = ctx.call("draw_points", norfair.draw_points, out, objs)
                        if "paths" in use:
                            out = ctx.call("Paths.draw", comps["paths"].draw, out, objs)
                        if absolute is not None:
                            out = ctx.call("AbsolutePaths.draw", absolute.draw, out, objs, tr)
                    if "grid" in use:
                        ctx.call("grid", draw_absolute_grid, out, tr, grid_size=4)
                    if "fixed" in use:
                        out = ctx.call("adjust_frame", comps["fixed"].adjust_frame, out, tr)
                    if video is not None:
                        ctx.call("write", video.write, out)
                        ctx.call("show", video.show, out)
                    if "preds" in comps and cfg["n_points"] == 2 and cfg["dim"] == 2:
                        ctx.call("predictions", comps["preds"].update, predictions=objs, frame_number=rep * period + t + 1)
                    # everything the caller had is gone now
                    o = det = None  # noqa: F841
                    n_dets, n_objs = len(dets), len(objs)
                    del frame, out, mask, dets, objs, tr
                    ctx.steps += 1
                    ctx.simtime += op["p"]
                    recent.append(n_dets)
                    self.alive(ctx, rep, t, tracker, cfg, frames, dets_alive, objs_alive, sum(recent))
                    del n_objs
                ctx.check(
                    not tracker.tracked_objects,
                    "objects_kept",
                    lambda: f"repetition {rep}: {len(tracker.tracked_objects)} objects are still tracked"
                    f" {period - len(plan['ops'])} updates after the last detection",
                )
                counts.append(census(list(comps.values()) + module_globals()))
            growth = counts[-1][0] - counts[1][0]
            span = len(counts) - 2
            ctx.check(
                growth < span,
                "growth",
                lambda: f"things reachable from {sorted(comps)} and norfair's modules after each repetition of the"
                f" same scene: {[c[0] for c in counts]}",
            )
            most = max(c[1] for c in counts[:2])
            ctx.check(
                counts[-1][1] <= 1.5 * most + 50000,
                "growth",
                lambda: f"bytes of arrays kept after each repetition of the same scene: {[c[1] for c in counts]}",
            )
            if absolute is not None:
                total = sum(len(p) for p in absolute.past_points.values()) if hasattr(absolute, "past_points") else 0
                ctx.check(
                    total <= 3 * max(1, tracker.total_object_count),
                    "paths",
                    lambda: f"{total} past positions kept for {tracker.total_object_count} objects with max_history 3",
                )
            ctx.log(counts[1][0], counts[-1][0])

    @staticmethod
    def alive(ctx, rep, t, tracker, cfg, frames, dets, objs, recent):
        allowed = len({id(d) for o in tracker.tracked_objects for d in [o.last_detection, *o.past_detections]})
        for refs, limit, what in (
            (frames, 3, "frames"),
            (dets, allowed + recent, "detections"),
            (objs, len(tracker.tracked_objects) + 3, "objects"),
        ):
            if len(refs) > limit:
                for k in [k for k, r in refs.items() if r() is None]:
                    del refs[k]
            if len(refs) > limit:
                gc.collect()
                for k in [k for k, r in refs.items() if r() is None]:
                    del refs[k]
            ctx.check(
                len(refs) <= limit,
                "kept_" + what,
                lambda: f"repetition {rep}, frame {t}: {len(refs)} {what} are kept alive, {limit} can be of use",
            )
        for o in tracker.tracked_objects:
            ctx.check(
                len(o.past_detections) <= cfg["past_len"],
                "past_detections",
                lambda: f"repetition {rep}, frame {t}: {len(o.past_detections)} past detections of {cfg['past_len']}",
            )
        ctx.state((len(frames), len(dets), len(objs)))


# ------------------------------------------------------------------ C35
KINDS = ["motion", "motion", "paths", "absolute", "fixed", "grid", "boxes", "points"]


def array_key(a):
    a = np.ascontiguousarray(a)
    return [list(a.shape), hashlib.blake2b(a.tobytes(), digest_size=8).hexdigest()]


class Stream:
    """A component with state, fed with its own sequence of inputs."""

    SHAPE = (60, 84)

    def __init__(self, spec, hook=None):
        self.spec, self.t, self.trace, self.hook = spec, 0, [], hook
        kind, cfg = spec["kind"], spec["cfg"]
        self.tracker = None
        if kind == "motion":
            getter = None
            if cfg["getter"] == "translation":
                getter = TranslationTransformationGetter(bin_size=0.5, proportion_points_used_threshold=cfg["prop"])
            elif cfg["getter"] == "homography":
                getter = HomographyTransformationGetter(proportion_points_used_threshold=cfg["prop"])
            kw = {} if cfg["max"] is None else {"max_points": cfg["max"], "min_distance": 5}
            self.comp = MotionEstimator(transformations_getter=getter, draw_flow=cfg["flow"], **kw)
        elif kind == "paths":
            self.comp = Paths(**cfg["kw"])
        elif kind == "absolute":
            self.comp = AbsolutePaths(**cfg["kw"])
        elif kind == "fixed":
            self.comp = FixedCamera(**cfg["kw"])
        if kind in ("paths", "absolute", "boxes", "points"):
            self.tracker = Tracker("euclidean", 60, hit_counter_max=4, initialization_delay=1)

    def done(self):
        return self.t >= len(self.spec["ops"])

    def step(self):
        op, kind, cfg = self.spec["ops"][self.t], self.spec["kind"], self.spec["cfg"]
        self.t += 1
        shape = self.SHAPE
        frame = texture(self.spec["key"], shape, op["cam"])
        if op.get("blank"):
            frame[:] = 90
        tr = TranslationTransformation(np.array([-op["cam"][0], -op["cam"][1]], dtype=float))
        objs = []
        if self.tracker is not None:
            dets = [
                Detection(np.array([[x, y], [x + 14.0, y + 9.0]]), scores=np.array([0.9, 0.8]), label=lab)
                for x, y, lab in op["d"]
            ]
            objs = self.tracker.update(dets, coord_transformations=tr if kind == "absolute" else None)
        mine = [frame]
        try:
            if kind == "motion":
                mask = None
                if op.get("mask"):
                    mask = np.ones(shape, np.uint8)
                    mask[10:30, 10:40] = 0
                    mine.append(mask)
                got = self.comp.update(frame, mask)
                grid = np.array([[0.0, 0.0], [40.0, 0.0], [13.0, 50.0]])
                out = None if got is None else np.round(np.asarray(got.rel_to_abs(grid)), 4)
                self.trace.append([None if out is None else out.tolist(), array_key(frame)])
            elif kind == "paths":
                out = self.comp.draw(frame, objs)
                mine.append(out)
                self.trace.append(array_key(out))
            elif kind == "absolute":
                out = self.comp.draw(frame, objs, tr)
                mine.append(out)
                self.trace.append(array_key(out))
            elif kind == "fixed":
                out = self.comp.adjust_frame(frame, tr)
                self.trace.append(array_key(out))
            elif kind == "grid":
                draw_absolute_grid(frame, None if op.get("still") else tr, **cfg["kw"])
                self.trace.append(array_key(frame))
            elif kind == "boxes":
                out = norfair.draw_boxes(frame, objs, draw_labels=True, draw_ids=True, draw_scores=True)
                mine.append(out)
                self.trace.append(array_key(out))
            elif kind == "points":
                out = norfair.draw_points(frame, objs, draw_labels=True)
                mine.append(out)
                self.trace.append(array_key(out))
        except Exception as e:  # pylint: disable=broad-except
            self.trace.append(["raised", type(e).__name__])
        if self.hook:
            self.hook(self.t, mine)


def stream_trace(spec):
    s = Stream(spec)
    while not s.done():
        s.step()
    return s.trace


class HelpersC35(Scenario):
    name = "helper_isolation"
    quick = 330
    thorough = 8000
    list_keys = ()
    ddmin_keys = ("schedule",)
    rule = (
        "2-4 streams, each with its own motion estimator, path drawer, stabilizer, grid or"
        " tracker with drawing (partly with default arguments, so that anything shared by"
        " default would show), are first run alone in fresh processes and then together:"
        " interleaved in a seeded order with others being created, or in threads preempted"
        " between lines, or with a caller that overwrites every frame it passed or got."
    )
    time_unit = "frames"
    state_measure = "distinct interleavings (order or thread switches)"
    real = ("norfair.camera_motion", "norfair.drawing", "norfair.tracker", "OpenCV")
    stub = ("thread scheduler (one thread at a time, switched at planned lines)",)
    assumptions = ("Palette.set changes the colours of everything by design and is not called",
                   "what FixedCamera returns is not overwritten (documented to be the last drawer)")

    def gen(self, rng, tier):
        mode = rng.choice(["interleave", "interleave", "meddle", "threads"])
        n = 1 if mode == "meddle" else rng.choice([2, 2, 3, 4]) if mode == "interleave" else 2
        base = rng.choice(KINDS)
        streams = []
        for _ in range(n):
            kind = base if rng.random() < 0.7 else rng.choice(KINDS)
            frames = rng.choice([4, 8]) if mode == "threads" else rng.choice([6, 12, 25])
            cfg = {"kw": {}}
            if kind == "motion":
                cfg = {"getter": rng.choice([None, None, "translation", "homography"]), "prop": rng.choice([0.9, 0.7, 0.99]),
                       "max": rng.choice([None, None, 40]), "flow": rng.random() < 0.2}
            elif kind == "paths":
                cfg["kw"] = rng.choice([{}, {}, {"attenuation": 0.1}, {"color": [10, 20, 200], "radius": 2}])
            elif kind == "absolute":
                cfg["kw"] = rng.choice([{}, {}, {"max_history": 4}, {"thickness": 2}])
            elif kind == "fixed":
                cfg["kw"] = rng.choice([{}, {}, {"scale": 1.5}, {"scale": 3, "attenuation": 0.3}])
            elif kind == "grid":
                cfg["kw"] = rng.choice([{}, {}, {"grid_size": 5}, {"polar": True}, {"grid_size": 8, "polar": True, "radius": 3}])
            ops = []
            pos = [[rng.uniform(5, 60), rng.uniform(5, 40)] for _ in range(3)]
            cam = [0, 0]
            for _ in range(frames):
                cam = [max(-25, min(25, c + rng.randint(-2, 2))) for c in cam]
                if kind == "grid" and rng.random() < 0.3:
                    cam = [rng.randint(-150, 150), rng.randint(-150, 150)]
                pos = [[p + rng.uniform(-1.5, 1.5) for p in q] for q in pos]
                op = {"cam": list(cam), "d": [[round(x, 3), round(y, 3), lab] for (x, y), lab in zip(pos, ["a", "b", None]) if rng.random() < 0.75]}
                op["d"] = [[x, y, "ab"[k % 2]] for k, (x, y, _) in enumerate(op["d"])]
                if rng.random() < 0.06:
                    op["blank"] = 1
                if rng.random() < 0.4:
                    op["mask"] = 1
                if kind == "grid" and rng.random() < 0.2:
                    op["still"] = 1
                ops.append(op)
            streams.append({"kind": kind, "cfg": cfg, "ops": ops, "key": rng.randrange(1 << 20)})
        plan = {"mode": mode, "streams": streams, "order": [], "schedule": [], "extra": rng.random() < 0.5,
                "key": rng.randrange(1 << 20)}
        if mode == "interleave":
            order = [k for k, s in enumerate(streams) for _ in s["ops"]]
            rng.shuffle(order)
            plan["order"] = order
        if mode == "threads":
            plan["schedule"] = gen_schedule(rng, 60 * max(len(s["ops"]) for s in streams), n)
        return plan

    def simplify(self, plan):
        if plan["mode"] == "threads":
            yield from shrink_schedule(plan)
        streams = plan["streams"]
        if len(streams) > 2:
            for k in range(len(streams)):
                yield dict(plan, streams=streams[:k] + streams[k + 1 :],
                           order=[i - (i > k) for i in plan["order"] if i != k])
        for k, s in enumerate(streams):
            n = len(s["ops"])
            for m in (n // 2, n - 1):
                if 0 < m < n:
                    yield dict(plan, streams=streams[:k] + [dict(s, ops=s["ops"][:m])] + streams[k + 1 :])
        if plan["extra"]:
            yield dict(plan, extra=False)

    def exec(self, plan, ctx):
        cv2.setNumThreads(1)
        mode = plan["mode"]
        want = []
        for spec in plan["streams"]:
            res = run_forked(lambda spec=spec: {"status": "ok", "trace": stream_trace(spec)})
            if res["status"] != "ok":
                ctx.call("solo run", stream_trace, spec)
                raise RuntimeError(res.get("msg"))
            want.append(res["trace"])
        for spec in plan["streams"]:
            ctx.probe(f"{mode}_{spec['kind']}")
            for op in spec["ops"]:
                if op.get("blank"):
                    ctx.fault("blank_frame")
        if mode == "threads":
            got = self.threaded(plan, ctx)
        elif mode == "meddle":
            got = self.meddled(plan, ctx)
        else:
            got = self.interleaved(plan, ctx)
        for k, (a, b) in enumerate(zip(got, want)):
            kind = plan["streams"][k]["kind"]
            ctx.check(len(a) == len(b), "length", lambda: f"stream {k}: {len(a)} results, alone {len(b)}")
            for t, (x, y) in enumerate(zip(a, b)):
                ctx.steps += 1
                ctx.simtime += 1
                ctx.check(
                    x == y, mode, lambda: f"stream {k} ({kind}), frame {t}: {x}, run alone {y} ({mode})"
                )
            ctx.log(k, kind, len(a))

    def interleaved(self, plan, ctx):
        streams = [Stream(spec) for spec in plan["streams"]]
        for n, k in enumerate(plan["order"]):
            if k >= len(streams) or streams[k].done():
                continue
            if plan["extra"] and n % 5 == 3:
                # an unrelated stream with other frames comes and goes
                spec = dict(plan["streams"][k], key=plan["key"] + n, ops=plan["streams"][(k + 1) % len(streams)]["ops"][-2:])
                other = Stream(spec)
                while not other.done():
                    other.step()
                ctx.fault("unrelated_stream")
            if n and plan["order"][n - 1] != k:
                ctx.fault("interleaved_frame")
            streams[k].step()
        for s in streams:
            while not s.done():
                s.step()
        ctx.state(tuple(plan["order"]))
        return [s.trace for s in streams]

    def meddled(self, plan, ctx):
        def hook(t, arrays):
            for j, a in enumerate(arrays):
                if isinstance(a, np.ndarray) and u01(plan["key"], t, j) < 0.8:
                    a[...] = 255 if u01(plan["key"], t, j, "v") < 0.5 else 0
                    ctx.fault("caller_overwrites_frame")

        streams = [Stream(spec, hook) for spec in plan["streams"]]
        for s in streams:
            while not s.done():
                s.step()
        ctx.state(("meddle", len(streams[0].trace)))
        return [s.trace for s in streams]

    def threaded(self, plan, ctx):
        streams = [None] * len(plan["streams"])

        def body(k):
            def run():
                streams[k] = Stream(plan["streams"][k])
                while not streams[k].done():
                    streams[k].step()

            return run

        s = Scheduler(plan["schedule"], seams.PACKAGE, "line")
        s.run([body(k) for k in range(len(streams))])
        note_schedule(ctx, s)
        ctx.check(not s.stuck, "deadlock", lambda: f"{s.stuck} after {s.step} steps")
        for i, e in sorted(s.errors.items()):
            ctx.check(False, "exception", f"thread {i} failed: {type(e).__name__}: {e}")
        return [x.trace for x in streams]


SCENARIOS = {"C34": StreamC34, "C35": HelpersC35}
_ = HomographyTransformation

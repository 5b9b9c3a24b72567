"""C28: the whole real-time loop - video, motion, detector, tracker, drawing, predictions."""
import math
import os

import numpy as np

from . import seams
from .core import Scenario, u01
from .s_camera import Optics, shift
from .s_video import Devices, Scratch, gen_clock, given_info, make_clock, touch, write_seqinfo

import norfair
from norfair import Detection, Tracker, Video
from norfair.camera_motion import (
    HomographyTransformationGetter,
    MotionEstimator,
    TranslationTransformationGetter,
)
from norfair.drawing import AbsolutePaths, FixedCamera
from norfair.metrics import PredictionsTextFile

VIEW = (300, 400)
LANES = 4
BOX = (20.0, 14.0)


class LoopC28(Scenario):
    name = "real_time_loop"
    quick = 500
    thorough = 15000
    list_keys = ("frames", "clock")
    rule = (
        "A video of 30-90 frames from a moving camera with up to four objects; a detector"
        " whose results for each frame arrive with a generated latency, late, reordered,"
        " duplicated or never, with missed objects and false positives and stalls; reads of"
        " the video fail; the clock stalls and jumps. The loop reads, estimates the motion,"
        " takes what has arrived, updates the tracker with the period it observed, draws,"
        " writes the frame and the predictions. The last 14 frames are without faults."
    )
    time_unit = "frames"
    state_measure = "distinct (pattern of arrivals, gaps and reported objects per 5 frames)"
    real = (
        "norfair.video", "norfair.camera_motion", "norfair.tracker", "norfair.filter",
        "norfair.distances", "norfair.drawing", "norfair.metrics.PredictionsTextFile",
    )
    stub = (
        "video devices, clock and GUI (simulated)",
        "feature detection and optical flow (simulated scene)",
        "detector and its queue (generated results)",
    )
    assumptions = (
        "objects move less than 1 px per frame and stay 65 px apart; camera motion as in C24",
        "an id may change only if the object was missed for as long as its hit counter allows",
    )

    CALM = 14

    def gen(self, rng, tier):
        n = rng.choice([30, 45, 60, 90])
        mode = rng.choice(["calm", "late", "lossy", "stalls", "chaos", "chaos"])
        frames = []
        stall = 0
        for k in range(n):
            f = {}
            if k < n - self.CALM:
                if mode in ("late", "chaos"):
                    f["lat"] = rng.choice([0, 0, 1, 2, 3, 5])
                if mode in ("lossy", "chaos") and rng.random() < 0.25:
                    f["lost"] = 1
                if mode in ("lossy", "chaos") and rng.random() < 0.2:
                    f["dup"] = [rng.choice([0, 1, 2, 4]) for _ in range(rng.choice([1, 1, 2]))]
                if mode in ("stalls", "chaos") and stall == 0 and rng.random() < 0.06:
                    stall = rng.choice([2, 4, 7, 11, 25])
                if stall:
                    stall -= 1
                    f["stall"] = 1
                if mode in ("stalls", "chaos") and rng.random() < 0.12:
                    f["nomotion"] = 1
                if mode != "calm" and rng.random() < 0.25:
                    f["miss"] = sorted(rng.sample(range(LANES), rng.choice([1, 1, 2, 4])))
                if mode != "calm" and rng.random() < 0.07:
                    f["fp"] = round(rng.uniform(20, 380), 2)
                if rng.random() < 0.15:
                    f["wrong"] = rng.choice([0.04, 0.08, 0.11])
                # a late result must not reach into the calm end
                if k + f.get("lat", 0) + max(f.get("dup", [0])) >= n - self.CALM:
                    f.pop("lat", None)
                    f.pop("dup", None)
            frames.append(f)
        vel = []
        v = [0.0, 0.0]
        for k in range(n):
            if k % 9 == 0:
                s = rng.choice([0.0, 0.0, 1.0, 3.0])
                a = rng.uniform(0, 2 * math.pi)
                v = [round(s * math.cos(a), 3), round(s * math.sin(a), 3)]
            vel.append(v)
        return {
            "frames": frames,
            "vel": vel,
            "actors": rng.choice([1, 2, 3, 4]),
            "getter": rng.choice(["translation", "translation", "homography", "none"]),
            "policy": rng.choice(["newest", "newest", "any"]),
            "bad": rng.choice([None, None, None, [rng.randrange(n), rng.choice(["false", "none"])]]),
            "hit_max": rng.choice([6, 15, 30]),
            "delay": rng.choice([0, 2, 4]),
            "past": rng.choice([0, 4]),
            "distance": rng.choice(["mean_euclidean", "mean_manhattan", "callable"]),
            "draw": rng.choice(["boxes", "points", "paths", "fixed", "none"]),
            "clock": gen_clock(rng),
            "info": rng.random() < 0.5,
            "key": rng.randrange(1 << 20),
        }

    def simplify_op(self, op):
        if not isinstance(op, dict):
            return
        for key in op:
            yield {k: v for k, v in op.items() if k != key}

    def simplify_plan(self, plan):
        n = len(plan["frames"])
        if len(plan["vel"]) != n:
            yield dict(plan, vel=plan["vel"][:n])
        for key, val in (
            ("actors", 1), ("getter", "none"), ("policy", "newest"), ("bad", None), ("draw", "none"),
            ("past", 0), ("distance", "mean_euclidean"), ("info", False),
        ):
            if plan[key] != val:
                yield dict(plan, **{key: val})
        if any(v != [0.0, 0.0] for v in plan["vel"]):
            yield dict(plan, vel=[[0.0, 0.0]] * n)

    # ------------------------------------------------------------------ the world
    @staticmethod
    def truth(plan, a, k):
        """Centre of actor a in frame k, in absolute coordinates."""
        ph = 6.28 * u01(plan["key"], a)
        return np.array(
            [
                80.0 + 240 * u01(plan["key"], a, "x") + 14 * math.sin(0.035 * k + ph),
                45.0 + 68 * a + 4 * math.sin(0.05 * k + ph),
            ]
        )

    def exec(self, plan, ctx):
        with Scratch() as root, make_clock(plan, ctx):
            path = os.path.join(root, "seq", "clip.mp4")
            touch(path)
            n = len(plan["frames"])
            write_seqinfo(
                os.path.join(root, "seq"),
                {"name": "seq", "imDir": "img1", "rate": 25, "n": n, "w": VIEW[1], "h": VIEW[0], "ext": ".jpg"},
            )
            optics = Optics(ctx, plan["key"], 0.9, density=900.0)
            off = np.zeros(2)
            cams = []
            for k in range(n):
                v = np.array(plan["vel"][k] if k < len(plan["vel"]) else [0.0, 0.0])
                if plan["getter"] == "none":
                    v = np.zeros(2)
                if k:
                    if np.abs(off + v).max() > 45:
                        v = -v
                    off = off + v
                cams.append(off.copy())
                optics.motion[k] = shift(-off[0], -off[1])
                optics.outliers[k] = plan["frames"][k].get("wrong", 0.0)
                if plan["getter"] == "translation":
                    optics.objects[k] = [
                        (a,) + tuple((self.truth(plan, a, k) - off - 9).astype(int)) + (18,)
                        for a in range(plan["actors"])
                    ]
            bad = {}
            if plan["bad"] and plan["bad"][0] < n:
                bad[str(plan["bad"][0])] = plan["bad"][1]
            images = [optics.frame(k, VIEW) for k in range(n)]
            source = {"n": n, "count": n, "fps": 25.0, "shape": list(VIEW), "bad": bad, "images": images}
            dev = Devices(ctx, {path: source})
            hooks = optics.hooks()
            with dev.hooks(), seams.hooks(**hooks):
                self.loop(plan, ctx, root, path, dev, optics, cams)

    def detect(self, plan, ctx, j, cam):
        """What the detector finds in frame j: [(actor or None, centre in frame j)]."""
        f = plan["frames"][j]
        out = []
        for a in range(plan["actors"]):
            c = self.truth(plan, a, j) - cam
            if not self.visible(c):
                continue
            if a in f.get("miss", ()):
                ctx.fault("object_missed")
                continue
            noise = [u01(plan["key"], j, a, "n"), u01(plan["key"], j, a, "m")]
            out.append((a, c + np.array(noise) - 0.5))
        if "fp" in f:
            ctx.fault("false_positive")
            out.append((None, np.array([f["fp"], 45.0 + 34 + 68 * (j % 4)]) - cam))
        return out

    @staticmethod
    def visible(c):
        return 12 < c[0] < VIEW[1] - 12 and 9 < c[1] < VIEW[0] - 9

    # ------------------------------------------------------------------ the loop
    def loop(self, plan, ctx, root, path, dev, optics, cams):
        n = len(plan["frames"])
        video = ctx.call("Video()", Video, input_path=path, output_path=root)
        est = None
        if plan["getter"] != "none":
            est = ctx.call(
                "MotionEstimator()",
                MotionEstimator,
                max_points=150,
                transformations_getter=TranslationTransformationGetter()
                if plan["getter"] == "translation"
                else HomographyTransformationGetter(),
            )
        dist = plan["distance"]
        if dist == "callable":
            dist = lambda d, o: float(np.linalg.norm(d.points - o.estimate, axis=1).mean())
        tracker = ctx.call(
            "Tracker()",
            Tracker,
            dist,
            30,
            hit_counter_max=plan["hit_max"],
            initialization_delay=plan["delay"],
            past_detections_length=plan["past"],
        )
        info = given_info(os.path.join(root, "seq")) if plan["info"] else None
        preds = ctx.call(
            "PredictionsTextFile()", PredictionsTextFile, os.path.join(root, "seq"), root, info
        )
        paths, fixed = AbsolutePaths(max_history=3), FixedCamera(1.2)
        queue = []  # (arrival frame, order, source frame, results)
        last_used, last_time = -1, -1
        coords = {}
        written, rows, model = [], [], {}
        recent = []
        delivered = next((k for k in range(n) if str(k) in dev.sources[path]["bad"]), n)
        calm = [0] * LANES  # frames without faults in which the object was detected
        k = -1
        it = iter(video)
        while True:
            frame = ctx.call(f"reading frame {k + 1}", next, it, None)
            if frame is None:
                break
            k += 1
            ctx.check(k < delivered, "extra_frame", lambda: f"frame {k} of {delivered} is read")
            ctx.check(
                np.array_equal(frame, dev.sources[path]["images"][k]),
                "order",
                lambda: f"the frame read as number {k} is another one",
            )
            ctx.steps += 1
            ctx.simtime += 1
            f = plan["frames"][k]
            # camera motion, ignoring what is tracked
            tr = None
            blind = est is not None and k > 0 and f.get("nomotion")
            if blind:
                ctx.fault("motion_estimate_missing")
            elif est is not None:
                mask = np.ones(VIEW, np.uint8)
                for o in tracker.tracked_objects:
                    x0, y0 = np.maximum(np.nan_to_num(o.estimate.min(axis=0)), 0).astype(int)
                    x1, y1 = np.maximum(np.nan_to_num(o.estimate.max(axis=0)), 0).astype(int) + 1
                    mask[y0:y1, x0:x1] = 0
                tr = ctx.call(f"motion of frame {k}", est.update, frame, mask)
                ctx.check(tr is not None, "motion", lambda: f"frame {k}: no camera motion")
            coords[k] = tr
            # the detector
            if f.get("stall"):
                ctx.fault("detector_stalled")
            elif f.get("lost"):
                ctx.fault("result_lost")
            else:
                res = self.detect(plan, ctx, k, cams[k])
                lat = f.get("lat", 0)
                if lat:
                    ctx.fault("result_late")
                queue.append((k + lat, 0, k, res))
                for extra in f.get("dup", ()):
                    ctx.fault("result_duplicated")
                    queue.append((k + lat + extra, 1, k, res))
            due = sorted(q[:3] + (i,) for i, q in enumerate(queue) if q[0] <= k)
            arrived = [queue[d[3]] for d in due]
            if blind:
                arrived = []  # what arrived waits for a frame with a known camera position
            else:
                queue = [q for q in queue if q[0] > k]
            use = None
            for q in arrived:
                if q[2] < last_used:
                    ctx.fault("result_out_of_order")
                    if plan["policy"] == "newest":
                        continue
                elif q[2] == last_used and plan["policy"] == "newest":
                    continue
                if use is None or q[2] >= use[2]:
                    use = q
            dets, period = None, 1
            if use is not None and tr is not None and coords[use[2]] is None:
                use = None  # where the camera was then is not known
            if use is not None:
                j = use[2]
                last_used = max(last_used, j)
                period = k - last_time
                last_time = k
                dets = []
                for a, c in use[3]:
                    box = np.array([c - np.array(BOX) / 2, c + np.array(BOX) / 2])
                    if tr is not None and j != k:
                        box = np.asarray(tr.abs_to_rel(np.asarray(coords[j].rel_to_abs(box))))
                    dets.append(Detection(box, scores=np.array([0.9, 0.9]), label="car", data=(a, j)))
            if dets is None and u01(plan["key"], k, "how") < 0.5:
                objs = ctx.call(f"update of frame {k}", tracker.update, coord_transformations=tr)
            else:
                objs = ctx.call(
                    f"update of frame {k}",
                    tracker.update,
                    detections=dets or [],
                    period=period,
                    coord_transformations=tr,
                )
            objs = list(objs)
            found = [d.data[0] for d in dets or []]
            self.identities(plan, ctx, k, objs, found, period, model, cams[k])
            ok = not f and use is not None and use[2] == k
            for a in range(plan["actors"]):
                calm[a] = calm[a] + 1 if ok and a in found else 0
                if calm[a] >= plan["delay"] + 3:
                    self.recovered(plan, ctx, k, objs, cams[k], calm[a], a)
            # output
            rows.append(
                [(o.id, np.array(o.estimate, dtype=float)) for o in objs]
            )
            view = frame
            if plan["draw"] == "boxes":
                view = ctx.call("draw_boxes", norfair.draw_boxes, frame, objs)
            elif plan["draw"] == "points":
                view = ctx.call("draw_points", norfair.draw_points, frame, objs)
            elif plan["draw"] == "paths":
                view = ctx.call("AbsolutePaths.draw", paths.draw, frame, objs, tr)
            elif plan["draw"] == "fixed" and plan["getter"] != "homography":
                view = ctx.call("adjust_frame", fixed.adjust_frame, frame, tr)
            written.append(view.copy())
            ctx.call("write", video.write, view)
            ctx.call("PredictionsTextFile.update", preds.update, objs)
            recent.append((use is not None, len(objs)))
            if k % 5 == 4:
                ctx.state(tuple(recent[-5:]))
            ctx.log(k, use is not None, [(o.id, round(float(o.estimate[0][0]), 4)) for o in objs])
        del preds  # closes the file if the video ended early
        self.finish(plan, ctx, root, dev, k, delivered, written, rows, video)

    def identities(self, plan, ctx, k, objs, found, period, model, cam):
        ids = [o.id for o in objs]
        ctx.check(len(set(ids)) == len(ids), "duplicate_id", lambda: f"frame {k}: ids {ids} are reported")
        for a, m in model.items():
            m["hc"] -= 1
            if a in found:
                m["hc"] = min(m["hc"] + 2 * period, plan["hit_max"])
            if m["hc"] < 1:
                m["lost"] = True
        for a in range(plan["actors"]):
            mine = [o for o in objs if o.last_detection.data[0] == a]
            m = model.get(a)
            if m is not None and not m["lost"]:
                same = [o for o in mine if o.id == m["id"]]
                ctx.check(
                    len(same) == 1 and len(mine) == 1,
                    "identity",
                    lambda: f"frame {k}: object {a} has id {m['id']} and a hit counter of at least {m['hc']},"
                    f" but is reported as {[o.id for o in mine]}",
                )
                continue
            # a new one (or one that may have been given up)
            latest = [o for o in mine if a in found and o.last_detection.data[0] == a]
            if len(mine) == 1 and latest:
                if m is not None and m["id"] != mine[0].id:
                    ctx.probe("new_id_after_long_gap")
                model[a] = {"id": mine[0].id, "hc": min(mine[0].hit_counter, plan["hit_max"]), "lost": False}

    def recovered(self, plan, ctx, k, objs, cam, calm, a):
        c = self.truth(plan, a, k) - cam
        near = [o for o in objs if np.abs(o.estimate.mean(axis=0) - c).max() < 15]
        ctx.check(
            any(o.last_detection.data[0] == a for o in near),
            "not_recovered",
            lambda: f"frame {k}: object {a} at {c.tolist()} is not reported after {calm} frames without"
            f" faults; reported: {[(o.id, o.estimate.mean(axis=0).tolist()) for o in objs]}",
        )
        ctx.probe("recovered")

    def finish(self, plan, ctx, root, dev, k, delivered, written, rows, video):
        ctx.check(
            k + 1 == delivered, "incomplete", lambda: f"{k + 1} frames are read, the source delivers {delivered}"
        )
        if delivered:
            ctx.check(len(dev.writers) == 1, "outputs", lambda: f"{len(dev.writers)} outputs")
            out = dev.writers[0]
            ctx.check(
                len(out.frames) == delivered and out.released > 0 and not out.late,
                "output",
                lambda: f"{len(out.frames)} frames are recorded for {delivered}",
            )
            for i, (a, b) in enumerate(zip(out.frames, written)):
                ctx.check(np.array_equal(a, b), "output", lambda: f"frame {i} of the output is another one")
        text = ""
        for base, _, names in sorted(os.walk(os.path.join(root, "predictions"))):
            for name in names:
                with open(os.path.join(base, name), encoding="utf8") as f:
                    text += f.read()
        got = {}
        for line in text.splitlines():
            cells = [c.strip() for c in line.split(",")]
            ctx.check(len(cells) >= 6, "file", lambda: f"line {line!r}")
            got.setdefault(int(cells[0]), []).append((int(cells[1]), [float(c) for c in cells[2:6]]))
        for i, objs in enumerate(rows):
            have = sorted(got.pop(i + 1, []))
            want = sorted((o, [b[0, 0], b[0, 1], b[1, 0] - b[0, 0], b[1, 1] - b[0, 1]]) for o, b in objs)
            ctx.check(
                [h[0] for h in have] == [x[0] for x in want]
                and all(
                    np.allclose(h[1], x[1], rtol=1e-6, atol=1e-6) for h, x in zip(have, want)
                ),
                "file",
                lambda: f"frame {i + 1} of the predictions file has {have}, reported were {want}",
            )
        ctx.check(not got, "file", lambda: f"the predictions file has frames {sorted(got)} that were never given")


SCENARIOS = {"C28": LoopC28}

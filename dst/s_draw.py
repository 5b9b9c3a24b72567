"""C25 drawing every reachable state, C26 stabilized view, C27 path drawings."""
import contextlib
import io
import math

import cv2
import numpy as np
from scipy.optimize import linear_sum_assignment

from . import seams
from . import world as w
from .core import Scenario, u01
from .s_life import HistoryScenario

import norfair
from norfair.camera_motion import HomographyTransformation, TranslationTransformation
from norfair.drawing import AbsolutePaths, FixedCamera, Paths, draw_absolute_grid
from norfair.drawing import draw_boxes as do_boxes
from norfair.drawing import draw_points as do_points
from norfair import Palette
from norfair.drawing import color as color_module
from norfair.drawing.drawer import Drawable

LABELS = [
    None,
    ["s", "car"],
    ["s", ""],
    ["i", 0],
    ["i", -7],
    ["f", 1.5],
    ["b", 0],
    ["t", [["s", "a"], ["i", 5]]],
    ["fs", [1]],
    ["o", "x"],
    ["s", "caf\u00e9 \u2603"],
    ["s", "a-b"],
]
COLORS = [None, "by_id", "by_id", "by_label", "random", [10, 200, 30], "red", "#00ff7f"]
# the palettes as they are at first
NAMED = {name: {tuple(c) for c in colors} for name, colors in getattr(color_module, "PALETTES", {}).items()}
PARSED = {"red": (0, 0, 255), "#00ff7f": (127, 255, 0)}


def to_int(v):
    return int(round(float(v)))


class Recorder:
    """Records the drawing primitives that reach OpenCV (which still draws them)."""

    def __init__(self):
        self.calls = []

    def hook(self, name, names):
        def record(real, *args, **kwargs):
            got = dict(zip(names, args))
            got.update(kwargs)
            out = real(*args, **kwargs)
            for key in ("center", "pt1", "pt2", "org"):
                if key in got:
                    got[key] = tuple(int(v) for v in got[key])
            if "color" in got and got["color"] is not None:
                got["color"] = tuple(int(v) for v in got["color"])
            got["prim"] = name
            self.calls.append(got)
            return out

        return record

    def hooks(self):
        return {
            "circle": self.hook("circle", ("img", "center", "radius", "color", "thickness")),
            "rectangle": self.hook("rectangle", ("img", "pt1", "pt2", "color", "thickness")),
            "line": self.hook("line", ("img", "pt1", "pt2", "color", "thickness")),
            "putText": self.hook(
                "putText",
                ("img", "text", "org", "fontFace", "fontScale", "color", "thickness", "lineType"),
            ),
        }

    def of(self, prim):
        return [c for c in self.calls if c["prim"] == prim]


def matching(expected, got, dist, tol):
    """None if `got` and `expected` correspond one to one within `tol`, else what does not."""
    if len(expected) != len(got):
        return f"{len(got)} drawn, {len(expected)} expected"
    if not expected:
        return None
    cost = np.array([[dist(e, g) for g in got] for e in expected], float)
    rows, cols = linear_sum_assignment(np.where(cost <= tol, 0.0, np.minimum(cost, 1e6)))
    for r, c in zip(rows, cols):
        if not cost[r, c] <= tol:
            return f"{expected[r]} is expected, the closest left is {got[c]}"
    return None


def far(a, b):
    return max(abs(float(x) - float(y)) for x, y in zip(a, b))


def snapshot(tracker, dets):
    """Everything a drawer could disturb."""

    def det(d):
        return (
            d.points.tolist(),
            None if d.scores is None else d.scores.tolist(),
            repr(d.label),
            d.absolute_points.tolist(),
            repr(d.age),
        )

    out = []
    for o in tracker.tracked_objects:
        out.append(
            (
                o.id,
                o.initializing_id,
                o.age,
                o.hit_counter,
                repr(getattr(o, "reid_hit_counter", None)),
                np.asarray(getattr(o, "point_hit_counter", 0)).tolist(),
                o.is_initializing,
                repr(o.label),
                repr(o.last_distance),
                o.estimate.tolist(),
                o.estimate_velocity.tolist(),
                np.asarray(o.live_points).tolist(),
                det(o.last_detection),
                [det(d) for d in o.past_detections],
            )
        )
    return out, [det(d) for d in dets]


class DrawC25(HistoryScenario):
    name = "drawing"
    quick = 900
    thorough = 20000
    list_keys = ("ops",)
    labels = False
    rule = (
        "Histories as in the lifecycle check (misses, dropped points, off-screen positions,"
        " all kinds of labels, moving camera); after every frame one to three drawing"
        " functions with generated options draw the reported objects, all objects, detections"
        " or drawables, in generated palettes, with the options under their current or their"
        " deprecated names. A twin tracker gets the same history without anything drawn."
    )
    state_measure = "distinct (drawing function, what is drawn, options, state of the object)"
    real = ("norfair.drawing", "norfair.utils", "norfair.tracker", "OpenCV drawing", "rich tables")
    stub = ("detector (generated detections)",)

    def extend(self, rng, plan):
        cfg = plan["cfg"]
        if rng.random() < 0.6:
            cfg["n_points"] = 2
        frames = rng.choice([8, 12, 20, 30])
        labels = rng.sample(LABELS, rng.randint(1, 4))
        if rng.random() < 0.3:
            cfg["reid"] = {"max": rng.choice([1, 3, 5]), "thr": 1.0}
        plan["ops"] = w.gen_history(
            rng, cfg, frames, rng.choice([1, 1, 2, 3]), labels, spurious=0.1,
            none_prob=rng.choice([0, 0.1]), score_drop=rng.choice([0.3, 0.6]),
        )
        scale = rng.choice([0.2, 0.2, 1.0, 1.0, 60.0])
        plan["camera"] = rng.choice([None, None, 3.0, 40.0])
        plan["palettes"] = [
            rng.choice(["tab10", "tab20", "colorblind", [[1, 2, 3], "red", [9, 8, 7]], ["#00ff7f"]])
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]))
        ]
        plan["default_color"] = rng.choice([None, None, [4, 5, 6]])
        plan["standing"] = rng.choice([0] * 15 + [95, 130, 1010])
        plan["size"] = rng.choice([[120, 160], [48, 64], [240, 320], [30, 700], [600, 40]])
        origin = [plan["size"][1] / 2, plan["size"][0] / 2]
        for op in plan["ops"]:
            for d in op["d"]:
                d["pts"] = [[round(v * scale + o, 4) for v, o in zip(p, origin)] for p in d["pts"]]
            op["draw"] = [self.draw_op(rng, cfg) for _ in range(rng.choice([1, 1, 2, 3]))]

    @staticmethod
    def draw_op(rng, cfg):
        fn = rng.choice(["points", "points", "boxes", "boxes", "table", "paths", "grid", "old_points", "old_boxes"])
        if "boxes" in fn and cfg["n_points"] != 2:
            fn = "points"
        who = rng.choice(["returned", "returned", "all", "all", "detections", "drawables", "nothing"])
        opts = {}
        if fn in ("points", "boxes"):
            for key in ("draw_labels", "draw_ids", "draw_scores"):
                if rng.random() < 0.6:
                    opts[key] = rng.random() < 0.6
            if rng.random() < 0.7:
                opts["color"] = rng.choice(COLORS)
            if rng.random() < 0.3:
                opts["text_color"] = rng.choice(["red", [10, 200, 30], None])
            if rng.random() < 0.3:
                opts["thickness"] = rng.choice([1, 2, 5])
            if rng.random() < 0.2:
                opts["text_size"] = rng.choice([0.4, 1, 3])
            if rng.random() < 0.2:
                opts["text_thickness"] = rng.choice([1, 4])
        if fn == "points":
            if rng.random() < 0.5:
                opts["hide_dead_points"] = rng.random() < 0.4
            if rng.random() < 0.3:
                opts["draw_points"] = rng.random() < 0.5
            if rng.random() < 0.3:
                opts["radius"] = rng.choice([1, 3, 8])
        if fn == "boxes" and rng.random() < 0.3:
            opts["draw_box"] = rng.random() < 0.5
        if fn in ("old_points", "old_boxes"):
            if rng.random() < 0.5:
                opts["color"] = rng.choice([[10, 200, 30], None])
            for key, values in (
                ("draw_labels", [True, False]),
                ("color_by_label", [True, False]),
                ("label_size", [1, 2]),
                ("id_size", [0, 1]),
                ("id_thickness", [1, 3]),
                ("radius" if fn == "old_points" else "border_width", [1, 4]),
                ("draw_points" if fn == "old_points" else "draw_box", [True, False]),
            ):
                if rng.random() < 0.4:
                    opts[key] = rng.choice(values)
            if fn == "old_boxes" and "color" in opts:
                opts["border_colors"] = opts.pop("color")
        op = {"fn": fn, "who": who, "o": opts}
        if rng.random() < 0.2:
            op["old"] = True  # the same options under the names they had before
        if rng.random() < 0.1 and who == "nothing":
            op["omit"] = True
        return op

    @staticmethod
    def old_names(fn, things, opts, t):
        """(positional arguments, keyword arguments) that mean the same."""
        out = dict(opts)
        args = [things]
        if fn in ("points", "boxes"):
            if t % 2:
                args, out["detections"] = [], things
            if "text_size" in out:
                out["label_size"] = out.pop("text_size")
            if out.get("color") == "by_label":
                del out["color"]
                out["color_by_label"] = True
            elif t % 3 == 0:
                out["color_by_label"] = False
        if fn == "boxes":
            if out.get("color") == "random":
                del out["color"]
                out["random_color"] = True
            elif t % 5 == 0:
                out["random_color"] = False
            if out.get("color") is not None:
                out["line_color"] = out.pop("color")
            if "thickness" in out:
                out["line_width"] = out.pop("thickness")
        return args, out

    @staticmethod
    def modern(fn, opts):
        """The options of draw_points or draw_boxes that mean the same as those of its predecessor."""
        out = {
            "color": "by_label" if opts.get("color_by_label") else opts.get("color", opts.get("border_colors")),
            "draw_labels": opts.get("draw_labels", False),
            "text_size": opts["label_size"],
            "text_thickness": opts["id_thickness"],
            "draw_ids": opts.get("id_size", fn == "old_points") > 0,
        }
        for old, new in (("radius", "radius"), ("border_width", "thickness"), ("draw_points",) * 2, ("draw_box",) * 2):
            if old in opts:
                out[new] = opts[old]
        return out

    def simplify_op(self, op):
        for k in range(len(op["draw"])):
            if len(op["draw"]) > 1:
                yield dict(op, draw=[op["draw"][k]])
            if op["draw"][k]["o"]:
                for key in op["draw"][k]["o"]:
                    less = {a: b for a, b in op["draw"][k]["o"].items() if a != key}
                    draw = list(op["draw"])
                    draw[k] = dict(draw[k], o=less)
                    yield dict(op, draw=draw)
        if op["draw"]:
            yield dict(op, draw=[])
        yield from super().simplify_op(op)

    def simplify_plan(self, plan):
        if plan["standing"]:
            yield dict(plan, standing=0)
            yield dict(plan, standing=plan["standing"] // 2)
        for key in ("camera", "default_color"):
            if plan[key]:
                yield dict(plan, **{key: None})
        for k in range(len(plan["palettes"])):
            yield dict(plan, palettes=plan["palettes"][:k] + plan["palettes"][k + 1 :])
        if plan["size"] != [120, 160]:
            yield dict(plan, size=[120, 160])
        yield from super().simplify_plan(plan)

    def transformation(self, plan, t):
        if not plan["camera"]:
            return None
        return TranslationTransformation(
            np.array([math.sin(t * 0.7), math.cos(t * 0.9)]) * plan["camera"]
        )

    def exec(self, plan, ctx):
        try:
            for palette in plan["palettes"]:
                ctx.call("Palette.set", Palette.set, palette)
            if plan["default_color"]:
                ctx.call("Palette.set_default_color", Palette.set_default_color, plan["default_color"])
            self.run(plan, ctx)
        finally:
            Palette.set("tab10")
            Palette.set_default_color("black")

    def run(self, plan, ctx):
        trackers = [ctx.call("Tracker()", self.start, plan) for _ in range(2)]
        frame = np.zeros(plan["size"] + [3], np.uint8)
        paths = Paths(attenuation=0.3)
        apaths = AbsolutePaths(max_history=3)
        colors = {("id", None): (0, 0, 0)}
        if plan["default_color"]:
            colors["id", None] = tuple(plan["default_color"])
        colors["label", None] = colors["id", None]
        palette = (plan["palettes"] or ["tab10"])[-1]
        if isinstance(palette, str):
            colors["palette"] = NAMED.get(palette)
        else:
            colors["palette"] = {PARSED[c] if isinstance(c, str) else tuple(c) for c in palette}
        for t, op in enumerate(plan["ops"]):
            w.note_frame_faults(ctx, plan["ops"], t)
            coords = self.transformation(plan, t)
            results = []
            if t == 0 and plan["standing"]:
                ctx.fault("objects_standing_for_long")
                for tracker in trackers:
                    for _ in range(plan["standing"]):
                        dets = [w.make_detection(d) for d in op["d"]]
                        ctx.call("update before the first frame", tracker.update, dets, 1, coords)
            for tracker in trackers:
                dets = [w.make_detection(d) for d in op["d"]]
                arg = None if op.get("none") and not dets else dets
                got = ctx.call(f"update of frame {t}", tracker.update, arg, op["p"], coords)
                results.append((tracker, got, dets))
            ctx.steps += 1
            ctx.simtime += op["p"]
            a, b = ([self.brief(o) for o in tr.tracked_objects] for tr, _, _ in results)
            ctx.check(
                a == b,
                "side_effect",
                lambda: f"frame {t}: drawing earlier frames changed the objects: {a} instead of {b}",
            )
            # drawing happens for the first one only
            tracker, returned, dets = results[0]
            frame[:] = (40 + t) % 200
            for d in op["draw"]:
                self.draw(ctx, t, d, frame, tracker, returned, dets, paths, apaths, coords, colors)
            ctx.log(t, len(returned), int(frame.astype(np.int64).sum()) % 100003)

    @staticmethod
    def brief(o):
        return (o.id, o.initializing_id, o.age, o.hit_counter, np.round(o.estimate, 9).tolist())

    def draw(self, ctx, t, d, frame, tracker, returned, dets, paths, apaths, coords, colors):
        fn, who, opts = d["fn"], d["who"], dict(d["o"])
        if fn in ("paths", "table", "old_points", "old_boxes") and who in ("detections", "drawables"):
            who = "all"
        things = {
            "returned": list(returned),
            "all": list(tracker.tracked_objects),
            "detections": list(dets),
            "drawables": [Drawable(o) for o in list(tracker.tracked_objects) + list(dets)],
            "nothing": [],
        }[who]
        for key in ("color", "text_color", "border_colors"):
            if isinstance(opts.get(key), list):
                opts[key] = tuple(opts[key])
        for o in things:
            if isinstance(o, norfair.Detection):
                continue
            live = np.asarray(o.live_points)
            ctx.probe("live_" + ("all" if live.all() else "some" if live.any() else "none"))
            if getattr(o, "is_initializing", False):
                ctx.probe("initializing_object")
            if (np.asarray(o.estimate if hasattr(o, "estimate") else o.points) < 0).any():
                ctx.probe("off_screen")
            ctx.state((fn, who, str(sorted(opts.items())), str(live.tolist()), getattr(o, "is_initializing", None)))
        what = f"frame {t}: {fn}({who}, {opts})"
        before = snapshot(tracker, dets)
        shape, dtype = frame.shape, frame.dtype
        rec = Recorder()
        given = list(things)
        out = frame
        keep = frame.copy()
        text = None
        with seams.hooks(**rec.hooks()):
            args, kw = [things], opts
            if d.get("old"):
                args, kw = self.old_names(fn, things, opts, t)
                ctx.probe("old_names")
            elif d.get("omit"):
                args = []
            if fn == "points":
                out = ctx.call(what, do_points, frame, *args, **kw)
            elif fn == "boxes":
                out = ctx.call(what, do_boxes, frame, *args, **kw)
            elif fn == "old_points":
                ctx.call(what, norfair.draw_tracked_objects, frame, things, **opts)
            elif fn == "old_boxes":
                out = ctx.call(what, norfair.draw_tracked_boxes, frame, things, **opts)
            elif fn == "table":
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    ctx.call(what, norfair.print_objects_as_table, things)
                text = buf.getvalue()
            elif fn == "grid":
                ctx.call(what, draw_absolute_grid, frame, coords, grid_size=6)
            elif fn == "paths":
                out = ctx.call(what, paths.draw, frame, things)
                ctx.check(np.array_equal(keep, frame), "modified", f"{what} modifies its input frame")
                if coords is not None:
                    shown = [o for o in things if o.id is not None]
                    out = ctx.call(what, apaths.draw, frame.copy(), shown, coords)
        ctx.fault("drawn_" + fn)
        ctx.check(
            isinstance(out, np.ndarray) and out.shape == shape and out.dtype == dtype,
            "frame",
            lambda: f"{what} returns {type(out)} {getattr(out, 'shape', None)}",
        )
        ctx.check(
            len(given) == len(things) and all(x is y for x, y in zip(given, things)),
            "side_effect",
            f"{what} changes the list of objects",
        )
        after = snapshot(tracker, dets)
        ctx.check(before == after, "side_effect", lambda: f"{what} changed {before} to {after}")
        if fn == "table":
            self.table(ctx, what, things, text)
        twin = None
        if "old" in fn and "label_size" in opts and "id_thickness" in opts and (
            fn == "old_boxes" or "radius" in opts
        ):  # the others have defaults of their own
            twin = self.modern(fn, opts)
        elif fn in ("points", "boxes") and d.get("old") and opts.get("color") != "random":
            twin = opts
        if twin is not None:
            ctx.probe("old_names_compared")
            ctx.call(what, do_points if "points" in fn else do_boxes, keep, things, **twin)
            ctx.check(
                np.array_equal(keep, frame),
                "old_names",
                lambda: f"{what} differs from drawing with the current names: {twin}",
            )
        if fn in ("points", "boxes"):
            ctx.check(out is frame or np.array_equal(out, frame), "frame", f"{what}: returned frame differs")
            self.primitives(ctx, what, fn, things, opts, rec, colors, frame)

    @staticmethod
    def table(ctx, what, things, text):
        rows = []
        for line in text.splitlines():
            cells = [c.strip() for c in line.replace("\u2503", "\u2502").replace("|", "\u2502").split("\u2502")]
            cells = [c for c in cells if c != ""]
            if len(cells) == 5 and cells[0] != "Id":
                rows.append(cells)
        want = []
        for o in things:
            want.append([str(o.id), str(o.age), str(o.hit_counter), o.last_distance, str(o.initializing_id)])
        ctx.check(len(rows) == len(want), "table", lambda: f"{what}: {len(rows)} rows for {len(want)} objects:\n{text}")
        for got, exp in zip(rows, want):
            ok = got[:3] == exp[:3] and got[4] == exp[4]
            if exp[3] is not None:
                try:
                    ok = ok and abs(float(got[3]) - float(exp[3])) <= 1e-3 * (1 + abs(float(exp[3])))
                except ValueError:
                    ok = False
            ctx.check(ok, "table", lambda: f"{what}: row {got} for {exp}")

    def primitives(self, ctx, what, fn, things, opts, rec, colors, frame):
        labels = opts.get("draw_labels", fn == "points")
        ids = opts.get("draw_ids", True)
        scores = opts.get("draw_scores", False)
        hide = opts.get("hide_dead_points", True)
        marks, texts = [], []
        for o in things:
            d = o
            if isinstance(o, norfair.Detection):
                pts, ident, live, sc = o.points, None, np.ones(len(o.points), bool), o.scores
            elif isinstance(o, Drawable):
                pts, ident, live, sc = o.points, o.id, o.live_points, o.scores
            else:
                pts, ident, live, sc = o.estimate, o.id, o.live_points, None
            live = np.asarray(live)
            parts = []
            if labels and d.label is not None:
                parts.append(str(d.label))
            if ids and ident is not None:
                parts.append(str(ident))
            if scores and sc is not None:
                parts.append(str(np.round(np.mean(sc), 4)))
            parts = [p for k, p in enumerate(parts) if p or k]  # an empty first label gets no dash
            word = "-".join(parts)
            if fn == "points":
                if hide and not live.any():
                    continue
                shown = pts if not hide else pts[live]
                if opts.get("draw_points", True):
                    marks += [(tuple(p), ident, d.label) for p in shown]
                where = (pts[live] if live.any() else pts).mean(axis=0)
                if not (labels or ids or scores):
                    word = ""
            else:
                if opts.get("draw_box", True):
                    marks.append((tuple(pts[0]) + tuple(pts[1]), ident, d.label))
                where = pts[0]
            if word:
                texts.append((word, tuple(where), ident, d.label))
        for prim, key, given in (
            ("circle", "radius", "radius"),
            ("circle", "thickness", "thickness"),
            ("rectangle", "thickness", "thickness"),
            ("putText", "fontScale", "text_size"),
            ("putText", "thickness", "text_thickness"),
        ):
            if given in opts:
                have = {c[key] for c in rec.of(prim) if c.get("text") != ""}
                ctx.check(
                    have <= {opts[given]},
                    "options",
                    lambda: f"{what}: {prim} drawn with {key} {sorted(have)}, {given} is {opts[given]}",
                )
        if fn == "points":
            drawn = [(c["center"], c["color"]) for c in rec.of("circle")]
            ctx.check(not rec.of("rectangle"), "marks", f"{what} draws rectangles")
        else:
            drawn = [(c["pt1"] + c["pt2"], c["color"]) for c in rec.of("rectangle")]
            ctx.check(not rec.of("circle"), "marks", f"{what} draws circles")
        problem = matching(marks, drawn, lambda e, g: far(e[0], g[0]), 1.0)
        ctx.check(problem is None, "marks", lambda: f"{what}: {problem}")
        # texts: each may be drawn several times (shadow), all close to their object
        got = [c for c in rec.of("putText") if c["text"]]
        reach = (
            opts.get("radius", max(1, round(max(frame.shape) * 0.002)))
            + opts.get("thickness", max(frame.shape) / 500)
            + opts.get("text_thickness", opts.get("text_size", 1) + 1)
            + 4
        )
        used = set()
        for word, where, ident, label in texts:
            hit = [
                k for k, c in enumerate(got)
                if c["text"] == word and far(c["org"], where) <= reach
            ]
            ctx.check(
                bool(hit),
                "text",
                lambda: f"{what}: no text {word!r} at {where}; drawn: {[(c['text'], c['org']) for c in got]}",
            )
            used.update(hit)
            color = opts.get("text_color") or opts.get("color") or "by_id"
            if isinstance(color, str):
                color = PARSED.get(color, colors.get({"by_id": ("id", ident), "by_label": ("label", label)}.get(color)))
            if color is not None:
                ctx.check(
                    any(got[k]["color"] == color for k in hit),
                    "colour",
                    lambda: f"{what}: text {word!r} drawn in {[got[k]['color'] for k in hit]}, not in {color}",
                )
        extra = [(c["text"], c["org"]) for k, c in enumerate(got) if k not in used]
        ctx.check(not extra, "text", lambda: f"{what}: unexpected texts {extra}, expected {texts}")
        # colours
        color = opts.get("color", "by_id") or "by_id"
        if color == "random":
            return
        exact = all(
            far(e[0], f[0]) > 3 for k, e in enumerate(marks) for f in marks[:k]
        )
        if not exact:
            return
        for pos, ident, label in marks:
            c = next(c for p, c in drawn if far(pos, p) <= 1.0)
            if color == "by_id":
                key = ("id", ident)
            elif color == "by_label":
                key = ("label", label)
            else:
                want = color if isinstance(color, tuple) else PARSED[color]
                ctx.check(c == want, "colour", lambda: f"{what}: drawn in {c}")
                continue
            have = colors.setdefault(key, c)
            ctx.check(
                key[1] is None or colors["palette"] is None or c in colors["palette"],
                "colour",
                lambda: f"{what}: {key} is drawn in {c}, the palette has {sorted(colors['palette'])}",
            )
            ctx.check(have == c, "colour", lambda: f"{what}: {key} is drawn in {c}, before in {have}")


# ----------------------------------------------------------------------------- C26
class ViewC26(Scenario):
    name = "stabilized_view"
    quick = 3000
    thorough = 40000
    list_keys = ("moves",)
    rule = (
        "A camera trajectory of 3-25 frames with steps, far jumps in every direction and"
        " returns, over generated sizes, scales and attenuations; every returned view is"
        " compared with the placement and fading computed from the previous one."
    )
    time_unit = "frames"
    state_measure = "distinct (how the frame is cropped: left/right, top/bottom, completely)"
    real = ("norfair.drawing.fixed_camera", "norfair.camera_motion transformations")
    stub = ("camera (generated frames)", "motion estimator (generated transformations)")

    def gen(self, rng, tier):
        h, wid = rng.choice([[12, 16], [13, 17], [30, 20], [7, 40], [24, 24]])
        moves = []
        x = y = 0.0
        for _ in range(rng.choice([3, 6, 12, 25])):
            r = rng.random()
            if r < 0.5:
                x += rng.uniform(-4, 4)
                y += rng.uniform(-4, 4)
            elif r < 0.75:
                x = rng.uniform(-2.2, 2.2) * wid
                y = rng.uniform(-2.2, 2.2) * h
            elif r < 0.82:
                x, y = rng.choice([-1, 0, 1]) * 9 * wid, rng.choice([-1, 0, 1]) * 9 * h
            elif r < 0.9:
                x = y = 0.0
            # keep away from the ties of rounding
            moves.append([self.off_tie(x), self.off_tie(y)])
        if rng.random() < 0.25:
            # the motion estimator has nothing to say, at the start or now and then
            lead = rng.choice([0, 0, 1, 3])
            share = rng.choice([0.0, 0.2])
            moves = [None if k < lead or rng.random() < share else m for k, m in enumerate(moves)]
        return {
            "size": [h, wid],
            "scale": rng.choice([2, 2, 1, 3, 1.5, 1.3, 0.6, 2.5]),
            "att": rng.choice([0.05, 0.05, 0.0, 0.01, 0.3, 0.6, 0.9, 1.0]),
            "moves": moves,
            "channels": rng.choice([3, 3, 3, 1]),
            "key": rng.randrange(1 << 20),
        }

    @staticmethod
    def off_tie(v):
        f = v - math.floor(v)
        if abs(f - 0.5) < 0.05:
            v += 0.1
        return round(v, 3)

    def simplify_op(self, op):
        if op is None:
            yield [0.0, 0.0]
            return
        x, y = op
        for cand in ([0.0, 0.0], [x, 0.0], [0.0, y], [float(round(x)), float(round(y))]):
            if cand != op:
                yield cand

    def simplify_plan(self, plan):
        for key, val in (("att", 0.0), ("scale", 2), ("channels", 3), ("size", [12, 16])):
            if plan[key] != val:
                yield dict(plan, **{key: val})

    def exec(self, plan, ctx):
        h, wid = plan["size"]
        cam = ctx.call("FixedCamera()", FixedCamera, plan["scale"], plan["att"])
        prev = None
        old = []
        for t, move in enumerate(plan["moves"]):
            x, y = move or (0.0, 0.0)
            rng = np.random.RandomState((plan["key"] + 7919 * t) % (1 << 31))
            frame = rng.randint(1, 256, (h, wid, plan["channels"])).astype(np.uint8)
            keep = frame.copy()
            # the camera moved by (x, y): static points are seen at -x, -y
            tr = TranslationTransformation(np.array([-x, -y]))
            if move is None:
                tr = None
                ctx.fault("motion_not_estimated")
            view = ctx.call(f"adjust_frame {t} at {x, y}", cam.adjust_frame, frame, tr)
            ctx.steps += 1
            ctx.simtime += 1
            ctx.check(np.array_equal(frame, keep), "modified", "adjust_frame modifies the frame")
            if prev is None:
                sizes = [math.floor(v * plan["scale"] + 0.5) for v in (h, wid)]
                ctx.check(
                    isinstance(view, np.ndarray)
                    and all(abs(a - b) <= 1 for a, b in zip(view.shape[:2], sizes))
                    and view.shape[2:] == frame.shape[2:],
                    "size",
                    lambda: f"the view of a {frame.shape} frame at scale {plan['scale']} has {view.shape}",
                )
                prev = np.zeros_like(view)
                ideal = np.zeros(view.shape)
            ctx.check(
                view.shape == prev.shape and view.dtype == frame.dtype,
                "size",
                lambda: f"frame {t}: the view is {view.shape} {view.dtype}, before {prev.shape}",
            )
            vh, vw = view.shape[:2]
            # position of the frame: centred, displaced by the rounded camera motion
            top = vh // 2 - h // 2 + math.floor(y + 0.5)
            left = vw // 2 - wid // 2 + math.floor(x + 0.5)
            low = np.floor(prev.astype(float) * (1 - plan["att"]) - 1e-6) - 1
            high = np.ceil(prev.astype(float) * (1 - plan["att"]) + 1e-6)
            low = np.maximum(low, 0)
            # whatever the precision kept, old content does not stop fading
            ideal *= 1 - plan["att"]
            lo, hi = low.copy(), np.minimum(np.minimum(high, prev), np.ceil(ideal + 0.51))
            y0, y1 = max(top, 0), min(top + h, vh)
            x0, x1 = max(left, 0), min(left + wid, vw)
            if y1 > y0 and x1 > x0:
                part = frame[y0 - top : y1 - top, x0 - left : x1 - left]
                lo[y0:y1, x0:x1] = part
                hi[y0:y1, x0:x1] = part
                ideal[y0:y1, x0:x1] = part
            crop = (top < 0, left < 0, top + h > vh, left + wid > vw, y1 <= y0, x1 <= x0)
            if any(crop):
                ctx.fault("frame_outside_completely" if crop[4] or crop[5] else "frame_cropped")
            if t and far(plan["moves"][t - 1] or (0, 0), (x, y)) > max(h, wid):
                ctx.fault("camera_jump")
            ctx.state(crop)
            bad = (view < lo) | (view > hi)
            ctx.check(
                not bad.any(),
                "view",
                lambda: f"frame {t} ({h}x{wid} in {vh}x{vw}) at camera {x, y} belongs at"
                f" {left, top}: {int(bad.sum())} values of the view are wrong, the first at"
                f" {np.argwhere(bad)[0].tolist()}",
            )
            for k, (v, copy) in enumerate(old):
                ctx.check(
                    np.array_equal(v, copy), "aliasing", lambda: f"frame {t} changes the view returned for frame {k}"
                )
            prev = view.copy()
            old = (old + [(view, view.copy())])[-3:]
            ctx.log(t, crop, int(view.astype(np.int64).sum()) % 1000003)


# ----------------------------------------------------------------------------- C27
class PathsC27(Scenario):
    name = "paths"
    quick = 900
    thorough = 20000
    list_keys = ("ops",)
    rule = (
        "One to four objects that appear, vanish and come back (matched or coasting) under a"
        " moving camera; paths and absolute paths are drawn after every frame from the"
        " reported objects in generated order, and the primitives issued and frames returned"
        " are compared with the positions the objects had."
    )
    time_unit = "frames"
    state_measure = "distinct (lengths of the drawn histories, camera kind)"
    real = ("norfair.drawing.path", "norfair.tracker", "OpenCV drawing")
    stub = ("detector (generated detections)", "motion estimator (generated transformations)")

    def gen(self, rng, tier):
        n = rng.choice([8, 15, 30])
        actors = rng.choice([1, 2, 2, 3, 4])
        here = [rng.random() < 0.7 for _ in range(actors)]
        ops = []
        for _ in range(n):
            for a in range(actors):
                if rng.random() < 0.2:
                    here[a] = not here[a]
            ops.append({"see": [a for a in range(actors) if here[a]], "skip": rng.random() < 0.07})
        if rng.random() < 0.15:
            for op in ops:
                op["lost"] = rng.random() < 0.2
        return {
            "ops": ops,
            "points": rng.choice([1, 2, 3, 5]),
            "camera": rng.choice(["none", "still", "translation", "translation", "homography"]),
            "get": rng.choice(["mean", "mean", "all", "first", "view"]),
            "history": rng.choice([0, 1, 2, 3, 5, 20]),
            "att": rng.choice([0.01, 0.0, 0.3, 1.0, 0.05]),
            "color": rng.choice([None, None, [10, 220, 90]]),
            "radius": rng.choice([None, 1, 3]),
            "hit_max": rng.choice([2, 4, 15]),
            "dead": rng.random() < 0.4,
            "size": rng.choice([[120, 160], [100, 60]]),
            "key": rng.randrange(1 << 20),
        }

    def simplify_op(self, op):
        for a in op["see"]:
            yield dict(op, see=[b for b in op["see"] if b != a])
        if op["skip"]:
            yield dict(op, skip=False)
        if op.get("lost"):
            yield dict(op, lost=False)

    def simplify_plan(self, plan):
        for key, val in (
            ("camera", "still"), ("get", "mean"), ("points", 1), ("dead", False), ("color", None),
            ("att", 0.0), ("radius", None), ("history", 3),
        ):
            if plan[key] != val and not (plan["camera"] == "none" and key == "camera"):
                yield dict(plan, **{key: val})

    def camera(self, plan, t):
        kind = plan["camera"]
        if kind == "none":
            return None
        if kind == "still":
            return TranslationTransformation(np.zeros(2))
        a = 9 * math.sin(t * 0.5) + 1.5 * t
        b = 7 * math.cos(t * 0.3)
        if kind == "translation":
            return TranslationTransformation(np.array([a, b]))
        r = 0.02 * t
        return HomographyTransformation(
            np.array(
                [
                    [math.cos(r), -math.sin(r), a],
                    [math.sin(r), math.cos(r), b],
                    [1e-5 * math.sin(t), 1e-5, 1.0],
                ]
            )
        )

    def exec(self, plan, ctx):
        h, wid = plan["size"]
        tracker = ctx.call(
            "Tracker()",
            norfair.Tracker,
            lambda d, o: float(np.abs(d.points - o.estimate).max()) if d.label == o.label else 1e9,
            80,
            hit_counter_max=plan["hit_max"],
            initialization_delay=0,
            pointwise_hit_counter_max=2,
        )
        getters = {
            "mean": None,
            "all": lambda pts: np.array(pts),
            "first": lambda pts: [np.array(pts[0])],
            "view": lambda pts: pts,
        }
        kw = {
            "get_points_to_draw": getters[plan["get"]],
            "color": None if plan["color"] is None else tuple(plan["color"]),
            "radius": plan["radius"],
        }
        paths = ctx.call("Paths()", Paths, attenuation=plan["att"], **kw)
        apaths = ctx.call("AbsolutePaths()", AbsolutePaths, max_history=plan["history"], **kw)
        past = {}  # id -> absolute points drawn, newest first
        mask = np.zeros((h, wid, 3))
        slack = np.zeros((h, wid, 3))
        colors = {}
        for t, op in enumerate(plan["ops"]):
            coords = self.camera(plan, t)
            dets = []
            for a in op["see"]:
                base = np.array([20.0 + 30 * a, 25.0 + 17 * a]) + [
                    12 * math.sin(0.4 * t + a), 9 * math.cos(0.23 * t + 2 * a)
                ]
                pts = base + np.array([[0, 0], [7, 3], [-5, 6], [3, -8], [-9, -4]])[: plan["points"]]
                pts = pts + [[u01(plan["key"], t, a, k), u01(plan["key"], t, a, k, "y")] for k in range(len(pts))]
                rel = pts if coords is None else np.asarray(coords.abs_to_rel(pts))
                if coords is not None and op.get("lost"):
                    ctx.fault("motion_not_estimated")
                sc = np.ones(len(pts))
                if plan["dead"] and len(pts) > 1 and u01(plan["key"], t // 4, a, "d") < 0.4:
                    sc[0] = -1.0
                    ctx.fault("point_dropout")
                dets.append(norfair.Detection(rel, scores=sc, label=a, data=a))
            if op.get("lost"):
                coords = None
            objs = ctx.call(f"update of frame {t}", tracker.update, dets, 1, coords)
            if op["skip"]:
                objs = []
                ctx.fault("frame_drawn_without_objects")
            order = sorted(objs, key=lambda o: u01(plan["key"], t, o.id))
            ctx.steps += 1
            ctx.simtime += 1
            if t:
                gone = set(past) - {o.id for o in objs}
                if gone:
                    ctx.fault("object_not_reported", len(gone))
            mask, slack = self.paths(plan, ctx, t, paths, order, mask, slack, colors)
            self.absolute(plan, ctx, t, apaths, order, coords, past, colors)
            ctx.log(t, [o.id for o in order])
            ctx.state((plan["camera"], tuple(sorted(len(v) for v in past.values()))))

    def chosen(self, plan, pts):
        return {
            "mean": lambda p: [np.mean(p, axis=0)],
            "all": list,
            "first": lambda p: [p[0]],
            "view": list,
        }[plan["get"]](np.array(pts))

    def colour(self, plan, ctx, what, oid, got, colors):
        if plan["color"] is not None:
            ctx.check(got == tuple(plan["color"]), "colour", lambda: f"{what}: drawn in {got}")
            return
        have = colors.setdefault(oid, got)
        ctx.check(have == got, "colour", lambda: f"{what}: object {oid} is drawn in {got}, before in {have}")

    def paths(self, plan, ctx, t, paths, order, mask, slack, colors):
        h, wid = plan["size"]
        frame = np.random.RandomState((plan["key"] + t) % (1 << 31)).randint(0, 120, (h, wid, 3)).astype(np.uint8)
        keep = frame.copy()
        rec = Recorder()
        with seams.hooks(**rec.hooks()):
            out = ctx.call(f"Paths.draw of frame {t}", paths.draw, frame, order)
        what = f"frame {t}: Paths"
        ctx.check(np.array_equal(frame, keep), "modified", f"{what} modifies the input frame")
        ctx.check(
            isinstance(out, np.ndarray) and out.shape == frame.shape and out.dtype == frame.dtype,
            "frame",
            f"{what} returns another kind of frame",
        )
        want = [(tuple(p), o.id) for o in order for p in self.chosen(plan, o.estimate)]
        circles = rec.of("circle")
        problem = matching(want, circles, lambda e, c: far(e[0], c["center"]), 1.0)
        ctx.check(problem is None, "marks", lambda: f"{what}: {problem}")
        # the marks: everything that was there, faded, under the new circles
        k = 1 - plan["att"]
        mask = mask * k
        slack = slack * k + 1.0
        fresh = np.zeros((h, wid, 3), np.uint8)
        area = np.zeros((h, wid, 3), np.uint8)
        for c in circles:
            cv2.circle(
                fresh, c["center"], radius=c["radius"], color=c["color"], thickness=c["thickness"]
            )
            cv2.circle(
                area, c["center"], radius=c["radius"], color=(1, 1, 1), thickness=c["thickness"]
            )
        on = area > 0
        mask[on] = fresh[on]
        slack[on] = 0
        lo = np.minimum(255, np.maximum(mask - slack, 0) + frame) - 1
        hi = np.minimum(255, mask + frame) + 1
        bad = (out < lo) | (out > hi)
        ctx.check(
            not bad.any(),
            "blend",
            lambda: f"{what}: {int(bad.sum())} values differ from frame plus marks, the first at"
            f" {np.argwhere(bad)[0].tolist()}",
        )
        return mask, slack

    @staticmethod
    def where(o):
        """Absolute coordinates; those of objects that have not seen any camera motion are."""
        try:
            return o.get_estimate(absolute=True)
        except ValueError:
            return np.asarray(o.estimate)

    def absolute(self, plan, ctx, t, apaths, order, coords, past, colors):
        h, wid = plan["size"]
        frame = np.full((h, wid, 3), 20, np.uint8)
        rec = Recorder()
        states = [(o.id, self.where(o).tolist()) for o in order]
        with seams.hooks(**rec.hooks()):
            given = [] if coords is None and t % 2 else [coords]
            out = ctx.call(f"AbsolutePaths.draw of frame {t}", apaths.draw, frame, order, *given)
        if coords is None:
            ctx.probe("absolute_paths_without_camera")
            coords = TranslationTransformation(np.zeros(2))
        what = f"frame {t}: AbsolutePaths"
        ctx.check(
            isinstance(out, np.ndarray) and out.shape == frame.shape and out.dtype == frame.dtype,
            "frame",
            f"{what} returns another kind of frame",
        )
        ctx.check(
            states == [(o.id, self.where(o).tolist()) for o in order],
            "side_effect",
            f"{what} changes the objects",
        )
        circles, lines = [], []
        for o in order:
            if not np.asarray(o.live_points).any():
                ctx.probe("object_without_live_points")
                continue
            pts = [np.array(p) for p in self.chosen(plan, self.where(o))]
            rel = np.asarray(coords.abs_to_rel(np.array(pts)))
            circles += [(tuple(p), o.id) for p in rel]
            last = rel
            for old in past.get(o.id, []):
                seen = np.asarray(coords.abs_to_rel(np.array(old)))
                lines += [(tuple(last[j]) + tuple(seen[j]), o.id) for j in range(len(seen))]
                last = seen
            past[o.id] = ([pts] + past.get(o.id, []))[: plan["history"]]
        problem = matching(circles, rec.of("circle"), lambda e, c: far(e[0], c["center"]), 1.0)
        ctx.check(problem is None, "marks", lambda: f"{what}: {problem}")

        def dist(e, c):
            a, b = c["pt1"] + c["pt2"], c["pt2"] + c["pt1"]
            return min(far(e[0], a), far(e[0], b))

        problem = matching(lines, rec.of("line"), dist, 1.0)
        ctx.check(problem is None, "history", lambda: f"{what}: segments: {problem}")
        for pos, oid in circles:
            got = [c["color"] for c in rec.of("circle") if far(pos, c["center"]) <= 1.0]
            if len(got) == 1:
                self.colour(plan, ctx, what, oid, got[0], colors)
                near = [q for q, other in lines if other == oid]
                for q in near:
                    seg = [
                        c["color"] for c in rec.of("line")
                        if dist((q, oid), c) <= 1.0
                    ]
                    if len(seg) == 1:
                        self.colour(plan, ctx, what, oid, seg[0], colors)


SCENARIOS = {"C25": DrawC25, "C26": ViewC26, "C27": PathsC27}

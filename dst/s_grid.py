"""C39: the absolute grid is a set of points that belong to the scene."""
import math

import numpy as np

from norfair.camera_motion import HomographyTransformation, TranslationTransformation
from norfair.drawing import draw_absolute_grid

from .core import Scenario

INK = (250, 251, 252)


def latitudes(n):
    return [-math.pi / 2 + (k + 0.5) * math.pi / n for k in range(n)]


def grid(n, wid, h, polar):
    """Where the lines of latitude and longitude of a sphere meet, seen from its centre."""
    points = []
    for a in latitudes(n):
        for b in latitudes(n):
            if polar:
                points.append([math.tan(a) * math.cos(b), math.tan(a) * math.sin(b)])
            else:
                points.append([math.tan(b), math.tan(a) / math.cos(b)])
    return np.array(points) * max(h, wid) + [wid // 2, h // 2]


class GridC39(Scenario):
    name = "absolute_grid"
    quick = 1500
    thorough = 30000
    list_keys = ("ops",)
    rule = (
        "A camera that pans, turns, zooms, jumps and comes back over 2-25 frames, with frames"
        " whose motion is not known; one to six grids (sizes, kinds, colours, marks) are drawn"
        " in generated order on frames of one to three sizes, and every pixel of each frame is"
        " compared with the grid computed from the sphere."
    )
    time_unit = "frames"
    state_measure = "distinct (grid, frame size, number of points in view)"
    real = ("norfair.drawing.absolute_grid", "norfair.camera_motion transformations", "OpenCV drawing")
    stub = ("camera (generated frames)", "motion estimator (generated transformations)")

    def gen(self, rng, tier):
        kinds = []
        for _ in range(rng.choice([1, 1, 2, 3, 6])):
            kinds.append(
                {
                    "n": rng.choice([None, 2, 3, 5, 8, 12]),
                    "polar": rng.choice([None, False, True]),
                    "radius": rng.choice([None, 1, 3]),
                    "thickness": rng.choice([None, 1]),
                }
            )
        sizes = [rng.choice([[60, 80], [80, 60], [71, 71], [40, 120], [97, 33]]) for _ in range(rng.choice([1, 1, 2, 3]))]
        kind = rng.choice(["translation", "homography", "homography"])
        ops = []
        x = y = angle = 0.0
        zoom = 1.0
        for _ in range(rng.choice([2, 5, 12, 25])):
            r = rng.random()
            if r < 0.5:
                x += rng.uniform(-9, 9)
                y += rng.uniform(-9, 9)
                angle += rng.uniform(-0.05, 0.05)
                zoom *= rng.uniform(0.95, 1.05)
            elif r < 0.7:
                x, y = rng.uniform(-150, 150), rng.uniform(-150, 150)
            elif r < 0.8:
                x = y = angle = 0.0
                zoom = 1.0
            elif r < 0.85:
                x, y = rng.choice([-1, 1]) * 1500.0, rng.choice([-1, 0, 1]) * 900.0
            zoom = min(max(zoom, 0.5), 2.0)
            see = [round(x, 3), round(y, 3), round(angle, 4), round(zoom, 4)]
            if kind == "homography":
                see += [round(rng.uniform(-1, 1) * 1e-4, 7), round(rng.uniform(-1, 1) * 1e-4, 7)]
            ops.append(
                {
                    "see": None if rng.random() < 0.1 else see,
                    "grid": rng.randrange(len(kinds)),
                    "size": rng.randrange(len(sizes)),
                    "back": rng.choice([0, 90]),
                }
            )
        return {"kinds": kinds, "sizes": sizes, "kind": kind, "ops": ops}

    def simplify_plan(self, plan):
        if plan["kind"] == "homography":
            yield dict(plan, kind="translation")
        if len(set(map(tuple, plan["sizes"]))) > 1:
            yield dict(plan, sizes=[plan["sizes"][0]] * len(plan["sizes"]))

    def simplify_op(self, op):
        if op["see"] and any(op["see"]):
            yield dict(op, see=None)

    @staticmethod
    def matrix(see):
        x, y, angle, zoom, *tilt = see
        c, s = math.cos(angle) * zoom, math.sin(angle) * zoom
        m = np.array([[c, -s, x], [s, c, y], [0.0, 0.0, 1.0]])
        if tilt:
            m[2, :2] = tilt
        return m

    def exec(self, plan, ctx):
        last = None
        for t, op in enumerate(plan["ops"]):
            g = plan["kinds"][op["grid"]]
            h, wid = plan["sizes"][op["size"]]
            points = grid(g["n"] or 20, wid, h, bool(g["polar"]))
            if op["see"] is None:
                camera, seen = None, points
                ctx.fault("motion_unknown")
            elif plan["kind"] == "translation":
                move = np.array(op["see"][:2])
                camera, seen = TranslationTransformation(move), points + move
            else:
                m = self.matrix(op["see"])
                camera = HomographyTransformation(m)
                full = np.hstack([points, np.ones((len(points), 1))]) @ m.T
                with np.errstate(all="ignore"):
                    seen = full[:, :2] / full[:, 2:]
            if op["see"] and last and math.hypot(op["see"][0] - last[0], op["see"][1] - last[1]) > 25:
                ctx.fault("camera_jump")
            last = op["see"]
            frame = np.full((h, wid, 3), op["back"], np.uint8)
            options = {
                name: g[key]
                for key, name in (("n", "grid_size"), ("polar", "polar"), ("radius", "radius"), ("thickness", "thickness"))
                if g[key] is not None
            }
            what = f"frame {t}: grid {options} on {h}x{wid}"
            ctx.call(what, draw_absolute_grid, frame, camera, color=INK, **options)
            if t and op["grid"] != plan["ops"][t - 1]["grid"]:
                ctx.fault("interleaved_grid")
            self.compare(ctx, what, frame, op["back"], seen, g, wid, h)
            ctx.steps += 1
            ctx.simtime += 1
            ctx.log(t, int(frame.astype(np.int64).sum()))

    @staticmethod
    def compare(ctx, what, frame, back, seen, g, wid, h):
        ctx.check(frame.shape == (h, wid, 3) and frame.dtype == np.uint8, "frame", f"{what} changes the frame")
        marked = (frame != back).any(axis=2)
        ctx.check(
            (frame[marked] == INK).all(), "colour", lambda: f"{what}: colours {np.unique(frame[marked], axis=0).tolist()}"
        )
        inside = [p for p in seen if -1.5 < p[0] < wid + 1.5 and -1.5 < p[1] < h + 1.5]
        ctx.state((str(g), wid, h, len(inside)))
        ctx.probe("points_in_view", len(inside))
        ys, xs = np.nonzero(marked)
        radius = g["radius"] or 2
        for p in inside:
            if 1 < p[0] < wid - 2 and 1 < p[1] < h - 2:
                near = np.maximum(abs(xs - p[0]), abs(ys - p[1])) <= 1.01
                ctx.check(bool(near.any()), "missing", lambda: f"{what}: no mark at {p.tolist()}")
        if len(xs) == 0:
            return
        # every pixel belongs to the mark of a point in view
        far = np.ones(len(xs), bool)
        for p in inside:
            far &= np.maximum(abs(xs - p[0]), abs(ys - p[1])) > radius + 2.01
        ctx.check(
            not far.any(),
            "extra",
            lambda: f"{what}: marks at {[(int(x), int(y)) for x, y in zip(xs[far], ys[far])][:5]}, away from the grid",
        )


SCENARIOS = {"C39": GridC39}

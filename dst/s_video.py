"""C16-C19: reading and writing videos and image sequences against simulated devices."""
import os
import re
import shutil
import tempfile

import numpy as np

from . import seams
from . import world as w  # noqa: F401 pylint: disable=unused-import
from .core import Scenario, u01
from .sched import Scheduler

import cv2
from norfair import Video
from norfair.metrics import Accumulators, InformationFile, PredictionsTextFile
from norfair.video import VideoFromFrames

REAL = ("norfair.video", "rich progress bars (without refresh thread)")
STUB = (
    "cv2.VideoCapture, cv2.VideoWriter, cv2.imread, GUI (simulated devices)",
    "clock (virtual)",
)


def frame_of(source, k, shape):
    """Frame k of a source: recognisable content; now and then blank or the last frame again."""
    key = (hash_of(source) * 131 + k * 7919) % (1 << 31)
    if key % 17 == 3:
        return np.zeros((shape[0], shape[1], 3), dtype=np.uint8)
    if key % 17 == 5 and k > 0:
        return frame_of(source, k - 1, shape)
    rng = np.random.RandomState(key)
    return rng.randint(0, 256, size=(shape[0], shape[1], 3), dtype=np.uint8)


def hash_of(text):
    out = 7
    # the name of the scratch directory differs between runs
    for c in re.sub(r"dst-[^/]*", "", str(text)):
        out = (out * 131 + ord(c)) % 1000003
    return out


def equal(a, b):
    return (
        isinstance(a, np.ndarray)
        and a.shape == b.shape
        and a.dtype == b.dtype
        and bool(np.array_equal(a, b))
    )


class Capture:
    """A simulated camera or video file."""

    def __init__(self, dev, key, spec):
        self.dev, self.key, self.spec = dev, key, spec
        self.pos = 0
        self.released = 0
        self.reads = 0
        self.reads_after_release = 0

    def isOpened(self):
        return not self.released

    def get(self, prop):
        s = self.spec
        return {
            cv2.CAP_PROP_FRAME_COUNT: float(s["count"]),
            cv2.CAP_PROP_FPS: float(s["fps"]),
            cv2.CAP_PROP_FRAME_HEIGHT: float(s["shape"][0]),
            cv2.CAP_PROP_FRAME_WIDTH: float(s["shape"][1]),
            cv2.CAP_PROP_POS_FRAMES: float(self.pos),
        }.get(prop, 0.0)

    def set(self, prop, value):
        if prop == cv2.CAP_PROP_POS_FRAMES:
            self.pos = int(value)
            return True
        return False

    def grab(self):
        self._grabbed = self.read()
        return self._grabbed[0]

    def retrieve(self):
        return self._grabbed

    def read(self, image=None):
        self.reads += 1
        if self.released:
            self.reads_after_release += 1
            return False, None
        k = self.pos
        self.pos += 1
        bad = self.spec["bad"].get(str(k))
        if bad:
            self.dev.ctx.fault("read_" + bad)
            if bad == "false_with_frame":
                return False, frame_of(self.key, k, self.spec["shape"])
            return bad == "none", None
        if k >= self.spec["n"]:
            return False, None
        if "images" in self.spec:
            return True, self.spec["images"][k].copy()
        return True, frame_of(self.key, k, self.spec["shape"])

    def release(self):
        self.released += 1


class Writer:
    """A simulated encoder."""

    def __init__(self, dev, path, fourcc, fps, size):
        self.dev, self.path, self.fourcc = dev, path, fourcc
        self.fps, self.size = fps, size
        self.frames = []
        self.released = 0
        self.late = 0

    def isOpened(self):
        return not self.released

    def write(self, frame):
        if self.released:
            self.late += 1
            return
        self.frames.append(np.array(frame))

    def release(self):
        self.released += 1


class Devices:
    """All video devices of one run."""

    def __init__(self, ctx, sources):
        self.ctx = ctx
        self.sources = sources
        self.captures = []
        self.writers = []
        self.shown = []
        self.keys = 0
        self.images = {}

    def capture(self, _real, src=None, *_a, **_k):
        cap = Capture(self, src, self.sources[str(src)])
        self.captures.append(cap)
        return cap

    def writer(self, _real, path=None, *args, **kw):
        args = list(args)
        if len(args) >= 4 and isinstance(args[0], int) and isinstance(args[3], (tuple, list)):
            args.pop(0)  # apiPreference
        names = ("fourcc", "fps", "frameSize")
        vals = dict(zip(names, args))
        vals.update({k: v for k, v in kw.items() if k in names})
        if isinstance(vals["fps"], (str, bytes)) or any(isinstance(v, (str, bytes)) for v in vals["frameSize"]):
            raise cv2.error("VideoWriter() : fps and frameSize must be numbers")
        wr = Writer(self, kw.get("filename", path), vals["fourcc"], vals["fps"], vals["frameSize"])
        self.writers.append(wr)
        return wr

    def imread(self, _real, path, flags=cv2.IMREAD_COLOR, *_a, **_k):
        img = self.images.get(os.path.normpath(path))
        if img is None:
            return None
        if flags == cv2.IMREAD_GRAYSCALE:
            return img[:, :, 0].copy()
        if flags < 0 and img[0, 0, 0] % 2:  # images may be grey or have an alpha channel
            return np.dstack([img, img[:, :, :1]])
        return img.copy()

    def imshow(self, _real, _name, frame):
        self.shown.append(np.array(frame))

    def key(self, _real, *_a):
        self.keys += 1
        return -1

    def nothing(self, _real, *_a, **_k):
        return None

    def hooks(self):
        return seams.hooks(
            VideoCapture=self.capture,
            VideoWriter=self.writer,
            imread=self.imread,
            imshow=self.imshow,
            waitKey=self.key,
            waitKeyEx=self.key,
            pollKey=self.key,
            destroyAllWindows=self.nothing,
            destroyWindow=self.nothing,
            namedWindow=self.nothing,
        )


class Scratch:
    """A scratch directory that disappears with the run."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="dst-")
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)


def make_clock(plan, ctx):
    clock = seams.VirtualClock()
    moves = plan["clock"]

    def on_read(c):
        d = moves[c.reads % len(moves)] if moves else 0.01
        if d == 0:
            ctx.fault("clock_stalls")
        elif d < 0:
            ctx.fault("clock_jumps_back")
        elif d > 1000:
            ctx.fault("clock_jumps_forward")
        c.wall_offset += d
        ctx.simtime += max(d, 0)

    clock.on_read = on_read
    return clock


def gen_clock(rng):
    mode = rng.random()
    if mode < 0.2:
        return [0]
    if mode < 0.4:
        return [0.03]
    return [
        rng.choice([0, 0, 0.01, 0.04, 1.0, -0.04, -3600.0, -1e9, 1e9, 86400.0])
        for _ in range(rng.choice([1, 3, 7, 20]))
    ]


def gen_source(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 5, 8, 20]) if n is None else n
    bad = {}
    if rng.random() < 0.45 and n:
        for _ in range(rng.choice([1, 1, 2])):
            bad[str(rng.randint(0, n))] = rng.choice(["false", "none", "false_with_frame"])
    count = n if rng.random() < 0.5 else rng.choice([1, 2, max(1, n // 4), n + 1, max(1, n - 1), 3 * n + 7, -1, 10**9])
    return {
        "n": n,
        "count": count or 1,
        "fps": rng.choice([25.0, 30.0, 29.97, 10.0, 1.0]),
        "shape": rng.choice([[6, 8], [12, 10], [9, 9], [1, 1], [48, 64]]),
        "bad": bad,
    }


def expected_frames(spec):
    """Indices of the frames a source delivers before it ends or fails."""
    out = []
    for k in range(spec["n"]):
        if str(k) in spec["bad"]:
            break
        out.append(k)
    return out


def touch(path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(b"x")


FILES = ("clip.mp4", "clip.1.mp4", "clip.2.avi", "cam_0.mov", "a b.mkv", "video", "x.y.z.mp4", "clip~1.mp4")
# names that differ in a part that might get lost
PAIRS = (
    ("clip.mp4", "clip.1.mp4"),
    ("clip.2.mp4", "clip.1.avi"),
    ("x.y.z.mp4", "x.y.mp4"),
    ("a_1.mp4", "a_2.mp4"),
    ("a b.mkv", "a.mkv"),
    ("Clip.mp4", "clip.mp4"),
    (".mp4.mp4", "x.mp4"),
    ("a_out.mp4", "a.mp4"),
)


# ---------------------------------------------------------------------- C16
class ReadC16(Scenario):
    name = "video_read"
    quick = 2600
    thorough = 40000
    list_keys = ("cuts", "clock")
    rule = (
        "One video file or camera of 0-20 frames whose reads fail in three ways at generated"
        " positions and whose frame count lies; the reader is interrupted at generated"
        " positions (generator dropped, closed, or kept aside) and iterated again; the clock"
        " stalls and jumps at every read of it."
    )
    time_unit = "seconds"
    state_measure = "distinct (frames, failure, interruptions, clock moves)"
    real = REAL
    stub = STUB

    def gen(self, rng, tier):
        plan = {
            "source": gen_source(rng),
            "camera": rng.choice([None, None, 0, 3, 17]),
            "file": rng.choice(FILES),
            "label": rng.choice(["", "run", "a long label " * 20, "[bold]tag[/bold]", "[x] 50%"]),
            "cuts": [
                [rng.randint(0, 8), rng.choice(["break", "close", "keep", "raise"])]
                for _ in range(rng.choice([0, 0, 1, 2, 4]))
            ],
            "clock": gen_clock(rng),
            "after": rng.choice([0, 1, 2]),
            "spoil": rng.random() < 0.3,
            "home": rng.random() < 0.08,
        }
        if rng.random() < 0.12:
            plan["invalid"] = rng.choice(
                ["missing", "directory", "empty", "both", "neither", "str", "float", "bool"]
            )
        return plan

    def simplify_plan(self, plan):
        src = plan["source"]
        for n in (src["n"] // 2, src["n"] - 1):
            if 0 <= n < src["n"]:
                yield dict(plan, source=dict(src, n=n))
        for k in src["bad"]:
            yield dict(plan, source=dict(src, bad={b: v for b, v in src["bad"].items() if b != k}))
        for key, val in (("label", ""), ("after", 0), ("spoil", False), ("home", False), ("camera", None)):
            if plan[key] != val:
                yield dict(plan, **{key: val})

    def exec(self, plan, ctx):
        with Scratch() as root, make_clock(plan, ctx):
            path = os.path.join(root, plan["file"])
            touch(path)
            src = plan["source"]
            key = path if plan["camera"] is None else plan["camera"]
            dev = Devices(ctx, {str(key): src})
            with dev.hooks():
                if plan.get("invalid"):
                    self.invalid(plan, ctx, dev, path, root)
                else:
                    self.read(plan, ctx, dev, path, key)

    @staticmethod
    def invalid(plan, ctx, dev, path, root):
        kind = plan["invalid"]
        args = {
            "missing": {"input_path": os.path.join(root, "nothing.mp4")},
            "directory": {"input_path": root},
            "empty": {"input_path": path},
            "both": {"input_path": path, "camera": 0},
            "neither": {},
            "str": {"camera": "0"},
            "float": {"camera": 1.0},
            "bool": {"camera": True},
        }[kind]
        for a in args.values():
            dev.sources[str(a)] = dict(plan["source"], count=0)
        ctx.fault("invalid_" + kind)
        try:
            Video(**args)
        except Exception as e:  # pylint: disable=broad-except
            ctx.log("rejected", type(e).__name__)
            ctx.check(True, "rejected")
            return
        ctx.check(False, "accepted", f"Video({args}) is accepted ({kind})")

    @staticmethod
    def read(plan, ctx, dev, path, key):
        src = plan["source"]
        if plan["camera"] is None:
            named = path
            home = os.environ.get("HOME")
            if plan.get("home"):
                os.environ["HOME"] = os.path.dirname(path)
                named = os.path.join("~", os.path.basename(path))
            try:
                video = ctx.call("Video(file)", Video, input_path=named, label=plan["label"])
            finally:
                if home is not None:
                    os.environ["HOME"] = home
                elif plan.get("home"):
                    del os.environ["HOME"]
        else:
            video = ctx.call("Video(camera)", Video, camera=plan["camera"], label=plan["label"])
        cap = dev.captures[-1]
        if plan["source"]["count"] != src["n"]:
            ctx.fault("wrong_frame_count")
        want = expected_frames(src)
        got = 0
        kept = []
        cuts = list(plan["cuts"])
        ended = False
        while not ended:
            cut = cuts.pop(0) if cuts else None
            it = ctx.call("iter(video)", iter, video)
            taken = 0
            while cut is None or taken < cut[0]:
                try:
                    frame = next(it)
                except StopIteration:
                    ended = True
                    break
                except Exception as e:  # pylint: disable=broad-except
                    ctx.check(False, "exception", f"reading frame {got} raised {type(e).__name__}: {e}")
                ctx.check(
                    got < len(want),
                    "too_many",
                    lambda: f"a frame is yielded although the source delivers only {len(want)}",
                )
                right = frame_of(key, want[got], src["shape"])
                ctx.check(
                    equal(frame, right),
                    "frame",
                    lambda: f"frame number {got} is not the source's frame {got}"
                    + "".join(
                        f" but its frame {k}" for k in want if equal(frame, frame_of(key, k, src["shape"]))
                    ),
                )
                if plan["spoil"]:
                    frame[...] = 0
                ctx.check(
                    not cap.released, "released", lambda: f"the source is released after frame {got}"
                )
                got += 1
                taken += 1
                ctx.steps += 1
                ctx.log("frame", got)
            if ended:
                break
            ctx.fault("interrupted_" + cut[1])
            try:
                if cut[1] == "close":
                    it.close()
                elif cut[1] == "keep":
                    kept.append(it)
                elif cut[1] == "raise":
                    it.throw(KeyboardInterrupt())
                del it
            except KeyboardInterrupt:
                pass
        ctx.check(
            got == len(want),
            "incomplete",
            lambda: f"{got} frames are yielded, the source delivers {len(want)}",
        )
        ctx.check(cap.released > 0, "not_released", "the source is not released at the end")
        for _ in range(plan["after"]):
            again = ctx.call("iterating after the end", lambda: list(video))
            ctx.check(again == [], "after_end", lambda: f"{len(again)} frames after the end")
        ctx.state((src["n"], len(want), tuple(map(tuple, plan["cuts"])), tuple(plan["clock"])))
        ctx.log("end", got, cap.reads > 0)


# ---------------------------------------------------------------------- C17
class WriteC17(Scenario):
    name = "video_write"
    quick = 2600
    thorough = 40000
    list_keys = ("ops", "clock")
    rule = (
        "One or two videos (cameras or files) recording into the same or different folders or"
        " files; a seeded sequence of reads, writes (of the frame, several frames, frames of"
        " another size), shows at several ratios, path queries and interruptions, with read"
        " failures and clock jumps."
    )
    time_unit = "seconds"
    state_measure = "distinct operation sequences"
    real = REAL + ("cv2.resize",)
    stub = STUB

    def gen(self, rng, tier):
        n = rng.choice([1, 1, 2])
        vids = []
        names = rng.choice(PAIRS) if rng.random() < 0.6 else [rng.choice(FILES[i::2]) for i in range(2)]
        for i in range(n):
            vids.append(
                {
                    "camera": rng.choice([None, None, None, i, 10 + i]),
                    "file": names[i],
                    "source": gen_source(rng),
                    "out": rng.choice(["dir", "dir", "dir", "default", f"o{i}.mp4", f"o{i}.AVI", f"o{i}.mkv", "none"]),
                    "ext": rng.choice(["mp4", "mp4", "avi"]),
                    "fps": rng.choice([None, None, 15, 7.5, 60.0]),
                    "fourcc": rng.choice([None, None, None, "MJPG", "avc1"]),
                }
            )
            v = vids[-1]
            if v["out"] == "none":
                v["out"] = "dir"
                v["ext"] = "mkv"
            if (v["out"].endswith("mkv") or v["ext"] == "mkv") and rng.random() < 0.8:
                v["fourcc"] = "XVID"
        ops = []
        for _ in range(rng.choice([5, 15, 40])):
            k = rng.randrange(n)
            ops.append(
                rng.choice(
                    [
                        ["read", k],
                        ["read", k],
                        ["write", k, "frame"],
                        ["write", k, "frame"],
                        ["write", k, "other"],
                        ["show", k, rng.choice([1.0, 1, 2, 1.5, 3.7, 0.5, 4, 2.0, 1.0001])],
                        ["path", k],
                        ["cut", k],
                    ]
                )
            )
        return {"videos": vids, "ops": ops, "clock": gen_clock(rng), "finish": rng.random() < 0.8}

    def exec(self, plan, ctx):
        with Scratch() as root, make_clock(plan, ctx):
            old = os.getcwd()
            os.makedirs(os.path.join(root, "cwd"))
            os.chdir(os.path.join(root, "cwd"))
            try:
                self.run(plan, ctx, root)
            finally:
                os.chdir(old)

    def run(self, plan, ctx, root):
        dev = Devices(ctx, {})
        with dev.hooks():
            sims = []
            for i, v in enumerate(plan["videos"]):
                path = os.path.join(root, "in", v["file"])
                touch(path)
                key = path if v["camera"] is None else v["camera"]
                dev.sources[str(key)] = v["source"]
                outdir = os.path.join(root, "out")
                os.makedirs(outdir, exist_ok=True)
                kw = {"input_path": path} if v["camera"] is None else {"camera": v["camera"]}
                if v["out"] == "dir":
                    kw["output_path"] = outdir
                elif v["out"] != "default":
                    kw["output_path"] = os.path.join(outdir, v["out"])
                if v["fps"] is not None:
                    kw["output_fps"] = v["fps"]
                if v["fourcc"] is not None:
                    kw["output_fourcc"] = v["fourcc"]
                kw["output_extension"] = v["ext"]
                video = ctx.call("Video()", Video, **kw)
                sims.append(
                    {
                        "v": v, "video": video, "key": key, "it": None, "frame": None, "ended": False,
                        "written": [], "writer": None, "cap": dev.captures[-1], "got": 0, "path": None,
                    }
                )
            for op in plan["ops"]:
                s = sims[op[1]]
                ctx.steps += 1
                getattr(self, "op_" + op[0])(ctx, dev, s, *op[2:])
                self.invariants(ctx, dev, sims)
                ctx.log(op, [len(wr.frames) for wr in dev.writers])
            if plan["finish"]:
                for s in sims:
                    while not s["ended"]:
                        self.op_read(ctx, dev, s)
                    self.invariants(ctx, dev, sims)
            paths = {}
            for i, s in enumerate(sims):
                if s["writer"] is None:
                    continue
                p = os.path.realpath(s["writer"].path)
                ctx.check(
                    p not in paths,
                    "shared_output",
                    lambda: f"videos {sims[i]['key']} and {sims[paths[p]]['key']} both record into {p}",
                )
                paths[p] = i
            ctx.state(tuple(map(tuple, plan["ops"])))

    def op_read(self, ctx, dev, s):
        if s["ended"]:
            return
        if s["it"] is None:
            s["it"] = ctx.call("iter(video)", iter, s["video"])
        try:
            s["frame"] = next(s["it"])
            s["got"] += 1
        except StopIteration:
            s["ended"] = True
            if s["writer"] is not None:
                ctx.check(
                    s["writer"].released >= 1,
                    "not_released",
                    "the output is not released when the iteration ends",
                )
        except Exception as e:  # pylint: disable=broad-except
            ctx.check(False, "exception", f"read raised {type(e).__name__}: {e}")

    def op_cut(self, ctx, dev, s):
        if s["it"] is not None and not s["ended"]:
            ctx.fault("interrupted")
            s["it"] = None

    def make(self, s, other=False):
        shape = s["v"]["source"]["shape"]
        n = len(s["written"])
        if other and n % 2:
            shape = [shape[0] + 3, shape[1] + 1]
        elif other:  # cropped or shrunk
            shape = [max(shape[0] - 3, 1), max(shape[1] // 2, 1)]
        if s["frame"] is not None and not other and n % 3:
            return s["frame"]
        frame = frame_of(("made", s["key"]), n, shape)
        # crops, mirrored and transposed views are frames too
        return [
            frame,
            frame[:, ::-1],
            np.asfortranarray(frame),
            np.tile(frame, (2, 2, 1))[: shape[0], 1 : shape[1] + 1],
        ][n // 2 % 4]

    def op_write(self, ctx, dev, s, kind):
        if s["ended"]:
            if s["writer"] is None:
                return
            # the finished recording must not be created anew, whether or not this fails
            ctx.fault("write_after_the_end")
            try:
                s["video"].write(self.make(s, kind == "other"))
            except Exception as e:  # pylint: disable=broad-except
                ctx.log("late write", type(e).__name__)
            return
        v, video = s["v"], s["video"]
        frame = self.make(s, kind == "other")
        keep = frame.copy()
        n = len(dev.writers)
        ext = s["video"].get_output_file_path()[-3:].lower()
        if v["fourcc"] is None and ext not in ("avi", "mp4"):
            # no codec is known: rejected, nothing is written
            ctx.fault("no_codec_known")
            try:
                video.write(frame)
            except Exception:  # pylint: disable=broad-except
                ctx.check(len(dev.writers) == n, "writer", "an output is created for an unknown codec")
                return
            ctx.check(False, "codec", f"no codec is known for {ext}, but write succeeds")
        if s["writer"] is None:
            s["path"] = ctx.call("get_output_file_path", video.get_output_file_path)
        if kind == "other":
            ctx.fault("frame_of_other_size")
        ctx.call("write", video.write, frame)
        ctx.check(equal(frame, keep), "modified", "write modifies the frame")
        s["written"].append(keep)
        if s["writer"] is None:
            ctx.check(
                len(dev.writers) == n + 1,
                "writer",
                lambda: f"{len(dev.writers) - n} outputs are created at the first write",
            )
            wr = s["writer"] = dev.writers[-1]
            code = v["fourcc"] or {"mp4": "mp4v", "avi": "XVID"}[ext]
            fps = v["fps"] if v["fps"] is not None else v["source"]["fps"]
            for what, got, want in (
                ("path", wr.path, s["path"]),
                ("codec", wr.fourcc, cv2.VideoWriter_fourcc(*code)),
                ("rate", wr.fps, fps),
                ("size", tuple(wr.size), (frame.shape[1], frame.shape[0])),
            ):
                ctx.check(
                    got == want, what, lambda: f"the output has {what} {got}, expected {want}"
                )
            expected_dir = {"dir": "out", "default": "cwd"}.get(v["out"])
            if expected_dir is not None:
                ctx.check(
                    os.path.basename(os.path.dirname(os.path.realpath(wr.path))) == expected_dir
                    and wr.path.endswith("." + v["ext"]),
                    "path",
                    lambda: f"the output is {wr.path}, expected a .{v['ext']} file in {expected_dir}",
                )

    def op_show(self, ctx, dev, s, ratio):
        frame = self.make(s)
        h, wd = frame.shape[:2]
        th, tw = int(h // ratio), int(wd // ratio)
        if th < 1 or tw < 1:
            return
        keep = frame.copy()
        n = len(dev.shown)
        ctx.call(f"show(ratio {ratio})", s["video"].show, frame, ratio)
        ctx.check(equal(frame, keep), "modified", "show modifies the frame")
        ctx.check(len(dev.shown) == n + 1, "shown", lambda: f"{len(dev.shown) - n} frames are displayed")
        img = dev.shown[-1]
        ctx.check(
            img.shape[:2] == (th, tw),
            "shown_size",
            lambda: f"a {wd}x{h} frame shown at ratio {ratio} is displayed at {img.shape[1]}x{img.shape[0]}",
        )
        if ratio == 1:
            ctx.check(equal(img, keep), "shown_frame", "another frame is displayed")
        else:
            err = np.abs(
                cv2.resize(keep, (tw, th)).astype(float) - img.astype(float)
            ).mean()
            ctx.check(err < 64, "shown_frame", lambda: "the displayed frame is not the given one")
        dev.shown.clear()

    def op_path(self, ctx, dev, s):
        p = ctx.call("get_output_file_path", s["video"].get_output_file_path)
        if s["path"] is not None:
            ctx.check(
                p == s["path"], "path", lambda: f"the output path changes from {s['path']} to {p}"
            )

    @staticmethod
    def invariants(ctx, dev, sims):
        known = [s["writer"] for s in sims if s["writer"] is not None]
        ctx.check(
            len(dev.writers) == len(known),
            "writer",
            lambda: f"{len(dev.writers)} outputs were created for {len(known)} recorded videos",
        )
        for s in sims:
            wr = s["writer"]
            if wr is None:
                continue
            ctx.check(
                len(wr.frames) == len(s["written"])
                and all(equal(a, b) for a, b in zip(wr.frames[-3:], s["written"][-3:])),
                "frames",
                lambda: f"the output of {s['key']} got {len(wr.frames)} frames of {len(s['written'])}, or others",
            )
            ctx.check(
                s["ended"] or not wr.released,
                "released",
                lambda: f"the output of {s['key']} is released before the iteration ends",
            )
            if s["ended"]:
                ctx.check(
                    all(equal(a, b) for a, b in zip(wr.frames, s["written"])),
                    "frames",
                    "the output holds other frames than those written",
                )


# ---------------------------------------------------------------------- C19
def write_seqinfo(folder, spec):
    os.makedirs(folder, exist_ok=True)
    lines = [
        "[Sequence]",
        f"name={spec['name']}",
        f"imDir={spec['imDir']}",
        f"frameRate={spec['rate']}",
        f"seqLength={spec['n']}",
        f"imWidth={spec['w']}",
        f"imHeight={spec['h']}",
        f"imExt={spec['ext']}",
    ]
    if spec.get("shuffled"):
        lines = [lines[0]] + lines[:0:-1]
    end = "\r\n" if spec.get("crlf") else "\n"
    with open(os.path.join(folder, "seqinfo.ini"), "w", newline="") as f:
        f.write(end.join(lines) + end)


def given_info(folder, stale=True):
    """Information about a sequence that is kept elsewhere.

    What is left in the folder of the sequence is out of date, or nothing, if stale.
    """
    folder = os.path.normpath(folder)
    path = os.path.join(os.path.dirname(folder), os.path.basename(folder) + "-info.ini")
    old = os.path.join(folder, "seqinfo.ini")
    if not stale:
        path = old
    if not os.path.exists(path):
        os.rename(old, path)
        n = InformationFile(path).search("seqLength")
        if n % 3:
            spec = {"name": "old", "imDir": "old", "rate": 7, "w": 5, "h": 5, "ext": ".old"}
            write_seqinfo(folder, dict(spec, n=n + 2 if n % 2 else n - 1))
    return InformationFile(path)


def gen_sequence(rng, name):
    return {
        "name": name,
        "imDir": rng.choice(["img1", "frames"]),
        "rate": rng.choice([30, 14, 25, 30, 25, 29.97, 7.5]),
        "n": rng.choice([0, 1, 2, 3, 5, 9, 10, 11, 25]),
        "w": rng.choice([8, 20]),
        "h": rng.choice([6, 10]),
        "ext": rng.choice([".jpg", ".png"]),
        "shuffled": rng.random() < 0.3,
        "crlf": rng.random() < 0.2,
    }


def lay_images(dev, folder, spec, bad=()):
    for k in range(1, spec["n"] + 4):  # some files beyond the end
        path = os.path.join(folder, spec["imDir"], f"{k:06d}{spec['ext']}")
        if k in bad:
            continue
        dev.images[os.path.normpath(path)] = frame_of(folder, k, [spec["h"], spec["w"]])


class SequenceC19(Scenario):
    name = "image_sequence"
    quick = 2600
    thorough = 40000
    list_keys = ("passes",)
    rule = (
        "An image sequence of 0-25 frames with missing or unreadable files, iterated several"
        " times, interrupted at generated positions, with or without making a video, updating"
        " with all or some of the frames read."
    )
    time_unit = "frames"
    state_measure = "distinct (length, bad frames, passes)"
    real = ("norfair.video", "norfair.metrics.InformationFile")
    stub = STUB[:1]

    def gen(self, rng, tier):
        spec = gen_sequence(rng, rng.choice(["MOT17-02", "seq", "a.b"]))
        n = spec["n"]
        bad = sorted({rng.randint(1, max(1, n)) for _ in range(rng.choice([0, 0, 1, 3]))})
        passes = [
            {"stop": rng.randint(0, n + 2), "update": rng.choice(["all", "all", "some", "no"]), "key": rng.randrange(1000)}
            for _ in range(rng.choice([0, 1, 1, 3]))
        ]
        passes.append({"stop": None, "update": rng.choice(["all", "all", "some"]), "key": rng.randrange(1000)})
        return {
            "seq": spec,
            "bad": bad,
            "passes": passes,
            "make": rng.random() < 0.8,
            "info": rng.random() < 0.4,
            "slash": rng.random() < 0.2,
        }

    def exec(self, plan, ctx):
        with Scratch() as root:
            spec = plan["seq"]
            folder = os.path.join(root, "data", spec["name"])
            write_seqinfo(folder, spec)
            save = os.path.join(root, "save")
            dev = Devices(ctx, {})
            lay_images(dev, folder, spec, plan["bad"])
            info = None
            if plan["info"]:
                info = ctx.call("InformationFile", given_info, folder)
            with dev.hooks():
                seq = ctx.call(
                    "VideoFromFrames()",
                    VideoFromFrames,
                    folder + os.sep * plan["slash"],
                    save_path=save,
                    information_file=info,
                    make_video=plan["make"],
                )
                self.passes(plan, ctx, dev, seq, folder, save)

    def passes(self, plan, ctx, dev, seq, folder, save):
        spec, n = plan["seq"], plan["seq"]["n"]
        given = []
        released = False
        for p in plan["passes"]:
            it = ctx.call("iter", iter, seq)
            k = 0
            while p["stop"] is None or k < p["stop"]:
                try:
                    frame = next(it)
                except StopIteration:
                    ctx.check(k == n, "length", lambda: f"iteration stops after {k} of {n} frames")
                    break
                except Exception as e:  # pylint: disable=broad-except
                    ctx.check(False, "exception", f"frame {k + 1} raised {type(e).__name__}: {e}")
                k += 1
                ctx.steps += 1
                ctx.simtime += 1
                ctx.check(k <= n, "length", lambda: f"more than {n} frames are yielded")
                right = None if k in plan["bad"] else frame_of(folder, k, [spec["h"], spec["w"]])
                if right is None:
                    ctx.fault("unreadable_frame")
                    ctx.check(frame is None, "frame", lambda: f"frame {k} is unreadable but yields something")
                else:
                    ctx.check(
                        frame is not None and equal(frame, right),
                        "frame",
                        lambda: f"frame {k} is not the content of its file",
                    )
                do = plan["make"] and frame is not None and not released
                if p["update"] == "no" or (p["update"] == "some" and u01(p["key"], k) < 0.5):
                    do = False
                if do:
                    ctx.call(f"update with frame {k}", seq.update, frame)
                    given.append(right)
                    if k == n:
                        released = True
                self.writer(plan, ctx, dev, given, released, save)
                ctx.log(k, frame is None, len(given))
            if p["stop"] is not None:
                ctx.fault("interrupted")
        if plan["make"]:
            ctx.check(len(dev.writers) == 1, "writer", lambda: f"{len(dev.writers)} outputs were created")
        ctx.state((n, tuple(plan["bad"]), str(plan["passes"])))

    @staticmethod
    def writer(plan, ctx, dev, given, released, save):
        spec = plan["seq"]
        if not plan["make"]:
            ctx.check(not dev.writers, "writer", "an output is created although no video is made")
            return
        if not dev.writers and not given:
            return
        wr = dev.writers[0]
        ctx.check(len(dev.writers) == 1, "writer", lambda: f"{len(dev.writers)} outputs were created")
        ctx.check(
            wr.fps == spec["rate"]
            and os.path.basename(wr.path).startswith(spec["name"])
            and tuple(wr.size) == (spec["w"], spec["h"])
            and os.path.realpath(wr.path).startswith(os.path.realpath(save))
            and os.path.isdir(os.path.dirname(wr.path)),
            "output",
            lambda: f"the output has rate {wr.fps}, size {wr.size}, path {wr.path}",
        )
        ctx.check(
            len(wr.frames) == len(given) and all(equal(a, b) for a, b in zip(wr.frames, given)),
            "written",
            lambda: f"the output got {len(wr.frames)} frames, {len(given)} were given, or others",
        )
        ctx.check(
            bool(wr.released) == released,
            "released",
            lambda: f"the output is {'' if wr.released else 'not '}released after {len(given)} frames"
            f" (the last frame was {'' if released else 'not '}given)",
        )


# ---------------------------------------------------------------------- C18
class Box:
    """What an accumulator needs of a tracked object."""

    def __init__(self, oid, x):
        self.id = oid
        self.estimate = np.array([[x, 10.0], [x + 20.0, 40.0]])


class ConcurrentC18(Scenario):
    name = "concurrent_streams"
    quick = 1000
    thorough = 25000
    list_keys = ("order", "schedule")
    ddmin_keys = ("schedule",)
    rule = (
        "2-5 streams (videos being read and written, image sequences, accumulators filling"
        " several sequences, files of predictions) whose steps are interleaved in a seeded order, or that run in"
        " threads preempted at seeded points; each must yield, write and record exactly its"
        " own data."
    )
    time_unit = "steps"
    state_measure = "distinct interleavings"
    real = REAL + ("norfair.metrics", "motmetrics")
    stub = STUB + ("thread scheduler",)

    def gen(self, rng, tier):
        n = rng.choice([2, 2, 3, 4, 5])
        streams = []
        for i in range(n):
            kind = rng.choice(["video", "video", "seq", "seq", "acc", "acc", "pred"])
            s = {"kind": kind, "frames": rng.choice([1, 2, 3, 6, 10])}
            if kind == "video":
                s.update(
                    camera=rng.choice([None, i]), file=f"clip.{i}.mp4", write=rng.random() < 0.7,
                    source={"n": s["frames"], "count": s["frames"], "fps": 20.0 + i, "shape": [6 + i, 8], "bad": {}},
                )
            elif kind == "seq":
                s["seq"] = dict(gen_sequence(rng, f"seq{i}"), n=s["frames"])
                s["write"] = rng.random() < 0.6
            elif kind == "pred":
                s["objects"] = rng.choice([0, 1, 3])
            else:
                s["save"] = rng.random() < 0.5
                s["seqs"] = [
                    {"n": rng.choice([1, 2, 4]), "extra": rng.choice([0, 0, 2]), "objects": rng.choice([0, 1, 2])}
                    for _ in range(rng.choice([1, 2, 3]))
                ]
            streams.append(s)
        threads = rng.random() < 0.35
        if threads and rng.random() < 0.4:
            # several of a kind, which do the same at the same time
            streams = [dict(streams[0]) for _ in streams]
            for i, s in enumerate(streams):
                if s["kind"] == "video":
                    s.update(camera=rng.choice([None, i]), file=f"clip.{i}.mp4")
                elif s["kind"] == "seq":
                    s["seq"] = dict(s["seq"], name=f"seq{i}")
        order = []
        for i, s in enumerate(streams):
            steps = s["frames"] + 2 if s["kind"] != "acc" else sum(q["n"] + q["extra"] + 1 for q in s["seqs"]) + 1
            order += [i] * steps
        rng.shuffle(order)
        # folders of the same name in different places (train/SEQ, test/SEQ), saved separately
        same = rng.random() < 0.4
        for s in streams:
            s["place"] = same
        plan = {"streams": streams, "clock": gen_clock(rng), "threads": threads, "order": order, "schedule": []}
        if threads:
            plan["order"] = []
            k = rng.choice([3, 20, 150])
            # the objects are created, and folders and files made, at the start
            within = rng.choice([40, 250])
            plan["schedule"] = sorted(
                [rng.randrange(n), rng.randrange(1, within), rng.randrange(n)] for _ in range(k)
            )
            if rng.random() < 0.3:
                # in lockstep: one line each
                start = rng.choice([1, 1, rng.randrange(1, 100)])
                plan["schedule"] = sorted(
                    [i, at, (i + 1) % n] for i in range(n) for at in range(start, start + 80)
                )
        return plan

    def simplify_plan(self, plan):
        st = plan["streams"]
        if len(st) > 2:
            for k in range(len(st)):
                yield dict(
                    plan,
                    streams=st[:k] + st[k + 1 :],
                    order=[i - (i > k) for i in plan["order"] if i != k],
                    schedule=[
                        [a - (a > k), p, b - (b > k)] for a, p, b in plan["schedule"] if k not in (a, b)
                    ],
                )

    def exec(self, plan, ctx):
        with Scratch() as root, make_clock(plan, ctx):
            dev = Devices(ctx, {})
            with dev.hooks():
                runs = [
                    getattr(self, "run_" + s["kind"])(ctx, dev, root, i, s)
                    for i, s in enumerate(plan["streams"])
                ]
                if plan["threads"]:
                    self.threaded(plan, ctx, runs)
                else:
                    for n, k in enumerate(plan["order"]):
                        if k >= len(runs):
                            continue
                        if n and plan["order"][n - 1] != k:
                            ctx.fault("interleaved_step")
                        next(runs[k], None)
                        ctx.steps += 1
                        ctx.log(k)
                    ctx.state(tuple(plan["order"]))
                for r in runs:
                    for _ in r:
                        ctx.steps += 1
                self.final(ctx, dev)

    @staticmethod
    def threaded(plan, ctx, runs):
        def body(r):
            def go():
                for _ in r:
                    pass

            return go

        s = Scheduler(plan["schedule"], seams.PACKAGE, "line")
        s.run([body(r) for r in runs])
        if s.mids:
            ctx.fault("preemption", s.mids)
        ctx.state(tuple(s.switches))
        ctx.check(not s.stuck, "deadlock", lambda: f"{s.stuck}")
        for i, e in sorted(s.errors.items()):
            if hasattr(e, "cls"):
                raise e
            ctx.check(False, "exception", f"stream {i} failed: {type(e).__name__}: {e}")
        ctx.log(s.switches[:40])

    def run_video(self, ctx, dev, root, i, s):
        path = os.path.join(root, f"in{i}", s["file"])
        touch(path)
        key = path if s["camera"] is None else s["camera"]
        dev.sources[str(key)] = s["source"]
        kw = {"input_path": path} if s["camera"] is None else {"camera": s["camera"]}
        out = os.path.join(root, "out")
        os.makedirs(out, exist_ok=True)
        video = ctx.call("Video()", Video, output_path=out, **kw)
        cap = next(c for c in dev.captures if c.key == key)
        yield "open"
        it = ctx.call("iter(video)", iter, video)
        k = 0
        while True:
            try:
                frame = next(it)
            except StopIteration:
                break
            except Exception as e:  # pylint: disable=broad-except
                ctx.check(False, "exception", f"video {i} failed at frame {k}: {type(e).__name__}: {e}")
            ctx.check(
                k < s["frames"] and equal(frame, frame_of(key, k, s["source"]["shape"])),
                "frame",
                lambda: f"video {i} yields another frame than its frame {k}",
            )
            if s["write"]:
                ctx.call(f"write of video {i}", video.write, frame)
            k += 1
            yield "frame"
        ctx.check(k == s["frames"], "incomplete", lambda: f"video {i}: {k} of {s['frames']} frames")
        ctx.check(cap.released, "not_released", lambda: f"the source of video {i} is not released")
        if s["write"] and k:
            mine = [wr for wr in dev.writers if wr.path == video.get_output_file_path()]
            ctx.check(
                len(mine) == 1 and len(mine[0].frames) == k and mine[0].released,
                "output",
                lambda: f"video {i}: outputs {[(len(m.frames), m.released) for m in mine]}, wrote {k} frames",
            )
            for j, f in enumerate(mine[0].frames):
                ctx.check(
                    equal(f, frame_of(key, j, s["source"]["shape"])),
                    "output",
                    lambda: f"output of video {i}: frame {j} is not its own",
                )

    def run_seq(self, ctx, dev, root, i, s):
        name = "seq" if s["place"] else s["seq"]["name"]
        folder = os.path.join(root, f"seqs{i}", name)
        saved = os.path.join(root, f"saved{i}" if s["place"] else "saved")
        write_seqinfo(folder, s["seq"])
        lay_images(dev, folder, s["seq"])
        seq = ctx.call("VideoFromFrames()", VideoFromFrames, folder, saved, None, s["write"])
        yield "open"
        k = 0
        shape = [s["seq"]["h"], s["seq"]["w"]]
        it = iter(seq)
        while True:
            try:
                frame = next(it)
            except StopIteration:
                break
            k += 1
            ctx.check(
                k <= s["frames"] and frame is not None and equal(frame, frame_of(folder, k, shape)),
                "frame",
                lambda: f"sequence {i} yields another image than its frame {k}",
            )
            if s["write"]:
                ctx.call(f"update of sequence {i}", seq.update, frame)
            yield "frame"
        ctx.check(k == s["frames"], "incomplete", lambda: f"sequence {i}: {k} of {s['frames']} frames")
        if s["write"]:
            path = os.path.join(saved, "videos", name + ".mp4")
            mine = [wr for wr in dev.writers if os.path.realpath(wr.path) == os.path.realpath(path)]
            ctx.check(
                len(mine) == 1
                and len(mine[0].frames) == k
                and all(equal(f, frame_of(folder, j + 1, shape)) for j, f in enumerate(mine[0].frames))
                and mine[0].released,
                "output",
                lambda: f"sequence {i}: its output does not hold exactly its frames",
            )

    def run_pred(self, ctx, dev, root, i, s):
        name = "seq" if s["place"] else f"P{i}"
        folder = os.path.join(root, f"preds{i}", name)
        saved = os.path.join(root, f"saved{i}" if s["place"] else "saved")
        write_seqinfo(folder, dict(name="P", imDir="img1", rate=1, n=s["frames"], w=9, h=9, ext=".jpg"))
        out = ctx.call("PredictionsTextFile()", PredictionsTextFile, folder, saved)
        yield "open"
        want = []
        for f in range(1, s["frames"] + 1):
            boxes = [Box(o, 1000.0 * i + 30 * o + f) for o in range(1, s["objects"] + 1)]
            ctx.call(f"update of predictions {i}", out.update, boxes)
            want += [f"{f},{b.id},{b.estimate[0, 0]},10.0,20.0,30.0,-1,-1,-1,-1" for b in boxes]
            yield "update"
        with open(os.path.join(saved, "predictions", name + ".txt"), encoding="utf-8") as f:
            got = f.read().splitlines()
        ctx.check(
            got == want,
            "predictions",
            lambda: f"the file of predictions {i} has {len(got)} rows {got[:3]}..., expected {want[:3]}...",
        )

    def run_acc(self, ctx, dev, root, i, s):
        def name(q):
            return f"S{q}" if s["place"] else f"S{i}{q}"

        acc = ctx.call("Accumulators()", Accumulators)
        want = []
        for q, seq in enumerate(s["seqs"]):
            folder = os.path.join(root, f"acc{i}", name(q))
            write_seqinfo(folder, dict(name="S", imDir="img1", rate=1, n=seq["n"], w=9, h=9, ext=".jpg"))
            os.makedirs(os.path.join(folder, "gt"), exist_ok=True)
            rows = [
                f"{f},{o},{1000 * i + 100 * q + 30 * o},10,20,30,1,1,1"
                for f in range(1, seq["n"] + 1)
                for o in range(1, seq["objects"] + 1)
            ]
            with open(os.path.join(folder, "gt", "gt.txt"), "w", encoding="utf-8") as f:
                f.write("\n".join(rows) + "\n")
            ctx.call("create_accumulator", acc.create_accumulator, folder)
            yield "sequence"
            for f in range(1, seq["n"] + seq["extra"] + 1):
                boxes = [
                    Box(o, 1000.0 * i + 100 * q + 30 * o)
                    for o in range(1, seq["objects"] + 1)
                    if f <= seq["n"]
                ]
                if seq["extra"] and f > seq["n"]:
                    ctx.fault("extra_update")
                ctx.call(f"update of accumulator {i}", acc.update, boxes)
                yield "update"
            want.append(seq)
        if all(q["objects"] for q in want):
            df = ctx.call(
                f"compute_metrics of accumulator {i}",
                acc.compute_metrics,
                metrics=["num_frames", "num_objects", "mota", "num_switches"],
            )
            for q, seq in enumerate(want):
                row = df.loc[name(q)]
                ctx.check(
                    row["num_objects"] == seq["n"] * seq["objects"] and abs(row["mota"] - 1) < 1e-9,
                    "metrics",
                    lambda: f"accumulator {i}, sequence {q}: {row.to_dict()}, expected"
                    f" {seq['n'] * seq['objects']} objects and MOTA 1",
                )
            if s["save"]:
                yield "metrics"
                saved = os.path.join(root, "metrics")
                ctx.call(f"save_metrics of accumulator {i}", acc.save_metrics, saved, f"m{i}.txt")
                with open(os.path.join(saved, f"m{i}.txt"), encoding="utf-8") as f:
                    text = f.read()
                ctx.check(
                    all(name(q) in text for q in range(len(want))) and text == acc.summary_text,
                    "saved_metrics",
                    lambda: f"accumulator {i} saved {text!r}",
                )

    @staticmethod
    def final(ctx, dev):
        paths = [os.path.realpath(wr.path) for wr in dev.writers]
        ctx.check(len(set(paths)) == len(paths), "shared_output", lambda: f"outputs {paths}")


SCENARIOS = {"C16": ReadC16, "C17": WriteC17, "C18": ConcurrentC18, "C19": SequenceC19}

"""C20 predictions file, C21 detection files, C22 metrics."""
import os
import warnings

import numpy as np

from . import seams
from .core import Scenario, u01
from .s_video import Scratch, given_info, write_seqinfo
from .world import close

import motmetrics as mm
from norfair import Detection
from norfair.metrics import (
    Accumulators,
    DetectionFileParser,
    PredictionsTextFile,
)

SEQ = {"imDir": "img1", "rate": 30, "w": 640, "h": 480, "ext": ".jpg"}


class Pred:
    """A tracked object in any state (alive, lost, just seen), with a given id and box."""

    is_initializing = False
    num_points = 2
    dim_points = 2
    dim_z = 4
    abs_to_rel = None
    reid_hit_counter = None
    hit_counter_max = 15

    def __init__(self, oid, box, dtype=float):
        self.id = oid
        left, top, wd, ht = box
        self.estimate = np.array([[left, top], [left + wd, top + ht]], dtype=dtype)

        def draw(what, *values):
            return values[int(u01(what, oid, repr(box)) * len(values))]

        self.initializing_id = draw("initializing", oid, oid + 3, 1)
        self.global_id = draw("global", oid, oid + 1, 1)
        self.label = draw("label", None, "car", "person")
        self.age = draw("age", 0, 1, 7, 200)
        self.hit_counter = draw("hits", 0, 1, 5, 15)
        self.live_points = np.array(draw("live", [True, True], [True, False], [False, False]))
        self.point_hit_counter = self.live_points.astype(int)
        self.detected_at_least_once_points = np.array([True, True])
        self.last_distance = draw("distance", None, 0.0, 1.5)
        self.current_min_distance = draw("minimum", None, 0.0, 1.5)
        self.estimate_velocity = np.zeros((2, 2))
        self.last_detection = Detection(
            self.estimate + draw("detected", 0.0, 2.0), label=self.label
        )
        self.last_detection.age = draw("detected_at", 0, self.age)
        self.past_detections = [self.last_detection]

    @property
    def hit_counter_is_positive(self):
        return self.hit_counter >= 0

    @property
    def reid_hit_counter_is_positive(self):
        return True

    def get_estimate(self, absolute=False):
        return self.estimate


def seq_folder(root, name, n, **kw):
    folder = os.path.join(root, name)
    write_seqinfo(folder, dict(SEQ, name=name, n=n, **kw))
    return folder


# ---------------------------------------------------------------------- C20
class PredictionsC20(Scenario):
    name = "predictions_file"
    quick = 3000
    thorough = 50000
    list_keys = ("frames",)
    rule = (
        "1-2 sequences of 1-12 frames with 0-4 objects each, written through a simulated disk"
        " (write buffer of 1 byte to 64 kB); then the same run with a process crash after a"
        " generated update or in the middle of a transfer, or with a disk error from a"
        " generated transfer on (with short writes); then a fresh run on what is left."
    )
    time_unit = "frames"
    state_measure = "distinct (buffer size, fault kind, fault position, bytes on disk)"
    real = ("norfair.metrics.PredictionsTextFile", "norfair.metrics.InformationFile")
    stub = ("files opened for writing (simulated disk with write buffer)",)

    def gen(self, rng, tier):
        k = rng.choice([1, 1, 1, 2])
        seqs = []
        explicit = rng.random()
        for i in range(k):
            n = rng.choice([1, 2, 3, 5, 12])
            frames = []
            number = rng.choice([0, 1, 5, 100])
            for _ in range(n):
                objs = [
                    [
                        rng.choice([rng.randint(1, 20), rng.randint(1, 10**6)]),
                        [
                            round(rng.uniform(-1000, 3000), rng.choice([0, 2, 6])) * rng.choice([1, 1, 1e-7, 1e6]),
                            rng.uniform(-500, 2000),
                            rng.choice([rng.uniform(0, 300), 0.0]),
                            rng.uniform(0, 300),
                        ],
                    ]
                    for _ in range(rng.choice([0, 1, 2, 4]))
                ]
                f = {"o": objs}
                if explicit < 0.25:
                    f["n"] = number
                    number += rng.choice([1, 1, 2, 7])
                elif explicit < 0.35 and rng.random() < 0.5:
                    f["n"] = rng.randint(0, 500)
                frames.append(f)
            seqs.append(
                {"name": f"SEQ-{i}", "frames": frames, "info": rng.random() < 0.5, "slash": rng.random() < 0.15}
            )
        order = [i for i, s in enumerate(seqs) for _ in s["frames"]]
        rng.shuffle(order)
        return {
            "seqs": seqs,
            "order": order,
            "buffer": rng.choice([1, 7, 33, 64, 200, 8192, 65536]),
            "fault": rng.choice(["none", "crash_between", "crash_between", "crash_inside", "crash_inside", "disk", "disk"]),
            "at": rng.random(),
            "kind": rng.choice(["ENOSPC", "EIO", "EDQUOT"]),
            "short": rng.choice([0.0, 0.0, 0.3, 0.9]),
            "dtype": rng.choice(["float64", "float64", "float32"]),
            "fresh_dir": rng.random() < 0.5,
        }

    def simplify(self, plan):
        for i, s in enumerate(plan["seqs"]):
            rest = plan["seqs"][:i] + plan["seqs"][i + 1 :]
            if rest:
                yield dict(plan, seqs=rest, order=[k - (k > i) for k in plan["order"] if k != i])
            for f in range(len(s["frames"])):
                if len(s["frames"]) > 1:
                    ns = dict(s, frames=s["frames"][:f] + s["frames"][f + 1 :])
                    yield dict(plan, seqs=plan["seqs"][:i] + [ns] + plan["seqs"][i + 1 :])
                if s["frames"][f]["o"]:
                    nf = dict(s["frames"][f], o=s["frames"][f]["o"][1:])
                    ns = dict(s, frames=s["frames"][:f] + [nf] + s["frames"][f + 1 :])
                    yield dict(plan, seqs=plan["seqs"][:i] + [ns] + plan["seqs"][i + 1 :])

    def exec(self, plan, ctx):
        with Scratch() as root:
            folders = [
                seq_folder(root, s["name"], len(s["frames"])) for s in plan["seqs"]
            ]
            save = os.path.join(root, "save")
            disk = seams.SimDisk(save, plan["buffer"])
            with disk:
                err = self.run(plan, ctx, folders, save, None)
            ctx.check(err is None, "exception", lambda: f"update raised {type(err).__name__}: {err}")
            full = self.texts(disk)
            self.complete(plan, ctx, full)
            ctx.check(
                all(f.closed for f in disk.open_files),
                "not_closed",
                "the file is not closed after the update of the last frame",
            )
            total = disk.transfers
            if plan["fault"] == "none":
                ctx.log("complete", len(full))
                return
            save2 = os.path.join(root, "save2") if plan["fresh_dir"] else save
            disk2 = seams.SimDisk(save2, plan["buffer"], fail_kind=plan["kind"], short=plan["short"])
            if not plan["fresh_dir"]:
                disk2.files = dict(disk.files)  # the earlier results are still there
            steps = len(plan["order"])
            crash_after = None
            if plan["fault"] == "crash_between":
                crash_after = int(plan["at"] * (steps + 1))
            elif plan["fault"] == "crash_inside":
                disk2.crash_at = 1 + int(plan["at"] * total)
            else:
                disk2.fail_at = 1 + int(plan["at"] * total)
            crashed = False
            err = None
            with disk2:
                try:
                    err = self.run(plan, ctx, folders, save2, crash_after)
                    if crash_after is not None:
                        disk2.crash()
                        crashed = True
                except seams.Crash:
                    crashed = True
            left = self.texts(disk2)
            if plan["fault"] == "disk" and disk2.fired:
                ctx.fault("disk_error_" + plan["kind"])
                ctx.check(
                    isinstance(err, Exception),
                    "swallowed",
                    f"writes fail with {plan['kind']} but no update reports it",
                )
            elif crashed:
                ctx.fault("crash_between_updates" if crash_after is not None else "crash_in_write")
            if err is not None and not disk2.fired:
                ctx.check(False, "exception", f"update raised {type(err).__name__}: {err}")
            if err is not None or crashed:
                for name, text in left.items():
                    if name not in full:
                        continue  # a temporary file
                    old = not plan["fresh_dir"] and text == full[name]
                    ctx.check(
                        full[name].startswith(text) or old,
                        "prefix",
                        lambda: f"after the {plan['fault']} {name} holds {text[-160:]!r},"
                        " which is no prefix of the complete contents",
                    )
            ctx.state((plan["buffer"], plan["fault"], disk2.transfers, sum(map(len, left.values()))))
            ctx.log(plan["fault"], crashed, type(err).__name__, sorted((k, len(v)) for k, v in left.items()))
            # a new process runs again on what is left
            disk2.reboot()
            with disk2:
                err = self.run(plan, ctx, folders, save2, None)
            ctx.check(err is None, "exception", lambda: f"the second run raised {type(err).__name__}: {err}")
            again = self.texts(disk2)
            ctx.fault("restart")
            for name, text in full.items():
                ctx.check(
                    again.get(name) == text,
                    "rerun",
                    lambda: f"running again after the {plan['fault']} leaves {len(again.get(name, b''))} bytes,"
                    f" expected {len(text)}",
                )

    @staticmethod
    def texts(disk):
        return {
            os.path.relpath(p, disk.root).split(os.sep, 1)[-1]: t for p, t in disk.files.items()
        }

    @staticmethod
    def run(plan, ctx, folders, save, crash_after):
        """Returns the exception an update raised, if any."""
        files = [None] * len(folders)
        done = [0] * len(folders)
        try:
            for i, s in enumerate(plan["seqs"]):
                info = None
                if s["info"]:
                    info = given_info(folders[i])
                files[i] = PredictionsTextFile(folders[i] + os.sep * s.get("slash", False), save, info)
            for step, i in enumerate(plan["order"]):
                if i >= len(folders) or done[i] >= len(plan["seqs"][i]["frames"]):
                    continue
                if crash_after is not None and step >= crash_after:
                    return None
                f = plan["seqs"][i]["frames"][done[i]]
                preds = [Pred(o, b, plan["dtype"]) for o, b in f["o"]]
                n = len(preds)
                if "n" in f:
                    files[i].update(preds, f["n"])
                else:
                    files[i].update(preds)
                ctx.check(len(preds) == n, "modified", "update modifies the list of predictions")
                done[i] += 1
                ctx.steps += 1
                ctx.simtime += 1
        except Exception as e:  # pylint: disable=broad-except
            if hasattr(e, "cls"):
                raise
            return e
        return None

    @staticmethod
    def complete(plan, ctx, full):
        """The contents mean what they should."""
        for s in plan["seqs"]:
            name = s["name"] + ".txt"
            ctx.check(name in full, "missing", lambda: f"no file predictions/{name}: {sorted(full)}")
            text = full[name].decode()
            ctx.check(
                text == "" or text.endswith("\n"), "row", "the last row is not terminated"
            )
            rows = text.splitlines()
            want = []
            for k, f in enumerate(s["frames"]):
                for oid, box in f["o"]:
                    want.append((f.get("n", k + 1), oid, Pred(oid, box, plan["dtype"]).estimate))
            ctx.check(
                len(rows) == len(want), "rows", lambda: f"{len(rows)} rows for {len(want)} objects"
            )
            for row, (number, oid, est) in zip(rows, want):
                cells = row.split(",")
                ok = len(cells) == 10
                if ok:
                    try:
                        vals = [float(c) for c in cells]
                    except ValueError:
                        ok = False
                tol = 1e-6 if plan["dtype"] == "float64" else 1e-4
                ctx.check(
                    ok
                    and vals[0] == number
                    and vals[1] == oid
                    and cells[0] == str(number)
                    and cells[1] == str(oid)
                    and np.allclose(vals[2:4], est[0], rtol=tol, atol=tol * 1e-3)
                    and np.allclose(vals[4:6], est[1] - est[0], rtol=tol, atol=tol * (1 + np.abs(est).max()) * 0.1)
                    and vals[6:] == [-1.0] * 4,
                    "row",
                    lambda: f"row {row!r} for object {oid} at {est.tolist()} in frame {number}",
                )


# ---------------------------------------------------------------------- C21
class DetectionsC21(Scenario):
    name = "detections_file"
    quick = 3000
    thorough = 50000
    list_keys = ("rows",)
    rule = (
        "A detections file of 0-40 rows in generated order over a sequence of 1-12 frames"
        " (some rows outside it), possibly cut off at any byte; then several iterations,"
        " interrupted and restarted at generated points."
    )
    time_unit = "frames"
    state_measure = "distinct (rows per frame, cut position, interruptions)"
    real = ("norfair.metrics.DetectionFileParser", "numpy.loadtxt")
    stub = ()

    def gen(self, rng, tier):
        n = rng.choice([1, 2, 3, 6, 12])
        rows = []
        mode = rng.random()
        for _ in range(rng.choice([0, 1, 2, 3, 8, 20, 40])):
            frame = rng.randint(1, n) if rng.random() < 0.9 else rng.choice([0, n + 1, n + 5])
            if mode < 0.2:
                frame = rng.choice([1, n])
            rows.append(
                [
                    frame,
                    rng.choice([round(rng.uniform(-50, 2000), 2), float(rng.randint(0, 1920))]),
                    round(rng.uniform(-50, 1100), 1),
                    round(rng.uniform(0, 400), 2),
                    round(rng.uniform(0, 400), 2),
                    rng.choice([1, round(rng.uniform(0, 1), 4), -1, 0, round(rng.uniform(-5, 90), 3)]),
                ]
            )
        if rng.random() < 0.15:  # rows may be given twice
            for row in rng.choices(rows, k=min(3, len(rows))):
                rows.insert(rng.randint(0, len(rows)), list(row))
        if rng.random() < 0.3:
            rows.sort()
        return {
            "n": n,
            "rows": rows,
            "cut": rng.random() if rng.random() < 0.4 and rows else None,
            "cut_between": rng.random() < 0.3,
            "cols": rng.choice([10, 10, 10, 7, 9]),
            "crlf": rng.random() < 0.15,
            "end": rng.random() < 0.8,
            "blank": rng.random() < 0.1,
            "info": rng.random() < 0.4,
            "passes": [rng.choice([None, rng.randint(0, n)]) for _ in range(rng.choice([1, 2, 3]))] + [None],
        }

    def simplify_plan(self, plan):
        for key, val in (("crlf", False), ("end", True), ("blank", False), ("cut", None), ("cols", 10)):
            if plan[key] != val:
                yield dict(plan, **{key: val})

    def exec(self, plan, ctx):
        n, cols = plan["n"], plan["cols"]
        end = "\r\n" if plan["crlf"] else "\n"
        lines = []
        for f, left, top, wd, ht, conf in plan["rows"]:
            cells = [f, -1, left, top, wd, ht, conf, -1, -1, -1][:cols]
            lines.append(",".join(str(c) for c in cells))
        text = end.join(lines) + (end if plan["end"] and lines else "")
        if plan["blank"]:
            text += end
        rows = list(plan["rows"])
        reject = False
        if plan["cut"] is not None and text:
            if plan["cut_between"]:
                ends = [k + 1 for k, c in enumerate(text) if c == "\n"]
                pos = ends[int(plan["cut"] * len(ends))] if ends else 0
            else:
                pos = int(plan["cut"] * len(text))
            text = text[:pos]
            kept = [x for x in text.replace("\r", "").split("\n") if x]
            rows = rows[: len(kept)]
            if kept:
                cells = kept[-1].split(",")
                whole = lines[len(kept) - 1]
                if kept[-1] != whole:
                    if len(cells) == cols and cells[-1] not in ("", "-", ".", "+", "-."):
                        return  # cut inside the last number: not recognisable as cut
                    if len(kept) == 1 and len(cells) >= 7 and cells[-1] not in ("", "-"):
                        return  # a file of one row with fewer columns is legitimate
                    if len(kept) == 1 and not 1 <= rows[0][0] <= n:
                        return  # its only row is outside the sequence: nothing is lost
                    reject = True
                    ctx.fault("cut_inside_row")
                else:
                    ctx.fault("cut_between_rows")
            else:
                ctx.fault("cut_everything")
        if any(a[0] > b[0] for a, b in zip(rows, rows[1:])):
            ctx.fault("rows_out_of_order")
        if any(not 1 <= r[0] <= n for r in rows):
            ctx.fault("row_outside_sequence")
        if len(set(map(tuple, rows))) < len(rows):
            ctx.fault("row_given_twice")
        with Scratch() as root:
            folder = seq_folder(root, "SEQ", n)
            os.makedirs(os.path.join(folder, "det"))
            with open(os.path.join(folder, "det", "det.txt"), "w", encoding="utf-8", newline="") as f:
                f.write(text)
            info = given_info(folder) if plan["info"] else None
            if reject:
                try:
                    DetectionFileParser(folder, info)
                except Exception as e:  # pylint: disable=broad-except
                    ctx.check(True, "rejected")
                    ctx.log("rejected", type(e).__name__)
                    return
                ctx.check(False, "accepted", lambda: f"a file ending in {text[-60:]!r} is accepted")
            parser = ctx.call("DetectionFileParser()", DetectionFileParser, folder, info)
            self.iterate(plan, ctx, parser, rows, n)

    @staticmethod
    def iterate(plan, ctx, parser, rows, n):
        want = {k: [] for k in range(1, n + 1)}
        for f, left, top, wd, ht, conf in rows:
            if f in want:
                want[f].append([left, top, left + wd, top + ht, conf])
        for p, stop in enumerate(plan["passes"]):
            it = ctx.call("iter", iter, parser)
            k = 0
            while stop is None or k < stop:
                try:
                    dets = next(it)
                except StopIteration:
                    ctx.check(k == n, "length", lambda: f"pass {p} stops after {k} of {n} frames")
                    break
                except Exception as e:  # pylint: disable=broad-except
                    ctx.check(False, "exception", f"frame {k + 1} raised {type(e).__name__}: {e}")
                k += 1
                ctx.steps += 1
                ctx.simtime += 1
                ctx.check(k <= n, "length", lambda: f"more than {n} frames")
                match(ctx, dets, want[k], f"pass {p}, frame {k}")
            if stop is not None:
                ctx.fault("interrupted")
        for k in (1, n):
            dets = ctx.call("get_dets_from_frame", parser.get_dets_from_frame, k)
            match(ctx, dets, want[k], f"frame {k} on request")
        ctx.state((tuple(len(v) for v in want.values()), tuple(plan["passes"])))
        ctx.log([len(v) for v in want.values()], plan["passes"])


def match(ctx, dets, want, where):
    ctx.check(
        len(dets) == len(want), "count", lambda: f"{where}: {len(dets)} detections for {len(want)} rows"
    )
    left = list(want)
    for d in dets:
        got = np.asarray(d.points, dtype=float).ravel().tolist() + list(np.asarray(d.scores, dtype=float))
        ctx.check(
            np.shape(d.points) == (2, 2) and len(got) == 6,
            "shape",
            lambda: f"{where}: points {d.points!r}, scores {d.scores!r}",
        )
        best = None
        for i, row in enumerate(left):
            exp = row[:4] + [row[4], row[4]]
            if np.allclose(got, exp, rtol=1e-5, atol=2e-3):
                gap = np.abs(np.array(got) - exp).max()
                if best is None or gap < best[0]:
                    best = (gap, i)
        ctx.check(
            best is not None,
            "detection",
            lambda: f"{where}: a detection with corners and scores {got} comes from no row of {left}",
        )
        del left[best[1]]


# ---------------------------------------------------------------------- C22
COLUMNS = [
    "num_frames", "mota", "num_objects", "num_misses", "num_false_positives", "num_switches", "num_matches",
]


def same_number(a, b):
    a, b = float(a), float(b)
    return abs(a - b) < 1e-9 or (a != a and b != b)


class MetricsC22(Scenario):
    name = "metrics"
    quick = 260
    thorough = 6000
    list_keys = ("acts",)
    rule = (
        "1-2 accumulators evaluating series of 1-4 sequences with generated ground truth and"
        " predictions (perfect, with misses, false positives, identity changes, or none),"
        " abandoned early or with extra updates, interleaved, with metrics computed and saved"
        " in between; counts are compared with an independent count, and each sequence with"
        " its evaluation alone."
    )
    time_unit = "frames"
    state_measure = "distinct (counts per sequence)"
    real = ("norfair.metrics.Accumulators", "motmetrics", "pandas")
    stub = ("progress bar refresh thread",)

    def gen(self, rng, tier):
        accs = []
        acts = []
        for a in range(rng.choice([1, 1, 2])):
            seqs = []
            mine = []
            same_names = rng.random() < 0.4
            for q in range(rng.choice([1, 2, 3, 4])):
                n = rng.choice([1, 2, 3, 6, 10])
                objects = rng.choice([1, 1, 2, 3])
                quality = rng.choice(["perfect", "perfect", "noisy", "noisy", "none", "one"])
                if rng.random() < 0.008:
                    n, objects, quality = rng.choice([200, 400]), 3, rng.choice(["perfect", "noisy"])
                updates = rng.choice([n, n, n, rng.randint(0, n), n + rng.randint(1, 3)])
                seqs.append(
                    {
                        "name": rng.choice(
                            [f"S{a}{q}"] * 3 + [f"MOT-{a}{q}-x.y", "same" if same_names else f"S{a}{q}"]
                        ),
                        "slash": rng.random() < 0.1,
                        "n": n,
                        "objects": objects,
                        "quality": quality,
                        "key": rng.randrange(1 << 30),
                        "late": rng.choice([0, 0, 1, 3]) if n > 4 else 0,
                        "info": rng.random() < 0.5,
                        "far_ids": rng.choice([1, 1, 1000, 4096, 10**6]),
                        "ignored": rng.choice([0, 0, 1, 2]),
                        "tiny": rng.random() < 0.3,
                        "by_object": rng.random() < 0.3,
                        "at": rng.choice([0, 0, -84, -300, -5000]),
                    }
                )
                mine.append(["start", a, q])
                mine += [["update", a]] * updates
                if rng.random() < 0.15:
                    mine.append(["compute", a])
            mine.append(["compute", a])
            if rng.random() < 0.5:
                mine.append(["save", a])
            accs.append({"seqs": seqs, "overall": rng.random() < 0.7, "defaults": rng.random() < 0.25})
            acts.append(mine)
        order = [i for i, m in enumerate(acts) for _ in m]
        rng.shuffle(order)
        its = [iter(m) for m in acts]
        return {"accs": accs, "acts": [next(its[i]) for i in order]}

    @staticmethod
    def gt_box(seq, obj, f):
        at = seq.get("at", 0)
        if seq.get("tiny"):
            return [at + 60.0 + 20 * obj + f / 4, at / 2 + 40.0 + 15 * obj + f / 8, 2.5, 2.0 + obj / 4]
        return [at + 60.0 + 150 * obj + 2 * f, at / 2 + 40.0 + 90 * obj + f, 50.0, 40.0 + obj]

    def gt(self, seq):
        """{frame: {object: box}}: objects may come late or leave early."""
        out = {}
        for o in range(seq["objects"]):
            first = 1 + (seq["late"] if o else 0)
            last = seq["n"] - (seq["late"] if o == 1 else 0)
            for f in range(first, max(first, last) + 1):
                if f <= seq["n"]:
                    out.setdefault(f, {})[o] = self.gt_box(seq, o, f)
        return out

    def predictions(self, seq, f):
        """Boxes predicted for frame f: [(id, box, object or None)]."""
        quality, key = seq["quality"], seq["key"]
        truth = self.gt(seq).get(f, {})
        out = []
        if quality == "none":
            return out
        if quality == "one":
            if f == 1 + seq["key"] % seq["n"] and truth:
                o = sorted(truth)[0]
                out.append((7, truth[o], o))
            return out
        far = seq.get("far_ids", 1)
        for o, box in sorted(truth.items()):
            oid = 10 + far * o
            if quality == "noisy":
                if u01(key, "miss", o, f) < 0.25:
                    continue
                change = 1 + int(u01(key, "change", o) * seq["n"])
                if f > change and u01(key, "changes", o) < 0.5:
                    oid = 10 + far * (50 + o)
                size = min(box[2:])
                box = [v + 0.04 * size * (u01(key, "jit", o, f, k) - 0.5) for k, v in enumerate(box)]
                off = u01(key, "off", o, f)
                if off < 0.15:  # overlaps by about 0.4: not a match
                    box[0] += 0.43 * box[2]
                    out.append((oid, box, None))
                    continue
                if off < 0.3:  # by about 0.6: a match
                    box[0] += 0.25 * box[2]
            out.append((oid, box, o))
        if quality == "noisy" and u01(key, "fp", f) < 0.25:
            out.append((900, [3000.0 + f, 2000.0, 30.0, 30.0], None))
        if f > seq["n"] and u01(key, "extra", f) < 0.5 and quality == "noisy":
            out.append((901, [5000.0, 2000.0, 30.0, 30.0], None))
        return out

    def count(self, seq, updates):
        truth = self.gt(seq)
        c = dict.fromkeys(COLUMNS, 0)
        last = {}
        frames = set(truth)
        for f in range(1, updates + 1):
            preds = self.predictions(seq, f)
            if preds:
                frames.add(f)
            for oid, _, o in preds:
                if o is None:
                    c["num_false_positives"] += 1
                elif o in last and last[o] != oid:
                    c["num_switches"] += 1
                    last[o] = oid
                else:
                    c["num_matches"] += 1
                    last[o] = oid
        c["num_objects"] = sum(len(v) for v in truth.values())
        c["num_frames"] = len(frames)
        c["num_misses"] = c["num_objects"] - c["num_matches"] - c["num_switches"]
        c["mota"] = 1 - (c["num_misses"] + c["num_switches"] + c["num_false_positives"]) / c["num_objects"]
        return c

    def exec(self, plan, ctx):
        with Scratch() as root:
            accs = []
            for a, spec in enumerate(plan["accs"]):
                folders = []
                for q, seq in enumerate(spec["seqs"]):
                    folder = seq_folder(os.path.join(root, f"set{a}{q}"), seq["name"], seq["n"])
                    os.makedirs(os.path.join(folder, "gt"))
                    rows = [
                        (f, o + 1, *box, 1, 1, 1)
                        for f, objs in sorted(self.gt(seq).items())
                        for o, box in sorted(objs.items())
                    ]
                    # rectangles with confidence 0 are not to be considered
                    rows += [
                        (f, 90 + k, 700.0 + 60 * k, 300.0, 40.0, 50.0, 0, 8, 1)
                        for k in range(seq.get("ignored", 0))
                        for f in sorted(self.gt(seq))
                    ]
                    if seq.get("by_object"):
                        rows.sort(key=lambda r: (r[1], r[0]))
                    rows = [",".join(map(str, r)) for r in rows]
                    with open(os.path.join(folder, "gt", "gt.txt"), "w", encoding="utf-8") as out:
                        out.write("\n".join(rows) + "\n")
                    folders.append(folder + os.sep * seq.get("slash", False))
                accs.append(
                    {
                        "acc": ctx.call("Accumulators()", Accumulators),
                        "folders": folders,
                        "started": [],
                        "updates": {},
                        "df": None,
                    }
                )
            before = None
            for act in plan["acts"]:
                s = accs[act[1]]
                if before is not None and before != act[1]:
                    ctx.fault("interleaved_evaluation")
                before = act[1]
                getattr(self, "act_" + act[0])(plan, ctx, root, act[1], s, *act[2:])
                ctx.steps += 1
                ctx.log(act)
            self.alone(plan, ctx, accs)
            ctx.check(
                seams.threads_keeping_process() == 0,
                "exit",
                "the evaluations are over, but a thread of theirs keeps the process from exiting",
            )

    def act_start(self, plan, ctx, root, a, s, q):
        seq = plan["accs"][a]["seqs"][q]
        if s["started"]:
            prev = s["started"][-1]
            if s["updates"][prev] < plan["accs"][a]["seqs"][prev]["n"]:
                ctx.fault("sequence_abandoned")
        info = None
        if seq["info"]:
            # other evaluations may read the information in the folder
            info = given_info(s["folders"][q], stale=False)
        ctx.call("create_accumulator", s["acc"].create_accumulator, s["folders"][q], info)
        s["started"].append(q)
        s["updates"][q] = 0

    def act_update(self, plan, ctx, root, a, s):
        if not s["started"]:
            return
        q = s["started"][-1]
        s["updates"][q] += 1
        seq = plan["accs"][a]["seqs"][q]
        f = s["updates"][q]
        if f > seq["n"]:
            ctx.fault("extra_update")
        preds = [Pred(oid, box) for oid, box, _ in self.predictions(seq, f)]
        if not preds:
            ctx.fault("no_predictions")
        ctx.call(f"update {f} of sequence {seq['name']}", s["acc"].update, preds)
        ctx.simtime += 1

    def act_compute(self, plan, ctx, root, a, s):
        if not s["started"]:
            return
        overall = plan["accs"][a]["overall"]
        kw = {"metrics": list(COLUMNS), "generate_overall": overall}
        if plan["accs"][a].get("defaults"):
            # the metrics of the benchmark, and the overall row, are the default
            kw, overall = {}, True
        df = ctx.call("compute_metrics", s["acc"].compute_metrics, **kw)
        columns = COLUMNS
        if not kw:
            ctx.check(
                set(mm.metrics.motchallenge_metrics) <= set(df.columns),
                "columns",
                lambda: f"the metrics computed by default are {list(df.columns)}",
            )
            columns = [k for k in COLUMNS if k in mm.metrics.motchallenge_metrics] + ["recall", "precision"]
        s["df"] = df
        s["at"] = dict(s["updates"])
        names = [plan["accs"][a]["seqs"][q]["name"] for q in s["started"]]
        ctx.check(
            list(df.index) == names + (["OVERALL"] if overall else []),
            "sequences",
            lambda: f"metrics are given for {list(df.index)}, evaluated were {names}",
        )
        total = dict.fromkeys(COLUMNS, 0)
        if len(set(names)) < len(names):
            ctx.probe("same_name")
        for row, q in enumerate(s["started"]):
            seq = plan["accs"][a]["seqs"][q]
            want = self.count(seq, s["updates"][q])
            got = df.iloc[row].to_dict()
            for k in COLUMNS:
                total[k] += want[k]
            self.ratios(want)
            if not kw:
                want.update(self.reference(root, s["folders"][q], seq, s["updates"][q]))
            for k in columns if kw else df.columns:
                ctx.check(
                    same_number(got[k], want[k]),
                    "metrics",
                    lambda: f"sequence {seq['name']} ({seq['quality']}, {s['updates'][q]} updates of {seq['n']} frames):"
                    f" {k} is {got[k]}, expected {want[k]}",
                )
            if seq["quality"] == "perfect" and s["updates"][q] >= seq["n"]:
                ctx.probe("perfect_sequence")
                ctx.check(abs(float(got["mota"]) - 1) < 1e-9, "perfect", lambda: f"MOTA {got['mota']}")
            ctx.state((seq["quality"], tuple(want.items())))
        if overall:
            got = df.loc["OVERALL"].to_dict()
            total["mota"] = 1 - (
                total["num_misses"] + total["num_switches"] + total["num_false_positives"]
            ) / total["num_objects"]
            self.ratios(total)
            for k in columns:
                ctx.check(
                    same_number(got[k], total[k]),
                    "overall",
                    lambda: f"overall {k} is {got[k]}, expected {total[k]}",
                )

    def reference(self, root, folder, seq, updates):
        """What py-motmetrics computes for the same boxes read from files."""
        name = os.path.join(root, "reference.txt")
        with open(name, "w", encoding="utf-8") as out:
            for f in range(1, updates + 1):
                for oid, (x, y, wd, ht), _ in self.predictions(seq, f):
                    # the corners of an object are what is evaluated
                    out.write(f"{f},{oid},{x!r},{y!r},{x + wd - x!r},{y + ht - y!r},1,-1,-1,-1\n")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            gt = mm.io.loadtxt(os.path.join(folder, "gt", "gt.txt"), fmt="mot15-2D", min_confidence=1)
            if os.path.getsize(name):
                ts = mm.io.loadtxt(name, fmt="mot15-2D")
            else:
                ts = gt.iloc[:0]
            acc = mm.utils.compare_to_groundtruth(gt, ts, "iou", distth=0.5)
            row = mm.metrics.create().compute(acc, metrics=list(mm.metrics.motchallenge_metrics))
        return row.iloc[0].to_dict()

    @staticmethod
    def ratios(c):
        found = c["num_matches"] + c["num_switches"]
        c["recall"] = found / c["num_objects"]
        reported = found + c["num_false_positives"]
        c["precision"] = found / reported if reported else float("nan")

    def act_save(self, plan, ctx, root, a, s):
        if s["df"] is None:
            return
        folder = os.path.join(root, f"metrics{a}", "deep")
        ctx.call("save_metrics", s["acc"].save_metrics, folder, "result.txt")
        with open(os.path.join(folder, "result.txt"), encoding="utf-8") as f:
            text = f.read()
        want = mm.io.render_summary(
            s["df"], formatters=mm.metrics.create().formatters, namemap=mm.io.motchallenge_metric_names
        )
        ctx.check(
            text.split() == want.split(), "saved", lambda: f"saved metrics are {text!r}, computed {want!r}"
        )

    def alone(self, plan, ctx, accs):
        """One of the sequences evaluated alone gives the same row."""
        for a, s in enumerate(accs):
            if s["df"] is None:
                continue
            q = s["started"][plan["accs"][a]["seqs"][0]["key"] % len(s["started"])]
            if q not in s["at"]:
                continue
            seq = plan["accs"][a]["seqs"][q]
            acc = Accumulators()
            ctx.call("create_accumulator", acc.create_accumulator, s["folders"][q])
            for f in range(1, s["at"][q] + 1):
                ctx.call("update", acc.update, [Pred(i, b) for i, b, _ in self.predictions(seq, f)])
            df = ctx.call("compute_metrics", acc.compute_metrics, metrics=list(COLUMNS), generate_overall=False)
            both = [k for k in COLUMNS if k in s["df"].columns]
            x = df.iloc[0][both].to_numpy(dtype=float)
            y = s["df"].iloc[s["started"].index(q)][both].to_numpy(dtype=float)
            ctx.check(
                close(x, y, 1e-9),
                "alone",
                lambda: f"sequence {seq['name']}: {y.tolist()} in the series, {x.tolist()} alone",
            )


SCENARIOS = {"C20": PredictionsC20, "C21": DetectionsC21, "C22": MetricsC22}

"""C37: the evaluation of a tracker on benchmark sequences, from file to score."""
import os
import warnings

import numpy as np

import motmetrics as mm
import norfair
from norfair.metrics import Accumulators, DetectionFileParser, PredictionsTextFile

from . import seams
from .core import Scenario, u01
from .s_metrics import COLUMNS, same_number, seq_folder
from .s_video import Scratch, given_info
from .world import close, effective_delay, gen_filter, make_filter

DISTANCES = {"iou": 0.8, "mean_euclidean": 40.0, "frobenius": 80.0, "mean_manhattan": 60.0, "scalar": 50.0}


def corner_distance(det, obj):
    return float(np.abs(det.points - obj.estimate).max())


class EvaluationC37(Scenario):
    name = "evaluation_loop"
    quick = 500
    thorough = 12000
    list_keys = ("order",)
    rule = (
        "1-2 evaluations, interleaved, of 1-3 benchmark sequences of 1-40 frames each: detections"
        " are parsed from a file, tracked, written to a predictions file and scored. Detectors"
        " are perfect, miss objects for less than the inertia, or miss, jitter and invent"
        " objects; rows come in any order. Sequences are abandoned, the process crashes at a"
        " generated update and everything is run again on what is left on the disk."
    )
    time_unit = "frames"
    state_measure = "distinct (counts of the metrics per sequence)"
    real = (
        "norfair.metrics (DetectionFileParser, PredictionsTextFile, Accumulators)",
        "norfair.Tracker, filters and distances",
        "motmetrics, pandas, numpy.loadtxt",
    )
    stub = ("files opened for writing (simulated disk with write buffer)", "progress bar refresh thread")
    assumptions = ("py-motmetrics' own reader and metrics are right",)

    # ------------------------------------------------------------- generation
    def gen(self, rng, tier):
        runs = [self.gen_run(rng) for _ in range(rng.choice([1, 1, 2]))]
        order = [i for i, r in enumerate(runs) for s in r["seqs"] for _ in range(s["upto"])]
        rng.shuffle(order)
        return {
            "runs": runs,
            "order": order,
            "buffer": rng.choice([1, 64, 8192, 65536]),
            "crash": rng.choice([None, rng.random(), rng.random()]),
        }

    def gen_run(self, rng):
        hit_max = rng.choice([1, 2, 3, 5, 8, 15])
        delay = rng.choice([None, 0, 0, 1, 3])
        cfg = {
            "hit_max": hit_max,
            "delay": delay if delay is None else min(delay, hit_max - 1),
            "filter": self.gen_filter(rng),
            "distance": rng.choice(sorted(DISTANCES)),
        }
        seqs = []
        for q in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 2, 3, 6, 12, 25, 40])
            # the objects of a sequence may be partly or all outside of the image
            ox, oy = rng.choice([(0, 0), (0, 0), (-140, -120), (-1000.5, -700.25)])
            kind = rng.choice(["perfect", "gaps", "gaps", "noisy"])
            objs = []
            for o in range(rng.choice([1, 2, 3, 5])):
                speed = 0.5 if kind != "noisy" else 4.0
                objs.append(
                    {
                        "at": [
                            float(ox + 100 + 260 * (o % 3) + rng.randint(0, 20)),
                            float(oy + 80 + 240 * (o // 3) + rng.randint(0, 20)),
                        ],
                        "v": [round(rng.uniform(-speed, speed), 3), round(rng.uniform(-speed, speed), 3)],
                        "s": [float(rng.randint(60, 90)), float(rng.randint(60, 110))],
                    }
                )
                if kind == "gaps":
                    objs[-1]["gaps"] = self.gen_gaps(rng, n, hit_max)
                if kind == "noisy":
                    objs[-1]["first"] = rng.choice([1, 1, rng.randint(1, n)])
                    objs[-1]["last"] = rng.choice([n, n, rng.randint(1, n)])
            seqs.append(
                {
                    "name": rng.choice(["seq", f"MOT-{q}", f"S.{q}.x"]),
                    "n": n,
                    "kind": kind,
                    "objs": objs,
                    "key": rng.randrange(1 << 40),
                    "sorted": rng.random() < 0.4,
                    "info": rng.random() < 0.5,
                    "upto": n if rng.random() < 0.85 else rng.randint(0, n),
                    "slash": rng.random() < 0.1,
                }
            )
        return {"cfg": cfg, "seqs": seqs, "order_in": rng.choice(["write_first", "score_first"])}

    @staticmethod
    def gen_filter(rng):
        """A filter whose first covariance is one (or an object that is not detected may be anywhere)."""
        spec = gen_filter(rng)
        if len(spec) == 6 and spec[4] ** 2 >= spec[3] * spec[5]:
            spec[4] = 0.0
        return spec

    @staticmethod
    def gen_gaps(rng, n, hit_max):
        """Gaps within the inertia, each after enough frames to fill the counter."""
        gaps = []
        t = hit_max + 2
        while hit_max > 1 and t <= n:
            size = rng.randint(1, hit_max - 1)
            if rng.random() < 0.6:
                gaps.append([t, size])
                t += size
            t += hit_max + 1 + rng.choice([0, 0, 2])
        return gaps

    def simplify_plan(self, plan):
        if plan["crash"] is not None:
            yield dict(plan, crash=None)
        for i, r in enumerate(plan["runs"]):
            if len(plan["runs"]) > 1:
                rest = plan["runs"][:i] + plan["runs"][i + 1 :]
                yield dict(plan, runs=rest, order=[k - (k > i) for k in plan["order"] if k != i])
            for q, s in enumerate(r["seqs"]):
                alts = []
                if len(r["seqs"]) > 1:
                    alts.append(r["seqs"][:q] + r["seqs"][q + 1 :])
                for o in range(len(s["objs"])):
                    if len(s["objs"]) > 1:
                        ns = dict(s, objs=s["objs"][:o] + s["objs"][o + 1 :])
                        alts.append(r["seqs"][:q] + [ns] + r["seqs"][q + 1 :])
                for seqs in alts:
                    nr = dict(r, seqs=seqs)
                    yield dict(plan, runs=plan["runs"][:i] + [nr] + plan["runs"][i + 1 :])

    # -------------------------------------------------------------- the world
    @staticmethod
    def box(obj, f):
        x, y = (obj["at"][k] + obj["v"][k] * (f - 1) for k in (0, 1))
        return [round(x, 3), round(y, 3), *obj["s"]]

    def truth(self, seq, f):
        return {
            o: self.box(obj, f)
            for o, obj in enumerate(seq["objs"])
            if obj.get("first", 1) <= f <= max(obj.get("last", seq["n"]), obj.get("first", 1))
        }

    def detected(self, seq, f):
        """Rows [x, y, w, h, confidence] the detector gives for frame f."""
        key, out = seq["key"], []
        for o, box in self.truth(seq, f).items():
            if any(a <= f < a + size for a, size in seq["objs"][o].get("gaps", ())):
                continue
            conf = round(0.05 + 0.9 * u01(key, "conf", o, f), 3)
            if seq["kind"] == "noisy":
                if u01(key, "miss", o, f) < 0.2:
                    continue
                if u01(key, "unsure", o, f) < 0.1:
                    conf = 0
                box = [round(v + 8 * (u01(key, "jit", o, f, k) - 0.5), 2) for k, v in enumerate(box)]
            out.append([*box, conf])
        if seq["kind"] == "noisy" and u01(key, "fp", f) < 0.2:
            out.append([1500.0 + 300 * u01(key, "fx", f), 700.0, 50.0, 60.0, 0.5])
        return out

    def lay(self, root, i, r):
        folders = []
        for q, seq in enumerate(r["seqs"]):
            folder = seq_folder(os.path.join(root, f"set{i}{q}"), seq["name"] + f"-{q}", seq["n"])
            os.makedirs(os.path.join(folder, "gt"))
            os.makedirs(os.path.join(folder, "det"))
            gt, det = [], []
            for f in range(1, seq["n"] + 1):
                gt += [(f, o + 1, *b, 1, 1, 1) for o, b in self.truth(seq, f).items()]
                det += [(f, -1, *row, -1, -1, -1) for row in self.detected(seq, f)]
            if not gt:
                gt = [(1, 1, 10.0, 10.0, 20.0, 20.0, 1, 1, 1)]
            if not seq["sorted"]:
                det.sort(key=lambda row: u01(seq["key"], "row", row))
            for name, rows in (("gt", gt), ("det", det)):
                with open(os.path.join(folder, name, name + ".txt"), "w", encoding="utf-8") as out:
                    out.write("".join(",".join(map(str, row)) + "\n" for row in rows))
            folders.append(folder + os.sep * seq["slash"])
        return folders

    # ---------------------------------------------------------------- the run
    @staticmethod
    def tracker(cfg):
        distance = cfg["distance"]
        return norfair.Tracker(
            distance_function=corner_distance if distance == "scalar" else distance,
            distance_threshold=DISTANCES[distance],
            hit_counter_max=cfg["hit_max"],
            initialization_delay=cfg["delay"],
            filter_factory=make_filter(cfg["filter"]),
        )

    def evaluation(self, ctx, r, folders, save, seen):
        """Generator: one step per frame; seen collects what was tracked, per sequence."""
        acc = ctx.call("Accumulators()", Accumulators)
        seen["acc"] = acc
        for q, seq in enumerate(r["seqs"]):
            folder = folders[q]
            info = None
            if seq["info"]:
                info = given_info(folder)
            parser = ctx.call("DetectionFileParser", DetectionFileParser, folder, info)
            tracker = self.tracker(r["cfg"])
            shadow = self.tracker(r["cfg"])
            out = ctx.call("PredictionsTextFile", PredictionsTextFile, folder, save, info)
            ctx.call("create_accumulator", acc.create_accumulator, folder, info)
            rows = seen.setdefault("rows", {}).setdefault(q, [])
            f = 0
            if seq["upto"] < seq["n"]:
                ctx.fault("sequence_abandoned")
            if seq["upto"] == 0:
                continue
            for detections in parser:
                f += 1
                self.parsed(ctx, seq, f, detections)
                copies = [norfair.Detection(np.array(d.points), np.array(d.scores)) for d in detections]
                if not detections:
                    ctx.fault("frame_without_detections")
                tracked = ctx.call("update", tracker.update, detections=detections)
                expected = shadow.update(detections=copies)
                self.same(ctx, f, tracked, expected)
                rows += [(f, int(o.id), np.array(o.estimate)) for o in expected]
                steps = [(out.update, "PredictionsTextFile.update"), (acc.update, "Accumulators.update")]
                for call, what in steps if r["order_in"] == "write_first" else steps[::-1]:
                    ctx.call(what, call, tracked)
                ctx.simtime += 1
                yield
                if f == seq["upto"]:
                    break
            ctx.check(
                f == seq["upto"],
                "frames",
                lambda: f"the parser gives {f} frames of a sequence of {seq['n']}",
            )

    def parsed(self, ctx, seq, f, detections):
        want = sorted([b[0], b[1], b[0] + b[2], b[1] + b[3], b[4]] for b in self.detected(seq, f))
        got = sorted([*map(float, np.ravel(d.points)), float(d.scores[0])] for d in detections)
        ctx.check(
            len(want) == len(got) and close(np.array(want), np.array(got), 1e-5),
            "detections",
            lambda: f"frame {f}: parsed {got}, the file says {want}",
        )

    @staticmethod
    def same(ctx, f, tracked, expected):
        ctx.check(
            [int(o.id) for o in tracked] == [int(o.id) for o in expected]
            and all(close(a.estimate, b.estimate, 1e-9) for a, b in zip(tracked, expected)),
            "tracking",
            lambda: f"frame {f}: the tracker gives {[(o.id, o.estimate.tolist()) for o in tracked]},"
            f" with the same detections given directly {[(o.id, o.estimate.tolist()) for o in expected]}",
        )

    def process(self, plan, ctx, folders, root, disk, crash_after):
        """One process runs all evaluations; returns what each has tracked, None if it dies."""
        seen = [{} for _ in plan["runs"]]
        work = [
            self.evaluation(ctx, r, folders[i], os.path.join(root, "save", str(i)), seen[i])
            for i, r in enumerate(plan["runs"])
        ]
        before = None
        for step, i in enumerate(plan["order"]):
            if i >= len(work):
                continue
            if crash_after is not None and step >= crash_after:
                disk.crash()
                ctx.fault("crash")
                return None
            if before not in (None, i):
                ctx.fault("interleaved_evaluation")
            before = i
            next(work[i], None)
            ctx.steps += 1
        for w in work:
            for _ in w:
                ctx.steps += 1
        return seen

    def exec(self, plan, ctx):
        with Scratch() as root:
            folders = [self.lay(root, i, r) for i, r in enumerate(plan["runs"])]
            disk = seams.SimDisk(os.path.join(root, "save"), plan["buffer"])
            if plan["crash"] is not None:
                with disk:
                    seen = self.process(
                        plan, ctx, folders, root, disk, int(plan["crash"] * (len(plan["order"]) + 1))
                    )
                if seen is None:
                    disk.reboot()
            with disk:
                seen = self.process(plan, ctx, folders, root, disk, None)
            for i, r in enumerate(plan["runs"]):
                self.results(ctx, root, i, r, folders[i], seen[i], disk)

    # ------------------------------------------------------------ the results
    def results(self, ctx, root, i, r, folders, seen, disk):
        names = [seq["name"] + f"-{q}" for q, seq in enumerate(r["seqs"])]
        df = ctx.call("compute_metrics", seen["acc"].compute_metrics, generate_overall=False)
        ctx.check(
            list(df.index) == names, "sequences", lambda: f"metrics for {list(df.index)}, evaluated {names}"
        )
        for q, seq in enumerate(r["seqs"]):
            path = os.path.realpath(os.path.join(root, "save", str(i), "predictions", names[q] + ".txt"))
            ctx.check(path in disk.files, "file", lambda: f"no predictions file for {names[q]}: {sorted(disk.files)}")
            complete = seq["upto"] == seq["n"]
            rows = seen["rows"][q]
            self.file(ctx, names[q], disk.files[path].decode(), rows, complete)
            if complete:
                text = disk.files[path].decode()
            else:
                text = "".join(
                    f"{f},{oid},{e[0, 0]!r},{e[0, 1]!r},{e[1, 0] - e[0, 0]!r},{e[1, 1] - e[0, 1]!r},-1,-1,-1,-1\n"
                    for f, oid, e in ((f, oid, [[*map(float, p)] for p in e]) for f, oid, e in rows)
                    for e in [np.array(e, dtype=object)]
                )
            want = self.reference(root, folders[q], text)
            got = df.iloc[q].to_dict()
            for k, v in want.items():
                ctx.check(
                    same_number(got[k], v),
                    "metrics",
                    lambda: f"{names[q]}: {k} is {got[k]} in the evaluation, {v} from the predictions file",
                )
            self.score(ctx, r, seq, names[q], got, complete)
            ctx.state((seq["kind"], tuple(str(v) for v in want.values())))
            ctx.log(i, names[q], sorted((k, str(v)) for k, v in want.items()))

    @staticmethod
    def file(ctx, name, text, rows, complete):
        lines = text.splitlines()
        if not complete and lines and not text.endswith("\n"):
            lines.pop()
        ctx.check(
            len(lines) == len(rows) if complete else len(lines) <= len(rows),
            "file",
            lambda: f"{name}: {len(lines)} rows in the file for {len(rows)} tracked objects",
        )
        for line, (f, oid, e) in zip(lines, rows):
            cells = line.split(",")
            want = [e[0, 0], e[0, 1], e[1, 0] - e[0, 0], e[1, 1] - e[0, 1]]
            ctx.check(
                cells[:2] == [str(f), str(oid)]
                and close(np.array([float(c) for c in cells[2:6]]), np.array(want), 1e-6),
                "file",
                lambda: f"{name}: row {line!r} for object {oid} at {e.tolist()} in frame {f}",
            )

    @staticmethod
    def reference(root, folder, text):
        name = os.path.join(root, "reference.txt")
        with open(name, "w", encoding="utf-8") as out:
            out.write(text)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            gt = mm.io.loadtxt(os.path.join(folder, "gt", "gt.txt"), fmt="mot15-2D", min_confidence=1)
            ts = mm.io.loadtxt(name, fmt="mot15-2D") if text else gt.iloc[:0]
            acc = mm.utils.compare_to_groundtruth(gt, ts, "iou", distth=0.5)
            row = mm.metrics.create().compute(acc, metrics=list(mm.metrics.motchallenge_metrics))
        return row.iloc[0].to_dict()

    def score(self, ctx, r, seq, name, got, complete):
        """A detector without faults beyond the inertia: only the delay costs anything."""
        if seq["kind"] == "noisy" or not complete:
            return
        if any(obj.get("gaps") for obj in seq["objs"]):
            ctx.fault("gap_within_inertia", sum(len(o.get("gaps", ())) for o in seq["objs"]))
        delay = effective_delay(r["cfg"])
        missed = len(seq["objs"]) * min(delay, seq["n"])
        ctx.probe("perfect_score")
        want = {"num_switches": 0, "num_false_positives": 0, "num_misses": missed}
        for k, v in want.items():
            ctx.check(
                int(got[k]) == v,
                "score",
                lambda: f"{name}: every object is detected within the inertia, but {k} is {got[k]}, not {v}",
            )


SCENARIOS = {"C37": EvaluationC37}

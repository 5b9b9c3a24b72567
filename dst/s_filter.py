"""C10 unreliable points, C11 filter recursion."""
import numpy as np

from . import world as w
from .s_life import HistoryScenario


class FilterC11(HistoryScenario):
    name = "filter"
    quick = 2200
    thorough = 40000
    dims = (2, 2, 3)
    rule = (
        "Histories as in the lifecycle check (hits, gaps, per-point dropouts, changing"
        " periods) over all three filter factories with generated noise parameters; after"
        " every update estimate and velocity of every object are compared with a plain"
        " two-state Kalman recursion per coordinate."
    )
    state_measure = "distinct (filter, hit/gap pattern of the last 6 updates, reliable points) per object"

    def gen(self, rng, tier):
        plan = super().gen(rng, tier)
        cfg = plan["cfg"]
        if rng.random() < 0.5:
            cfg["hit_max"] = rng.choice([8, 15])
            cfg["delay"] = rng.choice([0, 1, 3])
            plan["ops"] = w.gen_history(
                rng, cfg, rng.choice([30, 60]), rng.choice([1, 2]), None,
                none_prob=rng.choice([0.0, 0.1]), spurious=0.1,
            )
        return plan

    def after(self, plan, ctx, tracker, watch, fr, st, t, op, dets, returned):
        cfg = plan["cfg"]
        thr = cfg["det_thr"]
        hit = {r.number: d for r, d in fr.hits}
        for rec in fr.kept:
            m = rec.model
            m["shadow"].step()
            d = hit.get(rec.number)
            if d is not None:
                m["shadow"].hit(d.points, w.reliable(d, thr), op["p"])
            else:
                # coasting: position moves by the velocity, velocity stays
                pos, vel = m["last"]
                ctx.check(
                    w.close(rec.obj.estimate, pos + vel, 1e-9)
                    and w.close(rec.obj.estimate_velocity, vel, 1e-9),
                    "coasting",
                    lambda: f"frame {t}: {rec} coasted from {pos.tolist()} with velocity {vel.tolist()}"
                    f" to {rec.obj.estimate.tolist()}",
                )
                ctx.probe("coasting_step")
            m["pattern"] = (m["pattern"] + ("h" if d is not None else "g"))[-6:]
        for rec, d in fr.births:
            rec.model = {
                "shadow": w.ShadowPoints(
                    cfg["filter"], np.array(d.points), w.reliable(d, thr), cfg["pw_max"], op["p"]
                ),
                "pattern": "b",
            }
        for rec in watch.present:
            m, o = rec.model, rec.obj
            sh = m["shadow"]
            pos, vel = o.estimate, o.estimate_velocity
            ctx.check(
                w.close(pos, sh.estimate(), 1e-7),
                "position",
                lambda: f"frame {t}: {rec} ({m['pattern']}) is at {pos.tolist()},"
                f" the recursion gives {sh.estimate().tolist()} (filter {cfg['filter']})",
            )
            ctx.check(
                w.close(vel, sh.velocity(), 1e-7),
                "velocity",
                lambda: f"frame {t}: {rec} ({m['pattern']}) has velocity {vel.tolist()},"
                f" the recursion gives {sh.velocity().tolist()} (filter {cfg['filter']})",
            )
            m["last"] = (np.array(pos), np.array(vel))
            ctx.state((cfg["filter"][0], m["pattern"], tuple(sh.seen)))
        ctx.log(t, [np.round(r.obj.estimate, 6).tolist() for r in watch.present])


class GarbageC10(HistoryScenario):
    """Twins that differ only in the coordinates of unreliable points."""

    name = "unreliable_points"
    reid = True
    quick = 2200
    thorough = 40000
    scores = True
    dims = (2, 2, 3)
    spurious = 0.1
    rule = (
        "Histories as in the lifecycle check with per-point dropouts; two trackers get the"
        " same history except that every unreliable point carries different garbage"
        " coordinates (zero, huge, swapped, random); in part of the runs lost objects are"
        " revived by newcomers, whose points then count."
    )
    state_measure = "distinct (dropout pattern of the last 5 matches of a point)"

    def extend(self, rng, plan):
        cfg = plan["cfg"]
        thr = cfg["det_thr"]
        for op in plan["ops"]:
            for d in op["d"]:
                if d.get("sc") is None:
                    continue
                d["g"] = {}
                for k, s in enumerate(d["sc"]):
                    if s > thr:
                        continue
                    if rng.random() < 0.1:
                        d["sc"][k] = rng.choice([thr, -1.0, -1e9])
                    kind = rng.random()
                    if kind < 0.3:
                        g = [0.0] * cfg["dim"]
                    elif kind < 0.5:
                        g = [rng.choice([1e6, -1e6, 1e4]) for _ in range(cfg["dim"])]
                    elif kind < 0.6:
                        g = list(d["pts"][(k + 1) % len(d["pts"])])
                    else:
                        g = [rng.uniform(-2000, 2000) for _ in range(cfg["dim"])]
                    d["g"][str(k)] = [round(v, 4) for v in g]

    def exec(self, plan, ctx):
        cfg = plan["cfg"]
        thr = cfg["det_thr"]
        sims = []
        for _ in range(2):
            tracker = ctx.call("Tracker()", self.start, plan)
            sims.append((tracker, w.Watch(tracker)))
        for t, op in enumerate(plan["ops"]):
            w.note_frame_faults(ctx, plan["ops"], t)
            frames = []
            for k, (tracker, watch) in enumerate(sims):
                specs = op["d"]
                if k == 1:
                    specs = []
                    for d in op["d"]:
                        pts = [list(p) for p in d["pts"]]
                        for i, g in d.get("g", {}).items():
                            pts[int(i)] = g
                            ctx.fault("garbage_point")
                        specs.append(dict(d, pts=pts))
                dets = [w.make_detection(d) for d in specs]
                before = {
                    r.number: (np.array(r.obj.estimate), np.array(r.obj.estimate_velocity))
                    for r in watch.present
                }
                returned = ctx.call(f"update of frame {t}", tracker.update, dets, op["p"])
                fr = watch.observe(dets, op["p"])
                self.points(ctx, cfg, t, op, watch, fr, before, thr)
                frames.append((returned, fr, watch))
            ctx.steps += 1
            ctx.simtime += op["p"]
            a, b = (
                [
                    (r.birth.data["u"], w.uid(r.obj), r.obj.id, r.obj.hit_counter)
                    for r in f[2].present
                ]
                for f in frames
            )
            ctx.check(
                sorted(a) == sorted(b),
                "objects",
                lambda: f"frame {t}: (first detection, latest, id, counter) {a} or {b} depending on garbage coordinates",
            )
            other = {r.birth.data["u"]: r for r in frames[1][2].present}
            for r in frames[0][2].present:
                q = other[r.birth.data["u"]]
                for k, seen in enumerate(r.model["seen"]):
                    if not seen:
                        continue
                    ctx.check(
                        w.close(r.obj.estimate[k], q.obj.estimate[k], 1e-9)
                        and w.close(r.obj.estimate_velocity[k], q.obj.estimate_velocity[k], 1e-9),
                        "influence",
                        lambda: f"frame {t}: point {k} of {r} is estimated at {r.obj.estimate[k].tolist()}"
                        f" or {q.obj.estimate[k].tolist()} depending on the coordinates of unreliable points",
                    )
            ctx.log(t, sorted(a))

    @staticmethod
    def points(ctx, cfg, t, op, watch, fr, before, thr):
        hit = {r.number: d for r, d in fr.hits}
        for rec, d in fr.births:
            rel = w.reliable(d, thr)
            rec.model = {"seen": list(rel), "pat": ["+" if g else "-" for g in rel]}
        moved = [(rec, rec.number, hit[rec.number]) for rec in fr.kept if rec.number in hit]
        for old, new, d in fr.merges:
            # the revived object takes over what is known from the newcomer
            ctx.probe("reid_merge")
            old.model = new.model
            moved.append((old, new.number, d))
        for rec, number, d in moved:
            est, vel = rec.obj.estimate, rec.obj.estimate_velocity
            pos0, vel0 = before[number]
            m = rec.model
            for k, good in enumerate(w.reliable(d, thr)):
                if good and not m["seen"][k]:
                    ctx.probe("first_reliable_detection")
                    ctx.check(
                        w.close(est[k], d.points[k], 1e-9) and w.close(vel[k], 0 * vel[k], 1e-9),
                        "first_detection",
                        lambda: f"frame {t}: point {k} of {rec} was reliably detected for the first time at"
                        f" {d.points[k].tolist()}, estimate {est[k].tolist()}, velocity {vel[k].tolist()}",
                    )
                    m["seen"][k] = True
                elif not good and m["seen"][k]:
                    ctx.check(
                        w.close(est[k], pos0[k] + vel0[k], 1e-9) and w.close(vel[k], vel0[k], 1e-9),
                        "coasting",
                        lambda: f"frame {t}: unreliable point {k} of {rec} moved from {pos0[k].tolist()} with"
                        f" velocity {vel0[k].tolist()} to {est[k].tolist()}",
                    )
                m["pat"][k] = (m["pat"][k] + ("+" if good else "-"))[-5:]
                ctx.state((cfg["filter"][0], m["pat"][k]))


SCENARIOS = {"C10": GarbageC10, "C11": FilterC11}

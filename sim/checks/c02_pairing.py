"""C02: detections are paired with the dots they belong to, and calibration works
its way from a rough guess to the camera."""

import math
import random

import numpy as np

from .. import api, calib, values
from ..core import Check, expect

NEAR = 0.02  # pixels: how exactly the library projects through refracting walls


class C02(Check):
    pid = "C02"
    quick_runs = 10000
    thorough_runs = 100000
    jit_share = 0
    rule = (
        "the detections of a block of dots, some lost, among ghosts and in any order, are paired "
        "with the dots by several guesses of the camera and search radii, in a row, or in the "
        "steps a user takes from a rough guess to a calibrated camera; non-trivial when dots "
        "were lost, or ghosts were near"
    )
    real = ["match_detection_to_ref", "sortgrid", "external_calibration", "full_calibration"]
    stub = ["camera and dots: simulated with seeded faults"]
    time_unit = "pairings"

    def gen(self, rng, index):
        way = rng.random() < 0.12
        s = calib.gen(rng, n=None if way else rng.choice([8, 12, 16, 30]), distort=False if way else None)
        if way:
            s["noise"] = rng.choice([0.0, 0.0, 0.2])
            m = rng.choice([1.0, 4.0])
            s["guess"] = {
                "pos": [round(rng.uniform(-2, 2) * m, 3) for _ in range(3)],
                "angles": [round(rng.uniform(-0.006, 0.006) * m, 5) for _ in range(3)],
            }
        else:
            m = rng.choice([0.0, 0.02, 0.2])
            s["guess"] = {
                "pos": [round(rng.uniform(-8, 8) * m, 3) for _ in range(3)],
                "angles": [round(rng.uniform(-0.02, 0.02) * m, 5) for _ in range(3)],
            }
            # dots that are seen at the rim, or not at all
            for p in s["pts"][5:]:
                if rng.random() < 0.1:
                    p[:2] = [round(rng.uniform(-19, 19), 3), round(rng.uniform(-19, 19), 3)]
        rounds = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            rounds.append(
                {
                    "eps": rng.choice([1, 3, 10, 25, 60]),
                    "order": rng.choice([None, rng.randrange(1 << 30)]),
                    "shift": rng.choice([0.0, round(rng.uniform(-0.004, 0.004), 5)]),
                }
            )
        # ghosts close to where dots are
        if not way and rng.random() < 0.5:
            w = calib.Block(s).w
            for p in s["pts"]:
                if rng.random() < 0.3:
                    x, y = w.pixel(0, p)
                    r = rng.choice([2, 8, 30])
                    s["ghosts"].append([round(x + rng.uniform(-r, r), 2), round(y + rng.uniform(-r, r), 2)])
        return {"block": s, "rounds": rounds, "way": way, "kept": rng.random() < 0.6, "pick": rng.randrange(1 << 30)}

    def valid(self, case):
        return (
            calib.valid(case["block"])
            and case["rounds"]
            and all(0.5 <= r["eps"] <= 100 and abs(r["shift"]) < 0.02 for r in case["rounds"])
        )

    def run(self, case, ctx):
        b = calib.Block(case["block"], ctx)
        if case["way"]:
            return self.workflow(b, case, ctx)
        kept, cpar = b.guess(), b.w.cpar()
        for n, r in enumerate(case["rounds"]):
            cal = kept if case["kept"] else b.guess()
            at = np.array(b.guess().get_angles()).reshape(3)
            cal.set_angles(at + [r["shift"], 0.0, 0.0])
            dots, who = b.detections(r["order"])
            self.pair(b, cal, dots, r["eps"], n, ctx, cpar if case["kept"] else b.w.cpar())

    def pair(self, b, cal, dots, eps, n, ctx, cpar):
        """Pair, and judge the pairs; returns them."""
        before, state, pts = calib.bits(cal), calib.target_state(dots), b.pts.copy()
        got = api.match_detection_to_ref(cal, pts, dots, cpar, eps)
        ctx.sim_time += 1
        expect(calib.target_state(dots) == state, "the detections changed", f"round {n}")
        expect(calib.bits(cal) == before, "the calibration changed", f"round {n}")
        expect(np.array_equal(pts, b.pts), "the dots' positions changed", f"round {n}")
        expect(len(got) == b.n, "wrong number of pairs", f"round {n}: {len(got)} for {b.n} dots")
        proj = b.projected(cal)
        index = {(t.x, t.y): k for k, t in enumerate(dots)}
        log = []
        for i, t in enumerate(got):
            x, y = proj[i]
            inside = lambda m: -eps + m < x < b.w.imx + eps - m and -eps + m < y < b.w.imy + eps - m
            near = []
            for k, d in enumerate(dots):
                m = max(abs(d.x - x), abs(d.y - y))
                if m < eps + NEAR:
                    near.append((math.hypot(d.x - x, d.y - y), m < eps - NEAR, k))
            near.sort()
            where = lambda: f"round {n} dot {i} expected at {x:.2f}, {y:.2f}, eps {eps}"
            if t.pnr == calib.EMPTY:
                log.append(None)
                expect(
                    not inside(NEAR) or not any(sure for _, sure, _ in near),
                    "detection not paired",
                    lambda: f"{where()}: {near[:2]}",
                )
                continue
            expect(t.pnr == i, "pair numbered wrongly", lambda: f"{where()}: {t.pnr}")
            k = index.get((t.x, t.y))
            expect(k is not None, "pair with no detection", lambda: f"{where()}: {t}")
            log.append(k)
            expect(inside(-NEAR), "pair outside of the image", where)
            d = [q for q, _, j in near if j == k]
            expect(d, "pair too far away", lambda: f"{where()}: at {t.x}, {t.y}")
            expect(
                all(d[0] < q + 2 * NEAR for q, sure, _ in near if sure),
                "not the nearest detection",
                lambda: f"{where()}: {d[0]} away, others at {near[:3]}",
            )
            one = calib.target_state([t])[0]
            expect(
                one[1:] == state[k][1:],
                "detection changed by pairing",
                lambda: f"{where()}: {one}, was {state[k]}",
            )
        ctx.probe("paired", sum(1 for k in log if k is not None))
        ctx.probe("not paired", sum(1 for k in log if k is None))
        ctx.event(n, log)
        return got

    def workflow(self, b, case, ctx):
        """What a user does: points picked by hand, then all that are detected."""
        rng = random.Random(case["pick"])
        cpar = b.w.cpar()
        there = [i for i in range(b.n) if b.seen[i]]
        if len(there) < 6:
            return
        picked = sorted(rng.sample(there, min(len(there), rng.choice([6, 7, 8]))))
        if not calib.spread(b.pts[picked]):
            return
        cal = b.guess()
        clicks = np.array([b.seen[i] for i in picked])
        c0 = clicks.copy()
        ok = api.external_calibration(cal, b.pts[picked], clicks, cpar)
        expect(np.array_equal(c0, clicks), "the picked points changed", "")
        expect(ok, "no orientation from good points", f"{picked}")
        ctx.probe("oriented")
        proj = b.projected(cal)
        worst = max(math.dist(proj[i], b.seen[i]) for i in picked)
        noise = case["block"]["noise"]
        expect(worst < 3.0 + 6 * noise, "orientation doesn't fit", f"{worst} pixels off")
        for n, r in enumerate(case["rounds"]):
            dots, who = b.detections(r["order"])
            got = self.pair(b, cal, dots, 10, n, ctx, cpar)
            paired = [i for i, t in enumerate(got) if t.pnr == i]
            # ghosts may be nearer than the dot
            at = {(t.x, t.y): who[k] for k, t in enumerate(dots)}
            clean = all(at[(got[i].x, got[i].y)] == i for i in paired)
            if not clean or not calib.spread(b.pts[paired]):
                ctx.probe("ghost paired")
                return
            try:
                res, used, err = api.full_calibration(cal, b.pts, got, cpar, b.flags([]))
            except ValueError:
                ctx.probe("didn't settle")
                return
            expect([int(i) for i in used] == paired, "wrong dots used", f"{list(used)}, are {paired}")
            proj = b.projected(cal)
            worst = max(math.dist(proj[i], b.seen[i]) for i in paired)
            expect(worst < 0.01 + 2 * noise, "calibration doesn't fit", f"round {n}: {worst} pixels off")
            if noise == 0:
                off = np.max(np.abs(np.array(values.un_calibration(cal)["pos"]) - b.w.cam[0]["pos"]))
                expect(off < 0.05, "camera not found", f"round {n}: {off} mm off")
            ctx.probe("calibrated")

    def nontrivial(self, case, ctx):
        return bool(ctx.faults)

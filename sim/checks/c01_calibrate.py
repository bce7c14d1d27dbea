"""C01: a calibration that fails changes nothing, one that succeeds fits."""

import math

import numpy as np

from .. import api, calib, values
from ..core import Check, expect


class C01(Check):
    pid = "C01"
    quick_runs = 500
    thorough_runs = 20000
    jit_share = 0
    case_limit = 120
    rule = (
        "a camera is calibrated on a block of dots, some lost, from a displaced guess, again and "
        "again, with the solver, the matrix inverse or memory failing in the middle, too few "
        "iterations, or dots that contradict each other, until an attempt succeeds; non-trivial "
        "when an attempt failed; or it is oriented from picked points"
    )
    real = ["full_calibration", "orient", "external_calibration", "raw_orient", "num_deriv_exterior", "projection", "LAPACK"]
    stub = ["camera and dots: simulated with seeded faults", "failures of solver, inverse and memory: injected"]
    time_unit = "attempts"

    def gen(self, rng, index):
        s = calib.gen(rng)
        s["ghosts"] = []
        flags, inner = [], {}
        if rng.random() < 0.5:
            pool = [
                ("k1", 1e-4), ("k2", 1e-7), ("p1", 3e-5), ("p2", 3e-5), ("cc", 0.3), ("xh", 0.05),
                ("yh", 0.05), ("scx", 1e-3), ("she", 1e-3),
            ]
            for k, m in rng.sample(pool, rng.randrange(1, 3)):
                flags.append(k)
                inner[k] = rng.choice([0.0, rng.uniform(-m, m)])
        glass = rng.random() < 0.25
        if glass or rng.random() < 0.2:
            s["turn"] = [round(rng.uniform(-1.2, 1.2), 4) for _ in range(3)]
        if glass:
            s["tilt"] = rng.choice([[0.0, 0.0], [round(rng.uniform(-0.03, 0.03), 4) for _ in range(2)]])
            if rng.random() < 0.4:
                del s["turn"]
        tries = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            tries.append(calib.gen_fault(rng) if rng.random() < 0.85 else ["swap", rng.randrange(1 << 30)])
        return {
            "block": s,
            "flags": flags,
            "glass": glass,
            "inner": inner,
            "use": rng.choice([0, 0, 0, 1, 2, 3]),
            "tries": tries + [None],
            "array": rng.random() < 0.15,
            "eseed": rng.randrange(1 << 30),
            "picks": rng.choice([4, 4, 5, 6, 8]) if rng.random() < 0.25 else 0,
        }

    def valid(self, case):
        b = case["block"]
        used = [p for i, p in enumerate(b["pts"]) if i not in b["lost"] and self.used(i, case["use"])]
        return (
            calib.valid(b)
            and set(case["flags"]) <= set(calib.FLAGS)
            and len(b.get("tilt") or [0, 0]) == 2
            and len(b.get("turn") or [0, 0, 0]) == 3
            and max(map(abs, b.get("tilt") or [0])) <= 0.03 * bool(case.get("glass"))
            and max(map(abs, b.get("turn") or [0])) <= 1.2
            and set(case["inner"]) <= set(case["flags"])
            and case["use"] in (0, 1, 2, 3)
            and case["tries"]
            and all(t and t[0] == "swap" or calib.valid_fault(t) for t in case["tries"])
            and len(used) >= 6
            and 0 <= case.get("picks", 0) <= 8
        )

    def used(self, i, use):
        return {0: True, 1: i % 2 != 0, 2: i % 2 == 0, 3: i % 3 != 0}[use]

    def run(self, case, ctx):
        import random

        b = calib.Block(case["block"], ctx)
        use = [i for i in range(b.n) if b.seen[i] and self.used(i, case["use"])]
        if len(use) < 4:
            return
        if case.get("picks"):
            self.orientation(b, case, ctx)
            return
        flags = b.flags(case["flags"], case["use"])
        glass = bool(case.get("glass"))
        if glass:
            flags.interfflag = 1
            ctx.probe("glass to be found")
        cpar = b.w.cpar()
        if case["array"] and None in b.seen:
            case["array"] = False
        dots = b.paired()
        give = np.array(b.seen) if case["array"] else dots
        cal = b.guess(case["inner"])
        before = calib.bits(cal)
        want = b.guess(case["inner"])
        first = self.attempt(b, want, dots, give, cpar, flags, None, ctx)
        for n, f in enumerate(case["tries"]):
            if f and f[0] == "swap":
                wrong = list(dots)
                rng = random.Random(f[1])
                a, c = rng.sample(use, 2)
                # the adjustment has no way to fit this; few iterations tell
                wrong[a], wrong[c] = [
                    api.Target(pnr=i, x=t.x, y=t.y, n=t.n, nx=t.nx, ny=t.ny, sumg=t.sumg)
                    for i, t in ((a, dots[c]), (c, dots[a]))
                ]
                ctx.fault("dots swapped")
                got = self.attempt(b, cal, wrong, wrong, cpar, flags, ["patience", 3], ctx)
                if got:
                    ctx.probe("fits swapped dots")
                    return
            else:
                got = self.attempt(b, cal, dots, give, cpar, flags, f, ctx)
            ctx.sim_time += 1
            ctx.event(n, f, bool(got), calib.bits(cal)[:3])
            if got is None:
                ctx.probe("failed")
                expect(
                    calib.bits(cal) == before,
                    "failed calibration changed the camera",
                    lambda: f"attempt {n} {f}: {self.diff(b.guess(case['inner']), cal)}",
                )
                continue
            ctx.probe("succeeded")
            # with hardly more equations than unknowns, anything can be a solution
            if 2 * len(use) >= 10 + len(case["flags"]) + 2 * glass:
                self.fits(b, case, cal, dots, use, got, ctx)
            expect(
                first is not None and calib.bits(cal) == calib.bits(want),
                "failed attempts leave a trace",
                lambda: f"after {case['tries'][:n]}: {self.diff(want, cal)}",
            )
            break
        else:
            expect(first is None, "succeeds only without a history", f"{case['tries']}")
        # through refracting walls the projection is only iterated to a micrometre, which
        # can keep the adjustment from settling
        easy = (
            not case["flags"]
            and len(use) >= 7 + glass
            and (glass or b.s["world"]["mm"]["n2"] == b.s["world"]["mm"]["n3"] == 1.0)
            and calib.spread([b.s["pts"][i] for i in use])
        )
        if easy and case["block"]["noise"] <= 0.5:
            expect(first is not None, "calibration of a plain setup fails", f"{len(use)} dots")
        if first is not None:
            self.blind(b, case, dots, use, cpar, flags, want, ctx)

    # -- a few picked points, the pose only ------------------------------------

    def orientation(self, b, case, ctx):
        import random

        rng = random.Random(case["eseed"])
        there = [i for i in range(b.n) if b.seen[i]]
        picks = sorted(rng.sample(there, min(len(there), max(4, case["picks"]))))
        cpar = b.w.cpar()
        clicks = np.array([b.seen[i] for i in picks])
        cal, want = b.guess(case["inner"]), b.guess(case["inner"])
        before = calib.bits(cal)
        first = self.orient(b, want, picks, clicks, cpar, None, ctx)
        for n, f in enumerate(case["tries"]):
            if f and f[0] == "swap":
                r = random.Random(f[1])
                wrong = clicks.copy()
                if f[1] % 2:
                    i, j = r.sample(range(len(picks)), 2)
                    wrong[[i, j]] = wrong[[j, i]]
                else:
                    wrong[r.randrange(len(picks))] = [r.uniform(0, b.w.imx), r.uniform(0, b.w.imy)]
                ctx.fault("wrong dots picked")
                ok = self.orient(b, cal, picks, wrong, cpar, None, ctx)
                if ok:
                    ctx.probe("fits wrong picks")
                    self.posed(b, case, cal, ctx)
                    return
            else:
                ok = self.orient(b, cal, picks, clicks, cpar, f, ctx)
            ctx.sim_time += 1
            ctx.event(n, f, ok, calib.bits(cal)[:3])
            if not ok:
                ctx.probe("failed")
                expect(
                    calib.bits(cal) == before,
                    "failed orientation changed the camera",
                    lambda: f"attempt {n} {f}: {self.diff(b.guess(case['inner']), cal)}",
                )
                continue
            ctx.probe("oriented")
            expect(
                first and calib.bits(cal) == calib.bits(want),
                "failed attempts leave a trace",
                lambda: f"after {case['tries'][:n]}: {self.diff(want, cal)}",
            )
            self.posed(b, case, cal, ctx)
            if len(picks) >= 5 and calib.spread([b.s["pts"][i] for i in picks]):
                c0, c1 = b.best(cal, cal, b.paired(), picks, [], None)
                near = 3.0 * b.w.pix
                expect(
                    math.sqrt(c0) <= 1.1 * math.sqrt(c1) + near,
                    "another orientation fits better",
                    f"{c0} mm^2, where {c1} can be had",
                )
                ctx.probe("orientation fits")
            return
        expect(not first, "succeeds only without a history", f"{case['tries']}")

    def orient(self, b, cal, picks, clicks, cpar, f, ctx):
        """Whether it succeeded.  The other arguments don't change."""
        pts, c = b.pts[picks], clicks.copy()
        ok = False
        with calib.fault(f, ctx):
            try:
                ok = bool(api.external_calibration(cal, pts, clicks, cpar))
            except (ValueError, MemoryError, np.linalg.LinAlgError) as x:
                ctx.event("failed", type(x).__name__)
        expect(np.array_equal(pts, b.pts[picks]), "the dots' positions changed", "")
        expect(np.array_equal(c, clicks), "the picked points changed", "")
        return ok

    def posed(self, b, case, cal, ctx):
        """Only the pose has changed; an orientation knows no distortion."""
        v, g = values.un_calibration(cal), values.un_calibration(b.guess(case["inner"]))
        expect(v["glass"] == g["glass"] and v["int"] == g["int"], "fixed parameter changed", lambda: f"{g} to {v}")
        expect(
            v["added"] in (g["added"], [0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0]),
            "distortion neither kept nor left out",
            f"{v['added']}",
        )
        expect(
            np.allclose(values.rotation(v["angles"]), np.array(v["dm"]), atol=1e-9),
            "rotation matrix isn't that of the angles",
            f"{v['angles']}",
        )

    def attempt(self, b, cal, dots, give, cpar, flags, f, ctx):
        """(residuals, used) or None if it failed.  The other arguments don't change."""
        pts, state = b.pts.copy(), calib.target_state(dots)
        fl = {k: getattr(flags, k) for k in vars(flags)}
        got = None
        with calib.fault(f, ctx):
            try:
                r, u, e = api.full_calibration(cal, pts, give, cpar, flags)
                got = r, u
            except (ValueError, MemoryError, np.linalg.LinAlgError) as x:
                ctx.event("failed", type(x).__name__)
        expect(np.array_equal(pts, b.pts), "the dots' positions changed", "")
        expect(calib.target_state(dots) == state, "the detections changed", "")
        expect({k: getattr(flags, k) for k in vars(flags)} == fl, "the flags changed", "")
        return got

    def diff(self, a, c):
        u, v = values.un_calibration(a), values.un_calibration(c)
        return {k: (u[k], v[k]) for k in u if u[k] != v[k]}

    def fits(self, b, case, cal, dots, use, got, ctx):
        r, u = got
        expect([int(x) for x in u] == use, "wrong dots reported as used", f"{list(u)}, are {use}")
        expect(r.shape == (len(use), 2), "wrong number of residuals", f"{r.shape}")
        v, g = values.un_calibration(cal), values.un_calibration(b.guess(case["inner"]))
        expect(
            np.allclose(values.rotation(v["angles"]), np.array(v["dm"]), atol=1e-9),
            "rotation matrix isn't that of the angles",
            f"{v['angles']}",
        )
        if case.get("glass"):
            d, n = np.array(v["glass"]) - g["glass"], np.array(g["glass"])
            expect(
                abs(d @ n) <= 1e-3 * math.sqrt(d @ d) * math.sqrt(n @ n) + 1e-6,
                "distance of the glass changed",
                f"{g['glass']} to {v['glass']}",
            )
        else:
            expect(v["glass"] == g["glass"], "glass changed", f"{v['glass']}")
        for k in calib.FLAGS:
            if k in case["flags"]:
                continue
            p = {"xh": ("int", 0), "yh": ("int", 1), "cc": ("int", 2)}.get(
                k, ("added", calib.FLAGS.index(k) - 3)
            )
            expect(
                v[p[0]][p[1]] == g[p[0]][p[1]],
                "fixed parameter changed",
                f"{k}: {g[p[0]][p[1]]} to {v[p[0]][p[1]]}",
            )
        pix = b.w.pix
        proj = b.projected(cal)
        worst = 0.0
        glass = bool(case.get("glass"))
        for k, i in enumerate(use):
            m = [(dots[i].x - proj[i][0]) * pix, -(dots[i].y - proj[i][1]) * b.w.piy]
            e = max(abs(r[k, 0] + m[0]), abs(r[k, 1] + m[1])) / pix
            expect(
                e < 0.05 + 1e-6 * math.hypot(*m) / pix,
                "residual isn't that of its dot",
                lambda: f"dot {i}: {r[k]} mm, is {[-x for x in m]}",
            )
            worst = max(worst, math.hypot(*m) / pix)
        ctx.probe("converged")
        c0, c1 = b.best(cal, b.guess(case["inner"]), dots, use, case["flags"], case.get("glass"))
        expect(
            c0 <= 1.02 * c1 + 1e-8 * len(use),
            "another calibration fits better",
            f"{c0} mm^2, where {c1} can be had",
        )
        if case["block"]["noise"] == 0 and not case["flags"] and calib.spread(
            [b.s["pts"][i] for i in use]
        ):
            expect(worst < 0.01 + 0.04 * glass, "exact dots don't fit", f"{worst} pixels off")
            off = np.max(np.abs(np.array(v["pos"]) - b.R @ b.w.cam[0]["pos"]))
            expect(off < 0.05 + glass, "camera not found", f"{off} mm off")
            n = np.array(v["glass"])
            off = np.max(np.abs(n / math.sqrt(n @ n) - b.R[:, 2]))
            if not glass or b.s["world"]["mm"]["n3"] > 1.2:
                expect(off < 1e-3, "glass not found", f"{off} off")
        elif case["block"]["noise"] == 0:
            expect(worst < 0.6, "exact dots don't fit", f"{worst} pixels off, {case['flags']} free")

    def blind(self, b, case, dots, use, cpar, flags, want, ctx):
        """Dots that aren't to be used have no influence."""
        import random

        rng = random.Random(case["eseed"])
        other = []
        moved = 0
        for i, t in enumerate(dots):
            if i in use:
                other.append(t)
                continue
            moved += 1
            other.append(api.Target(pnr=t.pnr, x=rng.uniform(0, 1000), y=rng.uniform(0, 1000)))
        if not moved:
            return
        cal = b.guess(case["inner"])
        got = self.attempt(b, cal, other, other, cpar, flags, None, ctx)
        ctx.probe("unused dots moved")
        expect(
            got is not None and calib.bits(cal) == calib.bits(want),
            "unused dots have an influence",
            lambda: f"{self.diff(want, cal)}",
        )

    def nontrivial(self, case, ctx):
        return ctx.probes.get("failed", 0) > 0

"""V03: positions are where the rays of the cameras that see a point meet."""

import itertools
import math

import numpy as np

from .. import api, world
from ..core import Check, expect

UNUSED = -1e10  # COORD_UNUSED
TOL = 1e-6  # mm, relative to rays computed independently


def skew(p1, d1, p2, d2):
    """Distance and midpoint of two lines, from the normal equations."""
    A = np.array([[d1 @ d1, -d1 @ d2], [d1 @ d2, -d2 @ d2]])
    s, t = np.linalg.solve(A, np.array([(p2 - p1) @ d1, (p2 - p1) @ d2]))
    a, b = p1 + s * d1, p2 + t * d2
    return math.sqrt((a - b) @ (a - b)), (a + b) / 2


class V03(Check):
    pid = "V03"
    quick_runs = 10000
    thorough_runs = 150000
    jit_share = 10
    rule = (
        "points seen through simulated cameras, each without the cameras that lost it and with "
        "noise and outliers in some, are positioned one by one, in batches, in other orders, by "
        "the remaining cameras alone and with the cameras in another order, over a history of "
        "calls; non-trivial when a camera was lost or gave an outlier"
    )
    real = [
        "point_position", "point_positions", "single and multi camera", "get_by_pnrs",
        "dumbbell_target_func", "ray tracing", "skew_midpoint",
    ]
    stub = ["cameras: simulated with seeded faults"]
    time_unit = "positions"

    def gen(self, rng, index):
        w = world.gen(rng, cams=rng.choice([1, 2, 3, 4, 4]))
        nc = len(w["cams"])
        k = rng.choice([1, 2, 4, 8])
        pts = []
        for _ in range(k):
            lost = []
            if nc > 2 and rng.random() < 0.5:
                lost = rng.sample(range(nc), rng.randrange(1, nc - 1))
            out = []
            if rng.random() < 0.25:
                out = [[rng.randrange(nc), round(rng.uniform(-30, 30), 2), round(rng.uniform(-30, 30), 2)]]
            pts.append(
                {
                    "p": [round(rng.uniform(-s, s), 4) for s in (14, 14, 12)],
                    "lost": sorted(lost),
                    "out": out,
                }
            )
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            op = rng.choice(["batch", "batch", "each", "order", "without", "cameras", "select", "dumbbell"])
            o = {"op": op, "seed": rng.randrange(1 << 30)}
            if op == "dumbbell":
                o["length"] = round(rng.uniform(1, 30), 3)
                o["weight"] = rng.choice([0.0, 0.1, 1.0])
            ops.append(o)
        return {
            "world": w,
            "points": pts,
            "noise": rng.choice([0.0, 0.0, 0.1, 0.5]),
            "nseed": rng.randrange(1 << 30),
            "z": [[-20.0, round(rng.uniform(-20, -5), 2)], [round(rng.uniform(5, 20), 2), 20.0]],
            "x": round(rng.uniform(30, 80), 2),
            "earlier": world.earlier(rng, w),
            "ops": ops,
        }

    def valid(self, case):
        nc = len(case["world"]["cams"])
        return (
            world.valid(case["world"])
            and world.valid_earlier(case["earlier"], case["world"])
            and case["points"]
            and case["noise"] >= 0
            and case["x"] > 20
            and len(case["z"]) == 2
            and all(len(z) == 2 for z in case["z"])
            and -25 < min(case["z"][0]) <= max(case["z"][0]) < min(case["z"][1]) <= max(case["z"][1]) < 25
            and all(o["op"] != "dumbbell" or o["length"] > 0.1 for o in case["ops"])
            and all(
                len(p["p"]) == 3
                and max(map(abs, p["p"])) < 20
                and all(0 <= c < nc for c in p["lost"])
                and (nc == 1 and not p["lost"] or nc - len(set(p["lost"])) >= 2)
                and all(len(o) == 3 and 0 <= o[0] < nc and max(abs(o[1]), abs(o[2])) < 60 for o in p["out"])
                for p in case["points"]
            )
        )

    def run(self, case, ctx):
        import random

        w = world.World(case["world"])
        nc = w.num_cams
        obs = np.full((len(case["points"]), nc, 2), UNUSED)
        clean = []
        for i, p in enumerate(case["points"]):
            rng = random.Random(f"{case['nseed']}/{i}")
            good = case["noise"] == 0
            for c in range(nc):
                e = [rng.uniform(-1, 1) * case["noise"] * w.pix for _ in range(2)]
                xy = w.flat(c, p["p"])
                for o in p["out"]:
                    if o[0] == c:
                        e = [e[0] + o[1] * w.pix, e[1] + o[2] * w.pix]
                        if c not in p["lost"]:
                            ctx.fault("outlier in one camera")
                            good = False
                if c in p["lost"]:
                    ctx.fault("camera lost the point")
                    continue
                obs[i, c] = xy[0] + e[0], xy[1] + e[1]
            clean.append(good)

        def before(then, cals, cpar):
            seen = [[then.flat(c, p["p"]) for c in range(nc)] for p in case["points"]]
            for o in (np.array(seen), obs):
                api.point_positions(o, cpar.mm, cals, then.vpar(xlim=case["x"]))
            ctx.probe("objects altered between uses")

        cals, cpar = w.used_before(case["earlier"], before)
        mm = cpar.mm
        vpar = w.vpar(xlim=case["x"])
        vpar.z_min_lay = list(case["z"][0])
        vpar.z_max_lay = list(case["z"][1])
        kept = obs.copy()
        ref = [self.reference(w, o, vpar) for o in obs]
        for n, op in enumerate(case["ops"]):
            rng = random.Random(op["seed"])
            getattr(self, "op_" + op["op"])(w, obs, ref, clean, case, mm, cals, vpar, op, rng, ctx)
            expect(np.array_equal(obs, kept), "the observations changed", f"by operation {n} {op['op']}")
            ctx.probe(op["op"])
        for c in range(nc):
            expect(self.same_cal(cals[c], w.cal(c)), "the calibration changed", f"of camera {c}")

    def same_cal(self, a, b):
        f = lambda r: [float(x) for x in r.item()] if r.dtype.names and r.ndim == 0 else None
        out = True
        for k in ("x0", "y0", "z0", "omega", "phi", "kappa"):
            out &= float(getattr(a.ext_par, k)) == float(getattr(b.ext_par, k))
        out &= np.array_equal(np.asarray(a.ext_par.dm), np.asarray(b.ext_par.dm))
        for k in ("xh", "yh", "cc"):
            out &= float(getattr(a.int_par, k)) == float(getattr(b.int_par, k))
        return bool(
            out
            and np.array_equal(a.glass_par, b.glass_par)
            and np.array_equal(a.added_par, b.added_par)
        )

    def reference(self, w, o, vpar):
        rays = []
        for c in range(w.num_cams):
            if o[c, 0] != UNUSED:
                a, b = w.ray(c, o[c], [-15.0, 15.0])
                rays.append((a, b - a))
        if w.num_cams == 1:
            # the library takes the depth limits where the ray enters the tank
            (x,) = w.ray(0, o[0], [w.spec["glass"]])
            t = (x[0] - vpar.x_lay[0]) / (vpar.x_lay[1] - vpar.x_lay[0])
            lim = lambda z: z[0] + t * (z[1] - z[0])
            return 0.0, w.ray(0, o[0], [(lim(vpar.z_min_lay) + lim(vpar.z_max_lay)) / 2])[0]
        m = [skew(*r1, *r2) for r1, r2 in itertools.combinations(rays, 2)]
        return sum(d for d, _ in m) / len(m), sum(p for _, p in m) / len(m)

    def judge(self, case, ref, clean, i, rcm, pos, how, ctx, single):
        ctx.sim_time += 1
        ctx.event(how, i, round(float(rcm), 9), [round(float(x), 9) for x in pos])
        expect(
            np.max(np.abs(pos - ref[i][1])) < TOL,
            "point in a wrong place",
            lambda: f"{how}: point {i} at {pos}, the rays meet at {ref[i][1]}",
        )
        expect(
            abs(rcm - ref[i][0]) < TOL,
            "wrong ray distance",
            lambda: f"{how}: point {i}: {rcm}, is {ref[i][0]}",
        )
        if clean[i] and not single:
            expect(
                np.max(np.abs(pos - case["points"][i]["p"])) < 1e-5 and rcm < 1e-5,
                "point not where it is",
                lambda: f"{how}: point {i} at {pos}, is at {case['points'][i]['p']}",
            )

    def op_batch(self, w, obs, ref, clean, case, mm, cals, vpar, op, rng, ctx):
        pos, rcm = api.point_positions(obs, mm, cals, vpar)
        expect(pos.shape == (len(obs), 3) and rcm.shape == (len(obs),), "wrong shape", f"{pos.shape}")
        for i in range(len(obs)):
            self.judge(case, ref, clean, i, rcm[i], pos[i], "batch", ctx, len(cals) == 1)

    def op_each(self, w, obs, ref, clean, case, mm, cals, vpar, op, rng, ctx):
        if len(cals) == 1:
            return
        for i in range(len(obs)):
            rcm, pos = api.point_position(obs[i], len(cals), mm, cals)
            self.judge(case, ref, clean, i, rcm, pos, "alone", ctx, False)

    def op_order(self, w, obs, ref, clean, case, mm, cals, vpar, op, rng, ctx):
        """Another order, with repeats: no point depends on those before it."""
        idx = [rng.randrange(len(obs)) for _ in range(len(obs) + 2)]
        pos, rcm = api.point_positions(obs[idx], mm, cals, vpar)
        for k, i in enumerate(idx):
            self.judge(case, ref, clean, i, rcm[k], pos[k], f"in the order {idx}", ctx, len(cals) == 1)

    def op_without(self, w, obs, ref, clean, case, mm, cals, vpar, op, rng, ctx):
        """Without the cameras that lost the point, as if they weren't there."""
        if len(cals) == 1:
            return
        for i in range(len(obs)):
            there = [c for c in range(len(cals)) if obs[i, c, 0] != UNUSED]
            pos, rcm = api.point_positions(
                obs[i : i + 1][:, there], mm, [cals[c] for c in there], vpar
            )
            self.judge(case, ref, clean, i, rcm[0], pos[0], f"cameras {there} only", ctx, False)

    def op_cameras(self, w, obs, ref, clean, case, mm, cals, vpar, op, rng, ctx):
        o = list(range(len(cals)))
        rng.shuffle(o)
        pos, rcm = api.point_positions(obs[:, o], mm, [cals[c] for c in o], vpar)
        for i in range(len(obs)):
            self.judge(case, ref, clean, i, rcm[i], pos[i], f"cameras in order {o}", ctx, len(cals) == 1)

    def op_select(self, w, obs, ref, clean, case, mm, cals, vpar, op, rng, ctx):
        """By way of the numbers of the detections: those of a camera in any order."""
        sel = np.empty_like(obs)
        for c in range(len(cals)):
            have = [i for i in range(len(obs)) if obs[i, c, 0] != UNUSED]
            num = list(range(len(have)))
            rng.shuffle(num)
            number = dict(zip(have, num))
            rows = [(obs[i, c, 0], obs[i, c, 1], number[i]) for i in have]
            rows += [(rng.uniform(-5, 5), rng.uniform(-5, 5), len(have) + 1 + k) for k in range(rng.randrange(3))]
            rows.sort()
            coords = np.zeros(len(rows), dtype=api.Coord2d_dtype).view(np.recarray)
            for r, (x, y, n) in zip(coords, rows):
                r.x, r.y, r.pnr = x, y, n
            want = np.array([number.get(i, -999) for i in range(len(obs))])
            got = api.get_by_pnrs(coords, want)
            expect(got.shape == (len(obs), 2), "wrong shape", f"{got.shape}")
            expect(
                np.array_equal(got, obs[:, c]),
                "coordinates of another detection",
                lambda: f"camera {c}, numbers {want}: {got}, should be {obs[:, c]}",
            )
            sel[:, c] = got
        self.op_batch(w, sel, ref, clean, case, mm, cals, vpar, op, rng, ctx)

    def op_dumbbell(self, w, obs, ref, clean, case, mm, cals, vpar, op, rng, ctx):
        if len(cals) == 1 or len(obs) % 2:
            return
        L = op["length"]
        err = 0.0
        for i in range(0, len(obs), 2):
            d = math.dist(ref[i][1], ref[i + 1][1])
            err += 1 - (L / d if d > L else d / L)
        want = sum(r for r, _ in ref) / len(obs) + op["weight"] * err / (len(obs) / 2)
        got = api.dumbbell_target_func(obs, w.cpar(), cals, L, op["weight"])
        ctx.event("dumbbell", round(float(got), 9))
        expect(abs(got - want) < 1e-5, "wrong dumbbell error", f"{got}, should be {want}")

    def nontrivial(self, case, ctx):
        return bool(ctx.faults)

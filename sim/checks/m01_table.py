"""M01: the refraction table of a camera holds what it stands for, after any history."""

import numpy as np

from .. import api, calib, world
from ..core import Check, expect


class M01(Check):
    pid = "M01"
    quick_runs = 800
    thorough_runs = 30000
    jit_share = 12
    rule = (
        "the refraction tables of cameras are filled, filled again for other volumes, walls and "
        "camera positions, with the filling failing in the middle, and asked in between for "
        "points inside, at the rim of and outside what they cover, cameras copied; non-trivial when a filling "
        "failed or was repeated"
    )
    real = ["init_mmlut", "get_mmf_from_mmlut", "multimed_r_nlay", "trans_cam_point", "ray tracing"]
    stub = ["failures of memory: injected"]
    time_unit = "operations"

    def gen(self, rng, index):
        w = world.gen(rng, cams=rng.choice([1, 2]))
        ops, last = [], {}
        for _ in range(rng.choice([2, 3, 5, 6])):
            k = rng.choice(["init", "init", "init", "fail", "move", "wall", "wall", "ask", "copy"])
            o = {"op": k, "cam": rng.randrange(len(w["cams"]))}
            if k in ("init", "fail"):
                o["z"] = [
                    [round(rng.uniform(-20, -4), 2), round(rng.uniform(-20, -4), 2)],
                    [round(rng.uniform(4, 20), 2), round(rng.uniform(4, 20), 2)],
                ]
                if rng.random() < 0.5 and o["cam"] in last:  # the same volume again
                    o["z"] = last[o["cam"]]
                last[o["cam"]] = o["z"]
            if k == "fail":
                o["at"] = rng.choice([0, 1, 5, 50, 300])
            if k == "copy":
                o["how"] = rng.choice(["copy", "copy", "deepcopy"])
            if k == "move":
                far = rng.choice([0.3, 3, 20])
                o["by"] = [round(rng.uniform(-far, far), 2) for _ in range(3)]
            if k == "wall":
                o["n3"] = rng.choice([1.33, 1.36, 1.4, w["mm"]["n3"]])
                o["d"] = rng.choice([2.0, 6.0, 10.0, w["mm"]["d"]])
            ops.append(o)
        return {"world": w, "ops": ops, "seed": rng.randrange(1 << 30), "ask": rng.choice([5, 15])}

    def valid(self, case):
        return (
            world.valid(case["world"])
            and case["ops"]
            and 1 <= case["ask"] <= 50
            and all(
                0 <= o["cam"] < len(case["world"]["cams"])
                and (
                    "z" not in o
                    or len(o["z"]) == 2
                    and all(len(z) == 2 for z in o["z"])
                    and -22 < min(o["z"][0]) <= max(o["z"][0]) <= 0 < min(o["z"][1])
                    and max(o["z"][1]) < 22
                )
                and ("by" not in o or len(o["by"]) == 3 and max(map(abs, o["by"])) < 30)
                and ("n3" not in o or 1 <= o["n3"] < 1.5 and 1 <= o["d"] <= 12)
                for o in case["ops"]
            )
        )

    def run(self, case, ctx):
        import copy
        import random

        rng = random.Random(case["seed"])
        spec = copy.deepcopy(case["world"])
        cals = [world.World(spec).cal(c) for c in range(len(spec["cams"]))]
        apart = []  # (camera, number, table, world) that went on as a copy
        filled = [None] * len(cals)  # (world, vpar limits) the table was filled for
        for n, o in enumerate(case["ops"]):
            c, w = o["cam"], world.World(copy.deepcopy(spec))
            ctx.sim_time += 1
            before = calib.bits(cals[c])
            if o["op"] in ("init", "fail"):
                vpar = w.vpar()
                vpar.z_min_lay, vpar.z_max_lay = list(o["z"][0]), list(o["z"][1])
                kept = [list(vpar.z_min_lay), list(vpar.z_max_lay), list(vpar.x_lay)]
                ok = self.fill(vpar, w.cpar(), cals[c], o.get("at"), ctx)
                ctx.event(n, o["op"], ok)
                if ok:
                    ctx.probe("filled again" if filled[c] else "filled")
                    # the limits are rounded to steps of 2, those below 0 towards it
                    filled[c] = (w, min(o["z"][0]) + 2.0, max(o["z"][1]))
                expect(
                    calib.bits(cals[c]) == before
                    and kept == [list(vpar.z_min_lay), list(vpar.z_max_lay), list(vpar.x_lay)],
                    "filling a table changed something else",
                    f"operation {n}",
                )
            elif o["op"] == "move":
                s = spec["cams"][c]
                s["pos"] = [a + b for a, b in zip(s["pos"], o["by"])]
                if s["pos"][2] < 160:
                    s["pos"][2] = 160.0
                nw = world.World(spec)
                cals[c].set_pos(np.array(s["pos"]))
                cals[c].set_angles(np.array(nw.cam[c]["angles"]))
            elif o["op"] == "copy":
                apart.append((cals[c], c, filled[c], copy.deepcopy(spec)))
                if o.get("how") == "deepcopy":
                    cals[c] = copy.deepcopy(cals[c])
                else:
                    cals[c] = api.Calibration()
                    apart[-1][0].copy(cals[c])
                ctx.probe("went on with a copy")
            elif o["op"] == "wall":
                if spec["mm"]["n3"] > 1:
                    spec["mm"]["n3"], spec["mm"]["d"] = o["n3"], o["d"]
            for k in range(len(cals)):
                self.ask(case, cals[k], k, filled[k], spec, n, rng, ctx)
            for a in apart:
                self.ask(case, *a, n, rng, ctx)

    def fill(self, vpar, cpar, cal, at, ctx):
        if at is None:
            api.init_mmlut(vpar, cpar, cal)
            return True
        m = api.module("multimed")
        old = getattr(m, "multimed_r_nlay", None)
        left = [at]

        def failing(*a, **k):
            left[0] -= 1
            if left[0] < 0:
                ctx.fault("out of memory")
                raise MemoryError("injected")
            return old(*a, **k)

        try:
            if old:
                m.multimed_r_nlay = failing
            api.init_mmlut(vpar, cpar, cal)
            return True
        except MemoryError:
            return False
        finally:
            if old:
                m.multimed_r_nlay = old

    def ask(self, case, cal, c, filled, spec, n, rng, ctx):
        now = world.World(spec)
        if filled is None:
            ctx.probe("asked without a table")
            return
        w, z0, z1 = filled
        glass = np.array([0.0, 0.0, spec["glass"]])
        C = w.cam[c]["pos"]
        ex = w.cal(c).ext_par
        for _ in range(case["ask"]):
            rim = rng.random()
            if rim < 0.7:  # what the camera sees within the depth limits
                xy = [rng.uniform(1, w.imx - 1), rng.uniform(1, w.imy - 1)]
                if rng.random() < 0.3:
                    xy = [rng.choice([1, w.imx - 1]), rng.choice([1, w.imy - 1])]
                z = rng.choice([rng.uniform(z0, z1), z0 + 0.01, z1 - 0.01])
                p = w.ray(c, w.undistort(c, xy), [z])[0]
                covered = True
            else:
                p = np.array([rng.uniform(-400, 400), rng.uniform(-400, 400), rng.uniform(-60, 33)])
                covered = False
            pt, _, _, h = api.trans_cam_point(ex, w.mm(), glass, p)
            got = float(api.get_mmf_from_mmlut(cal, pt))
            r = float(np.hypot(p[0] - C[0], p[1] - C[1]))
            want = w.shift(c, p)
            ctx.event(c, round(got, 9))
            where = lambda: f"operation {n}, camera {c}: {got} at {p}, {r} from the axis, should be {want}"
            if covered:
                expect(got > 0, "table doesn't cover what the camera sees", where)
            if got == 0:
                ctx.probe("outside of the table")
                continue
            ctx.probe("read")
            if r >= 2.0:
                tol = 2e-3 + 4e-3 / r
                expect(abs(got - want) < tol, "wrong value in the table", where)
            else:  # the table has 1 on the axis
                lo, hi = min(1.0, want) - 0.02, max(1.0, want) + 0.02
                expect(lo < got < hi, "wrong value in the table", where)
        # with a table or without, the shift is the same, if nothing moved since
        if spec == w.spec or (now.cam[c]["pos"] == C).all() and spec["mm"] == w.spec["mm"]:
            p = np.array([rng.uniform(-14, 14), rng.uniform(-14, 14), rng.uniform(-4, 4)])
            r = float(np.hypot(p[0] - C[0], p[1] - C[1]))
            got = api.img_coord(p, cal, w.mm())
            want = w.distort(c, *w.flat(c, p))
            expect(
                max(abs(got[0] - want[0]), abs(got[1] - want[1])) < 0.05 * w.pix,
                "projection differs with a table",
                f"operation {n}, camera {c}: {got}, should be {want}",
            )

    def nontrivial(self, case, ctx):
        return bool(ctx.faults) or ctx.probes.get("filled again", 0) > 0

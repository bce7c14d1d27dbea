"""G01: what a camera sees, and the line it looks along, are what optics gives."""

import json
import math

import numpy as np

from .. import api, calib, values, world
from ..core import Check, expect

EXACT = 1e-7  # mm, sight lines
SEEN = 1e-4  # mm on the sensor: the library stops to iterate at 1e-3 mm in the tank


class Optics(world.World):
    """A world that may be turned as a whole and whose wall may have more layers, which
    lie inside of the first one."""

    def __init__(self, spec):
        super().__init__(spec)
        self.R = values.rotation(spec["turn"])
        self.more = spec["more"]
        self.spare = spec["spare"] or []

    def mm(self):
        q = self.spec["mm"]
        return api.MultimediaPar(
            nlay=1 + len(self.more),
            n1=q["n1"],
            n2=[q["n2"]] + [n for n, _ in self.more + self.spare],
            n3=q["n3"],
            d=[q["d"]] + [d for _, d in self.more + self.spare],
        )

    def turned(self, c):
        """Position and angles of a camera, glass vector."""
        m = self.R @ self.cam[c]["dm"]
        angles = [
            math.atan2(-m[1, 2], m[2, 2]),
            math.asin(max(-1.0, min(1.0, m[0, 2]))),
            math.atan2(-m[0, 1], m[0, 0]),
        ]
        return self.R @ self.cam[c]["pos"], np.array(angles), self.R @ [0.0, 0.0, self.spec["glass"]]

    def cal(self, c):
        out = super().cal(c)
        self.turn(out, c)
        return out

    def turn(self, cal, c):
        pos, angles, glass = self.turned(c)
        cal.set_pos(pos)
        cal.set_angles(angles)
        cal.set_glass_vec(glass)

    def alter(self, cals, mm=None, cpar=None):
        super().alter(cals, mm, cpar)
        for c, cal in enumerate(cals):
            self.turn(cal, c)
        for m in (mm, cpar.mm if cpar is not None else None):
            if m is not None:
                m.nlay = 1 + len(self.more)
                m.n2[1:] = [n for n, _ in self.more + self.spare]
                m.d[1:] = [d for _, d in self.more + self.spare]

    def flat(self, c, p):
        return super().flat(c, self.R.T @ np.asarray(p, dtype=float))

    def _sine(self, c, p):
        q = self.spec["mm"]
        C = self.cam[c]["pos"]
        layers = [(q["n1"], C[2] - self.spec["glass"] - q["d"]), (q["n2"], q["d"])]
        layers += [(n, d) for n, d in self.more]
        inside = sum(d for _, d in self.more)
        layers.append((q["n3"], self.spec["glass"] - inside - p[2]))
        r = math.hypot(p[0] - C[0], p[1] - C[1])
        lo, hi = 0.0, min(1.0, min(n for n, _ in layers) / q["n1"])
        for _ in range(200):  # the invariant n sin(a) grows with the distance reached
            s = 0.5 * (lo + hi)
            reach = 0.0
            for n, h in layers:
                k = s * q["n1"] / n
                reach += h * k / math.sqrt(max(1e-300, 1 - k * k))
            if reach < r:
                lo = s
            else:
                hi = s
        return 0.5 * (lo + hi), r

    def line(self, c, flat):
        """(a point on the inner side of the wall, the direction) of the sight line."""
        a, b = super().ray(c, flat, [self.spec["glass"], self.spec["glass"] - 10.0])
        u = b - a
        u = u / math.sqrt(u @ u)
        a = a.copy()
        for n, d in self.more:
            k = u[:2] * (self.spec["mm"]["n3"] / n)
            a[:2] += d * k / math.sqrt(1 - k @ k)
            a[2] -= d
        return self.R @ a, self.R @ u


def generate(rng):
    w = world.gen(rng, cams=rng.choice([1, 2, 2, 3]))
    if rng.random() < 0.3:
        w["mm"]["n1"] = round(rng.uniform(1.0, 1.1), 3)
        if w["mm"]["n2"] == 1.0:
            w["mm"]["n2"] = w["mm"]["n3"] = w["mm"]["n1"]
    far = rng.choice([0.0, 0.0, 0.05, 0.35, 3.0])
    w["turn"] = [round(rng.uniform(-far, far), 4) for _ in range(3)]
    if rng.random() < 0.25:  # the cameras stand close to the window of a deep tank
        w["glass"] = round(rng.uniform(0.4, 0.8) * min(c["pos"][2] for c in w["cams"]), 2)
    # what is left in the lists of layers from another wall
    w["spare"] = rng.choice([None, None, [[1.4, 5.0]], [[0.0, 0.0], [0.0, 0.0]]])
    w["more"] = []
    if rng.random() < 0.3:
        w["more"] = [
            [rng.choice([1.0, 1.33, 1.5, 1.7]), rng.choice([0.5, 2.0, 6.0])]
            for _ in range(rng.choice([1, 2]))
        ]
        w["more"] = [[max(n, w["mm"]["n1"]), d] for n, d in w["more"]]
    return w


def legal(w):
    return (
        world.valid(w)
        and w["mm"]["n1"] <= min(w["mm"]["n2"], w["mm"]["n3"])
        and len(w["turn"]) == 3
        and len(w["more"]) <= 2
        and all(len(m) == 2 and min(m) >= 0 for m in w["spare"] or [])
        and all(len(m) == 2 and w["mm"]["n1"] <= m[0] < 1.8 and 0.1 < m[1] < 8 for m in w["more"])
    )


class G01(Check):
    pid = "G01"
    quick_runs = 2500
    thorough_runs = 60000
    jit_share = 10
    rule = (
        "points are projected, image positions traced back and epipolar lines drawn, one by one "
        "and as arrays, while cameras, lenses and walls are altered in place, turned, exchanged "
        "and refraction tables are filled or fail halfway in between; non-trivial when something "
        "was altered or failed between two uses"
    )
    real = [
        "flat_image_coord(inates)", "img_coord", "image_coordinates", "metric/pixel, single and array",
        "flat_to_dist", "dist_to_flat", "ray_tracing", "epi_mm", "epi_mm_2D", "epipolar_curve",
        "volumedimension", "trans_cam_point", "back_trans_point", "move_along_ray", "init_mmlut",
    ]  # fmt: skip
    stub = ["failures of memory: injected"]
    time_unit = "operations"

    def gen(self, rng, index):
        w = generate(rng)
        ops = []
        for _ in range(rng.choice([2, 3, 5, 8])):
            k = rng.choice(
                ["project", "project", "trace", "trace", "line", "line", "back", "lens"]
                + ["volume", "alter", "alter", "fresh", "table"]
            )
            o = {"op": k, "seed": rng.randrange(1 << 30)}
            if k == "alter":
                m = world.moved(rng, w)
                g = generate(rng)
                m["turn"], m["more"], m["spare"] = g["turn"], g["more"], g["spare"]
                if rng.random() < 0.4:
                    m["turn"], m["more"], m["spare"] = w["turn"], w["more"], w["spare"]
                lowest = min([m["mm"]["n2"], m["mm"]["n3"]])
                m["mm"]["n1"] = min(m["mm"]["n1"], lowest)
                o["world"] = m
            if k == "table":
                o["fail"] = rng.choice([None, None, 0, 3, 40])
            ops.append(o)
        return {"world": w, "ops": ops, "n": rng.choice([1, 2, 6])}

    def valid(self, case):
        n = len(case["world"]["cams"])
        return (
            legal(case["world"])
            and case["ops"]
            and 1 <= case["n"] <= 20
            and all(
                "world" not in o or legal(o["world"]) and len(o["world"]["cams"]) == n
                for o in case["ops"]
            )
        )

    def run(self, case, ctx):
        import random

        w = Optics(json.loads(json.dumps(case["world"])))
        s = [w, w.cals(), w.cpar()]
        altered = False
        for n, o in enumerate(case["ops"]):
            ctx.sim_time += 1
            ctx.event(n, o["op"])
            rng = random.Random(o["seed"])
            if o["op"] == "alter":
                s[0] = Optics(json.loads(json.dumps(o["world"])))
                if rng.random() < 0.3:  # objects of another experiment, next to these
                    s[1], s[2] = s[0].cals(), s[0].cpar()
                else:
                    s[0].alter(s[1], cpar=s[2])
                altered = True
                continue
            if o["op"] == "fresh":
                s[1], s[2] = s[0].cals(), s[0].cpar()
                continue
            if o["op"] == "table":
                self.table(s, o, rng, ctx)
                continue
            kept = [[calib.bits(c) for c in s[1]], values.stable_state(s[2])]
            getattr(self, "op_" + o["op"])(*s, case["n"], f"operation {n}", rng, ctx)
            expect(
                kept == [[calib.bits(c) for c in s[1]], values.stable_state(s[2])],
                "cameras or parameters changed",
                f"by operation {n} {o['op']}",
            )
            if altered:
                ctx.probe("used after altering")
            ctx.probe(o["op"])

    def table(self, s, o, rng, ctx):
        """Fill a table for the first camera, perhaps in vain, from then on it is there."""
        w, cals, cpar = s
        if any(abs(t) > 0 for t in w.spec["turn"]):
            return
        m = api.module("multimed")
        old = getattr(m, "multimed_r_nlay", None)
        left = [o["fail"] if o["fail"] is not None else 1 << 60]

        def failing(*a, **k):
            left[0] -= 1
            if left[0] < 0:
                ctx.fault("out of memory")
                raise MemoryError("injected")
            return old(*a, **k)

        try:
            if old:
                m.multimed_r_nlay = failing
            api.init_mmlut(w.vpar(), cpar, cals[0])
            ctx.probe("table filled")
        except MemoryError:
            pass
        finally:
            if old:
                m.multimed_r_nlay = old

    def seen(self, w):
        """How far off, on the sensor, the iteration may leave a point. Close to the
        window it converges slower, and stops at a larger error."""
        return SEEN if w.spec["glass"] < 80 else 4 * SEEN

    # -- operations -------------------------------------------------------------

    def points(self, w, n, rng):
        out = []
        top = w.spec["glass"] - sum(d for _, d in w.more) - 2.0
        for _ in range(n):
            far = rng.choice([5.0, 15.0, 40.0])
            out.append(
                [round(rng.uniform(-far, far), 4), round(rng.uniform(-far, far), 4),
                 round(rng.uniform(-25.0, min(top, 25.0)), 4)]
            )
        return [w.R @ p for p in out]

    def op_project(self, w, cals, cpar, n, how, rng, ctx):
        pts = self.points(w, n, rng)
        for c in range(w.num_cams):
            flat = [w.flat(c, p) for p in pts]
            seen = [w.distort(c, *f) for f in flat]
            one = [api.flat_image_coord(p, cals[c], cpar.mm) for p in pts]
            allf = api.flat_image_coordinates(np.array(pts), cals[c], cpar.mm)
            img = [api.img_coord(p, cals[c], cpar.mm) for p in pts]
            alli = api.image_coordinates(np.array(pts), cals[c], cpar.mm)
            ctx.event(c, [[round(float(v), 9) for v in q] for q in img])
            self.near(one, flat, self.seen(w), "point seen in a wrong place", f"{how}: flat, camera {c}", pts)
            self.near(img, seen, self.seen(w), "point seen in a wrong place", f"{how}: camera {c}", pts)
            self.near(allf, one, 1e-9, "array and single differ", f"{how}: flat, camera {c}", pts)
            self.near(alli, img, 1e-9, "array and single differ", f"{how}: camera {c}", pts)
            wide = np.zeros((len(pts), 7))
            wide[:, 1::2] = pts
            self.near(
                api.image_coordinates(wide[:, 1::2], cals[c], cpar.mm), img, 1e-9,
                "depends on where the points lie in memory", f"{how}: camera {c}", pts,
            )  # fmt: skip
            none = api.image_coordinates(np.empty((0, 3)), cals[c], cpar.mm)
            expect(none.shape == (0, 2), "image positions of no points", f"{how}: {none.shape}")
            whole = np.array([[rng.randrange(-9, 9) for _ in range(3)]])
            self.near(
                api.image_coordinates(whole, cals[c], cpar.mm),
                [w.distort(c, *w.flat(c, whole[0]))], self.seen(w),
                "point seen in a wrong place", f"{how}: whole numbers, camera {c}", whole,
            )  # fmt: skip
            # to pixels and back
            pix = [api.metric_to_pixel(x, y, cpar) for x, y in img]
            want = [[x / w.pix + w.imx / 2.0, w.imy / 2.0 - y / w.piy] for x, y in img]
            self.near(pix, want, 1e-7, "wrong pixel", f"{how}: camera {c}", img)
            self.near(
                api.arr_metric_to_pixel(np.array(img, dtype=float), cpar), pix, 1e-9,
                "array and single differ", f"{how}: pixels, camera {c}", img,
            )  # fmt: skip
            grid = np.array([[rng.randrange(w.imx), rng.randrange(w.imy)] for _ in pts], dtype=np.int32)
            self.near(
                api.arr_pixel_to_metric(grid, w.imx, w.imy, w.pix, w.piy),
                [api.pixel_to_metric(float(x), float(y), cpar) for x, y in grid], 1e-9,
                "array and single differ", f"{how}: from pixels, camera {c}", grid,
            )  # fmt: skip
            self.near(
                [api.pixel_to_metric(x, y, cpar) for x, y in pix], img, 1e-9,
                "pixels and back", f"{how}: camera {c}", img,
            )  # fmt: skip

    def near(self, got, want, tol, kind, how, what):
        expect(len(got) == len(want), kind, lambda: f"{how}: {len(got)} results for {len(want)}")
        for i, (g, q) in enumerate(zip(got, want)):
            d = max(abs(float(a) - float(b)) for a, b in zip(g, q))
            expect(
                d <= tol and len(g) == len(q), kind,
                lambda: f"{how}: {list(map(float, g))}, should be {list(map(float, q))}, "
                f"for {[float(x) for x in what[i]]}",
            )  # fmt: skip

    def sensor(self, w, n, rng):
        """Pixels on the sensor, some of them the middle and the corners."""
        out = []
        for _ in range(n):
            p = [rng.uniform(0, w.imx), rng.uniform(0, w.imy)]
            if rng.random() < 0.2:
                p = [rng.choice([0, w.imx, w.imx / 2.0]), rng.choice([0, w.imy, w.imy / 2.0])]
            out.append(p)
        return out

    def op_trace(self, w, cals, cpar, n, how, rng, ctx):
        for c in range(w.num_cams):
            for xy in self.sensor(w, n, rng):
                f = w.undistort(c, xy)
                X, u = api.ray_tracing(f[0], f[1], cals[c], cpar.mm)
                a, d = w.line(c, f)
                ctx.event(c, [round(float(x), 7) for x in X])
                where = lambda: f"{how}: camera {c} at {xy}: from {X} along {u}, should be {a} {d}"
                expect(max(abs(X - a)) < EXACT, "sight line enters in a wrong place", where)
                expect(max(abs(u - d)) < EXACT / 100, "sight line in a wrong direction", where)
                if abs(d[2]) > 0.2:
                    z = rng.uniform(-25, 25)
                    p = api.move_along_ray(z, X.copy(), u.copy())
                    want = a + d * ((z - a[2]) / d[2])
                    expect(max(abs(p - want)) < 1e-5, "moved off the sight line", lambda: f"{how}: {p}, should be {want}")
                # what lies on the line is seen where it started
                q = X + u * rng.uniform(1, 80)
                got = api.flat_image_coord(q, cals[c], cpar.mm)
                self.near([got], [f], self.seen(w), "sight line and projection disagree", f"{how}: camera {c}", [q])

    def op_line(self, w, cals, cpar, n, how, rng, ctx):
        vpar = w.vpar()
        vpar.x_lay = [-60.0, round(rng.uniform(40, 80), 2)]
        vpar.z_min_lay = [-20.0, round(rng.uniform(-20, -5), 2)]
        vpar.z_max_lay = [round(rng.uniform(5, 20), 2), 20.0]
        kept = [list(vpar.x_lay), list(vpar.z_min_lay), list(vpar.z_max_lay)]
        for a in range(w.num_cams):
            for xy in self.sensor(w, n, rng):
                f = w.undistort(a, xy)
                X, u = w.line(a, f)
                if abs(u[2]) < 0.5:  # looks nearly along the layers
                    continue
                at = lambda z: X + u * ((z - X[2]) / u[2])
                t = (X[0] - vpar.x_lay[0]) / (vpar.x_lay[1] - vpar.x_lay[0])
                lo = vpar.z_min_lay[0] + t * (vpar.z_min_lay[1] - vpar.z_min_lay[0])
                hi = vpar.z_max_lay[0] + t * (vpar.z_max_lay[1] - vpar.z_max_lay[0])
                mid = api.epi_mm_2D(f[0], f[1], cals[a], cpar.mm, vpar)
                self.near([mid], [at((lo + hi) / 2)], 1e-5, "wrong middle of the sight line", how, [xy])
                for b in range(w.num_cams):
                    ends = [at(lo), at(hi)]
                    if any(not self.within(w, p) for p in ends):
                        continue
                    got = api.epi_mm(f[0], f[1], cals[a], cals[b], cpar.mm, vpar)
                    want = [w.flat(b, p) for p in ends]
                    self.near(
                        [got[:2], got[2:]], want, self.seen(w), "epipolar line ends elsewhere",
                        f"{how}: camera {a} at {xy} in camera {b}", ends,
                    )  # fmt: skip
                    k = rng.choice([2, 3, 7])
                    zs = np.linspace(vpar.z_min_lay[0], vpar.z_max_lay[0], k)
                    pts = [at(z) for z in zs]
                    if any(not self.within(w, p) for p in pts):
                        continue
                    curve = api.epipolar_curve(np.array(xy), cals[a], cals[b], k, cpar, vpar)
                    want = [w.pixel(b, p) for p in pts]
                    # the start is accurate only as the correction of the lens is
                    tol = (self.seen(w) + 3 * self.lens_tol(w, a, xy)) / min(w.pix, w.piy)
                    self.near(
                        curve, want, tol, "epipolar curve runs elsewhere",
                        f"{how}: camera {a} at {xy} in camera {b}", pts,
                    )  # fmt: skip
        expect(
            kept == [list(vpar.x_lay), list(vpar.z_min_lay), list(vpar.z_max_lay)],
            "the volume changed", how,
        )  # fmt: skip

    def op_volume(self, w, cals, cpar, n, how, rng, ctx):
        """The volume that holds what the cameras see between the layers."""
        if any(w.spec["turn"]):
            return
        vpar = w.vpar()
        vpar.z_min_lay = [round(rng.uniform(-25, -5), 2) for _ in range(2)]
        vpar.z_max_lay = [round(rng.uniform(5, 20), 2) for _ in range(2)]
        kept = [list(vpar.x_lay), list(vpar.z_min_lay), list(vpar.z_max_lay)]
        least = rng.choice([[0.0] * 4, [9.0, -9.0, 300.0, -1.0], [3.0, -500.0, 2.0, -2.0]])
        low, high = min(vpar.z_min_lay), max(vpar.z_max_lay)
        want = list(least)
        off = 0.0
        for c in range(w.num_cams):
            for xy in [[x, y] for x in (0.0, w.imx) for y in (0.0, w.imy)]:
                f = w.undistort(c, xy)
                X, u = w.line(c, f)
                if abs(u[2]) < 0.3:
                    return
                far = w.cam[c]["pos"][2] - low
                # the library corrects the lens after it shifts to the principal point
                shift = math.hypot(w.cam[c]["xh"], w.cam[c]["yh"])
                x, y = (xy[0] - w.imx / 2.0) * w.pix, (w.imy / 2.0 - xy[1]) * w.piy
                lens = math.hypot(x - f[0] - w.cam[c]["xh"], y - f[1] - w.cam[c]["yh"])
                off = max(off, far / w.cam[c]["cc"] * (3 * self.lens_tol(w, c, xy) + shift * lens))
                for z in (low, high):
                    p = X + u * ((z - X[2]) / u[2])
                    want = [max(want[0], p[0]), min(want[1], p[0]), max(want[2], p[1]), min(want[3], p[1])]
        if off > 2.0:
            return
        got = api.volumedimension(*least, rng.uniform(-9, 9), rng.uniform(-9, 9), vpar, cpar, cals)
        ctx.event([round(float(x), 6) for x in got])
        self.near([got], [want + [high, low]], 0.2 + off, "volume isn't what the cameras see", how, [least])
        expect(
            kept == [list(vpar.x_lay), list(vpar.z_min_lay), list(vpar.z_max_lay)],
            "the volume changed", how,
        )  # fmt: skip

    def within(self, w, p):
        q = w.R.T @ p
        return -60 < q[2] < w.spec["glass"] - 1 and max(abs(q[:2])) < 150

    def lens_tol(self, w, c, xy):
        """How far the library's correction of the lens, an iteration, may be off."""
        x = (xy[0] - w.imx / 2.0) * w.pix
        y = (w.imy / 2.0 - xy[1]) * w.piy
        f = w.undistort(c, xy)
        v = w.cam[c]
        off = math.hypot(x - f[0] - v["xh"], y - f[1] - v["yh"])
        r = math.hypot(x, y)
        return 1e-6 + 3 * abs(math.sin(v["added"][6])) * off + (5e-5 * r if any(v["added"][:5]) else 0)

    def op_back(self, w, cals, cpar, n, how, rng, ctx):
        """Into the frame of the glass and back."""
        for c in range(w.num_cams):
            pos, _, glass = w.turned(c)
            g = glass / math.sqrt(glass @ glass)
            for p in self.points(w, n, rng):
                t, cp, cc, z0 = api.trans_cam_point(cals[c].ext_par, cpar.mm, cals[c].glass_par, p)
                back = api.back_trans_point(t, cpar.mm, cals[c].glass_par, cp, cc)
                self.near([back], [p], 1e-8, "not where it came from", f"{how}: camera {c}", [p])
                h = [p @ g - w.spec["glass"], pos @ g - w.spec["glass"]]
                side = (p - pos) - g * ((p - pos) @ g)
                want = [math.sqrt(side @ side), 0.0, h[0]]
                self.near([t], [want], 1e-8, "wrong place relative to the glass", f"{how}: camera {c}", [p])
                expect(abs(z0 - h[1]) < 1e-8, "wrong height above the glass", f"{how}: {z0}, is {h[1]}")

    def op_lens(self, w, cals, cpar, n, how, rng, ctx):
        for c in range(w.num_cams):
            for xy in self.sensor(w, n, rng):
                f = w.undistort(c, xy)
                m = w.distort(c, *f)
                got = api.flat_to_dist(f[0], f[1], cals[c])
                self.near([got], [m], 1e-8, "wrong distortion", f"{how}: camera {c}", [f])
                got = api.dist_to_flat(m[0], m[1], cals[c])
                self.near(
                    [got], [f], self.lens_tol(w, c, xy), "wrong correction of the lens",
                    f"{how}: camera {c}", [m],
                )  # fmt: skip

    def nontrivial(self, case, ctx):
        return bool(ctx.faults) or ctx.probes.get("used after altering", 0) > 0

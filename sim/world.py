"""A simulated experiment: cameras around a tank, particles, and what the
detectors report of them under faults.

The projection is written out here independently of the library (pinhole camera,
Snell's law through a plane-parallel glass, Brown distortion), so that the
library's geometry, matching and tracking can be held against the truth.

A world is JSON: {"cams": [...], "mm": {...}, "glass": d, "imx", "imy", "pix"}.
"""

import math

import numpy as np

from . import api, values


def gen(rng, cams=None, plain=None, distort=None):
    """A world of 2 to 4 cameras above the origin."""
    n = cams or rng.choice([2, 3, 3, 4, 4, 4])
    if plain is None:
        plain = rng.random() < 0.25
    if distort is None:
        distort = rng.random() < 0.4
    dist = rng.uniform(220, 420)
    tilt0 = rng.uniform(0.2, 0.42)
    phase = rng.uniform(0, 2 * math.pi)
    out = []
    for c in range(n):
        az = phase + 2 * math.pi * c / n + rng.uniform(-0.2, 0.2)
        tilt = tilt0 + rng.uniform(-0.06, 0.06)
        d = dist * rng.uniform(0.92, 1.08)
        out.append(
            {
                "pos": [
                    d * math.sin(tilt) * math.cos(az),
                    d * math.sin(tilt) * math.sin(az),
                    d * math.cos(tilt),
                ],
                "kappa": rng.uniform(-0.15, 0.15),
                "off": [rng.uniform(-2, 2), rng.uniform(-2, 2)],
                "cc": dist * rng.uniform(0.18, 0.24),
                "xh": rng.choice([0.0, rng.uniform(-0.15, 0.15)]),
                "yh": rng.choice([0.0, rng.uniform(-0.15, 0.15)]),
                "added": [
                    rng.uniform(-2e-4, 2e-4),
                    rng.uniform(-4e-7, 4e-7),
                    rng.choice([0.0, rng.uniform(-6e-10, 6e-10)]),
                    rng.uniform(-5e-5, 5e-5),
                    rng.uniform(-5e-5, 5e-5),
                    1.0 + rng.uniform(-2e-3, 2e-3),
                    rng.uniform(-2e-3, 2e-3),
                ]
                if distort
                else [0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0],
            }
        )
    if plain:
        mm = {"n1": 1.0, "n2": 1.0, "n3": 1.0, "d": 1.0}
    else:
        mm = {
            "n1": 1.0,
            "n2": rng.choice([1.46, 1.49, 1.52]),
            "n3": rng.choice([1.33, 1.34, 1.36]),
            "d": rng.choice([2.0, 5.0, 8.0]),
        }
    w = {
        "cams": out,
        "mm": mm,
        "glass": rng.uniform(35, 60),
        "imx": rng.choice([1280, 1024, 1600]),
        "imy": rng.choice([1024, 1280]),
        "pix": rng.choice([0.01, 0.012, 0.017]),
        # height of a pixel by its width
        "ratio": rng.choice([1.0, 1.0, 1.0, 0.8, 1.15]),
    }
    if not tame(w):
        w["pix"], w["ratio"] = 0.012, 1.0
    return w


def tame(w):
    """Whether each place on the sensors, and a bit beyond, belongs to one place in the
    picture of a perfect lens, and could be worked back to it."""
    half = 0.5 * math.hypot(w["imx"], w["imy"] * w["ratio"]) * w["pix"]
    for c in w["cams"]:
        k1, k2, k3, p1, p2 = c["added"][:5]
        for i in range(1, 9):
            r = (1.15 * half + abs(c["xh"]) + abs(c["yh"])) * i / 8
            q = 3 * k1 * r**2 + 5 * k2 * r**4 + 7 * k3 * r**6
            if 1 + q - 6 * (abs(p1) + abs(p2)) * r < 0.4:
                return False
    return True


def moved(rng, w):
    """The same experiment at another time: cameras, tank, sensor a bit different."""
    import json

    old = w
    w = json.loads(json.dumps(w))
    what = rng.choice(["cams", "cams", "one", "mm", "glass", "lens", "all"])
    for c in [rng.choice(w["cams"])] if what == "one" else w["cams"]:
        if what in ("cams", "one", "all"):
            c["pos"] = [x + rng.uniform(-6, 6) for x in c["pos"]]
            c["off"] = [x + rng.uniform(-1, 1) for x in c["off"]]
            c["kappa"] += rng.uniform(-0.05, 0.05)
        if what in ("lens", "all"):
            c["cc"] += rng.uniform(-2, 2)
            c["xh"] += rng.uniform(-0.3, 0.3)
            c["added"][0] += rng.uniform(-2e-4, 2e-4)
            c["added"][6] += rng.uniform(-2e-3, 2e-3)
    if what in ("mm", "all"):
        w["mm"]["n3"] = rng.choice([1.0, 1.33, 1.4])
        w["mm"]["n2"] = rng.choice([1.0, 1.5])
        w["mm"]["d"] = rng.choice([1.0, 3.0, 9.0])
    if what in ("glass", "all"):
        w["glass"] = rng.uniform(35, 60)
    if what in ("lens", "all"):
        w["pix"] = rng.choice([0.01, 0.012, 0.017])
        w["ratio"] = rng.choice([w["ratio"], 1.0, 1.15])
    if not tame(w):
        w["pix"], w["ratio"] = old["pix"], old["ratio"]
        for c, o in zip(w["cams"], old["cams"]):
            c["added"] = list(o["added"])
    return w


def earlier(rng, w, chance=0.25):
    return moved(rng, w) if rng.random() < chance else None


def valid_earlier(e, w):
    return e is None or (valid(e) and len(e["cams"]) == len(w["cams"]))


def valid(w):
    return (
        1 <= len(w["cams"]) <= 4
        and all(
            len(c["pos"]) == 3
            and len(c["off"]) == 2
            and len(c["added"]) == 7
            and c["pos"][2] > 150
            and c["cc"] > 20
            and abs(c["added"][5] - 1) < 0.1
            and abs(c["added"][6]) < 0.1
            and abs(c["added"][0]) < 1e-3
            and abs(c["added"][1]) < 2e-6
            and abs(c["added"][2]) < 1e-9
            and max(map(abs, c["added"][3:5])) < 2e-4
            for c in w["cams"]
        )
        and all(1.0 <= w["mm"][k] < 1.7 for k in ("n1", "n2", "n3"))
        and 0.5 <= w["mm"]["d"] < 20
        and 30 < w["glass"] < max(80, 0.9 * min(c["pos"][2] for c in w["cams"]) - w["mm"]["d"])
        and w["imx"] > 500
        and w["imy"] > 500
        and 0.005 < w["pix"] < 0.03
        and 0.5 < w["ratio"] < 2
        and tame(w)
    )


class World:
    def __init__(self, spec):
        self.spec = spec
        self.num_cams = len(spec["cams"])
        self.imx, self.imy, self.pix = spec["imx"], spec["imy"], spec["pix"]
        self.piy = self.pix * spec["ratio"]
        self.cam = []
        for c in spec["cams"]:
            pos = np.array(c["pos"])
            axis = pos - np.array([c["off"][0], c["off"][1], 0.0])
            axis = axis / math.sqrt(axis @ axis)
            angles = [
                math.atan2(-axis[1], axis[2]),
                math.asin(max(-1.0, min(1.0, axis[0]))),
                c["kappa"],
            ]
            self.cam.append(
                {
                    "pos": pos,
                    "angles": angles,
                    "dm": values.rotation(angles),
                    "cc": c["cc"],
                    "xh": c["xh"],
                    "yh": c["yh"],
                    "added": c["added"],
                }
            )

    # -- the library's objects ------------------------------------------------

    def cpar(self, all_cam=0):
        mm = self.spec["mm"]
        return api.ControlPar(
            num_cams=self.num_cams,
            img_base_name=[f"cam{c}.%d" for c in range(self.num_cams)],
            cal_img_base_name=[f"cal{c}" for c in range(self.num_cams)],
            hp_flag=1,
            all_cam_flag=all_cam,
            tiff_flag=1,
            imx=self.imx,
            imy=self.imy,
            pix_x=self.pix,
            pix_y=self.piy,
            chfield=0,
            mm=self.mm(),
        )

    def mm(self):
        mm = self.spec["mm"]
        return api.MultimediaPar(
            nlay=1, n1=mm["n1"], n2=[mm["n2"]], n3=mm["n3"], d=[mm["d"]]
        )

    def cal(self, c):
        v = self.cam[c]
        return values.mk_calibration(
            {
                "pos": [float(x) for x in v["pos"]],
                "angles": v["angles"],
                "int": [v["xh"], v["yh"], v["cc"]],
                "glass": [0.0, 0.0, self.spec["glass"]],
                "added": v["added"],
            }
        )

    def cals(self):
        return [self.cal(c) for c in range(self.num_cams)]

    def alter(self, cals, mm=None, cpar=None):
        """Make objects of another world those of this one, keeping the objects."""
        for c, cal in enumerate(cals):
            v = self.cam[c]
            cal.set_pos(np.array(v["pos"], dtype=float))
            cal.set_angles(np.array(v["angles"], dtype=float))
            cal.set_primary_point(np.array([v["xh"], v["yh"], v["cc"]]))
            cal.set_glass_vec(np.array([0.0, 0.0, self.spec["glass"]]))
            cal.set_radial_distortion(np.array(v["added"][:3]))
            cal.set_decentering(np.array(v["added"][3:5]))
            cal.set_affine_distortion(np.array(v["added"][5:]))
        if cpar is not None:
            cpar.imx, cpar.imy = self.imx, self.imy
            cpar.pix_x, cpar.pix_y = self.pix, self.piy
        for m in (mm, cpar.mm if cpar is not None else None):
            if m is not None:
                q = self.spec["mm"]
                m.n1, m.n3 = q["n1"], q["n3"]
                m.n2[0], m.d[0] = q["n2"], q["d"]

    def used_before(self, earlier, use):
        """(cals, cpar) of this world that were those of an earlier one when use() was
        called with them; earlier may be None."""
        if not earlier:
            return self.cals(), self.cpar()
        then = World(earlier)
        cals, cpar = then.cals(), then.cpar()
        use(then, cals, cpar)
        self.alter(cals, cpar=cpar)
        return cals, cpar

    def vpar(self, eps0=0.05, corrmin=1.0, zlim=20.0, xlim=60.0, cn=0.02):
        return api.VolumePar(
            x_lay=[-xlim, xlim],
            z_min_lay=[-zlim, -zlim],
            z_max_lay=[zlim, zlim],
            cn=cn,
            cnx=cn,
            cny=cn,
            csumg=cn,
            eps0=eps0,
            corrmin=corrmin,
        )

    # -- the truth ----------------------------------------------------------

    def shift(self, c, p):
        """How much further out camera c sees p than it would through air."""
        s, r = self._sine(c, p)
        return (self.cam[c]["pos"][2] - p[2]) * s / math.sqrt(1 - s * s) / r if r else 1.0

    def flat(self, c, p):
        """Undistorted image coordinates (mm, relative to the principal point)."""
        v = self.cam[c]
        C = v["pos"]
        s, r = self._sine(c, p)
        dx, dy = float(p[0]) - C[0], float(p[1]) - C[1]
        if r > 0:
            u = np.array([dx / r * s, dy / r * s, -math.sqrt(1 - s * s)])
        else:
            u = np.array([0.0, 0.0, -1.0])
        q = v["dm"].T @ u
        return -v["cc"] * q[0] / q[2], -v["cc"] * q[1] / q[2]

    def _sine(self, c, p):
        """(sine of the angle in air to the normal, horizontal distance)."""
        v = self.cam[c]
        mm = self.spec["mm"]
        C = v["pos"]
        x, y, z = float(p[0]), float(p[1]), float(p[2])
        h3 = self.spec["glass"] - z  # depth below the inner glass surface
        d = mm["d"]
        h1 = C[2] - self.spec["glass"] - d
        dx, dy = x - C[0], y - C[1]
        r = math.hypot(dx, dy)
        # s: sine of the ray's angle to the normal, in air
        a2, a3 = mm["n1"] / mm["n2"], mm["n1"] / mm["n3"]
        lo, hi = 0.0, 1.0 - 1e-12
        s = r / math.hypot(r, h1 + d + h3)

        def reach(s):
            t = lambda q: q / math.sqrt(1 - q * q)
            return h1 * t(s) + d * t(a2 * s) + h3 * t(a3 * s) - r

        for _ in range(60):
            f = reach(s)
            if f > 0:
                hi = s
            else:
                lo = s
            e = 1e-7
            g = (reach(min(s + e, hi)) - f) / e if s + e < hi else 0.0
            nxt = s - f / g if g > 0 else 0.5 * (lo + hi)
            if not lo < nxt < hi:
                nxt = 0.5 * (lo + hi)
            if abs(nxt - s) < 1e-15 or hi - lo < 1e-15:
                break
            s = nxt
        return s, r

    def distort(self, c, x, y):
        """Flat coordinates to metric coordinates on the sensor."""
        v = self.cam[c]
        k1, k2, k3, p1, p2, scx, she = v["added"]
        x, y = x + v["xh"], y + v["yh"]
        r2 = x * x + y * y
        q = k1 * r2 + k2 * r2**2 + k3 * r2**3
        x1 = x + x * q + p1 * (r2 + 2 * x * x) + 2 * p2 * x * y
        # the model applies the corrected x in the formula for y
        y1 = y + y * q + p2 * (r2 + 2 * y * y) + 2 * p1 * x1 * y
        return scx * x1 - math.sin(she) * y1, math.cos(she) * y1

    def pixel(self, c, p):
        """Where camera c sees point p, in pixels."""
        x, y = self.distort(c, *self.flat(c, p))
        return x / self.pix + self.imx / 2.0, self.imy / 2.0 - y / self.piy

    def inside(self, c, xy, margin=3.0):
        return margin < xy[0] < self.imx - margin and margin < xy[1] < self.imy - margin

    def undistort(self, c, xy):
        """Flat coordinates of a pixel: the inverse of what pixel() does after flat()."""
        v = self.cam[c]
        k1, k2, k3, p1, p2, scx, she = v["added"]
        xm = (xy[0] - self.imx / 2.0) * self.pix
        ym = (self.imy / 2.0 - xy[1]) * self.piy
        x, y = xm - v["xh"], ym - v["yh"]
        for _ in range(100):
            gx, gy = self.distort(c, x, y)
            ex, ey = xm - gx, ym - gy
            x, y = x + ex, y + ey
            if abs(ex) + abs(ey) < 1e-13:
                break
        return x, y

    def ray(self, c, flat, zs):
        """The points at depths zs, in the tank, that camera c sees at `flat`."""
        mm = self.spec["mm"]
        v = self.cam[c]
        C = v["pos"]
        u = v["dm"] @ np.array([flat[0], flat[1], -v["cc"]])
        u = u / math.sqrt(u @ u)
        s = math.hypot(u[0], u[1])
        t = lambda q: q / math.sqrt(1 - q * q)
        t2, t3 = t(s * mm["n1"] / mm["n2"]), t(s * mm["n1"] / mm["n3"])
        ex, ey = (u[0] / s, u[1] / s) if s else (0.0, 0.0)
        G, d = self.spec["glass"], mm["d"]
        r = (C[2] - G - d) * t(s) + d * t2
        return [
            np.array([C[0] + ex * (r + (G - z) * t3), C[1] + ey * (r + (G - z) * t3), z])
            for z in zs
        ]


def target_list(rows):
    """Library targets from rows [x, y, tnr, n, nx, ny, sumg], numbered in order."""
    return [
        api.Target(
            pnr=i, x=r[0], y=r[1], n=r[3], nx=r[4], ny=r[5], sumg=r[6], tnr=r[2]
        )
        for i, r in enumerate(rows)
    ]

"""A camera that is calibrated on a block of dots of known position: the block, the
dots as detected under faults, the guess to start from, and faults inside the
adjustment."""

import contextlib
import math
import random

import numpy as np

from . import api, values, world

FLAGS = ["cc", "xh", "yh", "k1", "k2", "k3", "p1", "p2", "scx", "she"]
EMPTY = -999


def gen_block(rng, n=None):
    """Dots in a grid, or scattered, over the tank, never in one plane."""
    out = []
    n = n or rng.choice([8, 9, 12, 16])
    for i in range(n):
        out.append(
            [
                round(rng.uniform(-14, 14), 3),
                round(rng.uniform(-14, 14), 3),
                round((-8 if i % 2 else 8) + rng.uniform(-3, 3), 3),
            ]
        )
    # spread: the first ones span the block
    for k, c in enumerate([[-13, -13], [13, 12], [-12, 13], [13, -12]]):
        out[k][:2] = [c[0] + round(rng.uniform(-1, 1), 3), c[1] + round(rng.uniform(-1, 1), 3)]
    return out


def gen(rng, n=None, distort=None, faults=True):
    w = world.gen(rng, cams=1, distort=distort)
    pts = gen_block(rng, n)
    small = rng.random() < 0.6
    k = 0.3 if small else 1.0
    s = {
        "world": w,
        "pts": pts,
        "guess": {
            "pos": [round(rng.uniform(-8, 8) * k, 3) for _ in range(3)],
            "angles": [round(rng.uniform(-0.02, 0.02) * k, 5) for _ in range(3)],
        },
        "lost": [],
        "ghosts": [],
        "noise": rng.choice([0.0, 0.0, 0.1, 0.5]),
        "nseed": rng.randrange(1 << 30),
    }
    if faults and rng.random() < 0.6:
        s["lost"] = sorted(rng.sample(range(len(pts)), rng.randrange(0, len(pts) - 5)))
    if faults and rng.random() < 0.5:
        s["ghosts"] = [
            [round(rng.uniform(2, w["imx"] - 2), 2), round(rng.uniform(2, w["imy"] - 2), 2)]
            for _ in range(rng.choice([1, 3, 10]))
        ]
    return s


def valid(s):
    n = len(s["pts"])
    return (
        world.valid(s["world"])
        and n >= 6
        and all(len(p) == 3 and max(map(abs, p)) < 20 for p in s["pts"])
        and len(s["guess"]["pos"]) == len(s["guess"]["angles"]) == 3
        and max(map(abs, s["guess"]["pos"])) < 10
        and max(map(abs, s["guess"]["angles"])) < 0.03
        and all(0 <= i < n for i in s["lost"])
        and n - len(set(s["lost"])) >= 6
        and s["noise"] >= 0
        and all(len(g) == 2 for g in s["ghosts"])
        and spread([p for i, p in enumerate(s["pts"]) if i not in s["lost"]])
    )


def spread(pts):
    """Whether the points determine a camera well."""
    q = np.array(pts) - np.mean(pts, axis=0)
    sv = np.linalg.svd(q, compute_uv=False)
    return len(pts) >= 6 and sv[-1] > 10


def angles_of(m):
    """The angles that values.rotation makes this matrix of."""
    return [
        math.atan2(-m[1, 2], m[2, 2]),
        math.asin(max(-1.0, min(1.0, m[0, 2]))),
        math.atan2(-m[0, 1], m[0, 0]),
    ]


class Block:
    """s["turn"] (angles) turns camera, glass and dots together; s["tilt"] is how far
    the guessed glass is off, in parts of its distance."""

    def __init__(self, s, ctx=None):
        self.s = s
        self.w = world.World(s["world"])
        self.R = values.rotation(s["turn"]) if s.get("turn") else np.eye(3)
        self.pts = np.array(s["pts"], dtype=float) @ self.R.T
        self.n = len(self.pts)
        self.seen = []  # [x, y] or None
        for i, p in enumerate(s["pts"]):
            rng = random.Random(f"{s['nseed']}/{i}")
            e = [rng.uniform(-1, 1) * s["noise"] for _ in range(2)]
            xy = self.w.pixel(0, p)
            if i in s["lost"] or not self.w.inside(0, xy, 0):
                if ctx and i in s["lost"]:
                    ctx.fault("dot lost")
                self.seen.append(None)
                continue
            self.seen.append([xy[0] + e[0], xy[1] + e[1]])
        if ctx:
            ctx.fault("ghost dot", len(s["ghosts"])) if s["ghosts"] else None

    def paired(self):
        """Targets in the order of the points, as the pairing leaves them."""
        return [
            api.Target(pnr=i, x=q[0], y=q[1], n=25, nx=5, ny=5, sumg=900 + i)
            if q
            else api.Target(pnr=EMPTY)
            for i, q in enumerate(self.seen)
        ]

    def detections(self, order_seed):
        """(targets as a detector reports them, which point each is or -1)."""
        rows = [(q[0], q[1], i) for i, q in enumerate(self.seen) if q]
        rows += [(g[0], g[1], -1) for g in self.s["ghosts"]]
        rows.sort(key=lambda r: (r[1], r[0]))
        if order_seed is not None:
            random.Random(order_seed).shuffle(rows)
        return [
            api.Target(pnr=k, x=r[0], y=r[1], n=20 + k, nx=5, ny=4, sumg=1000 + k, tnr=-1)
            for k, r in enumerate(rows)
        ], [r[2] for r in rows]

    def guess(self, inner=None):
        """The calibration to start from: the truth, displaced."""
        v = values.un_calibration(self.w.cal(0))
        if self.s.get("turn"):
            v["pos"] = (self.R @ np.array(v["pos"])).tolist()
            v["angles"] = angles_of(self.R @ self.w.cam[0]["dm"])
        if self.s.get("turn") or self.s.get("tilt"):
            n = self.s["world"]["glass"]
            v["glass"] = (self.R @ [t * n for t in (self.s.get("tilt") or [0.0, 0.0]) + [1.0]]).tolist()
        v["pos"] = [a + b for a, b in zip(v["pos"], self.s["guess"]["pos"])]
        v["angles"] = [a + b for a, b in zip(v["angles"], self.s["guess"]["angles"])]
        for k, d in (inner or {}).items():
            if k == "cc":
                v["int"][2] += d
            elif k in ("xh", "yh"):
                v["int"][("xh", "yh").index(k)] += d
            else:
                v["added"][FLAGS.index(k) - 3] += d
        return values.mk_calibration(v)

    def flags(self, names, use=0):
        f = api.OrientPar()
        f.useflag = use
        for n in names:
            setattr(f, n + "flag", 1)
        return f

    def projected(self, cal, dots=None):
        """The points in pixels, as a camera with this calibration sees them,
        projected independently."""
        v = cal if isinstance(cal, dict) else values.un_calibration(cal)
        g = np.array(v["glass"])
        n = math.sqrt(g @ g)
        z = g / n  # the frame of the glass
        x = np.cross([0.0, 1.0, 0.0] if abs(z[1]) < 0.8 else [1.0, 0.0, 0.0], z)
        x = x / math.sqrt(x @ x)
        R = np.array([x, np.cross(z, x), z])
        w = world.World(dict(self.s["world"], glass=n))
        w.cam[0] = {
            "pos": R @ np.array(v["pos"]),
            "angles": v["angles"],
            "dm": R @ values.rotation(v["angles"]),
            "xh": v["int"][0],
            "yh": v["int"][1],
            "cc": v["int"][2],
            "added": v["added"],
        }
        return {i: w.pixel(0, R @ self.pts[i]) for i in (range(self.n) if dots is None else dots)}

    # -- the best fit ---------------------------------------------------------

    STEPS = dict(cc=1e-4, xh=1e-4, yh=1e-4, k1=1e-6, k2=1e-9, k3=1e-12, p1=1e-7, p2=1e-7, scx=1e-5, she=1e-5)

    def moved(self, v, d, free, tilt):
        """The calibration v changed by d: position, angles, free ones, glass."""
        v = dict(v, pos=list(v["pos"]), angles=list(v["angles"]), int=list(v["int"]), added=list(v["added"]))
        for k in range(3):
            v["pos"][k] += d[k]
            v["angles"][k] += d[3 + k]
        for k, f in enumerate(free):
            if f == "cc":
                v["int"][2] += d[6 + k]
            elif f in ("xh", "yh"):
                v["int"][("xh", "yh").index(f)] += d[6 + k]
            else:
                v["added"][FLAGS.index(f) - 3] += d[6 + k]
        if tilt is not None:
            v["glass"] = (np.array(v["glass"]) + tilt.T @ d[6 + len(free) :]).tolist()
        return v

    def misfit(self, v, v0, dots, use, free):
        """What the adjustment minimises: how far the dots are off (mm), and how far the
        free inner parameters are from where they started."""
        proj = self.projected(v, use)
        r = []
        for i in use:
            r += [(dots[i].x - proj[i][0]) * self.w.pix, (dots[i].y - proj[i][1]) * self.w.piy]
        for f in free:
            if f in ("xh", "yh", "cc"):
                k = ("xh", "yh", "cc").index(f)
                r.append(v["int"][k] - v0["int"][k])
            else:
                k = FLAGS.index(f) - 3
                r.append(v["added"][k] - v0["added"][k])
        return np.array(r)

    def best(self, cal, start, dots, use, free, glass):
        """(misfit of cal, misfit of the best calibration near it), squared and summed."""
        v, v0 = values.un_calibration(cal), values.un_calibration(start)
        steps = [1e-4] * 3 + [1e-6] * 3 + [self.STEPS[f] for f in free]
        tilt = None
        if glass:
            g = np.array(v0["glass"])
            q = np.linalg.svd(g[None, :])[2][1:]  # two directions across the glass
            tilt = q
            steps += [1e-4, 1e-4]
        r = self.misfit(v, v0, dots, use, free)
        c0 = c = float(r @ r)
        for _ in range(5):
            J = np.empty((len(r), len(steps)))
            for k, h in enumerate(steps):
                d = np.zeros(len(steps))
                d[k] = h
                J[:, k] = (
                    self.misfit(self.moved(v, d, free, tilt), v0, dots, use, free)
                    - self.misfit(self.moved(v, -d, free, tilt), v0, dots, use, free)
                ) / (2 * h)
            n = np.maximum(np.linalg.norm(J, axis=0), 1e-12)
            d = np.linalg.lstsq(J / n, -r, rcond=1e-10)[0] / n
            nv = self.moved(v, d, free, tilt)
            nr = self.misfit(nv, v0, dots, use, free)
            if not nr @ nr < 0.999 * c:
                break
            v, r, c = nv, nr, float(nr @ nr)
        return c0, c


def bits(cal):
    """Everything a calibration holds, exactly."""
    v = values.un_calibration(cal)
    flat = []
    for k in sorted(v):
        for x in v[k]:
            flat += x if isinstance(x, list) else [x]
    return [float(x).hex() for x in flat]


def target_state(ts):
    return [
        (int(t.pnr), float(t.x), float(t.y), int(t.n), int(t.nx), int(t.ny), int(t.sumg), int(t.tnr))
        for t in ts
    ]


class Injected(Exception):
    """An error injected into the adjustment."""


@contextlib.contextmanager
def fault(spec, ctx):
    """Make the adjustment fail: its linear algebra, its projection or its patience.

    Only names of other modules are replaced; where the code no longer calls them,
    nothing is injected."""
    undo = []

    def patch(mod, name, new):
        undo.append((mod, name, getattr(mod, name)))
        setattr(mod, name, new)

    def failing(fn, n, make, what):
        left = [n]

        def call(*a, **k):
            left[0] -= 1
            if left[0] < 0:
                ctx.fault(what)
                left[0] = 1 << 60
                raise make()
            return fn(*a, **k)

        return call

    try:
        if spec:
            kind, n = spec
            if kind == "solver":
                import scipy.linalg

                patch(
                    scipy.linalg, "lstsq",
                    failing(
                        scipy.linalg.lstsq, n,
                        lambda: np.linalg.LinAlgError("injected"), "solver failed",
                    ),
                )
            elif kind == "inverse":
                boom = lambda: np.linalg.LinAlgError("injected")
                for f in ("inv", "pinv", "matrix_rank"):
                    patch(np.linalg, f, failing(getattr(np.linalg, f), n, boom, "inverse failed"))
            elif kind == "projection":
                m = api.module("imgcoord")
                if hasattr(m, "flat_image_coord"):
                    patch(
                        m, "flat_image_coord",
                        failing(m.flat_image_coord, n, lambda: MemoryError("injected"), "out of memory"),
                    )
            elif kind == "patience":
                m = api.module("orientation")
                if hasattr(m, "NUM_ITER"):
                    patch(m, "NUM_ITER", n)
                    ctx.fault("iterations cut short")
        yield
    finally:
        for mod, name, old in reversed(undo):
            setattr(mod, name, old)


FAULTS = [
    ("solver", [0, 1, 2, 3]),
    ("inverse", [0, 1]),
    ("projection", [0, 1, 7, 30, 100, 301, 777]),
    ("patience", [1, 1, 2]),
]


def gen_fault(rng):
    kind, ns = rng.choice(FAULTS)
    return [kind, rng.choice(ns)]


def valid_fault(f):
    return f is None or (len(f) == 2 and f[0] in dict(FAULTS) and f[1] >= (f[0] == "patience"))

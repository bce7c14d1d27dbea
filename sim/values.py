"""Values to store, generated as JSON and turned into the library's objects."""

import math
import os

from . import api


def coord(rng, lo=-50.0, hi=1500.0):
    k = rng.random()
    if k < 0.05:
        return 0.0
    if k < 0.1:
        return float(rng.randrange(-5, 2000))
    if k < 0.15:
        return round(rng.uniform(lo, hi), 4) * rng.choice([10.0, 100.0])
    return rng.choice([rng.uniform(lo, hi), round(rng.uniform(lo, hi), 3)])


def many(rng):
    """A large number, often a round one or next to it."""
    if rng.random() < 0.2:
        return rng.randrange(50, 2200)
    return rng.choice([64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048]) + rng.choice(
        [0, 0, -1, 1]
    )


def targets(rng, n=None):
    if n is None:
        n = rng.choice([0, 1, 1, 2, 3, 5, 8, 9, 10, 16, 17, 32, 40])
        if rng.random() < 0.03:
            n = many(rng)
    return [
        [
            rng.choice([i, i, -999, rng.randrange(0, 20000)]),
            coord(rng),
            coord(rng),
            rng.choice([0, 1, rng.randrange(1, 500), rng.randrange(1, 200000)]),
            rng.randrange(0, 200),
            rng.randrange(0, 200),
            rng.choice([0, rng.randrange(0, 5000), rng.randrange(0, 30_000_000)]),
            rng.choice([-1, i, rng.randrange(0, 20000)]),
        ]
        for i in range(n)
    ]


def mk_targets(rows):
    return [
        api.Target(
            pnr=r[0], x=r[1], y=r[2], n=r[3], nx=r[4], ny=r[5], sumg=r[6], tnr=r[7]
        )
        for r in rows
    ]


def un_targets(ts):
    return [
        [int(t.pnr), float(t.x), float(t.y), int(t.n), int(t.nx), int(t.ny)]
        + [int(t.sumg), int(t.tnr)]
        for t in ts
    ]


def targets_differ(want, got, tol=5.1e-5):
    if len(want) != len(got):
        return f"{len(want)} targets written, {len(got)} read"
    for i, (w, g) in enumerate(zip(want, got)):
        for k, name in enumerate(("pnr", "x", "y", "n", "nx", "ny", "sumg", "tnr")):
            ok = abs(w[k] - g[k]) <= tol + 1e-9 * abs(w[k]) if k in (1, 2) else w[k] == g[k]
            if not ok:
                return f"target {i}: {name} {w[k]!r} written, {g[k]!r} read"
    return None


def particles(rng, n=None, prev_n=5, next_n=5):
    """Rows of [x, y, z, p0..p3, prev, next, prio]."""
    if n is None:
        n = rng.choice([0, 1, 1, 2, 3, 6, 8, 12, 16, 30, 32])
        if rng.random() < 0.03:
            n = many(rng)
    out = []
    for i in range(n):
        p = [rng.choice([-1, rng.randrange(0, 3000)]) for _ in range(4)]
        out.append(
            [rng.choice([0.0, rng.uniform(-200, 200), rng.uniform(-1e4, 1e4)]) for _ in range(3)]
            + p
            + [
                rng.choice([-1, rng.randrange(0, 3000)]),
                rng.choice([-2, rng.randrange(0, 3000)]),
                rng.choice([0, 1, 2, 3, 4, 5]),
            ]
        )
    return out


def mk_path(rows, extra=0):
    """(correspondence array, path list), with `extra` unused rows at the end."""
    import numpy as np

    n = len(rows) + extra
    cor = np.recarray((n,), dtype=api.Corres_dtype)
    cor.nr = 0
    cor.p = -1
    path = []
    for i, r in enumerate(rows):
        cor[i].nr = i + 1
        cor[i].p = r[3:7]
        path.append(
            api.Pathinfo(
                x=np.array(r[:3], dtype=float), prev_frame=r[7], next_frame=r[8], prio=r[9]
            )
        )
    path += [api.Pathinfo() for _ in range(extra)]
    return cor, path


def un_path(cor, path):
    return [
        [float(v) for v in p.x]
        + [int(v) for v in c.p]
        + [int(p.prev_frame), int(p.next_frame), int(p.prio)]
        for c, p in zip(cor, path)
    ]


def path_differs(want, got, links=True, prio=True, tol=5.1e-4):
    if len(want) != len(got):
        return f"{len(want)} particles written, {len(got)} read"
    names = ("x", "y", "z", "p0", "p1", "p2", "p3", "prev", "next", "prio")
    for i, (w, g) in enumerate(zip(want, got)):
        w = list(w)
        if not links:
            w[7:9] = [-1, -2]
        if not prio:
            w[9] = 4
        for k, name in enumerate(names):
            ok = abs(w[k] - g[k]) <= tol + 1e-9 * abs(w[k]) if k < 3 else w[k] == g[k]
            if not ok:
                return f"particle {i}: {name} {w[k]!r} written, {g[k]!r} read"
    return None


def calibration(rng):
    a = lambda s: rng.uniform(-s, s)
    glass = [a(100), a(100), rng.choice([a(100), 50.0 + a(10)])]
    if sum(abs(g) for g in glass) < 1e-3:
        glass[2] = 1.0
    k = rng.random()
    add = [a(1e-2), a(1e-4), a(1e-6), a(1e-3), a(1e-3), 1 + a(0.05), a(0.05)]
    if k < 0.3:
        add = [0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0]
    elif k < 0.5:
        add = [a(1.0) for _ in range(7)]
    pick = lambda s, few: rng.choice(few) if rng.random() < 0.1 else a(s)
    turns = [0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 4.0, -6.0]
    return {
        "pos": [pick(1000, [0.0, -1.0, 12345.678, -99999.5, 1e-7]) for _ in range(3)],
        "angles": [pick(math.pi, turns) for _ in range(3)],
        "int": [a(5), a(5), rng.choice([rng.uniform(1, 200), rng.uniform(1, 200), 1000.5])],
        "glass": glass,
        "added": add,
    }


def mk_calibration(v):
    import numpy as np

    c = api.Calibration()
    c.set_pos(np.array(v["pos"], dtype=float))
    c.set_angles(np.array(v["angles"], dtype=float))
    c.set_primary_point(np.array(v["int"], dtype=float))
    c.set_glass_vec(np.array(v["glass"], dtype=float))
    c.set_added_par(np.array(v["added"], dtype=float))
    return c


def un_calibration(c):
    return {
        "pos": [float(x) for x in c.get_pos()],
        "angles": [float(x) for x in c.get_angles()],
        "int": [float(x) for x in c.get_primary_point()],
        "glass": [float(x) for x in c.get_glass_vec()],
        "added": [float(x) for x in c.added_par],
        "dm": [[float(x) for x in r] for r in c.get_rotation_matrix()],
    }


def rotation(angles):
    """The rotation matrix of omega, phi, kappa, written out independently."""
    import numpy as np

    o, p, k = angles
    rx = np.array([[1, 0, 0], [0, math.cos(o), -math.sin(o)], [0, math.sin(o), math.cos(o)]])
    ry = np.array([[math.cos(p), 0, math.sin(p)], [0, 1, 0], [-math.sin(p), 0, math.cos(p)]])
    rz = np.array([[math.cos(k), -math.sin(k), 0], [math.sin(k), math.cos(k), 0], [0, 0, 1]])
    return rx @ ry @ rz


def calibration_differs(want, got, added=True):
    tol = {"pos": 5.1e-9, "angles": 5.1e-9, "int": 5.1e-5, "glass": 1e-12, "added": 5.1e-9}
    for f, t in tol.items():
        w = want[f]
        if f == "added" and not added:
            w = [0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0]
        for i, (x, y) in enumerate(zip(w, got[f])):
            if abs(x - y) > t + 1e-12 * abs(x):
                return f"{f}[{i}] {x!r} written, {y!r} read"
        if len(w) != len(got[f]):
            return f"{f}: {len(got[f])} values read"
    import numpy as np

    if not np.allclose(rotation(want["angles"]), np.array(got["dm"]), atol=1e-6):
        return "rotation matrix isn't that of the angles"
    return None


def path_of(root, *parts):
    p = os.path.join(root, *parts)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    return p


def stable_state(cpar):
    """What a ControlPar holds, to compare it."""
    m = cpar.mm
    return [
        int(cpar.num_cams), list(cpar.img_base_name), int(cpar.imx), int(cpar.imy),
        float(cpar.pix_x), float(cpar.pix_y), int(m.nlay), float(m.n1),
        [float(x) for x in m.n2], float(m.n3), [float(x) for x in m.d],
    ]  # fmt: skip


def spoil(*things):
    """Alter objects that were read, as their owner may: what is read later, and what
    others hold, must not change with them."""
    import dataclasses

    import numpy as np

    for x in things:
        if isinstance(x, np.ndarray):
            if x.flags.writeable and x.size:
                if x.dtype.names:
                    for f in x.dtype.names:
                        x[f] = x[f] + 7
                else:
                    x += 7
        elif isinstance(x, (list, tuple)):
            spoil(*[v for v in x if not isinstance(v, (int, float, str))])
            if isinstance(x, list):
                for i, v in enumerate(x):
                    if isinstance(v, (int, float)):
                        x[i] = v + 7
                x += x[:1]
        elif isinstance(x, api.Calibration):
            for part in (x.ext_par, x.int_par):
                for f in part.dtype.names:
                    part[f] = part[f] + 7
            spoil(x.glass_par, x.added_par)
        elif dataclasses.is_dataclass(x):
            for f in dataclasses.fields(x):
                v = getattr(x, f.name)
                if isinstance(v, (list, np.ndarray)) or dataclasses.is_dataclass(v):
                    spoil(v)
                elif isinstance(v, (int, float)):
                    setattr(x, f.name, v + 7)

"""One instant of a simulated experiment, as the detectors report it, and a
reference for what the matcher should make of it.

A scene is JSON; bodies are seen with noise, by all cameras but those that are
dark or miss them, among ghosts.
"""

import itertools
import math
import random

import numpy as np

from . import api, world
from .core import expect


def shape(rng):
    nx, ny = rng.randrange(2, 12), rng.randrange(2, 12)
    return [max(1, int(nx * ny * 0.8)), nx, ny, rng.choice([50, 300, 1200, 4000])]


def gen(rng, cams=None, bodies=None, faults=True, ghosts=True):
    w = world.gen(rng, cams=cams)
    nc = len(w["cams"])
    k = bodies if bodies is not None else rng.choice([0, 1, 2, 3, 5, 8, 12])
    same = rng.random() < 0.5
    base = shape(rng)
    out = []
    for _ in range(k):
        p = [rng.uniform(-14, 14), rng.uniform(-14, 14), rng.uniform(-12, 12)]
        if out and rng.random() < 0.3:
            q = rng.choice(out)["p"]
            p = [x + rng.uniform(-1.5, 1.5) for x in q]
        out.append({"p": [round(x, 4) for x in p], "shape": base if same else shape(rng)})
    s = {
        "world": w,
        "bodies": out,
        "miss": [],
        "ghosts": [],
        "dark": [],
        "noise": rng.choice([0.0, 0.05, 0.3, 0.6]),
        "vary": rng.choice([0.0, 0.2, 0.6]),
        "nseed": rng.randrange(1 << 30),
    }
    if faults:
        rate = rng.choice([0.0, 0.1, 0.3])
        s["miss"] = [[c, i] for c in range(nc) for i in range(k) if rng.random() < rate]
        if rng.random() < 0.15:
            s["dark"] = [rng.randrange(nc)]
    if ghosts and rng.random() < 0.6:
        for c in range(nc):
            for _ in range(rng.choice([0, 1, 3, 8, 8, 25])):
                s["ghosts"].append(
                    [c, round(rng.uniform(3, w["imx"] - 3), 3), round(rng.uniform(3, w["imy"] - 3), 3)]
                    + (base if same else shape(rng))
                )
    return s


def params(rng, pix):
    out = {
        "eps0": rng.choice([0.5, 1.0, 2.0, 5.0]) * pix,
        "corrmin": rng.choice([0.0, 33.0, 33.0, 1e5, 1e6]),
        "cn": rng.choice([0.02, 0.02, 0.3, 0.6]),
        "all_cam": rng.choice([0, 0, 0, 1]),
        "zlim": rng.choice([15.0, 20.0, 30.0]),
    }
    if rng.random() < 0.3:  # other limits for each feature of a detection
        out["q"] = [rng.choice([0.02, 0.3, 0.5, 0.7]) for _ in range(4)]
    if rng.random() < 0.3:  # layers that aren't level: x, least z, greatest z
        out["lay"] = [
            [rng.choice([-60.0, -30.0]), rng.choice([30.0, 45.0])],
            [round(rng.uniform(-18, -15), 2) for _ in range(2)],
            [round(rng.uniform(14, 17), 2) for _ in range(2)],
        ]
        if rng.random() < 0.3:
            out["lay"][1] = [z + rng.choice([8.0, 11.0]) for z in out["lay"][1]]
    return out


def valid(s):
    nc = len(s["world"]["cams"])
    return (
        world.valid(s["world"])
        and nc >= 2
        and s["noise"] >= 0
        and 0 <= s["vary"] < 0.9
        and all(len(b["p"]) == 3 and len(b["shape"]) == 4 for b in s["bodies"])
        and all(x >= 1 for b in s["bodies"] for x in b["shape"])
        and all(len(m) == 2 for m in s["miss"])
        and all(len(g) == 7 and 0 <= g[0] < nc and min(g[3:]) >= 1 for g in s["ghosts"])
        and valid_crowd(s.get("crowd"))
    )


def valid_crowd(c):
    return c is None or (
        0 <= c["n"] < 9900 and len(c["shape"]) == 4 and min(c["shape"]) >= 1 and type(c["right"]) is bool
    )


def crowd(rng, s):
    """Many ghosts in the last camera, perhaps all of them right of what is real there."""
    n = rng.choice([8191, 8190, int(10 ** rng.uniform(1.5, 3.5)), int(10 ** rng.uniform(1.5, 3.5))])
    sh = s["bodies"][0]["shape"] if rng.random() < 0.3 else [5000, 80, 80, 60000]
    return {"n": n, "right": rng.random() < 0.6, "shape": sh}


def valid_params(p):
    return (
        p["eps0"] > 0
        and p["corrmin"] >= 0
        and all(0 < q < 1 for q in features(p))
        and len(features(p)) == 4
        and 5 < p["zlim"] < 34
        and all(
            len(x) == 2 and x[1] - x[0] > 40 and abs(lo[0] - lo[1]) < 4 and abs(hi[0] - hi[1]) < 4
            and -40 < min(lo) and max(lo) + 2 < min(hi) and max(hi) < 20
            for x, lo, hi in [lay(p)] if "lay" in p
        )
    )  # fmt: skip


def features(p):
    """The least ratios of n, nx, ny, sumg."""
    return p.get("q") or [p["cn"]] * 4


def lay(p):
    return p.get("lay") or [[-60.0, 60.0], [-p["zlim"]] * 2, [p["zlim"]] * 2]


class Scene:
    def __init__(self, s, ctx=None):
        self.s = s
        self.w = w = world.World(s["world"])
        self.nc = w.num_cams
        self.rows = []  # per camera: [x, y, n, nx, ny, sumg, body or -1]
        miss = {tuple(m) for m in s["miss"]}
        for c in range(self.nc):
            rows = []
            for i, b in enumerate(s["bodies"]):
                rng = random.Random(f"{s['nseed']}/{c}/{i}")
                xy = w.pixel(c, b["p"])
                xy = [xy[0] + rng.uniform(-1, 1) * s["noise"], xy[1] + rng.uniform(-1, 1) * s["noise"]]
                sh = [max(1, int(x * (1 + rng.uniform(-1, 1) * s["vary"]))) for x in b["shape"]]
                if not w.inside(c, xy) or c in s["dark"] or (c, i) in miss:
                    if ctx and w.inside(c, xy):
                        ctx.fault("camera dark" if c in s["dark"] else "detection missed")
                    continue
                rows.append([round(xy[0], 4), round(xy[1], 4)] + sh + [i])
            for g in s["ghosts"]:
                if g[0] == c and c not in s["dark"]:
                    rows.append(g[1:] + [-1])
                    if ctx:
                        ctx.fault("ghost detection")
            crowd = s.get("crowd")
            if crowd and c == self.nc - 1 and c not in s["dark"]:
                rng = random.Random(f"{s['nseed']}/crowd")
                left = min((r[0] for r in rows), default=13.0) if crowd["right"] else 13.0
                while len(rows) < crowd["n"]:
                    x, y = rng.uniform(left, w.imx - 13), rng.uniform(13, w.imy - 13)
                    rows.append([round(x, 4), round(y, 4)] + crowd["shape"] + [-1])
                if ctx:
                    ctx.fault("crowd of ghosts")
            rows.sort(key=lambda r: (r[1], r[0]))
            self.rows.append(rows)

    def targets(self, orders=None, tnr=-1):
        """The library's targets, in the order of the rows or the given orders."""
        out = []
        for c in range(self.nc):
            o = orders[c] if orders else range(len(self.rows[c]))
            out.append(
                [
                    api.Target(pnr=k, x=r[0], y=r[1], n=r[2], nx=r[3], ny=r[4], sumg=r[5], tnr=tnr)
                    for k, r in enumerate(self.rows[c][i] for i in o)
                ]
            )
        return out

    def vpar(self, p):
        v = self.w.vpar(eps0=p["eps0"], corrmin=p["corrmin"])
        v.cn, v.cnx, v.cny, v.csumg = features(p)
        v.x_lay, v.z_min_lay, v.z_max_lay = (list(x) for x in lay(p))
        return v

    def used_before(self, earlier, p, ctx):
        """(cals, cpar), which matched the same targets in an earlier set-up, if any."""

        def use(then, cals, cpar):
            T = self.targets()
            cor = [api.match_coords(t, cpar, cal) for t, cal in zip(T, cals)]
            api.correspondences(self.frame(T), cor, self.vpar(p), cpar, cals, [0] * 4)
            ctx.probe("objects altered between uses")

        return self.w.used_before(earlier, use)

    def matched(self, targets, cals=None, cpar=None):
        """(x-sorted flat coordinates, the same per row of targets)."""
        cpar = cpar or self.w.cpar()
        cor, flat = [], []
        for c, t in enumerate(targets):
            m = api.match_coords(t, cpar, (cals or self.w.cals())[c])
            expect(
                sorted(int(q.pnr) for q in m) == list(range(len(t))),
                "targets lost",
                f"camera {c}: {[int(q.pnr) for q in m]} for {len(t)} targets",
            )
            expect(
                all(m[k].x <= m[k + 1].x for k in range(len(m) - 1)),
                "flat coordinates not sorted",
                f"camera {c}",
            )
            f = [None] * len(t)
            for q in m:
                f[int(q.pnr)] = (float(q.x), float(q.y))
            cor.append(m)
            flat.append(f)
        return cor, flat

    def frame(self, targets):
        f = api.Frame(self.nc, max([4] + [len(t) for t in targets]))
        for c, t in enumerate(targets):
            f.targets[c] = t
            f.num_targets[c] = len(t)
        return f


SLACK = 5e-5  # mm: how closely the ends of epipolar lines are iterated
FLAT = 1e-2  # mm: how closely the library takes the distortion back (with a shear)


class Reference:
    """Edges and cliques between the rows of a scene, computed independently, but for
    taking back the distortion: the library's flat coordinates are used if they are
    close to the exact ones."""

    def __init__(self, sc, p, flat=None):
        self.sc, self.p = sc, p
        w = sc.w
        self.flat = [[w.undistort(c, r[:2]) for r in sc.rows[c]] for c in range(sc.nc)]
        for c in range(sc.nc if flat else 0):
            for i, (a, b) in enumerate(zip(self.flat[c], flat[c])):
                expect(
                    max(abs(a[0] - b[0]), abs(a[1] - b[1])) < FLAT,
                    "flat coordinates off",
                    f"camera {c} target {i}: {b}, should be {a}",
                )
        if flat:
            self.flat = flat
        self.edges = {}  # (c1, c2) -> {(i, j): (d, corr, sure)}
        for c1, c2 in itertools.combinations(range(sc.nc), 2):
            self.edges[c1, c2] = self.pair(c1, c2)

    def pair(self, c1, c2):
        sc, p, w = self.sc, self.p, self.sc.w
        out = {}
        F2 = np.array(self.flat[c2]).reshape(-1, 2)
        if not len(F2):
            return out
        eps = p["eps0"]
        x, low, high = lay(p)
        for i, f1 in enumerate(self.flat[c1]):
            # the depths where the sight line enters the tank
            share = (w.ray(c1, f1, [w.spec["glass"]])[0][0] - x[0]) / (x[1] - x[0])
            ends = [l[0] + share * (l[1] - l[0]) for l in (low, high)]
            a, b = (np.array(w.flat(c2, q)) for q in w.ray(c1, f1, ends))
            u = b - a
            n = math.sqrt(u @ u)
            d = np.abs((F2[:, 0] - a[0]) * u[1] - (F2[:, 1] - a[1]) * u[0]) / n
            lo, hi = np.minimum(a, b), np.maximum(a, b)
            # how far inside the search window
            room = np.min(np.minimum(F2 - (lo - eps), (hi + eps) - F2), axis=1)
            room = np.minimum(room, eps - d)
            for j in np.flatnonzero(room > -SLACK):
                r, t = sc.rows[c1][i], sc.rows[c2][j]
                q = [min(x, y) / max(x, y) for x, y in zip(r[2:6], t[2:6])]
                above = min(x - y for x, y in zip(q, features(p)))
                if above < -1e-9 or q[3] <= features(p)[3] + 1e-12:
                    if above > -1e-9:
                        out[i, int(j)] = (float(d[j]), 0.0, False)
                    continue
                corr = (4 * q[3] + 2 * q[0] + q[1] + q[2]) * (r[5] + t[5])
                sure = room[j] > SLACK and w.inside(c2, t[:2], 12) and above > 1e-9
                out[i, int(j)] = (float(d[j]), corr, bool(sure))
        return out

    def borderline(self):
        return any(not e[2] for t in self.edges.values() for e in t.values())

    def crowded(self):
        for t in self.edges.values():
            count = {}
            for i, j in t:
                count[i] = count.get(i, 0) + 1
            if count and max(count.values()) > 35:
                return True
        return False

    def score(self, cl):
        """Bounds of the correlation measure of a clique {camera: row}."""
        d = c = 0.0
        m = 0
        for c1, c2 in itertools.combinations(sorted(cl), 2):
            e = self.edges[c1, c2][cl[c1], cl[c2]]
            d, c, m = d + e[0], c + e[1], m + 1
        hi = c / (d - m * SLACK) if d > m * SLACK else math.inf
        return c / (d + m * SLACK), hi

    def cliques(self, k, cams=None):
        """All consistent cliques of k cameras."""
        out = []
        for cs in itertools.combinations(range(self.sc.nc), k):
            part = [{cs[0]: i} for i in range(len(self.sc.rows[cs[0]]))]
            for c in cs[1:]:
                near = {}
                for i, j in self.edges[cs[0], c]:
                    near.setdefault(i, []).append(j)
                nxt = []
                for cl in part:
                    for j in sorted(near.get(cl[cs[0]], ())):
                        if all((i, j) in self.edges[b, c] for b, i in cl.items()):
                            nxt.append({**cl, c: j})
                part = nxt
            out += part
        return [{int(c): int(j) for c, j in cl.items()} for cl in out]

    def pairs(self):
        """Pairs where the first one has no other candidate."""
        out = []
        for (c1, c2), t in self.edges.items():
            for i, j in t:
                if sum(1 for a, _ in t if a == i) == 1:
                    out.append({c1: i, c2: j})
        return out

    def solve(self):
        """(cliques, ambiguous): best first, larger ones first; ambiguous when two
        that exclude each other are too close to call."""
        used = set()
        taken = []
        nc, allc = self.sc.nc, self.p["all_cam"]
        kinds = []
        if nc == 4:
            kinds.append(4)
        if nc == 3 or (nc == 4 and not allc):
            kinds.append(3)
        if not allc:
            kinds.append(2)
        for k in kinds:
            cand = self.pairs() if k == 2 else self.cliques(k)
            if len(cand) > 20000:
                return taken, True
            cand = [(self.score(cl), tuple(sorted(cl.items()))) for cl in cand]
            cand = [x for x in cand if not any(t in used for t in x[1])]
            lim = self.p["corrmin"]
            for (lo, hi), cl in cand:
                if lo <= lim * (1 + 1e-9) < hi * (1 + 2e-9):
                    return taken, True
            cand = [x for x in cand if x[0][0] > lim]
            cand.sort(key=lambda x: -x[0][0])
            who = {}
            for n, (sc, cl) in enumerate(cand):
                for t in cl:
                    for m in who.get(t, ()):
                        # an earlier one that shares a target
                        if cand[m][0][0] <= sc[1] * (1 + 1e-9):
                            return taken, True
                    who.setdefault(t, []).append(n)
            for sc, cl in cand:
                if any(t in used for t in cl):
                    continue
                used.update(cl)
                taken.append(cl)
        return taken, False

"""Scenes for tracking: what the detectors and the matcher report of a world in
which particles move, with cameras dropping out, detections missing, ghosts and
failed matches; the files the tracker works on; and how to run it.

Files are written and parsed independently of the library.
"""

import math
import os
import random

import numpy as np

from . import api, refparse, world
from .disk import SimCrash

POINT = [25, 5, 5, 1200]


def limits(t):
    """Lower and upper limits of the velocity, along x, y and z."""
    a = np.array(t.get("lim") or [-t["v"], t["v"]] * 3)
    return a[::2], a[1::2]


def well(t, d, share=1.0, gap=0.0):
    """Is a step within the limits, or the given share of them, by that much?"""
    lo, hi = limits(t)
    return bool(np.all((share * lo + gap < d) & (d < share * hi - gap)))


def track_par(t):
    lo, hi = limits(t)
    out = {f"dv{x}{m}": float(v[i]) for m, v in (("min", lo), ("max", hi)) for i, x in enumerate("xyz")}
    return {**out, "dangle": t["dangle"], "dacc": t["dacc"], "add": t["add"]}


def tparams(rng, add=None):
    v = rng.choice([1.0, 1.5, 2.5, 4.0])
    lim = None
    if rng.random() < 0.4:  # each way another limit
        few = [0.3, 0.7, 1.0, 1.0, 1.5]
        lim = [round(s * v * rng.choice(few) * rng.uniform(0.9, 1), 3) for s in (-1, 1) * 3]
    return {
        "v": v,
        "lim": lim,
        "dacc": round(v * rng.choice([0.25, 0.5, 0.8]), 3),
        "dangle": rng.choice([40.0, 80.0, 120.0]),
        "add": rng.choice([0, 0, 1]) if add is None else add,
    }


def gen(rng, n_parts=None, frames=None, faults=True, add=None, spread=14.0, cams=None):
    w = world.gen(rng, cams=cams)
    n = frames or rng.choice([4, 5, 5, 6, 7])
    tp = tparams(rng, add)
    k = n_parts if n_parts is not None else rng.choice([1, 2, 3, 3, 4, 5])
    vmax = 0.7 * tp["v"]
    base = [rng.uniform(-vmax, vmax) * 0.5 for _ in range(3)]
    parts = []
    for i in range(k):
        p = [rng.uniform(-spread, spread) for _ in range(2)] + [rng.uniform(-10, 10)]
        if parts and rng.random() < 0.4:  # close to another one
            q = rng.choice(parts)["p"]
            s = rng.choice([0.5, 1.0, 2.0]) * tp["v"]
            p = [x + rng.uniform(-s, s) for x in q]
        parts.append(
            {
                "p": [round(x, 4) for x in p],
                "v": [round(b + rng.uniform(-vmax, vmax) * 0.4, 4) for b in base],
                "a": [round(rng.gauss(0, 0.05 * tp["dacc"]), 4) for _ in range(3)]
                if rng.random() < 0.5
                else [0.0, 0.0, 0.0],
                "from": rng.choice([0, 0, 0, rng.randrange(n)]),
                "to": rng.choice([n, n, n, rng.randrange(1, n + 1)]),
            }
        )
    s = {
        "world": w,
        "first": rng.choice([0, 1, 8, 97, 998, 9997, 10001, 99997]),
        "n": n,
        "parts": parts,
        "miss": [],
        "unmatched": [],
        "ghosts": [],
        "phantoms": [],
        "dark": [],
        "noise": rng.choice([0.0, 0.0, 0.05, 0.2]),
        "nseed": rng.randrange(1 << 30),
        "tpar": tp,
        "prio": rng.random() < 0.7,
    }
    if not faults:
        return s
    nc = len(w["cams"])
    kinds = [k for k in ("miss", "unmatched", "ghosts", "phantoms", "dark") if rng.random() < 0.5]
    rate = rng.choice([0.05, 0.15, 0.3])
    for f in range(n):
        for i in range(k):
            if "unmatched" in kinds and rng.random() < rate:
                s["unmatched"].append([f, i])
            for c in range(nc):
                if "miss" in kinds and rng.random() < rate:
                    s["miss"].append([f, c, i])
        if "ghosts" in kinds:
            for c in range(nc):
                for _ in range(rng.choice([0, 0, 1, 3, 3, 12])):
                    s["ghosts"].append(
                        [f, c, round(rng.uniform(5, w["imx"] - 5), 2), round(rng.uniform(5, w["imy"] - 5), 2)]
                    )
        if "phantoms" in kinds and rng.random() < 0.3:
            q = rng.choice(parts) if parts and rng.random() < 0.6 else {"p": [0, 0, 0], "v": [0, 0, 0]}
            s["phantoms"].append(
                [f] + [round(x + f * v + rng.uniform(-2, 2) * tp["v"], 4) for x, v in zip(q["p"], q["v"])]
            )
    if "dark" in kinds:
        c = rng.randrange(nc)
        a = rng.randrange(n)
        s["dark"].append([c, a, rng.randrange(a, n) + 1])
    return s


def valid(s):
    if not world.valid(s["world"]) or not 4 <= s["n"] <= 12 or s["first"] < 0:
        return False
    nc = len(s["world"]["cams"])
    if nc < 2 or s["tpar"]["v"] <= 0 or s["tpar"]["dacc"] <= 0 or s["tpar"]["dangle"] <= 0:
        return False
    lim = s["tpar"].get("lim") or [-1, 1] * 3
    if len(lim) != 6 or max(lim[::2]) >= 0 or min(lim[1::2]) <= 0:
        return False
    for p in s["parts"]:
        if any(len(p[k]) != 3 for k in "pva"):
            return False
        for k in ("kink", "surge"):
            if k in p and (len(p[k]) != 2 or len(p[k][1]) != 3):
                return False
    if any(len(m) != 3 or not 0 <= m[1] < nc for m in s["miss"]):
        return False
    if any(len(g) != 4 or not 0 <= g[1] < nc for g in s["ghosts"]):
        return False
    if any(len(g) != 4 for g in s["phantoms"]) or any(len(u) != 2 for u in s["unmatched"]):
        return False
    if not 2 <= s.get("zlim", 20.0) <= 20:
        return False
    return all(len(d) == 3 and 0 <= d[0] < nc for d in s["dark"]) and s["noise"] >= 0


def where(part, f):
    f = max(0, f - part.get("rest", 0))
    k, dv = part.get("kink", (0, (0.0, 0.0, 0.0)))
    t = max(0, f - k)
    k, ds = part.get("surge", (0, (0.0, 0.0, 0.0)))
    w = max(0, f - k)
    w = w * (w + 1) / 2
    return np.array(
        [
            p + v * f + 0.5 * a * f * f + u * t + x * w
            for p, v, a, u, x in zip(part["p"], part["v"], part["a"], dv, ds)
        ]
    )


def swarm(rng, s):
    """A fast particle, and where it was a crowd that has nothing to do with it."""
    t = s["tpar"]
    t["dacc"] = round(0.25 * t["v"], 3)
    if not s["parts"]:
        return
    p = s["parts"][0]
    d = [rng.choice([-1, 1]) * rng.uniform(0.7, 0.9) * t["v"] for _ in range(2)] + [
        rng.uniform(-0.5, 0.5) * t["v"]
    ]
    p.update({"from": 0, "to": s["n"], "a": [0.0] * 3, "v": [round(x, 4) for x in d]})
    for f in range(2, s["n"]):
        at = where(p, f - 1)
        for _ in range(rng.choice([4, 5, 6])):
            off = [rng.uniform(-0.25, 0.25) * t["v"] for _ in range(3)]
            s["phantoms"].append([f] + [round(float(x + o), 4) for x, o in zip(at, off)])


def surge(rng, s):
    """The first particle speeds up so that only two more frames justify its link."""
    t = s["tpar"]
    t["dacc"] = round(rng.uniform(0.15, 0.25) * t["v"], 3)
    if not s["parts"]:
        return
    if s["n"] < 5:
        return
    d = [rng.choice([-1, 0, 1]) for _ in range(3)]
    m = math.sqrt(sum(x * x for x in d)) or 1.0
    a = rng.uniform(1.02, 1.15) * t["dacc"]
    v = rng.uniform(0.05, 0.4) * t["v"]
    s["parts"][0].update(
        {"from": 0, "to": s["n"], "a": [0.0] * 3, "v": [round(x / m * v, 4) for x in d]}
    )
    s["parts"][0]["surge"] = [rng.randrange(2, s["n"] - 2), [round(x / m * a, 4) for x in d]]
    if rng.random() < 0.3:
        del s["parts"][1:]


def kink(rng, s):
    """A particle changes its way, isn't matched two frames later, and another one
    is near where it should be then."""
    k = rng.randrange(1, s["n"] - 2)
    t = s["tpar"]
    i = rng.randrange(len(s["parts"])) if s["parts"] else None
    if i is None:
        return
    p = s["parts"][i]
    p.update({"from": 0, "to": s["n"], "a": [0.0] * 3})
    r = rng.uniform(0.5, 0.95) * t["dacc"]
    u = [rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 0.5)]
    q = math.sqrt(sum(x * x for x in u)) or 1.0
    p["kink"] = [k, [round(x / q * r, 4) for x in u]]
    p["v"] = [round(max(-1, min(1, x / t["v"])) * 0.4 * t["v"], 4) for x in p["v"]]
    f = k + 2
    if f >= s["n"]:
        return
    if [f, i] not in s["unmatched"]:
        s["unmatched"].append([f, i])
    s["miss"] = [m for m in s["miss"] if m[0] > f or m[2] != i]
    s["unmatched"] = [m for m in s["unmatched"] if m[1] != i or m[0] >= f]
    at = where(p, f)
    off = [rng.choice([-1, 1]) * rng.uniform(0.5, 0.9) * t["v"] for _ in range(3)]
    s["phantoms"].append([f] + [round(float(x + o), 4) for x, o in zip(at, off)])


class Scene:
    """The frames of a scene, as they are stored."""

    def __init__(self, s, ctx=None):
        self.s = s
        self.w = w = world.World(s["world"])
        self.first, self.last = s["first"], s["first"] + s["n"] - 1
        self.frames = []
        nc = w.num_cams
        miss = {tuple(m) for m in s["miss"]}
        unmatched = {tuple(u) for u in s["unmatched"]}
        for f in range(s["n"]):
            rng = random.Random(f"{s['nseed']}/{f}")
            dark = {c for c, a, b in s["dark"] if a <= f < b}
            bodies = [
                (i, where(p, f), True)
                for i, p in enumerate(s["parts"])
                if p["from"] <= f < p["to"]
            ] + [
                (-1 - k, np.array(g[1:]), True)
                for k, g in enumerate(s["phantoms"])
                if g[0] == f
            ]
            rows = [[] for _ in range(nc)]  # [x, y, body index or None]
            seen = []
            for b, (ident, pos, _) in enumerate(bodies):
                cams = []
                for c in range(nc):
                    # drawn in any case, so that faults don't shift the noise
                    e = [rng.uniform(-1, 1) * s["noise"] for _ in range(2)]
                    xy = w.pixel(c, pos)
                    xy = xy[0] + e[0], xy[1] + e[1]
                    if not w.inside(c, xy):
                        continue
                    if (f, c, ident) in miss or c in dark:
                        if ctx:
                            ctx.fault("camera dark" if c in dark else "detection missed")
                        continue
                    cams.append(c)
                    rows[c].append([round(xy[0], 4), round(xy[1], 4), b])
                seen.append(cams)
            for g in s["ghosts"]:
                if g[0] == f and g[1] not in dark:
                    rows[g[1]].append([g[2], g[3], None])
                    if ctx:
                        ctx.fault("ghost detection")
            order = [
                b
                for b in range(len(bodies))
                if len(seen[b]) >= 2 and (f, bodies[b][0]) not in unmatched
            ]
            if ctx:
                for b in range(len(bodies)):
                    if (f, bodies[b][0]) in unmatched and len(seen[b]) >= 2:
                        ctx.fault("match missed")
                    if bodies[b][0] < 0:
                        ctx.fault("phantom particle")
            rng.shuffle(order)
            index = {b: k for k, b in enumerate(order)}
            targets = []
            p = [[-1] * 4 for _ in order]
            for c in range(nc):
                rows[c].sort(key=lambda r: (r[1], r[0]))
                t = []
                for k, (x, y, b) in enumerate(rows[c]):
                    tnr = index.get(b, -1) if b is not None else -1
                    if tnr >= 0:
                        p[tnr][c] = k
                    t.append([k, x, y] + POINT + [tnr])
                targets.append(t)
            noise3 = s["noise"] * w.pix * 5
            parts = []
            for k, b in enumerate(order):
                r = random.Random(f"{s['nseed']}/{f}/{bodies[b][0]}")
                x = [round(float(q) + r.uniform(-1, 1) * noise3, 3) for q in bodies[b][1]]
                parts.append(x + p[k])
            self.frames.append(
                {
                    "parts": parts,
                    "ids": [bodies[b][0] for b in order],
                    "targets": targets,
                    # bodies seen by two cameras but not matched
                    "loose": [
                        bodies[b][0]
                        for b in range(len(bodies))
                        if len(seen[b]) >= 2 and b not in index
                    ],
                    "cams": {bodies[b][0]: len(seen[b]) for b in range(len(bodies))},
                }
            )

    # -- files --------------------------------------------------------------

    def vpar(self):
        return self.w.vpar(zlim=self.s.get("zlim", 20.0))

    def names(self, root):
        b = os.path.join(root, "res", "rt_is")
        return (
            b,
            os.path.join(root, "res", "ptv_is"),
            os.path.join(root, "res", "added") if self.s["prio"] else "",
        )

    def bases(self, root):
        return [os.path.join(root, "img", f"cam{c}.%05d") for c in range(self.w.num_cams)]

    def store(self, root, only=None):
        """Write the frames as detection and matching leave them."""
        os.makedirs(os.path.join(root, "res"), exist_ok=True)
        os.makedirs(os.path.join(root, "img"), exist_ok=True)
        for k, f in enumerate(self.frames):
            if only is not None and k not in only:
                continue
            n = self.first + k
            out = [f"{len(f['parts'])}\n"]
            for i, r in enumerate(f["parts"]):
                out.append(
                    "%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n" % tuple([i + 1] + r)
                )
            _put(os.path.join(root, "res", f"rt_is.{n}"), "".join(out))
            for c, t in enumerate(f["targets"]):
                out = [f"{len(t)}\n"]
                for r in t:
                    out.append("%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n" % tuple(r))
                _put(os.path.join(root, "img", "cam%d.%05d_targets" % (c, n)), "".join(out))

    def store_links(self, root, links):
        """Write links, [prev, next, prio] per particle and frame."""
        for k, f in enumerate(self.frames):
            n = self.first + k
            lines = [
                "%d %d %.3f %.3f %.3f" % tuple(x[:2] + r[:3])
                for x, r in zip(links[k], f["parts"])
            ]
            head = f"{len(lines)}\n"
            _put(
                os.path.join(root, "res", f"ptv_is.{n}"),
                head + "".join(x + "\n" for x in lines),
            )
            if self.s["prio"]:
                _put(
                    os.path.join(root, "res", f"added.{n}"),
                    head + "".join(f"{x} {y[2]}\n" for x, y in zip(lines, links[k])),
                )

    def run(self, root, kit=None):
        """A tracking run on the files in root; kit: (cals, cpar) to use."""
        s, t = self.s, self.s["tpar"]
        w = self.w
        cals, cpar = kit or (w.cals(), w.cpar())
        tpar = api.convert_track_par_to_tuple(
            api.TrackPar(**track_par(t))
        )
        seq = api.SequencePar(
            img_base_name=self.bases(root), first=self.first, last=self.last
        )
        return api.TrackingRun(
            seq, tpar, self.vpar(), cpar, 4, 64, *self.names(root), cals, 1e-4
        )

    def result(self, root, links=True):
        """The stored frames: {"rows", "targets"} or None where a file is damaged."""
        out = []
        for k in range(self.s["n"]):
            n = self.first + k
            res = lambda name: _get(os.path.join(root, "res", f"{name}.{n}"))
            rows = refparse.path(
                res("rt_is"), res("ptv_is"), res("added"), links, links and self.s["prio"]
            )
            targets = [
                refparse.targets(
                    _get(os.path.join(root, "img", "cam%d.%05d_targets" % (c, n)))
                )
                for c in range(self.w.num_cams)
            ]
            out.append({"rows": rows, "targets": targets})
        return out


_open = open


def _put(path, text):
    import io

    with io.FileIO(path, "w") as f:
        f.write(text.encode())


def _get(path):
    import io

    try:
        with io.FileIO(path, "r") as f:
            return f.read()
    except FileNotFoundError:
        return None


class Stepper:
    """Forward tracking, one step at a time; `at` is the frame being worked on."""

    def __init__(self, scene, root, kit=None):
        self.scene = scene
        self.root = root
        self.kit = kit
        self.at = None
        self.done = False

    def step(self):
        sc = self.scene
        if self.at is None:
            self.tr = sc.run(self.root, self.kit)
            api.track_forward_start(self.tr)
            self.at = sc.first
        elif self.at < sc.last:
            api.trackcorr_c_loop(self.tr, self.at)
            self.at += 1
        else:
            api.trackcorr_c_finish(self.tr, sc.last)
            self.done = True
        return not self.done

    def all(self):
        while self.step():
            pass
        return self


def backward(scene, root, kit=None):
    api.trackback_c(scene.run(root, kit))


def check_links(scene, out, expect, slack=None):
    """Structural consistency of the links of a tracked sequence."""
    n = scene.s["n"]
    links = 0
    for k in range(n):
        f = scene.first + k
        expect(out[k]["rows"] is not None, "frame not written", f"frame {f}")
    for k in range(n):
        f = scene.first + k
        rows = out[k]["rows"]
        for i, r in enumerate(rows):
            prev, nxt = r[7], r[8]
            if k == 0:
                expect(prev == -1, "link into nothing", f"first frame, particle {i}: prev {prev}")
            if k == n - 1:
                expect(nxt == -2, "link into nothing", f"last frame, particle {i}: next {nxt}")
            expect(nxt == -2 or nxt >= 0, "bad link", f"frame {f} particle {i}: next {nxt}")
            expect(prev == -1 or prev >= 0, "bad link", f"frame {f} particle {i}: prev {prev}")
            if nxt >= 0:
                links += 1
                there = out[k + 1]["rows"]
                expect(nxt < len(there), "link into nothing", f"frame {f} particle {i}: next {nxt} of {len(there)}")
                expect(
                    there[nxt][7] == i,
                    "link not mutual",
                    f"frame {f} particle {i}: next {nxt}, whose prev is {there[nxt][7]}",
                )
                if slack is not None:
                    lo, hi = limits(scene.s["tpar"])
                    for d in range(3):
                        v = there[nxt][d] - r[d]
                        expect(
                            lo[d] - slack - 2e-3 <= v <= hi[d] + slack + 2e-3,
                            "link too fast",
                            f"frame {f} particle {i} -> {nxt}: {v} along axis {d}",
                        )
            if prev >= 0 and k > 0:
                back = out[k - 1]["rows"]
                expect(prev < len(back), "link into nothing", f"frame {f} particle {i}: prev {prev} of {len(back)}")
                expect(
                    back[prev][8] == i,
                    "link not mutual",
                    f"frame {f} particle {i}: prev {prev}, whose next is {back[prev][8]}",
                )
    return links

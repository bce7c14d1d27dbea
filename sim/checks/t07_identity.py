"""T07: forward tracking follows particles, and only where there is evidence."""

import math

import numpy as np

from .. import tracking as tk
from ..core import Check, expect
from ..disk import SimDisk
from .t06_backward import angle

EPS = 0.01  # mm, rounding of stored positions and of extrapolations
MAX_CANDS = 4


class Evidence:
    """What could justify a link, from the frames as stored."""

    def __init__(self, sc, out):
        self.sc, self.out = sc, out
        self.n = sc.s["n"]
        self.t = sc.s["tpar"]
        self.pos = [np.array([r[:3] for r in o["rows"]]).reshape(-1, 3) for o in out]
        self.free = [
            [
                np.array([t[1:3] for t in cam if t[7] == -1]).reshape(-1, 2)
                for cam in f["targets"]
            ]
            for f in sc.frames
        ]
        self.used = [
            [
                np.array([t[1:3] for t in cam if t[7] != -1]).reshape(-1, 2)
                for cam in o["targets"]
            ]
            for o in out
        ]
        self._px = {}

    def pixel(self, c, p):
        key = (c, float(p[0]), float(p[1]), float(p[2]))
        if key not in self._px:
            self._px[key] = np.array(self.sc.w.pixel(c, p))
        return self._px[key]

    def third(self, k, p):
        """Detections of no particle in two cameras at p in frame k?"""
        cams = 0
        for c in range(self.sc.w.num_cams):
            f = self.free[k][c]
            if len(f) and np.min(np.max(np.abs(f - self.pixel(c, p)), axis=1)) < 4.0:
                cams += 1
        return cams >= 2

    def prev(self, k, a):
        i = self.out[k]["rows"][a][7]
        return self.pos[k - 1][i] if i >= 0 else None

    def possible(self, k, a, c):
        """Whether anything justifies a link from a in frame k to c in the next."""
        x1, x3 = self.pos[k][a], self.pos[k + 1][c]
        x0 = self.prev(k, a)
        first = None
        if x0 is not None:
            first = self.at_least(x1, 2 * x1 - x0, x3)
            if self.fair(*first):
                return True
            x5 = 0.5 * (5 * x3 - 4 * x1 + x0)
        else:
            x5 = 2 * x3 - x1
        if k + 2 >= self.n:
            return True  # no frame follows; what stands in for it isn't judged
        for x4 in self.pos[k + 2]:
            if tk.well(self.t, x4 - x3, 1.0, -EPS):
                second = self.at_least(x3, x4, x5)
                acc, ang = np.mean([first or second, second], axis=0)
                if self.fair(acc, ang):
                    return True
        return self.third(k + 2, x5)

    def slack(self, start, pred, cand):
        """By how much an angle may be off."""
        least = min(np.linalg.norm(pred - start), np.linalg.norm(cand - start))
        return 400 / math.pi * math.asin(EPS / least) + 0.01 if least > EPS else 200.0

    def at_least(self, start, pred, cand):
        """How far a step is off, and by what angle, if rounding errors are in its favour."""
        acc, ang = float(np.linalg.norm(pred - cand)), angle(start, pred, cand)
        return max(0.0, acc - EPS), max(0.0, ang - self.slack(start, pred, cand))

    def at_most(self, start, pred, cand):
        acc, ang = float(np.linalg.norm(pred - cand)), angle(start, pred, cand)
        return acc + EPS, min(200.0, ang + self.slack(start, pred, cand))

    def cost(self, dl, acc, ang, cams):
        """How badly a link fits, as tracking weighs it."""
        lo, hi = tk.limits(self.t)
        return (
            dl / float(np.linalg.norm(hi - lo)) + acc / self.t["dacc"] + ang / self.t["dangle"]
        ) / cams

    def seen(self, k, i):
        return sum(p >= 0 for p in self.out[k]["rows"][i][3:7])

    def best_case(self, k, a, c):
        """The least that a link from a in frame k to c in the next can cost."""
        x1, x3, x0 = self.pos[k][a], self.pos[k + 1][c], self.prev(k, a)
        least = math.inf
        first = None
        step = float(np.linalg.norm(x3 - x1)) - EPS
        if x0 is not None:
            first = self.at_least(x1, 2 * x1 - x0, x3)
            if self.fair(*first):
                dl = (step + float(np.linalg.norm(x1 - x0))) / 2
                least = self.cost(dl, *first, self.seen(k + 1, c))
        x5 = 2 * x3 - x1 if x0 is None else 0.5 * (5 * x3 - 4 * x1 + x0)
        if self.third(k + 2, x5):
            return -math.inf
        for e, x4 in enumerate(self.pos[k + 2]):
            if tk.well(self.t, x4 - x3, 1.0, -EPS):
                second = self.at_least(x3, x4, x5)
                acc, ang = np.mean([first or second, second], axis=0)
                if self.fair(acc, ang):
                    dl = (step + float(np.linalg.norm(x4 - x3))) / 2
                    cams = self.seen(k + 1, c) + self.seen(k + 2, e)
                    least = min(least, self.cost(dl, acc, ang, cams))
        return least

    def worst_case(self, k, a, c):
        """The most it can cost; infinite when there needn't be a link."""
        x1, x3, x0 = self.pos[k][a], self.pos[k + 1][c], self.prev(k, a)
        x2 = x1 if x0 is None else 2 * x1 - x0
        if not tk.well(self.t, x3 - x1, 0.95) or not tk.well(self.t, x3 - x2, 0.93):
            return math.inf
        cams = self.found(k, a, k + 1, c, x2, x0 is None)
        x5 = 2 * x3 - x1 if x0 is None else 0.5 * (5 * x3 - 4 * x1 + x0)
        if cams < 2 or not self.in_view(x5):
            return math.inf
        least = math.inf
        first = None if x0 is None else self.at_most(x1, x2, x3)
        for e, x4 in enumerate(self.pos[k + 2]):
            if not tk.well(self.t, x4 - x3, 0.97) or not tk.well(self.t, x4 - x5, 0.93):
                continue
            second = self.at_most(x3, x4, x5)
            acc, ang = np.mean([first or second, second], axis=0)
            if self.good(acc, ang):
                more = self.found(None, None, k + 2, e, x5, False)
                if more >= 2:
                    dl = (float(np.linalg.norm(x3 - x1)) + float(np.linalg.norm(x4 - x3))) / 2
                    least = min(least, self.cost(dl + EPS, acc, ang, cams + more))
        return least

    def fair(self, acc, ang):
        return acc < self.t["dacc"] and ang < self.t["dangle"] or acc < self.t["dacc"] / 10

    def must(self, k, a, c):
        """Whether the continuation of a at c is well within the limits."""
        t = self.t
        x1, x3 = self.pos[k][a], self.pos[k + 1][c]
        x0 = self.prev(k, a)
        if not tk.well(t, x3 - x1, 0.95):
            return None
        x2 = x1 if x0 is None else 2 * x1 - x0
        if not tk.well(t, x3 - x2, 0.93):
            return None
        if not self.found(k, a, k + 1, c, x2, x0 is None):
            return None
        if x0 is not None:
            acc0 = float(np.linalg.norm(x3 - x2))
            ang0 = angle(x1, x2, x3)
            if self.good(acc0, ang0):
                return "prediction"
        if k + 2 >= self.n:
            return None
        x5 = 2 * x3 - x1 if x0 is None else 0.5 * (5 * x3 - 4 * x1 + x0)
        if not self.in_view(x5):
            return None
        for e in range(len(self.pos[k + 2])):
            x4 = self.pos[k + 2][e]
            if not tk.well(t, x4 - x3, 0.97):
                continue
            if not tk.well(t, x4 - x5, 0.93):
                continue
            acc, ang = float(np.linalg.norm(x4 - x5)), angle(x3, x5, x4)
            if x0 is not None:
                acc, ang = (acc + acc0) / 2, (ang + ang0) / 2
            if self.good(acc, ang) and self.found(None, None, k + 2, e, x5, False):
                return "next frame"
        if t["add"]:
            return None
        # detections that were not matched
        f = self.sc.frames[k + 2]
        for ident in f["loose"]:
            if ident < 0:
                continue
            x4 = tk.where(self.sc.s["parts"][ident], k + 2)
            acc, ang = float(np.linalg.norm(x4 - x5)), angle(x3, x5, x4)
            if self.sc.s["noise"] > 0.05 or not tk.well(t, x4 - x3, 0.95, 0.05 + 2 * self.sc.s["noise"]):
                continue
            if not (acc < 0.6 * t["dacc"] and (ang < 0.8 * t["dangle"] - 1 or acc < 0.05 * t["dacc"])):
                continue
            if max(abs(x4)) > 18 or abs(x4[2]) > self.sc.s.get("zlim", 20.0) - 2:  # the volume
                continue
            clear = True
            cams = 0
            for c in range(self.sc.w.num_cams):
                p5, p4 = self.pixel(c, x5), self.pixel(c, x4)
                fr = self.free[k + 2][c]
                d = np.max(np.abs(fr - p5), axis=1) if len(fr) else np.array([])
                close = int(np.sum(d < 4.0))
                mine = len(fr) and np.min(np.max(np.abs(fr - p4), axis=1)) < 0.2
                if mine:
                    if np.max(np.abs(p4 - p5)) < 2.5 and close == 1:
                        cams += 1
                    else:
                        clear = False
                elif close:
                    clear = False
            if clear and cams >= 2:
                return "detections"
        return None

    def good(self, acc, ang):
        t = self.t
        return acc < 0.9 * t["dacc"] and ang < t["dangle"] - 1 or acc < 0.09 * t["dacc"]

    def in_view(self, p):
        return all(self.sc.w.inside(c, self.pixel(c, p), 5) for c in range(self.sc.w.num_cams))

    def found(self, k, a, kc, c, center, at_target):
        """In how many cameras c is among the nearest detections to the centre of the
        search, if in two at least."""
        if not self.in_view(center):
            return 0
        cams = 0
        row = self.out[kc]["rows"][c]
        for cam in range(self.sc.w.num_cams):
            j = row[3 + cam]
            if j < 0:
                continue
            xy = np.array(self.out[kc]["targets"][cam][j][1:3])
            if at_target:
                i = self.out[k]["rows"][a][3 + cam]
                mid = (
                    np.array(self.out[k]["targets"][cam][i][1:3])
                    if i >= 0
                    else self.pixel(cam, center)
                )
            else:
                mid = self.pixel(cam, center)
            u = self.used[kc][cam]
            d = np.linalg.norm(u - mid, axis=1)
            if int(np.sum(d < np.linalg.norm(xy - mid) + 0.5)) <= MAX_CANDS:
                cams += 1
        return cams if cams >= 2 else 0


def judge(sc, out, ctx):
    """Hold every link, and every missing one, against the stored frames."""
    for k, o in enumerate(out):
        expect(
            o["rows"] is not None and all(t is not None for t in o["targets"]),
            "frame not written",
            f"frame {sc.first + k}",
        )
    ev = Evidence(sc, out)
    for k in range(sc.s["n"] - 1):
        n = sc.first + k
        a_n, c_n = len(out[k]["rows"]), len(out[k + 1]["rows"])
        for a in range(a_n):
            c = out[k]["rows"][a][8]
            if 0 <= c < c_n:
                ctx.probe("links")
                expect(
                    ev.possible(k, a, c),
                    "link without evidence",
                    lambda: f"frame {n} particle {a} {ev.pos[k][a].tolist()} -> {c} "
                    f"{ev.pos[k + 1][c].tolist()}, previous: {out[k]['rows'][a][7]}",
                )
        can = {
            a: [c for c in range(c_n) if ev.possible(k, a, c)]
            for a in range(a_n)
        }
        for a in range(a_n):
            if len(can[a]) != 1:
                continue
            c = can[a][0]
            if any(c in can[b] for b in range(a_n) if b != a):
                continue
            why = ev.must(k, a, c)
            if why is None:
                continue
            ctx.probe(f"had to be linked: {why}")
            expect(
                out[k]["rows"][a][8] == c,
                "particle lost",
                lambda: f"frame {n} particle {a} {ev.pos[k][a].tolist()}: next "
                f"{out[k]['rows'][a][8]}, the only one that continues it is {c} "
                f"{ev.pos[k + 1][c].tolist()} ({why})",
            )
        if k + 2 >= sc.s["n"]:
            continue
        for a in range(a_n):
            for c in can[a]:
                other = [(a, d) for d in can[a] if d != c] + [
                    (b, c) for b in range(a_n) if b != a and c in can[b]
                ]
                cost = ev.worst_case(k, a, c) if other else math.inf
                if cost < min((ev.best_case(k, *o) for o in other), default=0.0):
                    ctx.probe("had to be linked: best of several")
                    expect(
                        out[k]["rows"][a][8] == c,
                        "worse continuation",
                        lambda: f"frame {n} particle {a} {ev.pos[k][a].tolist()}: next "
                        f"{out[k]['rows'][a][8]}, but {c} fits best: {cost}, not "
                        f"{[(o, ev.best_case(k, *o)) for o in other]}",
                    )
    ctx.event("links", [[r[7:9] for r in o["rows"]] for o in out])


def rivals(rng):
    """Particles so near to each other that they could be taken for one another."""
    s = tk.gen(rng, n_parts=rng.choice([2, 2, 3, 4]), add=rng.choice([0, 0, 1]), faults=False)
    t = s["tpar"]
    few = rng.random() < 0.5  # also some that are there for a frame
    near = rng.choice([0.3, 0.6, 1.0, 1.5]) * t["dacc"]
    first = s["parts"][0]
    for p in s["parts"]:
        p.update({"from": 0, "to": s["n"]})
        if p is not first:
            p["p"] = [round(x + rng.uniform(-near, near), 4) for x in first["p"]]
            p["v"] = [round(x + rng.uniform(-0.3, 0.3) * near, 4) for x in first["v"]]
        for f in range(1, s["n"]):
            if few and rng.random() < 0.3:
                at = tk.where(p, f)
                s["phantoms"].append([f] + [round(float(x + rng.uniform(-near, near)), 4) for x in at])
    return s


class T07(Check):
    pid = "T07"
    quick_runs = 700
    thorough_runs = 30000
    jit_share = 12
    rule = (
        "simulated sequences with faults, among crowds of ghosts, with particles that speed up, "
        "stop and pass each other, are tracked forward; every link is held against the stored "
        "frames around it, and every particle with a single justified continuation must be "
        "linked to it, and one that fits best to that; non-trivial when a fault struck or several "
        "continuations were possible, and a link had to be made"
    )
    real = ["TrackingRun", "trackcorr_c_loop", "candidate search", "projection and intersection"]
    stub = ["cameras, detection and matching: simulated with seeded faults", "disk: seeded buffer size"]
    time_unit = "frames tracked"

    def gen(self, rng, index):
        if rng.random() < 0.25:
            return {"scene": rivals(rng), "buf": rng.choice([16, 200, 8192])}
        s = tk.gen(rng, n_parts=rng.choice([1, 2, 3, 4, 5, 7]), add=rng.choice([0, 0, 0, 1]))
        v = s["tpar"]["v"]
        for p in s["parts"]:
            if rng.random() < 0.25:  # speeds up, or slows down, on a straight line
                d = rng.choice([[0, 0, 1], [1, 0, 0], [0, 1, 0], [1, 1, 0], [1, -2, 1], [1, 1, 1]])
                m = max(abs(x) for x in d)
                p["v"] = [round(x / m * v * 0.4, 3) for x in d]
                q = rng.choice([0.1, -0.1, 0.2]) * s["tpar"]["dacc"] / v
                p["a"] = [round(x * q, 4) for x in p["v"]]
            if rng.random() < 0.15:
                p["rest"] = rng.choice([1, 2, 3])
        if rng.random() < 0.3:
            # crowds all over the images, or above or below what is tracked
            lo, hi = rng.choice([(0.0, 1.0), (0.0, 0.25), (0.75, 1.0), (0.75, 1.0)])
            for f in range(s["n"]):
                for c in range(len(s["world"]["cams"])):
                    for _ in range(rng.choice([10, 30, 31, 40, 62, 63, 126, 130])):
                        s["ghosts"].append(
                            [
                                f, c,
                                round(rng.uniform(5, s["world"]["imx"] - 5), 2),
                                round(5 + rng.uniform(lo, hi) * (s["world"]["imy"] - 10), 2),
                            ]
                        )
        k = rng.random()
        if k < 0.15:
            tk.swarm(rng, s)
        elif k < 0.35:
            tk.surge(rng, s)
        return {"scene": s, "buf": rng.choice([16, 200, 8192])}

    def valid(self, case):
        return tk.valid(case["scene"])

    def run(self, case, ctx):
        sc = tk.Scene(case["scene"], ctx)
        with SimDisk(ctx.scratch, ctx, case["buf"]):
            sc.store(ctx.scratch)
            tk.Stepper(sc, ctx.scratch).all()
        ctx.sim_time += sc.s["n"]
        out = sc.result(ctx.scratch)
        judge(sc, out, ctx)

    def nontrivial(self, case, ctx):
        return any(k.startswith("had to be linked: best") for k in ctx.probes) or (
            bool(ctx.faults) and any(k.startswith("had") for k in ctx.probes)
        )

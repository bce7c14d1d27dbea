"""T08: particles out of each other's reach are tracked as if the others weren't there."""

import math
import os

import numpy as np

from .. import tracking as tk
from ..core import Check, expect
from ..disk import SimDisk


def reach(sc):
    """How near, in pixels, what a particle is tracked with must be to it."""
    t = sc.s["tpar"]
    step = 3 * math.sqrt(3) * float(np.max(np.abs(tk.limits(t)))) + 3 * t["dacc"]
    far = 0.0
    for c in range(sc.w.num_cams):
        for p in ([0, 0, 0], [0, 0, 15]):
            a = np.array(sc.w.pixel(c, p))
            for d in ([step, 0, 0], [0, step, 0], [0, 0, step]):
                far = max(far, float(np.linalg.norm(np.array(sc.w.pixel(c, np.add(p, d))) - a)))
    return 1.2 * far + 30.0


class Groups:
    """The particles and targets of a scene, split into groups out of each other's reach."""

    def __init__(self, sc):
        self.sc = sc
        nc = sc.w.num_cams
        lim = reach(sc)
        where = [[] for _ in range(nc)]  # per camera: (entity, x, y)
        self.part, self.target = {}, {}
        n = 0
        for k, f in enumerate(sc.frames):
            for i, r in enumerate(f["parts"]):
                self.part[k, i] = n
                for c in range(nc):
                    where[c].append((n,) + tuple(sc.w.pixel(c, r[:3])))
                    if r[3 + c] >= 0:
                        self.target[k, c, r[3 + c]] = n
                n += 1
            for c in range(nc):
                for j, t in enumerate(f["targets"][c]):
                    if (k, c, j) not in self.target:
                        self.target[k, c, j] = n
                        n += 1
                    where[c].append((self.target[k, c, j], t[1], t[2]))
        root = list(range(n))

        def find(a):
            while root[a] != a:
                root[a] = root[root[a]]
                a = root[a]
            return a

        for c in range(nc):
            if not where[c]:
                continue
            xy = np.array([w[1:] for w in where[c]])
            for i, w in enumerate(where[c]):
                for j in np.flatnonzero(np.hypot(*(xy[i:] - xy[i]).T) < lim):
                    a, b = find(w[0]), find(where[c][i + int(j)][0])
                    if a != b:
                        root[a] = b
        self.of = [find(a) for a in range(n)]

    def names(self):
        """The groups with particles."""
        return sorted({self.of[e] for e in self.part.values()})


class Only(tk.Scene):
    """A scene of which only some groups are there."""

    def __init__(self, groups, keep):
        sc = groups.sc
        self.s, self.w, self.first, self.last = sc.s, sc.w, sc.first, sc.last
        self.frames = []
        self.parts_of, self.targets_of = [], []  # indices in the whole scene
        nc = sc.w.num_cams
        for k, f in enumerate(sc.frames):
            ps = [i for i in range(len(f["parts"])) if groups.of[groups.part[k, i]] in keep]
            ts = [
                [j for j in range(len(f["targets"][c])) if groups.of[groups.target[k, c, j]] in keep]
                for c in range(nc)
            ]
            tmap = [{j: n for n, j in enumerate(x)} for x in ts]
            pmap = {i: n for n, i in enumerate(ps)}
            parts, targets = [], []
            for i in ps:
                r = list(f["parts"][i])
                for c in range(nc):
                    r[3 + c] = tmap[c][r[3 + c]] if r[3 + c] >= 0 else -1
                parts.append(r)
            for c in range(nc):
                targets.append([])
                for n, j in enumerate(ts[c]):
                    t = list(f["targets"][c][j])
                    targets[c].append([n] + t[1:7] + [pmap[t[7]] if t[7] >= 0 else -1])
            self.frames.append({"parts": parts, "targets": targets})
            self.parts_of.append(ps)
            self.targets_of.append(ts)


def named(sc, out):
    """Per frame: {name of a particle: (position, names of next and previous, rest)}, where
    names don't depend on what else is in the frame."""
    nc = sc.w.num_cams
    whole = not isinstance(sc, Only)
    names = []
    for k, o in enumerate(out):
        row = []
        n = len(sc.frames[k]["parts"])
        for i, r in enumerate(o["rows"]):
            t = tuple(
                -1 if r[3 + c] < 0 else r[3 + c] if whole else sc.targets_of[k][c][r[3 + c]]
                for c in range(nc)
            )
            if i < n:
                row.append(("p", i if whole else sc.parts_of[k][i]))
            else:
                row.append(("added", t))
        names.append(row)
    res = []
    for k, o in enumerate(out):
        d = {}
        for name, r in zip(names[k], o["rows"]):
            prev = names[k - 1][r[7]] if r[7] >= 0 and k else r[7]
            nxt = names[k + 1][r[8]] if r[8] >= 0 and k + 1 < len(out) else r[8]
            t = tuple(
                -1 if r[3 + c] < 0 else r[3 + c] if whole else sc.targets_of[k][c][r[3 + c]]
                for c in range(nc)
            )
            d[name] = (tuple(r[:3]), t, prev, nxt, tuple(r[9:]))
        res.append(d)
    return res


class T08(Check):
    pid = "T08"
    quick_runs = 700
    thorough_runs = 30000
    jit_share = 0
    rule = (
        "simulated sequences with faults are tracked, forward and some backward as well; those whose particles and "
        "detections fall into groups out of each other's reach in every camera are tracked "
        "again group by group, and every particle must come out as before; non-trivial when "
        "there were several groups and a link was made"
    )
    real = ["TrackingRun", "trackcorr_c_loop", "trackback_c", "candidate search", "FrameBuf and its files"]
    stub = ["cameras, detection and matching: simulated with seeded faults", "disk: seeded buffer size"]
    time_unit = "frames tracked"

    def gen(self, rng, index):
        s = tk.gen(
            rng, n_parts=rng.choice([2, 2, 3, 4, 5]), add=rng.choice([0, 1, 1]), spread=rng.choice([20.0, 26.0])
        )
        if rng.random() < 0.6:
            v = rng.choice([0.5, 1.0, 1.0])
            f = v / s["tpar"]["v"]
            if s["tpar"].get("lim"):
                s["tpar"]["lim"] = [round(x * f, 3) for x in s["tpar"]["lim"]]
            s["tpar"].update(v=v, dacc=round(s["tpar"]["dacc"] * f, 3))
            for p in s["parts"]:
                p["v"] = [round(x * f, 4) for x in p["v"]]
                p["a"] = [round(x * f, 4) for x in p["a"]]
        s["ghosts"] = s["ghosts"][: rng.choice([0, 3, 10, 40])]
        if s["tpar"]["add"] and rng.random() < 0.7:
            for f in range(1, s["n"]):
                for i in range(len(s["parts"])):
                    if rng.random() < 0.2 and [f, i] not in s["unmatched"]:
                        s["unmatched"].append([f, i])
        if s["tpar"]["add"] and rng.random() < 0.3:
            # frames in which the matching found next to nothing
            for f in rng.sample(range(2, s["n"]), min(rng.choice([1, 1, 2]), s["n"] - 2)):
                for i in range(len(s["parts"])):
                    if rng.random() < 0.95 and [f, i] not in s["unmatched"]:
                        s["unmatched"].append([f, i])
        if rng.random() < 0.3:
            tk.kink(rng, s)
        return {"scene": s, "buf": rng.choice([16, 200, 8192]), "back": rng.random() < 0.4, "split": rng.randrange(1 << 20)}

    def valid(self, case):
        return tk.valid(case["scene"])

    def track(self, sc, root, case, ctx):
        sc.store(root)
        tk.Stepper(sc, root).all()
        if case["back"]:
            tk.backward(sc, root)
        ctx.sim_time += sc.s["n"]
        return named(sc, sc.result(root))

    def run(self, case, ctx):
        sc = tk.Scene(case["scene"], ctx)
        groups = Groups(sc)
        names = groups.names()
        ctx.probe("groups", len(names))
        if len(names) < 2:
            ctx.event("one group")
            return
        a = {g for n, g in enumerate(names) if (case["split"] >> n) & 1} or {names[0]}
        b = set(names) - a or {names[-1]}
        with SimDisk(ctx.scratch, ctx, case["buf"]):
            whole = self.track(sc, os.path.join(ctx.scratch, "whole"), case, ctx)
            seen = [set() for _ in whole]
            for n, keep in enumerate((a, b)):
                part = self.track(Only(groups, keep), os.path.join(ctx.scratch, f"part{n}"), case, ctx)
                for k, d in enumerate(part):
                    seen[k] |= set(d)
                    for name, got in sorted(d.items()):
                        what = f"frame {sc.first + k} particle {name}"
                        expect(
                            name in whole[k], "particle missing in company", lambda: f"{what}: alone {got}"
                        )
                        expect(
                            whole[k][name] == got,
                            "particle tracked otherwise in company",
                            lambda: f"{what}: alone {got}, with others {whole[k][name]}",
                        )
                        if name[0] == "added":
                            ctx.probe("particles added")
                        if got[3] != -2:
                            ctx.probe("links")
            for k, d in enumerate(whole):
                more = set(d) - seen[k]
                expect(
                    not more or len(names) > 2 and not a | b >= set(names),
                    "particle only there in company",
                    lambda: f"frame {sc.first + k}: {sorted(more)}",
                )
        ctx.event([[(n, g[2:4]) for n, g in sorted(d.items())] for d in whole])

    def nontrivial(self, case, ctx):
        return bool(ctx.probes.get("links"))

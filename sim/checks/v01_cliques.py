"""V01: every match is consistent, and uses each detection once."""

import itertools

from .. import api, matching as mt, world
from ..core import Check, expect


def cliques_of(sc, con, counts, cor):
    """[{camera: target}] from what correspondences() returned."""
    out = []
    for i in range(counts[3]):
        cl = {}
        for c in range(sc.nc):
            k = int(con[i].p[c])
            if k < 0:
                continue
            expect(
                k < len(cor[c]), "match with nothing", f"clique {i}: {k} in camera {c} of {len(cor[c])}"
            )
            cl[c] = int(cor[c][k].pnr)
        out.append(cl)
    return out


class V01(Check):
    pid = "V01"
    quick_runs = 3000
    thorough_runs = 100000
    jit_share = 0
    rule = (
        "scenes of up to 12 bodies and crowds of ghosts, with missed detections, dark cameras and "
        "noise, are matched, up to three times with different parameters on the same targets; "
        "every clique is held against epipolar lines computed independently; non-trivial when "
        "cliques were found and a fault struck"
    )
    real = ["match_coords", "correspondences", "py_correspondences", "epipolar lines"]
    stub = ["cameras and detection: simulated with seeded faults"]
    time_unit = "frames matched"

    def gen(self, rng, index):
        s = mt.gen(rng)
        return {
            "scene": s,
            "earlier": world.earlier(rng, s["world"]),
            "rounds": [mt.params(rng, s["world"]["pix"]) for _ in range(rng.choice([1, 1, 2, 3]))],
            "wrapped": rng.random() < 0.08,
        }

    def valid(self, case):
        return (
            mt.valid(case["scene"])
            and world.valid_earlier(case["earlier"], case["scene"]["world"])
            and case["rounds"]
            and all(mt.valid_params(p) for p in case["rounds"])
        )

    def run(self, case, ctx):
        sc = mt.Scene(case["scene"], ctx)
        cals, mine = sc.used_before(case["earlier"], case["rounds"][0], ctx)
        T = sc.targets()
        cor, flat = sc.matched(T, cals, mine)
        for n, p in enumerate(case["rounds"]):
            ref = mt.Reference(sc, p, flat)
            mine.all_cam_flag = p["all_cam"]
            cpar, vpar = mine, sc.vpar(p)
            before = [[(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg) for t in ts] for ts in T]
            if case["wrapped"]:
                counts, cl = self.wrapped(sc, T, cor, cals, vpar, cpar)
            else:
                counts = [0] * 4
                con = api.correspondences(sc.frame(T), cor, vpar, cpar, cals, counts)
                cl = cliques_of(sc, con, counts, cor)
            ctx.sim_time += 1
            after = [[(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg) for t in ts] for ts in T]
            expect(before == after, "detections changed", f"round {n}")
            self.sound(sc, ref, p, T, counts, cl, n)
            for k in (4, 3, 2):
                ctx.probe(f"cliques of {k}", sum(1 for x in cl if len(x) == k))
            ctx.event(n, counts, [sorted(x.items()) for x in cl])
        ctx.probe("matched again", len(case["rounds"]) - 1)
        if case["wrapped"]:
            c = case["scene"]["nseed"] % sc.nc
            self.alone(sc, T[c], cor[c], flat[c], cals[c], mine, c)
            ctx.probe("one camera alone")

    def alone(self, sc, T, cor, flat, cal, cpar, c):
        """One camera: every detection is a match, once."""
        xy, num = api.module("tracking_frame_buf").matched_coords_as_arrays(cor)
        expect(
            all((float(a), float(b)) == flat[int(k)] for (a, b), k in zip(xy, num))
            and len(xy) == len(num) == len(T),
            "coordinates of another detection",
            f"camera {c}",
        )
        cpar.num_cams = 1
        pos, ids, n = api.py_correspondences([T], [cor], [cal], sc.w.vpar(), cpar)
        cpar.num_cams = sc.nc
        ok = n == len(T) and len(pos) == len(ids) == 1
        ok = ok and pos[0].shape == (1, n, 2) and ids[0].shape == (1, n)
        expect(ok, "match of one camera has a wrong shape", f"camera {c}: {n} of {len(T)}")
        for k in range(n):
            j = int(ids[0][0, k])
            expect(0 <= j < n, "match with nothing", f"camera {c} alone: {j} of {n}")
            expect(
                tuple(pos[0][0, k]) == (T[j].x, T[j].y),
                "position of another target",
                f"camera {c} alone, target {j}: {pos[0][0, k]}",
            )
            expect(T[j].tnr == k, "target numbered wrongly", f"camera {c} alone, target {j}: {T[j].tnr}, is match {k}")
        expect(len({int(x) for x in ids[0][0]}) == n, "detection used twice", f"camera {c} alone")

    def wrapped(self, sc, T, cor, cals, vpar, cpar):
        pos, ids, num = api.py_correspondences(T, cor, cals, vpar, cpar)
        expect(
            len(pos) == len(ids) == sc.nc - 1, "wrong number of clique sizes", f"{len(pos)}, {len(ids)}"
        )
        counts, cl = [0, 0, 0, num], []
        for k, (ps, js) in enumerate(zip(pos, ids)):
            counts[4 - sc.nc + k] = js.shape[1]
            for i in range(js.shape[1]):
                one = {}
                for c in range(sc.nc):
                    j = int(js[c, i])
                    if j < 0:
                        expect(tuple(ps[c, i]) == (-999, -999), "position of nothing", f"{ps[c, i]}")
                        continue
                    expect(j < len(T[c]), "match with nothing", f"target {j} of camera {c}")
                    expect(
                        (ps[c, i, 0], ps[c, i, 1]) == (T[c][j].x, T[c][j].y),
                        "position of another target",
                        f"camera {c} target {j}: {ps[c, i]}",
                    )
                    one[c] = j
                cl.append(one)
        return counts, cl

    def sound(self, sc, ref, p, T, counts, cl, n):
        where = lambda i: f"round {n} clique {i} {cl[i]}"
        expect(
            counts[3] == sum(counts[:3]) == len(cl), "counts don't add up", f"round {n}: {list(counts)}"
        )
        sizes = [4] * counts[0] + [3] * counts[1] + [2] * counts[2]
        if sc.nc == 4 and p["all_cam"]:
            expect(not counts[1] and not counts[2], "partial match with all cameras asked for", f"{counts}")
        used = {}
        for i, c in enumerate(cl):
            expect(
                len(c) == sizes[i], "clique of a wrong size", lambda: f"{where(i)} among those of {sizes[i]}"
            )
            for t in c.items():
                expect(
                    t not in used, "detection used twice", lambda: f"{where(i)} and {where(used[t])}"
                )
                used[t] = i
            for a, b in itertools.combinations(sorted(c), 2):
                expect(
                    (c[a], c[b]) in ref.edges[a, b],
                    "match off its epipolar line",
                    lambda: f"{where(i)}: cameras {a} and {b}",
                )
            lo, hi = ref.score(c)
            expect(
                hi * (1 + 1e-6) > p["corrmin"],
                "match below the least correlation",
                lambda: f"{where(i)}: {hi}",
            )
        for c in range(sc.nc):
            for j, t in enumerate(T[c]):
                want = used.get((c, j), -1)
                expect(
                    t.tnr == want,
                    "target numbered wrongly",
                    f"round {n} camera {c} target {j}: {t.tnr}, is in clique {want}",
                )

    def nontrivial(self, case, ctx):
        return bool(ctx.faults) and any(k.startswith("cliques") and v for k, v in ctx.probes.items())

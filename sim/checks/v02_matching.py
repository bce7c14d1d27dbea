"""V02: matching finds what a reference model finds."""

import random

from .. import api, matching as mt, world
from ..core import Check, expect
from .v01_cliques import cliques_of


class V02(Check):
    pid = "V02"
    quick_runs = 3000
    thorough_runs = 100000
    jit_share = 0
    rule = (
        "scenes with detection faults are matched and compared with a reference that builds all "
        "consistent cliques from independent epipolar lines and takes the best ones; the same "
        "scene is matched again with the detections in another order; non-trivial when the "
        "reference decides the scene (nothing on a threshold) and finds cliques"
    )
    real = ["match_coords", "correspondences", "epipolar lines", "candidate search"]
    stub = ["cameras and detection: simulated with seeded faults"]
    time_unit = "frames matched"

    def gen(self, rng, index):
        if rng.random() < 0.025:
            s = mt.gen(rng, bodies=rng.choice([1, 2, 3, 5]), ghosts=False)
            s["crowd"] = mt.crowd(rng, s)
        else:
            s = mt.gen(rng)
        nc = len(s["world"]["cams"])
        par = mt.params(rng, s["world"]["pix"])
        if rng.random() < (0.4 if nc == 4 else 0.2):
            self.rivals(rng, s, par)
        if s["bodies"] and rng.random() < 0.04:
            self.row(rng, s)
        if "crowd" not in s and rng.random() < 0.06:  # a crowd, mostly in one camera
            sh = s["bodies"][0]["shape"] if s["bodies"] else mt.shape(rng)
            for c in range(nc):
                for _ in range(rng.choice([0, 10, 150]) if nc < 4 else rng.choice([0, 60])):
                    s["ghosts"].append(
                        [c, round(rng.uniform(3, s["world"]["imx"] - 3), 3),
                         round(rng.uniform(3, s["world"]["imy"] - 3), 3)] + sh
                    )
        return {
            "scene": s,
            "earlier": world.earlier(rng, s["world"]),
            "par": par,
            "shuffle": rng.randrange(1 << 20) if rng.random() < 0.4 else None,
        }

    def rivals(self, rng, s, par):
        """Ghosts next to bodies, so that cliques compete."""
        w = world.World(s["world"])
        far = rng.choice([0.3, 0.8, 0.8, 2.0]) * par["eps0"] / s["world"]["pix"]
        for b in s["bodies"]:
            for c in range(w.num_cams):
                if rng.random() < 0.5:
                    xy = [x + rng.uniform(-far, far) for x in w.pixel(c, b["p"])]
                    if w.inside(c, xy):
                        sh = [max(1, int(x * rng.uniform(0.6, 1.4))) for x in b["shape"]]
                        sh[3] = max(1, int(sh[3] * rng.choice([0.3, 1.0, 1.0, 4.0])))
                        s["ghosts"].append([c] + [round(x, 3) for x in xy] + sh)

    def row(self, rng, s):
        """Ghosts all along the line on which a camera sees what another one sees."""
        w = world.World(s["world"])
        a, b = sorted(rng.sample(range(w.num_cams), 2))
        body = rng.choice(s["bodies"])
        flat = w.flat(a, body["p"])
        for _ in range(rng.randrange(10, 35)):
            xy = w.pixel(b, w.ray(a, flat, [rng.uniform(-12, 12)])[0])
            if w.inside(b, xy):
                s["ghosts"].append([b] + [round(x, 3) for x in xy] + body["shape"])

    def valid(self, case):
        return (
            mt.valid(case["scene"])
            and mt.valid_params(case["par"])
            and world.valid_earlier(case["earlier"], case["scene"]["world"])
        )

    def match(self, sc, p, kit, orders=None):
        cals, cpar = kit
        cpar.all_cam_flag = p["all_cam"]
        T = sc.targets(orders)
        cor, flat = sc.matched(T, cals, cpar)
        counts = [0] * 4
        con = api.correspondences(sc.frame(T), cor, sc.vpar(p), cpar, cals, counts)
        cl = [tuple(sorted(c.items())) for c in cliques_of(sc, con, counts, cor)]
        if orders:
            cl = [tuple((c, orders[c][j]) for c, j in x) for x in cl]
            flat = [[f for _, f in sorted(zip(o, fl))] for o, fl in zip(orders, flat)]
        return cl, flat

    def run(self, case, ctx):
        sc = mt.Scene(case["scene"], ctx)
        p = case["par"]
        kit = sc.used_before(case["earlier"], p, ctx)
        got, flat = self.match(sc, p, kit)
        ctx.sim_time += 1
        ref = mt.Reference(sc, p, flat)
        want, ambiguous = ref.solve()
        close = ref.borderline() or ref.crowded()
        ctx.event(sorted(got))
        ctx.probe("cliques", len(got))
        if ambiguous or close:
            ctx.probe("too close to call")
            return
        ctx.probe("decided")
        ctx.probe("true bodies matched", self.true(sc, got))
        self.compare(want, got, "")
        if case["shuffle"] is not None:
            rng = random.Random(case["shuffle"])
            orders = []
            for r in sc.rows:
                o = list(range(len(r)))
                rng.shuffle(o)
                orders.append(o)
            again, _ = self.match(sc, p, kit, orders)
            ctx.sim_time += 1
            ctx.probe("in another order")
            self.compare(want, again, " in another order")

    def true(self, sc, got):
        return sum(
            1 for cl in got if len({sc.rows[c][j][6] for c, j in cl}) == 1 and sc.rows[cl[0][0]][cl[0][1]][6] >= 0
        )

    def compare(self, want, got, how):
        w, g = set(want), set(got)
        expect(
            w == g,
            "matches differ from the reference" + how,
            lambda: f"missing {sorted(w - g)[:4]}, extra {sorted(g - w)[:4]}, of {len(w)}",
        )
        size = [len(x) for x in got]
        expect(size == sorted(size, reverse=True), "smaller cliques first", f"{size}")

    def nontrivial(self, case, ctx):
        return bool(ctx.probes.get("decided")) and bool(ctx.probes.get("cliques"))

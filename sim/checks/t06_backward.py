"""T06: backward tracking only fills gaps."""

import math
import os

import numpy as np

from .. import tracking as tk
from ..core import Check, expect
from ..disk import SimDisk


def angle(start, pred, cand):
    """In gon, as the tracking parameters have it."""
    a, b = pred - start, cand - start
    n = math.sqrt(a @ a) * math.sqrt(b @ b)
    if n == 0:
        return 0.0 if np.all(a == b) else 200.0
    return math.acos(max(-1.0, min(1.0, (a @ b) / n))) * 200 / math.pi


class T06(Check):
    pid = "T06"
    quick_runs = 900
    thorough_runs = 40000
    jit_share = 0
    rule = (
        "simulated sequences that were tracked forward, or linked by the true identities with "
        "seeded links lost, are tracked backward; what was there before is compared with what "
        "is there after, and gaps that can be closed in one way only must be closed; "
        "non-trivial when a link was missing"
    )
    real = ["trackback_c", "TrackingRun", "FrameBuf and its files", "projection and candidates"]
    stub = ["cameras, detection and matching: simulated with seeded faults", "disk: seeded buffer size"]
    time_unit = "frames tracked"

    def gen(self, rng, index):
        mode = rng.choice(["forward", "lost", "lost", "lost"])
        s = tk.gen(rng, add=rng.choice([0, 0, 0, 1]))
        s["prio"] = rng.random() < 0.8
        if s["parts"] and rng.random() < 0.4:
            # bodies that fly side by side, some of which show up late
            d = s["tpar"]["dacc"]
            for p in list(s["parts"])[:2]:
                s["parts"].append(
                    {
                        "p": [round(x + rng.uniform(-0.4, 0.4) * d, 4) for x in p["p"]],
                        "v": list(p["v"]),
                        "a": list(p["a"]),
                        "from": rng.choice([0, 1, 1, 2, 2, 3]),
                        "to": s["n"],
                    }
                )
        case = {"scene": s, "mode": mode, "buf": rng.choice([16, 200, 8192])}
        rate = rng.choice([0.1, 0.3, 0.6])
        case["lost"] = [
            [f, i] for f in range(s["n"]) for i in range(len(s["parts"])) if rng.random() < rate
        ]
        case["pseed"] = rng.randrange(1 << 30)
        return case

    def valid(self, case):
        return tk.valid(case["scene"]) and all(len(x) == 2 for x in case["lost"])

    def links(self, case, sc, ctx):
        """Links by identity, but for the lost ones."""
        lost = {tuple(x) for x in case["lost"]}
        rows = []
        for k, f in enumerate(sc.frames):
            out = []
            for ident in f["ids"]:
                prev, nxt = -1, -2
                if ident >= 0:
                    if k > 0 and ident in sc.frames[k - 1]["ids"]:
                        if (k - 1, ident) not in lost:
                            prev = sc.frames[k - 1]["ids"].index(ident)
                    if k + 1 < sc.s["n"] and ident in sc.frames[k + 1]["ids"]:
                        if (k, ident) not in lost:
                            nxt = sc.frames[k + 1]["ids"].index(ident)
                        else:
                            ctx.fault("link lost")
                out.append([prev, nxt, (case["pseed"] >> (len(out) + k) % 24) % 5])
            rows.append(out)
        return rows

    def run(self, case, ctx):
        sc = tk.Scene(case["scene"], ctx)
        root = ctx.scratch
        with SimDisk(ctx.scratch, ctx, case["buf"]):
            sc.store(root)
            if case["mode"] == "forward":
                tk.Stepper(sc, root).all()
            else:
                sc.store_links(root, self.links(case, sc, ctx))
            before = sc.result(root)
            tk.backward(sc, root)
            after = sc.result(root)
        ctx.sim_time += sc.s["n"]
        for o in before:
            if o["rows"] is None:
                return  # forward tracking isn't what is checked here
        new = self.compare(sc, before, after)
        made = {(k, i) for k, i, j in new}
        must = self.must(sc, before, after)
        for k, i, j in must:
            expect(
                after[k]["rows"][i][8] == j,
                "gap not closed",
                lambda: f"frame {sc.first + k} particle {i}: next {after[k]['rows'][i][8]}, "
                f"the only one that continues it is {j}",
            )
        ctx.probe("gaps closed", len(made))
        ctx.probe("gaps that had to be closed", len(must))
        ctx.probe("frames without a link missing", int(not new))
        ctx.event(sorted(new), must)

    def compare(self, sc, before, after):
        new = []
        t = sc.s["tpar"]
        for k, (b, a) in enumerate(zip(before, after)):
            n = sc.first + k
            expect(a["rows"] is not None, "frame not written", f"frame {n}")
            expect(
                len(a["rows"]) == len(b["rows"]),
                "particles changed",
                f"frame {n}: {len(b['rows'])} became {len(a['rows'])}",
            )
            expect(a["targets"] == b["targets"], "targets changed", f"frame {n}")
            for i, (p, q) in enumerate(zip(b["rows"], a["rows"])):
                expect(p[:7] == q[:7], "particle changed", f"frame {n} particle {i}: {p} became {q}")
                expect(p[9] == q[9], "priority changed", f"frame {n} particle {i}: {p[9]} became {q[9]}")
                for what, at, none in (("prev", 7, -1), ("next", 8, -2)):
                    expect(
                        p[at] == q[at] or p[at] == none,
                        "link broken",
                        f"frame {n} particle {i}: {what} {p[at]} became {q[at]}",
                    )
                if p[8] != q[8]:
                    new.append((k, i, q[8]))
        tk.check_links(sc, after, expect)
        for k, i, j in new:
            n = sc.first + k
            rows = after[k]["rows"]
            expect(k + 2 < sc.s["n"], "gap closed without a path", f"frame {n} particle {i}")
            h = after[k + 1]["rows"][j]
            expect(
                h[8] >= 0,
                "gap closed without a path",
                f"frame {n} particle {i}: next {j}, which goes nowhere",
            )
            x1, x3 = np.array(h[:3]), np.array(rows[i][:3])
            x0 = np.array(after[k + 2]["rows"][h[8]][:3])
            expect(
                tk.well(t, x1 - x3, 1 + 1e-5),
                "link too fast",
                lambda: f"frame {n} particle {i} -> {j}: {(x1 - x3).tolist()}",
            )
            acc = float(np.linalg.norm(x3 - (2 * x1 - x0)))
            expect(
                acc < t["dacc"] + 1e-6,
                "link off the path",
                f"frame {n} particle {i} -> {j}: {acc} off, {t['dacc']} allowed",
            )
        return new

    def must(self, sc, before, after):
        """Gaps with exactly one particle that can close them, well within the limits.

        Closing a gap makes the path before it start a frame earlier, so that the
        next gap is judged by the links it finds."""
        t = sc.s["tpar"]
        out = []
        n = sc.s["n"]
        pos = lambda k, i: np.array(before[k]["rows"][i][:3])
        for k in range(n - 2):
            rows = before[k]["rows"]
            ahead = [b[:8] + [a[8]] for b, a in zip(before[k + 1]["rows"], after[k + 1]["rows"])]
            if len(rows) > 4 or any(len(x) > 20 for x in before[k]["targets"]):
                continue
            open_ = [h for h, r in enumerate(ahead) if r[7] == -1 and r[8] >= 0]
            pred = {h: 2 * pos(k + 1, h) - pos(k + 2, ahead[h][8]) for h in open_}
            for h in open_:
                near = [
                    i
                    for i in range(len(rows))
                    if np.linalg.norm(pos(k, i) - pred[h]) < t["dacc"] * 1.01 + 1e-3
                ]
                if len(near) != 1:
                    continue
                i = near[0]
                if rows[i][8] != -2 or sum(c >= 0 for c in rows[i][3:7]) < 2:
                    continue
                if any(
                    np.linalg.norm(pos(k, i) - pred[g]) < t["dacc"] * 1.01 + 1e-3
                    for g in open_
                    if g != h
                ):
                    continue
                if not self.within(t, pos(k + 1, h), pred[h], pos(k, i)):
                    continue
                if rows[i][7] >= 0:  # the path that ends here
                    if k == 0:
                        continue
                    x4, x3, x1 = pos(k - 1, rows[i][7]), pos(k, i), pos(k + 1, h)
                    x0 = pos(k + 2, ahead[h][8])
                    if not self.within(t, x3, 0.5 * (5 * x3 - 4 * x1 + x0), x4):
                        continue
                if sc.w.spec["cams"] and not self.all_in_view(sc, pred[h]):
                    continue
                out.append((k, i, h))
        return out

    def within(self, t, start, pred, cand):
        acc = float(np.linalg.norm(cand - pred))
        return (
            tk.well(t, start - cand, 0.98)
            and tk.well(t, cand - pred, 0.93)
            and acc < 0.9 * t["dacc"]
            and (angle(start, pred, cand) < t["dangle"] - 1 or acc < 0.09 * t["dacc"])
        )

    def all_in_view(self, sc, p):
        return all(sc.w.inside(c, sc.w.pixel(c, p), 40) for c in range(sc.w.num_cams))

    def nontrivial(self, case, ctx):
        return bool(ctx.faults) or ctx.probes.get("gaps closed", 0) > 0

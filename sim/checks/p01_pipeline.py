"""P01: a whole evaluation gives the same, true, results however often it failed."""

import os

import numpy as np

from .. import api, disk as dk, matching as mt, pipeline as pl, tracking as tk
from ..core import Check, expect
from ..disk import SimDisk
from .t07_identity import judge
from .v03_positions import skew


class P01(Check):
    pid = "P01"
    quick_runs = 260
    thorough_runs = 12000
    jit_share = 40
    rule = (
        "a sequence is detected (from rendered pictures or by a perfect detector), matched, "
        "positioned and tracked through files twice: once in order on a healthy disk, once in a "
        "seeded order with stages that fail, crash, are repeated or done twice, every process "
        "starting from what the files hold; the files must end up the same, and what they hold is "
        "compared with the simulated bodies and with reference models of matching, positioning and "
        "linking; non-trivial when a fault struck a stage and bodies were matched"
    )
    real = [
        "target_recognition", "read/write_targets", "match_coords", "correspondences", "get_by_pnrs",
        "point_positions", "Frame.write", "TrackingRun", "track_forward_start", "trackcorr_c_loop",
        "trackcorr_c_finish", "read_calibration", "parameter files",
    ]  # fmt: skip
    stub = [
        "cameras: simulated pictures or detections with seeded faults",
        "disk: seeded faults and crashes at every raw operation",
        "the script that calls the stages",
    ]
    time_unit = "stages run"
    assumptions = ["a crash is a process crash: what reached the system survives"]

    def gen(self, rng, index):
        case = pl.gen(rng)
        case["buf"] = rng.choice([64, 512, 4096, 8192])
        case["order"] = rng.randrange(1 << 30)
        calm = rng.random() < 0.1
        case["faults"] = [] if calm else [
            {"at": round(rng.random(), 4), **dk.fault_spec(rng, crash=0.4, harmless=0.1)}
            for _ in range(rng.choice([1, 2, 4, 7]))
        ]
        if not calm and rng.random() < 0.4:  # one in tracking
            case["faults"].append(
                {"at": 1.0, **dk.fault_spec(rng, crash=0.4, harmless=0.1)}
            )
        case["again"] = [
            [rng.randrange(case["scene"]["n"]), rng.choice(["frame", "match", "kit"]),
             round(rng.random(), 4)]
            for _ in range(rng.choice([0, 0, 1, 3]))
        ]
        return case

    def valid(self, case):
        return (
            pl.valid(case)
            and case["buf"] >= 32
            and all(0 <= f["at"] <= 1 for f in case["faults"])
            and all(len(a) == 3 and 0 <= a[0] < case["scene"]["n"] for a in case["again"])
        )

    def run(self, case, ctx):
        src = pl.Source(case, ctx)
        a, b = (os.path.join(ctx.scratch, d) for d in "ab")
        disk = SimDisk(ctx.scratch, ctx, case["buf"])
        with disk:
            for d in (a, b):
                pl.prepare(src, d)
            disk.arm([])
            serial = pl.Script(src, a)
            bad = serial.serial(track=False)
            expect(bad is None, "healthy stage failed", f"{bad}")
            self.truth(case, ctx, src, a)
            expect(serial.do(["track"]), "healthy stage failed", "tracking")
            out = self.result(src, a)
            want = dk.snapshot(a)
            self.faulty(case, ctx, disk, src, b)
            got = dk.snapshot(b)
        # parameters may name the directory
        out_of = lambda snap: {
            n: d for n, d in snap.items() if not n.startswith(("par", "cal"))
        }
        w, g = out_of(want), out_of(got)
        expect(
            w == g,
            "results depend on what failed",
            lambda: f"{sorted(n for n in set(w) | set(g) if w.get(n) != g.get(n))[:4]}",
        )
        judge(self.seen, out, ctx)
        ctx.event("links", [[r[7:9] for r in o["rows"]] for o in out])

    # -- the evaluation under faults ------------------------------------------

    def faulty(self, case, ctx, disk, src, root):
        import random

        rng = random.Random(case["order"])
        n, nc = src.n, src.nc
        again = sorted(case["again"], key=lambda x: x[2])
        total = n * (nc + 1)
        faults = sorted(case["faults"], key=lambda x: x["at"])
        found = [[False] * nc for _ in range(n)]
        matched = [False] * n
        done = False
        script = pl.Script(src, root)
        attempts = 0
        while not done:
            attempts += 1
            expect(
                attempts < 40 + total * (len(faults) + len(case["again"]) + 4),
                "no progress",
                f"{attempts} attempts",
            )
            jobs = [["detect", k, c] for k in range(n) for c in range(nc) if not found[k][c]]
            jobs += [["match", k] for k in range(n) if all(found[k]) and not matched[k]]
            at = 1.0 if not jobs else min(0.999, attempts / (total + 1))
            if again and jobs and again[0][2] <= at:
                k, what, _ = again.pop(0)
                if what == "frame":
                    found[k], matched[k] = [False] * nc, False
                    ctx.probe("frame done twice")
                elif what == "match":
                    matched[k] = False
                    ctx.probe("frame matched twice")
                else:
                    script.kit = None
                    ctx.probe("started again")
                continue
            job = rng.choice(jobs) if jobs else ["track"]
            spec = None
            if faults and faults[0]["at"] <= at:
                spec = faults.pop(0)
            how = self.attempt(disk, script, job, spec)
            bad = disk.harmful()
            ctx.sim_time += 1
            ctx.event(job, how, [f["kind"] for f, _ in disk.fired])
            if how == "ok":
                if job[0] == "detect":
                    found[job[1]][job[2]] = True
                elif job[0] == "match":
                    matched[job[1]] = True
                else:
                    done = True
                continue
            expect(bad, "healthy stage failed", f"{job}: {how}")
            ctx.probe(f"{job[0]} {'crashed' if how == 'crash' else 'failed'}")
            if how == "crash":
                script = pl.Script(src, root)
            if job[0] == "match":  # it may have spoilt the detections of its frame
                found[job[1]] = [False] * nc
            elif job[0] == "track":
                found = [[False] * nc for _ in range(n)]
                matched = [False] * n
        disk.arm([])

    def attempt(self, disk, script, job, spec):
        """How a stage ended, under the fault of spec: ok, crash, or what it said."""
        plan = []
        if spec:
            # how many operations are there?
            snap = dk.snapshot(disk.root)
            kit = script.kit
            disk.arm([])
            script.do(job)
            counts = dict(disk.counts)
            dk.restore(disk.root, snap)
            script.kit = kit
            f = dk.resolve(spec, counts)
            plan = [f] if f else []
        disk.arm(plan)
        try:
            return "ok" if script.do(job) else "refused"
        except dk.SimCrash:
            return "crash"
        except Exception as e:
            e.__traceback__ = None
            return f"{type(e).__name__}: {e}".replace(disk.root, "")
        finally:
            import gc

            gc.collect(0)
            disk.dead = False

    # -- what the files hold --------------------------------------------------

    def result(self, src, root):
        out = src.sc.result(root)
        for k, o in enumerate(out):
            expect(
                o["rows"] is not None and all(t is not None for t in o["targets"]),
                "frame not written",
                f"frame {src.first + k}",
            )
        return out

    def truth(self, case, ctx, src, root):
        p = case["par"]
        kit = pl.Kit(src, root)
        frames = []
        for k in range(src.n):
            n = src.first + k
            st = pl.Stored(src, root, k)
            for c, t in enumerate(st.parsed):
                expect(t is not None, "detections not written", f"frame {n} camera {c}")
            if case["pictures"]:
                self.pictures(src, st, k, ctx)
            rows = tk.refparse.path(
                tk._get(os.path.join(root, "res", f"rt_is.{n}")), None, None, False, False
            )
            expect(rows is not None, "frame not written", f"frame {n}")
            self.matches(src, st, p, kit, k, rows, ctx)
            frames.append({"targets": st.parsed, "loose": []})
        # for the tracker this is what there is
        self.seen = tk.Scene(case["scene"])
        self.seen.frames = frames

    def pictures(self, src, st, k, ctx):
        n = src.first + k
        lim = 3.0
        for c, ts in enumerate(st.parsed):
            blobs = src.blobs(k, c)
            for t in ts:
                # or several blobs in one
                expect(
                    any(
                        abs(b[0] - t[1]) < max(lim, t[4]) and abs(b[1] - t[2]) < max(lim, t[5])
                        for b in blobs
                    ),
                    "detection of nothing",
                    f"frame {n} camera {c}: {t}",
                )
            hot = [h[2:] for h in src.case["pictures"]["hot"] if h[:2] == [k, c]]
            for i, b in enumerate(blobs):
                if not (9 < b[0] < src.w.imx - 9 and 9 < b[1] < src.w.imy - 9):
                    continue
                far = lambda x, y: max(abs(x - b[0]), abs(y - b[1])) > 14
                if not all(far(*o[:2]) for j, o in enumerate(blobs) if j != i):
                    continue
                if not all(far(*h) for h in hot):
                    continue
                mine = [t for t in ts if max(abs(t[1] - b[0]), abs(t[2] - b[1])) < 10]
                expect(
                    len(mine) == 1, "body not detected once", f"frame {n} camera {c} {b}: {mine}"
                )
                d = max(abs(mine[0][1] - b[0]), abs(mine[0][2] - b[1]))
                expect(d < 0.25, "detection off", f"frame {n} camera {c} {b}: {mine[0]}")
                ctx.probe("detected in a picture")

    def matches(self, src, st, p, kit, k, rows, ctx):
        n, nc = src.first + k, src.nc
        got = []
        for i, r in enumerate(rows):
            cl = {c: r[3 + c] for c in range(nc) if r[3 + c] >= 0}
            expect(
                len(cl) >= 2 and all(r[3 + c] < 0 for c in range(nc, 4)),
                "particle with too few cameras",
                f"frame {n} particle {i}: {r}",
            )
            for c, j in cl.items():
                expect(
                    j < len(st.parsed[c]) and st.parsed[c][j][7] == i,
                    "target and particle don't agree",
                    f"frame {n} particle {i} camera {c}: {j}",
                )
            got.append(cl)
        for c, ts in enumerate(st.parsed):
            for j, t in enumerate(ts):
                expect(
                    t[7] < 0 or (t[7] < len(rows) and got[t[7]].get(c) == j),
                    "target and particle don't agree",
                    f"frame {n} camera {c} target {j}: {t}",
                )
        T = st.targets()
        _, flat = st.matched(T, kit.cals, kit.cpar)
        ref = mt.Reference(st, p, flat)
        want, ambiguous = ref.solve()
        key = lambda cl: tuple(sorted(cl.items()))
        if ambiguous or ref.borderline() or ref.crowded():
            ctx.probe("frames too close to call")
        else:
            w = {tuple(sorted(x.items())) if isinstance(x, dict) else tuple(sorted(x)) for x in want}
            g = {key(x) for x in got}
            expect(
                w == g,
                "matches differ from the reference",
                lambda: f"frame {n}: missing {sorted(w - g)[:4]}, extra {sorted(g - w)[:4]}",
            )
            ctx.probe("frames decided")
        for i, cl in enumerate(got):
            rays = []
            for c, j in sorted(cl.items()):
                x, y = src.w.ray(c, flat[c][j], [-15.0, 15.0])
                rays.append((x, y - x))
            m = [skew(*u, *v)[1] for a, u in enumerate(rays) for v in rays[a + 1 :]]
            pos = sum(m) / len(m)
            d = float(np.max(np.abs(pos - np.array(rows[i][:3]))))
            expect(d < 7e-4, "particle in a wrong place", f"frame {n} particle {i}: {rows[i]}, should be {pos.tolist()}")
            bodies = {st.rows[c][j][6] for c, j in cl.items()}
            if len(bodies) == 1 and min(bodies) >= 0:
                (b,) = bodies
                true = tk.where(src.s["parts"][b], k)
                err = src.s["noise"] + (0.3 if src.case["pictures"] else 0)
                d = float(np.max(np.abs(true - np.array(rows[i][:3]))))
                expect(
                    d < 0.01 + 60 * err * src.w.pix,
                    "body in a wrong place",
                    f"frame {n} body {b}: {rows[i][:3]}, is at {true.tolist()}",
                )
                ctx.probe("bodies placed")
            elif len(bodies) > 1:
                ctx.probe("matches of several bodies")

    def nontrivial(self, case, ctx):
        return bool(ctx.probes.get("bodies placed")) and any(
            k.endswith((" crashed", " failed")) for k in ctx.probes
        )

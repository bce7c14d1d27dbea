"""T03: tracking loses, moves and invents nothing."""

import math
import os

import numpy as np

from .. import refparse, tracking as tk
from ..core import Check, expect
from ..disk import SimDisk

REACH = 8.0  # pixels between an added particle and its detections


def check_frames(sc, out, root, ctx, expect=expect):
    add = sc.s["tpar"]["add"]
    w = sc.w
    added = 0
    for k, (f, o) in enumerate(zip(sc.frames, out)):
        n = sc.first + k
        rows = o["rows"]
        expect(rows is not None, "frame not written", f"frame {n}")
        expect(
            len(rows) >= len(f["parts"]),
            "particle lost",
            f"frame {n}: {len(rows)} of {len(f['parts'])} particles left",
        )
        for i, (a, b) in enumerate(zip(f["parts"], rows)):
            expect(
                all(abs(x - y) < 1e-6 for x, y in zip(a, b[:7])),
                "particle changed",
                f"frame {n} particle {i}: {a} became {b[:7]}",
            )
        extra = rows[len(f["parts"]) :]
        expect(add or not extra, "particle invented", f"frame {n}: {extra} with add off")
        used = set()
        for j, r in enumerate(extra):
            i = len(f["parts"]) + j
            cams = [c for c in range(4) if r[3 + c] != -1]
            expect(
                len(cams) >= 2 and all(c < w.num_cams for c in cams),
                "particle invented",
                f"frame {n} particle {i} was added from cameras {cams}",
            )
            for c in cams:
                t = r[3 + c]
                expect(
                    0 <= t < len(f["targets"][c]),
                    "particle invented",
                    f"frame {n} particle {i}: target {t} of camera {c}",
                )
                expect(
                    f["targets"][c][t][7] == -1 and (c, t) not in used,
                    "detection used twice",
                    f"frame {n} particle {i}: target {t} of camera {c}",
                )
                used.add((c, t))
                xy = w.pixel(c, r[:3])
                d = math.hypot(
                    xy[0] - f["targets"][c][t][1], xy[1] - f["targets"][c][t][2]
                )
                ctx.far = max(getattr(ctx, "far", 0.0), d)
                expect(
                    d < REACH,
                    "particle off its detections",
                    f"frame {n} particle {i}: {d:.2f} pixels in camera {c}",
                )
            z = sc.s.get("zlim", 20.0)
            expect(abs(r[2]) < z + 1e-3, "particle outside of the volume", f"frame {n} particle {i}: {r[:3]}")
            added += 1
        for c in range(w.num_cams):
            want = [list(t) for t in f["targets"][c]]
            for j, r in enumerate(extra):
                if r[3 + c] >= 0:
                    want[r[3 + c]][7] = len(f["parts"]) + j
            got = o["targets"][c]
            expect(got is not None, "targets not written", f"frame {n} camera {c}")
            expect(
                len(got) == len(want),
                "target lost",
                f"frame {n} camera {c}: {len(got)} of {len(want)} targets left",
            )
            for i, (a, b) in enumerate(zip(want, got)):
                expect(
                    all(abs(x - y) < 1e-6 for x, y in zip(a, b)),
                    "target changed",
                    f"frame {n} camera {c} target {i}: {a} became {b}",
                )
        for name in ("ptv_is", "added"):
            if name == "added" and not sc.s["prio"]:
                continue
            data = tk._get(os.path.join(root, "res", f"{name}.{n}"))
            lines = data.decode().split("\n")[1:]
            for i, r in enumerate(rows):
                xyz = [float(t) for t in lines[i].split()[2:5]]
                expect(
                    all(abs(x - y) < 1e-6 for x, y in zip(xyz, r)),
                    "files of a frame disagree",
                    f"{name}.{n} particle {i}: {xyz}, rt_is: {r[:3]}",
                )
    return added


class T03(Check):
    pid = "T03"
    quick_runs = 700
    thorough_runs = 30000
    jit_share = 0
    rule = (
        "simulated sequences with missed detections, failed matches, dark cameras, ghosts "
        "and phantoms are tracked, mostly with particles being added, and every stored "
        "frame is compared with what was there before; non-trivial when a fault struck"
    )
    real = ["trackcorr_c_loop", "assess_new_position", "add_particle", "FrameBuf and its files"]
    stub = ["cameras, detection and matching: simulated with seeded faults", "disk: seeded buffer size"]
    time_unit = "frames tracked"

    def gen(self, rng, index):
        s = tk.gen(rng, add=rng.choice([0, 1, 1, 1, 1]))
        if s["tpar"]["add"] and rng.random() < 0.7:
            # failed matches are what adding repairs
            for f in range(1, s["n"]):
                for i in range(len(s["parts"])):
                    if rng.random() < 0.2 and [f, i] not in s["unmatched"]:
                        s["unmatched"].append([f, i])
        if s["tpar"]["add"] and rng.random() < 0.3:
            s["zlim"] = rng.choice([3.0, 6.0])
        if s["tpar"]["add"] and rng.random() < 0.4:
            tk.kink(rng, s)
        return {"scene": s, "buf": rng.choice([16, 200, 8192])}

    def valid(self, case):
        return tk.valid(case["scene"])

    def run(self, case, ctx):
        sc = tk.Scene(case["scene"], ctx)
        with SimDisk(ctx.scratch, ctx, case["buf"]):
            sc.store(ctx.scratch)
            tk.Stepper(sc, ctx.scratch).all()
        ctx.sim_time += sc.s["n"]
        out = sc.result(ctx.scratch)
        added = check_frames(sc, out, ctx.scratch, ctx)
        ctx.probe("particles added", added)
        ctx.event("frames", [len(o["rows"]) for o in out], added)

    def nontrivial(self, case, ctx):
        return bool(ctx.faults)

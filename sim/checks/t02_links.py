"""T02: tracking leaves a consistent set of links."""

from .. import tracking as tk
from ..core import Check, expect
from ..disk import SimDisk


class T02(Check):
    pid = "T02"
    quick_runs = 700
    thorough_runs = 30000
    jit_share = 0
    rule = (
        "particles moving in a simulated tank, seen by 2 to 4 cameras with missed "
        "detections, dark cameras, ghosts, phantoms and failed matches, are tracked "
        "forward and the files left are parsed independently; non-trivial when links "
        "were made and a fault struck"
    )
    real = ["TrackingRun", "trackcorr_c_loop", "FrameBuf and its files", "projection and candidates"]
    stub = ["cameras, detection and matching: simulated with seeded faults", "disk: seeded buffer size"]
    time_unit = "frames tracked"

    def gen(self, rng, index):
        s = tk.gen(rng)
        if rng.random() < (0.4 if s["tpar"]["add"] else 0.1):
            tk.kink(rng, s)
        return {"scene": s, "buf": rng.choice([16, 200, 8192])}

    def valid(self, case):
        return tk.valid(case["scene"])

    def run(self, case, ctx):
        sc = tk.Scene(case["scene"], ctx)
        with SimDisk(ctx.scratch, ctx, case["buf"]):
            sc.store(ctx.scratch)
            tk.Stepper(sc, ctx.scratch).all()
        ctx.sim_time += sc.s["n"]
        out = sc.result(ctx.scratch)
        n = tk.check_links(sc, out, expect, slack=2 * sc.s["tpar"]["dacc"])
        ctx.probe("links", n)
        ctx.probe("particles added", sum(len(o["rows"]) - len(f["parts"]) for o, f in zip(out, sc.frames)))
        ctx.event("links", n, [[r[7:9] for r in o["rows"]] for o in out])

    def nontrivial(self, case, ctx):
        return ctx.probes.get("links", 0) > 0 and bool(ctx.faults)

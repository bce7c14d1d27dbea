"""T01: the frame buffer is a ring that moves frames and changes none."""

import os

from .. import api, disk as dk, values
from ..core import Check, expect
from ..disk import SimDisk, attempt


class T01(Check):
    pid = "T01"
    quick_runs = 5000
    thorough_runs = 200000
    jit_share = 0
    rule = (
        "a seeded history of reads at the end, writes from the start, moves in both "
        "directions and changes to held frames, with read and write faults, against a "
        "list in memory; non-trivial when a frame read survived a move"
    )
    real = ["FrameBuf", "Frame", "read_path_frame", "write_path_frame"]
    stub = ["disk: seeded faults at every raw operation"]
    time_unit = "frame buffer operations"

    def gen(self, rng, index):
        cams = rng.choice([1, 1, 2, 4])
        n_frames = rng.choice([2, 4, 6])
        case = {
            "len": rng.choice([4, 4, 4, 2, 3, 5]),
            "cams": cams,
            "prio": rng.random() < 0.7,
            "buf": rng.choice([16, 300, 8192]),
            "frames": [
                {
                    "rows": values.particles(rng, rng.choice([0, 1, 2, 3, 7])),
                    "targets": [
                        values.targets(rng, rng.choice([0, 1, 2, 5])) for _ in range(cams)
                    ],
                }
                for _ in range(n_frames)
            ],
            "ops": [],
        }
        calm = rng.random() < 0.3
        for _ in range(rng.choice([3, 6, 10, 16, 24])):
            k = rng.choice(["read", "read", "next", "next", "prev", "write", "move", "track"])
            op = {"op": k}
            if k in ("read", "write", "track"):
                op["n"] = rng.randrange(n_frames)
                op["links"] = rng.random() < 0.5
                if not calm and rng.random() < 0.25:
                    op["fault"] = dk.fault_spec(rng, crash=0.0, harmless=0.2)
            if k == "read":
                op["raw"] = rng.random() < 0.3
            if k == "move":
                op["slot"] = rng.randrange(5)
                op["row"] = [rng.uniform(-50, 50) for _ in range(3)]
            case["ops"].append(op)
        return case

    def valid(self, case):
        for f in case["frames"]:
            if len(f["targets"]) != case["cams"] or any(len(r) != 10 for r in f["rows"]):
                return False
            if any(len(r) != 8 for t in f["targets"] for r in t):
                return False
        for op in case["ops"]:
            if len(op.get("row", [0] * 3)) != 3:
                return False
            if op.get("n", 0) >= len(case["frames"]):
                return False
        return 2 <= case["len"] <= 6 and case["frames"] and 1 <= case["cams"] <= 4

    def content(self, f):
        n = f.num_parts
        return {
            "rows": values.un_path(f.correspond[:n], f.path_info[:n]),
            "targets": [
                values.un_targets(f.targets[c][: f.num_targets[c]])
                for c in range(f.num_cams)
            ],
        }

    def differs(self, want, got):
        d = values.path_differs(want["rows"], got["rows"])
        if d:
            return d
        for c, t in enumerate(want["targets"]):
            d = values.targets_differ(t, got["targets"][c])
            if d:
                return f"camera {c}: {d}"
        return None

    def run(self, case, ctx):
        root = ctx.scratch
        b = (
            os.path.join(root, "rt_is"),
            os.path.join(root, "ptv_is"),
            os.path.join(root, "added") if case["prio"] else "",
        )
        tb = [os.path.join(root, f"cam{c}.%05d") for c in range(case["cams"])]
        disk = SimDisk(root, ctx, case["buf"])
        empty = {"rows": [], "targets": [[] for _ in range(case["cams"])]}
        stored = {}
        with disk:
            for i, v in enumerate(case["frames"]):
                f = api.Frame(case["cams"], 4)
                f.correspond, f.path_info = values.mk_path(v["rows"])
                f.num_parts = len(v["rows"])
                for c, t in enumerate(v["targets"]):
                    f.targets[c], f.num_targets[c] = values.mk_targets(t), len(t)
                disk.arm([])
                expect(f.write(*b, tb, 100 + i), "healthy write failed", "setup")
                stored[i] = {"rows": v["rows"], "targets": v["targets"]}
            fb = api.FrameBuf(case["len"], case["cams"], 8, *b, tb)
            model = [dict(empty) for _ in range(case["len"])]
            held = [f for f in fb.buf]
            moved = 0

            for k, op in enumerate(case["ops"]):
                ctx.sim_time += 1
                kind = op["op"]
                if kind == "next" or kind == "track":
                    fb.fb_next()
                    model = model[1:] + model[:1]
                    moved += 1
                elif kind == "prev":
                    fb.fb_prev()
                    model = model[-1:] + model[:-1]
                    moved += 1
                if kind in ("read", "track"):
                    self.do_read(case, ctx, disk, fb, model, stored, op, k)
                elif kind == "write":
                    n = op["n"]
                    out = attempt(
                        disk, lambda: fb.write_frame_from_start(100 + n), [op.get("fault")]
                    )
                    ack = out.how == "ok" and out.value
                    ctx.event("write", n, bool(ack))
                    if ack:
                        stored[n] = model[0]
                    else:
                        expect(
                            disk.harmful() or model[0] is None,
                            "healthy write failed",
                            f"op {k}: {out}",
                        )
                        stored[n] = None
                elif kind == "move":
                    s = op["slot"] % case["len"]
                    f = fb.buf[s]
                    if model[s] is not None and f.num_parts:
                        import numpy as np

                        f.path_info[0].x = np.array(op["row"])
                        f.path_info[0].next_frame = k
                        rows = [list(r) for r in model[s]["rows"]]
                        rows[0][:3] = op["row"]
                        rows[0][8] = k
                        model[s] = {**model[s], "rows": rows}
                ctx.event(kind)
                self.check(case, ctx, fb, model, f"after op {k} ({kind})")
            if moved and any(m and m["rows"] for m in model):
                ctx.probe("frames held over a move")
            expect(
                sorted(map(id, held)) == sorted(map(id, fb.buf)) or len(fb.buf) == len(held),
                "ring lost a slot",
                f"{len(fb.buf)} slots",
            )

    def do_read(self, case, ctx, disk, fb, model, stored, op, k):
        n, links = op["n"], op["links"]
        if op.get("raw"):
            call = lambda: fb.disk_read_frame_at_end(100 + n, links)
        else:
            call = lambda: (fb.read_frame_at_end(100 + n, links), True)[1]
        out = attempt(disk, call, [op.get("fault")])
        took = out.how == "ok" and out.value
        ctx.event("read", n, links, bool(took))
        if took:
            if stored[n] is None:
                model[-1] = None
                return
            rows = [list(r) for r in stored[n]["rows"]]
            for r in rows:
                if not links:
                    r[7:9] = [-1, -2]
                if not (links and case["prio"]):
                    r[9] = 4
            model[-1] = {"rows": rows, "targets": stored[n]["targets"]}
            ctx.probe("frame read")
        else:
            expect(
                disk.harmful() or stored[n] is None, "healthy read failed", f"op {k}: {out}"
            )
            model[-1] = None
            ctx.probe("read failed")

    def check(self, case, ctx, fb, model, when):
        expect(len(fb.buf) == case["len"], "ring lost a slot", f"{when}: {len(fb.buf)}")
        for s, m in enumerate(model):
            if m is None:
                continue
            d = self.differs(m, self.content(fb.buf[s]))
            expect(d is None, "held frame changed", lambda: f"{when}: slot {s}: {d}")

    def nontrivial(self, case, ctx):
        return ctx.probes.get("frames held over a move", 0) > 0

"""S02: an acknowledged tracking frame is read back whole."""

import math

import numpy as np

from .. import api, disk, refparse, store, values
from ..core import Check, expect
from ..values import path_of


class PathFrames(store.Store):
    """rt_is / ptv_is / added files through write_path_frame, or whole frames."""

    def slots(self, rng):
        out = []
        for _ in range(rng.choice([1, 2, 3])):
            s = {
                "base": rng.choice(["res/rt_is", "rt_is", "out.d/rt"]),
                "frame": rng.choice([0, 1, 9, 10, 100, 10001, 123456]),
                "prio": rng.random() < 0.7,
                "cams": rng.choice([0, 0, 1, 2, 3, 4]),
            }
            if not any((o["base"], o["frame"]) == (s["base"], s["frame"]) for o in out):
                out.append(s)
        return out

    def value(self, rng, slot):
        v = {"rows": values.particles(rng), "extra": rng.choice([0, 0, 1, 5])}
        if slot["cams"]:
            v["targets"] = [
                values.targets(rng, rng.choice([0, 1, 2, 5, 11]) if rng.random() < 0.98 else values.many(rng))
                for _ in range(slot["cams"])
            ]
        return v

    def bases(self, root, slot, how=0):
        """how: bit 0 - don't read the links, bit 1 - don't read the priorities."""
        b = path_of(root, slot["base"])
        return (
            b,
            "" if how & 1 else b + "_ptv",
            "" if how & 2 or not slot["prio"] else b + "_added",
        )

    def tbases(self, root, slot):
        b = path_of(root, slot["base"])
        return [f"{b}_cam{i}_%05d" for i in range(slot["cams"])]

    def write(self, root, slot, v):
        cor, path = values.mk_path(v["rows"], v["extra"])
        n = len(v["rows"])
        if not slot["cams"]:
            return api.write_path_frame(
                cor, path, n, *self.bases(root, slot), slot["frame"]
            )
        f = api.Frame(slot["cams"], 4)
        f.correspond, f.path_info, f.num_parts = cor, path, n
        for c, t in enumerate(v["targets"]):
            f.targets[c] = values.mk_targets(t)
            f.num_targets[c] = len(t)
        return f.write(*self.bases(root, slot), self.tbases(root, slot), slot["frame"])

    def read(self, root, slot, how):
        b = self.bases(root, slot, how)
        if not slot["cams"]:
            cor, path = api.read_path_frame(*b, slot["frame"])
            out = {
                "rows": values.un_path(cor, path),
                "nr": [int(x) for x in cor.nr],
                "n": len(cor),
            }
            values.spoil(cor, path)
            return out
        f = api.Frame(slot["cams"], 4)
        if not f.read(*b, self.tbases(root, slot), slot["frame"]):
            return None
        pos = f.positions()
        out = {
            "rows": values.un_path(f.correspond[: f.num_parts], f.path_info[: f.num_parts]),
            "nr": [int(x) for x in f.correspond[: f.num_parts].nr],
            "n": f.num_parts,
            "pos": [[float(x) for x in p] for p in pos],
            "targets": [
                values.un_targets(f.targets[c][: f.num_targets[c]])
                for c in range(slot["cams"])
            ],
            "counts": [int(n) for n in f.num_targets],
        }
        for c in range(slot["cams"]):  # where the cameras see the particles
            n = f.num_targets[c]
            for k in range(f.num_parts):
                if f.correspond[k].p[c] >= 0:
                    f.correspond[k].p[c] = f.correspond[k].p[c] % n if n else -1
            xy = f.target_positions_for_camera(c)
            want = [
                [f.targets[c][q].x, f.targets[c][q].y] if q >= 0 else [math.nan] * 2
                for q in (int(f.correspond[k].p[c]) for k in range(f.num_parts))
            ]
            expect(
                np.array_equal(xy, np.array(want).reshape(-1, 2), equal_nan=True),
                "targets of particles differ from the correspondences",
                lambda: f"camera {c}: {xy.tolist()}, should be {want}",
            )
        values.spoil(f.correspond, f.path_info, f.targets)
        return out

    def differs(self, v, got, slot, how):
        d = values.path_differs(
            v["rows"], got["rows"], not how & 1, slot["prio"] and not how & 2
        )
        if d:
            return d
        if got["n"] != len(v["rows"]):
            return f"{len(v['rows'])} particles written, a count of {got['n']} read"
        if got["nr"] != list(range(1, len(v["rows"]) + 1)):
            return f"particle numbers {got['nr']}"
        if slot["cams"]:
            if got["pos"] != [r[:3] for r in got["rows"]]:
                return "positions() differs from the path info"
            for c, (a, b) in enumerate(zip(v["targets"], got["targets"])):
                d = values.targets_differ(a, b)
                if d:
                    return f"camera {c}: {d}"
        return None

    def files_differ(self, root, slot, v):
        names = [f"{b}.{slot['frame']}" if b else None for b in self.bases(root, slot)]
        cor, link, prio = [n and disk.peek(n) for n in names]
        rows = refparse.path(cor, link, prio, True, slot["prio"])
        if rows is None:
            return f"files of {slot['base']}.{slot['frame']} are missing or incomplete"
        if not rows and not v["rows"]:
            return None
        for data in [link, prio][: 1 + slot["prio"]]:  # both repeat links and positions
            again = [[float(t) for t in x.split()] for x in data.decode().split("\n")[1 : len(rows) + 1]]
            for i, (x, r) in enumerate(zip(again, rows)):
                if x[:2] != r[7:9] or x[2:5] != r[:3]:
                    return f"particle {i}: {x} in one file, {r} in another"
        return values.path_differs(v["rows"], rows, True, slot["prio"])

    def read_how(self, rng):
        return rng.randrange(4)

    def hows(self):
        return [0, 3]


class S02(Check):
    pid = "S02"
    quick_runs = 5000
    thorough_runs = 200000
    jit_share = 0
    rule = (
        "a seeded history of frame writes and reads (with and without links, "
        "priorities and per-camera targets) on a simulated disk, with faults and "
        "crashes inside operations; non-trivial when an acknowledged frame was "
        "checked by reading"
    )
    real = ["Frame.read/write/positions", "read_path_frame", "write_path_frame"]
    stub = ["disk: seeded faults at every raw operation, buffers of seeded size"]
    time_unit = "file operations of the workload"
    assumptions = ["a crash is a process crash: what reached the system survives"]

    def gen(self, rng, index):
        return store.gen_history(PathFrames(), rng)

    def valid(self, case):
        for s in case["slots"]:
            if s["base"] not in ("res/rt_is", "rt_is", "out.d/rt") or s["frame"] < 0:
                return False
            if not 0 <= s["cams"] <= 4:
                return False
        if len({(s["base"], s["frame"]) for s in case["slots"]}) != len(case["slots"]):
            return False
        for o in case["ops"]:
            if o["op"] != "write":
                continue
            s = case["slots"][o["s"] % len(case["slots"])]
            if any(len(r) != 10 for r in o["v"]["rows"]) or o["v"]["extra"] < 0:
                return False
            t = o["v"].get("targets", [])
            if len(t) != s["cams"] or any(len(r) != 8 for x in t for r in x):
                return False
        return bool(case["slots"])

    def run(self, case, ctx):
        store.run_history(PathFrames(), case, ctx)

    def nontrivial(self, case, ctx):
        return ctx.probes.get("write acknowledged", 0) > 0

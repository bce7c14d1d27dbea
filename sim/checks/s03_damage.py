"""S03: a damaged frame is never taken for a complete one."""

import os

from .. import api, disk as dk, refparse, values
from ..core import Check, expect
from ..disk import SimDisk, attempt

FRAME = 10007
FILES = {
    "corres": "rt_is.10007",
    "linkage": "ptv_is.10007",
    "prio": "added.10007",
}


def tname(c):
    return f"cam{c}.%05d"


def tfile(c):
    return f"cam{c}.10007_targets"


class S03(Check):
    pid = "S03"
    quick_runs = 12000
    thorough_runs = 300000
    jit_share = 0
    rule = (
        "a frame is written (or overwritten by a process that crashes in the middle), "
        "its files are torn, zero-filled, lost, shortened by lines or left over from "
        "another frame, and the frame is read every way the library offers; non-trivial "
        "when the damage left a file that doesn't hold what it promises"
    )
    real = ["Frame.read/write", "FrameBuf.read_frame_at_end", "read_path_frame", "read_targets"]
    stub = ["disk: seeded crashes and damage to stored bytes"]
    time_unit = "frames written or read"
    assumptions = [
        "a file cut within its last number, or before its last line end, can't be told "
        "from a complete one by its format; there only the values read are checked"
    ]

    def gen(self, rng, index):
        cams = rng.choice([0, 0, 1, 2, 4])
        prio = rng.random() < 0.6

        def frame():
            return {
                "rows": values.particles(rng, rng.choice([0, 1, 2, 3, 5, 9, 10, 11])),
                "targets": [
                    values.targets(rng, rng.choice([0, 1, 2, 3, 9, 10, 12]))
                    for _ in range(cams)
                ],
            }

        case = {
            "buf": rng.choice([1, 5, 32, 200, 8192]),
            "cams": cams,
            "prio": prio,
            "first": frame(),
            "second": frame() if rng.random() < 0.5 else None,
            "crash": None,
            "damage": [],
        }
        if case["second"] and rng.random() < 0.75:
            case["crash"] = dk.fault_spec(rng, crash=1.0)
        files = ["corres", "linkage", "corres", "linkage"] + ["prio"] * prio
        files += [f"t{c}" for c in range(cams)]
        n = rng.choice([1, 1, 1, 2, 3]) if not case["crash"] else rng.choice([0, 0, 1])
        for _ in range(n):
            case["damage"].append(
                {
                    "file": rng.choice(files),
                    "kind": rng.choice(
                        ["cut", "cut", "cut", "lost", "empty", "nul", "drop", "dup", "old"]
                    ),
                    "at": rng.choice([rng.random(), rng.random(), 0.999]),
                }
            )
        case["how"] = rng.choice(["frame", "fb", "path", "path"])
        case["links"] = rng.random() < 0.8
        return case

    def valid(self, case):
        frames = [case["first"]] + ([case["second"]] if case["second"] else [])
        for f in frames:
            if any(len(r) != 10 for r in f["rows"]) or len(f["targets"]) != case["cams"]:
                return False
            if any(len(r) != 8 for t in f["targets"] for r in t):
                return False
        for d in case["damage"]:
            if d["file"].startswith("t") and int(d["file"][1:]) >= case["cams"]:
                return False
            if d["file"] == "prio" and not case["prio"]:
                return False
        if case["crash"] and not case["second"]:
            return False
        return 0 <= case["cams"] <= 4 and case["how"] in ("frame", "fb", "path")

    # ------------------------------------------------------------------

    def bases(self, root, case):
        return (
            os.path.join(root, "rt_is"),
            os.path.join(root, "ptv_is"),
            os.path.join(root, "added") if case["prio"] else "",
        )

    def write(self, root, case, v):
        f = api.Frame(case["cams"], 4)
        f.correspond, f.path_info = values.mk_path(v["rows"])
        f.num_parts = len(v["rows"])
        for c, t in enumerate(v["targets"]):
            f.targets[c], f.num_targets[c] = values.mk_targets(t), len(t)
        tb = [os.path.join(root, tname(c)) for c in range(case["cams"])]
        return f.write(*self.bases(root, case), tb, FRAME)

    def read(self, root, case):
        b = self.bases(root, case)
        tb = [os.path.join(root, tname(c)) for c in range(case["cams"])]
        links = case["links"]
        if case["how"] == "path":
            b = b if links else (b[0], "", "")
            cor, path = api.read_path_frame(*b, FRAME)
            return {"rows": values.un_path(cor, path), "targets": None}
        if case["how"] == "frame":
            f = api.Frame(case["cams"], 4)
            b = b if links else (b[0], "", "")
            if not f.read(*b, tb, FRAME):
                return None
        else:
            fb = api.FrameBuf(4, case["cams"], 4, *b, tb)
            fb.read_frame_at_end(FRAME, links)
            f = fb.buf[-1]
        n = f.num_parts
        return {
            "rows": values.un_path(f.correspond[:n], f.path_info[:n]),
            "targets": [
                values.un_targets(f.targets[c][: f.num_targets[c]])
                for c in range(case["cams"])
            ],
        }

    def damage(self, root, case, d, old, ctx):
        name = FILES.get(d["file"]) or tfile(int(d["file"][1:]))
        data = dk.get(root, name)
        if data is None:
            return
        at = min(int(d["at"] * (len(data) + 1)), len(data))
        lines = data.split(b"\n")
        kind = d["kind"]
        if kind == "cut":
            new = data[:at]
        elif kind == "empty":
            new = b""
        elif kind == "nul":
            new = data[:at] + b"\0" * (len(data) - at)
        elif kind in ("drop", "dup"):
            i = min(int(d["at"] * max(1, len(lines) - 1)), max(0, len(lines) - 2))
            if kind == "drop":
                lines[i : i + 1] = []
            else:
                lines[i:i] = [lines[i]]
            new = b"\n".join(lines)
        elif kind == "old":
            new = old.get(name)
            if new is None:
                return
        else:
            new = None
        if new == data:
            return
        ctx.fault(f"stored file {kind}")
        if new is None:
            os.unlink(os.path.join(root, name))
        else:
            dk.put(root, name, new)

    def run(self, case, ctx):
        root = ctx.scratch
        disk = SimDisk(root, ctx, case["buf"])
        with disk:
            out = attempt(disk, lambda: self.write(root, case, case["first"]))
            expect(out.how == "ok" and out.value, "healthy write failed", str(out))
            old = dk.snapshot(root)
            ctx.sim_time += 1
            if case["second"]:
                out = attempt(
                    disk, lambda: self.write(root, case, case["second"]), [case["crash"]]
                )
                ctx.sim_time += 1
                ctx.event("second write", out.how)
            for d in case["damage"]:
                self.damage(root, case, d, old, ctx)
            out = attempt(disk, lambda: self.read(root, case))
            ctx.sim_time += 1
        bytes_of = lambda n: dk.get(root, n)
        read_prio = case["prio"] and case["links"]
        want = refparse.path(
            bytes_of(FILES["corres"]),
            bytes_of(FILES["linkage"]),
            bytes_of(FILES["prio"]),
            case["links"],
            read_prio,
        )
        wt = []
        if case["how"] != "path":
            wt = [refparse.targets(bytes_of(tfile(c))) for c in range(case["cams"])]
        complete = want is not None and all(t is not None for t in wt)
        took = out.how == "ok" and out.value is not None
        ctx.event("damaged read", complete, took)
        ctx.probe("incomplete frame" if not complete else "complete frame")
        if not complete:
            expect(
                not took,
                "incomplete frame accepted",
                lambda: f"read as {len(out.value['rows'])} particles, "
                f"{[len(t) for t in out.value['targets'] or []]} targets",
            )
            return
        if not took:
            # a complete frame may be refused only when its files were damaged
            pristine = not case["damage"] and not case["crash"]
            expect(not pristine, "intact frame refused", str(out))
            return
        got = out.value
        d = values.path_differs(want, got["rows"], tol=1e-9)
        expect(d is None, "frame read wrong", d)
        for c, t in enumerate(wt):
            d = values.targets_differ(t, got["targets"][c], tol=1e-9)
            expect(d is None, "targets read wrong", lambda: f"camera {c}: {d}")

    def nontrivial(self, case, ctx):
        return ctx.probes.get("incomplete frame", 0) > 0

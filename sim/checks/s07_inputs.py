"""S07: input that can't be read, or ends early, is reported, never made up."""

import os
from pathlib import Path

import numpy as np

from .. import api, disk as dk, params, values
from ..core import Check, expect
from ..disk import SimDisk, attempt


def _calblock(rng):
    n = rng.choice([1, 2, 4, 5, 9])
    return [[rng.uniform(-50, 50) for _ in range(3)] for _ in range(n)]


def _filter(rng):
    """A 3x3 filter, symmetric about its middle, which keeps grey values in range."""
    h = [rng.choice([0.0, 0.05, 0.1, 0.2, 0.25]) for _ in range(4)]
    c = rng.choice([0.0, 0.125, 0.5, 1.0])
    w = h + [c] + h[::-1]
    t = max(1.0, sum(w))
    return [round(x / t - 5e-7, 6) for x in w] if t > 1 else w


KINDS = params.LEGACY + ["ori", "ori", "addpar", "addpar", "fixpoints", "calblock", "man_ori", "filter"]  # fmt: skip


class S07(Check):
    pid = "S07"
    quick_runs = 16000
    thorough_runs = 600000
    jit_share = 0
    rule = (
        "a parameter, calibration or calibration-target file is stored, then torn, "
        "zero-filled, emptied or lost, or its reading hits an I/O error, and it is read "
        "with the library's readers, twice in the same process and once more after the "
        "fault; non-trivial when the file was damaged or a fault fired"
    )
    real = ["from_file of every parameter class", "read_*_par", "Calibration.from_file", "read_calblock (both)", "read_man_ori_fix", "prepare_image (filter file)"]  # fmt: skip
    stub = ["disk: open and read errors, short reads, damage to stored bytes"]
    time_unit = "files read"
    assumptions = [
        "a file cut within its last value can't be told from a complete one",
        "read_sortgrid_par's documented default for a missing file is left out",
    ]

    def gen(self, rng, index):
        kind = rng.choice(KINDS)
        case = {"kind": kind, "buf": rng.choice([1, 6, 40, 8192]), "alt": rng.random() < 0.5}
        if kind in params.GEN:
            case["v"] = params.GEN[kind](rng)
            # names of a legacy file are whole, stripped lines
        elif kind in ("ori", "addpar"):
            case["v"] = values.calibration(rng)
        elif kind == "filter":
            case["v"] = _filter(rng)
            case["img"] = [rng.randrange(5, 12), rng.randrange(5, 12), rng.randrange(1000)]
        else:
            case["v"] = _calblock(rng)
            if kind == "man_ori":
                while len(case["v"]) < 4:
                    case["v"].append([float(len(case["v"])), 1.0, 2.0])
                ids = list(range(1, len(case["v"]) + 1))
                case["nr"] = [rng.sample(ids, 4) for _ in range(2)]
                case["cam"] = rng.randrange(2)
        case["damage"] = None
        if rng.random() < 0.7:
            case["damage"] = {
                "kind": rng.choice(["cut", "cut", "cut", "line", "line", "lost", "empty", "nul"]),
                "at": round(rng.random(), 4),
                "file": rng.randrange(2),
            }
        case["fault"] = None
        if rng.random() < 0.45:
            case["fault"] = dk.fault_spec(rng, harmless=0.25, classes=["openr", "read"])
        return case

    def valid(self, case):
        k, v = case["kind"], case["v"]
        if k not in KINDS:
            return False
        if k in params.GEN:
            if k == "ControlPar":
                if len(v["mm"]["n2"]) != len(v["mm"]["d"]) or not v["mm"]["n2"]:
                    return False
                if not len(v["img_base_name"]) == len(v["cal_img_base_name"]) == v["num_cams"]:
                    return False
            if k == "TargetPar" and len(v["gvthresh"]) != 4:
                return False
            if k == "MultiPlanesPar" and len(v["filename"]) != v["num_planes"]:
                return False
            if k == "CalibrationPar" and len(v["img_name"]) != len(v["img_ori0"]):
                return False
            params.make(k, v)
            return True
        if k in ("ori", "addpar"):
            return [len(v[f]) for f in ("pos", "angles", "int", "glass", "added")] == [3, 3, 3, 3, 7]  # fmt: skip
        if k == "filter":
            return len(v) == 9 and min(v) >= -1e-6 and sum(v) <= 1 and min(case["img"]) >= 1
        if k == "man_ori" and (
            len(v) < 4
            or len(case["nr"]) != 2
            or any(len(set(r)) != 4 or not all(1 <= x <= len(v) for x in r) for r in case["nr"])
        ):
            return False
        return bool(v) and all(len(r) == 3 for r in v)

    # -- the files ------------------------------------------------------

    def files(self, case):
        """[(name, bytes)], the damaged one among the first two."""
        k, v = case["kind"], case["v"]
        if k in params.GEN:
            lines, _ = params.legacy(k, v)
            return [("a.par", ("\n".join(lines) + "\n").encode())]
        if k in ("ori", "addpar"):
            dm = values.rotation(v["angles"])
            f = lambda xs: " ".join(f"{x:.16f}" for x in xs) + "\n"
            ori = f(v["pos"]) + f(v["angles"]) + "\n"
            ori += "".join(f(r) for r in dm) + "\n"
            ori += f(v["int"][:2]) + f(v["int"][2:]) + "\n" + f(v["glass"])
            out = [("c.ori", ori.encode()), ("c.addpar", f(v["added"]).encode())]
            return out if k == "ori" else out[::-1]
        if k == "filter":
            rows = [" ".join(f"{x:.6f}" for x in v[i : i + 3]) for i in (0, 3, 6)]
            return [("filter.par", ("\n".join(rows) + "\n").encode())]
        rows = [f"{i + 1} {r[0]:.6f} {r[1]:.6f} {r[2]:.6f}\n" for i, r in enumerate(v)]
        if k == "fixpoints":
            return [("fix.txt", "".join(rows).encode())]
        block = (f"{len(v)}\n" + "".join(rows)).encode()
        if k == "calblock":
            return [("block.txt", block)]
        man = "".join(" ".join(map(str, r)) + "\n" for r in case["nr"]).encode()
        return [("man_ori.dat", man), ("block.txt", block)]

    def read(self, root, case):
        k, v = case["kind"], case["v"]
        p = lambda n: Path(root) / n
        if k in params.GEN:
            obj = params.read_legacy(k, p("a.par"), v, case["alt"])
            out = params.plain(obj)
            values.spoil(obj)
            return out
        if k in ("ori", "addpar"):
            fn = api.read_ori if case["alt"] else api.read_calibration
            cal = fn(p("c.ori"), p("c.addpar"))
            out = values.un_calibration(cal)
            values.spoil(cal)
            return out
        if k == "filter":
            prepare = api.module("image_processing").prepare_image
            return prepare(self.image(case), 1, 2, str(p("filter.par")))
        if k == "fixpoints":
            got = api.module("sortgrid").read_calblock(p("fix.txt"))
            if got is None or len(got) == 0:
                return None
            out = [[float(g["x"]), float(g["y"]), float(g["z"])] for g in got.reshape(-1)]
            values.spoil(got)
            return out
        if k == "calblock":
            fix, n = api.module("orientation").read_calblock(p("block.txt"))
            out = [[float(x) for x in r] for r in fix[:n]]
            values.spoil(fix)
            return out
        got = api.read_man_ori_fix(p("block.txt"), p("man_ori.dat"), case["cam"])
        out = None if got is None else [[float(x) for x in r] for r in got]
        values.spoil(got)
        return out

    def image(self, case):
        h, w, seed = case["img"]
        return np.random.default_rng(seed).integers(0, 256, (h, w)).astype(np.uint8)

    def wrong(self, case, got):
        """How `got` differs from the stored values, or None."""
        k, v = case["kind"], case["v"]
        if k == "filter":
            # the image without this filter, filtered by the stored values
            img = api.module("image_processing").prepare_image(self.image(case), 1, 0)
            h, w = img.shape
            pad = np.zeros((h + 2, w + 2))
            pad[1:-1, 1:-1] = img
            want = sum(
                v[3 * i + j] * pad[i : i + h, j : j + w] for i in range(3) for j in range(3)
            )
            off = float(np.max(np.abs(np.asarray(got, float) - want)))
            return None if off <= 1.001 else f"the filtered image is off by {off}"
        if k in params.GEN:
            return params.differs(params.legacy(k, v)[1], got)
        if k in ("ori", "addpar"):
            return values.calibration_differs(v, got)
        want = v
        if k == "man_ori":
            # row i of the result belongs to the i-th number of the camera's line
            want = [v[n - 1] for n in case["nr"][case["cam"]]]
        if len(got) != len(want):
            return f"{len(want)} points stored, {len(got)} read"
        for i, (a, b) in enumerate(zip(want, got)):
            if any(abs(x - y) > 1e-6 for x, y in zip(a, b)):
                return f"point {i}: {a} stored, {b} read"
        return None

    def incomplete(self, case, i, data):
        """Whether the file must be refused (its promise isn't kept)."""
        k, v = case["kind"], case["v"]
        if data is None:
            return True
        # a name of NULs is a name to a text format
        cut = -1 if k == "MultiPlanesPar" else data.find(b"\0")
        text = (data if cut < 0 else data[:cut]).decode("utf-8", errors="replace")
        name = self.files(case)[i][0]
        lines = text.split("\n")
        if name == "a.par":
            need = len(params.legacy(k, v)[0])
            return len([x for x in lines[:need] if x.strip()]) < need
        if name == "filter.par":
            return len(text.split()) < 9
        if name == "c.ori":
            return len(text.split()) < 21
        if name == "c.addpar":
            return len(lines[0].split()) < 7
        if name == "fix.txt":
            rows = [x for x in lines if x != ""]
            return not rows or any(len(x.split()) < 4 for x in rows)
        if name == "block.txt":
            n = lines[0].strip()
            if not n.isdigit():
                return True
            rows = lines[1 : int(n) + 1]
            if k == "man_ori" and int(n) < 4:
                return True
            return len(rows) < int(n) or any(len(x.split()) < 4 for x in rows)
        row = lines[case["cam"]] if case["cam"] < len(lines) else ""
        return len(row.split()) < 4

    def damaged(self, case, data, nl):
        d = case["damage"]
        at = int(d["at"] * (len(data) + 1))
        if d["kind"] == "cut":
            return data[:at]
        if d["kind"] == "line":
            lines = data.split(b"\n")
            return b"\n".join(lines[: int(d["at"] * len(lines))])
        if d["kind"] == "nul":
            return data[:at] + b"\0" * (len(data) - at)
        if d["kind"] == "empty":
            return b""
        return None

    def run(self, case, ctx):
        root = ctx.scratch
        files = self.files(case)
        for n, b in files:
            dk.put(root, n, b)
        hurt = must = False
        if case["damage"]:
            i = case["damage"]["file"] % len(files)
            new = self.damaged(case, files[i][1], ctx)
            if new != files[i][1]:
                hurt = True
                ctx.fault(f"stored file {case['damage']['kind']}")
                if new is None:
                    os.unlink(os.path.join(root, files[i][0]))
                else:
                    dk.put(root, files[i][0], new)
                must = self.incomplete(case, i, new)
        disk = SimDisk(root, ctx, case["buf"])
        with disk:
            for n in range(3):
                # twice under the fault, then without
                out = attempt(
                    disk, lambda: self.read(root, case), [case["fault"]] if n < 2 else []
                )
                bad = disk.harmful()
                took = out.how == "ok" and out.value is not None
                ctx.sim_time += 1
                ctx.event(case["kind"], hurt, must, bool(bad), took)
                what = f"{case['kind']} {'damaged' if hurt else 'intact'}, read {n}"
                if must:
                    ctx.probe("incomplete file")
                    expect(not took, "incomplete input accepted", f"{what}: {out.value}")
                elif took and not hurt:
                    d = self.wrong(case, out.value)
                    expect(d is None, "input read wrong", f"{what}: {d}")
                elif not took:
                    expect(hurt or bad, "intact input refused", f"{what}: {out}")
                    if bad:
                        ctx.probe("read error reported")

    def nontrivial(self, case, ctx):
        return bool(ctx.faults)

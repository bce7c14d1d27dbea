"""X01: independent work in one process doesn't interfere."""

import os
import random

import numpy as np

from .. import api, calib, disk as dk, images, matching as mt, params, threads, tracking as tk, values, world
from ..core import Check, expect

KINDS = [
    "positions", "positions", "project", "match", "match", "targets", "frames", "track", "track",
    "calibrate", "pair", "ori", "table", "yaml", "epipolar",
    "detect", "detect", "legacy",
]


def hexed(x):
    """Exactly comparable and picklable."""
    if isinstance(x, (list, tuple)):
        return [hexed(y) for y in x]
    if isinstance(x, np.ndarray):
        return hexed(x.tolist())
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    if isinstance(x, (int, np.integer)):
        return int(x)
    return x


class Work:
    """What a thread does: a pure function of its specification, the shared cameras
    and parameters, and a directory of its own."""

    def __init__(self, spec, shared, root):
        self.s, self.shared, self.root = spec, shared, root
        self.cals, self.cpar = shared["cals"], shared["cpar"]
        self.w = shared["world"]
        getattr(self, "prepare_" + spec["kind"])()

    def __call__(self):
        return hexed(getattr(self, "do_" + self.s["kind"])())

    # positions of points some cameras lost

    def prepare_positions(self):
        rng = random.Random(self.s["seed"])
        nc = self.w.num_cams
        self.obs = np.full((self.s["n"], nc, 2), -1e10)
        for i in range(self.s["n"]):
            p = [rng.uniform(-12, 12) for _ in range(3)]
            lost = rng.sample(range(nc), rng.randrange(0, nc - 1))
            for c in range(nc):
                if c not in lost:
                    self.obs[i, c] = self.w.flat(c, p)
        self.vpar = self.w.vpar()

    def do_positions(self):
        pos, err = api.point_positions(self.obs.copy(), self.cpar.mm, self.cals, self.vpar)
        return [pos, err]

    # projections and back

    def prepare_project(self):
        rng = random.Random(self.s["seed"])
        self.pts = np.array([[rng.uniform(-12, 12) for _ in range(3)] for _ in range(self.s["n"])])

    def do_project(self):
        out = []
        for cal in self.cals:
            m = api.image_coordinates(self.pts, cal, self.cpar.mm)
            px = api.arr_metric_to_pixel(m, self.cpar)
            back = [api.pixel_to_metric(x, y, self.cpar) for x, y in px]
            flat = [api.dist_to_flat(x, y, cal, 1e-7) for x, y in back]
            out.append([m, px, back, flat])
        return out

    # epipolar lines

    def prepare_epipolar(self):
        rng = random.Random(self.s["seed"])
        self.px = [
            [rng.uniform(100, self.w.imx - 100), rng.uniform(100, self.w.imy - 100)]
            for _ in range(self.s["n"])
        ]
        self.vpar = self.w.vpar()

    def do_epipolar(self):
        return [
            api.epipolar_curve(np.array(p), self.cals[0], self.cals[1], 3, self.cpar, self.vpar)
            for p in self.px
        ]

    # matching

    def prepare_match(self):
        self.scene = mt.Scene(dict(self.s["scene"], world=self.w.spec))

    def do_match(self):
        sc = self.scene
        T = sc.targets()
        cor = [api.match_coords(t, self.cpar, c) for t, c in zip(T, self.cals)]
        counts = [0] * 4
        con = api.correspondences(sc.frame(T), cor, sc.vpar(self.s["par"]), self.cpar, self.cals, counts)
        return [
            counts,
            [[int(con[i].p[c]) for c in range(sc.nc)] + [float(con[i].corr)] for i in range(counts[3])],
            [[t.tnr for t in ts] for ts in T],
        ]

    # target files

    def prepare_targets(self):
        os.makedirs(self.root, exist_ok=True)

    def do_targets(self):
        out = []
        for k, rows in enumerate(self.s["lists"]):
            base = os.path.join(self.root, "cam%d.%%05d" % (k % 2))
            ok = api.write_targets(values.mk_targets(rows), len(rows), base, k)
            out.append([bool(ok), values.un_targets(api.read_targets(base, k))])
        return out

    # frame files

    def prepare_frames(self):
        os.makedirs(self.root, exist_ok=True)

    def do_frames(self):
        out = []
        names = [os.path.join(self.root, n) for n in ("rt_is", "ptv_is", "added")]
        for k, rows in enumerate(self.s["rows"]):
            cor, path = values.mk_path(rows)
            ok = api.write_path_frame(cor, path, len(rows), *names, k)
            out.append([bool(ok), values.un_path(*api.read_path_frame(*names, k))])
        return out

    # tracking

    def prepare_track(self):
        self.scene = tk.Scene(dict(self.s["scene"], world=self.w.spec))

    def do_track(self):
        self.scene.store(self.root)
        kit = (self.cals, self.cpar)
        tk.Stepper(self.scene, self.root, kit).all()
        if self.s["back"]:
            tk.backward(self.scene, self.root, kit)
        return sorted((n, d.decode()) for n, d in dk.snapshot(self.root).items())

    # calibration of a camera of its own

    def prepare_calibrate(self):
        self.block = calib.Block(self.s["block"])

    def do_calibrate(self):
        b = self.block
        cal = b.guess()
        try:
            r, u, e = api.full_calibration(cal, b.pts, b.paired(), b.w.cpar(), b.flags([]))
        except ValueError:
            return ["didn't settle", calib.bits(cal)]
        return [r, u, e, calib.bits(cal)]

    # pairing with the dots of a block

    def prepare_pair(self):
        self.block = calib.Block(dict(self.s["block"], world=dict(self.w.spec, cams=self.w.spec["cams"][:1])))

    def do_pair(self):
        b = self.block
        dots, _ = b.detections(self.s["seed"])
        got = api.match_detection_to_ref(self.cals[0], b.pts, dots, self.cpar, 10)
        return [[t.pnr, t.x, t.y, t.n, t.sumg] for t in got]

    # calibration files

    def prepare_ori(self):
        os.makedirs(self.root, exist_ok=True)

    def do_ori(self):
        from pathlib import Path

        out = []
        for k, v in enumerate(self.s["cams"]):
            p = os.path.join(self.root, f"cam{k}")
            api.write_calibration(values.mk_calibration(v), p + ".ori", p + ".addpar")
            got = values.un_calibration(api.read_calibration(Path(p + ".ori"), Path(p + ".addpar")))
            out.append([got[f] for f in sorted(got)])
        return out

    # refraction tables of cameras of its own

    def prepare_table(self):
        rng = random.Random(self.s["seed"])
        self.pts = np.array([[rng.uniform(-8, 8) for _ in range(3)] for _ in range(4)])

    def do_table(self):
        cal = self.w.cal(self.s["seed"] % self.w.num_cams)
        vpar = self.w.vpar(xlim=8.0, zlim=8.0)
        api.init_mmlut(vpar, self.cpar, cal)
        return [
            [cal.mmlut.nr, cal.mmlut.nz, cal.mmlut_data],
            [api.get_mmf_from_mmlut(cal, p) for p in self.pts],
        ]

    # parameters kept as yaml

    def prepare_yaml(self):
        os.makedirs(self.root, exist_ok=True)

    def do_yaml(self):
        from pathlib import Path

        out = []
        for k, n3 in enumerate(self.s["n3"]):
            p = Path(self.root) / f"par{k}.yaml"
            par = self.w.cpar()
            par.mm.n3 = n3
            par.to_yaml(p)
            got = api.ControlPar.from_yaml(p)
            out.append([got.num_cams, got.imx, got.imy, got.pix_x, got.mm.n1, got.mm.n2, got.mm.n3, got.mm.d])
        return out


    # detection in an image of its own, with shared parameters

    def prepare_detect(self):
        self.img = images.render(self.s["blobs"], 18, 14, 12, self.s["seed"], int, [["hot pixel", 5, 6]])
        self.tpar = self.shared["tpar"]
        self.small = api.ControlPar(num_cams=4, imx=18, imy=14, pix_x=0.01, pix_y=0.01)

    def do_detect(self):
        out = []
        for cam in self.s["cams"]:
            got = api.target_recognition(self.img, self.tpar, cam, self.small)
            out.append([[t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr] for t in got])
        return out

    # parameters kept in files of one value per line

    def prepare_legacy(self):
        os.makedirs(self.root, exist_ok=True)

    def do_legacy(self):
        from pathlib import Path

        out = []
        for k, (cls, v) in enumerate(self.s["pars"]):
            dk.put(self.root, f"{k}.par", ("\n".join(params.legacy(cls, v)[0]) + "\n").encode())
            got = params.read_legacy(cls, Path(self.root) / f"{k}.par", v, k % 2 == 1)
            out.append(repr(params.plain(got)))
        return out


def gen_work(rng, w):
    kind = rng.choice(KINDS)
    s = {"kind": kind, "seed": rng.randrange(1 << 30)}
    nc = len(w["cams"])
    if kind in ("positions", "project", "epipolar"):
        s["n"] = rng.choice([1, 2, 4])
    if kind == "match":
        m = mt.gen(rng, cams=nc, bodies=rng.choice([1, 2, 4]))
        m["ghosts"] = [g for g in m["ghosts"] if g[1] < w["imx"] - 3 and g[2] < w["imy"] - 3][:10]
        del m["world"]
        s["scene"] = m
        s["par"] = mt.params(rng, w["pix"])
    if kind == "targets":
        s["lists"] = [values.targets(rng, rng.choice([1, 3, 6])) for _ in range(rng.choice([1, 3]))]
    if kind == "frames":
        s["rows"] = [values.particles(rng, rng.choice([1, 3])) for _ in range(rng.choice([1, 3]))]
    if kind == "track":
        t = tk.gen(rng, cams=nc, n_parts=rng.choice([1, 2]), frames=4, faults=rng.random() < 0.5)
        t["ghosts"] = t["ghosts"][:6]
        del t["world"]
        s["scene"] = t
        s["back"] = rng.random() < 0.5
    if kind in ("calibrate", "pair"):
        s["block"] = calib.gen(rng, n=8)
        if kind == "pair":
            del s["block"]["world"]
    if kind == "ori":
        s["cams"] = [values.calibration(rng) for _ in range(rng.choice([1, 3]))]
    if kind == "detect":
        s["blobs"] = [
            [round(rng.uniform(0, 18), 2), round(rng.uniform(0, 14), 2), rng.choice([0.7, 1.5]), rng.choice([90, 240])]
            for _ in range(rng.choice([1, 2, 4]))
        ]
        s["cams"] = [rng.randrange(4) for _ in range(rng.choice([1, 2]))]
    if kind == "legacy":
        s["pars"] = []
        for _ in range(rng.choice([1, 3])):
            cls = rng.choice(params.LEGACY)
            s["pars"].append([cls, params.GEN[cls](rng)])
    if kind == "yaml":
        s["n3"] = [rng.choice([1.33, 1.4, 1.0]) for _ in range(rng.choice([1, 2]))]
    return s


def valid_work(s, w):
    k = s["kind"]
    one = dict(w, cams=w["cams"][:1])
    if k == "match":
        return mt.valid(dict(s["scene"], world=w)) and mt.valid_params(s["par"])
    if k == "track":
        return tk.valid(dict(s["scene"], world=w))
    if k == "calibrate":
        return calib.valid(s["block"])
    if k == "pair":
        return calib.valid(dict(s["block"], world=one))
    if k == "targets":
        return all(len(r) == 8 for x in s["lists"] for r in x)
    if k == "frames":
        return all(len(r) == 10 for x in s["rows"] for r in x)
    if k == "ori":
        return all(
            [len(v[f]) for f in ("pos", "angles", "int", "glass", "added")] == [3, 3, 3, 3, 7]
            and sum(abs(g) for g in v["glass"]) > 1e-3
            for v in s["cams"]
        )
    if k == "detect":
        return all(0 <= c < 4 for c in s["cams"]) and all(len(b) == 4 and b[2] > 0.3 for b in s["blobs"])
    if k == "legacy":
        return all(valid_par(*x) for x in s["pars"])
    if k == "yaml":
        return all(1 <= x < 2 for x in s["n3"])
    return 1 <= s.get("n", 1) < 10


def valid_par(cls, v):
    from .s07_inputs import S07

    return cls in params.LEGACY and S07().valid({"kind": cls, "v": v})


class X01(Check):
    pid = "X01"
    quick_runs = 500
    thorough_runs = 20000
    jit_share = 0
    rule = (
        "two to four threads do work of their own (positions, projection, matching, tracking, "
        "calibration, tables, files) with cameras and parameters they share, switched between "
        "lines by a seeded schedule and aborted at seeded lines and repeated; each must get what "
        "it gets alone in a fresh process; non-trivial when threads switched in the middle of work"
    )
    real = ["all library functions the threads call", "threads of the interpreter"]
    stub = ["the scheduler: one thread runs at a time, switches are seeded", "aborts: injected between lines"]
    time_unit = "lines of the library executed under the scheduler"
    assumptions = ["switches between lines, not within them"]

    def gen(self, rng, index):
        w = world.gen(rng)
        n = rng.choice([2, 2, 3, 4])
        work = [gen_work(rng, w) for _ in range(n)]
        if rng.random() < 0.5:  # several threads on the same kind of work
            for k in range(1, n):
                while work[k]["kind"] != work[0]["kind"]:
                    work[k] = gen_work(rng, w)
        sched = []
        fine = rng.random() < 0.5
        for _ in range(rng.choice([2, 5, 20, 60, 200])):
            x = rng.choice([1, 2, 5, rng.randrange(1, 40)]) if fine and rng.random() < 0.8 else round(rng.random() * 0.4, 4)
            sched.append([rng.randrange(n), x])
        aborts = []
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                aborts.append([rng.randrange(n), round(rng.random(), 4)])
        return {"world": w, "work": work, "schedule": sched, "aborts": aborts}

    def valid(self, case):
        return (
            world.valid(case["world"])
            and len(case["world"]["cams"]) >= 2
            and case["work"]
            and all(valid_work(s, case["world"]) for s in case["work"])
            and all(len(x) == 2 and x[1] >= 0 for x in case["schedule"] + case["aborts"])
        )

    def shared(self, w):
        tpar = api.TargetPar(
            gvthresh=[30, 60, 20, 120], discont=90, nnmin=1, nnmax=100, nxmin=1, nxmax=15,
            nymin=1, nymax=15, sumg_min=10, cr_sz=2,
        )  # fmt: skip
        return {"world": w, "cals": w.cals(), "cpar": w.cpar(), "tpar": tpar}

    def state(self, sh):
        return [calib.bits(c) for c in sh["cals"]], repr(sh["cpar"]), repr(sh["tpar"])

    def jobs(self, case, w, shared, name, ctx):
        return [
            Work(s, shared, os.path.join(ctx.scratch, f"{name}{k}"))
            for k, s in enumerate(case["work"])
        ]

    def run(self, case, ctx):
        w = world.World(case["world"])
        for k in list(api._MODULES):
            api.module(k)
        alone, totals = [], []
        for k, s in enumerate(case["work"]):
            one = lambda: threads.counted(
                Work(s, self.shared(w), os.path.join(ctx.scratch, f"w{k}"))
            )
            r, n = threads.apart(one)
            alone.append(r)
            totals.append(n)
        sh = self.shared(w)
        before = self.state(sh)
        import shutil

        for k in range(len(case["work"])):
            shutil.rmtree(os.path.join(ctx.scratch, f"w{k}"), ignore_errors=True)
        t = threads.Turns(
            self.jobs(case, w, sh, "w", ctx), case["schedule"], totals, case["aborts"], ctx
        )
        got = t.run()
        ctx.sim_time += t.all_lines
        ctx.event(t.trace)
        ctx.probe("switches", t.switches)
        for k, s in enumerate(case["work"]):
            ctx.probe(s["kind"])
            expect(
                t.error[k] is None,
                "work fails in company",
                lambda: f"thread {k} ({s['kind']}): {type(t.error[k]).__name__}: {t.error[k]}",
            )
            expect(
                got[k] == alone[k],
                "work disturbed by others",
                lambda: f"thread {k} ({s['kind']}): {first(got[k], alone[k])}",
            )
        expect(self.state(sh) == before, "shared inputs changed", lambda: f"{first(self.state(sh), before)}")

    def nontrivial(self, case, ctx):
        return ctx.probes.get("switches", 0) > len(case["work"])


def first(a, b, path=""):
    """Where two results differ first."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} and {len(b)} items"
        for i, (x, y) in enumerate(zip(a, b)):
            d = first(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r}, alone {b!r}"

"""T04: tracking is a function of the stored sequence: restarts and company don't change it."""

import os
from dataclasses import asdict
from pathlib import Path

from .. import api, disk as dk, params, tracking as tk, world
from ..core import Check, expect
from ..disk import SimCrash, SimDisk


def differ(a, b):
    """None, or the first file two directories differ in."""
    for name in sorted(set(a) | set(b)):
        if a.get(name) != b.get(name):
            if name not in a or name not in b:
                return f"{name}: only in one of them"
            x, y = a[name].decode().split("\n"), b[name].decode().split("\n")
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    return f"{name} line {i}: {p!r}, {q!r}"
            return f"{name}: {len(x)} and {len(y)} lines"
    return None


def asdict_(t):
    names = "dvxmin dvxmax dvymin dvymax dvzmin dvzmax dangle dacc add".split()
    return {k: getattr(t, k) for k in names}


def apart(job):
    """Do a job in a process of its own, of which only the files remain."""
    pid = os.fork()
    if not pid:
        code = 1
        try:
            job()
            code = 0
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    expect(status == 0, "tracking failed", f"status {status}")


class T04(Check):
    pid = "T04"
    quick_runs = 400
    thorough_runs = 20000
    jit_share = 0
    rule = (
        "simulated sequences are tracked alone, again on the result, with the camera objects "
        "of an earlier set-up altered in place, in turns with another "
        "sequence under a seeded schedule of steps, and after a crash at any disk operation "
        "followed by a restart; the files left are compared byte by byte; non-trivial when "
        "a crash struck or the schedule switched"
    )
    real = ["TrackingRun", "trackcorr_c_loop", "trackback_c", "FrameBuf and its files"]
    stub = [
        "cameras, detection and matching: simulated with seeded faults",
        "disk: seeded crashes at every raw operation",
    ]
    time_unit = "frames tracked"

    def gen(self, rng, index):
        mode = rng.choice(["turns", "turns", "crash", "crash", "crash", "again", "moved", "moved", "files"])
        case = {"mode": mode, "buf": rng.choice([1, 16, 200, 8192])}
        add = 0 if mode in ("again", "crash") else None
        case["scenes"] = [
            tk.gen(rng, add=add, n_parts=rng.choice([1, 2, 3]), frames=rng.choice([4, 5, 6]))
        ]
        if case["scenes"][0]["tpar"]["add"] and rng.random() < 0.4:
            tk.kink(rng, case["scenes"][0])
        if mode == "turns":
            case["scenes"].append(
                tk.gen(rng, n_parts=rng.choice([1, 2, 3]), frames=rng.choice([4, 5]))
            )
            case["turns"] = [rng.randrange(2) for _ in range(20)]
        if mode == "moved":
            # the same objects served the experiment as it was set up before
            case["earlier"] = world.moved(rng, case["scenes"][0]["world"])
        if mode == "crash":
            case["crashes"] = [
                dict(dk.fault_spec(rng), crash=True) for _ in range(rng.choice([1, 1, 2]))
            ]
            case["between"] = rng.random() < 0.2
        case["back"] = rng.random() < 0.4
        return case

    def valid(self, case):
        return (
            len(case["scenes"]) == (2 if case["mode"] == "turns" else 1)
            and all(tk.valid(s) for s in case["scenes"])
            and (
                case["mode"] != "moved"
                or world.valid(case["earlier"])
                and len(case["earlier"]["cams"]) == len(case["scenes"][0]["world"]["cams"])
            )
            and case["buf"] >= 1
        )

    def run(self, case, ctx):
        scenes = [tk.Scene(s, ctx) for s in case["scenes"]]
        alone = os.path.join(ctx.scratch, "alone")
        other = os.path.join(ctx.scratch, "other")
        roots = lambda base: [os.path.join(base, str(i)) for i in range(len(scenes))]
        disk = SimDisk(ctx.scratch, ctx, case["buf"])
        self.stored = {}
        with disk:
            counts = {}
            for sc, r in zip(scenes, roots(alone)):
                sc.store(r)
                disk.arm([])
                if case["mode"] == "moved":
                    apart(lambda: self.track(sc, r, case))
                else:
                    tk.Stepper(sc, r).all()
                    counts = dict(disk.counts)
                    if case["back"]:
                        tk.backward(sc, r)
                ctx.sim_time += sc.s["n"]
            ref = dk.snapshot(alone)
            for sc, r in zip(scenes, roots(other)):
                sc.store(r)
                ctx.sim_time += sc.s["n"]
            getattr(self, case["mode"])(case, ctx, disk, scenes, roots(other), counts)
            if case["back"] and case["mode"] != "moved":
                for sc, r in zip(scenes, roots(other)):
                    tk.backward(sc, r)
            d = differ(ref, dk.snapshot(other))
        expect(d is None, "tracking not repeatable", lambda: f"{case['mode']}: {d}")
        ctx.event(case["mode"], len(ref))

    def track(self, sc, root, case, kit=None):
        tk.Stepper(sc, root, kit).all()
        if case["back"]:
            tk.backward(sc, root, kit)

    def moved(self, case, ctx, disk, scenes, roots, counts):
        """With cameras and parameters that were others before, and altered since."""
        sc, root = scenes[0], roots[0]
        then = world.World(case["earlier"])
        kit = (then.cals(), then.cpar())
        self.track(sc, root, case, kit)
        sc.store(root)
        for name in os.listdir(os.path.join(root, "res")):
            if not name.startswith("rt_is"):
                os.remove(os.path.join(root, "res", name))
        sc.w.alter(kit[0], cpar=kit[1])
        self.track(sc, root, case, kit)
        ctx.sim_time += sc.s["n"]
        ctx.probe("objects altered between runs")

    def files(self, case, ctx, disk, scenes, roots, counts):
        """With the parameters as they were written to files."""
        sc, root = scenes[0], roots[0]
        run = sc.run(root)
        tpar = {**asdict_(run.tpar)}
        lines = {
            "seq": params.legacy("SequencePar", asdict(run.seq_par))[0],
            "track": params.legacy("TrackPar", tpar)[0],
            "vol": params.legacy("VolumePar", asdict(sc.vpar()))[0],
            "control": params.legacy("ControlPar", asdict(run.cpar))[0],
        }
        for k, v in lines.items():
            dk.put(root, f"{k}.par", ("\n".join(v) + "\n").encode())
        name = lambda k: Path(root) / f"{k}.par"
        st = tk.Stepper(sc, root)
        st.tr = api.tr_new(
            name("seq"), name("track"), name("vol"), name("control"), 4, 64,
            *sc.names(root), sc.w.cals(), 1e-4,
        )
        for k in lines:
            os.unlink(name(k))
        api.track_forward_start(st.tr)
        st.at = sc.first
        st.all()
        ctx.probe("parameters from files")

    def again(self, case, ctx, disk, scenes, roots, counts):
        for _ in range(2):
            tk.Stepper(scenes[0], roots[0]).all()
        ctx.probe("tracked again")

    def turns(self, case, ctx, disk, scenes, roots, counts):
        st = [tk.Stepper(sc, r) for sc, r in zip(scenes, roots)]
        last = None
        for k in list(case["turns"]) + [0] * 40 + [1] * 40:
            k = k % 2
            if st[k].done:
                continue
            if last is not None and last != k:
                ctx.probe("switches")
            last = k
            st[k].step()
            ctx.event("step", k, st[k].at)
        for s in st:
            while not s.done:
                s.step()

    def crash(self, case, ctx, disk, scenes, roots, counts):
        sc, root = scenes[0], roots[0]
        for spec in case["crashes"]:
            fault = dk.resolve(spec, counts)
            disk.arm([fault] if fault else [])
            st = tk.Stepper(sc, root)
            try:
                if case["between"]:
                    disk.arm([])
                    for _ in range(int(spec["at"] * (sc.s["n"] + 2))):
                        if not st.step():
                            break
                    ctx.fault("crash between steps")
                else:
                    st.all()
            except SimCrash:
                ctx.probe("crashed")
            ctx.event("crashed in", st.at)
            del st
            import gc

            gc.collect(0)
            disk.dead = False
            disk.arm([])
            # what the crash tore is put back; what it left whole stays
            torn = []
            for k, o in enumerate(sc.result(root, links=False)):
                if o["rows"] is None or any(t is None for t in o["targets"]):
                    torn.append(k)
                elif len(o["rows"]) != len(sc.frames[k]["parts"]):
                    torn.append(k)
                elif any(len(a) != len(b) for a, b in zip(o["targets"], sc.frames[k]["targets"])):
                    torn.append(k)
            # a file cut within its last number can't be told from a whole one
            for k in range(sc.s["n"]):
                if k not in torn and self.altered(sc, root, k):
                    torn.append(k)
            expect(len(torn) <= 1, "crash tore several frames", lambda: f"frames {torn}")
            if torn:
                ctx.probe("frame torn")
            sc.store(root, only=torn)
        tk.Stepper(sc, root).all()

    def altered(self, sc, root, k):
        o = sc.result(root, links=False)[k]
        f = sc.frames[k]
        for a, b in zip(f["parts"], o["rows"]):
            if any(abs(x - y) > 1e-9 for x, y in zip(a, b[:7])):
                return True
        for ta, tb in zip(f["targets"], o["targets"]):
            for a, b in zip(ta, tb):
                if any(abs(x - y) > 1e-9 for x, y in zip(a, b)):
                    return True
        return False

    def nontrivial(self, case, ctx):
        return bool(
            ctx.probes.get("crashed")
            or ctx.probes.get("switches")
            or ctx.faults.get("crash between steps")
            or ctx.probes.get("tracked again")
            or ctx.probes.get("parameters from files")
            or ctx.probes.get("objects altered between runs")
        )

"""S04: a write that failed is never acknowledged, and hurts nothing else."""

import importlib
import json

from .. import api, disk as dk, params, values
from ..core import Check, expect
from ..disk import SimDisk, attempt


def _stores():
    from .s01_targets import Targets
    from .s02_frames import PathFrames
    from .s05_calibration import Calibrations
    from .s06_parameters import Params

    return {
        "targets": Targets(),
        "frames": PathFrames(),
        "ring": Ring(),
        "calibration": Calibrations(),
        "parameters": Params(),
    }


class Ring:
    """A whole frame written from the start of a frame buffer."""

    def __new__(cls):
        from .s02_frames import PathFrames

        class _Ring(PathFrames):
            def slots(self, rng):
                out = super().slots(rng)
                for s in out:
                    s["cams"] = max(1, s["cams"])
                return out

            def write(self, root, slot, v):
                fb = api.FrameBuf(
                    4, slot["cams"], 4, *self.bases(root, slot), self.tbases(root, slot)
                )
                f = fb.buf[0]
                f.correspond, f.path_info = values.mk_path(v["rows"], v["extra"])
                f.num_parts = len(v["rows"])
                for c, t in enumerate(v["targets"]):
                    f.targets[c] = values.mk_targets(t)
                    f.num_targets[c] = len(t)
                return fb.write_frame_from_start(slot["frame"])

        return _Ring()


class S04(Check):
    pid = "S04"
    level = "exploration"
    quick_runs = 3000
    thorough_runs = 40000
    jit_share = 0
    rule = (
        "one write by one of the library's writers over existing files, repeated once "
        "for every raw operation it makes, with a seeded harmful fault or crash at that "
        "operation; non-trivial when at least one fault fired"
    )
    real = ["write_targets", "write_path_frame", "Frame.write", "FrameBuf.write_frame_from_start", "write_calibration", "Calibration.write", "write_ori", "Parameters.to_yaml", "write_target_par", "PftVersionPar.write"]  # fmt: skip
    stub = ["disk: open, write, close and rename errors, partial writes, crashes"]
    time_unit = "writes attempted"
    assumptions = ["a crash is a process crash: what reached the system survives"]

    def gen(self, rng, index):
        stores = _stores()
        name = rng.choice(sorted(stores))
        st = stores[name]
        slots = st.slots(rng)
        s = rng.randrange(len(slots))
        v = st.value(rng, slots[s])
        return {
            "store": name,
            "buf": max(rng.choice([1, 9, 64, 500, 8192]), len(json.dumps(v)) // 100),
            "slots": slots,
            "old": [st.value(rng, x) if rng.random() < 0.8 else None for x in slots],
            "s": s,
            "v": v,
            "kinds": [round(rng.random(), 3) for _ in range(7)],
            "fracs": [round(rng.random(), 3) for _ in range(5)] + [0.0],
            "crashes": rng.random() < 0.5,
            "max": 60,
        }

    def valid(self, case):
        name = {"targets": "s01_targets", "frames": "s02_frames", "ring": "s02_frames", "calibration": "s05_calibration", "parameters": "s06_parameters"}[case["store"]]  # fmt: skip
        mod = importlib.import_module("sim.checks." + name)
        check = getattr(mod, name[:3].upper())()
        ops = [{"op": "write", "s": case["s"], "v": case["v"]}]
        if case["s"] >= len(case["slots"]) or len(case["old"]) < len(case["slots"]):
            return False
        for i in range(len(case["slots"])):
            if case["old"][i] is not None:
                ops.append({"op": "write", "s": i, "v": case["old"][i]})
        if not case["kinds"] or not case["fracs"]:
            return False
        return check.valid({"slots": case["slots"], "ops": ops})

    def run(self, case, ctx):
        st = _stores()[case["store"]]
        root = ctx.scratch
        slot = case["slots"][case["s"]]
        disk = SimDisk(root, ctx, case["buf"])
        with disk:
            own_before = {}
            for i, v in enumerate(case["old"][: len(case["slots"])]):
                if v is None or i == case["s"]:
                    continue
                out = attempt(disk, lambda: st.write(root, case["slots"][i], v))
                expect(out.how == "ok" and out.value, "healthy write failed", str(out))
            others = dk.snapshot(root)
            if case["old"][case["s"]] is not None:
                st.write(root, slot, case["old"][case["s"]])
            before = dk.snapshot(root)
            disk.arm([])
            out = attempt(disk, lambda: st.write(root, slot, case["v"]))
            expect(out.how == "ok" and out.value, "healthy write failed", str(out))
            self.check_value(st, disk, case, slot, "healthy write")
            dk.restore(root, before)
            disk.arm([])
            disk.trace = []
            st.write(root, slot, case["v"])
            trace = [c for c, _ in disk.trace]
            n_ops = len(trace)
            step = max(1, -(-n_ops // case["max"]))
            seen = {}
            for k in range(n_ops):
                cls = trace[k]
                nth = seen.get(cls, 0)
                seen[cls] = nth + 1
                if k % step:
                    continue
                kinds = [x for x in dk.KINDS.get(cls, []) if x not in dk.HARMLESS]
                if case["crashes"] and k % 2:
                    kinds = ["crash"]
                if not kinds:
                    continue
                u = case["kinds"][k % len(case["kinds"])]
                kind = kinds[min(int(u * len(kinds)), len(kinds) - 1)]
                frac = case["fracs"][k % len(case["fracs"])]
                dk.restore(root, before)
                disk.arm([{"on": cls, "nth": nth, "kind": kind, "frac": frac}])
                out = self.once(disk, lambda: st.write(root, slot, case["v"]))
                fired = disk.fired
                disk.dead = False
                disk.arm([])
                ctx.sim_time += 1
                ack = out == "ack"
                where = f"{kind} at operation {k} ({cls}) of {n_ops}"
                ctx.event(k, cls, kind, out)
                if ack:
                    ctx.probe("acknowledged in spite of the fault")
                    self.check_value(st, disk, case, slot, f"write acknowledged after {where}")
                else:
                    expect(fired, "healthy write failed", f"{out}: no fault fired")
                    ctx.probe("refused" if out != "crash" else "crashed")
                after = dk.snapshot(root)
                for rel, data in others.items():
                    expect(
                        after.get(rel) == data,
                        "failed write damaged another file",
                        f"{where}: {rel}",
                    )
                # the fault is over: the same write goes through
                if k % 3 == 0:
                    out = attempt(disk, lambda: st.write(root, slot, case["v"]))
                    expect(
                        out.how == "ok" and out.value,
                        "no recovery after a fault",
                        f"after {where}: {out}",
                    )
                    self.check_value(st, disk, case, slot, f"rewrite after {where}")

    def once(self, disk, thunk):
        try:
            return "ack" if thunk() else "refused"
        except dk.SimCrash:
            return "crash"
        except Exception as e:
            e.__traceback__ = None
            return f"refused {type(e).__name__}"

    def check_value(self, st, disk, case, slot, what):
        out = attempt(disk, lambda: st.read(disk.root, slot, 0))
        expect(
            out.how == "ok" and out.value is not None,
            "acknowledged write unreadable",
            f"{what}: {slot}: {out}",
        )
        d = st.differs(case["v"], out.value, slot, 0)
        expect(d is None, "acknowledged write incomplete", f"{what}: {slot}: {d}")

    def nontrivial(self, case, ctx):
        return bool(ctx.faults)

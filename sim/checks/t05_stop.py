"""T05: tracking stops at a disk fault, and what it finished stays."""

import gc
import os

from .. import disk as dk, tracking as tk
from ..core import Check, expect
from ..disk import SimDisk


def files_of(sc, snap, k):
    """The stored files of frame k."""
    n = sc.first + k
    out = {}
    for name, data in snap.items():
        base = os.path.basename(name)
        if base.endswith(f".{n}") or base.endswith(".%05d_targets" % n):
            out[name] = data
    return out


def by_frame(sc, snap):
    return [files_of(sc, snap, k) for k in range(sc.s["n"])]


class T05(Check):
    pid = "T05"
    quick_runs = 300
    thorough_runs = 15000
    jit_share = 0
    rule = (
        "simulated sequences are tracked forward and backward while opens, reads, writes and "
        "closes fail (or are cut short, which is legal) at seeded operations, or a frame is "
        "missing or torn from the start; "
        "non-trivial when a fault struck during tracking"
    )
    real = ["TrackingRun", "trackcorr_c_loop", "trackback_c", "FrameBuf and its files"]
    stub = [
        "cameras, detection and matching: simulated with seeded faults",
        "disk: seeded errors at every raw operation",
    ]
    time_unit = "frames tracked"

    def gen(self, rng, index):
        case = {
            "scene": tk.gen(rng, n_parts=rng.choice([0, 1, 2, 3]), frames=rng.choice([4, 5, 6])),
            "buf": rng.choice([8, 64, 400, 8192]),
            "back": rng.random() < 0.4,
            "faults": [],
        }
        for _ in range(4):
            k = rng.random()
            if k < 0.75:
                case["faults"].append(dk.fault_spec(rng, harmless=0.2))
            else:
                case["faults"].append(
                    {
                        "lost": rng.randrange(6),
                        "file": rng.randrange(10),
                        "cut": rng.choice([None, None, 0.0, rng.random() * 0.9]),
                    }
                )
        return case

    def valid(self, case):
        return tk.valid(case["scene"]) and case["buf"] >= 1 and case["faults"]

    def run(self, case, ctx):
        sc = tk.Scene(case["scene"], ctx)
        root = os.path.join(ctx.scratch, "d")
        disk = SimDisk(ctx.scratch, ctx, case["buf"])
        with disk:
            sc.store(root)
            before = dk.snapshot(root)
            if case["back"]:
                tk.Stepper(sc, root).all()
                before = dk.snapshot(root)
            disk.arm([])
            self.track(case, sc, root)
            counts = dict(disk.counts)
            after = dk.snapshot(root)
            for k, spec in enumerate(case["faults"]):
                self.fault(case, ctx, disk, sc, root, before, after, counts, spec, k)
            # the faults are over: the same sequence is tracked again
            dk.restore(root, before)
            disk.arm([])
            self.track(case, sc, root)
            expect(dk.snapshot(root) == after, "no recovery after a fault", "results differ")

    def track(self, case, sc, root):
        self.at = None
        if case["back"]:
            tk.backward(sc, root)
        else:
            st = self.st = tk.Stepper(sc, root)
            st.all()

    def fault(self, case, ctx, disk, sc, root, before, after, counts, spec, k):
        dk.restore(root, before)
        have = before
        if "lost" in spec:
            mine = sorted(files_of(sc, before, spec["lost"] % sc.s["n"]))
            if not mine:
                return
            name = mine[spec["file"] % len(mine)]
            # only what tracking reads
            if not case["back"] and "rt_is" not in name and "_targets" not in name:
                return
            path = os.path.join(root, name)
            data = before[name]
            lines = data.split(b"\n")
            if spec["cut"] is None:
                os.remove(path)
            else:
                # cut within the rows but the last
                if len(lines) < 4:
                    return
                keep = int(len(b"\n".join(lines[:-2])) * spec["cut"])
                dk.put(root, name, data[:keep])
            ctx.fault("frame lost" if spec["cut"] is None else "frame torn")
            have = dk.snapshot(root)
            disk.arm([])
            harmful = True
        else:
            f = dk.resolve(spec, counts)
            disk.arm([f] if f else [])
            harmful = None
        ctx.sim_time += sc.s["n"]
        try:
            self.track(case, sc, root)
            ended = True
        except Exception as e:
            ended = False
            what = f"{type(e).__name__}: {e}"
            e.__traceback__ = None
        gc.collect(0)
        if harmful is None:
            harmful = bool(disk.harmful())
        fired = list(disk.fired)
        disk.arm([])
        now = dk.snapshot(root)
        ctx.event("fault", k, ended, harmful, [x[1] for x in fired])
        if ended:
            if "lost" in spec:
                expect(
                    False,
                    "tracking went on without a frame",
                    f"fault {k}: {spec}",
                )
            expect(now == after, "fault went unnoticed", lambda: f"fault {k} {fired}: {self.where(sc, now, after)}")
            ctx.probe("tracked in spite of a fault" if harmful else "no harm")
            return
        expect(harmful, "healthy tracking stopped", lambda: f"fault {k} {fired}: {what}")
        ctx.probe("stopped")
        # frames are either finished, untouched, or the one being worked on
        fb, fa, fn = by_frame(sc, have), by_frame(sc, after), by_frame(sc, now)
        odd = []
        state = []
        for i in range(sc.s["n"]):
            if fn[i] == fa[i]:
                state.append("finished")
            elif fn[i] == fb[i]:
                state.append("untouched")
            else:
                state.append("odd")
                odd.append(sc.first + i)
        expect(len(odd) <= 1, "fault spoilt several frames", f"fault {k} {fired}: frames {odd}")
        writing = any(x[0]["on"] in ("write", "openw", "close", "meta") for x in fired)
        if not writing:
            expect(not odd, "fault in reading spoilt a frame", f"fault {k} {fired}: frames {odd}")
        if case["back"]:
            state = state[::-1]
        # finished frames come first, then the damaged one, then untouched ones
        n = 0
        while n < len(state) and state[n] in ("finished",):
            n += 1
        if n < len(state) and state[n] == "odd":
            n += 1
        rest = [
            i for i in range(n, len(state)) if state[i] != "untouched" and fa_differs(fa, fb, i, case["back"], state)
        ]
        expect(not rest, "frame written out of turn", f"fault {k} {fired}: {state}")
        if odd:
            ctx.probe("frame spoilt by its own fault")

    def where(self, sc, a, b):
        return sorted(n for n in set(a) | set(b) if a.get(n) != b.get(n))[:4]

    def nontrivial(self, case, ctx):
        return bool(ctx.probes.get("stopped"))


def fa_differs(fa, fb, i, back, state):
    """Whether frame i, in the order of `state`, looks different once finished."""
    j = len(state) - 1 - i if back else i
    return fa[j] != fb[j]

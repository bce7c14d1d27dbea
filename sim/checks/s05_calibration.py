"""S05: a calibration written is the calibration read."""

from pathlib import Path

import numpy as np

from .. import api, disk, store, values
from ..core import Check, expect
from ..values import path_of


class Calibrations(store.Store):
    def slots(self, rng):
        out = []
        for i in range(rng.choice([1, 2, 4])):
            out.append(
                {
                    "name": f"cal/cam{i}.tif",
                    "add": rng.random() < 0.8,
                    "via": rng.choice(["write_calibration", "method", "write_ori"]),
                }
            )
        return out

    def value(self, rng, slot):
        return values.calibration(rng)

    def names(self, root, slot):
        p = path_of(root, slot["name"])
        return p + ".ori", p + ".addpar" if slot["add"] else None

    def write(self, root, slot, v):
        cal = values.mk_calibration(v)
        ori, add = self.names(root, slot)
        if slot["via"] == "write_calibration":
            return api.write_calibration(cal, ori, add)
        if slot["via"] == "method":
            cal.write(ori, add)
            return True
        return api.write_ori(cal.ext_par, cal.int_par, cal.glass_par, cal.added_par, ori, add)

    def read(self, root, slot, how):
        ori, add = self.names(root, slot)
        ori, add = Path(ori), Path(add) if add else None
        if how == 0:
            cal = api.read_calibration(ori, add)
        elif how == 1:
            cal = api.Calibration.from_file(ori, add)
        else:
            cal = api.read_ori(ori, add)
        out = values.un_calibration(cal)
        values.spoil(cal)
        return out

    def files_differ(self, root, slot, v):
        got = []
        for name, n in zip(self.names(root, slot), (21, 7)):
            data = disk.peek(name) if name else b"0 0 0 0 0 1 0"
            tok = (data or b"").decode().split()
            if len(tok) != n:
                return f"{name} holds {len(tok)} numbers"
            got.append([float(t) for t in tok])
        o, add = got
        return values.calibration_differs(
            v,
            {
                "pos": o[:3], "angles": o[3:6], "int": o[15:18], "glass": o[18:], "added": add,
                "dm": np.reshape(o[6:15], (3, 3)),
            },
            slot["add"],
        )  # fmt: skip

    def differs(self, v, got, slot, how):
        return values.calibration_differs(v, got, slot["add"])

    def read_how(self, rng):
        return rng.randrange(3)

    def hows(self):
        return [0, 1, 2]


class S05(Check):
    pid = "S05"
    quick_runs = 6000
    thorough_runs = 200000
    jit_share = 0
    rule = (
        "a seeded history of calibrations of several cameras written and read every way "
        "the library offers on a simulated disk with faults and crashes; non-trivial "
        "when an acknowledged write was checked by reading"
    )
    real = ["write_calibration", "Calibration.write/from_file", "write_ori", "read_ori", "read_calibration"]  # fmt: skip
    stub = ["disk: seeded faults at every raw operation, buffers of seeded size"]
    time_unit = "file operations of the workload"

    def gen(self, rng, index):
        return store.gen_history(Calibrations(), rng)

    def valid(self, case):
        for o in case["ops"]:
            if o["op"] == "write":
                v = o["v"]
                if [len(v[k]) for k in ("pos", "angles", "int", "glass", "added")] != [3, 3, 3, 3, 7]:  # fmt: skip
                    return False
        return bool(case["slots"]) and len({s["name"] for s in case["slots"]}) == len(
            case["slots"]
        )

    def run(self, case, ctx):
        st = Calibrations()
        store.run_history(st, case, ctx)
        # objects that were read don't share what they hold
        held = []
        for s in case["slots"]:
            ori, add = st.names(ctx.scratch, s)
            try:
                cal = api.read_calibration(Path(ori), Path(add) if add else None)
            except Exception:
                continue
            held.append((cal, values.un_calibration(cal)))
        for i, (cal, _) in enumerate(held):
            cal.set_pos([i + 0.5, 1.0, 2.0])
            cal.set_angles([0.1, 0.2, 0.3 + i])
            cal.set_primary_point(np.array([1.0 + i, 2.0, 3.0]))
            cal.set_radial_distortion(np.array([1.0 + i, 2.0, 3.0]))
            cal.set_glass_vec([1.0, 1.0 + i, 3.0])
            for j, (other, was) in enumerate(held[i + 1 :]):
                expect(
                    values.un_calibration(other) == was,
                    "calibrations share data",
                    f"changing calibration {i} changed {i + 1 + j}",
                )

    def nontrivial(self, case, ctx):
        return ctx.probes.get("write acknowledged", 0) > 0

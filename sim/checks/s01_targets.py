"""S01: an acknowledged target list is read back whole."""

from .. import api, disk, refparse, store, values
from ..core import Check
from ..values import path_of

PATTERNS = [
    "cam1.",
    "cam2.%04d",
    "img/cam3_%05d",
    "img/cam4.%d",
    "cam5.#",
    "cam6#",
    "cam7.%05d.tif",
    "plain8",
    "cam9.%03d_x",
]


class Targets(store.Store):
    def slots(self, rng):
        n = rng.choice([1, 2, 3, 5])
        out = []
        for _ in range(n):
            p = rng.choice(PATTERNS)
            frame = rng.choice([0, 1, 7, 42, 123, 9999, 10001, 123456])
            if [p, frame] not in out:
                out.append([p, frame])
        return out

    def value(self, rng, slot):
        rows = values.targets(rng)
        n = len(rows) if rng.random() < 0.7 else rng.randrange(0, len(rows) + 1)
        return {"rows": rows, "n": n}

    def write(self, root, slot, v):
        return api.write_targets(
            values.mk_targets(v["rows"]), v["n"], path_of(root, slot[0]), slot[1]
        )

    def read(self, root, slot, how):
        got = api.read_targets(path_of(root, slot[0]), slot[1])
        out = values.un_targets(got)
        values.spoil(got)
        return out

    def files_differ(self, root, slot, v):
        base, frame = slot
        base = base.replace("#", "%05d")
        name = f"{base % frame}_targets" if "%" in base else (
            f"{base}{frame:05d}_targets" if frame > 0 else f"{base}_targets"
        )
        rows = refparse.targets(disk.peek(path_of(root, name)))
        if rows is None:
            return f"{name} is missing or incomplete"
        return values.targets_differ(v["rows"][: v["n"]], rows)

    def differs(self, v, got, slot, how):
        return values.targets_differ(v["rows"][: v["n"]], got)


class S01(Check):
    pid = "S01"
    quick_runs = 8000
    thorough_runs = 400000
    jit_share = 0
    rule = (
        "a seeded history of target-file writes and reads over several cameras, "
        "name patterns and frames on a simulated disk, with faults and crashes inside "
        "operations; non-trivial when a write was acknowledged and checked by reading"
    )
    real = ["read_targets", "write_targets", "numpy.savetxt"]
    stub = ["disk: seeded faults at every raw operation, buffers of seeded size"]
    time_unit = "file operations of the workload"
    assumptions = [
        "a crash is a process crash: what reached the operating system survives",
        "target values fit the file format (4 decimals, integers below 2^53)",
    ]

    def gen(self, rng, index):
        return store.gen_history(Targets(), rng)

    def valid(self, case):
        return (
            bool(case["slots"])
            and all(s[0] in PATTERNS and s[1] >= 0 for s in case["slots"])
            and len({tuple(s) for s in case["slots"]}) == len(case["slots"])
            and all(
                all(len(r) == 8 for r in o["v"]["rows"])
                and 0 <= o["v"]["n"] <= len(o["v"]["rows"])
                for o in case["ops"]
                if o["op"] == "write"
            )
        )

    def run(self, case, ctx):
        store.run_history(Targets(), case, ctx)

    def nontrivial(self, case, ctx):
        return ctx.probes.get("write acknowledged", 0) > 0

"""S06: parameters written are the parameters read."""

from pathlib import Path

from .. import api, params, store
from ..core import Check
from .. import values
from ..values import path_of


class Params(store.Store):
    def slots(self, rng):
        classes = sorted(params.GEN)
        out = []
        for i in range(rng.choice([1, 2, 4, 6])):
            cls = rng.choice(classes + ["ControlPar"])
            via = "yaml"
            if cls in ("TargetPar", "PftVersionPar") and rng.random() < 0.6:
                via = "legacy"
            out.append({"file": f"par/p{i}.{via}", "cls": cls, "via": via})
        return out

    def value(self, rng, slot):
        return params.GEN[slot["cls"]](rng)

    def write(self, root, slot, v):
        p = Path(path_of(root, slot["file"]))
        obj = params.make(slot["cls"], v)
        if slot["via"] == "yaml":
            obj.to_yaml(p)
        elif slot["cls"] == "TargetPar":
            api.write_target_par(obj, str(p))
        else:
            obj.write(p)
        return True  # no exception: acknowledged

    def read(self, root, slot, how):
        p = Path(path_of(root, slot["file"]))
        if slot["via"] == "yaml":
            obj = getattr(api, slot["cls"]).from_yaml(p)
        else:
            obj = params.read_legacy(slot["cls"], p, None, alt=bool(how))
        if slot["via"] == "yaml" and how:
            # by way of a dictionary
            cls = getattr(api, slot["cls"])
            obj = cls.from_dict(cls.to_dict(obj))
        out = params.plain(obj)
        values.spoil(obj)
        return out

    def differs(self, v, got, slot, how):
        return params.differs(v, got)

    def read_how(self, rng):
        return rng.randrange(2)

    def hows(self):
        return [0, 1]


class S06(Check):
    pid = "S06"
    quick_runs = 6000
    thorough_runs = 200000
    jit_share = 0
    rule = (
        "a seeded history of parameter objects of every class written to and read from "
        "YAML (and the legacy files the library can write) on a simulated disk with "
        "faults and crashes; non-trivial when an acknowledged write was checked"
    )
    real = ["Parameters.to_yaml/from_yaml/to_dict/from_dict of every class", "write_target_par", "PftVersionPar.write", "yaml"]  # fmt: skip
    stub = ["disk: seeded faults at every raw operation, buffers of seeded size"]
    time_unit = "file operations of the workload"

    def gen(self, rng, index):
        return store.gen_history(Params(), rng)

    def valid(self, case):
        for s in case["slots"]:
            if s["cls"] not in params.GEN or s["via"] not in ("yaml", "legacy"):
                return False
        if len({s["file"] for s in case["slots"]}) != len(case["slots"]):
            return False
        for o in case["ops"]:
            if o["op"] == "write":
                cls = case["slots"][o["s"] % len(case["slots"])]["cls"]
                v = o["v"]
                if cls in ("MultimediaPar", "ControlPar"):
                    m = v["mm"] if cls == "ControlPar" else v
                    if len(m["n2"]) != len(m["d"]) or not m["n2"]:
                        return False
                if cls == "TargetPar" and len(v["gvthresh"]) != 4:
                    return False
                params.make(cls, v)
        return bool(case["slots"])

    def run(self, case, ctx):
        store.run_history(Params(), case, ctx)

    def nontrivial(self, case, ctx):
        return ctx.probes.get("write acknowledged", 0) > 0

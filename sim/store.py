"""Histories of writes, reads, faults and crashes against a map in memory."""

import json

from .core import expect
from .disk import SimDisk, attempt, fault_spec


class Store:
    """What a history stores: `slots` are the names, values are JSON."""

    def slots(self, rng):
        raise NotImplementedError

    def value(self, rng, slot):
        raise NotImplementedError

    def write(self, root, slot, value):
        """Returns whether the write was acknowledged."""
        raise NotImplementedError

    def read(self, root, slot, how):
        """Returns what was read, as JSON, or None when it was refused."""
        raise NotImplementedError

    def differs(self, value, got, slot, how):
        """None, or how what was read differs from what was written."""
        raise NotImplementedError

    def read_how(self, rng):
        return 0

    def files_differ(self, root, slot, value):
        """None, or how the files, read by other means, differ from what was written."""
        return None


def gen_history(store, rng, faults=True, n_ops=None):
    slots = store.slots(rng)
    n = n_ops or rng.choice([2, 4, 6, 10, 14])
    calm = (not faults) or rng.random() < 0.25
    rate = rng.choice([0.15, 0.35, 0.6])
    ops = []
    for _ in range(n):
        s = rng.randrange(len(slots))
        fault = None
        if not calm and rng.random() < rate:
            fault = fault_spec(rng, crash=0.3, harmless=0.3)
        elif rng.random() < 0.2:
            fault = fault_spec(rng)
            fault["harmless"] = True
        if rng.random() < 0.6 or not ops:
            ops.append({"op": "write", "s": s, "v": store.value(rng, slots[s])})
        else:
            ops.append({"op": "read", "s": s, "how": store.read_how(rng)})
        if fault:
            ops[-1]["fault"] = fault
    size = max(len(json.dumps(o)) for o in ops)
    return {
        "buf": max(rng.choice([1, 7, 16, 64, 512, 4096, 8192]), size // 400),
        "slots": slots,
        "ops": ops,
    }


def run_history(store, case, ctx):
    disk = SimDisk(ctx.scratch, ctx, case["buf"])
    store.prepare(ctx.scratch, case)
    slots = case["slots"]
    known = {}  # slot -> value last acknowledged
    with disk:
        for n, op in enumerate(case["ops"]):
            s = op["s"] % len(slots)
            slot = slots[s]
            ctx.sim_time += 1
            if op["op"] == "write":
                out = attempt(
                    disk,
                    lambda: store.write(ctx.scratch, slot, op["v"]),
                    [op.get("fault")],
                )
                bad = disk.harmful()
                ack = out.how == "ok" and out.value
                ctx.event("write", s, bool(ack), out.how)
                if ack:
                    known[s] = op["v"]
                    ctx.probe("write acknowledged")
                    if bad:
                        ctx.probe("write acknowledged in spite of a fault")
                else:
                    expect(
                        bad,
                        "healthy write failed",
                        f"op {n}: writing {slot} on a healthy disk: {out}",
                    )
                    known.pop(s, None)
                    ctx.probe("write refused" if out.how != "crash" else "crash in write")
                if bad:  # nothing else may have changed, and what was written is there
                    check_all(store, disk, ctx, case, known, n)
                elif ack:
                    check_one(store, disk, ctx, slots, known, s, n, 0)
            else:
                how = op.get("how", 0)
                out = attempt(
                    disk,
                    lambda: store.read(ctx.scratch, slot, how),
                    [op.get("fault")],
                )
                bad = disk.harmful()
                ctx.event("read", s, how, out.how, out.value is not None)
                if s in known and out.how == "ok" and out.value is not None:
                    d = store.differs(known[s], out.value, slot, how)
                    expect(d is None, "read differs from write", f"op {n}: {slot}: {d}")
                elif s in known:
                    expect(
                        bad or store.may_refuse(known[s], slot, how),
                        "acknowledged write unreadable",
                        f"op {n}: reading {slot} on a healthy disk: {out}",
                    )
                    ctx.probe("read refused under fault")
        check_all(store, disk, ctx, case, known, "end")


def check_one(store, disk, ctx, slots, known, s, n, how):
    out = attempt(disk, lambda: store.read(disk.root, slots[s], how))
    if store.may_refuse(known[s], slots[s], how) and (
        out.how != "ok" or out.value is None
    ):
        return
    expect(
        out.how == "ok" and out.value is not None,
        "acknowledged write unreadable",
        f"after op {n}: {slots[s]}: {out}",
    )
    d = store.differs(known[s], out.value, slots[s], how)
    expect(d is None, "read differs from write", f"after op {n}: {slots[s]}: {d}")
    d = store.files_differ(disk.root, slots[s], known[s])
    expect(d is None, "file differs from write", f"after op {n}: {slots[s]}: {d}")
    ctx.event("checked", s)


def check_all(store, disk, ctx, case, known, n):
    for s in sorted(known):
        for how in store.hows():
            check_one(store, disk, ctx, case["slots"], known, s, n, how)


def _prepare(self, root, case):
    pass


def _hows(self):
    return [0]


def _may_refuse(self, value, slot, how):
    return False


Store.prepare = _prepare
Store.hows = _hows
Store.may_refuse = _may_refuse


def close(a, b, tol, rel=1e-9):
    return abs(a - b) <= tol + rel * max(abs(a), abs(b))

"""Runs simulated cases in a process of its own; one JSON line per run.

    worker.py run PID SEED FIRST STRIDE TOTAL
    worker.py replay PID FILE      (one line, for the case in the file)
    worker.py shrink PID FILE OUT SECONDS
"""

import json
import os
import resource
import sys
import time

from . import core


def fixed_addresses():
    """Give this process the same memory addresses in every run.

    Code may use addresses (as keys, or in an order); they are a source of
    nondeterminism as any other.  Where the system doesn't allow it, runs
    still are repeatable as long as no code does that.
    """
    if os.environ.get("SIM_FIXED_ADDRESSES"):
        return
    os.environ["SIM_FIXED_ADDRESSES"] = "1"
    try:
        import ctypes

        libc = ctypes.CDLL(None, use_errno=True)
        now = libc.personality(0xFFFFFFFF)
        if now >= 0 and not now & 0x0040000 and libc.personality(now | 0x0040000) >= 0:
            args = [sys.executable, "-B", "-m", "sim.worker"] + sys.argv[1:]
            os.execv(sys.executable, args)
    except (OSError, AttributeError):
        pass


def setup():
    try:
        lim = int(os.environ.get("SIM_MEM_GB", "6")) << 30
        resource.setrlimit(resource.RLIMIT_DATA, (lim, lim))
    except (ValueError, OSError):
        pass
    sys.path.insert(0, core.REPO)
    import warnings

    warnings.simplefilter("ignore")
    import openptv_python

    where = os.path.realpath(os.path.dirname(openptv_python.__file__))
    want = os.path.realpath(os.path.join(core.REPO, "openptv_python"))
    if where != want:
        raise core.HarnessError(f"testing {where}, not {want}")
    import numpy as np

    np.seterr(all="ignore")


def emit(out, obj):
    out.write(json.dumps(obj, default=_plain) + "\n")
    out.flush()


def _plain(o):
    import numpy as np

    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


def result(index, case, check, v, ctx, t, jit, full=False):
    r = {
        "i": index,
        "sig": ctx.signature(),
        "case_hash": core.stable_hash(case),
        "nontrivial": bool(check.nontrivial(case, ctx)),
        "faults": ctx.faults,
        "probes": ctx.probes,
        "steps": ctx.steps,
        "time": ctx.sim_time,
        "wall": t,
        "jit": jit,
    }
    if v is not None:
        r["violation"] = {"kind": v.kind, "msg": v.msg}
    if v is not None or full:
        r["case"] = case
    return r


def again(check, pid, seed, first, stride, total, jit, out):
    for n, i in enumerate(range(first, total, stride)):
        case = json.loads(json.dumps(check.gen(core.make_rng(seed, pid, i), i)))
        emit(out, {"start": i})
        t = time.monotonic()
        v, ctx = core.run_case(check, case)
        emit(
            out,
            result(i, case, check, v, ctx, time.monotonic() - t, jit, full=n < 1),
        )


def main(argv):
    from . import registry

    out = sys.stdout
    jit = os.environ.get("NUMBA_DISABLE_JIT") != "1"
    mode, pid = argv[0], argv[1]
    setup()
    check = registry.get(pid)
    check.warm_up()
    emit(out, {"ready": True})
    if mode == "run":
        seed, first, stride, total = (int(a) for a in argv[2:6])
        again(check, pid, seed, first, stride, total, jit, out)
    elif mode == "gen":
        seed = int(argv[2])
        for i in argv[3:]:
            emit(out, {"case": check.gen(core.make_rng(seed, pid, int(i)), int(i))})
    elif mode == "replay":
        with open(argv[2], encoding="utf-8") as f:
            rec = json.load(f)
        for before in rec.get("before", []):
            core.run_case(check, before)
        emit(out, {"start": rec.get("index", 0)})
        v, ctx = core.run_case(check, rec["case"])
        r = result(rec.get("index", 0), rec["case"], check, v, ctx, 0.0, jit, True)
        r["log"] = [list(map(str, e)) for e in ctx.log[-60:]]
        emit(out, r)
    elif mode == "shrink":
        with open(argv[2], encoding="utf-8") as f:
            rec = json.load(f)
        case, tried = core.shrink(
            check, rec["case"], rec["kind"], budget=3000, seconds=float(argv[4])
        )
        with open(argv[3], "w", encoding="utf-8") as f:
            json.dump({"case": case, "tried": tried}, f, default=_plain)
    emit(out, {"done": True})


if __name__ == "__main__":
    fixed_addresses()
    main(sys.argv[1:])

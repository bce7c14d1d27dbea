"""Decides one property: seeded runs in worker processes, then the verdict.

Exit 0: the property held on every run.  Exit 1 and a VIOLATION line: it is
broken, and the replay file shows how.  Exit 2: the check itself failed.
"""

import argparse
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import core, registry

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def environment(jit, cache):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=os.pathsep.join([VERIF, core.REPO]),
        PYTHONHASHSEED=os.environ.get("SIM_HASHSEED", "0"),
        PYTHONDONTWRITEBYTECODE="1",
        NUMBA_CPU_NAME="generic",
        NUMBA_CPU_FEATURES="",
        NUMBA_CACHE_DIR=cache,
        NUMBA_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        SIM_SCRATCH=os.path.join(cache, "scratch"),
    )
    env.pop("NUMBA_DISABLE_JIT", None)
    if not jit:
        env["NUMBA_DISABLE_JIT"] = "1"
    return env


class Worker:
    """A worker process and what it reported."""

    def __init__(self, args, jit, cache, box):
        self.jit = jit
        self.args = args
        self.current = None
        self.done = False
        self.last = time.monotonic()
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(
            [sys.executable, "-B", "-m", "sim.worker"] + [str(a) for a in args],
            stdout=subprocess.PIPE,
            stderr=self.err,
            stdin=subprocess.DEVNULL,
            env=environment(jit, cache),
            cwd=VERIF,
            text=True,
        )
        self.t = threading.Thread(target=self._pump, args=(box,), daemon=True)
        self.t.start()

    def _pump(self, box):
        for line in self.p.stdout:
            try:
                box.put((self, json.loads(line)))
            except ValueError:
                continue
        self.p.wait()
        box.put((self, None))

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode(errors="replace")[-3000:]


def single(args, jit, cache, limit):
    """Run one worker to its end; returns its messages, or None on time out."""
    box = queue.Queue()
    w = Worker(args, jit, cache, box)
    t_end = time.monotonic() + limit
    msgs = []
    while True:
        left = t_end - time.monotonic()
        if left <= 0:
            w.kill()
            return None, w
        try:
            _, m = box.get(timeout=left)
        except queue.Empty:
            w.kill()
            return None, w
        if m is None:
            return msgs, w
        msgs.append(m)


def replay_outcome(pid, path, jit, cache, limit):
    """(violation dict or None, result) of a replay in a fresh process."""
    with open(path, encoding="utf-8") as f:
        rerun = json.load(f).get("rerun")
    args = ["run", pid] + rerun if rerun else ["replay", pid, path]
    msgs, w = single(args, jit, cache, limit + (600 if rerun else 90))
    if msgs is None:
        return {"kind": "no progress", "msg": f"run did not end within {limit} s"}, {}
    # of a rerun the first violation counts, or else its last run
    msgs = [m for m in msgs if "sig" in m]
    msgs = [m for m in msgs if "violation" in m] or msgs[-1:]
    if msgs:
        return msgs[0].get("violation"), msgs[0]
    raise core.HarnessError("replay failed: " + w.stderr())


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path, encoding="utf-8") as f:
            return [k for k in json.load(f).get("findings", []) if k["property"] == pid]
    except FileNotFoundError:
        return []


def is_known(known, v):
    for k in known:
        if k["kind"] == v["kind"] and re.search(k["match"], v["msg"]):
            return k
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--no-jit", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--no-shrink", action="store_true")
    ap.add_argument("--all", action="store_true", help="don't stop at a violation")
    ap.add_argument("--dump", help="write one line per run to this file")
    a = ap.parse_args(argv)
    if a.seed is None:
        try:
            a.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            a.seed = 1
    root = core.scratch_root()
    cache = tempfile.mkdtemp(prefix="simcache-", dir=root)
    os.mkdir(os.path.join(cache, "scratch"))
    try:
        return replay(a, cache) if a.replay else explore(a, cache)
    except core.HarnessError as e:
        print(f"ERROR check={a.pid} {e}")
        return 2
    finally:
        shutil.rmtree(cache, ignore_errors=True)


def replay(a, cache):
    check = registry.get(a.pid)
    with open(a.replay, encoding="utf-8") as f:
        rec = json.load(f)
    if rec["property"] != a.pid:
        raise core.HarnessError(f"{a.replay} is a replay of {rec['property']}")
    v, r = replay_outcome(
        a.pid, os.path.abspath(a.replay), rec["jit"], cache, check.case_limit
    )
    if v is None:
        print(f"replay of {a.replay}: no violation")
        return 0
    same = (v["kind"], v["msg"], r.get("sig")) == (rec["kind"], rec["msg"], rec["sig"])
    print(f"{v['kind']}: {v['msg']}")
    print("replayed exactly" if same else "replayed with a difference")
    known = is_known(load_known(a.pid), v)
    if known:
        print(f"KNOWN-FINDING: property={a.pid} {known['what']}")
        return 0
    print(f"VIOLATION property={a.pid} replay={a.replay}")
    return 1


def explore(a, cache):
    check = registry.get(a.pid)
    t0 = time.monotonic()
    quick = a.tier != "thorough"
    total = a.runs or (check.quick_runs if quick else check.thorough_runs)
    budget = float(os.environ.get("SIM_BUDGET", 420 if quick else 5400))
    nw = a.workers or max(1, min(8, os.cpu_count() or 1))
    jit_every = 0 if a.no_jit else check.jit_share

    # Runs with compilation have indices in a range of their own, so that the
    # number of workers doesn't decide what a run does.
    n_jit = (total // jit_every) if jit_every else 0
    n_int = total - n_jit
    JIT0 = 10_000_000
    box = queue.Queue()
    workers = []
    n_jw = 0
    if n_jit:
        n_jw = 1 if quick or nw < 4 else 2
        for w in range(n_jw):
            workers.append(
                Worker(["run", a.pid, a.seed, JIT0 + w, n_jw, JIT0 + n_jit], True, cache, box)
            )
    n_iw = max(1, nw - n_jw)
    n_iw = min(n_iw, max(1, n_int))
    for w in range(n_iw):
        workers.append(Worker(["run", a.pid, a.seed, w, n_iw, n_int], False, cache, box))

    known = load_known(a.pid)
    results, violations, known_hit = [], [], {}
    errors = []
    running = set(workers)
    out_of_time = False
    dump = open(a.dump, "w", encoding="utf-8") if a.dump else None
    try:
        while running:
            try:
                w, m = box.get(timeout=2)
            except queue.Empty:
                w = m = None
            now = time.monotonic()
            if w is not None:
                if w not in running:
                    continue
                w.last = now
                if m is None:
                    running.discard(w)
                    if not w.done:
                        errors.append(
                            f"worker ended early (rc {w.p.returncode}, "
                            f"run {w.current}): {w.stderr()}"
                        )
                elif "start" in m:
                    w.current = m["start"]
                elif "done" in m:
                    w.done = True
                elif "sig" in m:
                    m["first"], m["stride"] = w.args[3], w.args[4]
                    results.append(m)
                    if dump:
                        d = {k: m[k] for k in m if k not in ("wall", "case", "first", "stride")}
                        dump.write(json.dumps(d, sort_keys=True) + "\n")
                    if "violation" in m:
                        k = is_known(known, m["violation"])
                        if k:
                            known_hit[k["id"]] = known_hit.get(k["id"], 0) + 1
                        else:
                            violations.append(m)
                            if not a.all:
                                break
            for x in list(running):
                if x.current is not None and now - x.last > check.case_limit + 45 + (60 if x.jit else 0):
                    x.kill()
                    running.discard(x)
                    violations.append(
                        {
                            "i": x.current,
                            "jit": x.jit,
                            "sig": "",
                            "violation": {
                                "kind": "no progress",
                                "msg": f"run did not end within {check.case_limit} s",
                            },
                        }
                    )
            if violations and not a.all:
                break
            if now - t0 > budget:
                out_of_time = True
                break
    finally:
        for x in workers:
            x.kill()
        if dump:
            dump.close()

    viol_out = None
    if violations:
        viol_out = report(a, check, cache, violations[0], quick)
    wall = time.monotonic() - t0
    if not a.no_evidence:
        write_evidence(a, check, results, violations, wall, known_hit, total)
    for k in known:
        print(f"KNOWN-FINDING: property={a.pid} {k['what']}")
    n = len(results)
    print(
        f"{a.pid}: {n} runs in {wall:.0f} s, "
        f"{sum(1 for r in results if r['nontrivial'])} non-trivial"
    )
    if a.all:
        for m in violations:
            print(m["i"], m["jit"], m["violation"]["kind"], m["violation"]["msg"][:300])
    if viol_out:
        print(f"{viol_out['kind']}: {viol_out['msg']}")
        print(f"VIOLATION property={a.pid} replay={viol_out['path']}")
        return 1
    if violations:
        print(f"ERROR check={a.pid} a violation did not replay")
        return 2
    if errors:
        print(f"ERROR check={a.pid} {errors[0]}")
        return 2
    if out_of_time and n < max(10, total // 5):
        print(f"ERROR check={a.pid} only {n} of {total} runs in {wall:.0f} s")
        return 2
    return 0


def report(a, check, cache, m, quick):
    """Shrink a violation, confirm it in a fresh process, write the replay file."""
    pid, v, jit = a.pid, m["violation"], m["jit"]
    rec = {
        "property": pid,
        "seed": a.seed,
        "index": m["i"],
        "jit": jit,
        "kind": v["kind"],
        "msg": v["msg"],
        "sig": m["sig"],
    }
    if "case" in m:
        rec["case"] = m["case"]
    else:
        msgs, w = single(["gen", pid, a.seed, m["i"]], jit, cache, 120)
        rec["case"] = next(x["case"] for x in (msgs or []) if "case" in x)
    rec["original_case"] = rec["case"]

    def confirm(r):
        p = os.path.join(cache, "confirm.json")
        with open(p, "w", encoding="utf-8") as f:
            json.dump(r, f)
        return replay_outcome(pid, p, jit, cache, check.case_limit)

    v0, r0 = confirm(rec)
    if v0 is None:
        # something outlives a run: replay the runs that came before it, too
        v0, r0, before = with_history(a, check, cache, m, rec, confirm)
        if v0 is not None:
            rec["before"] = before
            rec["note"] = "the runs in 'before' come first, in the same process"
        else:
            v0, r0 = all_again(a, m, rec, confirm)
    rec.update(kind=v0["kind"], msg=v0["msg"], sig=r0.get("sig", ""), log=r0.get("log"))
    shrinkable = "before" not in rec and "rerun" not in rec
    if v0["kind"] != "no progress" and not a.no_shrink and shrinkable:
        src = os.path.join(cache, "shrink.json")
        dst = os.path.join(cache, "shrunk.json")
        with open(src, "w", encoding="utf-8") as f:
            json.dump(rec, f)
        secs = 45 if quick else 180
        single(["shrink", pid, src, dst, secs], jit, cache, secs + 150)
        if os.path.exists(dst):
            with open(dst, encoding="utf-8") as f:
                s = json.load(f)
            small = dict(rec, case=s["case"], shrink_runs=s["tried"])
            v1, r1 = confirm(small)
            if v1 is not None and v1["kind"] == v0["kind"]:
                small.update(msg=v1["msg"], sig=r1.get("sig", ""), log=r1.get("log"))
                rec = small
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(
        VERIF, "replays", f"{pid}-{core.stable_hash([rec['case'], jit])}.json"
    )
    with open(path, "w", encoding="utf-8") as f:
        json.dump(rec, f, indent=1)
    rec["path"] = path
    return rec


def all_again(a, m, rec, confirm):
    """Repeat everything the worker did, down to what it allocated when.

    What still doesn't fail the same way then depends on something outside
    the simulator's control that the code under test has brought in.  The
    violation was seen, and is reported with the runs that led to it.
    """
    if m.get("stride") is not None:
        rec["rerun"] = [a.seed, m["first"], m["stride"], m["i"] + 1]
    rec["note"] = "all runs of the worker, from its start, one after the other"
    v = None
    if "rerun" in rec:
        v, r = confirm(rec)
    if v is None:
        rec["note"] = "seen in one run, not in others of the same seed"
        return m["violation"], {"sig": m["sig"]}
    return v, r


def with_history(a, check, cache, m, rec, confirm):
    """The fewest preceding runs of the same worker with which a run fails."""
    if m.get("stride") is None:
        return None, {}, []
    idx = list(range(m["first"], m["i"], m["stride"]))
    n = 1
    t_end = time.monotonic() + 240
    while idx and time.monotonic() < t_end:
        args = ["gen", a.pid, a.seed] + idx[-n:]
        msgs, _ = single(args, m["jit"], cache, 120)
        before = [x["case"] for x in (msgs or []) if "case" in x]
        v, r = confirm(dict(rec, before=before))
        if v is not None and v["kind"] == rec["kind"]:
            while len(before) > 1 and time.monotonic() < t_end:
                for k in range(len(before)):
                    less = before[:k] + before[k + 1 :]
                    v1, r1 = confirm(dict(rec, before=less))
                    if v1 is not None and v1["kind"] == rec["kind"]:
                        v, r, before = v1, r1, less
                        break
                    if time.monotonic() > t_end:
                        break
                else:
                    break
            return v, r, before
        if n >= len(idx):
            break
        n = min(n * 4, len(idx))
    return None, {}, []


def write_evidence(a, check, results, violations, wall, known_hit, total):
    nontrivial = {(r["sig"], r["case_hash"]) for r in results if r["nontrivial"]}
    faults, probes = {}, {}
    for r in results:
        for k, n in r["faults"].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in r["probes"].items():
            probes[k] = probes.get(k, 0) + n
    samples = [r["case"] for r in results if "case" in r][:3]
    n = len(results)
    hours = wall / 3600 or 1e-9
    cov = {
        "evaluations": n,
        "distinct_nontrivial": len({h for _, h in nontrivial}),
        "rule": check.rule,
        "samples": samples,
        "planned_runs": total,
        "simulated_runs_per_hour": round(n / hours),
        "seeds_per_hour": round(n / hours),
        "simulated_steps": sum(r["steps"] for r in results),
        "simulated_time": {
            "unit": check.time_unit,
            "covered": round(sum(r["time"] for r in results), 3),
        },
        "faults_injected": dict(sorted(faults.items())),
        "conditions_reached": dict(sorted(probes.items())),
        "distinct_event_histories": {
            "measure": "hash of the run's event log (what was done, which faults "
            "struck where, how every step ended), over non-trivial runs",
            "count": len({s for s, _ in nontrivial}),
        },
        "runs_with_compiled_code": sum(1 for r in results if r["jit"]),
        "real_components": check.real,
        "stub_components": check.stub,
        "known_findings_hit": known_hit,
    }
    ev = {
        "property": a.pid,
        "tier": "thorough" if a.tier == "thorough" else "quick",
        "seed": a.seed,
        "level": check.level,
        "coverage": cov,
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{a.pid}.json")
    with open(path + ".tmp", "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())

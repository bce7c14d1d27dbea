"""Core of the simulator: cases, violations, statistics, shrinking.

A *case* is a JSON value that holds everything a simulated run depends on: the
workload, the fault plan and the schedule.  `Check.gen(rng, i)` derives it from
one PRNG, `Check.run(case, ctx)` executes it against the real code and raises
`Violation`.  Nothing else may influence a run, so a case is its own replay file.
"""

import copy
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import traceback

REPO = os.environ.get("SIM_REPO", "/repo")


class Violation(Exception):
    """The property does not hold on this run.

    `kind` names the violation class (stable under shrinking), `msg` the facts.
    """

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class Hang(BaseException):
    """The run made no progress within its wall limit."""


class HarnessError(Exception):
    """The harness itself is at fault."""


def expect(cond, kind, msg=""):
    if not cond:
        raise Violation(kind, msg() if callable(msg) else msg)


def stable_hash(obj):
    return hashlib.sha256(
        json.dumps(obj, sort_keys=True, default=str).encode()
    ).hexdigest()[:16]


def make_rng(seed, pid, index):
    return random.Random(f"{seed}/{pid}/{index}")


class Ctx:
    """What one run records.  Recording never draws from the PRNG."""

    def __init__(self):
        self.faults = {}
        self.probes = {}
        self.steps = 0  # simulated steps (frames, disk operations, thread switches)
        self.sim_time = 0.0  # simulated frames, see each check's `time_unit`
        self.log = []  # event log, hashed into the state signature

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def event(self, *what):
        self.log.append(what)

    def signature(self):
        return hashlib.sha256(repr(self.log).encode()).hexdigest()[:16]


class Check:
    """One property.  Subclasses define gen() and run()."""

    pid = "?"
    level = "exploration"
    quick_runs = 200
    thorough_runs = 2000
    jit_share = 8  # one case in this many runs with numba compilation, 0: none
    case_limit = 90  # seconds of real time before a run counts as hung
    rule = ""
    real = []
    stub = []
    time_unit = "simulated steps"
    assumptions = []

    def warm_up(self):
        """Called once per process, before the first run."""

    def gen(self, rng, index):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError

    def valid(self, case):
        """Whether a shrunk case is still a legal workload."""
        return True

    def nontrivial(self, case, ctx):
        return True

    def shrink_candidates(self, case):
        return generic_shrinks(case)


# --------------------------------------------------------------------------
# shrinking


def _paths(value, path=()):
    yield path, value
    if isinstance(value, dict):
        for k in sorted(value):
            if k.startswith("_"):
                continue
            yield from _paths(value[k], path + (k,))
    elif isinstance(value, list):
        for i, v in enumerate(value):
            yield from _paths(v, path + (i,))


def _set(case, path, value):
    case = copy.deepcopy(case)
    if not path:
        return value
    node = case
    for p in path[:-1]:
        node = node[p]
    node[path[-1]] = value
    return case


def generic_shrinks(case):
    """Smaller variants: drop parts of lists, then simplify numbers."""
    entries = list(_paths(case))
    for path, v in entries:
        if isinstance(v, list) and len(v) > 1 and path:
            size = len(v) // 2
            while size >= 1:
                for start in range(0, len(v), size):
                    yield _set(case, path, v[:start] + v[start + size :])
                size //= 2
        elif isinstance(v, list) and len(v) == 1 and path:
            yield _set(case, path, [])
    for path, v in entries:
        if isinstance(v, bool) or not path or path[-1] == "kind":
            continue
        if isinstance(v, int) and v not in (0, 1):
            for c in (0, 1, v // 2, v - 1 if v > 0 else v + 1):
                if c != v:
                    yield _set(case, path, c)
        elif isinstance(v, float) and v != 0.0:
            for c in (0.0, 1.0, float(round(v)), round(v, 2)):
                if c != v:
                    yield _set(case, path, c)


def shrink(check, case, kind, budget=400, seconds=60):
    """Greedy delta debugging: keep any smaller case with the same violation kind."""
    import time

    t_end = time.monotonic() + seconds
    tried = 0
    seen = {stable_hash(case)}
    progress = True
    while progress and tried < budget and time.monotonic() < t_end:
        progress = False
        for cand in check.shrink_candidates(case):
            if tried >= budget or time.monotonic() > t_end:
                break
            h = stable_hash(cand)
            if h in seen:
                continue
            seen.add(h)
            try:
                if not check.valid(cand):
                    continue
            except Exception:
                continue
            tried += 1
            v, _ = run_case(check, cand, limit=min(check.case_limit, 30))
            if v is not None and v.kind == kind:
                case = cand
                progress = True
                break
    return case, tried


# --------------------------------------------------------------------------
# running one case


class _Null:
    encoding = "utf-8"

    def write(self, s):
        return len(s)

    def flush(self):
        pass


def _alarm(signum, frame):
    raise Hang()


def run_case(check, case, limit=None):
    """Run a case; returns (Violation or None, ctx)."""
    ctx = Ctx()
    limit = limit or check.case_limit
    if os.environ.get("NUMBA_DISABLE_JIT") != "1":
        limit += 60  # the first runs compile
    out, err = sys.stdout, sys.stderr
    cwd = os.getcwd()
    # the name plays no part in a run
    scratch = os.path.join(scratch_root(), f"case-{os.getpid()}")
    shutil.rmtree(scratch, ignore_errors=True)
    os.mkdir(scratch, 0o700)
    ctx.scratch = scratch
    os.chdir(scratch)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    sys.stdout = _Null()
    sys.stderr = _Null()
    try:
        check.run(copy.deepcopy(case), ctx)
        return None, ctx
    except Violation as v:
        return v, ctx
    except Hang:
        return Violation("no progress", f"run did not end within {limit} s"), ctx
    except HarnessError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if "openptv_python" in f.filename]
        where = inside[-1] if inside else tb[-1]
        return (
            Violation(
                f"unexpected {type(e).__name__}",
                f"{e} at {os.path.basename(where.filename)}:{where.name}",
            ),
            ctx,
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout, sys.stderr = out, err
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def scratch_root():
    for d in (os.environ.get("SIM_SCRATCH"), "/dev/shm", tempfile.gettempdir()):
        if d and os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return None

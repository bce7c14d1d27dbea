"""Simulated disk: every file operation below a scratch root goes through here.

The code under test calls `open` (directly, through pathlib or through numpy);
that name is the seam, no change to the code is needed.  Files live in a real
scratch directory, but each raw operation (open, read, write, close, rename,
remove) is numbered and may be made to fail, to be cut short, or to be the last
thing the process does (crash).  The buffer between the code and the raw file is
as large as the case says, so that faults land at any byte of a file.

A plan is a list of faults {"on": class, "nth": k, "kind": kind, "frac": f}:
the k-th operation (counted from 0) of that class fails that way.  Classes:
openr, openw, read, write, close, meta, any.
"""

import builtins
import errno
import io
import os
import sys

from .core import HarnessError


class SimCrash(BaseException):
    """The simulated process died here."""


ERRNO = {
    "ENOSPC": errno.ENOSPC,
    "EIO": errno.EIO,
    "EACCES": errno.EACCES,
    "EMFILE": errno.EMFILE,
    "EDQUOT": errno.EDQUOT,
    "ENOENT": errno.ENOENT,
}

# which faults make sense for which class of operation
KINDS = {
    "openr": ["EACCES", "EMFILE", "EIO", "ENOENT"],
    "openw": ["EACCES", "EMFILE", "ENOSPC", "EIO"],
    "read": ["EIO", "short"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "short"],
    "close": ["EIO", "ENOSPC"],
    "meta": ["EIO", "EACCES"],
}
HARMLESS = {"short"}  # legal behaviour of a healthy disk: nothing may go wrong

_real_open = io.open
_real = {n: getattr(os, n) for n in ("replace", "rename", "remove", "unlink", "fsync")}


def peek(path):
    """What a file holds, past the simulation; None when there is none."""
    try:
        with _real_open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


class _Raw(io.FileIO):
    """An unbuffered file of the simulated disk."""

    def __init__(self, disk, path, mode):
        self._disk = disk
        self._path = path
        self._writing = any(c in mode for c in "wax+")
        self._sim_closed = False
        super().__init__(path, mode)

    def write(self, b):
        return self._disk._write(self, b, super().write)

    def readinto(self, b):
        return self._disk._readinto(self, b, super().readinto)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def readall(self):
        out = b""
        while True:
            b = bytearray(self._disk.buffer_size)
            n = self.readinto(b)
            if not n:
                return out
            out += bytes(b[:n])

    def close(self):
        if self._sim_closed or self.closed:
            return super().close()
        self._sim_closed = True
        try:
            self._disk._close(self)
        finally:
            super().close()


class SimDisk:
    def __init__(self, root, ctx, buffer_size=8192, plan=()):
        self.root = os.path.realpath(root)
        self.ctx = ctx
        self.buffer_size = max(1, int(buffer_size))
        self.counts = {}
        self.fired = []  # (fault, path)
        self.dead = False
        self.trace = []  # (class, path)
        self.plan = list(plan)
        self.active = False

    # -- plan ---------------------------------------------------------------

    def arm(self, plan):
        """Replace the fault plan; operations are counted from here."""
        self.plan = list(plan)
        self.counts = {}
        self.fired = []

    def _op(self, cls, path):
        """Number an operation; returns the fault that hits it, if any."""
        if self.dead:
            return None
        k = self.counts.get(cls, 0)
        a = self.counts.get("any", 0)
        self.counts[cls] = k + 1
        self.counts["any"] = a + 1
        self.ctx.steps += 1
        rel = os.path.relpath(path, self.root)
        self.trace.append((cls, rel))
        for f in self.plan:
            if (f["on"] == cls and f["nth"] == k) or (f["on"] == "any" and f["nth"] == a):
                kind = f["kind"]
                if kind not in KINDS.get(cls, ()) and kind != "crash":
                    continue
                self.fired.append((f, rel))
                self.ctx.fault(f"disk {cls} {kind}")
                self.ctx.event("fault", cls, kind, rel)
                return f
        return None

    def fail(self, kind, path):
        raise OSError(ERRNO[kind], os.strerror(ERRNO[kind]), path)

    def crash(self):
        self.dead = True
        raise SimCrash()

    def harmful(self):
        """Faults fired that a healthy disk doesn't show."""
        return [(f, p) for f, p in self.fired if f["kind"] not in HARMLESS]

    # -- raw operations -----------------------------------------------------

    def _write(self, raw, b, write):
        b = bytes(b)
        if self.dead:
            return len(b)  # a dead process writes nothing
        f = self._op("write", raw._path)
        if f is None:
            return write(b)
        cut = int(len(b) * f.get("frac", 0.5))
        if f["kind"] == "short":
            cut = max(1, min(cut, len(b)))
            return write(b[:cut])
        if cut:
            write(b[:cut])
        if f["kind"] == "crash":
            self.crash()
        self.fail(f["kind"], raw._path)

    def _readinto(self, raw, b, readinto):
        f = self._op("read", raw._path)
        if f is None:
            return readinto(b)
        if f["kind"] == "short":
            n = max(1, int(len(b) * f.get("frac", 0.5)))
            m = memoryview(b)[:n]
            return readinto(m)
        if f["kind"] == "crash":
            self.crash()
        self.fail(f["kind"], raw._path)

    def _close(self, raw):
        if not raw._writing:
            return
        f = self._op("close", raw._path)
        if f is not None:
            if f["kind"] == "crash":
                self.crash()
            self.fail(f["kind"], raw._path)

    # -- the seam -----------------------------------------------------------

    def inside(self, file):
        if isinstance(file, int):
            return None
        try:
            p = os.path.abspath(os.fspath(file))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        d = os.path.realpath(os.path.dirname(p))
        p = os.path.join(d, os.path.basename(p))
        return p if p == self.root or p.startswith(self.root + os.sep) else None

    def open(
        self,
        file,
        mode="r",
        buffering=-1,
        encoding=None,
        errors=None,
        newline=None,
        closefd=True,
        opener=None,
    ):
        path = None if opener is not None else self.inside(file)
        if path is None:
            return _real_open(
                file, mode, buffering, encoding, errors, newline, closefd, opener
            )
        binary = "b" in mode
        raw_mode = mode.replace("b", "").replace("t", "").replace("U", "")
        writing = any(c in raw_mode for c in "wax+")
        if self.dead:
            if writing:
                raise SimCrash()
        f = self._op("openw" if writing else "openr", path)
        if f is not None:
            if f["kind"] == "crash":
                if f.get("frac", 0) >= 0.5 and "w" in raw_mode:
                    _Raw.__mro__[1](path, raw_mode).close()  # died after truncation
                self.crash()
            self.fail(f["kind"], str(file))
        raw = _Raw(self, path, raw_mode)
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = self.buffer_size
        if "+" in raw_mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
        # TextIOWrapper keeps up to 8 kB of its own
        try:
            text._CHUNK_SIZE = min(size, 8192)
        except Exception:
            pass
        text.mode = mode
        return text

    def _meta(self, name):
        real = _real[name]

        def op(*args, **kw):
            paths = [a for a in args[:2] if not isinstance(a, int)]
            if name == "fsync" or not any(self.inside(p) for p in paths):
                return real(*args, **kw)
            if self.dead:
                raise SimCrash()
            path = next(self.inside(p) for p in paths if self.inside(p))
            f = self._op("meta", path)
            if f is not None:
                if f["kind"] == "crash":
                    if f.get("frac", 0) >= 0.5:
                        real(*args, **kw)
                    self.crash()
                self.fail(f["kind"], path)
            return real(*args, **kw)

        return op

    def __enter__(self):
        if SimDisk.current is not None:
            raise HarnessError("nested SimDisk")
        SimDisk.current = self
        self._saved = builtins.open, io.open
        builtins.open = self.open
        io.open = self.open
        for n in _real:
            setattr(os, n, self._meta(n))
        import numpy.lib._datasource as ds

        ds._file_openers._load()
        self._np = ds._file_openers._file_openers[None]
        ds._file_openers._file_openers[None] = self.open
        self._hook = sys.unraisablehook
        sys.unraisablehook = lambda u: None
        return self

    def __exit__(self, *exc):
        import numpy.lib._datasource as ds

        builtins.open, io.open = self._saved
        for n, fn in _real.items():
            setattr(os, n, fn)
        ds._file_openers._file_openers[None] = self._np
        sys.unraisablehook = self._hook
        SimDisk.current = None
        return False


SimDisk.current = None


def pick_fault(rng, counts, harmful=True, classes=None, crash=0.0):
    """A fault that fires, given how often each class of operation occurred."""
    if rng.random() < crash and counts.get("any"):
        return {
            "on": "any",
            "nth": rng.randrange(counts["any"]),
            "kind": "crash",
            "frac": round(rng.random(), 3),
        }
    cls = [c for c in sorted(KINDS) if counts.get(c) and (not classes or c in classes)]
    if not cls:
        return None
    c = rng.choice(cls)
    kinds = [k for k in KINDS[c] if not (harmful and k in HARMLESS)]
    return {
        "on": c,
        "nth": rng.randrange(counts[c]),
        "kind": rng.choice(kinds),
        "frac": round(rng.random(), 3),
    }


def resolve(spec, counts):
    """Turn a fault given by fractions into one given by operation numbers.

    spec: {"cls": u, "at": u, "kind": u, "frac": f, "crash": bool, "classes": [...]}
    with every u in [0, 1).  Cases carry specs, so that they don't depend on how
    many operations the code happens to need.
    """
    if spec.get("crash"):
        n = counts.get("any", 0)
        if not n:
            return None
        return {
            "on": "any",
            "nth": min(int(spec["at"] * n), n - 1),
            "kind": "crash",
            "frac": spec.get("frac", 0.5),
        }
    classes = spec.get("classes")
    cls = [c for c in sorted(KINDS) if counts.get(c) and (not classes or c in classes)]
    if not cls:
        return None
    c = cls[min(int(spec["cls"] * len(cls)), len(cls) - 1)]
    kinds = [k for k in KINDS[c] if (k in HARMLESS) == bool(spec.get("harmless"))]
    if not kinds:
        return None
    return {
        "on": c,
        "nth": min(int(spec["at"] * counts[c]), counts[c] - 1),
        "kind": kinds[min(int(spec["kind"] * len(kinds)), len(kinds) - 1)],
        "frac": spec.get("frac", 0.5),
    }


def fault_spec(rng, crash=0.0, harmless=0.0, classes=None):
    spec = {
        "cls": round(rng.random(), 4),
        "at": round(rng.random(), 4),
        "kind": round(rng.random(), 4),
        "frac": round(rng.choice([0.0, 1.0, rng.random(), rng.random()]), 4),
    }
    if rng.random() < crash:
        spec["crash"] = True
    elif rng.random() < harmless:
        spec["harmless"] = True
    if classes:
        spec["classes"] = classes
    return spec


# -- snapshots of the scratch directory (outside the seam) ---------------------


def snapshot(root):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with _real_open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def restore(root, snap):
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            if os.path.relpath(p, root) not in snap:
                _real["remove"](p)
    for rel, data in snap.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with _real_open(p, "wb") as fh:
            fh.write(data)


def put(root, rel, data):
    p = os.path.join(root, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with _real_open(p, "wb") as fh:
        fh.write(data)


def get(root, rel):
    try:
        with _real_open(os.path.join(root, rel), "rb") as fh:
            return fh.read()
    except FileNotFoundError:
        return None


class Outcome:
    """How a call ended: 'ok' (value), 'refused' (raised or False), 'crash'."""

    def __init__(self, how, value=None, error=None):
        self.how, self.value, self.error = how, value, error

    def __repr__(self):
        return f"{self.how} {self.error or ''}"


def attempt(disk, thunk, specs=()):
    """Run thunk under the faults of specs; returns its Outcome.

    To know where faults can land, the call is made once without faults first,
    and the directory put back as it was.
    """
    specs = [s for s in specs if s]
    if specs:
        snap = snapshot(disk.root)
        disk.arm([])
        try:
            thunk()
        except Exception:
            pass
        counts = dict(disk.counts)
        restore(disk.root, snap)
        plan = [f for f in (resolve(s, counts) for s in specs) if f]
    else:
        plan = []
    disk.arm(plan)
    try:
        out = Outcome("ok", thunk())
    except SimCrash:
        out = Outcome("crash")
    except Exception as e:
        out = Outcome("refused", error=f"{type(e).__name__}: {e}")
        e.__traceback__ = None
    fired = list(disk.fired)
    # files the call left open are written out (or lost) now
    import gc

    gc.collect(0)
    disk.dead = False
    disk.arm([])
    disk.fired = fired
    return out

"""Threads under a seeded scheduler: one runs at a time, and they take turns between
lines of the code under test, as a schedule says.  Work can be aborted at any line.

A schedule is a list of [thread, length]: lengths from 1 on are lines, those below
are shares of all the lines the thread executes when it is alone.
"""

import os
import pickle
import sys
import threading

from .core import REPO, expect

CODE = os.path.join(os.path.realpath(REPO), "openptv_python") + os.sep
PATIENCE = 5.0  # seconds a thread may take for a line before it counts as blocked


class Aborted(MemoryError):
    """Injected in the middle of work."""


def traced(code, known={}):
    """Whether a code object belongs to the code under test (and is no module body)."""
    got = known.get(code.co_filename)
    if got is None:
        got = known[code.co_filename] = os.path.realpath(code.co_filename).startswith(CODE)
    return got and code.co_name != "<module>"


def counted(job):
    """(result of job, lines of the code under test it executed)."""
    lines = [0]

    def local(frame, event, arg):
        if event == "line":
            lines[0] += 1
        return local

    def start(frame, event, arg):
        return local if traced(frame.f_code) else None

    sys.settrace(start)
    try:
        return job(), lines[0]
    finally:
        sys.settrace(None)


def apart(job):
    """The result of a job done in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            try:
                out = (True, job())
            except Exception as e:
                out = (False, f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    expect(bool(data), "process died", "")
    ok, value = pickle.loads(data)
    expect(ok, "work fails alone", lambda: str(value))
    return value


class Turns:
    """Runs jobs in threads of their own, in turns."""

    def __init__(self, jobs, schedule, totals, aborts, ctx):
        self.jobs, self.ctx = jobs, ctx
        n = len(jobs)
        share = lambda k, x: max(1, int(x * totals[k]) if x < 1 else int(x))
        self.schedule = [(k % n, share(k % n, x)) for k, x in schedule]
        self.aborts = {}
        for k, x in aborts:
            self.aborts.setdefault(k % n, []).append(share(k % n, x))
        for a in self.aborts.values():
            a.sort()
        self.go = [threading.Semaphore(0) for _ in jobs]
        self.over = threading.Semaphore(0)
        self.done = [False] * n
        self.lines = [0] * n
        self.result = [None] * n
        self.error = [None] * n
        self.hit = [False] * n
        self.current = None
        self.left = 0
        self.switches = 0
        self.trace = []  # (thread, lines executed) of every turn
        self.stopped = False
        self.all_lines = 0

    def pick(self):
        """The next thread and the length of its turn."""
        while self.schedule:
            k, x = self.schedule.pop(0)
            if not self.done[k]:
                return k, x
        for k, d in enumerate(self.done):
            if not d:
                return k, 1 << 60
        return None, 0

    def hand_over(self, me, wait):
        k, self.left = self.pick()
        if k == me:
            return
        if me is not None:
            self.trace.append((me, self.lines[me]))
        self.current = k
        if k is None:
            self.over.release()
        else:
            self.switches += 1
            self.go[k].release()
        if wait:
            self.wait(me)

    def wait(self, me):
        while self.current != me and not self.stopped:
            self.go[me].acquire()
        if self.stopped:
            raise SystemExit

    def tracer(self, me):
        def local(frame, event, arg):
            if event != "line":
                return local
            if self.current != me:  # was blocked while others went on
                self.wait(me)
            self.lines[me] += 1
            self.all_lines += 1
            a = self.aborts.get(me)
            if a and self.lines[me] >= a[0]:
                a.pop(0)
                self.hit[me] = True
                self.ctx.fault("work aborted")
                self.trace.append((me, -self.lines[me]))
                raise Aborted("injected")
            self.left -= 1
            if self.left <= 0:
                self.hand_over(me, True)
            return local

        def start(frame, event, arg):
            return local if traced(frame.f_code) else None

        return start

    def body(self, me):
        try:
            self.go[me].acquire()
            if self.stopped:
                return
            start = self.tracer(me)
            while True:
                self.hit[me] = False
                error = out = None
                sys.settrace(start)
                try:
                    out = self.jobs[me]()
                except Exception as e:
                    error = e
                    e.__traceback__ = None
                finally:
                    sys.settrace(None)
                if not self.hit[me]:  # what was aborted is done once more
                    break
            self.result[me], self.error[me] = out, error
        except SystemExit:
            return
        finally:
            sys.settrace(None)
            self.done[me] = True
            if not self.stopped and self.current == me:
                self.hand_over(me, False)

    def run(self):
        ts = [
            threading.Thread(target=self.body, args=(k,), daemon=True)
            for k in range(len(self.jobs))
        ]
        for t in ts:
            t.start()
        try:
            self.hand_over(None, False)
            seen = -1
            while not self.over.acquire(timeout=PATIENCE):
                if self.all_lines == seen:  # blocked by one that waits for its turn
                    k = self.current
                    others = [j for j, d in enumerate(self.done) if not d and j != k]
                    if others:
                        self.ctx.probe("lock waits")
                        self.current, self.left = others[0], 1 << 60
                        self.go[others[0]].release()
                seen = self.all_lines
            for t in ts:
                t.join(PATIENCE)
        except BaseException:
            self.stopped = True
            for k in range(len(ts)):
                self.go[k].release()
            raise
        self.ctx.steps += self.switches
        return self.result


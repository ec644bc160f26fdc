"""Seams through which the simulator controls the code under test.

* Scheduler      real threads, exactly one of which runs at a time; control moves only at line
                 events inside /repo/obp, at the points and to the threads the plan names
* line_fault     raise an injected failure at the k-th line executed inside /repo/obp
* SimRandomState numpy.random.RandomState whose draws the plan can push to the edges of their range
* faulty_open    builtins.open for scratch files: failing opens, failing reads, short reads
"""
import builtins
import contextlib
import errno
import os
import sys
import threading

import numpy as np

from .core import FAULTS, REPO, SimIOError

OBP = os.path.join(REPO, "obp") + os.sep


# --- threads -------------------------------------------------------------------------------------
class Scheduler:
    """Run functions as threads under a fixed schedule.

    switches: list of [gap, target]: after `gap` further line events, hand control to the
    target-th (modulo) unfinished thread.  Without switches left, threads run to completion in order.
    """

    def __init__(self, switches, ctx=None, stall=45.0):
        self.switches = [tuple(s) for s in switches]
        self.ctx = ctx
        self.stall = stall
        self.pos = 0
        self.left = self.switches[0][0] if self.switches else None
        self.lines = 0
        self.performed = 0
        self.free = False
        self.path = []

    def _local(self, frame, event, arg):
        if event == "line":
            self.on_line()
        return self._local

    def _trace(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(OBP):
            return self._local
        return None

    def on_line(self):
        if self.free:
            return
        me = threading.current_thread().sim_index
        self.lines += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        target = self.switches[self.pos][1]
        self.pos += 1
        self.left = self.switches[self.pos][0] if self.pos < len(self.switches) else None
        alive = [t for t in range(self.n) if not self.done[t]]
        nxt = alive[target % len(alive)]
        if nxt != me:
            self.performed += 1
            self.path.append((self.lines, nxt))
            self.sem[nxt].release()
            self.sem[me].acquire()

    def run(self, fns):
        self.n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * self.n
        self.out = [None] * self.n
        self.finished = threading.Semaphore(0)

        def body(i):
            self.sem[i].acquire()
            sys.settrace(self._trace)
            try:
                self.out[i] = (True, fns[i]())
            except BaseException as e:  # noqa
                self.out[i] = (False, e)
            finally:
                sys.settrace(None)
                self.done[i] = True
                rest = [t for t in range(self.n) if not self.done[t]]
                if rest and not self.free:
                    self.sem[rest[0]].release()
                self.finished.release()

        ths = []
        for i in range(self.n):
            t = threading.Thread(target=body, args=(i,), daemon=True)
            t.sim_index = i
            ths.append(t)
            t.start()
        if self.n:
            self.sem[0].release()
        for _ in range(self.n):
            if not self.finished.acquire(timeout=self.stall):
                # a parked thread holds something the running one needs: let everything go
                self.free = True
                for s in self.sem:
                    s.release()
        for t in ths:
            t.join(self.stall)
        if self.ctx is not None:
            if self.performed:
                self.ctx.fault("preemption")
                self.ctx.faults["preemption"] += self.performed - 1
            self.ctx.cover("schedule", tuple(self.path))
            self.ctx.log("schedule", [list(p) for p in self.path])
        return self.out


def gen_switches(r, n, lines):
    """n switch points with gaps spread over about `lines` line events"""
    if n <= 0:
        return []
    mean = max(1, lines // (n + 1))
    return [[1 + int(r.expovariate(1.0 / mean)), r.randrange(8)] for _ in range(n)]


# --- failures at a line --------------------------------------------------------------------------
class LineFault:
    def __init__(self, k, kind, only=None):
        self.k = k
        self.exc = FAULTS[kind]
        self.kind = kind
        self.n = 0
        self.fired = None
        self.only = only

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.k and self.fired is None:
                self.fired = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                sys.settrace(None)
                raise self.exc("injected")
        return self._local

    def _trace(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(OBP) and self.fired is None:
            if self.only is None or self.only(frame):
                return self._local
        return None

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


def count_lines(fn):
    f = LineFault(-1, "exception")
    with f:
        fn()
    return f.n


# --- randomness ----------------------------------------------------------------------------------
BaseRS = np.random.RandomState
EDGES_U = (0.0, float(np.nextafter(1.0, 0.0)), 1.0 - 2.0 ** -53, 2.0 ** -53, 0.5)
SOFT_EDGES_U = (1e-6, 1.0 - 1e-6, 0.5)  # where inversion of the truncated normal by SciPy is sound


class _Rig:
    """How draws are pushed to extremes: a private generator decides which elements."""

    active = None

    def __init__(self, seed, rate, ctx=None, edges=EDGES_U):
        self.edges = edges
        self.g = np.random.Generator(np.random.PCG64(seed))
        self.rate = rate
        self.ctx = ctx
        self.n = 0

    def uniform01(self, x):
        a = np.array(x, dtype=float, copy=True)
        m = self.g.random(a.shape) < self.rate
        if m.any():
            v = self.g.choice(self.edges, size=a.shape)
            a = np.where(m, v, a)
            self.count(int(m.sum()))
        return float(a) if np.ndim(x) == 0 else a

    def count(self, k):
        self.n += k
        if self.ctx is not None:
            self.ctx.faults["extreme-draw"] = self.ctx.faults.get("extreme-draw", 0) + k

    def real(self, x, lo, hi):
        a = np.array(x, dtype=float, copy=True)
        m = self.g.random(a.shape) < self.rate
        if m.any():
            v = self.g.choice((lo, hi, 0.0, 1.0), size=a.shape)
            a = np.where(m, v, a)
            self.count(int(m.sum()))
        return float(a) if np.ndim(x) == 0 else a


class SimRandomState(BaseRS):
    """RandomState whose unit uniforms (and what is built on them) may take their edge values."""

    def random_sample(self, size=None):
        x = BaseRS.random_sample(self, size)
        return _Rig.active.uniform01(x) if _Rig.active else x

    def random(self, size=None):
        return self.random_sample(size)

    def rand(self, *args):
        return self.random_sample(args if args else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        if _Rig.active is None:
            return BaseRS.uniform(self, low, high, size)
        if size is None:
            size = np.broadcast(np.asarray(low), np.asarray(high)).shape or None
        return low + (np.asarray(high) - low) * self.random_sample(size) if size is not None else low + (high - low) * self.random_sample()

    def gumbel(self, loc=0.0, scale=1.0, size=None):
        x = BaseRS.gumbel(self, loc, scale, size)
        return _Rig.active.real(x, -3.0, 40.0) if _Rig.active else x


@contextlib.contextmanager
def rigged_randomness(seed, rate, ctx=None, edges=EDGES_U):
    """np.random.RandomState objects created inside draw edge values at the given rate."""
    old = np.random.RandomState
    np.random.RandomState = SimRandomState
    _Rig.active = _Rig(seed, rate, ctx, edges)
    try:
        yield _Rig.active
    finally:
        _Rig.active = None
        np.random.RandomState = old


# --- files ---------------------------------------------------------------------------------------
class _FaultyFile:
    def __init__(self, f, plan, ctx):
        self._f = f
        self._p = plan
        self._ctx = ctx
        self._n = 0

    def read(self, n=-1):
        p = self._p
        if p.get("short") and n is not None and n > 0:
            n = max(1, n * p["short"] // 1000)
            self._ctx.fault("short-read")
        self._n += 1
        if p.get("read_error") and self._n >= p["read_error"]:
            self._ctx.fault("read-error")
            raise SimIOError(errno.EIO, "injected read error")
        return self._f.read(n)

    def readline(self, *a):
        return self._f.readline(*a)

    def __iter__(self):
        return iter(self._f)

    def __next__(self):
        return next(self._f)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()

    def __getattr__(self, k):
        return getattr(self._f, k)


@contextlib.contextmanager
def faulty_open(root, plan, ctx):
    """plan: {file name: {"open_error": errno name, "read_error": k, "short": permille}}"""
    real = builtins.open

    def sim_open(file, *a, **k):
        if isinstance(file, (str, os.PathLike)):
            path = os.path.abspath(os.fspath(file))
            if path.startswith(root + os.sep):
                p = plan.get(os.path.basename(path))
                if p:
                    if p.get("open_error"):
                        ctx.fault("open-error")
                        raise SimIOError(getattr(errno, p["open_error"]), "injected open error")
                    return _FaultyFile(real(file, *a, **k), p, ctx)
        return real(file, *a, **k)

    builtins.open = sim_open
    try:
        yield
    finally:
        builtins.open = real

"""Core of the deterministic simulator.

One run = one *plan*: a JSON value (configuration + list of operations + faults + scheduling
decisions) that the seeded generator of a property produced from one seed.  Executing a plan is a
pure function of the plan and of the code under /repo: all randomness, scheduling, I/O and failures
seen by that code come from the plan.  The plan is therefore also the replay file and the thing the
shrinker minimises.
"""
import hashlib
import json
import os
import random
import traceback

import numpy as np

REPO = os.environ.get("SIM_REPO", "/repo")


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(f"[{sig}] {msg}")
        self.sig = sig
        self.msg = msg


class RunTimeout(BaseException):
    pass


# --- injected failures -------------------------------------------------------------------------
class SimFault(Exception):
    """an exception raised by a collaborator (policy, model, reward function ...)"""


class SimInterrupt(KeyboardInterrupt):
    """the user presses Ctrl-C / the notebook kernel is interrupted"""


class SimMemoryError(MemoryError):
    """an allocation fails"""


class SimIOError(OSError):
    """a system call fails"""


FAULTS = {
    "exception": SimFault,
    "interrupt": SimInterrupt,
    "memory": SimMemoryError,
    "io": SimIOError,
}
INJECTED = (SimFault, SimInterrupt, SimMemoryError, SimIOError)


def digest(x):
    """A stable digest of results: bit-exact for arrays, structure included."""
    h = hashlib.sha256()
    _feed(h, x)
    return h.hexdigest()[:16]


def _feed(h, x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            h.update(b"O%r" % (x.shape,))
            for v in x.ravel():
                _feed(h, v)
        else:
            h.update(b"A" + x.dtype.str.encode() + repr(x.shape).encode())
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (np.floating, float)):
        h.update(b"f" + float(x).hex().encode())
    elif isinstance(x, (np.bool_, bool)):
        h.update(b"b%d" % bool(x))
    elif isinstance(x, (np.integer, int)):
        h.update(b"i%d" % int(x))
    elif isinstance(x, dict):
        h.update(b"{")
        for k in x:
            _feed(h, k)
            _feed(h, x[k])
        h.update(b"}")
    elif isinstance(x, (list, tuple)):
        h.update(b"[")
        for v in x:
            _feed(h, v)
        h.update(b"]")
    elif isinstance(x, str):
        h.update(b"s" + x.encode())
    elif x is None:
        h.update(b"N")
    elif hasattr(x, "to_dict") and hasattr(x, "columns"):
        _feed(h, list(map(str, x.columns)))
        _feed(h, list(map(str, x.index)))
        _feed(h, x.to_numpy())
    else:
        h.update(b"R" + type(x).__name__.encode())


class Ctx:
    """What one run records: an event trace, fired faults, coverage keys, simulated time."""

    TRACE_MAX = 4000

    def __init__(self):
        self.trace = []
        self.h = hashlib.sha256()
        self.faults = {}
        self.keys = set()
        self.sim_time = 0
        self.checks = 0

    def log(self, *ev):
        line = json.dumps([e if isinstance(e, (int, float, str, bool, type(None), list)) else repr(e) for e in ev])
        self.h.update(line.encode() + b"\n")
        if len(self.trace) < self.TRACE_MAX:
            self.trace.append(line)

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def cover(self, *key):
        self.keys.add(repr(key))

    def tick(self, n=1):
        self.sim_time += int(n)

    def fail(self, sig, msg):
        raise Violation(sig, msg)

    def check(self, cond, sig, msg=""):
        self.checks += 1
        if not cond:
            raise Violation(sig, msg() if callable(msg) else msg)

    def call(self, what, fn, *a, **k):
        """Run an operation of the code under test that must succeed."""
        try:
            return fn(*a, **k)
        except (Violation, RunTimeout):
            raise
        except INJECTED:
            raise
        except BaseException as e:  # noqa
            raise Violation("operation-failed", f"{what} raised {type(e).__name__}: {e}\n" + _tb(e))

    def attempt(self, what, fn, *a, **k):
        """Run an operation into which a failure may have been injected.
        Returns (ok, result-or-exception); anything but an injected failure is a violation."""
        try:
            return True, self.call(what, fn, *a, **k)
        except INJECTED as e:
            self.log("injected", what, type(e).__name__)
            return False, e


def _tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "".join(f"    {f.filename}:{f.lineno} in {f.name}\n" for f in tb[-6:])


def rng_for(seed, prop, i):
    return random.Random(f"{seed}/{prop}/{i}")


def np_rng(*key):
    """harness-side numpy generator (never the code's own), from a stable key"""
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.Generator(np.random.PCG64(int.from_bytes(h[:8], "little")))


def arr_eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc" and b.dtype.kind in "fc"))


def show(x, n=12):
    s = repr(np.asarray(x).tolist() if isinstance(x, np.ndarray) else x)
    return s if len(s) < 400 else s[:400] + "..."


def execute(prop, plan):
    """Execute a plan. Returns (violation or None, ctx)."""
    ctx = Ctx()
    try:
        prop.run(plan, ctx)
    except Violation as v:
        ctx.log("VIOLATION", v.sig)
        return v, ctx
    except RunTimeout:
        v = Violation("no-progress", "the run did not finish within its step budget (wall-clock guard)")
        ctx.log("VIOLATION", v.sig)
        return v, ctx
    except BaseException as e:  # the oracle could not digest what the code produced
        v = Violation("uninterpretable", f"{type(e).__name__}: {e}\n" + _tb(e))
        ctx.log("VIOLATION", v.sig)
        return v, ctx
    return None, ctx


# --- shrinking -----------------------------------------------------------------------------------
def _with(plan, path, val):
    p = json.loads(json.dumps(plan))
    o = p
    for k in path[:-1]:
        o = o[k]
    o[path[-1]] = val
    return p


def _get(plan, path):
    o = plan
    for k in path:
        o = o[k]
    return o


def list_paths(plan, prefix=(), out=None):
    """paths of all lists of plan elements that may be thinned out (lists of dicts or of lists)"""
    out = [] if out is None else out
    if isinstance(plan, dict):
        for k, v in plan.items():
            if k.startswith("="):  # fixed field
                continue
            if isinstance(v, list) and v and all(isinstance(e, (dict, list)) for e in v):
                out.append(prefix + (k,))
                for i, e in enumerate(v):
                    list_paths(e, prefix + (k, i), out)
            elif isinstance(v, dict):
                list_paths(v, prefix + (k,), out)
    return out


def shrink(plan, still_fails, simplify=None, budget=400):
    """ddmin over every op/fault/switch list, then drop faults, then property-specific steps."""
    n = [0]

    def ok(p):
        if n[0] >= budget:
            return False
        n[0] += 1
        try:
            return still_fails(p)
        except Exception:
            return False

    changed = True
    while changed and n[0] < budget:
        changed = False
        for path in list_paths(plan):
            try:
                cur = _get(plan, path)
            except (KeyError, IndexError):
                continue
            size = max(1, len(cur) // 2)
            while size >= 1 and n[0] < budget:
                i = 0
                while i < len(cur) and n[0] < budget:
                    cand = cur[:i] + cur[i + size :]
                    if len(cand) < len(cur) and ok(_with(plan, path, cand)):
                        plan = _with(plan, path, cand)
                        cur = cand
                        changed = True
                    else:
                        i += size
                size //= 2
        for path in fault_paths(plan):
            try:
                if _get(plan, path) is None:
                    continue
            except (KeyError, IndexError):
                continue
            p = _with(plan, path, None)
            if ok(p):
                plan = p
                changed = True
        for cand in steps(simplify, plan):
            if json.dumps(cand) != json.dumps(plan) and ok(cand):
                plan = cand
                changed = True
    return plan, n[0]


def steps(simplify, plan):
    """property-specific simplifications; they may not fit a plan that has been thinned out already"""
    try:
        if simplify:
            yield from simplify(plan)
    except (KeyError, IndexError, TypeError, ValueError):
        pass


def fault_paths(plan, prefix=(), out=None):
    out = [] if out is None else out
    it = plan.items() if isinstance(plan, dict) else enumerate(plan) if isinstance(plan, list) else ()
    for k, v in it:
        if k == "fault" and v is not None:
            out.append(prefix + (k,))
        elif isinstance(v, (dict, list)):
            fault_paths(v, prefix + (k,), out)
    return out

"""The functions that make up the shipped worlds (rewards, behaviour, evaluation policies), asked in histories:
batches cut differently, arrays reused and edited by the caller, failing coefficient functions, interrupted
calls, threads.  What they must return follows from what they returned for unit coefficients and unit contexts."""
import itertools

import numpy as np

import obp.dataset as D
from obp.dataset.synthetic import sample_random_uniform_coefficients
from obp.simulator.coefficient_drifter import CoefficientDrifter

from ..core import FAULTS, np_rng, show
from ..seams import LineFault, Scheduler, gen_switches

# name -> (degree, share of the features in use, logistic)
REWARD = dict(
    linear_reward_function=(1, 1.0, False), polynomial_reward_function=(3, 1.0, False), sparse_reward_function=(4, 0.3, False),
    logistic_reward_function=(1, 1.0, True), logistic_polynomial_reward_function=(3, 1.0, True), logistic_sparse_reward_function=(4, 0.3, True),
)
BEHAVIOUR = dict(linear_behavior_policy=1, polynomial_behavior_policy=3)
CONT = ("linear_reward_funcion_continuous", "quadratic_reward_funcion_continuous", "linear_behavior_policy_continuous")
PLAIN = dict(linear_synthetic_policy_continuous=lambda m: m, threshold_synthetic_policy_continuous=lambda m: 1.0 + np.sign(m - 1.5), sign_synthetic_policy_continuous=np.sin)
ALL = list(REWARD) * 3 + list(BEHAVIOUR) * 2 + list(CONT) * 2 + list(PLAIN) + ["linear_behavior_policy_logit"] * 2 + ["action_interaction_reward_function"] * 6
STRUCTURES = ["cascade_additive", "cascade_decay", "independent", "standard_additive", "standard_decay"]


def monomials(x, degree):
    x = np.asarray(x, dtype=float)
    cols = [np.ones(len(x))]
    for d in range(1, degree + 1):
        for c in itertools.combinations_with_replacement(range(x.shape[1]), d):
            cols.append(np.prod(x[:, list(c)], axis=1))
    return np.stack(cols, axis=1)


def sigmoid(v):
    return np.where(v >= 0, 1.0 / (1.0 + np.exp(-np.abs(v))), np.exp(-np.abs(v)) / (1.0 + np.exp(-np.abs(v))))


def logit(p):
    return np.log(p) - np.log1p(-p)


class Coef:
    """a coefficient function that records what it was asked and what it answered, and may fail"""

    def __init__(self, give, fault=None):
        self.give, self.fault, self.asked, self.given = give, fault, None, None

    def __call__(self, **kw):
        if self.fault:
            kind, self.fault = self.fault, None
            raise FAULTS[kind]("injected")
        self.asked = {k: int(kw[k]) for k in ("n_rounds", "effective_dim_context", "effective_dim_action_context") if k in kw}
        self.given = [np.array(v, copy=True) for v in self.give(**kw)]
        return tuple(np.array(v, copy=True) for v in self.given)


class Prop:
    id = "C25"
    runs = {"quick": 3000, "thorough": 100000}
    time_unit = "rounds for which a shipped function was asked"
    rule = ("a run is a history of requests to the shipped reward, behaviour and policy functions on arrays the caller keeps, reuses and edits, "
            "with failing coefficient or base reward functions, interrupted calls and requests in threads; non-trivial when a request was "
            "answered after a disturbance or in another cut")
    measure = "distinct (function, degree of z-scoring, coefficient source, cut, disturbance) tuples"
    real = ["every reward, behaviour-policy and synthetic-policy function exported by obp.dataset", "CoefficientDrifter", "sample_random_uniform_coefficients"]
    stub = ["coefficient functions with unit coefficients", "base reward tables", "thread scheduler"]
    assumptions = ["which features a sparse function uses, and the coefficients a seed stands for, are left open",
                   "slate interactions are kept in half precision by the library: compared to 1e-3 of the logit"]

    def generate(self, r, i, tier):
        arrays = [dict(n=r.choice([1, 2, 3, 5, 8, 12]), dim=r.randint(1, 3), na=r.randint(2, 4), actx=r.choice(["eye", "eye", "real", "twins"]), seed=r.randrange(10**6), kept=r.choice(["plain", "plain", "int", "halves", "fortran", "strided", "readonly"])) for _ in range(2)]
        if r.random() < 0.02:
            arrays[0].update(n=r.choice([80, 300]), na=6)
        ops = []
        for _ in range(r.choice([3, 5, 8])):
            fn = r.choice(ALL)
            o = dict(fn=fn, arr=r.randrange(2), seed=r.choice([0, 1, 12345]), z=r.random() < 0.4, coef=r.choice(["default", "uniform", "own", "own", "drift", "drift"]), s=r.randrange(10**6), tau=r.choice([1.0, 0.5, 3, 10.0]), cut=r.choice(["whole", "rows", "parts", "reverse"]),
                     edit=r.random() < 0.2, rs=r.choice(STRUCTURES), rt=r.choice(["binary", "continuous"]), ll=r.choice([2, 2, 3]), enum=r.random() < 0.3)
            if r.random() < 0.25:
                o["fault"] = dict(at=r.choice(["function", "line", "line"]), line=r.randint(1, 50), kind=r.choice(["exception", "interrupt", "memory"]))
            ops.append(o)
        p = dict(arrays=arrays, ops=ops)
        if r.random() < 0.2:
            p["threads"] = gen_switches(r, r.choice([1, 3, 6]), 40 * len(ops))
        return p

    # -- what the caller keeps --------------------------------------------------------------------
    def contexts(self, c):
        g = np_rng("c25", c["seed"])
        x = np.round(g.normal(size=(c["n"], c["dim"])), 4)
        if c["actx"] == "eye":
            a = np.eye(c["na"], dtype=int)
        else:
            a = np.round(g.normal(size=(c["na"], 2)), 4)
            if c["actx"] == "twins":
                a[-1] = a[0]
        kept = c.get("kept", "plain")
        if kept == "int":
            x = np.rint(2 * x).astype(int)
        elif kept == "halves":  # values at which the threshold policy changes
            x = np.rint(2 * x) / 2 + 1.5
        elif kept == "fortran":
            x, a = np.asfortranarray(x), np.asfortranarray(a)
        elif kept == "strided":
            big = np.full((2 * c["n"], c["dim"] + 1), 99.0)
            big[::2, 1:] = x
            x = big[::2, 1:]
        elif kept == "readonly":
            x.flags.writeable = a.flags.writeable = False
        return x, a

    def run(self, p, ctx):
        self.keep = [self.contexts(c) for c in p["arrays"]]
        self.memo = {}
        reqs = []
        for k, o in enumerate(p["ops"]):
            x, a = self.keep[o["arr"]]
            if o["edit"] and x.flags.writeable and not p.get("threads"):  # the caller goes on using the same array for other values
                g = np_rng("edit", o["s"])
                x[...] = np.round(2 * g.normal(size=x.shape), 0 if x.dtype.kind == "i" else 4)
                ctx.fault("caller-edits-array")
            if p.get("threads"):
                reqs.append(lambda o=o, x=x, a=a: self.request(o, x, a, ctx))
            else:
                self.request(o, x, a, ctx)
                ctx.log(k, o["fn"])
        if reqs:
            half = len(reqs) // 2
            parts = [reqs[:half], reqs[half:]]
            for ok, v in Scheduler(p["threads"], ctx).run([lambda q=q: [f() for f in q] for q in parts if q]):
                if not ok:
                    raise v

    # -- asking -----------------------------------------------------------------------------------
    def ask(self, ctx, o, fn, *arrs, **kw):
        """one call; the arguments stay as they are, the answer belongs to the caller"""
        before = [np.array(v, copy=True) for v in arrs] + [np.array(v, copy=True) for v in kw.values() if isinstance(v, np.ndarray)]
        out = np.asarray(ctx.call(o["fn"], fn, *arrs, **kw))
        after = list(arrs) + [v for v in kw.values() if isinstance(v, np.ndarray)]
        ctx.check(all(np.array_equal(b, v) for b, v in zip(before, after)), "arguments-changed", lambda: f"{o['fn']} changed the arrays it was given")
        res = np.array(out, dtype=float, copy=True)
        if out.flags.writeable:
            out[...] = -77.0
            ctx.check(all(np.array_equal(b, v) for b, v in zip(before, after)), "aliased", lambda: f"the values {o['fn']} returned share memory with its arguments")
        return res

    def disturb(self, ctx, o, call):
        """a first attempt that is cut off"""
        f = o.get("fault")
        if not f or f["at"] != "line" or self.threaded():
            return
        lf = LineFault(f["line"], f["kind"])

        def cut():
            with lf:
                return call()

        ok, _ = ctx.attempt(o["fn"], cut)
        if not ok:
            ctx.fault("interrupted-" + f["kind"])
            ctx.cover("line", o["fn"], lf.fired)

    @staticmethod
    def threaded():
        import threading

        return threading.current_thread() is not threading.main_thread()

    def cuts(self, o, n):
        if o["cut"] == "rows":
            return [[i] for i in range(n)]
        if o["cut"] == "parts":
            g = np_rng("cut", o["s"])
            idx, out = list(g.permutation(n)), []
            while idx:
                k = int(g.integers(1, 4))
                out.append([int(v) for v in idx[:k]])
                idx = idx[k:]
            return out
        return [list(range(n))[::-1]] if o["cut"] == "reverse" else [list(range(n))]

    def same(self, ctx, o, got, want, what, tol=1e-9):
        got, want = np.asarray(got), np.asarray(want)
        ok = got.shape == want.shape and bool(np.all(np.isfinite(got))) and bool(np.all(np.abs(got - want) <= tol * (1.0 + np.abs(want).max(initial=0.0))))
        ctx.check(ok, "wrong-value", lambda: f"{o['fn']} {what}: {show(got)}, expected {show(want)}")

    def repeat(self, ctx, o, key, out):
        """equal requests have equal answers, whatever happened in between"""
        key = (o["fn"],) + key
        if key in self.memo:
            ctx.check(np.array_equal(self.memo[key], out, equal_nan=True), "not-repeatable", lambda: f"{o['fn']}: {show(out)}, an equal request before was answered {show(self.memo[key])}")
        self.memo[key] = out

    def request(self, o, x, a, ctx):
        fn = getattr(D, o["fn"])
        ctx.tick(len(x))
        if o["fn"] in REWARD:
            self.reward(o, fn, x, a, ctx)
        elif o["fn"] in BEHAVIOUR:
            self.behaviour(o, fn, x, a, ctx)
        elif o["fn"] in CONT:
            self.continuous(o, fn, x, ctx)
        elif o["fn"] in PLAIN:
            self.disturb(ctx, o, lambda: fn(context=x))
            for part in self.cuts(o, len(x)):
                m = x[part].mean(1)
                got, want = self.ask(ctx, o, fn, context=x[part]), PLAIN[o["fn"]](m)
                if o["fn"].startswith("threshold") and not np.array_equal(2 * x, np.rint(2 * x)):
                    want = np.where(np.abs(m - 1.5) < 1e-9, got, want)
                self.same(ctx, o, got, want, "of the contexts")
            ctx.cover(o["fn"], o["cut"])
        elif o["fn"] == "linear_behavior_policy_logit":
            self.logit(o, fn, x, a, ctx)
        else:
            self.slate(o, fn, x, a, ctx)

    # -- rewards ----------------------------------------------------------------------------------
    def reward(self, o, fn, x, a, ctx):
        degree, share, logistic = REWARD[o["fn"]]
        n, na = len(x), len(a)
        X, A = monomials(x, degree), monomials(a, degree)
        dc, da = ((X.shape[1], A.shape[1]) if share == 1.0 else (max(int(X.shape[1] * share), 1), max(int(A.shape[1] * share), 1)))
        if max(dc, da) > 60:
            return
        kw = dict(context=x, action_context=a, random_state=o["seed"])
        raw = getattr(D, o["fn"].replace("logistic_", "") if o["fn"] != "logistic_reward_function" else "linear_reward_function")

        def unit(j, kind):
            """values when one single coefficient is one"""
            def give(n_rounds, effective_dim_context, effective_dim_action_context, **k):
                c, b, m = np.zeros(effective_dim_context), np.zeros(effective_dim_action_context), np.zeros((effective_dim_context, effective_dim_action_context))
                (c if kind == "c" else b)[j] = 1.0
                return c, b, m

            co = Coef(give)
            v = self.ask(ctx, o, raw, z_score=False, coef_function=co, **kw)
            ctx.check(co.asked == dict(n_rounds=n, effective_dim_context=dc, effective_dim_action_context=da), "wrong-request", lambda: f"{o['fn']}: the coefficient function was asked for {co.asked}; there are {n} rounds, {dc} context and {da} action features in use")
            ctx.check(v.shape == (n, na), "shape", lambda: f"{o['fn']}: shape {v.shape}")
            return v / degree

        cols, acts = [], []
        for j in range(dc):
            v = unit(j, "c")
            ctx.check(np.allclose(v, v[:, :1]), "context-feature", lambda: f"a context feature's value differs between actions: {show(v)}")
            cols.append(v[:, 0])
        for j in range(da):
            v = unit(j, "a")
            ctx.check(np.allclose(v, v[:1]), "action-feature", lambda: f"an action feature's value differs between rounds: {show(v)}")
            acts.append(v[0])
        for got, full, what in ((cols, X, "context"), (acts, A, "action")):
            self.features(ctx, o, np.stack(got, 1), full, share == 1.0, what)
        C, B = np.stack(cols, 1), np.stack(acts, 1)

        # the request itself
        f = o.get("fault")
        bad = f["kind"] if f and f["at"] == "function" else None
        coef, co = o["coef"], None
        if coef == "own" or (coef == "drift" and share == 1.0 and dc * da > 400):
            g = np_rng("coef", o["s"])
            t = bool(g.random() < 0.5)
            vals = [np.round(g.normal(size=((n,) if t else ()) + s), 3) for s in ((dc,), (da,), (dc, da))]
            co = Coef(lambda **k: vals, bad)
        elif coef == "drift":
            dr = CoefficientDrifter(drift_interval=1 + o["s"] % 4, transition_period=o["s"] % 2, seasonal=bool(o["s"] % 3), random_state=o["s"] % 997)
            co = Coef(dr.get_coefficients, bad)
        elif coef == "uniform":
            co = Coef(sample_random_uniform_coefficients, bad)
        args = dict(kw, z_score=o["z"]) if co is None else dict(kw, z_score=o["z"], coef_function=co)
        if co is None or coef == "uniform":
            self.disturb(ctx, o, lambda: fn(**args))
        if co is not None and bad:
            ok, _ = ctx.attempt(o["fn"], fn, **args)
            ctx.check(not ok, "swallowed", lambda: f"{o['fn']}: the coefficient function failed, the call did not")
            ctx.fault("coefficient-function-failed")
        out = self.ask(ctx, o, fn, **args)
        if co is None:
            ref = Coef(sample_random_uniform_coefficients)
            again = self.ask(ctx, o, fn, **dict(args, coef_function=ref))
            ctx.check(np.array_equal(again, out, equal_nan=True), "default-coefficients", lambda: f"{o['fn']} without a coefficient function: {show(out)}; with uniform coefficients: {show(again)}")
            self.repeat(ctx, o, (x.tobytes(), x.shape, a.tobytes(), a.shape, o["seed"], o["z"]), out)
            co = ref
            ctx.check(all(np.all(np.abs(v) <= 1.0) for v in co.given), "default-coefficients", "uniform coefficients outside [-1, 1]")
        cc, ac, m = co.given
        cc, ac, m = [np.broadcast_to(v if v.ndim > d else v[None], (n,) + v.shape[-d:]) for v, d in ((cc, 1), (ac, 1), (m, 2))]
        v = (C * cc).sum(1)[:, None] + ac @ B.T + np.einsum("ic,icb,ab->ia", C, m, B)
        scale = np.abs(v).max() + 1e-300
        if o["z"]:
            if v.std() < 1e-7 * scale:
                return
            v = (v - v.mean()) / v.std()
        v = degree * v
        want = sigmoid(v) if logistic else v
        self.same(ctx, o, out, want, f"({'z-scored' if o['z'] else 'plain'}, {coef} coefficients)", 1e-8)
        if logistic:
            ctx.check(np.all((out >= 0) & (out <= 1)), "not-a-probability", lambda: f"{o['fn']} gives {show(out)}")
        # one round's value is a matter of its own context
        if not o["z"] and coef in ("default", "uniform"):
            for part in self.cuts(o, n):
                got = self.ask(ctx, o, fn, **dict(kw, context=x[part], z_score=False))
                self.same(ctx, o, got, want[part], f"of rounds {part} of {n} alone", 1e-8)
        ctx.cover(o["fn"], o["z"], coef, o["cut"], bad is not None, n in (dc, da))

    def features(self, ctx, o, got, full, whole, what):
        """the columns in use are monomials of the stated degree, each used once"""
        left = list(range(full.shape[1]))
        for j in range(got.shape[1]):
            hit = [k for k in left if np.allclose(got[:, j], full[:, k], rtol=1e-9, atol=1e-9)]
            ctx.check(bool(hit), "feature", lambda: f"{o['fn']}: {what} feature {j} is {show(got[:, j])}, which is no (further) monomial of the {what}")
            left.remove(hit[0])
        ctx.check(not whole or not left, "feature", lambda: f"{o['fn']}: {len(left)} monomials of the {what} are not used")

    # -- behaviour --------------------------------------------------------------------------------
    def behaviour(self, o, fn, x, a, ctx):
        degree = BEHAVIOUR[o["fn"]]
        n, na = len(x), len(a)
        kw = dict(context=x, action_context=a, random_state=o["seed"])
        self.disturb(ctx, o, lambda: fn(**kw))
        out = self.ask(ctx, o, fn, **kw)
        ctx.check(out.shape == (n, na), "shape", lambda: f"{o['fn']}: shape {out.shape}")
        if len({tuple(r) for r in a.tolist()}) < 2 and len({tuple(r) for r in x.tolist()}) < 2:
            return
        self.repeat(ctx, o, (x.tobytes(), x.shape, a.tobytes(), a.shape, o["seed"]), out)
        ctx.check(np.all(np.isfinite(out)) and abs(out.mean()) < 1e-8 and abs(out.std() - degree) < 1e-8, "scale", lambda: f"{o['fn']}: mean {out.mean()}, standard deviation {out.std()}; standardised and times {degree} they are 0 and {degree}")
        # the same rounds and twice the same action in another order
        g = np_rng("perm", o["s"])
        i, j = g.permutation(n), g.permutation(na)
        self.same(ctx, o, self.ask(ctx, o, fn, **dict(kw, context=x[i])), out[i], "of the same rounds in another order", 1e-8)
        self.same(ctx, o, self.ask(ctx, o, fn, **dict(kw, context=np.r_[x, x])), np.r_[out, out], "of every round twice", 1e-8)
        twin = self.ask(ctx, o, fn, **dict(kw, action_context=a[j]))
        self.same(ctx, o, twin, out[:, j], "of the same actions in another order", 1e-8)
        # bilinear in the monomials
        X = monomials(np.r_[x, np.round(g.normal(size=(3 * (degree + 1) ** x.shape[1], x.shape[1])), 3)], degree)
        big = self.ask(ctx, o, fn, **dict(kw, context=np.ascontiguousarray(X[:, 1 : 1 + x.shape[1]])))
        fit = X @ np.linalg.lstsq(X, big, rcond=None)[0]
        self.same(ctx, o, big, fit, f"is no polynomial of degree {degree} of the context", 1e-6)
        # an affine transform of what a smaller batch gives
        u, v = out.ravel(), big[:n].ravel()
        if n * na > 2:
            q = np.polyfit(u, v, 1)
            self.same(ctx, o, v, np.polyval(q, u), "of the same rounds in a larger batch is no rescaling", 1e-6)
            ctx.check(q[0] > 0, "scale", "a larger batch turned the logits round")
        ctx.cover(o["fn"], n == 1, na)

    def logit(self, o, fn, x, a, ctx):
        n = len(x)
        kw = dict(context=x, action_context=a, random_state=o["seed"])
        self.disturb(ctx, o, lambda: fn(tau=o["tau"], **kw))
        out = self.ask(ctx, o, fn, tau=o["tau"], **kw)
        self.repeat(ctx, o, (x.tobytes(), x.shape, a.tobytes(), a.shape, o["seed"], o["tau"]), out)
        dim, da = x.shape[1], a.shape[1]
        zero, one = np.zeros((1, da)), np.eye(da)
        cx = self.ask(ctx, o, fn, context=np.r_[np.zeros((1, dim)), np.eye(dim)], action_context=np.r_[zero, one].astype(a.dtype), random_state=o["seed"])
        ctx.check(cx.shape == (dim + 1, da + 1) and cx[0, 0] == 0, "shape", lambda: f"{o['fn']}: {show(cx)} for zero and unit vectors")
        want = ((x @ cx[1:, 0])[:, None] + (a @ cx[0, 1:])[None]) / o["tau"]
        self.same(ctx, o, out, want, f"at temperature {o['tau']}")
        for part in self.cuts(o, n):
            self.same(ctx, o, self.ask(ctx, o, fn, tau=o["tau"], **dict(kw, context=x[part])), want[part], f"of rounds {part} of {n} alone")
        ctx.cover(o["fn"], o["tau"], o["cut"])

    # -- continuous actions -----------------------------------------------------------------------
    def continuous(self, o, fn, x, ctx):
        n, dim = x.shape
        g = np_rng("act", o["s"])
        act = np.round(g.normal(size=n) * 2, 3)

        def at(xs, acts=None):
            xs = np.asarray(xs, dtype=float).reshape(-1, dim)
            kw = dict(context=xs, random_state=o["seed"])
            if acts is not None:
                kw["action"] = np.asarray(acts, dtype=float)
            return self.ask(ctx, o, fn, **kw)

        zero, e = np.zeros(dim), np.eye(dim)
        if o["fn"].startswith("linear_behavior"):
            b = at([zero])[0]
            c = at(e) - b
            want = x @ c + b
            call = lambda i: at(x[i])  # noqa
        elif o["fn"].startswith("quadratic"):
            base = at([zero] * 3, [0.0, 1.0, -2.0])
            self.same(ctx, o, base, [0.0, 1.0, 4.0], "of zero contexts")
            gr = (at(e, np.ones(dim)) - at(e, -np.ones(dim))) / 2
            sq = at(e, np.zeros(dim))
            K = np.diag(sq)
            for i, j in itertools.combinations(range(dim), 2):
                K[i, j] = K[j, i] = (at([e[i] + e[j]], [0.0])[0] - sq[i] - sq[j]) / 2
            want = act**2 + act * (x @ gr) + np.einsum("ni,ij,nj->n", x, K, x)
            call = lambda i: at(x[i], act[i])  # noqa
        else:
            b, one, two = at([zero] * 3, [0.0, 1.0, 2.0])
            self.same(ctx, o, one - b, 1.0, "between actions 0 and 1 of a zero context", 1e-9)
            power = np.log2(two - b)
            ctx.check(0 <= power < 1 and 0 <= b < 1, "form", lambda: f"{o['fn']}: power {power}, offset {b}")
            if power < 0.05:
                return
            c = np.abs(at(e, np.zeros(dim)) - b) ** (1 / power)
            c = np.where(np.abs(at(e, c) - b) < np.abs(at(e, -c) - b), c, -c)
            want = np.abs(x @ c - act) ** power + b
            call = lambda i: at(x[i], act[i])  # noqa
        everything = list(range(n))
        self.disturb(ctx, o, lambda: call(everything))
        out = call(everything)
        self.repeat(ctx, o, (x.tobytes(), x.shape, act.tobytes(), o["seed"]), out)
        tol = 1e-9 if not o["fn"].startswith("linear_reward") else 1e-4
        self.same(ctx, o, out, want, "of the contexts", tol)
        for part in self.cuts(o, n):
            self.same(ctx, o, call(part), out[part], f"of rounds {part} of {n} alone")
        ctx.cover(o["fn"], o["cut"], dim)

    # -- slates -----------------------------------------------------------------------------------
    def slate(self, o, fn, x, a, ctx):
        n, na = len(x), len(a)
        ll = min(o["ll"], na)
        g = np_rng("slate", o["s"])
        binary, additive = o["rt"] == "binary", o["rs"].endswith("additive")
        base = np.round(g.uniform(0.05, 0.95, (n, na)), 3) if binary else np.round(g.uniform(0.0, 3.0, (n, na)), 3)
        W = np.round(g.normal(size=(na, na)) if additive else g.uniform(-0.6, 0.6, (ll, ll)), 3)
        f = o.get("fault")
        bad = [f["kind"]] if f and f["at"] == "function" else []
        seen = []

        def base_function(context, action_context, random_state=None):
            if bad:
                raise FAULTS[bad.pop()]("injected")
            seen.append((np.array_equal(context, x), np.array_equal(action_context, a)))
            return base.copy()

        if o["enum"]:
            slates = np.array(list(itertools.permutations(range(na), ll)))
            rows = [(i, s) for i in range(n) for s in slates]
            action = slates.ravel()
        else:
            action = np.concatenate([g.permutation(na)[:ll] if g.random() < 0.8 else g.integers(0, na, ll) for _ in range(n)])
            rows = list(enumerate(action.reshape(n, ll)))
        kw = dict(context=x, action_context=a, action=action, base_reward_function=base_function, reward_type=o["rt"], reward_structure=o["rs"], action_interaction_weight_matrix=W, len_list=ll, is_enumerated=o["enum"], random_state=o["seed"])
        if bad:
            ok, _ = ctx.attempt(o["fn"], fn, **kw)
            ctx.check(not ok, "swallowed", lambda: f"{o['fn']}: the base reward function failed, the call did not")
            ctx.fault("base-reward-failed")
        self.disturb(ctx, o, lambda: fn(**kw))
        keep = base.copy()
        out = self.ask(ctx, o, fn, **kw)
        ctx.check(np.array_equal(base, keep) and all(all(s) for s in seen), "wrong-request", "the base reward function was asked for other contexts or actions")
        b = logit(base) if binary else base
        want, slack = np.zeros((len(rows), ll)), np.zeros((len(rows), ll))
        for q, (i, s) in enumerate(rows):
            for k in range(ll):
                v = b[i, s[k]]
                for j in range(ll):
                    if j == k or o["rs"] == "independent" or (o["rs"].startswith("cascade") and j > k):
                        continue
                    v += W[s[k], s[j]] if additive else b[i, s[j]] * W[j, k]
                want[q, k], slack[q, k] = v, 1e-3 * abs(v) + 1e-4
        ctx.check(out.shape == want.shape, "shape", lambda: f"{o['fn']}: shape {out.shape}, expected {want.shape}")
        lo, hi = (sigmoid(want - slack) - 1e-3, sigmoid(want + slack) + 1e-3) if binary else (np.maximum(want, 0) - slack, np.maximum(want, 0) + slack)
        w = np.argwhere(~((out >= lo) & (out <= hi)))
        ctx.check(len(w) == 0, "wrong-value", lambda: f"{o['fn']} ({o['rt']}, {o['rs']}): slate {rows[w[0][0]]}, place {w[0][1]}: {out[tuple(w[0])]}, expected {sigmoid(want)[tuple(w[0])] if binary else max(0.0, want[tuple(w[0])])}")
        ctx.cover(o["fn"], o["rt"], o["rs"], o["enum"], ll)

    def simplify(self, plan):
        if plan.get("threads") is not None:
            q = dict(plan)
            q.pop("threads")
            yield q
        for k, o in enumerate(plan["ops"]):
            for f, v in (("edit", False), ("cut", "whole"), ("z", False), ("coef", "default")):
                if o[f] != v:
                    ops = list(plan["ops"])
                    ops[k] = dict(o, **{f: v})
                    yield dict(plan, ops=ops)


PROP = Prop()

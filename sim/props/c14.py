import numpy as np
from scipy.special import softmax
from sklearn.linear_model import LogisticRegression
from sklearn.naive_bayes import GaussianNB
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from obp import policy as P

from ..core import arr_eq, digest, np_rng, show
from ..models import Ledger, RecClf, RecReg, mark
from ..opeworld import snapshot
from ..seams import LineFault, rigged_randomness

BASE = 1000.0
SIGMA = 7.5
REAL_C = dict(tree=lambda: DecisionTreeClassifier(max_depth=3, random_state=3), nb=lambda: GaussianNB(), logit=lambda: LogisticRegression(max_iter=30))
REAL_R = dict(tree=lambda: DecisionTreeRegressor(max_depth=3, random_state=3), nb=lambda: DecisionTreeClassifier(max_depth=2, random_state=1), logit=lambda: LogisticRegression(max_iter=30))


class Prop:
    id = "C14"
    runs = {"quick": 4000, "thorough": 120000}
    time_unit = "learner calls"
    rule = ("a run drives one offline learner through a history of fits (some failing inside the base model or interrupted at a line), predictions, scores and "
            "samples under pushed random draws; after every completed fit the learner is compared with a new learner fitted on the last data only and its "
            "training data, weights and predictions are traced through recording models")
    measure = "distinct (learner, base model, method, positions, history shape) tuples"
    real = ["IPWLearner, QLearner (with RegressionModel), NNPolicyLearner sampling and prediction; scikit-learn models in part of the runs"]
    stub = ["base models: recording stubs in part of the runs", "random draws of sample_action pushed to extremes"]
    assumptions = ["base models retrain from scratch in fit (no warm start)", "neural learners continue training when fitted again (by design), so only their predictions and samples are covered"]

    def generate(self, r, i, tier):
        kind = r.choice(["ipw", "ipw", "q", "q", "nn"])
        na = r.randint(2, 5)
        p = dict(kind=kind, na=na, ll=r.randint(1, min(3, na)), model=r.choice(["rec", "rec", "rec", "tree", "nb", "logit"]), how=r.choice(["normal", "normal", "iw", "mrdr"]), clf=r.random() < 0.4,
                 ops=[self.gen_op(r, j) for j in range(r.choice([2, 3, 5, 6]))])
        if kind == "nn":
            p["obj"] = r.choice(["ipw", "snipw", "ipw-os", "ipw-subgauss", "dm", "dr"])
            p["seed"] = r.randrange(1000)
        if r.random() < 0.02:
            p["na"] = r.choice([7, 12])
            p["ll"] = r.choice([1, 4, 6])
            for o in p["ops"]:
                o["n"] = r.choice([60, 120])
        return p

    def gen_op(self, r, j):
        k = "fit" if j == 0 else r.choice(["fit", "fit", "use", "use", "sample", "sample", "freq"])
        return dict(op=k, seed=r.randrange(10**6), n=r.choice([12, 20, 33]), m=r.choice([1, 2, 6]), arr=r.choice(["mixed", "mixed", "rare", "blocks"]), nops=r.random() < 0.15, tau=r.choice([1.0, 1, 0.1, 2.5, 1e-3, 100.0]), rate=r.choice([0.0, 0.2, 1.0]), rs=r.choice([0, 12345, r.randrange(10**6)]),
                    fault=dict(nth=r.randint(1, 4), kind=r.choice(["exception", "interrupt", "memory"])) if k == "fit" and r.random() < 0.35 else None, line=r.randint(1, 60) if k == "fit" and r.random() < 0.15 else None)

    # ---------------------------------------------------------------------------------------------
    def make(self, p, L):
        kw = dict(n_actions=p["na"], len_list=p["ll"])
        if p["kind"] == "nn":
            q = dict(hidden_layer_size=(4,), max_iter=1, random_state=p["seed"]) if p["obj"] in ("dm", "dr") else None
            return P.NNPolicyLearner(dim_context=2, off_policy_objective=p["obj"], hidden_layer_size=(4,), max_iter=1, random_state=p["seed"], q_func_estimator_hyperparams=q, **kw)
        if p["kind"] == "ipw":
            self.base = RecClf(L) if p["model"] == "rec" else REAL_C[p["model"]]()
            return P.IPWLearner(base_classifier=self.base, **kw)
        self.base = (RecClf(L, classes=2) if p["clf"] else RecReg(L)) if p["model"] == "rec" else REAL_R[p["model"]]()
        return P.QLearner(base_model=self.base, fitting_method=p["how"], **kw)

    def binary(self, p):
        return p["kind"] == "q" and ((p["model"] == "rec" and p["clf"]) or p["model"] in ("nb", "logit"))

    def data(self, p, op):
        g = np_rng("c14", op["seed"])
        n, na, ll = op["n"], p["na"], p["ll"]
        a, pos = g.integers(0, na, n), g.permutation(np.arange(n) % ll)
        if op["arr"] == "rare":
            miss = g.integers(0, na)
            a = np.where(a == miss, (a + 1) % na, a)
        if op["arr"] == "blocks":
            a = np.sort(a)
        if op["nops"]:
            a[0] = na - 1  # without propensities the learners count the actions up to the largest logged one
        # scikit-learn classifiers want two classes at every position; so do binary rewards
        r = g.integers(0, 2, n) if self.binary(p) else np.round(g.random(n), 3)
        for q in range(ll):
            at = np.flatnonzero(pos == q)
            if len(set(a[at])) < 2:
                a[at[2]] = (a[at[1]] + 1) % na
            r[at[0]], r[at[1]] = 0, 1
            r[at[np.flatnonzero(a[at] != a[at[1]])[0]]] = 1  # two classes with positive weight
            r[at[2]] = 0
            r[at[np.flatnonzero(a[at] != a[at[1]])[0]]] = 1
        x = np.c_[BASE + g.permutation(n), np.round(g.normal(size=n), 3)]
        if p["kind"] == "nn" or p["model"] != "rec":
            x[:, 0] = (x[:, 0] - BASE) / n
        return dict(context=x, action=a, reward=r, pscore=np.round(10 ** g.uniform(-2.5, -0.01, n), 4), position=pos)

    def run(self, p, ctx):
        L = Ledger(ctx)
        lr = ctx.call("learner", self.make, p, L)
        fitted, shape = None, []
        for op in p["ops"]:
            if op["op"] == "fit":
                ok = self.fit(p, op, lr, L, ctx)
                shape.append("fit" if ok else "failed-fit")
                fitted = (op, [dict(f) for f in L.fits]) if ok else None
            elif fitted is not None or p["kind"] == "nn":
                self.use(p, op, lr, L, fitted, ctx)
                shape.append(op["op"])
            ctx.tick()
        ctx.cover(p["kind"], p["model"] if p["kind"] != "nn" else p["obj"], p["how"] if p["kind"] == "q" else None, p["ll"], tuple(shape))

    def fit(self, p, op, lr, L, ctx):
        b = self.data(p, op)
        kw = {k: b[k] for k in ("context", "action", "reward")}
        if not op["nops"]:
            kw["pscore"] = b["pscore"]
        if p["ll"] > 1:
            kw["position"] = b["position"]
        keep = snapshot(kw)
        if p["kind"] == "nn":
            ctx.call("fit", lr.fit, **kw)
            self.unchanged(ctx, kw, keep)
            return True
        ok = True
        L.arm(op["fault"])
        if op["line"]:
            lf = LineFault(op["line"], "interrupt")

            def cut():
                with lf:
                    lr.fit(**kw)

            ok, _ = ctx.attempt("interrupted fit", cut)
            if lf.fired:
                ctx.fault("interrupted-at-line")
        else:
            ok, _ = ctx.attempt("fit", lr.fit, **kw)
        self.unchanged(ctx, kw, keep)
        L.fault = None
        if not ok:
            return False
        if p["model"] == "rec":
            self.trace_fit(p, op, b, kw, L, ctx)
        # the same data given to a new learner
        mine = list(L.fits)
        L2 = Ledger(ctx)
        new = self.make(p, L2)
        ctx.call("fit of a new learner", new.fit, **snapshot(kw))
        x = np_rng("c14x", op["seed"]).normal(size=(5, 2))
        for what in ("predict", "predict_score"):
            a, c = getattr(lr, what)(x), getattr(new, what)(x)
            ctx.check(arr_eq(a, c), "refit", lambda: f"{what} after refitting: {show(a)}, new learner: {show(c)}")
        L.fits = mine
        return True

    def unchanged(self, ctx, kw, keep):
        for n in kw:
            ctx.check(arr_eq(kw[n], keep[n]), "caller-data", lambda: f"`{n}` of the caller was modified")

    def trace_fit(self, p, op, b, kw, L, ctx):
        n, ll, na = op["n"], p["ll"], p["na"]
        pos = b["position"] if ll > 1 else np.zeros(n, int)
        where = {float(v): i for i, v in enumerate(b["context"][:, 0])}
        ctx.check(len(L.fits) == ll, "number-of-fits", lambda: f"{len(L.fits)} models trained for {ll} positions")
        seen = set()
        for f, rec in enumerate(L.fits):
            rows = [where[float(v)] for v in rec["X"][:, 0]]
            q = {int(pos[j]) for j in rows}
            ctx.check(len(q) == 1 and not (q & seen), "training-position", lambda: f"model {f} was trained on rounds of positions {sorted(q)}")
            seen |= q
            ctx.check(sorted(rows) == [j for j in range(n) if pos[j] in q], "training-rows", lambda: f"position {q}: trained on rounds {rows}")
            for t, j in enumerate(rows):
                ps = kw["pscore"][j] if "pscore" in kw else 1.0 / na
                w = 1.0 if rec["w"] is None else rec["w"][t]
                if p["kind"] == "ipw":
                    ok = arr_eq(rec["X"][t], b["context"][j]) and int(rec["y"][t]) == b["action"][j]
                    want = b["reward"][j] / ps
                else:
                    ok = arr_eq(rec["X"][t], np.r_[b["context"][j], np.eye(na)[b["action"][j]]]) and float(rec["y"][t]) == float(b["reward"][j])
                    want = {"normal": 1.0, "iw": 1.0 / na / ps, "mrdr": (1 - ps) / ps**2 / na}[p["how"]]
                ctx.check(ok, "training-target", lambda: f"round {j} was taught as {show(rec['X'][t])} -> {rec['y'][t]}")
                ctx.check(abs(w - want) <= 1e-9 * max(1.0, want), "training-weight", lambda: f"round {j} has weight {w}, not {want}")

    # --- predictions -----------------------------------------------------------------------------
    def scores(self, p, lr, L, fitted, x):
        """what the trained models say, from the recording models themselves"""
        n, na, ll = len(x), p["na"], p["ll"]
        S = np.zeros((n, na, ll))
        op, fits = fitted
        pos = self.data(p, op)["position"] if ll > 1 else np.zeros(op["n"], int)
        where = {float(v): i for i, v in enumerate(self.data(p, op)["context"][:, 0])}
        clf = RecClf(L)
        for f, rec in enumerate(fits):
            q = int(pos[where[float(rec["X"][0, 0])]])
            for i in range(n):
                if p["kind"] == "ipw":
                    cl = np.unique(rec["y"])
                    S[i, cl, q] = clf.proba(f, x[i], cl)
                else:
                    for a in range(na):
                        row = np.r_[x[i], np.eye(na)[a]]
                        S[i, a, q] = clf.proba(f, row, range(2))[1] if p["clf"] else mark(f, row)
        return S

    def ranking(self, ctx, d, n, na, ll, what, distinct):
        d = np.asarray(d)
        ctx.check(d.shape == (n, na, ll), "shape", lambda: f"{what}: {d.shape} instead of {(n, na, ll)}")
        ctx.check(np.all((d == 0) | (d == 1)) and np.all(d.sum(1) == 1), "not-one-action", lambda: f"{what}: {show(d)} is not one action per position")
        ctx.check(not distinct or np.all(d.sum(2) <= 1), "repeated-action", lambda: f"{what}: an action appears twice in one ranking: {show(d)}")

    def use(self, p, op, lr, L, fitted, ctx):
        na, ll = p["na"], p["ll"]
        x = np_rng("c14u", op["seed"]).normal(size=(op["m"], 2))
        keep = x.copy()
        kw = {} if p["kind"] == "nn" else dict(tau=op["tau"])
        if op["op"] == "use":
            d = ctx.call("predict", lr.predict, x)
            if p["kind"] == "nn":
                pr = ctx.call("predict_proba", lr.predict_proba, x)
                ctx.check(pr.shape[:2] == (op["m"], na) and np.all(pr >= 0) and np.allclose(pr.sum(1), 1, atol=1e-5), "probabilities", lambda: show(pr))
                self.ranking(ctx, d, op["m"], na, 1, "predict", False)
                ctx.check(all(pr[i, d[i, :, 0].argmax(), 0] == pr[i, :, 0].max() for i in range(op["m"])), "not-best", lambda: f"predict {show(d)} for {show(pr)}")
            else:
                self.ranking(ctx, d, op["m"], na, ll, "predict", False)
                S = ctx.call("predict_score", lr.predict_score, x)
                ctx.check(S.shape == (op["m"], na, ll), "shape", lambda: f"predict_score {S.shape}")
                if p["model"] == "rec":
                    W = self.scores(p, lr, L, fitted, x)
                    ctx.check(np.allclose(S, W, rtol=1e-10, atol=1e-12), "wrong-score", lambda: f"predict_score {show(S)}, the trained models say {show(W)}")
                for i in range(op["m"]):
                    for q in range(ll):
                        a = d[i, :, q].argmax()
                        ctx.check(p["model"] != "rec" and p["kind"] == "ipw" or S[i, a, q] >= S[i, :, q].max() - 1e-12, "not-best", lambda: f"predicted action {a} at position {q} for scores {show(S[i, :, q])}")
                if p["kind"] == "q" or ll == 1:
                    pr = ctx.call("predict_proba", lr.predict_proba, x, tau=op["tau"])
                    want = softmax(S / op["tau"], axis=1)
                    ctx.check(pr.shape == S.shape and np.allclose(pr, want, atol=1e-9), "probabilities", lambda: f"predict_proba {show(pr)}, softmax of the scores {show(want)}")
            ctx.log("use", digest(d))
        elif op["op"] == "sample":
            out = []
            for _ in range(2):
                with rigged_randomness(op["seed"], op["rate"], ctx):
                    out.append(ctx.call("sample_action", lr.sample_action, x, tau=op["tau"], random_state=op["rs"]))
                self.ranking(ctx, out[-1], op["m"], na, ll, "sample_action", True)
            ctx.check(arr_eq(out[0], out[1]), "not-reproducible", "the same seed gave another sample")
            ctx.log("sample", digest(out[0]))
        else:
            # rankings follow the softmax of the scores, position by position without replacement
            n = 1500
            X = np.repeat(x[:1], n, axis=0)
            tau = op["tau"] if op["tau"] > 0.01 else 1.0
            d = ctx.call("sample_action", lr.sample_action, X, tau=tau, random_state=op["rs"])
            self.ranking(ctx, d, n, na, ll, "sample_action", True)
            s = (lr.predict_proba(X[:1]) if p["kind"] == "nn" else lr.predict_score(X[:1]))[0].mean(1) / tau
            w = softmax(s)
            marg = [w]
            if ll > 1:  # second place of a Plackett-Luce ranking
                m2 = np.zeros(na)
                for a in range(na):
                    if w[a] < 1:
                        rest = w.copy()
                        rest[a] = 0
                        m2 += w[a] * rest / max(rest.sum(), 1e-300)
                marg.append(m2)
            for q, m in enumerate(marg):
                got = d[:, :, q].mean(0)
                se = np.sqrt(m * (1 - m) / n)
                ctx.check(np.all(np.abs(got - m) <= SIGMA * se + 4.0 / n), "sampling-distribution", lambda: f"position {q}: frequencies {show(np.round(got, 4))}, softmax of the scores gives {show(np.round(m, 4))}")
            ctx.log("freq", digest(d))
        ctx.check(arr_eq(x, keep), "caller-data", "`context` of the caller was modified")

    def simplify(self, plan):
        for k, v in (("ll", 1), ("how", "normal"), ("na", 2)):
            if plan[k] != v and not (k == "na" and plan["ll"] > 2):
                yield dict(plan, **{k: v})


PROP = Prop()

import numpy as np

from obp import ope as O

from ..core import arr_eq, np_rng, show
from ..opeworld import snapshot
from ..models import Ledger, RecClf, RecReg, mark
from ..seams import LineFault

BASE = 1000.0


def close(a, b):
    return abs(a - b) <= 1e-10 * max(1.0, abs(b))


class Prop:
    id = "C13"
    runs = {"quick": 8000, "thorough": 120000}
    time_unit = "model fits and predictions"
    rule = ("a run feeds a history of data sets (1-3, repeated calls, failing calls followed by a retry) to one nuisance estimator whose base model is a "
            "recording stub; from the returned numbers the fit and row behind each estimate is recovered and compared with the logged folds")
    measure = "distinct (estimator, fitting method, folds, positions, arrangement, history) tuples"
    real = ["RegressionModel, ImportanceWeightEstimator, PropensityScoreEstimator, SlateRegressionModel"]
    stub = ["base models: recording stubs, failing on command"]
    assumptions = ["base models retrain from scratch in fit (no warm start)"]

    def generate(self, r, i, tier):
        kind = r.choice(["reg", "reg", "ps", "iw", "slate"])
        p = dict(kind=kind, na=r.randint(2, 4), ll=r.choice([1, 1, 2, 3]), model=r.choice(["reg", "clf"]), how=r.choice(["normal", "iw", "mrdr"]), m=r.choice(["sample", "raw"]), cal=r.random() < 0.2, ac=r.random() < 0.4,
                 ops=[self.gen_op(r) for _ in range(r.choice([1, 2, 2, 3]))])
        if kind == "slate":
            p["ll"] = r.choice([1, 2, 3])
            p["na"] = max(p["na"], p["ll"])
            p["how"] = r.choice(["normal", "iw"])
        if r.random() < 0.02:
            p["na"], p["ll"] = r.choice([6, 9]), r.choice([1, 4, 5])
            p["ops"] = p["ops"][:2]
            for o in p["ops"]:
                o["n"], o["folds"] = r.choice([90, 160]), r.choice([2, 5, 10])
        return p

    def gen_op(self, r):
        return dict(seed=r.randrange(10**6), n=r.choice([8, 10, 13, 17, 24, 40]), folds=r.choice([1, 2, 2, 3, 4, 5, 7]), rs=r.choice([None, 0, 12345, r.randrange(1000)]), arr=r.choice(["mixed", "mixed", "blocks", "rare"]), nopos=r.random() < 0.4, nops=r.random() < 0.2, sep=r.random() < 0.3,
                    ev=r.random() < 0.3, det=r.random() < 0.4, fault=dict(nth=r.randint(1, 12), kind=r.choice(["exception", "interrupt", "memory"])) if r.random() < 0.3 else None, line=r.randint(1, 150) if r.random() < 0.15 else None)

    # ---------------------------------------------------------------------------------------------
    def data(self, p, op):
        g = np_rng("c13", op["seed"])
        n, na, ll = op["n"], p["na"], p["ll"]
        ids = g.permutation(n)
        x = np.c_[BASE + ids, np.round(g.normal(size=n), 3)]
        a = g.integers(0, na, n)
        pos = g.integers(0, ll, n)
        if op["arr"] == "blocks":
            a, pos = np.sort(a), np.sort(pos)
        if op["arr"] == "rare":
            a = np.where(np.arange(n) == g.integers(0, n), na - 1, g.integers(0, max(1, na - 1), n))
            if ll > 1:
                pos = np.where(g.random(n) < 0.25, ll - 1, g.integers(0, ll - 1, n))
        # every position keeps enough rounds for every training part
        for k in range(ll):
            pos[g.permutation(n)[: 2]] = k if (pos == k).sum() < 2 else pos[0]
        r = g.integers(0, 2, n) if p["model"] == "clf" else np.round(g.normal(size=n), 3)
        ps = np.round(g.uniform(0.05, 1.0, n), 3)
        d = g.random((n, na, ll)) + 0.05
        if op["det"]:
            d = np.eye(na)[g.integers(0, na, (n, ll))].transpose(0, 2, 1).astype(float)
        d /= d.sum(1, keepdims=True)
        return dict(context=x, action=a, position=pos, reward=r, pscore=ps, action_dist=d)

    def calibrated(self, p, L, ctx):
        """propensities calibrated on inner folds: no model ever predicts a round it was trained on, and the
        models behind an estimate (with their calibration rounds) come from the other folds only"""
        for op in p["ops"]:
            g = np_rng("c13c", op["seed"])
            n, k, cv = 60, max(2, min(op["folds"], 4)), 2
            x = np.c_[BASE + g.permutation(n), g.normal(size=n)]
            a = g.permutation(np.arange(n) % 2)
            est = ctx.call("PropensityScoreEstimator", O.PropensityScoreEstimator, base_model=RecClf(L), n_actions=2, calibration_cv=cv)
            kw = dict(context=x, action=a, n_folds=k, random_state=op["seed"] % 1000)
            if op["fault"]:
                L.arm(op["fault"])
                ctx.attempt("failing calibrated propensities", lambda: est.fit_predict(**kw))
            L.arm(None)
            out = ctx.call("calibrated propensities", lambda: est.fit_predict(**kw))
            ctx.check(out.shape == (n,) and np.all((out > 0) & (out < 1)), "shape", lambda: show(out))
            b = dict(context=x)
            left = [0] * n
            ctx.check(len(L.fits) == k * cv, "number-of-fits", lambda: f"{len(L.fits)} models for {k} folds with {cv}-fold calibration")
            groups = [set().union(*[self.rows(f["X"], b) for f in L.fits[j : j + cv]]) for j in range(0, len(L.fits), cv)]
            for j, tr in enumerate(groups):
                ctx.check(n // k <= n - len(tr) <= -(-n // k), "training-rows", lambda: f"{len(tr)} of {n} rounds used with {k} folds")
                for i in range(n):
                    left[i] += i not in tr
            ctx.check(left == [1] * n, "training-rows", lambda: f"times left out of training: {left}")
            for f, X in L.preds:
                both = set(self.rows(X, b)) & set(self.rows(L.fits[f]["X"], b))
                ctx.check(not both, "sees-own-round", lambda: f"model {f} predicts rounds {sorted(both)} it was trained on")
            ctx.log([float(v) for v in out[:4]])
            ctx.tick(L.calls)
            ctx.cover("calibrated", k, op["fault"] is not None)

    def run(self, p, ctx):
        L = Ledger(ctx)
        if p["kind"] == "ps" and p["cal"]:
            return self.calibrated(p, L, ctx)
        ac = None
        if p["ac"]:
            ac = np_rng("ac", p["na"]).integers(1, 9, (p["na"], 2)) + np.arange(p["na"])[:, None] / 10.0
        if p["kind"] == "reg":
            base = RecClf(L, classes=2) if p["model"] == "clf" else RecReg(L)
            est = ctx.call("RegressionModel", O.RegressionModel, base_model=base, n_actions=p["na"], len_list=p["ll"], action_context=ac, fitting_method=p["how"])
        elif p["kind"] == "ps":
            est = ctx.call("PropensityScoreEstimator", O.PropensityScoreEstimator, base_model=RecClf(L), n_actions=p["na"], len_list=p["ll"], calibration_cv=1)
        elif p["kind"] == "iw":
            est = ctx.call("ImportanceWeightEstimator", O.ImportanceWeightEstimator, base_model=RecClf(L, classes=2), n_actions=p["na"], len_list=p["ll"], action_context=ac, fitting_method=p["m"], calibration_cv=1)
            if p["m"] == "raw":
                ac = None
        else:
            est = ctx.call("SlateRegressionModel", O.SlateRegressionModel, base_model=RecReg(L), len_list=p["ll"], n_unique_action=p["na"], fitting_method=p["how"])
        self.ac = np.eye(p["na"]) if ac is None else ac
        hist = []
        for op in p["ops"]:
            hist.append(self.one(p, op, est, L, ctx))
        ctx.cover(p["kind"], p["how"] if p["kind"] in ("reg", "slate") else p["m"] if p["kind"] == "iw" else None, p["model"], p["ll"], tuple(hist))

    def one(self, p, op, est, L, ctx):
        if p["kind"] == "slate":
            return self.slate(p, op, est, L, ctx)
        b = self.data(p, op)
        ll, n = p["ll"], op["n"]
        kw = dict(context=b["context"], action=b["action"])
        if ll > 1 or not op["nopos"]:
            kw["position"] = b["position"]
        pos = b["position"] if ll > 1 else np.zeros(n, int)
        k = op["folds"]
        if p["kind"] == "reg":
            kw["reward"] = b["reward"]
            if not op["nops"]:
                kw["pscore"] = b["pscore"]
            if p["how"] != "normal":
                kw["action_dist"] = b["action_dist"]
        if p["kind"] == "iw":
            kw["action_dist"] = b["action_dist"]
        if k > n:
            return "skip"
        keep = snapshot(kw)
        sep = op["sep"] and k == 1
        ev = op["ev"] and k > 1 and p["kind"] in ("ps", "iw")

        def call():
            if sep:
                est.fit(**kw)
                if p["kind"] == "reg":
                    return est.predict(b["context"])
                return est.predict(b["context"], b["action"], **({"position": kw["position"]} if "position" in kw else {}))
            extra = dict(evaluate_model_performance=True) if ev else {}
            return est.fit_predict(**kw, n_folds=k, random_state=op["rs"], **extra)

        small = self.too_small(b, pos, ll, k, op)
        if small:  # some training part may lack a position, which the estimators refuse
            if op["rs"] is None:
                np.random.seed(op["seed"])
            L.arm(None)
            try:
                call()
            except ValueError as e:
                ctx.log("refused", str(e)[:60])
                self.unchanged(ctx, kw, keep)
                return "refused"
        if op["rs"] is None:
            np.random.seed(op["seed"])
        tag = [k, sep, ll > 1 and "position" in kw]
        for f in ("fault", "line"):
            if op[f]:
                L.arm(op["fault"] if f == "fault" else None)
                if f == "line":
                    lf = LineFault(op["line"], "interrupt")

                    def cut():
                        with lf:
                            return call()

                    ok, out = ctx.attempt("interrupted " + p["kind"], cut)
                    if lf.fired:
                        ctx.fault("interrupted-at-line")
                else:
                    ok, out = ctx.attempt("failing " + p["kind"], call)
                if ok:
                    self.judge(p, op, b, kw, pos, out, L, ctx, est if ev else None)
                else:
                    tag.append(f)
                self.unchanged(ctx, kw, keep)
                if op["rs"] is None:
                    np.random.seed(op["seed"])
        L.arm(None)
        out = ctx.call(p["kind"], call)
        ctx.tick(L.calls)
        self.unchanged(ctx, kw, keep)
        self.judge(p, op, b, kw, pos, out, L, ctx, est if ev else None)
        ctx.log(len(L.fits), [float(v) for v in np.ravel(out)[:5]])
        return tuple(tag)

    def too_small(self, b, pos, ll, k, op):
        """a data set whose every training part keeps rounds of every position for certain"""
        n = len(pos)
        worst = -(-n // k)  # size of the largest fold
        return any((pos == q).sum() <= (worst if k > 1 else 0) for q in range(ll))

    def unchanged(self, ctx, kw, keep):
        for n in kw:
            ctx.check(arr_eq(kw[n], keep[n]), "caller-data", lambda: f"`{n}` of the caller was modified")

    # --- oracle ----------------------------------------------------------------------------------
    def rows(self, X, b):
        """indices of the rounds a training matrix was made of"""
        where = {float(v): i for i, v in enumerate(b["context"][:, 0])}
        return [where[float(v)] for v in X[:, 0]]

    def judge(self, p, op, b, kw, pos, out, L, ctx, ev_of):
        n, na, ll, k = op["n"], p["na"], p["ll"], op["folds"]
        out = np.asarray(out)
        want_shape = (n, na, ll) if p["kind"] == "reg" else (n,)
        ctx.check(out.shape == want_shape, "shape", lambda: f"{out.shape} instead of {want_shape}")
        clf = RecClf(L)
        # 1. which fit produced each estimate
        ctx.check(len(L.fits) == k * ll, "number-of-fits", lambda: f"{len(L.fits)} models were trained for {k} folds and {ll} positions")
        by = {q: {} for q in range(ll)}  # position -> fit -> rounds estimated by it
        train = [self.rows(f["X"], b) for f in L.fits]
        for i in range(n):
            todo = [(a, q) for a in range(na) for q in range(ll)] if p["kind"] == "reg" else [(b["action"][i], pos[i])]
            for a, q in todo:
                got = out[i, a, q] if p["kind"] == "reg" else out[i]
                row = b["context"][i] if p["kind"] == "ps" else np.r_[b["context"][i], self.ac[a]]
                cand = [f for f in range(len(L.fits)) if close(got, self.value(p, clf, L, f, row, a))]
                ctx.check(cand, "unknown-origin", lambda: f"the estimate {got!r} of round {i} (action {a}, position {q}) was not predicted by any model for that round and action")
                src = cand[0]
                if len(cand) > 1:  # trained on one class only (or never on this one): all such models say 1 (0)
                    ctx.check(k == 1 or any(i not in set(train[f]) for f in cand), "sees-own-round", lambda: f"round {i} is estimated by a model trained on it")
                    continue
                by[q].setdefault(src, set()).add(i)
                ctx.check(k == 1 or i not in set(train[src]), "sees-own-round", lambda: f"round {i} is estimated by a model trained on it (fold model {src})")
        # 2. folds: every fit was trained on exactly the other rounds at its position
        used = set()
        for q in range(ll):
            for f, est in by[q].items():
                ctx.check(f not in used, "model-of-other-position", lambda: f"model {f} estimates rounds at several positions")
                used.add(f)
                tr = set(train[f])
                ctx.check(all(pos[j] == q for j in tr), "training-position", lambda: f"model {f} for position {q} was trained on rounds of other positions")
                at = {j for j in range(n) if pos[j] == q}
                if p["kind"] == "reg":
                    want = at - est if k > 1 else at
                    ctx.check(tr == want, "training-rows", lambda: f"position {q}: the model estimating rounds {sorted(est)} was trained on {sorted(tr)}, not on {sorted(want)}")
                else:
                    ctx.check(tr <= at and (k > 1 or tr == at), "training-rows", lambda: f"position {q}: trained on {sorted(tr)}")
        if p["kind"] == "reg":
            ctx.check(len(used) == k * ll, "unused-model", lambda: f"only {len(used)} of {k * ll} models are used")
        else:
            # folds from the training sets themselves: each round is left out exactly once
            for q in range(ll):
                at = {j for j in range(n) if pos[j] == q}
                fits = [f for f in range(len(L.fits)) if set(train[f]) <= at and train[f]]
                for j in at:
                    left = sum(j not in set(train[f]) for f in fits)
                    ctx.check(left == (1 if k > 1 else 0), "training-rows", lambda: f"round {j} was left out of the training data {left} times with {k} folds")
        sizes = [len(v) for v in by[0].values()] if p["kind"] == "reg" else []
        ctx.check(not sizes or max(sizes) - min(sizes) <= 1, "fold-sizes", lambda: f"fold sizes {sizes}")
        # 3. targets and weights
        for f, rec in enumerate(L.fits):
            self.training(p, op, b, kw, pos, f, rec, train[f], ctx)
        if ev_of is not None:
            self.performance(p, op, b, pos, L, clf, train, ev_of, ctx)

    def value(self, p, clf, L, f, row, a):
        if p["kind"] == "ps":
            cl = np.unique(L.fits[f]["y"])
            return clf.proba(f, row, cl)[list(cl).index(a)] if a in cl else 0.0
        if p["kind"] == "reg" and p["model"] == "reg":
            return mark(f, row)
        v = clf.proba(f, row, range(2))[1]
        return v / (1 - v) if p["kind"] == "iw" else v

    def training(self, p, op, b, kw, pos, f, rec, tr, ctx):
        X, y, w = rec["X"], np.asarray(rec["y"]), rec["w"]
        ctx.check(len(y) == len(X) and (w is None or len(w) == len(X)), "training-shape", "features, targets and weights differ in length")
        if p["kind"] == "iw":
            seen = {0: [], 1: []}
            for j, x, t in zip(tr, X, y):
                t = int(t)
                seen[t].append(j)
                if t == 0:
                    ctx.check(arr_eq(x, np.r_[b["context"][j], self.ac[b["action"][j]]]), "training-features", lambda: f"logged row of round {j}: {show(x)}")
                else:
                    d = b["action_dist"][j, :, pos[j]]
                    if p["m"] == "raw":
                        ctx.check(np.allclose(x, np.r_[b["context"][j], d], atol=1e-12), "training-features", lambda: f"evaluation row of round {j}: {show(x)}")
                    else:
                        ctx.check(any(d[a] > 0 and arr_eq(x, np.r_[b["context"][j], self.ac[a]]) for a in range(p["na"])), "training-features", lambda: f"evaluation row of round {j} {show(x)} is no action of {show(d)}")
            ctx.check(sorted(seen[0]) == sorted(set(tr)) == sorted(seen[1]), "training-rows", lambda: f"logged rows {seen[0]}, evaluation rows {seen[1]}")
            return
        ctx.check(len(set(tr)) == len(tr), "training-rows", lambda: f"model {f} was given rounds twice: {tr}")
        for t, j in enumerate(tr):
            if p["kind"] == "ps":
                ctx.check(int(y[t]) == b["action"][j] and arr_eq(X[t], b["context"][j]), "training-target", lambda: f"round {j} was taught with action {y[t]} instead of {b['action'][j]}")
                continue
            ctx.check(float(y[t]) == float(b["reward"][j]) and arr_eq(X[t], np.r_[b["context"][j], self.ac[b["action"][j]]]), "training-target", lambda: f"round {j} was taught as {show(X[t])} -> {y[t]}, it is {show(b['context'][j])}, action {b['action'][j]}, reward {b['reward'][j]}")
            ps = kw["pscore"][j] if "pscore" in kw else 1.0 / p["na"]
            d = b["action_dist"][j, b["action"][j], pos[j]]
            want = {"normal": 1.0, "iw": d / ps, "mrdr": d * (1 - ps) / ps**2}[p["how"]]
            got = 1.0 if w is None else w[t]
            ctx.check(close(got, want), "training-weight", lambda: f"round {j} ({p['how']}) has weight {got}, not {want}")

    def performance(self, p, op, b, pos, L, clf, train, est, ctx):
        """the stored held-out evaluation: every round once, with the prediction of a model that has not seen it"""
        res = est.eval_result
        y = np.concatenate([np.ravel(v) for v in res["y"]])
        ctx.check(len(res["y"]) == len(res["proba"]), "evaluation", "labels and predictions differ in number")
        total = op["n"] * (2 if p["kind"] == "iw" else 1)
        ctx.check(len(y) == total, "evaluation", lambda: f"{len(y)} held-out labels for {op['n']} rounds")
        if p["kind"] == "ps":
            ctx.check(sorted(map(int, y)) == sorted(map(int, b["action"])), "evaluation", "held-out labels are not the logged actions")
            for yy, pr in zip(res["y"], res["proba"]):
                for i in range(len(yy)):
                    ctx.check(any(arr_eq(np.asarray(pr[i]), clf.proba(f, b["context"][j], np.unique(L.fits[f]["y"]))) for f in range(len(L.fits)) for j in range(op["n"]) if j not in set(train[f]) and b["action"][j] == yy[i]),
                              "evaluation", lambda: f"held-out prediction {show(pr[i])} for label {yy[i]} was not made by a model that had not seen a round with it")
        else:
            ctx.check(int(np.sum(y)) == op["n"], "evaluation", "held-out labels are not half logged, half evaluation")

    # --- slates ----------------------------------------------------------------------------------
    def slate(self, p, op, est, L, ctx):
        g = np_rng("c13s", op["seed"])
        n, na, ll = min(op["n"], 13), p["na"], p["ll"]
        x = np.c_[BASE + g.permutation(n), np.round(g.normal(size=n), 3)]
        act = np.concatenate([g.permutation(na)[:ll] for _ in range(n)])
        d = g.random((n * ll, na)) + 0.05
        d /= d.sum(1, keepdims=True)
        kw = dict(context=x, action=act, reward=np.round(g.normal(size=n * ll), 3), pscore_cascade=np.sort(g.uniform(0.05, 1, (n, ll)), axis=1)[:, ::-1].ravel(), evaluation_policy_pscore_cascade=np.sort(g.uniform(0.05, 1, (n, ll)), axis=1)[:, ::-1].ravel(), evaluation_policy_action_dist=d.ravel())
        keep = snapshot(kw)

        def call():
            if op["sep"]:
                est.fit(**kw)
                return est.predict(x, act)
            return est.fit_predict(**kw)

        tag = [op["sep"]]
        if op["fault"]:
            L.arm(op["fault"])
            ok, _ = ctx.attempt("failing slate regression", call)
            tag.append(ok)
        L.arm(None)
        out = np.asarray(ctx.call("slate regression", call))
        ctx.tick(L.calls)
        self.unchanged(ctx, kw, keep)
        ctx.check(out.shape == (n * ll * na,), "shape", lambda: f"{out.shape}")
        out = out.reshape(n, ll, na)
        A, R, D = act.reshape(n, ll), kw["reward"].reshape(n, ll), d.reshape(n, ll, na)
        iw = (kw["evaluation_policy_pscore_cascade"] / kw["pscore_cascade"]).reshape(n, ll)
        ctx.check(len(L.fits) == ll, "number-of-fits", lambda: f"{len(L.fits)} models trained for {ll} positions")
        fit_of = {}
        for f, rec in enumerate(L.fits):
            q = rec["X"].shape[1] - x.shape[1] - 1
            ctx.check(q not in fit_of and 0 <= q < ll, "training-features", lambda: f"model {f} has {rec['X'].shape[1]} features")
            fit_of[q] = f
        where = {float(v): i for i, v in enumerate(x[:, 0])}
        for q in range(ll):
            f = fit_of[q]
            rec = L.fits[f]
            rows = [where[float(v)] for v in rec["X"][:, 0]]
            ctx.check(sorted(rows) == list(range(n)), "training-rows", lambda: f"position {q} was trained on rounds {rows}")
            for t, j in enumerate(rows):
                ctx.check(arr_eq(rec["X"][t], np.r_[x[j], A[j, : q + 1]]), "training-features", lambda: f"round {j}, position {q}: {show(rec['X'][t])}")
                nxt = 0.0 if q == ll - 1 else sum(D[j, q + 1, a] * mark(fit_of[q + 1], np.r_[x[j], A[j, : q + 1], a]) for a in range(na))
                ctx.check(close(rec["y"][t], R[j, q] + nxt), "training-target", lambda: f"round {j}, position {q}: target {rec['y'][t]!r}, expected reward to go {R[j, q] + nxt!r}")
                want = iw[j, q] if p["how"] == "iw" else 1.0
                got = 1.0 if rec["w"] is None else rec["w"][t]
                ctx.check(close(got, want), "training-weight", lambda: f"round {j}, position {q}: weight {got}, not {want}")
            for j in range(n):
                for a in range(na):
                    ctx.check(close(out[j, q, a], mark(f, np.r_[x[j], A[j, :q], a])), "unknown-origin", lambda: f"estimate of round {j}, position {q}, action {a} is not the prediction for it")
        ctx.log(len(L.fits), [float(v) for v in np.ravel(out)[:5]])
        return tuple(tag)

    def simplify(self, plan):
        for j, op in enumerate(plan["ops"]):
            for n in (8, 10, 13):
                if op["n"] > n:
                    yield dict(plan, ops=plan["ops"][:j] + [dict(op, n=n)] + plan["ops"][j + 1 :])


PROP = Prop()

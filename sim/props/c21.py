import itertools

import numpy as np
from obp import ope as O
from scipy import stats
from sklearn.base import BaseEstimator, ClassifierMixin

from .. import opeworld as W
from ..core import digest, np_rng, show
from ..seams import LineFault

INF = float("inf")
PLAIN = dict(ipwt=O.InverseProbabilityWeighting, drt=O.DoublyRobust, sdrt=O.SwitchDoublyRobust, drost=O.DoublyRobustWithShrinkage,
             sgipwt=O.SubGaussianInverseProbabilityWeighting, sgdrt=O.SubGaussianDoublyRobust)
TUNED = dict(ipwt=O.InverseProbabilityWeightingTuning, drt=O.DoublyRobustTuning, sdrt=O.SwitchDoublyRobustTuning, drost=O.DoublyRobustWithShrinkageTuning,
             sgipwt=O.SubGaussianInverseProbabilityWeightingTuning, sgdrt=O.SubGaussianDoublyRobustTuning)
EMBED = dict(mipw=O.MarginalizedInverseProbabilityWeighting, snmipw=O.SelfNormalizedMarginalizedInverseProbabilityWeighting)
C = np.sqrt(6) - 1


class FreqClf(ClassifierMixin, BaseEstimator):
    """frequencies of the classes among equal feature rows: does not depend on how features are encoded"""

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        self.seen_ = {}
        for x, v in zip(np.asarray(X, dtype=float), y):
            self.seen_.setdefault(x.tobytes(), []).append(v)
        return self

    def predict_proba(self, X):
        out = []
        for x in np.asarray(X, dtype=float):
            v = np.array(self.seen_[x.tobytes()])
            out.append([(v == c).mean() for c in self.classes_])
        return np.array(out)

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(1)]


class Prop:
    id = "C21"
    runs = {"quick": 4000, "thorough": 150000}
    time_unit = "estimator calls"
    rule = ("a run puts a random sequence of evaluations (values, intervals, through the estimator or the front end, on several logs, some interrupted half-way) to one or two "
            "self-tuning estimators; every answer must be the value, by formula, of a candidate that the selection rule, written down independently, names for that call's data")
    measure = "distinct (estimator, tuning method, candidates, chosen place among them, kind of call, earlier interruption) tuples"
    real = ["the six tuned estimators, the embedding-selecting estimators, the plain estimators, OffPolicyEvaluation"]
    stub = ["logged data, reward estimates, embeddings: random arrays", "the classifier of actions: frequencies"]
    assumptions = ["comparisons of the rule that are decided by less than 1e-9 are taken as undecided: both outcomes are accepted",
                   "the interval of an embedding-selecting estimator is that of all embedding dimensions (as implemented); not checked"]

    def generate(self, r, i, tier):
        na, ll = (r.randint(2, 4), r.choice([1, 1, 2, 3])) if r.random() < 0.98 else (r.choice([6, 10]), r.choice([1, 5]))
        ests = []
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < 0.3:
                ests.append(dict(kind=r.choice(list(EMBED)), sel=r.choice(["exact", "greedy"]), min=r.choice([1, 1, 1, 2]), delta=r.choice([0.05, 0.05, 0.3, 0.9])))
            else:
                k = r.choice(list(TUNED))
                sg = k.startswith("sg")
                pool = [0.0, 0.01, 0.05, 0.2, 0.5, 1.0, 1] if sg else [0, 0.3, 1.0, 2, 5.0, 20.0, 100, 1000.0, INF]
                lams = [r.choice(pool) if r.random() < 0.7 else round(r.uniform(0, 1 if sg else 8), 3) for _ in range(r.randint(1, 6) if r.random() < 0.97 else 13)]
                ests.append(dict(kind=k, **{"=lams": lams}, how=r.choice(["slope", "mse"]), bub=r.random() < 0.5, delta=r.choice([0.1, 0.05, 0.3, 0.7]), est=r.random() < 0.3))
        sets = [dict(n=r.choice([4, 10, 30, 30, 100, 300]), na=na, ll=ll, seed=r.randrange(10**6), D=r.choice([2, 2, 3]), real=r.choice(["01", "frac", "neg"]), hard=r.random() < 0.3) for _ in range(r.choice([1, 2, 3]))]
        calls = [dict(est=r.randrange(len(ests)), set=r.randrange(len(sets)), op=r.choice(["value", "value", "interval", "front", "frontci"]), seed=r.randrange(1000), pea=r.random() < 0.5,
                      line=r.randint(1, 80) if r.random() < 0.15 else None) for _ in range(r.choice([2, 4, 7]))]
        return dict(ests=ests, sets=sets, calls=calls)

    # data -----------------------------------------------------------------------------------------
    def data(self, c):
        g = np_rng("tune", c["seed"])
        n, na, ll = c["n"], c["na"], c["ll"]
        log = dict(n_rounds=n, n_actions=na, context=g.integers(0, 2, size=(n, 2)).astype(float), action=g.integers(0, na, n), position=None if ll == 1 and c["seed"] % 2 else g.integers(0, ll, n),
                   pscore=g.uniform(0.02 if c["hard"] else 0.2, 1.0, n))
        log["reward"] = dict(_01=g.integers(0, 2, n), _frac=g.random(n), _neg=g.normal(size=n) * 2)["_" + c["real"]]
        log["action"][: min(n, na)] = g.permutation(na)[: min(n, na)]
        pea = g.random((na, 3, c["D"])) ** 2 + 0.05
        emb = g.integers(0, 3, (n, c["D"]))
        if c["seed"] % 3 == 0:  # dimensions that matter to different degrees
            emb = np.stack([np.where(g.random(n) < 0.8 / (d + 1), log["action"] % 3, emb[:, d]) for d in range(c["D"])], axis=1)
        pib = g.random((n, na, ll)) + (0.02 if c["hard"] else 0.3)
        a = dict(action_dist=W.dist(g, n, na, ll), estimated_rewards_by_reg_model=g.random((n, na, ll)), estimated_pscore=g.uniform(0.05, 1.0, n), action_embed=emb,
                 pi_b=pib / pib.sum(1, keepdims=True), p_e_a=pea / pea.sum(1, keepdims=True))
        return log, a

    # the rule, independently ------------------------------------------------------------------------
    def tuned(self, e, log, a):
        """[(lambda, contributions)] of every candidate, and what the rule needs besides"""
        n = log["n_rounds"]
        i = np.arange(n)
        pos = np.zeros(n, int) if log["position"] is None else log["position"]
        act, r = log["action"], log["reward"].astype(float)
        iw = a["action_dist"][i, act, pos] / (a["estimated_pscore"] if e["est"] else log["pscore"])
        dr = "dr" in e["kind"]
        q = a["estimated_rewards_by_reg_model"]
        qf = q[i, act, pos] if dr else np.zeros(n)
        base = (q[i, :, pos] * a["action_dist"][i, :, pos]).sum(1) if dr else np.zeros(n)
        out = []
        for lam in e["=lams"]:
            if e["kind"] in ("ipwt", "drt"):
                w = np.minimum(iw, lam)
            elif e["kind"] == "sdrt":
                w = np.where(iw <= lam, iw, 0.0)
            elif e["kind"] == "drost":
                w = iw if lam == INF else np.array([lam * x / (x * x + lam) if x > 0 else 0.0 for x in iw])
            else:
                w = np.array([x / (1 - lam + lam * x) if x > 0 else 0.0 for x in iw])
            out.append((lam, base + w * (r - qf), w))
        return out, iw, r - qf

    def lepski(self, items, eps):
        """items in the order they are considered: (theta, width); index of the last acceptable one"""
        for k in range(1, len(items)):
            t, c = items[k]
            if not all(abs(tj - t) <= c + C * cj + eps for tj, cj in items[:k]):
                return k - 1
        return len(items) - 1

    def order(self, cnf, theta):
        """by decreasing width; None when that leaves differing candidates undecided"""
        o = sorted(range(len(cnf)), key=lambda k: -cnf[k])
        for x, y in zip(o, o[1:]):
            if abs(cnf[x] - cnf[y]) <= 1e-10 * (1 + abs(cnf[x])) and abs(theta[x] - theta[y]) > 1e-10:
                return None
        return o

    def accepted(self, e, log, a):
        """(lambda, value) pairs the rule may name"""
        cand, iw, resid = self.tuned(e, log, a)
        n = log["n_rounds"]
        if e["how"] == "slope":
            th = [float(v.mean()) for _, v, _ in cand]
            t = stats.t.ppf(1 - e["delta"], n - 1)
            cn = [float(np.sqrt(v.var() / (n - 1)) * t) for _, v, _ in cand]
            o = self.order(cn, th)
            if o is None:
                return [(c[0], x) for c, x in zip(cand, th)]
            items = [(th[k], cn[k]) for k in o]
            ks = {self.lepski(items, s) for s in (1e-9, -1e-9, 0.0)}
            pick = [o[k] for k in ks]
            # candidates with the same value and width stand for each other
            return [(cand[j][0], th[j]) for j in range(len(cand)) if any(abs(th[j] - th[k]) <= 1e-10 and abs(cn[j] - cn[k]) <= 1e-9 for k in pick)]
        sc = []
        for _, v, w in cand:
            b = abs(((iw - w) * resid).mean())
            if e["bub"]:
                lg = np.log(2 / e["delta"])
                b += np.sqrt(2 * (iw**2).mean() * lg / n) + 2 * iw.max() * lg / (3 * n)
            sc.append(v.var() / n + b * b)
        best = min(sc)
        return [(c[0], float(c[1].mean())) for c, s in zip(cand, sc) if s <= best + 1e-10 * (1 + best)]

    def embedded(self, e, log, a, pea):
        n = log["n_rounds"]
        i = np.arange(n)
        pos = np.zeros(n, int) if log["position"] is None else log["position"]
        pie, pib = a["action_dist"][i, :, pos], a["pi_b"][i, :, pos]
        emb, r = a["action_embed"], log["reward"].astype(float)
        memo = {}

        def stat(comb):
            comb = tuple(int(d) for d in comb)
            if comb not in memo:
                if pea:
                    p = np.ones((n, log["n_actions"]))
                    for d in comb:
                        p = p * a["p_e_a"][:, emb[:, d], d].T
                    w = (pie * p).sum(1) / (pib * p).sum(1)
                else:
                    key = [(tuple(log["context"][j]), tuple(emb[j, list(comb)])) for j in range(n)]
                    w = np.zeros(n)
                    for j in range(n):
                        same = [k for k in range(n) if key[k] == key[j]]
                        f = np.bincount(log["action"][same], minlength=log["n_actions"]) / len(same)
                        w[j] = (pie[j] / pib[j] * f).sum()
                v = r * w / (w.mean() if e["kind"] == "snmipw" else 1.0)
                memo[comb] = float(v.mean()), float(np.sqrt(v.var() / (n - 1)) * stats.t.ppf(1 - e["delta"] / 2, n - 1))
            return memo[comb]

        D = emb.shape[1]
        out = set()
        for eps in (1e-9, -1e-9, 0.0):
            cur = tuple(range(D))
            acc = [stat(cur)]
            levels = [list(itertools.combinations(range(D), k)) for k in range(D - 1, e["min"] - 1, -1)] if e["sel"] == "exact" else None
            step = 0
            stop = False
            while not stop:
                if e["sel"] == "exact":
                    if step >= len(levels):
                        break
                    combs = levels[step]
                else:
                    if len(cur) <= e["min"]:
                        break
                    combs = [tuple(x for x in cur if x != d) for d in cur]
                step += 1
                s = [stat(c) for c in combs]
                o = self.order([c for _, c in s], [t for t, _ in s])
                if o is None:
                    return None
                for k in o:
                    if all(abs(t - s[k][0]) <= s[k][1] + C * c + eps for t, c in acc):
                        acc.append(s[k])
                    else:
                        stop = True
                        break
                if not stop:
                    cur = combs[o[-1]]
                    if e["sel"] == "greedy" and any(k != o[-1] and abs(s[k][1] - s[o[-1]][1]) <= 1e-10 * (1 + abs(s[k][1])) for k in range(len(s))):
                        return None
            out.add(acc[-1][0])
        return list(out)

    # ------------------------------------------------------------------------------------------------
    def make(self, e, c):
        if e["kind"] in EMBED:
            return EMBED[e["kind"]](n_actions=c["na"], pi_a_x_e_estimator=FreqClf(), embedding_selection_method=e["sel"], min_emb_dim=e["min"], delta=e["delta"])
        return TUNED[e["kind"]](lambdas=list(e["=lams"]), tuning_method=e["how"], use_bias_upper_bound=e["bub"], delta=e["delta"], use_estimated_pscore=e["est"])

    def ask(self, est, e, q, log, a):
        emb = e["kind"] in EMBED
        ci = dict(alpha=0.2, n_bootstrap_samples=30, random_state=q["seed"])
        a = dict(a)
        if not (emb and q["pea"]):
            a.pop("p_e_a")
        op = q["op"]
        if op in ("front", "frontci"):
            f = O.OffPolicyEvaluation(bandit_feedback=log, ope_estimators=[est])
            if not emb:
                a = {k: a[k] for k in ("action_dist", "estimated_rewards_by_reg_model", "estimated_pscore")}
            if op == "front":
                return float(f.estimate_policy_values(**a)[est.estimator_name])
            return f.estimate_intervals(**ci, **a)[est.estimator_name]
        kw = dict(reward=log["reward"], action=log["action"], position=log["position"], **{k: v for k, v in a.items() if emb or k in ("action_dist", "estimated_rewards_by_reg_model", "estimated_pscore")})
        if emb:
            kw["context"] = log["context"]
        else:
            kw["pscore"] = log["pscore"]
            if "dr" not in e["kind"]:
                kw.pop("estimated_rewards_by_reg_model")
        return float(est.estimate_policy_value(**kw)) if op == "value" else est.estimate_interval(**ci, **kw)

    def plain(self, e, lam, q, log, a):
        p = PLAIN[e["kind"]](lambda_=lam, use_estimated_pscore=e["est"])
        kw = dict(reward=log["reward"], action=log["action"], position=log["position"], pscore=log["pscore"], action_dist=a["action_dist"], estimated_pscore=a["estimated_pscore"],
                  estimated_rewards_by_reg_model=a["estimated_rewards_by_reg_model"])
        return p.estimate_interval(alpha=0.2, n_bootstrap_samples=30, random_state=q["seed"], **kw)

    def run(self, p, ctx):
        if not p["ests"] or not p["sets"]:
            return
        sets = [self.data(c) for c in p["sets"]]
        keep = digest(sets)
        ests = [ctx.call("constructor", self.make, e, p["sets"][0]) for e in p["ests"]]
        cut = False
        for q in p["calls"]:
            e, est = p["ests"][q["est"] % len(p["ests"])], ests[q["est"] % len(p["ests"])]
            log, a = sets[q["set"] % len(sets)]
            emb = e["kind"] in EMBED
            if emb and q["op"] in ("interval", "frontci"):
                q = dict(q, op="value")
            if log["n_rounds"] < log["n_actions"] or (emb and not q["pea"] and log["n_rounds"] > 100):
                continue
            ctx.tick()
            if q["line"]:
                f = LineFault(q["line"], "interrupt")

                def broken():
                    with f:
                        return self.ask(est, e, q, log, a)

                ok, _ = ctx.attempt("interrupted call", broken)
                if not ok:
                    ctx.fault("interrupted-at-line")
                    cut = True
            got = ctx.call(q["op"], self.ask, est, e, q, log, a)
            ctx.check(digest(sets) == keep, "caller-data", "the caller's data were modified")
            if emb:
                want = self.embedded(e, log, a, q["pea"])
                if want is None or not np.isfinite(want).all():
                    continue
                ctx.check(any(abs(got - v) <= 1e-8 * (1 + abs(v)) for v in want), "chosen-embedding", lambda: f"{e}: {got} from {log['n_rounds']} rounds, the selection rule gives {want}")
                ctx.cover(e["kind"], e["sel"], e["min"], q["pea"], q["op"], cut)
                ctx.log(round(got, 9))
                continue
            acc = self.accepted(e, log, a)
            best = est.best_hyperparam
            ctx.check(any(best == lam for lam, _ in acc), "chosen-hyperparameter", lambda: f"{e}: chose {best} in a call {q['op']} on {log['n_rounds']} rounds, the selection rule names {sorted({x for x, _ in acc})}")
            if q["op"] in ("value", "front"):
                ctx.check(any(best == lam and abs(got - v) <= 1e-8 * (1 + abs(v)) for lam, v in acc), "tuned-value", lambda: f"{e}: estimate {got} with {best}, by formula {acc}")
                ctx.log(round(got, 9))
            else:
                want = ctx.call("estimate_interval", self.plain, e, best, q, log, a)
                ctx.check(set(got) == set(want) and all(abs(got[k] - want[k]) <= 1e-8 * (1 + abs(want[k])) for k in want), "tuned-interval", lambda: f"{e}: interval {show(got)}, the plain estimator with {best} gives {show(want)}")
            ctx.cover(e["kind"], e["how"], e["bub"], len(e["=lams"]), sorted(e["=lams"]).index(best) if best in e["=lams"] else -1, q["op"], cut)


PROP = Prop()

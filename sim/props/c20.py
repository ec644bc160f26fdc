import math

import numpy as np

from .. import opeworld as W
from ..core import digest, np_rng, show
from ..seams import LineFault
from .c10 import PROP as C10
from .c18 import PROP as C18

INF = float("inf")
KINDS = dict(std=["rm", "ipw", "snipw", "dm", "dr", "sndr", "switch", "dros", "sgipw", "sgdr", "bipw", "mipw", "snmipw"], multi=list(W.MULTI), slate=list(W.SLATE), cont=list(W.CONT))


class Undefined(Exception):
    """the formula divides by zero on these data"""


def mean(v):
    return math.fsum(v) / len(v)


def over(a, b):
    if abs(b) < 1e-250:
        raise Undefined()
    return a / b


# the published formulas, round by round -------------------------------------------------------------
def formula(fam, e, log, a):
    """(value, size of the terms it is the sum of)"""
    k = e["kind"]
    v = dict(std=standard, multi=multi, slate=slate, cont=continuous)[fam](k, e, log, a)
    if not all(math.isfinite(x) for x in v):
        raise Undefined()
    n = len(np.unique(log["slate_id"])) if fam == "slate" else len(v)
    return math.fsum(v) / n, math.fsum(abs(x) for x in v) / n


def pieces(log, a, ps):
    n = len(log["action"])
    pos = [0] * n if log["position"] is None else log["position"].tolist()
    act, r, d = log["action"].tolist(), [float(x) for x in log["reward"]], a["action_dist"]
    iw = [float(d[i, act[i], pos[i]]) / float(ps[i]) for i in range(n)]
    q = a["estimated_rewards_by_reg_model"]
    qf = [float(q[i, act[i], pos[i]]) for i in range(n)]
    base = [math.fsum(float(q[i, j, pos[i]]) * float(d[i, j, pos[i]]) for j in range(d.shape[1])) for i in range(n)]
    return n, pos, act, r, iw, qf, base


def standard(k, e, log, a):
    n, pos, act, r, iw, qf, base = pieces(log, a, a["estimated_pscore"] if e["est"] else log["pscore"])
    lam = min(1.0, e["lam"] / 100.0) if k in ("sgipw", "sgdr") else e["lam"]
    d = a["action_dist"]
    if k == "rm":
        hit = [i for i in range(n) if d[i, act[i], pos[i]] == 1]
        return [mean([r[i] for i in hit]) if hit else 0.0] * n
    if k == "dm":
        return base
    if k == "bipw":
        w = [min(float(x), lam) for x in a["estimated_importance_weights"]]
        return [over(w[i] * r[i], mean(w)) for i in range(n)]
    if k in ("mipw", "snmipw"):
        w = []
        for i in range(n):
            p = [math.prod(float(a["p_e_a"][j, a["action_embed"][i, t], t]) for t in range(a["p_e_a"].shape[2])) for j in range(d.shape[1])]
            w.append(over(math.fsum(float(d[i, j, pos[i]]) * p[j] for j in range(len(p))), math.fsum(float(a["pi_b"][i, j, pos[i]]) * p[j] for j in range(len(p)))))
        return [w[i] * r[i] if k == "mipw" else over(w[i] * r[i], mean(w)) for i in range(n)]
    if k in ("ipw", "dr"):
        w = [min(x, lam) for x in iw]
    elif k in ("snipw", "sndr"):
        w = [over(x, mean(iw)) for x in iw]
    elif k == "switch":
        w = [x if x <= lam else 0.0 for x in iw]
    elif k == "dros":
        w = [x if lam == INF else (lam * x / (x * x + lam) if x > 0 else 0.0) for x in iw]
    else:
        w = [x / (1 - lam + lam * x) if x > 0 else 0.0 for x in iw]
    if k in ("ipw", "snipw", "sgipw"):
        return [w[i] * r[i] for i in range(n)]
    return [base[i] + w[i] * (r[i] - qf[i]) for i in range(n)]


def multi(k, e, log, a):
    bal = k in ("m_bipw", "m_bdr")
    ps = (a["estimated_pscore_avg"] if bal else a["estimated_pscore"]) if e["est"] else (log["pscore_avg"] if bal else log["pscore"])
    n, pos, act, r, iw, qf, base = pieces(log, a, ps)
    w = [min(x, e["lam"]) for x in iw]
    dr = k.endswith("dr")
    corr = [w[i] * (r[i] - (qf[i] if dr else 0.0)) for i in range(n)]
    base = base if dr else [0.0] * n
    if k in ("m_wipw", "m_wdr"):
        st = log["stratum_idx"].tolist()
        var, cnt = {}, {}
        for s in set(st):
            v = [base[i] + corr[i] for i in range(n) if st[i] == s]
            m = mean(v)
            cnt[s] = len(v)
            var[s] = mean([(x - m) ** 2 for x in v])
            if var[s] <= 1e-10 * (1 + mean([x * x for x in v])):
                raise Undefined()  # a logger without variance has no weight
        tot = math.fsum(cnt[s] / var[s] for s in var)
        corr = [corr[i] * n / (var[st[i]] * tot) for i in range(n)]
    return [base[i] + corr[i] for i in range(n)]


def continuous(k, e, log, a):
    h = e["bw"]

    def K(u):
        if e["kernel"] == "gaussian":
            return math.exp(-u * u / 2) / math.sqrt(2 * math.pi)
        if abs(u) > 1:
            return 0.0
        return dict(epanechnikov=0.75 * (1 - u * u), triangular=1 - abs(u), cosine=math.pi / 4 * math.cos(math.pi * u / 2))[e["kernel"]]

    n = len(log["reward"])
    r, ps, q = [float(x) for x in log["reward"]], [float(x) for x in log["pscore"]], [float(x) for x in a["estimated_rewards_by_reg_model"]]
    kv = [K((float(a["action_by_evaluation_policy"][i]) - float(log["action"][i])) / h) for i in range(n)]
    if k == "kipw":
        return [kv[i] * r[i] / (h * ps[i]) for i in range(n)]
    if k == "ksnipw":
        m = mean([kv[i] / ps[i] for i in range(n)])
        return [over(kv[i] * r[i] / ps[i], m) for i in range(n)]
    return [kv[i] * (r[i] - q[i]) / (h * ps[i]) + q[i] for i in range(n)]


def slate(k, e, log, a):
    which = "_item_position" if "iips" in k else "_cascade" if k in ("rips", "snrips", "cdr") else ""
    m, ll, na = len(log["reward"]), e["len_list"], e["n_actions"]
    iw = [float(a["evaluation_policy_pscore" + which][i]) / float(log["pscore" + which][i]) for i in range(m)]
    r = [float(x) for x in log["reward"]]
    if k == "cdr":
        row = {(s, p): i for i, (s, p) in enumerate(zip(log["slate_id"].tolist(), log["position"].tolist()))}
        q, d = a["q_hat"].reshape(m, na), a["evaluation_policy_action_dist"].reshape(m, na)
        out = []
        for i in range(m):
            s, p = int(log["slate_id"][i]), int(log["position"][i])
            prev = iw[row[s, p - 1]] if p > 0 else 1.0
            out.append(iw[i] * (r[i] - float(q[i, log["action"][i]])) + prev * math.fsum(float(q[i, j]) * float(d[i, j]) for j in range(na)))
        return out
    if k == "snsips":
        mw = mean(iw)
        return [over(iw[i] * r[i], mw) for i in range(m)]
    if k.startswith("sn"):
        mw = {p: mean([iw[i] for i in range(m) if log["position"][i] == p]) for p in range(ll)}
        return [over(iw[i] * r[i], mw[log["position"][i]]) for i in range(m)]
    return [iw[i] * r[i] for i in range(m)]


class Prop:
    id = "C20"
    runs = {"quick": 10000, "thorough": 400000}
    time_unit = "estimator calls"
    rule = ("a run asks shared estimator and front-end objects for values, summaries and errors on several logs, with calls cut off at a line of code and the caller's arrays overwritten "
            "in place between calls; every number must be that of the published formula, evaluated round by round, for the data as they are at that call")
    measure = "distinct (estimator, hyperparameter class, kind of data, operation, earlier interruption, earlier overwriting) tuples"
    real = ["all untuned estimators of the four families, OffPolicyEvaluation, MultiLoggersOffPolicyEvaluation, SlateOffPolicyEvaluation, ContinuousOffPolicyEvaluation"]
    stub = ["logged data and arguments: random arrays"]
    assumptions = ["inputs on which a formula divides by zero are not judged", "embedding probabilities are supplied (estimated ones: C21)", "agreement to 1e-9 of the size of the terms"]

    def generate(self, r, i, tier):
        fam = r.choice(["std", "std", "std", "multi", "multi", "slate", "cont"])
        na, ll = r.randint(2, 5), r.choice([1, 1, 2, 3])
        if r.random() < 0.02:
            na, ll = r.choice([8, 15]), r.choice([1, 5])
        ll = min(ll, na)
        if fam == "slate":
            ll = max(2, ll)
            na = max(na, ll)
        ests = []
        for k in r.sample(KINDS[fam], r.randint(1, min(4, len(KINDS[fam])))):
            e = dict(W.gen_estimator(r, fam, na, ll, [k]), embsel=None)
            if k in ("snipw", "sndr"):
                e["lam"] = INF
            elif k in ("sgipw", "sgdr"):
                e["lam"] = r.choice([0.0, 100.0, 50.0, round(r.uniform(0, 100), 3)])
            else:
                e["lam"] = r.choice([INF, 1e9, 0.0, 0.5, 1.0, 2.0, 4.0, 10.0, 150.0, round(r.uniform(0, 20), 3)])
            e["bw"] = r.choice([0.05, 0.3, 1.0, 2.5])
            ests.append(e)
        sets = [dict(n=r.choice([2, 3, 8, 25, 25, 60]) if i % 150 else r.choice([700, 1500, 3000]), n_actions=na, len_list=ll, seed=r.randrange(10**6), real=r.random() < 0.5, kind=r.choice(["plain", "plain", "dyadic", "rare", "signed", "low"]),
                     order=r.choice(["slates", "slates", "positions", "mixed"]), kept=r.choice(W.KEPT)) for _ in range(r.choice([1, 2, 3]))]
        calls = [dict(est=r.randrange(4), set=r.randrange(3), op=r.choice(["direct", "direct", "values", "values", "summary", "perf", "compare"]), arg=r.randrange(3), metric=r.choice(["se", "relative-ee"]),
                      gt=r.choice([1.0, 0.5, -0.7, 3.25, 0.01]), edit=r.choice([None, None, None, None, "args", "log"]), seed=r.randrange(10**6), line=r.randint(1, 70) if r.random() < 0.15 else None) for _ in range(r.choice([2, 4, 6]))]
        return dict(fam=fam, ests=ests, sets=sets, calls=calls)

    def world(self, fam, c, arg, twist=0):
        """log and arguments; `twist` draws other values of the same shapes"""
        c = dict(c, seed=c["seed"] + twist)
        log, a = W.data(fam, c), W.arguments(fam, c, arg)
        g = np_rng("twist", c["seed"], arg, fam)
        n = c["n"]
        if fam in ("std", "multi"):
            if fam == "multi":
                log["stratum_idx"] = np.array([0, 1, 3, 7])[g.integers(0, g.integers(1, 5), n)]
            if c["kind"] == "dyadic":  # exact arithmetic: weights can equal the hyperparameter
                for d, keys in ((log, ("pscore", "pscore_avg")), (a, ("estimated_pscore", "estimated_pscore_avg"))):
                    for k in keys:
                        if k in d:
                            d[k] = 0.5 ** g.integers(0, 5, n)
                ad = np.zeros_like(a["action_dist"])
                for i in range(n):
                    for t in range(ad.shape[2]):
                        s = g.permutation(ad.shape[1])
                        ad[i, s[:2], t] = [(1.0, 0.0), (0.5, 0.5), (0.75, 0.25)][g.integers(3)]
                a["action_dist"] = ad
                if fam == "std":
                    a["estimated_importance_weights"] = 2.0 ** g.integers(-2, 3, n)
            elif c["kind"] == "rare":  # huge and zero weights
                for d, keys in ((log, ("pscore", "pscore_avg")), (a, ("estimated_pscore", "estimated_pscore_avg"))):
                    for k in keys:
                        if k in d:
                            d[k] = 10.0 ** g.uniform(-4, 0, n)
                if "pi_b" in a:
                    pb = g.random(a["pi_b"].shape) ** 6 + 1e-4
                    a["pi_b"] = pb / pb.sum(1, keepdims=True)
                    a["estimated_importance_weights"] = g.choice([0.0, 1.0, 500.0], n)
            elif c["kind"] == "low":  # the evaluation policy avoids what was logged
                ad = a["action_dist"]
                for i in range(n):
                    ad[i, log["action"][i]] *= 0.02
                a["action_dist"] = ad / ad.sum(1, keepdims=True) if (ad.sum(1) > 0).all() else ad
                if "estimated_importance_weights" in a:
                    a["estimated_importance_weights"] = a["estimated_importance_weights"] * 0.01
        if c["kind"] == "signed":
            log["reward"] = np.round(g.normal(size=log["reward"].shape) * 3, 4)
        if fam == "slate" and c["kind"] == "rare":
            a["evaluation_policy_pscore_item_position"] = a["evaluation_policy_pscore_item_position"] * (g.random(len(log["reward"])) < 0.6)
            log["pscore_item_position"] = 10.0 ** g.uniform(-3, 0, len(log["reward"]))
        if fam == "cont" and c["kind"] == "dyadic":  # actions on the edge of the kernels' support
            log["action"] = g.integers(-4, 5, n) / 4.0
            a["action_by_evaluation_policy"] = g.integers(-4, 5, n) / 4.0
        for d in (log, a):
            W.keep(d, c.get("kept", "plain"))
        return log, a

    def run(self, p, ctx):
        fam = p["fam"]
        if not p["ests"] or not p["sets"]:
            return
        shared = [ctx.call("constructor", W.build, fam, e) for e in p["ests"]]
        names = [x.estimator_name for x in shared]
        if len(set(names)) < len(names):
            return
        worlds, cut, edited = {}, False, False
        for q in p["calls"]:
            c = p["sets"][q["set"] % len(p["sets"])]
            if c["n"] < c["n_actions"]:
                continue
            cell = worlds.get(q["set"] % len(p["sets"]))
            if cell is None:
                log, a = self.world(fam, c, q["arg"])
                cell = worlds[q["set"] % len(p["sets"])] = [log, a, None]
                if fam == "slate" and c["order"] != "slates" and all(e["kind"] != "cdr" for e in p["ests"]):
                    C18.reorder(dict(set=c, order=c["order"]), log, a)
            log, a = cell[0], cell[1]
            if q["edit"] and fam != "slate":
                l2, a2 = self.world(fam, c, q["arg"], 1 + q["seed"])
                for d, s in ((a, a2),) if q["edit"] == "args" else ((a, a2), (log, l2)):
                    for k, v in d.items():
                        if isinstance(v, np.ndarray) and isinstance(s[k], np.ndarray) and v.shape == s[k].shape:
                            if v.dtype == s[k].dtype and v.flags.writeable:
                                v[...] = s[k]  # the same array object, other data
                            else:
                                d[k] = s[k]
                        elif k == "position":
                            d[k] = s[k]
                if q["edit"] == "log":
                    cell[2] = None
                edited = True
            if cell[2] is None:
                cell[2] = ctx.call("constructor", W.FRONT[fam], bandit_feedback=log, ope_estimators=shared)
            front = cell[2]
            j = q["est"] % len(shared)
            keep = digest([log, a])
            op = dict(q, alpha=0.1, nb=5)
            if q["line"]:
                f = LineFault(q["line"], "interrupt")

                def broken():
                    with f:
                        return C10.call(p, op, front, shared[j], log, a)

                ok, _ = ctx.attempt("interrupted call", broken)
                if not ok:
                    ctx.fault("interrupted-at-line")
                    cut = True
            got = ctx.call(q["op"], C10.call, p, op, front, shared[j], log, a)
            ctx.tick()
            ctx.check(digest([log, a]) == keep, "caller-data", "the caller's data were modified")
            for i, e in enumerate(p["ests"]):
                if q["op"] == "direct" and i != j:
                    continue
                try:
                    want, size = formula(fam, e, log, a)
                except Undefined:
                    continue
                tol = 1e-9 * (1e-3 + size)
                nm = names[i]
                self.judge(ctx, p, q, e, nm, got, want, tol, log)
                ctx.cover(e["kind"], self.lam(e), c["kind"], q["op"], cut, edited)
                ctx.log(e["kind"], q["op"], round(want, 9))

    def judge(self, ctx, p, q, e, nm, got, want, tol, log):
        say = {k: v for k, v in e.items() if k in ("kind", "lam", "est", "kernel", "bw")}
        op = q["op"]
        if op in ("direct", "values"):
            v = float(got if op == "direct" else got[nm])
            ctx.check(abs(v - want) <= tol, "formula", lambda: f"{say} ({op}): {v}, by formula {want}")
        elif op in ("perf", "compare"):
            err = float(got[nm] if op == "perf" else got.loc[nm, q["metric"]])
            gt = q["gt"]
            w = (want - gt) ** 2 if q["metric"] == "se" else abs((want - gt) / gt)
            t = tol * (2 * abs(want - gt) + tol + 1e-9) + 1e-12 * (1 + w) if q["metric"] == "se" else tol / abs(gt) + 1e-12 * (1 + w)
            ctx.check(abs(err - w) <= t, "error-metric", lambda: f"{say}: {q['metric']} {err} for a true value {gt}, by formula {w} (estimate {want})")
        else:
            v, rel = float(got[0].loc[nm, "estimated_policy_value"]), float(got[0].loc[nm, "relative_estimated_policy_value"])
            ctx.check(abs(v - want) <= tol, "formula", lambda: f"{say} (summary): {v}, by formula {want}")
            n = len(np.unique(log["slate_id"])) if p["fam"] == "slate" else len(log["reward"])
            on = math.fsum(float(x) for x in log["reward"]) / n
            if abs(on) < 1e-6:
                return
            if on < 0:
                ctx.check(math.isnan(rel), "relative-value", lambda: f"{say}: relative value {rel} with an on-policy value of {on}")
            else:
                ctx.check(abs(rel - want / on) <= tol / on + 1e-11 * abs(want / on), "relative-value", lambda: f"{say}: relative value {rel}, estimate {want}, on-policy value {on}")

    def lam(self, e):
        v = e["lam"]
        return "inf" if v == INF else "0" if v == 0 else "<=1" if v <= 1 else "<=20" if v <= 20 else "big"

    def simplify(self, plan):
        if len(plan["ests"]) > 1:
            for e in plan["ests"]:
                yield dict(plan, ests=[e])


PROP = Prop()

import numpy as np

from .. import opeworld as W
from ..core import digest, np_rng, show
from ..seams import LineFault
from .c10 import PROP as C10

# estimators whose value is a sum over rounds, linear in the rewards and the reward model
LINEAR = dict(std=["rm", "ipw", "snipw", "dm", "dr", "sndr", "switch", "dros", "sgipw", "sgdr", "bipw", "mipw", "snmipw"], multi=["m_ipw", "m_bipw", "m_dr", "m_bdr"],
              slate=["sips", "iips", "rips", "snsips", "sniips", "snrips", "cdr"], cont=["kipw", "ksnipw", "kdr"])
SIGMA = 7.5


class Prop:
    id = "C18"
    runs = {"quick": 800, "thorough": 40000}
    time_unit = "bootstrap resamples"
    rule = ("a run evaluates the estimators on one log: the contribution of every round is isolated by evaluating the log with all other rounds' rewards and reward "
            "estimates zeroed; the contributions must add up to the estimate, and the reported interval must be a possible outcome (7.5 standard errors) of the "
            "bootstrap of exactly these contributions, for several seeds, levels and resample counts, also after interrupted calls")
    measure = "distinct (estimator, level, resamples, rounds, disturbance) tuples"
    real = ["all estimators linear in the rewards, their estimate_interval, the front ends' estimate_intervals, estimate_confidence_interval_by_bootstrap"]
    stub = ["logged data and arguments: random arrays"]
    assumptions = ["tuned estimators, variance-weighted multi-logger estimators and embedding selection are not linear in the rewards and left to C10"]

    def generate(self, r, i, tier):
        fam = r.choice(["std", "std", "std", "multi", "slate", "cont"])
        na, ll = r.randint(2, 4), r.choice([1, 1, 2, 3])
        if r.random() < 0.02:
            na, ll = r.choice([7, 13]), r.choice([1, 5])
        ll = min(ll, na)
        if fam == "slate":
            ll, na = max(2, ll), max(2, na, ll)
        ests = []
        for k in r.sample(LINEAR[fam], r.randint(1, 3)):
            ests.append(dict(W.gen_estimator(r, fam, na, ll, [k]), embsel=None))
        asks = [dict(alpha=r.choice([0.05, 0.1, 0.3, 0.3, 0.5, 0.8]), nb=r.choice([400, 400, 900, 2500 if r.random() < 0.3 else 900]), seed=r.randrange(10**6), line=r.randint(1, 60) if r.random() < 0.15 else None) for _ in range(r.choice([1, 2, 3]))]
        return dict(fam=fam, ests=ests, set=dict(n=12000 if fam != "slate" and i % 60 == 7 else r.choice([2, 5, 12, 12, 25]), n_actions=na, len_list=ll, seed=r.randrange(10**6), real=r.random() < 0.5), arg=r.randrange(4), asks=asks, order=r.choice(["slates", "slates", "positions", "mixed"]))

    def reorder(self, p, log, a):
        """a slate log is a set of (slate, position) rows: estimators that use no reward model take them in any order"""
        c = p["set"]
        n, m = c["n"], len(log["slate_id"])
        g = np_rng("order", c["seed"])
        idx = np.lexsort((log["slate_id"], log["position"])) if p["order"] == "positions" else g.permutation(m)
        for d in (log, a):
            for k, v in d.items():
                if isinstance(v, np.ndarray) and v.shape[:1] == (m,):
                    d[k] = v[idx]

    def mask(self, p, log, a, i):
        """the same log in which only round (slate) i earns anything"""
        fam, c = p["fam"], p["set"]
        n = c["n"]
        log, a = W.snapshot(log), W.snapshot(a)
        if fam == "slate":
            log["reward"] = np.where(log["slate_id"] == i, log["reward"], 0.0)
            q = a["q_hat"].reshape(n, -1)
            q[np.arange(n) != i] = 0.0
            a["q_hat"] = q.reshape(-1)
        else:
            r = np.zeros(n)
            r[i] = log["reward"][i]
            log["reward"] = r
            q = a["estimated_rewards_by_reg_model"]
            others = np.ones(n, bool)
            others[i] = False
            q[others] = 0.0
        return log, a

    def value(self, p, e, log, a):
        est = W.build(p["fam"], e)
        return float(C10.call(p, dict(op="direct", alpha=0.05, nb=1, seed=0), None, est, log, a))

    def run(self, p, ctx):
        fam, c = p["fam"], p["set"]
        if not p["ests"] or c["n"] < c["n_actions"]:
            return
        if c["n"] > 100:
            return self.large(p, ctx)
        log = W.data(fam, c)
        a = W.arguments(fam, c, p["arg"])
        n = c["n"]
        if fam == "slate" and p["order"] != "slates" and all(e["kind"] != "cdr" for e in p["ests"]):
            self.reorder(p, log, a)
        parts = {}
        for e in p["ests"]:
            whole = ctx.call("estimate_policy_value", self.value, p, e, W.snapshot(log), W.snapshot(a))
            v = np.array([n * ctx.call("estimate_policy_value", self.value, p, e, *self.mask(p, log, a, i)) for i in range(n)])
            if np.isnan(whole) and e["kind"] in ("snipw", "sndr", "bipw", "snmipw", "ksnipw", "snsips", "sniips", "snrips"):  # no round has any weight: a self-normalised estimate is undefined
                return
            scale = max(1.0, float(np.abs(v).max()))
            ctx.check(abs(v.mean() - whole) <= 1e-8 * scale, "contributions", lambda: f"{e['kind']}: the estimate is {whole}, the rounds contribute {v.mean()}")
            parts[W.build(fam, e).estimator_name] = (e, v)
        if len(parts) != len(p["ests"]):
            return
        front = ctx.call("constructor", W.FRONT[fam], bandit_feedback=log, ope_estimators=[W.build(fam, e) for e in p["ests"]])
        keep = digest([log, a])
        for q in p["asks"]:
            ci = dict(alpha=q["alpha"], n_bootstrap_samples=q["nb"], random_state=q["seed"])
            hit = False
            if q["line"]:
                f = LineFault(q["line"], "interrupt")

                def cut():
                    with f:
                        return front.estimate_intervals(**a, **ci)

                ok, _ = ctx.attempt("interrupted estimate_intervals", cut)
                if not ok:
                    ctx.fault("interrupted-at-line")
                    hit = True
            res = ctx.call("estimate_intervals", front.estimate_intervals, **a, **ci)
            ctx.check(digest([log, a]) == keep, "caller-data", "the caller's data were modified")
            ctx.check(set(res) == set(parts), "estimators", lambda: f"intervals for {sorted(res)}")
            for nm, (e, v) in parts.items():
                one = ctx.call("estimate_interval", C10.call, p, dict(op="interval", alpha=q["alpha"], nb=q["nb"], seed=q["seed"]), None, W.build(fam, e), log, {k: x for k, x in a.items()})
                self.judge(ctx, nm, v, q, res[nm])
                self.judge(ctx, nm + " (direct)", v, q, one)
                ctx.cover(e["kind"], q["alpha"], q["nb"], n, hit)
                ctx.tick(2 * q["nb"])
            ctx.log(digest([sorted((k, sorted(x.items())) for k, x in res.items())]))

    def large(self, p, ctx):
        """many rounds: the bootstrap mean and the width of the interval against the normal approximation"""
        fam, c = p["fam"], p["set"]
        log, a, n, e = W.data(fam, c), W.arguments(fam, c, p["arg"]), c["n"], p["ests"][0]
        g, v = np_rng("large", c["seed"]), np.zeros(n)
        whole = ctx.call("estimate_policy_value", self.value, p, e, log, a)
        # without isolating every round: groups of rounds give the spread of the mean up to sampling error
        half = np.zeros((60, n), bool)
        part = g.integers(0, 60, n)
        half[part, np.arange(n)] = True
        sums = np.array([n * ctx.call("estimate_policy_value", self.value, p, e, *self.mask(p, log, a, h)) for h in half])
        if not np.isfinite(whole):
            return
        ctx.check(abs(sums.sum() / n - whole) <= 1e-7 * max(1.0, np.abs(sums).max()), "contributions", lambda: f"{e['kind']}: the estimate is {whole}, groups of rounds contribute {sums.sum() / n}")
        q = dict(alpha=0.3, nb=300, seed=p["asks"][0]["seed"] if p["asks"] else 0)
        res = ctx.call("estimate_interval", C10.call, p, dict(op="interval", **q), None, W.build(fam, e), log, a)
        lo, hi = [[float(x) for k, x in res.items() if t in k][0] for t in ("lower", "upper")]
        # the group sums of n/60 rounds have variance (n/60) var(v) + mean(v)^2 n/60; var(v) follows within sampling error
        k = half.sum(1)
        var = max(0.0, float((((sums - k * sums.sum() / n) ** 2) / k).mean()))
        width, want = hi - lo, 2 * 1.0364 * np.sqrt(var / n)
        ctx.check(0.4 * want <= width <= 2.5 * want or want < 1e-12, "width", lambda: f"{e['kind']}: interval of width {width} from {n} rounds, {want} expected")
        ctx.cover("large", e["kind"])
        ctx.tick(q["nb"])

    def judge(self, ctx, nm, v, q, res):
        lo, hi, mean = [[float(x) for k, x in res.items() if t in k] for t in ("lower", "upper", "mean")]
        ctx.check(len(lo) == len(hi) == len(mean) == 1, "labels", lambda: f"{nm}: {res}")
        lo, hi, mean = lo[0], hi[0], mean[0]
        level = [k for k in res if "lower" in k][0]
        ctx.check(abs(float(level.split("%")[0]) - 100 * (1 - q["alpha"])) < 1e-6, "labels", lambda: f"{nm}: level {level} for alpha={q['alpha']}")
        n, B, al = len(v), q["nb"], q["alpha"]
        tol = 1e-7 * max(1.0, np.abs(v).max())
        ctx.check(v.min() - tol <= lo <= hi + tol and hi <= v.max() + tol and v.min() - tol <= mean <= v.max() + tol, "outside", lambda: f"{nm}: interval [{lo}, {hi}], mean {mean} of contributions between {v.min()} and {v.max()}")
        sd = v.std() / np.sqrt(n)
        ctx.check(abs(mean - v.mean()) <= SIGMA * sd / np.sqrt(B) + tol, "mean", lambda: f"{nm}: bootstrap mean {mean}, mean contribution {v.mean()} (standard error {sd / np.sqrt(B)})")
        key = digest(v)
        if key not in self.memo:
            g = np_rng("boot", key)
            self.memo.clear()
            self.memo[key] = np.sort(v[g.integers(0, n, (20000, n))].mean(1))
        ref = self.memo[key]
        for got, lev, what in ((lo, al / 2, "lower"), (hi, 1 - al / 2, "upper")):
            # both the reported quantile (B resamples) and the reference (20000) fluctuate
            slack = SIGMA * np.sqrt(lev * (1 - lev) * (1 / B + 1 / 20000)) + 2.0 / B
            a = ref[int(np.floor((lev - slack) * 19999))] if lev - slack > 0 else v.min()
            b = ref[min(19999, int(np.ceil((lev + slack) * 19999)))] if lev + slack < 1 else v.max()
            ctx.check(a - tol <= got <= b + tol, "quantile", lambda: f"{nm}: {what} bound {got} at level {lev} from {B} resamples of {n} contributions; the bootstrap distribution allows [{a}, {b}]")

    memo = {}

    def simplify(self, plan):
        if len(plan["ests"]) > 1:
            for e in plan["ests"]:
                yield dict(plan, ests=[e])


PROP = Prop()

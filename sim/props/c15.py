import numpy as np

from obp import ope as O

from .. import balanced as B
from ..core import np_rng, show

INF = float("inf")


class Prop:
    id = "C15"
    runs = {"quick": 5000, "thorough": 100000}
    time_unit = "delivered log rounds"
    rule = ("a run builds a world with rational probabilities, logs every outcome exactly in proportion to its probability, deploys the evaluation policy by "
            "enumeration, and delivers the log to the real evaluators in order, reordered, several times over and in parts")
    measure = "distinct (family, estimator, positions, reward model, propensity source, delivery) tuples"
    real = ["all estimators of obp.ope for standard, multi-logger, slate and embedding data, their tuned variants, and the evaluation front ends; continuous estimators for the delivery part"]
    stub = ["world: tabular, rational probabilities", "reward model and importance weights: tables, exact or arbitrary", "embedding classifier: frequency table"]
    assumptions = ["agreement to 1e-8 relative to the scale of the weighted rewards", "clipping, switching and shrinking estimators are exact only without shrinkage or with the true reward model", "weighted multi-logger estimators need a positive variance in every stratum", "IIPS / RIPS / cascade-DR only under their documented reward assumptions"]

    def generate(self, r, i, tier):
        fam = r.choice(["std", "std", "std", "multi", "multi", "slate", "slate", "embed", "cont"])
        p = dict(fam=fam, seed=r.randrange(10**9), nx=r.randint(1, 3), na=r.randint(2, 4), ll=r.choice([1, 1, 2, 3]), K=r.randint(2, 3) if fam == "multi" else 1, D=r.choice([4, 6, 8]), m=r.choice([1, 2, 3]), holes=r.random() < 0.4, det=r.random() < 0.3, uniform=r.random() < 0.25, bin=r.random() < 0.3,
                 scale=r.choice([1.0, 1.0, 100.0]), shift=r.choice([0.0, 2.0, -3.0]), estps=r.random() < 0.3, front=r.random() < 0.6, nopos=r.random() < 0.5,
                 deliver=[dict(how=r.choice(["reorder", "repeat", "parts"]), s=r.randrange(1000), k=r.choice([2, 3])) for _ in range(r.choice([0, 1, 2]))])
        if fam == "slate":
            p.update(ll=r.choice([1, 2, 2, 3]), na=r.choice([2, 3, 3]), structure=r.choice(["standard", "cascade", "independent"]), fac=r.random() < 0.4, nx=r.randint(1, 2))
            p["na"] = max(p["na"], p["ll"])
            if p["ll"] == 3:
                p["fac"] = False
        if fam == "embed":
            p.update(nd=r.choice([1, 2, 2, 3]), nc=2, full=r.random() < 0.4, D=4, nx=r.randint(1, 2), ll=1)
            if p["nd"] == 3:
                p["na"] = min(p["na"], 3)
        if fam in ("std", "multi") and r.random() < 0.02:
            p.update(D=12, na=r.choice([6, 10]), nx=r.choice([2, 4]), ll=r.choice([1, 4]))
            if fam == "multi":
                p["K"] = r.choice([2, 5])
        p["na"] = min(p["na"], p["D"])
        return p

    def run(self, p, ctx):
        getattr(self, "do_" + p["fam"])(p, ctx)

    # ---------------------------------------------------------------------------------------------
    def agree(self, ctx, got, want, tol, what):
        got = float(np.asarray(got))
        ctx.check(np.isfinite(got) and abs(got - want) <= tol, "not-the-deployed-value", lambda: f"{what} estimates {got!r}, deploying the policy earns {want!r}")

    def arguments(self, p, w):
        """(constructor, arguments) of every estimator that must be exact in this world"""
        g = np_rng("arg", p["seed"])
        est = p["estps"]
        qt, qa = w["q"], np.round(g.normal(size=(1,) + w["q"].shape[1:]), 3) + w["q"] * g.normal()
        lam, q = float(g.choice([0.0, 0.3, 1.0, 5.0])), np.round(g.normal(size=w["q"].shape), 2)
        ps = dict(estimated_pscore=w["pscore"]) if est else {}
        # an arbitrary reward model has to be the same for equal contexts
        E = dict(
            ipw=(O.InverseProbabilityWeighting(use_estimated_pscore=est), ps),
            snipw=(O.SelfNormalizedInverseProbabilityWeighting(use_estimated_pscore=est), ps),
            sgipw0=(O.SubGaussianInverseProbabilityWeighting(lambda_=0.0, use_estimated_pscore=est), ps),
            ipwt=(O.InverseProbabilityWeightingTuning(lambdas=[1e8, INF], use_estimated_pscore=est), ps),
            bipw=(O.BalancedInverseProbabilityWeighting(), dict(estimated_importance_weights=w["iw"])),
            dm=(O.DirectMethod(), dict(estimated_rewards_by_reg_model=qt)),
        )
        for n, qq, t in (("", qa, False), ("true-", qt, True)):
            a = dict(estimated_rewards_by_reg_model=qq, **ps)
            E[n + "dr"] = (O.DoublyRobust(lambda_=lam if t else INF, use_estimated_pscore=est), a)
            E[n + "sndr"] = (O.SelfNormalizedDoublyRobust(use_estimated_pscore=est), a)
            E[n + "switch"] = (O.SwitchDoublyRobust(lambda_=lam if t else INF, use_estimated_pscore=est), a)
            E[n + "dros"] = (O.DoublyRobustWithShrinkage(lambda_=lam if t else INF, use_estimated_pscore=est), a)
            E[n + "sgdr"] = (O.SubGaussianDoublyRobust(lambda_=min(1.0, lam) if t else 0.0, use_estimated_pscore=est), a)
            if t:
                how = dict(tuning_method="slope" if p["seed"] % 2 else "mse", use_estimated_pscore=est)
                L = [0.5, 3.0, 1e6]
                E["drt"] = (O.DoublyRobustTuning(lambdas=L, **how), a)
                E["switcht"] = (O.SwitchDoublyRobustTuning(lambdas=L, **how), a)
                E["drost"] = (O.DoublyRobustWithShrinkageTuning(lambdas=L, **how), a)
                E["sgdrt"] = (O.SubGaussianDoublyRobustTuning(lambdas=[0.01, 0.5], **how), a)
        if p["uniform"] and p["det"]:
            E["rm"] = (O.ReplayMethod(), {})
        return E

    def do_std(self, p, ctx):
        w = B.standard(p)
        if w is None:
            return ctx.log("no common support")
        E = self.arguments(p, w)
        bad = np_rng("bad", p["seed"]).uniform(0.1, 1, w["n"])
        base = dict(reward=w["reward"], action=w["action"], pscore=bad if p["estps"] else w["pscore"], position=None if p["ll"] == 1 and p["nopos"] else w["position"])
        tol = 1e-8 * max(1.0, float(np.abs(w["reward"]).max()) * float(max(w["iw"].max(), 1.0)) * 10)
        if p["front"]:
            ope = ctx.call("OffPolicyEvaluation", O.OffPolicyEvaluation, bandit_feedback=dict(n_rounds=w["n"], n_actions=p["na"], context=w["context"], **base), ope_estimators=[self.named(e, n) for n, (e, _) in E.items()])
            kw = {}
            for n, (_, a) in E.items():
                for k, v in a.items():
                    kw.setdefault(k, {})[n] = v
            if p["estps"]:
                kw["estimated_pscore"] = w["pscore"]
            out = ctx.call("estimate_policy_values", ope.estimate_policy_values, action_dist=w["dist"], **kw)
            for n in E:
                self.agree(ctx, out[n], w["value"], tol, n)
                ctx.cover("std", n, p["ll"], "front", p["estps"])
        else:
            for n, (e, a) in E.items():
                self.agree(ctx, ctx.call(n, e.estimate_policy_value, action_dist=w["dist"], **base, **a), w["value"], tol, n)
                ctx.cover("std", n, p["ll"], p["estps"], base["position"] is None)
        ctx.tick(w["n"])
        ctx.log(w["n"], w["value"])
        for d in p["deliver"]:
            self.redeliver(p, d, ctx, {n: v for n, v in E.items() if not n.endswith("t")}, dict(base, action_dist=w["dist"]), w["n"], tol)

    def named(self, e, n):
        e.estimator_name = n
        return e

    def redeliver(self, p, d, ctx, E, base, n, tol, group=1):
        """the log in another order, several times over, or in parts"""
        g = np_rng("dl", d["s"], p["seed"])
        N = n * group
        names = sorted(E)
        for nm in [names[i] for i in g.permutation(len(names))[:5]]:
            e, a = E[nm]
            full = dict(base, **a)

            def at(idx):
                if group > 1:
                    idx = (idx[:, None] * group + np.arange(group)).ravel()
                return {k: v if v is None or np.ndim(v) == 0 or len(v) % N else v.reshape(N, -1)[idx].reshape((-1,) + v.shape[1:]) if len(v) != N else v[idx] for k, v in full.items()}

            def value(idx):
                kw = at(idx)
                if "slate_id" in kw:
                    kw["slate_id"] = np.repeat(np.arange(len(idx)), group)
                ctx.tick(len(idx))
                return float(ctx.call(nm, e.estimate_policy_value, **kw))

            v = value(np.arange(n))
            if d["how"] == "reorder":
                v2 = value(g.permutation(n))
            elif d["how"] == "repeat":
                v2 = value(g.permutation(np.tile(np.arange(n), d["k"])))
            else:
                if nm.startswith(("sn", "bipw", "m_w", "rm", "ksn", "true-sn")):
                    continue
                cut = np.array_split(g.permutation(n), min(d["k"], n))
                v2 = sum(len(c) * value(np.sort(c)) for c in cut) / n
            ctx.fault("delivery-" + d["how"])
            ctx.check(abs(v - v2) <= tol, "delivery", lambda: f"{nm}: {v!r} for the log as it is, {v2!r} when delivered by {d['how']}")
            ctx.cover(p["fam"], nm, d["how"])

    # --- several loggers ---------------------------------------------------------------------------
    def do_multi(self, p, ctx):
        w = B.standard(p)
        if w is None:
            return ctx.log("no common support")
        est = p["estps"]
        g = np_rng("arg", p["seed"])
        qa = np.round(g.normal(size=(1,) + w["q"].shape[1:]), 3) + w["q"] * g.normal()
        qm = dict(estimated_rewards_by_reg_model=qa)
        qt = dict(estimated_rewards_by_reg_model=w["q"])
        lam = float(g.choice([0.0, 0.4, 2.0]))
        c = dict(use_estimated_pscore=est)
        E = dict(m_ipw=(O.MultiLoggersNaiveInverseProbabilityWeighting(**c), {}), m_bipw=(O.MultiLoggersBalancedInverseProbabilityWeighting(**c), {}),
                 m_dr=(O.MultiLoggersNaiveDoublyRobust(**c), qm), m_bdr=(O.MultiLoggersBalancedDoublyRobust(**c), qm),
                 m_drq=(O.MultiLoggersNaiveDoublyRobust(lambda_=lam, **c), qt), m_bdrq=(O.MultiLoggersBalancedDoublyRobust(lambda_=lam, **c), qt))
        if min(w["var"]) > 1e-9:
            E["m_wipw"] = (O.MultiLoggersWeightedInverseProbabilityWeighting(**c), {})
            rs = qa[np.arange(w["n"]), w["action"], w["position"]]
            dm = (qa * w["dist"]).sum(1)[np.arange(w["n"]), w["position"]]
            z = dm + w["iw"] * (w["reward"] - rs)
            if min(np.var(z[w["stratum"] == k]) for k in range(p["K"])) > 1e-9:
                E["m_wdr"] = (O.MultiLoggersWeightedDoublyRobust(**c), qm)
        bad = np_rng("bad", p["seed"]).uniform(0.1, 1, (2, w["n"]))
        off = 5 if p["seed"] % 3 == 0 else 0  # logger names need not start at zero
        base = dict(reward=w["reward"], action=w["action"], stratum_idx=w["stratum"] + off, pscore=bad[0] if est else w["pscore"], pscore_avg=bad[1] if est else w["pscore_avg"], position=None if p["ll"] == 1 and p["nopos"] else w["position"])
        pa = dict(estimated_pscore=w["pscore"], estimated_pscore_avg=w["pscore_avg"]) if est else {}
        big = max(w["iw"].max(), (w["dist"][np.arange(w["n"]), w["action"], w["position"]] / w["pscore_avg"]).max(), 1.0)
        tol = 1e-8 * max(1.0, float(np.abs(w["reward"]).max()) * float(big) * 10)
        E = {n: (e, dict(a, **pa)) for n, (e, a) in E.items()}
        if p["front"]:
            ope = ctx.call("MultiLoggersOffPolicyEvaluation", O.MultiLoggersOffPolicyEvaluation, bandit_feedback=dict(n_rounds=w["n"], n_actions=p["na"], context=w["context"], **base), ope_estimators=[self.named(e, n) for n, (e, _) in E.items()])
            kw = dict(pa)
            kw["estimated_rewards_by_reg_model"] = {n: a.get("estimated_rewards_by_reg_model", qa) for n, (_, a) in E.items()}
            out = ctx.call("estimate_policy_values", ope.estimate_policy_values, action_dist=w["dist"], **kw)
            for n in E:
                self.agree(ctx, out[n], w["value"], tol, n)
                ctx.cover("multi", n, p["ll"], "front", est)
        else:
            for n, (e, a) in E.items():
                self.agree(ctx, ctx.call(n, e.estimate_policy_value, action_dist=w["dist"], **base, **a), w["value"], tol, n)
                ctx.cover("multi", n, p["ll"], est)
        ctx.tick(w["n"])
        ctx.log(w["n"], w["value"])
        for d in p["deliver"]:
            self.redeliver(p, d, ctx, {n: v for n, v in E.items() if n not in ("m_wdr",) or d["how"] != "parts"}, dict(base, action_dist=w["dist"]), w["n"], tol)

    # --- slates ------------------------------------------------------------------------------------
    def do_slate(self, p, ctx):
        w = B.slates(p)
        n, ll, na = w["n"], p["ll"], p["na"]
        c = dict(len_list=ll)
        sid = np.repeat(np.arange(n), ll) * (3 if p["seed"] % 2 else 1)
        base = dict(slate_id=sid, reward=w["reward"], position=np.tile(np.arange(ll), n), action=w["action"], pscore=w["b"][0], pscore_item_position=w["b"][1], pscore_cascade=w["b"][2])
        ev = dict(evaluation_policy_pscore=w["e"][0], evaluation_policy_pscore_item_position=w["e"][1], evaluation_policy_pscore_cascade=w["e"][2])
        E = dict(sips=(O.SlateStandardIPS(**c), {}), snsips=(O.SelfNormalizedSlateStandardIPS(**c), {}))
        cdr = dict(q_hat=w["q_hat"].ravel(), evaluation_policy_action_dist=w["edist"].ravel())
        if p["structure"] != "standard":
            E.update(rips=(O.SlateRewardInteractionIPS(**c), {}), snrips=(O.SelfNormalizedSlateRewardInteractionIPS(**c), {}))
            E["cdr"] = (O.SlateCascadeDoublyRobust(n_unique_action=na, **c), cdr)
        if p["structure"] == "independent":
            E.update(iips=(O.SlateIndependentIPS(**c), {}), sniips=(O.SelfNormalizedSlateIndependentIPS(**c), {}))
        iw = max(1.0, *[float((a / b).max()) for a, b in zip(w["e"], w["b"])])
        tol = 1e-8 * max(1.0, (float(np.abs(w["reward"]).max()) + 4.0) * iw * 10)
        if p["front"]:
            ope = ctx.call("SlateOffPolicyEvaluation", O.SlateOffPolicyEvaluation, bandit_feedback=dict(n_rounds=n, context=w["context"], **base), ope_estimators=[self.named(e, k) for k, (e, _) in E.items()])
            kw = dict(ev)
            if "cdr" in E:
                kw.update(cdr)
            out = ctx.call("estimate_policy_values", ope.estimate_policy_values, **kw)
            for k in E:
                self.agree(ctx, out[k], w["value"], tol, k)
                ctx.cover("slate", k, ll, p["structure"], "front")
        else:
            for k, (e, a) in E.items():
                self.agree(ctx, ctx.call(k, e.estimate_policy_value, **base, **ev, **a), w["value"], tol, k)
                ctx.cover("slate", k, ll, p["structure"], p["fac"])
        ctx.tick(n)
        ctx.log(n, w["value"])
        for d in p["deliver"]:
            self.redeliver_slates(p, d, ctx, E, dict(base, **ev), n, tol)

    def redeliver_slates(self, p, d, ctx, E, base, n, tol):
        g = np_rng("dl", d["s"], p["seed"])
        ll = p["ll"]
        for nm in sorted(E):
            e, a = E[nm]
            full = dict(base, **a)

            def value(slates, rows=None):
                idx = (slates[:, None] * ll + np.arange(ll)).ravel()
                kw = {}
                for k, v in full.items():
                    kw[k] = v[idx] if len(v) == n * ll else v.reshape(n * ll, -1)[idx].ravel()
                kw["slate_id"] = np.repeat(np.arange(len(slates)), ll)
                if rows is not None:  # rows of different slates and positions mixed up
                    kw = {k: v[rows] if len(v) == len(rows) else v for k, v in kw.items()}
                ctx.tick(len(slates))
                return float(ctx.call(nm, e.estimate_policy_value, **kw))

            v = value(np.arange(n))
            if d["how"] == "reorder":
                v2 = value(g.permutation(n), g.permutation(n * ll) if nm != "cdr" else None)
            elif d["how"] == "repeat":
                v2 = value(g.permutation(np.tile(np.arange(n), d["k"])))
            else:
                if nm.startswith("sn"):
                    continue
                cut = np.array_split(g.permutation(n), min(d["k"], n))
                v2 = sum(len(c) * value(c) for c in cut) / n
            ctx.fault("delivery-" + d["how"])
            ctx.check(abs(v - v2) <= tol, "delivery", lambda: f"{nm}: {v!r} for the log as it is, {v2!r} when delivered by {d['how']}")
            ctx.cover("slate", nm, d["how"])

    # --- action embeddings -------------------------------------------------------------------------
    def do_embed(self, p, ctx):
        w = B.embedded(p)
        if w["n"] < 2:
            return
        base = dict(reward=w["reward"], action=w["action"], action_embed=w["embed"], pi_b=w["pi_b"], action_dist=w["dist"], context=w["context"], position=np.zeros(w["n"], int) if not p["nopos"] else None)
        tol = 1e-8 * max(1.0, float(np.abs(w["reward"]).max()) * 100)
        for n, k in (("mipw", O.MarginalizedInverseProbabilityWeighting), ("snmipw", O.SelfNormalizedMarginalizedInverseProbabilityWeighting)):
            e = ctx.call(n, k, n_actions=p["na"], pi_a_x_e_estimator=B.FreqClassifier())
            self.agree(ctx, ctx.call(n, e.estimate_policy_value, p_e_a=w["p_e_a"], **base), w["value"], tol, n + " with known embedding probabilities")
            if len(set(w["action"])) > 1 and all(len(set(w["embed"][:, d])) > 1 for d in range(p["nd"])):
                self.agree(ctx, ctx.call(n, e.estimate_policy_value, **base), w["value"], tol, n + " with an exact classifier")
            for d in p["deliver"]:
                self.redeliver(p, d, ctx, {n: (e, dict(p_e_a=w["p_e_a"]))}, base, w["n"], tol) if w["n"] > p["na"] * 3 else None
            ctx.cover("embed", n, p["nd"], p["full"], p["holes"])
        ctx.tick(w["n"])
        ctx.log(w["n"], w["value"])

    # --- continuous actions: delivery only ---------------------------------------------------------
    def do_cont(self, p, ctx):
        g = np_rng("ct", p["seed"])
        n = 12 * p["nx"]
        kern = ["gaussian", "epanechnikov", "triangular", "cosine"][p["seed"] % 4]
        base = dict(reward=np.round(g.normal(size=n), 3), action_by_behavior_policy=g.normal(size=n), action_by_evaluation_policy=g.normal(size=n), pscore=g.uniform(0.1, 1, n))
        if kern != "gaussian":  # compact kernels need some rounds inside the window
            base["action_by_evaluation_policy"][: n // 2] = base["action_by_behavior_policy"][: n // 2]
        c = dict(kernel=kern, bandwidth=float(g.choice([0.3, 1.0, 3.0])))
        q = dict(estimated_rewards_by_reg_model=np.round(g.normal(size=n), 3))
        E = dict(kipw=(O.KernelizedInverseProbabilityWeighting(**c), {}), ksnipw=(O.KernelizedSelfNormalizedInverseProbabilityWeighting(**c), {}), kdr=(O.KernelizedDoublyRobust(**c), q))
        for d in p["deliver"]:
            self.redeliver(p, d, ctx, E, base, n, 1e-7)
        ctx.cover("cont", kern)
        ctx.log(n)

    def simplify(self, plan):
        for k, v in (("nx", 1), ("ll", 1), ("m", 1), ("D", 4), ("front", False), ("scale", 1.0), ("shift", 0.0), ("nd", 1), ("K", 2)):
            if plan.get(k, v) != v and not (k == "K" and plan["fam"] != "multi"):
                yield dict(plan, **{k: v})


PROP = Prop()

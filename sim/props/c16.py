import numpy as np

from obp import dataset as D

from .. import gens as G
from ..core import SimFault, digest, np_rng, show
from ..seams import LineFault

SIGMA = 7.5


class Failing:
    """a reward function that fails when told to"""

    def __init__(self, f):
        self.f, self.armed = f, False

    def __call__(self, *a, **k):
        if self.armed:
            self.armed = False
            raise SimFault("reward function failed")
        return self.f(*a, **k)


class Prop:
    id = "C16"
    runs = {"quick": 5000, "thorough": 100000}
    time_unit = "deployed rounds"
    rule = ("a run configures one generator with tabular rewards, asks for the ground-truth value of random evaluation policies before, between and after "
            "drawing batches and after calls that failed half-way, and compares it with the enumerated expected reward of deploying the policy and with the "
            "average reward of rounds deployed in the generator itself (7.5 standard errors)")
    measure = "distinct (generator, reward type, structure, click model, factorizable, disturbance) tuples"
    real = ["calc_ground_truth_policy_value of all generators, reward sampling, calc_on_policy_policy_value, obtain_action_dist_by_eval_policy"]
    stub = ["reward and behaviour functions: tables over contexts, failing on command", "classifier: table"]
    assumptions = ["slate rewards are stored in half precision by the library: agreement to 4e-3"]

    def generate(self, r, i, tier):
        kind = r.choice(["synth", "multi", "embed", "cont", "slate", "slate", "slate", "multiclass"])
        p = dict(kind=kind, seed=r.choice([0, 1, 12345, r.randrange(10**6)]), t=r.randrange(10**6), rt=r.choice(["binary", "continuous"]), na=r.randint(2, 4), dim=r.randint(1, 2), std=r.choice([0.5, 1.0, 2.0]), rf=r.random() < 0.75,
                 deploy=r.random() < 0.25, n=r.choice([1, 2, 5, 11]), asks=[dict(what=r.choice(["value", "value", "batch", "fail", "line"]), s=r.randrange(1000), line=r.randint(1, 60), kind=r.choice(["interrupt", "memory", "exception"])) for _ in range(r.choice([1, 3, 5]))])
        if kind == "slate":
            p.update(ll=r.choice([2, 3, 3, 4]), rs=r.choice(["cascade_additive", "cascade_decay", "independent", "standard_additive", "standard_decay"]), decay=r.choice(["exponential", "inverse"]), fac=r.random() < 0.3, cm=r.choice([None, "pbm", "cascade", "cascade"]), eta=r.choice([0.5, 1.0, 2.0]))
            p["na"] = max(p["na"], p["ll"]) if not p["fac"] else p["na"]
            if p["rt"] == "continuous":
                p["cm"] = None
        if kind == "multiclass":
            p.update(k=r.randint(2, 4), m=r.choice([8, 30]), off=r.choice([0, 1]))
        if r.random() < 0.02:
            p["dim"] = r.choice([2, 6])
            if kind == "slate":
                p["ll"] = 5
                p["na"] = 3 if p["fac"] else 5
            else:
                p["na"], p["n"] = r.choice([7, 15]), r.choice([11, 80])
        return p

    def run(self, p, ctx):
        getattr(self, "do_" + p["kind"])(p, ctx)

    def history(self, p, ctx, value, batch, arm):
        """ask for the value amid other uses of the generator: it never changes"""
        first = value()
        ref = digest(float(first))
        dist = []
        for a in p["asks"]:
            if a["what"] == "batch":
                ctx.call("obtain_batch_bandit_feedback", batch)
                dist.append("batch")
                continue
            if a["what"] == "fail" and arm is not None:
                arm.armed = True
                ok, _ = ctx.attempt("ground truth with failing reward function", value)
                if not ok:
                    ctx.fault("reward-function-failed")
                    dist.append("fail")
                arm.armed = False
            elif a["what"] == "line":
                f = LineFault(a["line"], a["kind"])

                def cut():
                    with f:
                        return value()

                ok, _ = ctx.attempt("ground truth interrupted", cut)
                if not ok:
                    ctx.fault("interrupted-" + a["kind"])
                    dist.append("line")
            again = value()
            ctx.check(digest(float(again)) == ref, "value-changed", lambda: f"ground-truth value {first!r} became {again!r} after {dist}")
        ctx.log(float(first).hex(), dist)
        return float(first), tuple(sorted(set(dist)))

    def agree(self, ctx, got, want, tol, what):
        ctx.check(np.ndim(got) == 0 and abs(got - want) <= tol * max(1.0, abs(want)), "ground-truth", lambda: f"{what}: ground-truth value {got!r}, deploying the policy gives {want!r}")

    def deployed(self, ctx, got, rewards, what):
        rewards = np.asarray(rewards, dtype=float)
        se = rewards.std() / np.sqrt(len(rewards)) + 1e-6
        ctx.check(abs(rewards.mean() - got) < SIGMA * se + 3e-3, "deployment", lambda: f"{what}: ground-truth value {got:.4f}, {len(rewards)} deployed rounds earn {rewards.mean():.4f} on average (standard error {se:.4f})")
        ctx.tick(len(rewards))

    # --- one action per round -------------------------------------------------------------------
    def single(self, p, ctx, ds, rf, samples=True):
        n = 1500 if p["deploy"] and samples and p["rt"] == "binary" else 200 if p["deploy"] and samples else p["n"]
        b = ctx.call("obtain_batch_bandit_feedback", ds.obtain_batch_bandit_feedback, n)
        e = np.asarray(b["expected_reward"], dtype=float)
        g = np_rng("pe", p["t"])
        pe = g.dirichlet(np.ones(p["na"]) * 0.7, size=n)
        if p["t"] % 3 == 0:
            pe = np.eye(p["na"])[g.integers(0, p["na"], n)]
        dist = np.stack([pe, g.dirichlet(np.ones(p["na"]), size=n)][: 1 + p["t"] % 2], axis=2)
        value = lambda: ctx.call("calc_ground_truth_policy_value", ds.calc_ground_truth_policy_value, e, dist)  # noqa
        got, h = self.history(p, ctx, value, lambda: ds.obtain_batch_bandit_feedback(3), rf)
        want = sum(pe[i, a] * e[i, a] for i in range(n) for a in range(p["na"])) / n
        self.agree(ctx, got, float(want), 1e-8, p["kind"])
        if p["deploy"] and samples:
            u = (g.random((8, n)) + np.arange(8)[:, None]) / 8  # stratified choices of the deployed policy
            cum = pe.cumsum(1)
            rew = []
            for k in range(8):
                a = np.minimum((u[k][:, None] > cum).sum(1), p["na"] - 1)
                a = np.where(pe[np.arange(n), a] > 0, a, pe.argmax(1))
                rew.append(np.asarray(ctx.call("sample_reward", ds.sample_reward, np.asarray(b["context"]), a), dtype=float))
            self.deployed(ctx, got, np.concatenate(rew), p["kind"])
        ctx.cover(p["kind"], p["rt"], p["rf"], p["deploy"], h, dist.shape[2])

    def table(self, p):
        return Failing(G.Table(G.reward_table(p["t"], p["na"], "prob" if p["rt"] == "binary" else "cont")))

    def do_synth(self, p, ctx):
        rf = self.table(p) if p["rf"] else None
        ds = ctx.call("SyntheticBanditDataset", D.SyntheticBanditDataset, n_actions=p["na"], dim_context=p["dim"], reward_type=p["rt"], reward_function=rf, reward_std=p["std"], random_state=p["seed"])
        self.single(p, ctx, ds, None)

    def do_multi(self, p, ctx):
        rf = self.table(p) if p["rf"] else None
        ds = ctx.call("SyntheticMultiLoggersBanditDataset", D.SyntheticMultiLoggersBanditDataset, n_actions=p["na"], dim_context=p["dim"], reward_type=p["rt"], reward_function=rf, reward_std=p["std"], betas=[-1, 2], rhos=[1, 1], random_state=p["seed"])
        self.single(p, ctx, ds, None)

    def do_embed(self, p, ctx):
        ds = ctx.call("SyntheticBanditDatasetWithActionEmbeds", D.SyntheticBanditDatasetWithActionEmbeds, n_actions=p["na"], dim_context=p["dim"], reward_type=p["rt"], n_cat_per_dim=3, n_cat_dim=2, latent_param_mat_dim=2, random_state=p["seed"])
        self.single(p, ctx, ds, None, samples=False)

    def do_cont(self, p, ctx):
        g = np_rng("cont", p["t"])
        rf = Failing(G.ContTable(g.normal(size=G.K), g.normal(size=G.K))) if p["rf"] else None
        ds = ctx.call("SyntheticContinuousBanditDataset", D.SyntheticContinuousBanditDataset, dim_context=p["dim"], min_action_value=-2.0, max_action_value=3.0, reward_noise=p["std"], reward_function=rf, random_state=p["seed"])
        b = ctx.call("obtain_batch_bandit_feedback", ds.obtain_batch_bandit_feedback, 2000 if p["deploy"] else p["n"])
        x, a = np.asarray(b["context"]), np.asarray(b["action"])
        value = lambda: ctx.call("calc_ground_truth_policy_value", ds.calc_ground_truth_policy_value, context=x, action=a)  # noqa
        got, h = self.history(p, ctx, value, lambda: ds.obtain_batch_bandit_feedback(3), rf)
        # the logged actions are one deployed policy: its value is known from the log
        self.agree(ctx, got, float(np.mean(b["expected_reward"])), 1e-8, "continuous")
        if rf is not None:
            self.agree(ctx, got, float(np.mean(rf.f(x, action=a))), 1e-8, "continuous")
        # another policy: the actions logged in a wider world with the same rewards
        wide = ctx.call("SyntheticContinuousBanditDataset", D.SyntheticContinuousBanditDataset, dim_context=p["dim"], min_action_value=-8.0, max_action_value=9.0, reward_noise=p["std"], reward_function=rf, random_state=p["seed"])
        w = ctx.call("obtain_batch_bandit_feedback", wide.obtain_batch_bandit_feedback, p["n"])
        other = ctx.call("calc_ground_truth_policy_value", ds.calc_ground_truth_policy_value, context=np.asarray(w["context"]), action=np.asarray(w["action"]))
        self.agree(ctx, other, float(np.mean(w["expected_reward"])), 1e-8, "continuous, another policy")
        if p["deploy"]:
            d = np.asarray(b["reward"]) - np.asarray(b["expected_reward"])
            self.deployed(ctx, 0.0, d, "continuous (reward noise)")
        ctx.cover("cont", p["rf"], p["deploy"], h)

    # --- slates ---------------------------------------------------------------------------------
    def do_slate(self, p, ctx):
        base = G.reward_table(p["t"], p["na"], "prob" if p["rt"] == "binary" else "cont")
        rf = Failing(G.Table(base)) if p["rf"] else None
        ev = G.logit_table(p["t"] + 2, p["na"], "soft")
        n = p["n"]
        ds = ctx.call("SyntheticSlateBanditDataset", D.SyntheticSlateBanditDataset, n_unique_action=p["na"], len_list=p["ll"], dim_context=p["dim"], reward_type=p["rt"], reward_structure=p["rs"], decay_function=p["decay"], click_model=p["cm"], eta=p["eta"], base_reward_function=rf,
                      behavior_policy_function=G.Table(ev), is_factorizable=p["fac"], random_state=p["seed"])
        x = np_rng("x", p["t"]).normal(size=(n, p["dim"]))
        lg = ev[G.rows_of(x)]
        value = lambda: ctx.call("calc_ground_truth_policy_value", ds.calc_ground_truth_policy_value, context=x, evaluation_policy_logit_=lg)  # noqa
        got, h = self.history(p, ctx, value, lambda: ds.obtain_batch_bandit_feedback(2, return_pscore_item_position=False), rf)
        W = ds.action_interaction_weight_matrix
        slates = G.all_slates(p["na"], p["ll"], p["fac"])
        ctx.tick(len(slates) * n)
        if rf is not None:
            memo, want = {}, 0.0
            for k in G.rows_of(x):
                if k not in memo:
                    memo[k] = sum(G.slate_probability(ev[k], s, p["fac"])[-1] * G.slate_value(G.slate_expected(base[k], s, p, W), p) for s in slates)
                want += memo[k] / n
            self.agree(ctx, got, want, 4e-3, f"slate ({p['rs']}, {p['cm']})")
        else:
            # context-free rewards: learn the table from logged slates of this generator
            b = ctx.call("obtain_batch_bandit_feedback", ds.obtain_batch_bandit_feedback, 120, return_pscore_item_position=False)
            exam, _ = G.click_weights(p)
            T = {}
            for a, k, e in zip(b["action"], b["position"], b["expected_reward_factual"]):
                T[(int(a), int(k))] = float(e)
            if len(T) == p["na"] * p["ll"] and p["rt"] == "binary":
                want = 0.0
                for i in range(n):
                    for s in slates:
                        e = np.array([T[(a, k)] for k, a in enumerate(s)]) / exam
                        want += G.slate_probability(lg[i], s, p["fac"])[-1] * G.slate_value(e, p) / n
                self.agree(ctx, got, want, 4e-3, f"context-free slate ({p['cm']})")
            elif len(T) == p["na"] * p["ll"]:
                want = sum(G.slate_probability(lg[i], s, p["fac"])[-1] * sum(T[(a, k)] for k, a in enumerate(s)) for i in range(n) for s in slates) / n
                self.agree(ctx, got, want, 4e-3, "context-free slate")
        if p["deploy"]:
            m = 400
            b = ctx.call("obtain_batch_bandit_feedback", ds.obtain_batch_bandit_feedback, m, return_pscore_item_position=False)
            v = ctx.call("calc_ground_truth_policy_value", ds.calc_ground_truth_policy_value, context=np.asarray(b["context"]), evaluation_policy_logit_=ev[G.rows_of(b["context"])])
            r = np.asarray(b["reward"], dtype=float).reshape(m, p["ll"]).sum(1)
            self.deployed(ctx, float(v), r, f"slate ({p['rs']}, {p['cm']})")
            on = ctx.call("calc_on_policy_policy_value", ds.calc_on_policy_policy_value, b["reward"], b["slate_id"])
            self.agree(ctx, float(on), float(r.mean()), 1e-9, "on-policy slate value")
        ctx.cover("slate", p["rt"], p["rs"], p["cm"], p["fac"], p["ll"], p["rf"], p["deploy"], h)

    def do_multiclass(self, p, ctx):
        g = np_rng("mc", p["t"])
        k, m = p["k"], p["m"]
        y = g.permutation(np.arange(m) % k)
        X = g.normal(size=(m, 2))
        ds = ctx.call("MultiClassToBanditReduction", D.MultiClassToBanditReduction, X=X, y=y + p["off"], base_classifier_b=G.TableClassifier(p["t"], k), alpha_b=0.5)
        ctx.call("split_train_eval", ds.split_train_eval, eval_size=0.5, random_state=p["seed"])
        b = ctx.call("obtain_batch_bandit_feedback", ds.obtain_batch_bandit_feedback, random_state=1)
        where = {X[i].tobytes(): i for i in range(m)}
        cls = y[[where[row.tobytes()] for row in np.asarray(b["context"])]]
        n = len(cls)
        dist = ctx.call("obtain_action_dist_by_eval_policy", ds.obtain_action_dist_by_eval_policy, base_classifier_e=G.TableClassifier(p["t"] + 1, k), alpha_e=0.7) if p["rf"] else g.dirichlet(np.ones(k), size=n)[:, :, None]
        value = lambda: ctx.call("calc_ground_truth_policy_value", ds.calc_ground_truth_policy_value, dist)  # noqa
        got, h = self.history(p, ctx, value, lambda: ds.obtain_batch_bandit_feedback(random_state=3), None)
        self.agree(ctx, got, float(np.mean([dist[i, cls[i], 0] for i in range(n)])), 1e-9, "classification")
        ctx.cover("multiclass", k, p["off"], p["rf"], h)

    def simplify(self, plan):
        if plan["deploy"]:
            yield dict(plan, deploy=False)
        if plan["n"] > 1:
            yield dict(plan, n=1)


PROP = Prop()

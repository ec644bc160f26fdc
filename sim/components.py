"""Seeded components of the library as small call programs: spec -> object -> results of calls."""
import numpy as np
import torch
from sklearn.ensemble import RandomForestClassifier
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.tree import DecisionTreeClassifier

from obp import dataset as D
from obp import ope as O
from obp import policy as P
from obp.dataset.synthetic_slate import linear_behavior_policy_logit
from obp.simulator.coefficient_drifter import CoefficientDrifter
from obp.simulator.delay_sampler import ExponentialDelaySampler
from obp.simulator.simulator import BanditEnvironmentSimulator, BanditPolicySimulator
from obp.utils import estimate_confidence_interval_by_bootstrap, sample_action_fast

from . import policies
from .core import np_rng

RFUN = dict(
    none=None, logistic=D.logistic_reward_function, lpoly=D.logistic_polynomial_reward_function, lsparse=D.logistic_sparse_reward_function,
    linear=D.linear_reward_function, poly=D.polynomial_reward_function, sparse=D.sparse_reward_function,
)
BFUN = dict(none=None, linear=D.linear_behavior_policy, poly=D.polynomial_behavior_policy)


class Shared:
    """collaborators handed to every component of a run: base models and arrays"""

    def __init__(self):
        self.models = dict(logistic=LogisticRegression(max_iter=200, random_state=3), forest=RandomForestClassifier(n_estimators=3, max_depth=3, random_state=5),
                           tree=DecisionTreeClassifier(max_depth=3, random_state=6), ridge=Ridge())
        self.ac = {}

    def action_context(self, na):
        if na not in self.ac:
            self.ac[na] = np_rng("ac", na).normal(size=(na, 2))
        return self.ac[na]


def log(seed, n, na, ll=1, dim=2):
    g = np_rng("complog", seed, n, na, ll)
    a = g.integers(0, na, n)
    pos = g.integers(0, ll, n)
    k = 0
    for p in range(ll):  # every action twice at every position, so that classifiers see all classes
        for _ in range(2):
            a[k : k + na], pos[k : k + na] = np.arange(na), p
            k += na
    r = g.integers(0, 2, n)
    r[: na * ll * 2 : 2] = 1
    r[1 : na * ll * 2 : 2] = 0
    d = g.random((n, na, ll)) + 0.1
    return dict(context=g.normal(size=(n, dim)), action=a, reward=r, pscore=g.uniform(0.2, 1, n), position=pos, action_dist=d / d.sum(1, keepdims=True))


# each entry: gen(r) -> params, make(params, shared) -> object, ops: name -> fn(object, op, params, shared)
class Component:
    torch = False
    ops = ()

    def gen_op(self, r):
        return dict(op=r.choice(self.ops), n=r.choice([1, 3, 8]), s=r.randrange(1000))


class Synth(Component):
    ops = ("batch", "batch", "reward", "truth")

    def gen(self, r):
        rt = r.choice(["binary", "continuous"])
        p = dict(na=r.randint(2, 5), dim=r.randint(1, 3), rt=rt, rf=r.choice(["none", "logistic", "lpoly", "lsparse"] if rt == "binary" else ["none", "linear", "poly", "sparse"]),
                 bf=r.choice(list(BFUN)), beta=r.choice([0.0, 1.0, -2.0]), nd=r.choice([0, 0, 1]), seed=r.randrange(10**6), ac=r.random() < 0.3)
        if p["rf"] == "sparse":
            p["dim"] = 3  # in few dimensions it may keep only the constant, whose z-score is 0/0
        return p

    def make(self, p, sh):
        return D.SyntheticBanditDataset(n_actions=p["na"], dim_context=p["dim"], reward_type=p["rt"], reward_function=RFUN[p["rf"]], behavior_policy_function=BFUN[p["bf"]], beta=p["beta"],
                                        n_deficient_actions=p["nd"], random_state=p["seed"], action_context=sh.action_context(p["na"]) if p["ac"] else None)

    def call(self, o, op, p, sh):
        n = max(2, op["n"])
        g = np_rng("cc", op["s"])
        if op["op"] == "batch":
            return o.obtain_batch_bandit_feedback(n)
        if op["op"] == "reward":
            return o.sample_reward(g.normal(size=(n, p["dim"])), g.integers(0, p["na"], n))
        return o.calc_expected_reward(g.normal(size=(n, p["dim"])))


class Multi(Synth):
    def gen(self, r):
        p = Synth.gen(self, r)
        k = r.randint(1, 3)
        p.update(nd=0, betas=[r.choice([-1.0, 0.0, 2.0]) for _ in range(k)], rhos=[r.choice([0.2, 1.0]) for _ in range(k)])
        return p

    def make(self, p, sh):
        return D.SyntheticMultiLoggersBanditDataset(n_actions=p["na"], dim_context=p["dim"], reward_type=p["rt"], reward_function=RFUN[p["rf"]], betas=list(p["betas"]), rhos=list(p["rhos"]), random_state=p["seed"])


class Embed(Component):
    ops = ("batch",)

    def gen(self, r):
        return dict(na=r.randint(2, 4), rt=r.choice(["binary", "continuous"]), nd=r.choice([0, 1]), seed=r.randrange(10**5), un=r.choice([0, 1]))

    def make(self, p, sh):
        return D.SyntheticBanditDatasetWithActionEmbeds(n_actions=p["na"], dim_context=2, reward_type=p["rt"], n_cat_per_dim=3, latent_param_mat_dim=2, n_cat_dim=2, n_unobserved_cat_dim=p["un"], n_deficient_actions=p["nd"], random_state=p["seed"])

    def call(self, o, op, p, sh):
        return o.obtain_batch_bandit_feedback(max(2, op["n"]))


class Cont(Component):
    ops = ("batch", "truth")

    def gen(self, r):
        return dict(dim=r.randint(1, 3), rf=r.choice([None, "lin", "quad"]), bf=r.choice([None, "lin"]), seed=r.randrange(10**6))

    def make(self, p, sh):
        return D.SyntheticContinuousBanditDataset(dim_context=p["dim"], min_action_value=-3.0, max_action_value=3.0, reward_function={None: None, "lin": D.linear_reward_funcion_continuous, "quad": D.quadratic_reward_funcion_continuous}[p["rf"]],
                                                  behavior_policy_function=D.linear_behavior_policy_continuous if p["bf"] else None, random_state=p["seed"])

    def call(self, o, op, p, sh):
        if op["op"] == "batch":
            return o.obtain_batch_bandit_feedback(max(2, op["n"]))
        g = np_rng("ct", op["s"])
        return o.calc_ground_truth_policy_value(g.normal(size=(op["n"], p["dim"])), g.uniform(-2, 2, op["n"]))


class Slate(Component):
    ops = ("batch", "batch", "truth", "eval")

    def gen(self, r):
        rt = r.choice(["binary", "continuous"])
        return dict(na=r.randint(3, 4), ll=r.choice([2, 3]), rt=rt, rs=r.choice(["cascade_additive", "cascade_decay", "independent", "standard_additive", "standard_decay"]), cm=r.choice([None, "pbm", "cascade"]) if rt == "binary" else None,
                    rf=r.choice([True, True, False]), bf=r.random() < 0.6, fac=r.random() < 0.3, seed=r.randrange(10**6))

    def make(self, p, sh):
        rf = (D.logistic_reward_function if p["rt"] == "binary" else D.linear_reward_function) if p["rf"] else None
        return D.SyntheticSlateBanditDataset(n_unique_action=p["na"], len_list=p["ll"], dim_context=2, reward_type=p["rt"], reward_structure=p["rs"], click_model=p["cm"], base_reward_function=rf,
                                             behavior_policy_function=linear_behavior_policy_logit if p["bf"] else None, is_factorizable=p["fac"], random_state=p["seed"])

    def call(self, o, op, p, sh):
        n = max(2, op["n"])
        if op["op"] == "batch":
            return o.obtain_batch_bandit_feedback(n)
        g = np_rng("cs", op["s"])
        if op["op"] == "truth":
            return o.calc_ground_truth_policy_value(context=g.normal(size=(n, 2)), evaluation_policy_logit_=g.normal(size=(n, p["na"])))
        act = np.concatenate([g.permutation(p["na"])[: p["ll"]] for _ in range(n)])
        return o.generate_evaluation_policy_pscore("optimal" if p["rf"] else "random", context=g.normal(size=(n, 2)), action=act, epsilon=0.3)


class MultiClass(Component):
    ops = ("split", "batch", "batch", "dist")

    def gen(self, r):
        return dict(k=r.randint(2, 4), n=r.choice([40, 60]), model=r.choice(["logistic", "forest", "tree"]), nd=r.choice([0, 1]), s=r.randrange(10**6), split=r.randrange(1000), off=r.choice([0, 1]))

    def make(self, p, sh):
        g = np_rng("mc", p["s"])
        y = np.arange(p["n"]) % p["k"] + p["off"]
        o = D.MultiClassToBanditReduction(X=g.normal(size=(p["n"], 2)) + y[:, None], y=y, base_classifier_b=sh.models[p["model"]], alpha_b=0.7, n_deficient_actions=p["nd"])
        o.split_train_eval(eval_size=0.5, random_state=p["split"])
        return o

    def call(self, o, op, p, sh):
        if op["op"] == "split":
            o.split_train_eval(eval_size=0.5, random_state=op["s"])
            return [o.X_tr, o.y_ev]
        if op["op"] == "batch":
            return o.obtain_batch_bandit_feedback(random_state=op["s"])
        d = o.obtain_action_dist_by_eval_policy(base_classifier_e=sh.models[p["model"]], alpha_e=0.8)
        return [d, o.calc_ground_truth_policy_value(d)]


class Online(Component):
    ops = ("select", "select", "update", "update", "dist", "init")

    def gen(self, r):
        return policies.gen_spec(r, r.randint(2, 5), r.randint(1, 3))

    def make(self, p, sh):
        return policies.make(p)

    def call(self, o, op, p, sh):
        g = np_rng("co", op["s"])
        x = g.normal(size=p["dim"])
        if op["op"] == "update":
            policies.update(o, int(g.integers(0, p["n_actions"])), int(g.integers(0, 2)), x)
            return None
        if op["op"] == "init" and op["s"] % 3 == 0:
            o.initialize()
            return None
        if op["op"] == "dist" and p["kind"] in ("bts", "random"):
            return o.compute_batch_action_dist(n_rounds=3, **(dict(n_sim=20) if p["kind"] == "bts" else {}))
        return policies.select(o, x)


class Env(Component):
    ops = ("batch", "batch", "round", "context", "reward")

    def gen(self, r):
        return dict(na=r.randint(2, 4), dim=r.randint(1, 3), rf=r.choice(["none", "logistic", "lpoly", "lsparse"]), delay=r.choice([None, "a", "b"]), drift=r.random() < 0.4, seed=r.randrange(10**6), ac=r.random() < 0.3)

    def make(self, p, sh):
        kw = {}
        if p["delay"]:
            s = ExponentialDelaySampler(max_scale=10.0, min_scale=2.0, random_state=p["seed"] + 1)
            kw["delay_function"] = s.exponential_delay_function if p["delay"] == "a" else s.exponential_delay_function_expected_reward_weighted
        if p["drift"] and p["rf"] != "none":
            kw["coef_function"] = CoefficientDrifter(drift_interval=5, transition_period=2, transition_type="linear" if p["seed"] % 2 else "weighted_sampled", random_state=p["seed"] + 2).get_coefficients
        return BanditEnvironmentSimulator(n_actions=p["na"], dim_context=p["dim"], reward_function=RFUN[p["rf"]], random_state=p["seed"], action_context=sh.action_context(p["na"]) if p["ac"] else None, **kw)

    def call(self, o, op, p, sh):
        n = max(2, op["n"])
        if op["op"] == "batch":
            b = o.next_bandit_round_batch(n)
            return [b.context, b.rewards, b.expected_rewards, b.round_delays]
        if op["op"] == "round" and p["rf"] == "none":
            b = o.next_bandit_round()
            return [b.context, b.rewards, b.expected_rewards, b.round_delays]
        if op["op"] == "reward":
            return o.sample_reward(np_rng("ce", op["s"]).normal(size=(n, p["dim"])))
        return o.next_context_batch(n)


class Drifter(Component):
    ops = ("get",)

    def gen(self, r):
        t = r.choice([0, 2])
        return dict(interval=r.choice([3, 5]), period=t, type=r.choice(["linear", "weighted_sampled"]), seasonal=r.random() < 0.5, w=r.choice([0.0, 0.3]), dim=r.randint(1, 3), seed=r.randrange(10**6))

    def make(self, p, sh):
        return CoefficientDrifter(drift_interval=p["interval"], transition_period=p["period"], transition_type=p["type"], seasonal=p["seasonal"], base_coefficient_weight=p["w"], effective_dim_context=p["dim"], effective_dim_action_context=2, random_state=p["seed"])

    def call(self, o, op, p, sh):
        return list(o.get_coefficients(op["n"], effective_dim_context=p["dim"], effective_dim_action_context=2))


class Delay(Component):
    ops = ("a", "b")

    def gen(self, r):
        return dict(seed=r.randrange(10**6))

    def make(self, p, sh):
        return ExponentialDelaySampler(max_scale=20.0, min_scale=1.0, random_state=p["seed"])

    def call(self, o, op, p, sh):
        if op["op"] == "a":
            return o.exponential_delay_function(n_rounds=op["n"], n_actions=3)
        return o.exponential_delay_function_expected_reward_weighted(expected_rewards=np_rng("cd", op["s"]).random((op["n"], 3)))


class Simulation(Component):
    ops = ("steps", "steps", "flush")

    def gen(self, r):
        env = Env().gen(r)
        env["rf"] = "none" if not env["drift"] else env["rf"]
        return dict(env=env, pol=policies.gen_spec(r, env["na"], env["dim"]))

    def make(self, p, sh):
        pol = policies.make(p["pol"])
        return BanditPolicySimulator(policy=pol, environment=Env().make(p["env"], sh))

    def call(self, o, op, p, sh):
        if op["op"] == "flush":
            o.clear_delayed_queue()
        else:
            o.steps(batch_bandit_rounds=o.environment.next_bandit_round_batch(max(2, op["n"])))
        return [list(map(int, np.ravel(o.selected_actions))), float(o.total_reward)]


class Offline(Component):
    ops = ("fit", "sample", "sample", "predict")

    def gen(self, r):
        return dict(kind=r.choice(["ipw", "q"]), na=r.randint(2, 4), ll=r.choice([1, 2]), model=r.choice(["logistic", "forest", "tree"]), s=r.randrange(1000))

    def make(self, p, sh):
        m = sh.models[p["model"]]
        o = P.IPWLearner(n_actions=p["na"], len_list=p["ll"], base_classifier=m) if p["kind"] == "ipw" else P.QLearner(n_actions=p["na"], len_list=p["ll"], base_model=m)
        self.fit(o, p, p["s"])
        return o

    def fit(self, o, p, s):
        b = log(s, 40, p["na"], p["ll"])
        o.fit(context=b["context"], action=b["action"], reward=b["reward"], pscore=b["pscore"], position=b["position"])

    def call(self, o, op, p, sh):
        x = np_rng("cf", op["s"]).normal(size=(op["n"], 2))
        if op["op"] == "fit":
            return self.fit(o, p, op["s"])
        if op["op"] == "sample":
            return o.sample_action(x, tau=0.5, random_state=op["s"])
        return [o.predict(x), o.predict_score(x)]


class Neural(Component):
    torch = True
    ops = ("fit", "sample", "proba")

    def gen(self, r):
        return dict(na=r.randint(2, 3), obj=r.choice(["dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss"]), es=r.random() < 0.3, seed=r.randrange(10**6), solver=r.choice(["adam", "sgd", "adagrad"]), bs=r.choice(["auto", 8]), qseed=r.random() < 0.5)

    def make(self, p, sh):
        q = dict(hidden_layer_size=(4,), max_iter=2, learning_rate_init=0.05, batch_size=p["bs"])
        if p["qseed"]:
            q["random_state"] = p["seed"] + 1
        return P.NNPolicyLearner(n_actions=p["na"], len_list=1, dim_context=2, off_policy_objective=p["obj"], hidden_layer_size=(4,), max_iter=2, learning_rate_init=0.05, early_stopping=p["es"], batch_size=p["bs"], solver=p["solver"], random_state=p["seed"],
                                 q_func_estimator_hyperparams=q if p["obj"] in ("dr", "dm") else None)

    def call(self, o, op, p, sh):
        if op["op"] == "fit":
            b = log(op["s"], 30, p["na"])
            o.fit(context=b["context"], action=b["action"], reward=b["reward"], pscore=b["pscore"])
            return None
        x = np_rng("cn", op["s"]).normal(size=(op["n"], 2))
        if op["op"] == "sample":
            return o.sample_action(x, random_state=op["s"])
        return o.predict_proba(x)


class NeuralCont(Component):
    torch = True
    ops = ("fit", "predict")

    def gen(self, r):
        return dict(pg=r.choice(["dpg", "ipw", "dr"]), es=r.random() < 0.3, seed=r.randrange(10**6), bs=r.choice(["auto", 8]))

    def make(self, p, sh):
        return P.ContinuousNNPolicyLearner(dim_context=2, pg_method=p["pg"], bandwidth=0.5, output_space=(-2, 2), hidden_layer_size=(4,), max_iter=2, learning_rate_init=0.05, early_stopping=p["es"], batch_size=p["bs"], random_state=p["seed"],
                                           q_func_estimator_hyperparams=dict(hidden_layer_size=(4,), max_iter=2, batch_size=p["bs"]) if p["pg"] != "ipw" else None)

    def call(self, o, op, p, sh):
        g = np_rng("cnc", op["s"])
        if op["op"] == "fit":
            o.fit(context=g.normal(size=(30, 2)), action=g.normal(size=30), reward=g.normal(size=30), pscore=g.uniform(0.2, 1, 30))
            return None
        return o.predict(g.normal(size=(op["n"], 2)))


class Reg(Component):
    ops = ("fit_predict", "fit_predict", "fit")

    def gen(self, r):
        return dict(kind=r.choice(["reg", "reg", "ps", "iw"]), na=r.randint(2, 3), ll=r.choice([1, 2]), model=r.choice(["logistic", "forest", "tree"]), how=r.choice(["normal", "iw", "mrdr"]), cal=r.choice([1, 2]), m=r.choice(["sample", "raw"]))

    def make(self, p, sh):
        m = sh.models[p["model"]]
        if p["kind"] == "reg":
            return O.RegressionModel(base_model=m, n_actions=p["na"], len_list=p["ll"], fitting_method=p["how"])
        if p["kind"] == "ps":
            return O.PropensityScoreEstimator(base_model=m, n_actions=p["na"], len_list=p["ll"], calibration_cv=p["cal"])
        return O.ImportanceWeightEstimator(base_model=sh.models["logistic"], n_actions=p["na"], len_list=p["ll"], fitting_method=p["m"], calibration_cv=p["cal"])

    def call(self, o, op, p, sh):
        b = log(op["s"], 160, p["na"], p["ll"])
        kw = dict(context=b["context"], action=b["action"], position=b["position"])
        if p["kind"] == "reg":
            kw.update(reward=b["reward"], pscore=b["pscore"], action_dist=b["action_dist"])
        elif p["kind"] == "iw":
            kw.update(action_dist=b["action_dist"])
        if op["op"] == "fit" and p["kind"] == "reg":
            o.fit(**kw)
            return o.predict(b["context"][:5])
        return o.fit_predict(**kw, n_folds=[1, 2, 3][op["s"] % 3], random_state=op["s"])


class Interval(Component):
    ops = ("boot", "est", "est", "fast")

    def gen(self, r):
        return dict(kind=r.choice(["ipw", "dr", "snipw", "tune", "cont", "slate"]), na=3)

    def make(self, p, sh):
        return dict(ipw=O.InverseProbabilityWeighting(), dr=O.DoublyRobust(), snipw=O.SelfNormalizedInverseProbabilityWeighting(), tune=O.InverseProbabilityWeightingTuning(lambdas=[1.0, 10.0]),
                    cont=O.KernelizedInverseProbabilityWeighting(kernel="gaussian", bandwidth=0.5), slate=O.SlateStandardIPS(len_list=2))[p["kind"]]

    def call(self, o, op, p, sh):
        g = np_rng("ci", op["s"])
        if op["op"] == "boot":
            return estimate_confidence_interval_by_bootstrap(g.random(10), n_bootstrap_samples=8, random_state=op["s"])
        if op["op"] == "fast":
            d = g.random((6, 3))
            return sample_action_fast(d / d.sum(1, keepdims=True), random_state=op["s"])
        b = log(op["s"], 30, 3)
        ci = dict(n_bootstrap_samples=8, random_state=op["s"])
        if p["kind"] == "cont":
            return o.estimate_interval(reward=g.random(10), action_by_behavior_policy=g.normal(size=10), action_by_evaluation_policy=g.normal(size=10), pscore=g.uniform(0.2, 1, 10), **ci)
        if p["kind"] == "slate":
            return o.estimate_interval(slate_id=np.repeat(np.arange(6), 2), reward=g.random(12), position=np.tile([0, 1], 6), pscore=np.repeat(g.uniform(0.2, 0.5, 6), 2), evaluation_policy_pscore=np.repeat(g.uniform(0.2, 0.5, 6), 2), **ci)
        kw = dict(reward=b["reward"], action=b["action"], pscore=b["pscore"], action_dist=b["action_dist"], position=np.zeros(30, int))
        if p["kind"] == "dr":
            kw["estimated_rewards_by_reg_model"] = g.random((30, 3, 1))
        return o.estimate_interval(**kw, **ci)


class Functions(Component):
    """module-level seeded functions"""

    ops = ("rf", "bf", "slate-bf")

    def gen(self, r):
        return dict(rf=r.choice(["logistic", "lpoly", "lsparse", "linear", "poly", "sparse"]), bf=r.choice(["linear", "poly"]), na=r.randint(2, 4))

    def make(self, p, sh):
        return None

    def call(self, o, op, p, sh):
        x = np_rng("cfn", op["s"]).normal(size=(max(2, op["n"]), 2))
        ac = sh.action_context(p["na"])
        if op["op"] == "rf":
            return RFUN[p["rf"]](context=x, action_context=ac, random_state=op["s"])
        if op["op"] == "bf":
            return BFUN[p["bf"]](context=x, action_context=ac, random_state=op["s"])
        return linear_behavior_policy_logit(context=x, action_context=ac, random_state=op["s"])


KINDS = dict(synth=Synth(), multi=Multi(), embed=Embed(), cont=Cont(), slate=Slate(), multiclass=MultiClass(), online=Online(), env=Env(), drifter=Drifter(), delay=Delay(), simulation=Simulation(), offline=Offline(), neural=Neural(), neuralcont=NeuralCont(), reg=Reg(), interval=Interval(), functions=Functions())


def torch_noise(s):
    if s % 2:
        torch.manual_seed(s)
    torch.rand(3)

import copy
import math

import numpy as np

from obp import dataset as D
from obp import ope as O
from obp import policy as P
from obp.policy import offline as OFF
from obp.simulator.replay import run_bandit_replay
from obp.simulator.simulator import BanditEnvironmentSimulator, calc_ground_truth_policy_value

from .. import components as C
from .. import malformed as M
from .. import opeworld as W
from .. import policies
from ..core import Violation, digest, np_rng
from .c10 import PROP as C10

INF = float("inf")
LIGHT = ["synth", "multi", "embed", "cont", "slate", "multiclass", "online", "env"]
HEAVY = ["offline", "offline", "offline", "reg", "neural", "neuralcont"]
CI = [("alpha", -1e-6), ("alpha", 1 + 1e-6), ("alpha", -0.2), ("alpha", 1.7), ("alpha", "0.05"), ("nb", 0), ("nb", -5), ("nb", 2.5), ("nb", None), ("seed", "x")]
BAD = {"action-high": lambda d, g: d.update(action=M.one(d["expected_reward"].shape[1])(d["action"], g)), "expected-1d": lambda d, g: d.update(expected_reward=d["expected_reward"][:, 0]), "expected-short": lambda d, g: d.update(expected_reward=d["expected_reward"][:-1])}
BADNUM = [0, -1, -7, 2.5, "3", None]


def constructors(r):
    """a constructor call with one bad argument"""
    v = r.choice(BADNUM)
    neg = -10.0 ** r.randint(-6, 3)
    est = r.choice(["InverseProbabilityWeighting", "SelfNormalizedInverseProbabilityWeighting", "DoublyRobust", "SwitchDoublyRobust", "DoublyRobustWithShrinkage", "BalancedInverseProbabilityWeighting",
                    "MultiLoggersNaiveInverseProbabilityWeighting", "MultiLoggersBalancedInverseProbabilityWeighting", "MultiLoggersWeightedInverseProbabilityWeighting", "MultiLoggersNaiveDoublyRobust", "MultiLoggersBalancedDoublyRobust", "MultiLoggersWeightedDoublyRobust"])
    sub = r.choice(["SubGaussianInverseProbabilityWeighting", "SubGaussianDoublyRobust"])
    tun = r.choice(["InverseProbabilityWeightingTuning", "DoublyRobustTuning", "SwitchDoublyRobustTuning", "DoublyRobustWithShrinkageTuning", "SubGaussianInverseProbabilityWeightingTuning", "SubGaussianDoublyRobustTuning"])
    ker = r.choice(["KernelizedInverseProbabilityWeighting", "KernelizedSelfNormalizedInverseProbabilityWeighting", "KernelizedDoublyRobust"])
    pol = r.choice(["EpsilonGreedy", "BernoulliTS", "Random"])
    lin = r.choice(["LinUCB", "LinTS", "LinEpsilonGreedy", "LogisticUCB", "LogisticTS", "LogisticEpsilonGreedy"])
    table = [
        ("ope", est, dict(lambda_=r.choice([neg, "1", None, [1.0]]))), ("ope", est, dict(lambda_=math.nan)), ("ope", est, dict(use_estimated_pscore=r.choice([1, "no"]))),
        ("ope", sub, dict(lambda_=r.choice([neg, 1.0 + 10.0 ** r.randint(-6, 2)]))),
        ("ope", tun, dict(lambdas=r.choice([[], [0.5, neg], [0.5, "1"], 0.5, [math.nan]]))), ("ope", tun, dict(lambdas=[0.5], tuning_method=r.choice(["best", None]))),
        ("ope", tun, dict(lambdas=[0.5], delta=r.choice([0.0 - 1e-3, 1.0 + 1e-3, "0.1"]))), ("ope", tun, dict(lambdas=[0.5], use_bias_upper_bound="yes")),
        ("ope", ker, dict(kernel=r.choice(["uniform", "gauss"]), bandwidth=0.5)), ("ope", ker, dict(kernel="gaussian", bandwidth=r.choice([neg, "1", None]))),
        ("policy", pol, dict(n_actions=r.choice([1, v]))), ("policy", pol, dict(n_actions=3, len_list=r.choice([4, v]))), ("policy", pol, dict(n_actions=3, batch_size=v)),
        ("policy", "EpsilonGreedy", dict(n_actions=3, epsilon=r.choice([neg, 1.0 + 10.0 ** r.randint(-6, 2)]))),
        ("policy", lin, dict(dim=v, n_actions=3)), ("policy", lin, dict(dim=2, n_actions=r.choice([1, v]))), ("policy", lin, dict(dim=2, n_actions=3, len_list=r.choice([4, v]))), ("policy", lin, dict(dim=2, n_actions=3, batch_size=v)),
        ("policy", r.choice(["LinUCB", "LinEpsilonGreedy", "LogisticUCB", "LogisticEpsilonGreedy"]), dict(dim=2, n_actions=3, epsilon=neg)),
        ("policy", r.choice(["LogisticUCB", "LogisticTS", "LogisticEpsilonGreedy"]), dict(dim=2, n_actions=3, **{r.choice(["alpha_", "lambda_"]): r.choice([neg, 0.0])})),
        ("policy", r.choice(["IPWLearner", "QLearner"]), dict(n_actions=r.choice([1, v]))), ("policy", r.choice(["IPWLearner"]), dict(n_actions=3, len_list=r.choice([4, v]))),
        ("dataset", "SyntheticBanditDataset", dict(n_actions=r.choice([1, v]))), ("dataset", "SyntheticBanditDataset", dict(n_actions=3, dim_context=v)), ("dataset", "SyntheticBanditDataset", dict(n_actions=3, reward_type=r.choice(["count", 1]))),
        ("dataset", "SyntheticBanditDataset", dict(n_actions=3, reward_std=neg)), ("dataset", "SyntheticBanditDataset", dict(n_actions=3, n_deficient_actions=r.choice([-1, 3, 9]))), ("dataset", "SyntheticBanditDataset", dict(n_actions=3, random_state=None)),
        ("dataset", "SyntheticBanditDataset", dict(n_actions=3, beta=r.choice(["1", None]))),
        ("dataset", "SyntheticMultiLoggersBanditDataset", dict(n_actions=3, betas=[1.0, 2.0], rhos=[1.0])), ("dataset", "SyntheticMultiLoggersBanditDataset", dict(n_actions=3, betas=[1.0, 2.0], rhos=[1.0, neg])),
        ("dataset", "SyntheticContinuousBanditDataset", dict(dim_context=v)), ("dataset", "SyntheticContinuousBanditDataset", dict(dim_context=2, min_action_value=1.0, max_action_value=1.0 - r.choice([1e-6, 3.0]))), ("dataset", "SyntheticContinuousBanditDataset", dict(dim_context=2, action_noise=neg)),
        ("dataset", "SyntheticContinuousBanditDataset", dict(dim_context=2, reward_noise=neg)),
        ("dataset", "SyntheticSlateBanditDataset", dict(n_unique_action=3, len_list=r.choice([4, 7]), dim_context=2)), ("dataset", "SyntheticSlateBanditDataset", dict(n_unique_action=r.choice([1, v]), len_list=2, dim_context=2)),
        ("dataset", "SyntheticSlateBanditDataset", dict(n_unique_action=4, len_list=2, reward_structure="mixed")), ("dataset", "SyntheticSlateBanditDataset", dict(n_unique_action=4, len_list=2, click_model="dcm")),
        ("simulator", "BanditEnvironmentSimulator", dict(n_actions=r.choice([1, v]))), ("simulator", "BanditEnvironmentSimulator", dict(n_actions=3, dim_context=v)), ("simulator", "BanditEnvironmentSimulator", dict(n_actions=3, random_state=None)),
    ]
    for name, base in (("NNPolicyLearner", dict(n_actions=3, len_list=1, dim_context=2, off_policy_objective="ipw")), ("ContinuousNNPolicyLearner", dict(dim_context=2, pg_method="ipw", bandwidth=0.5)), ("QFuncEstimator", dict(n_actions=3, dim_context=2))):
        key, val = r.choice([("dim_context", v), ("hidden_layer_size", r.choice([(0,), (5, -1), 10, (2.5,)])), ("activation", r.choice(["softmax", None])), ("solver", r.choice(["rmsprop", None])), ("alpha", r.choice([neg, "0"])), ("batch_size", r.choice([0, -4, 2.5, "all"])),
                             ("learning_rate_init", r.choice([neg, 0.0, "x"])), ("max_iter", v), ("shuffle", r.choice([1, "yes"])), ("tol", r.choice([neg, 0.0])), ("momentum", r.choice([neg, 1.0 - neg])), ("nesterovs_momentum", r.choice([1, "yes"])), ("early_stopping", r.choice([1, "yes"])),
                             ("validation_fraction", r.choice([neg, 1.0 - neg, 0.0])), ("beta_1", r.choice([neg, 1.0 - neg])), ("beta_2", r.choice([neg, 1.0 - neg])), ("epsilon", neg), ("n_iter_no_change", v)])
        kw = dict(base, **{key: val})
        if key == "validation_fraction":
            kw["early_stopping"] = True
        table.append(("policy", name, kw))
    nn = dict(n_actions=3, len_list=1, dim_context=2, off_policy_objective="ipw")
    table += [("policy", "NNPolicyLearner", dict(nn, **{r.choice(["policy_reg_param", "var_reg_param"]): r.choice([neg, "1"])})), ("policy", "NNPolicyLearner", dict(nn, off_policy_objective=r.choice(["best", None]))), ("policy", "NNPolicyLearner", dict(nn, n_actions=r.choice([1, v]))),
              ("policy", "NNPolicyLearner", dict(nn, off_policy_objective=r.choice(["ipw-os", "ipw-subgauss"]), lambda_=neg)),
              ("policy", "ContinuousNNPolicyLearner", dict(dim_context=2, pg_method=r.choice(["best", None]), bandwidth=0.5)), ("policy", "ContinuousNNPolicyLearner", dict(dim_context=2, pg_method="ipw", bandwidth=r.choice([neg, 0.0, "1"]))),
              ("policy", "ContinuousNNPolicyLearner", dict(dim_context=2, pg_method="ipw", bandwidth=0.5, output_space=r.choice([(1, "2"), 3])))]
    for name in ("RegressionModel", "PropensityScoreEstimator", "ImportanceWeightEstimator"):
        table.append(("ope", name, dict(base_model=C.Ridge() if name == "RegressionModel" else C.LogisticRegression(), **dict(dict(n_actions=3, len_list=1), **r.choice([dict(n_actions=r.choice([1, v])), dict(len_list=v)])))))
    table.append(("ope", "RegressionModel", dict(base_model=r.choice(["ridge", None, 3]), n_actions=3)))
    table.append(("ope", "RegressionModel", dict(base_model=C.Ridge(), n_actions=3, fitting_method=r.choice(["ips", None]))))
    return r.randrange(len(table)), table


class Prop:
    id = "C22"
    runs = {"quick": 6000, "thorough": 250000}
    time_unit = "calls"
    rule = ("a run makes a history of valid calls on one object of the library with malformed requests in between - one wrong element somewhere in otherwise valid data, a bad shape, type or range; "
            "each malformed request must raise an error, leave the caller's data alone, and leave no trace: every later valid call answers bit for bit like an object that never saw it")
    measure = "distinct (component, malformed request, calls before, call after) tuples"
    real = ["datasets, simulators, online and offline policies, regression, propensity and weight models, estimators and front ends of the four families, run_bandit_replay"]
    stub = ["logged data and arguments: random arrays"]
    assumptions = ["only requests that contradict documented types, ranges and shapes of inputs the component works with", "online updates and Thompson sampling contexts are not validated by the library and not judged"]

    def generate(self, r, i, tier):
        kind = r.choice(LIGHT + ["ope"] * 10 + ["replay"] * 2 + ["make"] * 2 + ([r.choice(HEAVY)] * 6))
        if kind == "make":
            return dict(kind=kind, seed=r.randrange(10**9), steps=[dict(s=r.randrange(10**9)) for _ in range(12)])
        if kind == "ope":
            fam = r.choice(["std", "std", "std", "multi", "slate", "slate", "cont"])
            na, ll = r.randint(2, 4), r.choice([1, 1, 2, 3])
            ll = min(ll, na)
            if fam == "slate":
                ll = max(2, ll)
                na = max(3, na, ll)
            params = dict(fam=fam, ests=[W.gen_estimator(r, fam, na, ll, [k]) for k in r.sample(list(W.FAMILY[fam]), r.choice([1, 1, 2, 3]))], seed=r.randrange(10**6), n=r.choice([6, 20, 50]), na=na, ll=ll)
            names = list(M.CORRUPT[fam])
        elif kind == "replay":
            na, dim = r.randint(2, 4), r.randint(1, 3)
            params = dict(pol=policies.gen_spec(r, na, dim), na=na, dim=dim, n=r.choice([5, 20]))
            names = list(M.ROWS) + ["missing", "missing", "value-missing", "value-missing", "value-action-high", "value-expected-1d", "value-expected-short"] + ["value-" + k for k in M.ROWS if not k.startswith("pscore")]
        else:
            params = C.KINDS[kind].gen(r)
            names = list(M.LIST[kind])
        steps = []
        for _ in range(r.choice([3, 5, 8]) if kind not in HEAVY else r.choice([2, 3])):
            if kind == "ope":
                op = dict(op=r.choice(["direct", "int", "values", "values", "intervals", "summary", "perf", "compare"]), est=r.randrange(4), arg=r.randrange(3), seed=r.randrange(1000), alpha=0.1, nb=4, gt=1.5, metric="se")
            elif kind == "replay":
                op = dict(op=r.choice(["run", "run", "select", "value"]), s=r.randrange(1000))
            else:
                op = C.KINDS[kind].gen_op(r)
            bad = []
            while r.random() < (0.75 if kind in HEAVY else 0.55) and len(bad) < (5 if kind in HEAVY else 3):
                b = dict(name=r.choice(names), s=r.randrange(10**6))
                if kind == "ope":
                    b.update(op=r.choice(["direct", "int", "values", "intervals", "summary", "perf", "compare"]), est=r.randrange(4), arg=r.randrange(3), alpha=0.1, nb=4, gt=1.5, metric="se", seed=3)
                    if r.random() < 0.25:
                        b["name"] = "call"
                        b["how"] = r.choice(["ci", "ci", "metric", "gt"])
                        b["i"] = r.randrange(len(CI))
                bad.append(b)
            steps.append(dict(op=op, bad=bad))
        return dict(kind=kind, params=params, steps=steps)

    # ---------------------------------------------------------------------------------------------
    def expect_error(self, ctx, what, f, data=None):
        keep = digest(data) if data is not None else None
        try:
            out = f()
        except Violation:
            raise
        except Exception as e:
            ctx.fault("malformed-request")
            if keep is not None:
                ctx.check(digest(data) == keep, "caller-data", lambda: f"{what}: rejected, but the caller's data were modified")
            ctx.log(what, type(e).__name__)
            return True
        if out is None:
            return False
        raise Violation("accepted", f"{what}: accepted instead of rejected")

    def run(self, p, ctx):
        kind = p["kind"]
        getattr(self, kind if kind in ("make", "ope", "replay") else "component")(p, ctx)

    def make(self, p, ctx):
        import random

        for q in p["steps"]:
            r = random.Random(q["s"])
            i, table = constructors(r)
            mod, name, kw = table[i]
            cls = dict(ope=O, policy=P, dataset=D, simulator=None)[mod]
            cls = BanditEnvironmentSimulator if cls is None else getattr(OFF if "QFunc" in name else cls, name)
            ctx.tick()
            self.expect_error(ctx, f"{name}({kw})", lambda: (cls(**kw), 1))
            ctx.cover("make", name, i)

    def component(self, p, ctx):
        comp, q = C.KINDS[p["kind"]], p["params"]
        sa, sb = C.Shared(), C.Shared()
        a, b = ctx.call("constructor", comp.make, q, sa), ctx.call("constructor", comp.make, q, sb)
        for j, st in enumerate(p["steps"]):
            seen = []
            for m in st["bad"]:
                f = M.LIST[p["kind"]][m["name"]]
                if self.expect_error(ctx, f"{p['kind']} {m['name']}", lambda: f(a, q, sa, np_rng("mal", m["s"]))):
                    seen.append(m["name"])
                    ctx.cover(p["kind"], m["name"], min(j, 2), st["op"]["op"])
            self.compare(ctx, p["kind"], seen, lambda: comp.call(a, st["op"], q, sa), lambda: comp.call(b, st["op"], q, sb), st["op"]["op"])

    def compare(self, ctx, what, seen, fa, fb, op):
        ctx.tick()
        y = ctx.call(op, fb)
        x = ctx.call(op, fa)
        ctx.check(digest(x) == digest(y), "traces", lambda: f"{what}: {op} answers differently after rejected requests {seen} than on an object that never saw them")

    def ope(self, p, ctx):
        q = p["params"]
        fam = q["fam"]
        c = dict(n=q["n"], n_actions=q["na"], len_list=q["ll"], seed=q["seed"], real=True)
        log = W.data(fam, c)
        args = [W.arguments(fam, c, k) for k in range(3)]
        if not q["ests"]:
            return
        sides = []
        for _ in range(2):
            ests = [ctx.call("constructor", W.build, fam, e) for e in q["ests"]]
            sides.append((ests, ctx.call("constructor", W.FRONT[fam], bandit_feedback=log, ope_estimators=ests)))
        if len({e.estimator_name for e in sides[0][0]}) < len(sides[0][0]):
            return
        for j, st in enumerate(p["steps"]):
            seen = []
            for b in st["bad"]:
                k = b["est"] % len(q["ests"])
                ests, front = sides[0]
                op = dict(b)
                l2, a2 = copy.deepcopy(log), copy.deepcopy(args[b["arg"]])
                if b["name"] == "call":
                    how = b["how"]
                    if how == "ci":
                        key, v = CI[b["i"]]
                        op[key] = v
                        if op["op"] not in ("int", "intervals", "summary"):
                            continue
                    elif op["op"] not in ("perf", "compare"):
                        continue
                    elif how == "metric":
                        op["metric"] = ["mse", "SE", "", None][b["i"] % 4]
                    else:
                        op["metric"], op["gt"] = [("relative-ee", 0.0), ("se", "1"), ("se", None)][b["i"] % 3]
                    say = f"{how} {CI[b['i']] if how == 'ci' else (op['metric'], op['gt'])}"
                else:
                    direct = op["op"] in ("direct", "int")
                    who = [q["ests"][k]] if direct else q["ests"]
                    if not any(M.concerns(b["name"]) in M.uses(fam, e) for e in who):
                        continue
                    if M.CORRUPT[fam][b["name"]](l2, a2, np_rng("mal", b["s"])) is False:
                        continue
                    say = b["name"]

                def call():
                    fr = front
                    if b["name"] != "call" and digest(l2) != digest(log) and not direct:
                        fr = W.FRONT[fam](bandit_feedback=l2, ope_estimators=ests)
                    return C10.call(dict(fam=fam), op, fr, ests[k], l2, a2), 1

                if self.expect_error(ctx, f"{fam} {[e['kind'] for e in q['ests']]} {op['op']}({k}): {say}", call, [l2, a2]):
                    seen.append(say)
                    ctx.cover(fam, q["ests"][k]["kind"], op["op"], b["name"], b.get("how"))
            op = st["op"]
            k = op["est"] % len(q["ests"])
            f = lambda side: (lambda: C10.call(dict(fam=fam), op, side[1], side[0][k], log, args[op["arg"]]))  # noqa
            self.compare(ctx, f"{fam} {q['ests'][k]['kind']}", seen, f(sides[0]), f(sides[1]), op["op"])

    def replay(self, p, ctx):
        q = p["params"]
        a, b = policies.make(q["pol"]), policies.make(q["pol"])

        def data(s):
            g = np_rng("mr", s)
            n = q["n"]
            return dict(n_rounds=n, n_actions=q["na"], context=g.normal(size=(n, q["dim"])), action=g.integers(0, q["na"], n), reward=g.integers(0, 2, n), position=g.integers(0, q["pol"]["len_list"], n), pscore=g.uniform(0.2, 1, n))

        def valid(o, op):
            if op["op"] == "value":
                return calc_ground_truth_policy_value(bandit_feedback=dict(data(op["s"]), expected_reward=np_rng("me", op["s"]).random((q["n"], q["na"]))), reward_sampler=lambda x, a: int(a[0]) % 2, policy=o, n_sim=2)
            if op["op"] == "run":
                return run_bandit_replay(bandit_feedback=data(op["s"]), policy=o)
            return policies.select(o, np_rng("ms", op["s"]).normal(size=q["dim"]))

        for j, st in enumerate(p["steps"]):
            seen = []
            for m in st["bad"]:
                d, g, nm = data(m["s"]), np_rng("mal", m["s"]), m["name"]
                value = nm.startswith("value-")
                nm = nm.replace("value-", "")
                if value:
                    d["expected_reward"] = g.random((q["n"], q["na"]))
                    del d["pscore"]
                if nm == "missing":
                    d.pop(["action", "position", "reward", "expected_reward" if value else "pscore", "context"][m["s"] % 5])
                elif nm in BAD:
                    BAD[nm](d, g)
                else:
                    key, f = M.ROWS[nm]
                    d[key] = f(d[key], g)
                work = (lambda: calc_ground_truth_policy_value(bandit_feedback=d, reward_sampler=lambda x, a: 1, policy=a, n_sim=2)) if value else lambda: run_bandit_replay(bandit_feedback=d, policy=a)
                if self.expect_error(ctx, f"{'calc_ground_truth_policy_value' if value else 'run_bandit_replay'} {nm}", lambda: (work(), 1), d):
                    seen.append(m["name"])
                    ctx.cover("replay", q["pol"]["kind"], m["name"], min(j, 2))
            self.compare(ctx, q["pol"]["kind"], seen, lambda: valid(a, st["op"]), lambda: valid(b, st["op"]), st["op"]["op"])


PROP = Prop()

"""Random logged data, evaluation arguments and estimators for the four OPE front ends."""
import copy

import numpy as np

from obp import ope as O

from .core import np_rng

INF = float("inf")
TUNED = ("ipwt", "drt", "sdrt", "drost", "sgipwt", "sgdrt")

STD = dict(
    rm=lambda s: O.ReplayMethod(),
    ipw=lambda s: O.InverseProbabilityWeighting(lambda_=s["lam"], use_estimated_pscore=s["est"]),
    snipw=lambda s: O.SelfNormalizedInverseProbabilityWeighting(lambda_=s["lam"], use_estimated_pscore=s["est"]),
    dm=lambda s: O.DirectMethod(),
    dr=lambda s: O.DoublyRobust(lambda_=s["lam"], use_estimated_pscore=s["est"]),
    sndr=lambda s: O.SelfNormalizedDoublyRobust(lambda_=s["lam"], use_estimated_pscore=s["est"]),
    switch=lambda s: O.SwitchDoublyRobust(lambda_=s["lam"], use_estimated_pscore=s["est"]),
    dros=lambda s: O.DoublyRobustWithShrinkage(lambda_=s["lam"], use_estimated_pscore=s["est"]),
    sgipw=lambda s: O.SubGaussianInverseProbabilityWeighting(lambda_=min(1.0, s["lam"] / 100.0), use_estimated_pscore=s["est"]),
    sgdr=lambda s: O.SubGaussianDoublyRobust(lambda_=min(1.0, s["lam"] / 100.0), use_estimated_pscore=s["est"]),
    bipw=lambda s: O.BalancedInverseProbabilityWeighting(lambda_=s["lam"]),
    mipw=lambda s: O.MarginalizedInverseProbabilityWeighting(n_actions=s["n_actions"], embedding_selection_method=s["embsel"]),
    snmipw=lambda s: O.SelfNormalizedMarginalizedInverseProbabilityWeighting(n_actions=s["n_actions"], embedding_selection_method=s["embsel"]),
    ipwt=lambda s: O.InverseProbabilityWeightingTuning(lambdas=s["lams"], tuning_method=s["how"], use_bias_upper_bound=s["bub"], use_estimated_pscore=s["est"]),
    drt=lambda s: O.DoublyRobustTuning(lambdas=s["lams"], tuning_method=s["how"], use_bias_upper_bound=s["bub"], use_estimated_pscore=s["est"]),
    sdrt=lambda s: O.SwitchDoublyRobustTuning(lambdas=s["lams"], tuning_method=s["how"], use_bias_upper_bound=s["bub"], use_estimated_pscore=s["est"]),
    drost=lambda s: O.DoublyRobustWithShrinkageTuning(lambdas=s["lams"], tuning_method=s["how"], use_bias_upper_bound=s["bub"], use_estimated_pscore=s["est"]),
    sgipwt=lambda s: O.SubGaussianInverseProbabilityWeightingTuning(lambdas=[v / 200.0 for v in s["lams"]], tuning_method=s["how"], use_bias_upper_bound=s["bub"], use_estimated_pscore=s["est"]),
    sgdrt=lambda s: O.SubGaussianDoublyRobustTuning(lambdas=[v / 200.0 for v in s["lams"]], tuning_method=s["how"], use_bias_upper_bound=s["bub"], use_estimated_pscore=s["est"]),
)
MULTI = dict(
    m_ipw=lambda s: O.MultiLoggersNaiveInverseProbabilityWeighting(lambda_=s["lam"], use_estimated_pscore=s["est"]),
    m_bipw=lambda s: O.MultiLoggersBalancedInverseProbabilityWeighting(lambda_=s["lam"], use_estimated_pscore=s["est"]),
    m_wipw=lambda s: O.MultiLoggersWeightedInverseProbabilityWeighting(lambda_=s["lam"], use_estimated_pscore=s["est"]),
    m_dr=lambda s: O.MultiLoggersNaiveDoublyRobust(lambda_=s["lam"], use_estimated_pscore=s["est"]),
    m_bdr=lambda s: O.MultiLoggersBalancedDoublyRobust(lambda_=s["lam"], use_estimated_pscore=s["est"]),
    m_wdr=lambda s: O.MultiLoggersWeightedDoublyRobust(lambda_=s["lam"], use_estimated_pscore=s["est"]),
)
SLATE = dict(
    sips=lambda s: O.SlateStandardIPS(len_list=s["len_list"]),
    iips=lambda s: O.SlateIndependentIPS(len_list=s["len_list"]),
    rips=lambda s: O.SlateRewardInteractionIPS(len_list=s["len_list"]),
    snsips=lambda s: O.SelfNormalizedSlateStandardIPS(len_list=s["len_list"]),
    sniips=lambda s: O.SelfNormalizedSlateIndependentIPS(len_list=s["len_list"]),
    snrips=lambda s: O.SelfNormalizedSlateRewardInteractionIPS(len_list=s["len_list"]),
    cdr=lambda s: O.SlateCascadeDoublyRobust(len_list=s["len_list"], n_unique_action=s["n_actions"]),
)
CONT = dict(
    kipw=lambda s: O.KernelizedInverseProbabilityWeighting(kernel=s["kernel"], bandwidth=s["bw"]),
    ksnipw=lambda s: O.KernelizedSelfNormalizedInverseProbabilityWeighting(kernel=s["kernel"], bandwidth=s["bw"]),
    kdr=lambda s: O.KernelizedDoublyRobust(kernel=s["kernel"], bandwidth=s["bw"]),
)
FAMILY = dict(std=STD, multi=MULTI, slate=SLATE, cont=CONT)
FRONT = dict(std=O.OffPolicyEvaluation, multi=O.MultiLoggersOffPolicyEvaluation, slate=O.SlateOffPolicyEvaluation, cont=O.ContinuousOffPolicyEvaluation)


def gen_estimator(r, fam, na, ll, names=None):
    k = r.choice(names or list(FAMILY[fam]))
    s = dict(kind=k, n_actions=na, len_list=ll, lam=r.choice([1e9, 1e9, 0.0, 0.5, 1.0, 3.0, 10.0]), est=r.random() < 0.25, embsel=r.choice([None, None, "exact", "greedy"]),
             how=r.choice(["slope", "mse"]), bub=r.random() < 0.5, kernel=r.choice(["triangular", "gaussian", "epanechnikov", "cosine"]), bw=r.choice([0.1, 0.5, 2.0]))
    s["=lams"] = r.sample([0.1, 0.5, 1.0, 2.0, 5.0, 20.0, 100.0], r.randint(2, 4))
    if k == "sgipw" or k == "sgdr":
        s["lam"] = min(s["lam"], 100.0)
    return s


def build(fam, s):
    s = dict(s, lams=list(s["=lams"]))
    return FAMILY[fam][s["kind"]](s)


def dist(g, n, na, ll):
    d = g.random((n, na, ll)) + 0.05
    if g.random() < 0.3:  # deterministic evaluation policy
        d = np.eye(na)[g.integers(0, na, (n, ll))].transpose(0, 2, 1).astype(float)
    return d / d.sum(1, keepdims=True)


def data(fam, c):
    """(logged data, maker of evaluation arguments) for one data set"""
    g = np_rng("ope", fam, c["seed"])
    n, na, ll = c["n"], c["n_actions"], c["len_list"]
    if fam in ("std", "multi"):
        log = dict(n_rounds=n, n_actions=na, context=g.normal(size=(n, 2)), action=g.integers(0, na, n), reward=np.round(g.random(n), 4) if c["real"] else g.integers(0, 2, n),
                   position=None if ll == 1 and c["seed"] % 2 else g.integers(0, ll, n), pscore=np.round(g.uniform(0.05, 1.0, n), 4))
        log["action"][:na] = g.permutation(na)[:n]  # a classifier of actions needs more than one class
        if fam == "multi":
            log["stratum_idx"] = g.integers(0, 3, n)
            log["pscore_avg"] = np.round(g.uniform(0.05, 1.0, n), 4)
    elif fam == "cont":
        log = dict(n_rounds=n, context=g.normal(size=(n, 2)), action=g.normal(size=n), reward=g.normal(size=n) + 1.0, pscore=g.uniform(0.05, 0.9, n))
    else:
        ll = max(2, ll)
        m = n * ll
        ps = g.uniform(0.02, 0.5, n)
        log = dict(n_rounds=n, slate_id=np.repeat(np.arange(n), ll), position=np.tile(np.arange(ll), n), action=np.concatenate([g.permutation(max(na, ll))[:ll] for _ in range(n)]),
                   reward=np.round(g.random(m), 4), context=g.normal(size=(n, 2)), pscore=np.repeat(ps, ll), pscore_item_position=g.uniform(0.1, 1.0, m),
                   pscore_cascade=np.sort(g.uniform(0.02, 1.0, (n, ll)), axis=1)[:, ::-1].ravel())
    return log


def arguments(fam, c, seed):
    g = np_rng("arg", fam, seed, c["seed"])
    n, na, ll = c["n"], c["n_actions"], c["len_list"]
    if fam == "std":
        ncat = 3
        pea = g.random((na, ncat, 2)) + 0.1
        return dict(action_dist=dist(g, n, na, ll), estimated_rewards_by_reg_model=g.random((n, na, ll)), estimated_pscore=g.uniform(0.05, 1.0, n), estimated_importance_weights=g.uniform(0.0, 3.0, n),
                    action_embed=g.integers(0, ncat, (n, 2)), pi_b=dist(np_rng("pib", seed), n, na, ll) * 0.5 + 0.5 / na, p_e_a=pea / pea.sum(1, keepdims=True))
    if fam == "multi":
        return dict(action_dist=dist(g, n, na, ll), estimated_rewards_by_reg_model=g.random((n, na, ll)), estimated_pscore=g.uniform(0.05, 1.0, n), estimated_pscore_avg=g.uniform(0.05, 1.0, n))
    if fam == "cont":
        return dict(action_by_evaluation_policy=g.normal(size=n), estimated_rewards_by_reg_model=g.normal(size=n))
    ll = max(2, ll)
    k, m = max(na, ll), n * ll
    d = g.random((m, k)) + 0.05
    return dict(evaluation_policy_pscore=np.repeat(g.uniform(0, 0.5, n), ll), evaluation_policy_pscore_item_position=g.uniform(0, 1, m), evaluation_policy_pscore_cascade=np.sort(g.uniform(0, 1, (n, ll)), axis=1)[:, ::-1].ravel(),
                evaluation_policy_action_dist=(d / d.sum(1, keepdims=True)).ravel(), q_hat=g.random(m * k))


KEPT = ["plain"] * 6 + ["fortran", "strided", "readonly", "whole", "narrow"]


def keep(d, how):
    """the caller keeps the same kind of data in other forms of arrays"""
    for k, v in d.items():
        if not isinstance(v, np.ndarray):
            continue
        if how == "fortran":
            v = np.asfortranarray(v)
        elif how == "strided":
            big = np.full((2 * len(v),) + v.shape[1:], 99).astype(v.dtype)
            big[1::2] = v
            v = big[1::2]
        elif how == "readonly":
            v.flags.writeable = False
        elif how == "whole":  # whole numbers held as integers
            if k == "reward" or k.startswith("estimated_rewards") or k == "q_hat":
                v = np.rint(4 * v).astype(int)
            elif k == "action_dist":
                v = np.eye(v.shape[1], dtype=int)[v.argmax(1)].transpose(0, 2, 1)
            elif k == "context":
                v = np.rint(2 * v).astype(int)
            elif k in ("pscore", "pscore_avg", "estimated_pscore", "estimated_pscore_avg") and v.min() >= 1:
                v = v.astype(int)
        elif how == "narrow" and v.dtype.kind == "i" and not ("slate_id" in d and k in ("slate_id", "position")):  # slate logs must be of type int
            v = v.astype(np.int32 if k == "reward" else np.int8)
        d[k] = v


PER_ESTIMATOR = ("estimated_rewards_by_reg_model", "estimated_pscore", "estimated_importance_weights", "action_embed", "pi_b", "p_e_a", "estimated_pscore_avg")


def snapshot(x):
    return copy.deepcopy(x)

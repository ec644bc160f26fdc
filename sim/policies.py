"""The shipped online policies, built from a JSON spec."""
import os

import numpy as np
import obp.policy
import yaml
from obp.policy import (
    BernoulliTS, EpsilonGreedy, LinEpsilonGreedy, LinTS, LinUCB, LogisticEpsilonGreedy, LogisticTS, LogisticUCB, Random,
)
from obp.policy.policy_type import PolicyType

KINDS = dict(
    egreedy=EpsilonGreedy, random=Random, bts=BernoulliTS, lin_egreedy=LinEpsilonGreedy, lin_ucb=LinUCB, lin_ts=LinTS,
    log_egreedy=LogisticEpsilonGreedy, log_ucb=LogisticUCB, log_ts=LogisticTS,
)
with open(os.path.join(os.path.dirname(obp.policy.__file__), "conf", "prior_bts.yaml")) as _f:
    PRIOR = yaml.safe_load(_f)
FREE = ("egreedy", "random", "bts")


def gen_spec(r, n_actions, dim, kinds=None):
    # LinTS decomposes nearly degenerate covariances: in higher dimensions a last-bit difference (memory alignment) changes its draws
    k = r.choice([k for k in kinds or KINDS if k != "lin_ts" or dim <= 4])
    s = dict(kind=k, n_actions=n_actions, dim=dim, len_list=r.randint(1, min(3, n_actions)), batch_size=r.choice([1, 1, 2, 3, 5, 7]),
             random_state=r.randrange(10**6), epsilon=None, alpha=None, beta=None)
    if k == "egreedy":
        s["epsilon"] = r.choice([0.0, 0.1, 0.5, 1.0])
    elif k in ("lin_egreedy", "log_egreedy"):
        s["epsilon"] = r.choice([0.0, 0.1, 0.5, 1.0])
    elif k in ("lin_ucb", "log_ucb"):
        s["epsilon"] = r.choice([0.0, 0.1, 1.0, 3.0])
    elif k == "bts" and r.random() < 0.5:
        s["alpha"] = [round(r.uniform(0.2, 5), 3) for _ in range(n_actions)]
        s["beta"] = [round(r.uniform(0.2, 5), 3) for _ in range(n_actions)]
    if k.startswith("log_") and r.random() < 0.4:
        s["lam"], s["scale"] = r.choice([0.5, 2.0, 5.0]), r.choice([0.5, 1.0, 2.0])
    return s


def production(r, s):
    """now and then, the prior used in production (its actions are the items of a campaign)"""
    if s["kind"] == "bts" and r.random() < 0.12:
        s["campaign"] = r.choice(sorted(PRIOR))
        s["n_actions"] = len(PRIOR[s["campaign"]]["alpha"])
        s["alpha"] = s["beta"] = None
    return s["n_actions"]


def prior(s):
    """(alpha, beta) of Bernoulli Thompson sampling"""
    if s.get("campaign"):
        return np.array(PRIOR[s["campaign"]]["alpha"], dtype=float), np.array(PRIOR[s["campaign"]]["beta"], dtype=float)
    one = [1.0] * s["n_actions"]
    return np.array(s["alpha"] or one), np.array(s["beta"] or one)


def make(s):
    kw = dict(n_actions=s["n_actions"], len_list=s["len_list"], batch_size=s["batch_size"], random_state=s["random_state"])
    k = s["kind"]
    if k not in FREE:
        kw["dim"] = s["dim"]
    if s.get("epsilon") is not None:
        kw["epsilon"] = float(s["epsilon"])
    if s.get("lam"):
        kw["lambda_"], kw["alpha_"] = float(s["lam"]), float(s["scale"])
    if k == "bts" and s.get("alpha"):
        kw["alpha"], kw["beta"] = np.array(s["alpha"]), np.array(s["beta"])
    if s.get("campaign"):
        kw.update(is_zozotown_prior=True, campaign=s["campaign"])
    return KINDS[k](**kw)


def is_free(s):
    return s["kind"] in FREE


def select(p, x):
    if p.policy_type == PolicyType.CONTEXT_FREE:
        return np.array(p.select_action(), copy=True)
    return np.array(p.select_action(np.array(x, dtype=float).reshape(1, -1)), copy=True)


def update(p, a, r, x):
    if p.policy_type == PolicyType.CONTEXT_FREE:
        p.update_params(action=int(a), reward=r)
    else:
        p.update_params(action=int(a), reward=r, context=np.array(x, dtype=float).reshape(1, -1))

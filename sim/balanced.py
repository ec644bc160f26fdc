"""Worlds with rational probabilities and logs in which every outcome occurs exactly in proportion to its
probability, plus the deployment of an evaluation policy in the same world by enumerating its outcomes."""
import itertools

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin

from .core import np_rng


def rational(g, k, D, lo):
    """k integer weights >= lo that sum to D"""
    w = np.full(k, lo)
    for i in g.integers(0, k, D - lo * k):
        w[i] += 1
    return w


class FreqClassifier(ClassifierMixin, BaseEstimator):
    """classifies by the frequencies seen in training: exact on a balanced log"""

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        self.t = {}
        for x, c in zip(np.asarray(X), y):
            self.t.setdefault(x.tobytes(), np.zeros(len(self.classes_)))[np.searchsorted(self.classes_, c)] += 1
        return self

    def predict_proba(self, X):
        return np.array([self.t[x.tobytes()] / self.t[x.tobytes()].sum() for x in np.asarray(X)])

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(1)]


def standard(c):
    """contexts x positions x actions x rewards; several loggers if c['K'] > 1"""
    g = np_rng("bal", c["seed"])
    nx, ll, na, K = c["nx"], c["ll"], c["na"], c["K"]
    D = c["D"]
    lo = 0 if c["holes"] else 1
    pb = np.array([[[rational(g, na, D, lo) for _ in range(ll)] for _ in range(nx)] for _ in range(K)]) / D  # K, nx, ll, na
    if c["uniform"]:
        pb = np.full((K, nx, ll, na), 1.0 / na)
        D = na
    cnt = np.rint(pb * D).astype(int)
    share = g.integers(1, 3, K)  # how much of the log each logger contributes
    wx = g.integers(1, 3, nx)
    m = c["m"]
    R = np.round(g.normal(size=(nx, ll, na, m)) * c["scale"] + c["shift"], 3)
    if c["bin"]:
        R = g.integers(0, 2, (nx, ll, na, m)).astype(float)
    rows = []
    for k in range(K):
        for _ in range(share[k]):
            for x in range(nx):
                for _ in range(wx[x]):
                    for p in range(ll):
                        for a in range(na):
                            for _ in range(cnt[k, x, p, a]):
                                for j in range(m):
                                    rows.append((k, x, p, a, R[x, p, a, j]))
    rows = [rows[i] for i in g.permutation(len(rows))]
    k, x, p, a = (np.array([r[j] for r in rows], dtype=int) for j in range(4))
    r = np.array([r[4] for r in rows])
    n = len(rows)
    X = np.round(g.normal(size=(nx, 2)), 3)
    # evaluation policy: supported by every logger that contributes
    sup = (pb > 0).all(0)  # nx, ll, na
    pe = np.zeros((nx, ll, na))
    for i in range(nx):
        for q in range(ll):
            s = np.flatnonzero(sup[i, q])
            if len(s) == 0:
                return None
            w = np.eye(len(s))[g.integers(0, len(s))] if c["det"] else rational(g, len(s), 7, 0) / 7.0
            pe[i, q, s] = w
    q = R.mean(3)
    # deployment: in every logged (context, position) play every action as often as the policy says
    value = float(np.mean([sum(pe[i, s, b] * q[i, s, b] for b in range(na)) for i, s in zip(x, p)]))
    avg = sum(share[j] * pb[j] for j in range(K)) / share.sum()
    return dict(n=n, context=X[x], action=a, position=p, reward=r, stratum=k, pscore=pb[k, x, p, a], pscore_avg=avg[x, p, a], dist=pe[x].transpose(0, 2, 1), pi_b=pb[k, x].transpose(0, 2, 1),
                q=q[x].transpose(0, 2, 1), iw=pe[x, p, a] / pb[k, x, p, a], value=value, var=[np.var((r * pe[x, p, a] / pb[k, x, p, a])[k == j]) for j in range(K)], g=g)


def embedded(c):
    """rewards depend on context and action embedding only; embeddings are drawn given the action"""
    g = np_rng("emb", c["seed"])
    nx, na, D, nd, nc = c["nx"], c["na"], c["D"], c["nd"], c["nc"]
    M = 4
    pb = np.array([rational(g, na, D, 0 if c["holes"] else 1) for _ in range(nx)])
    pea = np.array([[rational(g, nc, M, 1 if c["full"] else 0) for _ in range(nd)] for _ in range(na)]).transpose(0, 2, 1) / M  # na, nc, nd
    codes = list(itertools.product(range(nc), repeat=nd))
    R = {(x, e): round(float(g.normal() * c["scale"] + c["shift"]), 3) for x in range(nx) for e in codes}
    rows, wx = [], g.integers(1, 3, nx)
    for x in range(nx):
        for _ in range(wx[x]):
            for a in range(na):
                for e in codes:
                    k = np.prod([pea[a, e[d], d] * M for d in range(nd)]) * pb[x, a]
                    rows += [(x, a, e)] * int(round(k))
    rows = [rows[i] for i in g.permutation(len(rows))]
    x, a = np.array([r[0] for r in rows]), np.array([r[1] for r in rows])
    E = np.array([r[2] for r in rows])
    X = np.round(g.normal(size=(nx, 2)), 3)
    pi_b = pb / D
    pe = np.zeros((nx, na))
    for i in range(nx):
        s = np.flatnonzero(pi_b[i] > 0)
        pe[i, s] = np.eye(len(s))[g.integers(0, len(s))] if c["det"] else rational(g, len(s), 5, 0) / 5.0
    q = np.array([[sum(np.prod([pea[b, e[d], d] for d in range(nd)]) * R[(i, e)] for e in codes) for b in range(na)] for i in range(nx)])
    value = float(np.mean([pe[i] @ q[i] for i in x]))
    return dict(n=len(rows), context=X[x], action=a, embed=E, reward=np.array([R[(r[0], r[2])] for r in rows]), pi_b=pi_b[x][:, :, None], dist=pe[x][:, :, None], pscore=pi_b[x, a], p_e_a=pea, value=value, g=g)


def slates(c):
    g = np_rng("sl", c["seed"])
    nx, ll, na, D = c["nx"], c["ll"], c["na"], c["D"]
    S = list(itertools.product(range(na), repeat=ll)) if c["fac"] else list(itertools.permutations(range(na), ll))
    pb = np.array([rational(g, len(S), D + len(S), 0 if c["holes"] else 1) for _ in range(nx)])
    tot = D + len(S)
    rew = {}

    def reward(x, s, k):
        key = (x, k, s if c["structure"] == "standard" else s[: k + 1] if c["structure"] == "cascade" else s[k])
        if key not in rew:
            rew[key] = round(float(g.normal() * c["scale"] + c["shift"]), 3)
        return rew[key]

    rows, wx = [], g.integers(1, 3, nx)
    for x in range(nx):
        for j, s in enumerate(S):
            rows += [(x, j)] * int(pb[x, j] * wx[x])
    rows = [rows[i] for i in g.permutation(len(rows))]
    pi_b = pb / tot
    pe = np.zeros((nx, len(S)))
    for i in range(nx):
        s = np.flatnonzero(pi_b[i] > 0)
        pe[i, s] = np.eye(len(s))[g.integers(0, len(s))] if c["det"] else rational(g, len(s), 11, 0) / 11.0
    value = float(np.mean([sum(pe[x, j] * sum(reward(x, s, k) for k in range(ll)) for j, s in enumerate(S) if pe[x, j] > 0) for x, _ in rows]))

    def pre(P, x, s, k):  # probability of the first k actions of s
        return sum(P[x, j] for j, t in enumerate(S) if t[:k] == s[:k])

    def item(P, x, a, k):
        return sum(P[x, j] for j, t in enumerate(S) if t[k] == a)

    out = dict(n=len(rows), ll=ll, na=na, value=value, x=np.array([x for x, _ in rows]), action=[], reward=[], b=[[], [], []], e=[[], [], []], edist=[], g=g)
    memo = {}
    for x, j in rows:
        if (x, j) not in memo:
            s = S[j]
            z = []
            for k in range(ll):
                p0 = pre(pe, x, s, k)
                d = [sum(pe[x, i] for i, t in enumerate(S) if t[: k + 1] == s[:k] + (a,)) / p0 if p0 > 0 else 1.0 / na for a in range(na)]
                z.append((s[k], reward(x, s, k), pi_b[x, j], item(pi_b, x, s[k], k), pre(pi_b, x, s, k + 1), pe[x, j], item(pe, x, s[k], k), pre(pe, x, s, k + 1), d))
            memo[(x, j)] = z
        for z in memo[(x, j)]:
            out["action"].append(z[0])
            out["reward"].append(z[1])
            for t in range(3):
                out["b"][t].append(z[2 + t])
                out["e"][t].append(min(1.0, z[5 + t]))
            out["edist"].append(z[8])
    for k in ("action", "reward", "edist"):
        out[k] = np.array(out[k])
    out["b"] = [np.minimum(np.array(v), 1.0) for v in out["b"]]
    out["e"] = [np.array(v) for v in out["e"]]
    X = np.round(g.normal(size=(nx, 2)), 3)
    out["context"] = X[out["x"]]
    # a reward model that depends on context, position and the actions so far only
    q = {}
    qh = np.zeros((len(rows), ll, na))
    for i, (x, j) in enumerate(rows):
        for k in range(ll):
            for a in range(na):
                key = (x, S[j][:k], k, a)
                if key not in q:
                    q[key] = round(float(g.normal()), 3)
                qh[i, k, a] = q[key]
    out["q_hat"] = qh
    return out

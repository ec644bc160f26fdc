"""Data generators of the library driven with tabular collaborators, and independent formulas for
what they log.  A *table function* maps every context row to a row of a small table, so that the
oracle can look up what applied to a logged round from the logged context alone."""
import itertools
import math

import numpy as np
from scipy.special import ndtr
from sklearn.base import BaseEstimator, ClassifierMixin

from .core import np_rng

K = 7  # rows of every table


def rows_of(context):
    c = np.asarray(context, dtype=float)
    return (np.abs(np.floor(c.sum(axis=1) * 997.0)).astype(np.int64)) % K


class Table:
    """callable(context=..., ...) -> table rows"""

    def __init__(self, table):
        self.table = np.asarray(table)

    def __call__(self, context, **kw):
        return self.table[rows_of(context)].copy()


class EmbedTable:
    """reward per category; the library passes the categories' parameters and a seed per dimension"""

    def __init__(self, seed, n_cat, lo, hi):
        self.seed, self.n_cat, self.lo, self.hi = seed, n_cat, lo, hi

    def table(self, random_state):
        return np_rng("embedtable", self.seed, int(random_state)).uniform(self.lo, self.hi, size=(K, self.n_cat))

    def __call__(self, context, action_context, random_state, **kw):
        return self.table(random_state)[rows_of(context)]


class ContTable:
    """continuous actions: policy location, or reward location + slope * action"""

    def __init__(self, loc, slope=None):
        self.loc, self.slope = np.asarray(loc), None if slope is None else np.asarray(slope)

    def __call__(self, context, action=None, **kw):
        r = rows_of(context)
        return self.loc[r].copy() if action is None else self.loc[r] + self.slope[r] * np.asarray(action)


def reward_table(seed, n_actions, kind):
    g = np_rng("rewardtable", seed)
    if kind == "01":
        return g.integers(0, 2, size=(K, n_actions)).astype(float)
    if kind == "binary":
        t = g.uniform(0.02, 0.98, size=(K, n_actions))
        t[g.random(t.shape) < 0.3] = 0.0
        t[g.random(t.shape) < 0.3] = 1.0
        return t
    if kind == "prob":
        return g.uniform(0.05, 0.95, size=(K, n_actions))
    return g.uniform(-2.0, 3.0, size=(K, n_actions))


def logit_table(seed, n_actions, kind):
    g = np_rng("logittable", seed)
    if kind == "int":
        return g.integers(-2, 3, size=(K, n_actions))
    if kind == "steep":
        return g.normal(size=(K, n_actions)) * 300.0
    return g.normal(size=(K, n_actions)) * 1.5


def softmax(x):
    x = np.asarray(x, dtype=float)
    e = np.exp(x - x.max(axis=-1, keepdims=True))
    return e / e.sum(axis=-1, keepdims=True)


def normal_pdf(z):
    return np.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)


def truncated_mean(loc, std, lo=0.0):
    """mean of N(loc, std) conditioned on being at least lo"""
    a = (lo - loc) / std
    return loc + std * normal_pdf(a) / ndtr(-a)


def truncated_pdf(x, loc, std, lo, hi):
    return normal_pdf((x - loc) / std) / std / (ndtr((hi - loc) / std) - ndtr((lo - loc) / std))


class TableClassifier(BaseEstimator, ClassifierMixin):
    """predicts by context row; remembers what each (cloned) fit saw in a shared ledger"""

    ledgers = {}

    def __init__(self, key=0, k=2):
        self.key = key
        self.k = k

    def fit(self, X, y):
        led = self.ledgers.get(self.key)
        if led is not None:
            led["fits"].append((np.array(X), np.array(y)))
            if led.get("fail") is not None and len(led["fits"]) == led["fail"]:
                raise led["exc"]("injected")
        self.classes_ = np.unique(y)
        return self

    def predict(self, X):
        return (np.arange(K) * 5 + self.key)[rows_of(X)] % self.k


# --- slates --------------------------------------------------------------------------------------
def slate_probability(logits, slate, factorizable):
    """(probability of every prefix) of a slate drawn item by item from a softmax policy"""
    out, p, left = [], 1.0, list(range(len(logits)))
    for a in slate:
        s = softmax(np.asarray(logits, dtype=float)[left])
        p *= s[left.index(a)]
        out.append(p)
        if not factorizable:
            left.remove(a)
    return out


def all_slates(n, ll, factorizable):
    return list(itertools.product(range(n), repeat=ll)) if factorizable else list(itertools.permutations(range(n), ll))


def marginals(logits, ll, factorizable):
    """m[pos][a] = probability of item a at position pos"""
    n = len(logits)
    if factorizable:
        return np.tile(softmax(logits), (ll, 1))
    m = np.zeros((ll, n))
    for s in all_slates(n, ll, False):
        p = slate_probability(logits, s, False)[-1]
        for pos, a in enumerate(s):
            m[pos, a] += p
    return m


def slate_expected(base, slate, cfg, weight):
    """expected reward per position before click model, from base rewards of one round"""
    binary = cfg["rt"] == "binary"
    base = np.asarray(base, dtype=float)
    with np.errstate(divide="ignore"):
        b = np.log(base) - np.log1p(-base) if binary else base
    out = []
    for k, a in enumerate(slate):
        v = b[a]
        for j, c in enumerate(slate):
            if j == k or cfg["rs"] == "independent" or (cfg["rs"].startswith("cascade") and j > k):
                continue
            if cfg["rs"].endswith("additive"):
                v = v + weight[a, c]
            else:
                d = abs(k - j)
                v = v - b[c] * (math.exp(-d) if cfg["decay"] == "exponential" else 1.0 / (d + 1))
        out.append((1.0 / (1.0 + math.exp(-v)) if v > -700 else 0.0) if binary else max(v, 0.0))
    return np.array(out)


def click_weights(cfg):
    ll = cfg["ll"]
    w = (1.0 / np.arange(1, ll + 1)) ** cfg["eta"]
    exam = w if cfg["cm"] == "pbm" else np.ones(ll)
    attr = w if cfg["cm"] == "cascade" else np.ones(ll)
    return exam, attr


def slate_value(e, cfg):
    """expected total reward of a slate with per-position expected rewards e, click model included"""
    exam, attr = click_weights(cfg)
    e = np.asarray(e, dtype=float) * exam
    if cfg["rt"] == "continuous":
        return float(truncated_mean(e, 1.0).sum())
    total = 0.0
    for clicks in itertools.product((0, 1), repeat=cfg["ll"]):
        p, d = 1.0, 1.0
        for k, c in enumerate(clicks):
            if k and clicks[k - 1]:
                d *= attr[k]
            q = d * e[k]
            p *= q if c else 1 - q
        total += p * sum(clicks)
    return total

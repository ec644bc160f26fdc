"""Malformed calls per component: name -> fn(object, params, shared, g) that the library must reject.

Only arguments that contradict the documented types, ranges or shapes are listed, each with otherwise valid arguments."""
import numpy as np

from . import opeworld as W
from . import policies
from .components import log

COUNTS = [("zero", 0), ("negative", -3), ("text", "5"), ("fraction", 2.5), ("none", None)]


def counts(attr):
    return {f"{attr}-{k}": (lambda v: lambda o, p, sh, g: getattr(o, attr)(v))(v) for k, v in COUNTS}


def synth():
    d = counts("obtain_batch_bandit_feedback")
    d["reward-context-1d"] = lambda o, p, sh, g: o.sample_reward(g.normal(size=4), g.integers(0, p["na"], 4))
    d["reward-lengths"] = lambda o, p, sh, g: o.sample_reward(g.normal(size=(4, p["dim"])), g.integers(0, p["na"], 3))
    d["reward-float-action"] = lambda o, p, sh, g: o.sample_reward(g.normal(size=(4, p["dim"])), g.random(4))
    d["reward-action-2d"] = lambda o, p, sh, g: o.sample_reward(g.normal(size=(4, p["dim"])), g.integers(0, p["na"], (4, 1)))
    d["truth-1d"] = lambda o, p, sh, g: o.calc_ground_truth_policy_value(expected_reward=g.random(4), action_dist=np.full((4, p["na"], 1), 1 / p["na"]))
    d["truth-dist-2d"] = lambda o, p, sh, g: o.calc_ground_truth_policy_value(expected_reward=g.random((4, p["na"])), action_dist=np.full((4, p["na"]), 1 / p["na"]))
    d["truth-rounds"] = lambda o, p, sh, g: o.calc_ground_truth_policy_value(expected_reward=g.random((5, p["na"])), action_dist=np.full((4, p["na"], 1), 1 / p["na"]))
    d["truth-actions"] = lambda o, p, sh, g: o.calc_ground_truth_policy_value(expected_reward=g.random((4, p["na"] + 1)), action_dist=np.full((4, p["na"], 1), 1 / p["na"]))
    return d


def cont():
    d = counts("obtain_batch_bandit_feedback")
    d["truth-context-1d"] = lambda o, p, sh, g: o.calc_ground_truth_policy_value(g.normal(size=4), g.normal(size=4))
    d["truth-action-2d"] = lambda o, p, sh, g: o.calc_ground_truth_policy_value(g.normal(size=(4, p["dim"])), g.normal(size=(4, 1)))
    d["truth-rounds"] = lambda o, p, sh, g: o.calc_ground_truth_policy_value(g.normal(size=(4, p["dim"])), g.normal(size=3))
    d["truth-dim"] = lambda o, p, sh, g: o.calc_ground_truth_policy_value(g.normal(size=(4, p["dim"] + 1)), g.normal(size=4))
    return d


def slate():
    d = counts("obtain_batch_bandit_feedback")
    act = lambda p, g, n: np.concatenate([g.permutation(p["na"])[: p["ll"]] for _ in range(n)])  # noqa
    d["truth-context-1d"] = lambda o, p, sh, g: o.calc_ground_truth_policy_value(context=g.normal(size=4), evaluation_policy_logit_=g.normal(size=(4, p["na"])))
    d["truth-logit-1d"] = lambda o, p, sh, g: o.calc_ground_truth_policy_value(context=g.normal(size=(4, 2)), evaluation_policy_logit_=g.normal(size=4))
    d["truth-rounds"] = lambda o, p, sh, g: o.calc_ground_truth_policy_value(context=g.normal(size=(4, 2)), evaluation_policy_logit_=g.normal(size=(3, p["na"])))
    d["truth-actions"] = lambda o, p, sh, g: o.calc_ground_truth_policy_value(context=g.normal(size=(4, 2)), evaluation_policy_logit_=g.normal(size=(4, p["na"] + 1)))
    d["eval-type"] = lambda o, p, sh, g: o.generate_evaluation_policy_pscore("best", context=g.normal(size=(3, 2)), action=act(p, g, 3))
    d["eval-epsilon-high"] = lambda o, p, sh, g: o.generate_evaluation_policy_pscore("optimal", context=g.normal(size=(3, 2)), action=act(p, g, 3), epsilon=1.5)
    d["eval-epsilon-negative"] = lambda o, p, sh, g: o.generate_evaluation_policy_pscore("anti-optimal", context=g.normal(size=(3, 2)), action=act(p, g, 3), epsilon=-0.1)
    d["eval-context-1d"] = lambda o, p, sh, g: o.generate_evaluation_policy_pscore("random", context=g.normal(size=3), action=act(p, g, 3))
    return d


def multiclass():
    d = {}
    for k, v in (("high", 1.5), ("negative", -0.1), ("text", "x")):
        d["dist-alpha-" + k] = (lambda v: lambda o, p, sh, g: o.obtain_action_dist_by_eval_policy(base_classifier_e=sh.models[p["model"]], alpha_e=v))(v)
    d["dist-model"] = lambda o, p, sh, g: o.obtain_action_dist_by_eval_policy(base_classifier_e="logistic", alpha_e=0.5)
    d["truth-2d"] = lambda o, p, sh, g: o.calc_ground_truth_policy_value(g.random((o.n_rounds_ev, o.n_actions)))
    d["truth-rounds"] = lambda o, p, sh, g: o.calc_ground_truth_policy_value(g.random((o.n_rounds_ev + 1, o.n_actions, 1)))
    d["split-high"] = lambda o, p, sh, g: o.split_train_eval(eval_size=1.5)
    d["split-negative"] = lambda o, p, sh, g: o.split_train_eval(eval_size=-0.5)
    d["batch-seed"] = lambda o, p, sh, g: o.obtain_batch_bandit_feedback(random_state="x")
    return d


def online():
    d = {}
    check = lambda p: p["kind"] in ("lin_ucb", "lin_egreedy")  # noqa
    d["select-context-1d"] = lambda o, p, sh, g: (o.select_action(g.normal(size=p["dim"])), "accepted") if check(p) else None
    d["select-two-contexts"] = lambda o, p, sh, g: (o.select_action(g.normal(size=(2, p["dim"]))), "accepted") if check(p) else None
    d["select-list"] = lambda o, p, sh, g: (o.select_action([[0.5] * p["dim"]]), "accepted") if check(p) else None
    return d


def env():
    d = counts("next_bandit_round_batch")
    d["reward-context-1d"] = lambda o, p, sh, g: o.sample_reward(g.normal(size=4))
    return d


def one(v):
    """one element, anywhere, becomes v"""
    def f(x, g):
        x = x.copy()
        x[int(g.integers(0, len(x)))] = v
        return x
    return f


ROWS = {  # of logged data: name -> (array, change)
    "reward-short": ("reward", lambda x, g: x[:-1]), "action-short": ("action", lambda x, g: x[:-1]), "context-short": ("context", lambda x, g: x[1:]), "pscore-short": ("pscore", lambda x, g: x[:-1]), "position-short": ("position", lambda x, g: x[:-1]),
    "context-1d": ("context", lambda x, g: x[:, 0]), "reward-2d": ("reward", lambda x, g: x[:, None]), "action-2d": ("action", lambda x, g: x[:, None]), "pscore-2d": ("pscore", lambda x, g: x[:, None]),
    "action-float": ("action", lambda x, g: x.astype(float)), "action-negative": ("action", one(-1)), "position-negative": ("position", one(-1)), "position-float": ("position", lambda x, g: x.astype(float)),
    "pscore-zero": ("pscore", one(0.0)), "pscore-negative": ("pscore", one(-0.3)), "context-list": ("context", lambda x, g: x.tolist()), "reward-list": ("reward", lambda x, g: x.tolist()),
}


def offline():
    d = {}

    def fit(name):
        key, f = ROWS[name]

        def go(o, p, sh, g):
            if key == "position" and p["ll"] == 1:
                return None
            b = log(7, 40, p["na"], p["ll"])
            b[key] = f(b[key], g)
            o.fit(context=b["context"], action=b["action"], reward=b["reward"], pscore=b["pscore"], position=b["position"])
            return "accepted"
        return go

    for k in ROWS:
        d["fit-" + k] = fit(k)

    def high(o, p, sh, g):
        if p["ll"] == 1 or p["kind"] != "q":
            return None
        b = log(7, 40, p["na"], p["ll"])
        o.fit(context=b["context"], action=b["action"], reward=b["reward"], pscore=b["pscore"], position=one(p["ll"])(b["position"], g))
        return "accepted"

    d["fit-position-high"] = high

    def negative(o, p, sh, g):
        if p["kind"] != "ipw":
            return None
        b = log(7, 40, p["na"], p["ll"])
        o.fit(context=b["context"], action=b["action"], reward=one(-1)(b["reward"], g), pscore=b["pscore"], position=b["position"])
        return "accepted"

    def nowhere(o, p, sh, g):
        if p["ll"] == 1:
            return None
        b = log(7, 40, p["na"], p["ll"])
        o.fit(context=b["context"], action=b["action"], reward=b["reward"], pscore=b["pscore"])
        return "accepted"

    d["fit-reward-negative"], d["fit-position-none"] = negative, nowhere
    d["predict-1d"] = lambda o, p, sh, g: o.predict(g.normal(size=4))
    d["predict-dim"] = lambda o, p, sh, g: o.predict(g.normal(size=(4, 3)))
    d["sample-tau-negative"] = lambda o, p, sh, g: o.sample_action(g.normal(size=(4, 2)), tau=-1.0)
    d["sample-1d"] = lambda o, p, sh, g: o.sample_action(g.normal(size=4))
    d["score-1d"] = lambda o, p, sh, g: o.predict_score(g.normal(size=4))
    return d


def neural():
    d = {}

    def fit(name):
        key, f = ROWS[name]

        def go(o, p, sh, g):
            b = log(7, 30, p["na"])
            b[key] = f(b[key], g)
            o.fit(context=b["context"], action=b["action"], reward=b["reward"], pscore=b["pscore"])
            return "accepted"
        return go

    for k in ROWS:
        if not k.startswith("position"):
            d["fit-" + k] = fit(k)

    def other(key, f):
        def go(o, p, sh, g):
            b = log(7, 30, p["na"])
            b[key] = f(b[key], p, g)
            o.fit(context=b["context"], action=b["action"], reward=b["reward"], pscore=b["pscore"])
            return "accepted"
        return go

    d["fit-context-dim"] = other("context", lambda x, p, g: np.hstack([x, x]))
    d["predict-1d"] = lambda o, p, sh, g: o.predict(g.normal(size=4))
    d["predict-dim"] = lambda o, p, sh, g: o.predict(g.normal(size=(4, 3)))
    d["proba-1d"] = lambda o, p, sh, g: o.predict_proba(g.normal(size=4))
    d["sample-1d"] = lambda o, p, sh, g: o.sample_action(g.normal(size=4))
    d["sample-seed"] = lambda o, p, sh, g: o.sample_action(g.normal(size=(4, 2)), random_state="x")
    return d


def neuralcont():
    d = {}

    def fit(key, f):
        def go(o, p, sh, g):
            a = dict(context=g.normal(size=(30, 2)), action=g.normal(size=30), reward=g.normal(size=30), pscore=g.uniform(0.2, 1, 30))
            a[key] = f(a[key], g)
            o.fit(**a)
            return "accepted"
        return go

    for k, v in ROWS.items():
        if not k.startswith(("position", "action")):
            d["fit-" + k] = fit(*v)
    d["fit-action-short"] = fit("action", lambda x, g: x[:-1])
    d["fit-action-2d"] = fit("action", lambda x, g: x[:, None])
    d["fit-context-dim"] = fit("context", lambda x, g: np.hstack([x, x]))
    d["predict-1d"] = lambda o, p, sh, g: o.predict(g.normal(size=4))
    d["predict-dim"] = lambda o, p, sh, g: o.predict(g.normal(size=(4, 3)))
    return d


def reg():
    d = {}

    def args(p, seed=7):
        b = log(seed, 160, p["na"], p["ll"])
        kw = dict(context=b["context"], action=b["action"], position=b["position"])
        if p["kind"] == "reg":
            kw.update(reward=b["reward"], pscore=b["pscore"], action_dist=b["action_dist"])
        elif p["kind"] == "iw":
            kw.update(action_dist=b["action_dist"])
        return kw

    def go(o, p, n_folds=2, random_state=1, **kw):
        a = args(p)
        for k, f in kw.items():
            if k not in a:
                return
            a[k] = f(a[k])
        o.fit_predict(**a, n_folds=n_folds, random_state=random_state)
        return "accepted"

    for k, v in (("zero", 0), ("negative", -1), ("fraction", 1.5), ("text", "2")):
        d["folds-" + k] = (lambda v: lambda o, p, sh, g: go(o, p, n_folds=v))(v)
    d["seed-text"] = lambda o, p, sh, g: go(o, p, random_state="x")
    for k, (key, f) in ROWS.items():
        def row(o, p, sh, g, k=k, key=key, f=f):
            if key == "position" and p["ll"] == 1 or key == "pscore" and p["how"] == "normal":
                return None
            return go(o, p, **{key: lambda v: f(v, g)})
        d[k] = row
    d["action-high"] = lambda o, p, sh, g: go(o, p, action=lambda v: one(p["na"])(v, g))
    d["position-high"] = lambda o, p, sh, g: go(o, p, position=lambda v: one(p["ll"])(v, g)) if p["ll"] > 1 else None
    d["position-none"] = lambda o, p, sh, g: go(o, p, position=lambda v: None) if p["ll"] > 1 else None
    d["dist-2d"] = lambda o, p, sh, g: go(o, p, action_dist=lambda v: v[:, :, 0]) if p["how"] == "mrdr" or p["kind"] == "iw" else None
    d["dist-sum"] = lambda o, p, sh, g: go(o, p, action_dist=lambda v: one(v[0] * 0.9)(v, g)) if p["how"] == "mrdr" or p["kind"] == "iw" else None
    d["dist-none"] = lambda o, p, sh, g: go(o, p, action_dist=lambda v: None) if p["how"] == "mrdr" and p["kind"] == "reg" else None
    return d


# logged data and arguments of the OPE families: one element is wrong, anywhere
def at(x, g, v):
    x[int(g.integers(0, len(x)))] = v


def short(d, k, g):
    d[k] = d[k][:-1]


def std_corruptions():
    c = {}

    def dist_sum(log, a, g):
        d = a["action_dist"]
        d[int(g.integers(0, d.shape[0])), :, int(g.integers(0, d.shape[2]))] *= g.choice([0.5, 1.25, 0.999])

    def el(where, key, v):
        def f(log, a, g):
            d = log if where == "log" else a
            if d.get(key) is None:
                return False
            d[key] = d[key].copy()
            at(d[key], g, v(log, a) if callable(v) else v)
        return f

    def whole(where, key, f2):
        def f(log, a, g):
            d = log if where == "log" else a
            if d.get(key) is None:
                return False
            d[key] = f2(d[key])
        return f

    c["dist-sum"] = dist_sum
    c["dist-2d"] = whole("a", "action_dist", lambda v: v[:, :, 0])
    c["dist-list"] = whole("a", "action_dist", lambda v: v.tolist())
    c["position-high"] = el("log", "position", lambda log, a: a["action_dist"].shape[2])
    c["position-negative"] = el("log", "position", -1)
    c["position-float"] = whole("log", "position", lambda v: v.astype(float))
    c["position-short"] = whole("log", "position", lambda v: v[:-1])
    c["action-high"] = el("log", "action", lambda log, a: a["action_dist"].shape[1])
    c["action-negative"] = el("log", "action", -1)
    c["action-float"] = whole("log", "action", lambda v: v.astype(float))
    c["action-short"] = whole("log", "action", lambda v: v[:-1])
    c["reward-short"] = whole("log", "reward", lambda v: v[:-1])
    c["reward-2d"] = whole("log", "reward", lambda v: v[:, None])
    for w, k in (("log", "pscore"), ("a", "estimated_pscore"), ("log", "pscore_avg"), ("a", "estimated_pscore_avg")):
        c[k + "-zero"] = el(w, k, 0.0)
        c[k + "-negative"] = el(w, k, -0.25)
        c[k + "-short"] = whole(w, k, lambda v: v[:-1])
        c[k + "-2d"] = whole(w, k, lambda v: v[:, None])
    c["q-actions"] = whole("a", "estimated_rewards_by_reg_model", lambda v: np.concatenate([v, v[:, :1]], 1))
    c["q-rounds"] = whole("a", "estimated_rewards_by_reg_model", lambda v: v[:-1])
    c["q-2d"] = whole("a", "estimated_rewards_by_reg_model", lambda v: v[:, :, 0])
    c["weights-negative"] = el("a", "estimated_importance_weights", -0.01)
    c["weights-short"] = whole("a", "estimated_importance_weights", lambda v: v[:-1])
    c["embed-1d"] = whole("a", "action_embed", lambda v: v[:, 0])
    c["pib-2d"] = whole("a", "pi_b", lambda v: v[:, :, 0])
    c["pea-2d"] = whole("a", "p_e_a", lambda v: v[:, :, 0])
    c["stratum-negative"] = el("log", "stratum_idx", -1)
    c["stratum-float"] = whole("log", "stratum_idx", lambda v: v.astype(float))
    c["stratum-short"] = whole("log", "stratum_idx", lambda v: v[:-1])
    return c


def slate_corruptions():
    c = {}

    def el(where, key, v):
        def f(log, a, g):
            d = log if where == "log" else a
            d[key] = d[key].copy()
            at(d[key], g, v)
        return f

    def whole(where, key, f2):
        def f(log, a, g):
            d = log if where == "log" else a
            d[key] = f2(d[key])
        return f

    def twice(log, a, g):  # one slate shows a position twice
        ll = int(log["position"].max()) + 1
        s = int(g.integers(0, log["n_rounds"]))
        log["position"] = log["position"].copy()
        i, j = g.permutation(ll)[:2]
        log["position"][s * ll + i] = log["position"][s * ll + j]

    def uneven(where, key):
        def f(log, a, g):
            d = log if where == "log" else a
            d[key] = d[key].copy()
            i = int(g.integers(0, len(d[key])))
            d[key][i] = d[key][i] * 0.5 + 0.01
        return f

    def rising(where, key):
        def f(log, a, g):
            d = log if where == "log" else a
            ll = int(log["position"].max()) + 1
            s = int(g.integers(0, log["n_rounds"]))
            t = int(g.integers(1, ll))
            d[key] = d[key].copy()
            d[key][s * ll + t - 1], d[key][s * ll + t] = 0.2, 0.3
        return f

    c["position-twice"] = twice
    c["position-negative"] = el("log", "position", -1)
    c["position-float"] = whole("log", "position", lambda v: v.astype(float))
    c["slate-negative"] = el("log", "slate_id", -1)
    c["slate-float"] = whole("log", "slate_id", lambda v: v.astype(float))
    c["slate-short"] = whole("log", "slate_id", lambda v: v[:-1])
    c["reward-short"] = whole("log", "reward", lambda v: v[:-1])
    c["reward-2d"] = whole("log", "reward", lambda v: v[:, None])
    for t in ("pscore", "pscore_item_position", "pscore_cascade"):
        c[t + "-zero"] = el("log", t, 0.0)
        c[t + "-negative"] = el("log", t, -0.1)
        c[t + "-high"] = el("log", t, 1.25)
        c[t + "-short"] = whole("log", t, lambda v: v[:-1])
        c["evaluation_policy_" + t + "-high"] = el("a", "evaluation_policy_" + t, 1.25)
        c["evaluation_policy_" + t + "-negative"] = el("a", "evaluation_policy_" + t, -0.1)
        c["evaluation_policy_" + t + "-short"] = whole("a", "evaluation_policy_" + t, lambda v: v[:-1])
    c["pscore-uneven"] = uneven("log", "pscore")
    c["evaluation_policy_pscore-uneven"] = uneven("a", "evaluation_policy_pscore")
    c["pscore_cascade-rising"] = rising("log", "pscore_cascade")
    c["evaluation_policy_pscore_cascade-rising"] = rising("a", "evaluation_policy_pscore_cascade")
    c["action-negative"] = el("log", "action", -1)
    c["action-high"] = el("log", "action", 99)
    c["action-short"] = whole("log", "action", lambda v: v[:-1])
    c["dist-sum"] = el("a", "evaluation_policy_action_dist", 1.5)
    c["dist-short"] = whole("a", "evaluation_policy_action_dist", lambda v: v[:-1])
    c["q-short"] = whole("a", "q_hat", lambda v: v[:-1])
    return c


def cont_corruptions():
    c = {}
    c["pscore-zero"] = lambda log, a, g: at(log["pscore"], g, 0.0)
    c["pscore-negative"] = lambda log, a, g: at(log["pscore"], g, -0.5)
    for w, k in (("log", "pscore"), ("log", "reward"), ("log", "action"), ("a", "action_by_evaluation_policy"), ("a", "estimated_rewards_by_reg_model")):
        c[k + "-short"] = (lambda w, k: lambda log, a, g: short(log if w == "log" else a, k, g))(w, k)
        c[k + "-2d"] = (lambda w, k: lambda log, a, g: (log if w == "log" else a).update({k: (log if w == "log" else a)[k][:, None]}))(w, k)
    return c


CORRUPT = dict(std=std_corruptions(), multi=std_corruptions(), slate=slate_corruptions(), cont=cont_corruptions())


PSCORE = ("ipw", "snipw", "dr", "sndr", "switch", "dros", "sgipw", "sgdr") + W.TUNED
QHAT = ("dm", "dr", "sndr", "switch", "dros", "sgdr", "drt", "sdrt", "drost", "sgdrt", "m_dr", "m_bdr", "m_wdr", "kdr")
WORD = dict(q="estimated_rewards_by_reg_model", weights="estimated_importance_weights", embed="action_embed", pib="pi_b", pea="p_e_a", stratum="stratum_idx", dist="action_dist", slate="slate_id")


def uses(fam, e):
    """the inputs an estimator works with, as its documentation lists them"""
    k = e["kind"]
    if fam == "cont":
        return {"pscore", "reward", "action", "action_by_evaluation_policy"} | ({"estimated_rewards_by_reg_model"} if k == "kdr" else set())
    if fam == "slate":
        t = "pscore_item_position" if "iips" in k else "pscore_cascade" if k in ("rips", "snrips", "cdr") else "pscore"
        return {"position", "slate_id", "reward", t, "evaluation_policy_" + t} | ({"action", "action_dist", "estimated_rewards_by_reg_model"} if k == "cdr" else set())
    u = {"action_dist", "position"}
    if k != "dm":
        u |= {"action", "reward"}
    if k in QHAT:
        u.add("estimated_rewards_by_reg_model")
    if k in PSCORE or fam == "multi":
        u.add(("estimated_" if e["est"] else "") + ("pscore_avg" if k in ("m_bipw", "m_bdr") else "pscore"))
    if k == "bipw":
        u.add("estimated_importance_weights")
    if k in ("mipw", "snmipw"):
        u |= {"action_embed", "pi_b", "p_e_a"}
    if k in ("m_wipw", "m_wdr"):
        u.add("stratum_idx")
    return u


def concerns(name):
    w = name.rsplit("-", 1)[0]
    return WORD.get(w, w)


LIST = dict(synth=synth(), multi=synth(), embed=counts("obtain_batch_bandit_feedback"), cont=cont(), slate=slate(), multiclass=multiclass(), online=online(), env=env(), offline=offline(), neural=neural(), neuralcont=neuralcont(), reg=reg())

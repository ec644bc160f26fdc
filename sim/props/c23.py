import contextlib
import copy
import math

import numpy as np
import torch
from torch import nn, optim

from obp import policy as P
from obp.policy.offline import QFuncEstimator
from obp.policy.offline_continuous import QFuncEstimatorForContinuousAction

from ..core import arr_eq, np_rng, show
from ..opeworld import snapshot
from ..seams import LineFault

OBJ = ["ipw", "snipw", "ipw-os", "ipw-subgauss", "dm", "dr"]
DEFAULT = {"ipw-subgauss": 0.001, "snipw": 0.0, "ipw-os": 10000.0}


def net_of(o):
    """the network of a learner, whatever its attribute is called"""
    nets = [v for v in vars(o).values() if isinstance(v, nn.Module)]
    return nets[0] if len(nets) == 1 else None


def q_of(o):
    qs = [v for v in vars(o).values() if isinstance(v, (QFuncEstimator, QFuncEstimatorForContinuousAction))]
    return qs[0] if len(qs) == 1 else None


class Unknown(Exception):
    """the learner is built in a way the reference cannot follow: nothing is decided"""


class Seams:
    """the random choices of a fit: the split into training and validation rounds and the shuffled orders"""

    def __init__(self, seed):
        self.g = np_rng("c23seam", seed)
        self.splits, self.perms = [], []

    @contextlib.contextmanager
    def on(self):
        me, rs, it = self, torch.utils.data.random_split, torch.utils.data.RandomSampler.__iter__

        def split(dataset, lengths, *a, **k):
            lengths = [int(x) for x in lengths]
            idx = [int(i) for i in me.g.permutation(len(dataset))]
            out, at = [], 0
            for x in lengths:
                out.append(idx[at : at + x])
                at += x
            me.splits.append((lengths, out))
            return [torch.utils.data.Subset(dataset, o) for o in out]

        def shuffled(sampler):
            perm = [int(i) for i in me.g.permutation(len(sampler.data_source))]
            me.perms.append(perm)
            return iter(perm)

        torch.utils.data.random_split = split
        torch.utils.data.RandomSampler.__iter__ = shuffled
        try:
            yield self
        finally:
            torch.utils.data.random_split = rs
            torch.utils.data.RandomSampler.__iter__ = it


class Prop:
    id = "C23"
    runs = {"quick": 2500, "thorough": 60000}
    time_unit = "training steps"
    rule = ("a run trains one neural learner through a history of fits on changing logs (some interrupted at a line of the library), with other users of the global torch "
            "generator in between; every completed fit is repeated by a double-precision reference that ascends the stated objective from the state the fit started in")
    measure = "distinct (learner, objective or method, solver, activation, batches, regularisation, history shape) tuples"
    real = ["NNPolicyLearner, QFuncEstimator, ContinuousNNPolicyLearner, QFuncEstimatorForContinuousAction and torch"]
    stub = ["the shuffled orders and the validation split are drawn by the simulator"]
    assumptions = ["agreement to 1e-3 of the movement plus 5e-5", "the stopping rule is kept out (n_iter_no_change beyond the number of steps)", "the variance regulariser is that of the surrogate objective"]

    def generate(self, r, i, tier):
        kind = r.choice(["policy", "policy", "policy", "q", "cpolicy", "cpolicy", "cq"])
        p = dict(kind=kind, na=r.randint(2, 4), dim=r.randint(1, 3), net=self.gen_net(r), q=self.gen_net(r), qown=r.random() < 0.5, seed=r.randrange(10**6), seeded=r.random() < 0.7,
                 ops=[self.gen_op(r, j) for j in range(r.choice([1, 2, 3, 4]))])
        if kind == "policy":
            o = r.choice(OBJ)
            p.update(obj=o, lam=r.choice([None, None, dict(zip(OBJ, [None, 0.4, 5.0, 0.3, None, None]))[o]]), preg=r.choice([0.0, 0.0, 0.3]), vreg=r.choice([0.0, 0.0, 0.2]), ll=r.choice([1, 1, 2]))
        elif kind == "cpolicy":
            p.update(pg=r.choice(["dpg", "ipw", "dr"]), bw=r.choice([0.3, 1.0, 2.0]), space=r.choice([None, [-0.3, 0.4], [-3.0, 3.0], [0, 1]]))
        if r.random() < 0.02:
            p["na"], p["dim"] = r.choice([3, 9]), r.choice([2, 6])
            p["net"]["hidden"] = r.choice([[20], [9, 8, 7]])
            p["ops"] = p["ops"][:2]
            for o in p["ops"]:
                o["n"] = r.choice([o["n"], 70])
            p["net"]["iters"] = r.choice([p["net"]["iters"], 11])
        return p

    def gen_net(self, r):
        return dict(hidden=[r.choice([1, 3, 5]) for _ in range(r.choice([0, 1, 1, 2]))], act=r.choice(["identity", "logistic", "tanh", "relu", "elu"]), solver=r.choice(["adam", "sgd", "adagrad"]), lr=r.choice([0.01, 0.05, 0.2]), alpha=r.choice([0.0, 1e-4, 0.05]),
                    mom=r.choice([0.9, 0.5]), nest=r.random() < 0.5, b1=r.choice([0.9, 0.6]), b2=r.choice([0.999, 0.9]), bs=r.choice(["auto", "auto", 1, 4, 7, 50]), shuffle=r.random() < 0.5, iters=r.choice([1, 2, 4]), es=r.random() < 0.25, frac=r.choice([0.1, 0.3, 0.02]))

    def gen_op(self, r, j):
        k = "fit" if j == 0 else r.choice(["fit", "fit", "fit", "noise", "use"])
        return dict(op=k, s=r.randrange(10**6), n=r.choice([200, 201, 203, 210]) if r.random() < 0.06 else r.randint(2, 24), nops=r.random() < 0.15, line=r.randint(1, 400) if k == "fit" and r.random() < 0.25 else None, kind=r.choice(["exception", "interrupt", "memory"]))

    # ---------------------------------------------------------------------------------------------
    def settings(self, c):
        return dict(hidden_layer_size=tuple(c["hidden"]), activation=c["act"], solver=c["solver"], alpha=c["alpha"], batch_size=c["bs"], learning_rate_init=c["lr"], max_iter=c["iters"], shuffle=c["shuffle"], tol=1e-4, momentum=c["mom"], nesterovs_momentum=c["nest"],
                    early_stopping=c["es"], validation_fraction=c["frac"], beta_1=c["b1"], beta_2=c["b2"], epsilon=1e-3, n_iter_no_change=10**6)

    def make(self, p):
        kw = self.settings(p["net"])
        kw["random_state"] = p["seed"] if p["seeded"] else None
        if p["kind"] == "q":
            return QFuncEstimator(n_actions=p["na"], dim_context=p["dim"], **kw)
        if p["kind"] == "cq":
            return QFuncEstimatorForContinuousAction(dim_context=p["dim"], **kw)
        q = self.settings(p["q"])
        if p["qown"]:
            q["random_state"] = p["seed"] + 1
        if p["kind"] == "policy":
            return P.NNPolicyLearner(n_actions=p["na"], len_list=p["ll"], dim_context=p["dim"], off_policy_objective=p["obj"], lambda_=p["lam"], policy_reg_param=p["preg"], var_reg_param=p["vreg"], q_func_estimator_hyperparams=q if p["obj"] in ("dm", "dr") else None, **kw)
        return P.ContinuousNNPolicyLearner(dim_context=p["dim"], pg_method=p["pg"], bandwidth=p["bw"], output_space=tuple(p["space"]) if p["space"] else None, q_func_estimator_hyperparams=q if p["pg"] != "ipw" else None, **kw)

    def data(self, p, op):
        g = np_rng("c23", op["s"])
        n = op["n"]
        b = dict(context=np.round(g.normal(size=(n, p["dim"])), 3), reward=np.round(g.normal(size=n), 3) if g.random() < 0.7 else g.integers(0, 2, n).astype(float))
        if p["kind"] in ("policy", "q"):
            b["action"] = g.integers(0, p["na"], n)
        else:
            b["action"] = np.round(g.normal(size=n), 3)
        if p["kind"] in ("policy", "cpolicy") and not op["nops"]:
            b["pscore"] = np.round(g.uniform(0.1, 0.95, n), 3)
        if p["kind"] == "policy" and p["ll"] > 1:
            b["position"] = g.integers(0, p["ll"], n)
        return b

    def probe(self, p, seed):
        g = np_rng("c23x", seed)
        return np.round(g.normal(size=(6, p["dim"])), 3), np.round(g.normal(size=6), 3)

    def outputs(self, p, o, ctx, seed=0):
        x, a = self.probe(p, seed)
        t = torch.from_numpy(x).float()
        if p["kind"] == "policy":
            return np.asarray(ctx.call("predict_proba", o.predict_proba, x))[:, :, 0].astype(float)
        if p["kind"] == "cpolicy":
            return np.asarray(ctx.call("predict", o.predict, x)).astype(float)
        if p["kind"] == "q":
            return ctx.call("predict", o.predict, t).detach().numpy().astype(float)
        return ctx.call("predict", o.predict, t, torch.from_numpy(a).float()).detach().numpy().astype(float)

    def run(self, p, ctx):
        torch.manual_seed(p["seed"])
        o = ctx.call("constructor", self.make, p)
        shape = []
        for op in p["ops"]:
            if op["op"] == "noise":
                torch.manual_seed(op["s"])
                torch.rand(5)
                ctx.fault("foreign-generator-use")
            elif op["op"] == "use":
                self.use(p, op, o, ctx)
            else:
                done = self.fit(p, op, o, ctx)
                if done is None:  # training diverged: nothing more to learn from this learner
                    break
                shape.append("fit" if done else "cut")
        c = p["net"]
        ctx.cover(p["kind"], p.get("obj", p.get("pg")), c["solver"], c["act"], c["bs"] == "auto", c["es"], p.get("preg"), p.get("vreg"), tuple(shape))

    def use(self, p, op, o, ctx):
        x, _ = self.probe(p, op["s"])
        keep = x.copy()
        if p["kind"] == "policy":
            pr, d = self.outputs(p, o, ctx, op["s"]), np.asarray(ctx.call("predict", o.predict, x))
            ctx.check((pr >= 0).all() and np.allclose(pr.sum(1), 1, atol=1e-5), "not-a-distribution", lambda: f"predict_proba gives {show(pr)}")
            ctx.check(d.shape[:2] == pr.shape and arr_eq(d.sum(1), np.ones_like(d.sum(1))) and set(np.unique(d)) <= {0.0, 1.0}, "not-an-action", lambda: f"predict gives {show(d)}")
            best = (d[:, :, 0] * pr).sum(1)
            ctx.check((best >= pr.max(1) - 1e-6).all(), "not-the-best-action", lambda: f"predict chooses {show(d[:, :, 0])} for the probabilities {show(pr)}")
        elif p["kind"] == "cpolicy" and p["space"]:
            y = self.outputs(p, o, ctx, op["s"])
            ctx.check((y >= p["space"][0] - 1e-6).all() and (y <= p["space"][1] + 1e-6).all(), "outside-the-space", lambda: f"predict gives {show(y)} outside {p['space']}")
        ctx.check(arr_eq(x, keep), "input-modified", "the contexts handed in were changed")

    # ---------------------------------------------------------------------------------------------
    def fit(self, p, op, o, ctx):
        b = self.data(p, op)
        keep = snapshot(b)
        before = self.outputs(p, o, ctx)
        net, q = net_of(o), q_of(o)
        start = (copy.deepcopy(net).double() if net is not None else None, copy.deepcopy(net_of(q)).double() if q is not None and net_of(q) is not None else None)
        seams = Seams(op["s"])
        ok = True
        with seams.on():
            if op["line"]:
                lf = LineFault(op["line"], op["kind"])

                def cut():
                    with lf:
                        o.fit(**b)

                ok, _ = ctx.attempt("fit", cut)
                if lf.fired:
                    ctx.fault("cut-" + op["kind"])
            else:
                ctx.call("fit", o.fit, **b)
        for k in keep:
            ctx.check(arr_eq(b[k], keep[k]), "input-modified", lambda: f"fit changed the caller's {k}")
        if not ok:
            return False
        after = self.outputs(p, o, ctx)
        try:
            want = self.reference(p, op, b, start, before, seams, ctx)
        except Unknown as e:
            ctx.log("undecided", str(e))
            return True if np.isfinite(after).all() else None
        if not np.isfinite(want).all() or np.abs(want).max() > 1e3:
            return None
        mv = float(np.abs(want - before).max())
        dev = float(np.abs(after - want).max()) if after.shape == want.shape else math.inf
        tol = 5e-5 + 1e-3 * mv
        if not dev <= tol:  # single precision may amplify: how far apart do starts that differ by rounding end?
            try:
                tol += 20 * max(float(np.abs(self.reference(p, op, b, start, before, seams, ctx, jitter=j) - want).max()) for j in (-1, 1, 2, 3, 4, 5))
            except Unknown as e:
                ctx.log("undecided", str(e))
                return True
            if not tol < 0.02:
                ctx.log("undecided", "ill-conditioned")
                return True
        ctx.log(round(mv, 3))
        ctx.check(dev <= tol, "not-the-gradient", lambda: f"after the fit the learner gives {show(after)}, ascending its objective from where it started gives {show(want)} (before: {show(before)})")
        return True

    # --- the reference ---------------------------------------------------------------------------
    def reference(self, p, op, b, start, before, seams, ctx, jitter=0):
        net, q = start
        if net is None:
            raise Unknown("no single network")
        dt = torch.float64 if jitter >= 0 else torch.float32
        net, q = copy.deepcopy(net).to(dt), copy.deepcopy(q).to(dt) if q is not None else None
        g = torch.Generator()
        g.manual_seed(abs(jitter))

        def rounding(*models):
            with torch.no_grad():
                for w in [w for m in models if m is not None for w in m.parameters()]:
                    if not float(w.abs().max()) < 50:
                        raise Unknown("diverging")
                    if jitter > 0:
                        w += 2e-7 * torch.randn(w.shape, generator=g, dtype=w.dtype) * (w.abs() + 0.1)

        rounding(net, q)
        x = torch.from_numpy(b["context"]).to(dt)
        r = torch.from_numpy(b["reward"]).to(dt)
        act = torch.from_numpy(b["action"])
        act = act.long() if p["kind"] in ("policy", "q") else act.to(dt)
        n = len(r)
        splits, perms = list(seams.splits), list(seams.perms)
        xt, at = (torch.from_numpy(v).to(dt) for v in self.probe(p, 0))
        feed = (lambda m, X, A: m(torch.cat((X, A.unsqueeze(-1)), 1)).flatten()) if p["kind"] in ("cpolicy", "cq") else None

        def clip(y):
            return y if not p.get("space") else torch.clamp(y, min=p["space"][0], max=p["space"][1])

        def train(m, c, loss):
            kw = dict(lr=c["lr"], weight_decay=c["alpha"])
            if c["solver"] == "sgd":
                opt = optim.SGD(m.parameters(), momentum=c["mom"], nesterov=c["nest"], **kw)
            elif c["solver"] == "adagrad":
                opt = optim.Adagrad(m.parameters(), eps=1e-3, **kw)
            else:
                opt = optim.Adam(m.parameters(), betas=(c["b1"], c["b2"]), eps=1e-3, **kw)
            bs = min(200, n) if c["bs"] == "auto" else c["bs"]
            rounds, held = list(range(n)), []
            if c["es"]:
                if not splits:
                    raise Unknown("validation rounds chosen elsewhere")
                lengths, parts = splits.pop(0)
                size = max(int(n * c["frac"]), 1)
                ctx.check(lengths == [n - size, size], "wrong-validation-part", lambda: f"{n} rounds with a validation fraction {c['frac']} are split into {lengths}")
                rounds, held = parts
            for _ in range(c["iters"]):
                order = range(len(rounds))
                if c["shuffle"]:
                    order = self.next_order(perms, len(rounds), bs)
                order = [rounds[i] for i in order]
                for s in range(0, len(order), bs):
                    opt.zero_grad()
                    loss(order[s : s + bs]).backward()
                    opt.step()
                    rounding(m)
                    ctx.tick()
                if c["es"] and c["shuffle"]:
                    self.next_order(perms, len(held), bs)

        kind = p["kind"]
        if kind in ("q", "cq"):
            out = (lambda X, A: net(X)) if kind == "q" else (lambda X, A: feed(net, X, A))
            self.same(out(xt, at), before)
            train(net, p["net"], lambda i: ((r[i] - (net(x[i])[torch.arange(len(i)), act[i]] if kind == "q" else feed(net, x[i], act[i]))) ** 2).mean())
            return out(xt, at).detach().numpy()
        ps = torch.from_numpy(b["pscore"]).to(dt) if "pscore" in b else torch.ones(n).to(dt) / (p["na"] if kind == "policy" else 1)
        if kind == "cpolicy":
            self.same(clip(net(xt).flatten()), before)
            if p["pg"] != "ipw":
                if q is None:
                    raise Unknown("no reward network")
                train(q, p["q"], lambda i: ((r[i] - feed(q, x[i], act[i])) ** 2).mean())

            def value(i):
                y = clip(net(x[i]).flatten())
                if p["pg"] == "dpg":
                    return feed(q, x[i], y)
                k = torch.exp(-0.5 * ((y - act[i]) / p["bw"]) ** 2) / math.sqrt(2 * math.pi) / p["bw"] / ps[i]
                if p["pg"] == "ipw":
                    return k * r[i]
                qy = feed(q, x[i], y)
                return k * (r[i] - qy) + qy

            train(net, p["net"], lambda i: -value(i).mean())
            return clip(net(xt).flatten()).detach().numpy()
        probs = net
        if not self.close(net(xt), before):
            probs = lambda X: torch.softmax(net(X), 1)  # noqa: E731
        self.same(probs(xt), before)
        if p["obj"] in ("dm", "dr"):
            if q is None:
                raise Unknown("no reward network")
            train(q, p["q"], lambda i: ((r[i] - q(x[i])[torch.arange(len(i)), act[i]]) ** 2).mean())
        o, lam = p["obj"], p["lam"] if p["lam"] is not None else DEFAULT.get(p["obj"])

        def values(pi, i):
            iw = pi[torch.arange(len(i)), act[i]] / ps[i]
            if o == "ipw":
                return iw * r[i]
            if o == "snipw":
                return iw * (r[i] - lam)
            if o == "ipw-os":
                return lam * iw / (iw**2 + lam) * r[i]
            if o == "ipw-subgauss":
                return iw / (1 - lam + lam * iw) * r[i]
            qh = q(x[i]).detach()
            v = (qh * pi).sum(1)
            return v if o == "dm" else v + iw * (r[i] - qh[torch.arange(len(i)), act[i]])

        def loss(i):
            pi = probs(x[i])
            if float(pi.detach().min()) < 1e-25:
                raise Unknown("probabilities below single precision")
            out = -values(pi, i).mean()
            if p["preg"]:
                out = out + p["preg"] * torch.log((pi[torch.arange(len(i)), act[i]] / ps[i]).mean())
            if p["vreg"] and len(i) > 1:
                leaf = pi.detach().clone().requires_grad_(True)
                g = torch.autograd.grad(values(leaf, i).sum(), leaf)[0]
                out = out + p["vreg"] * torch.var((g * leaf.detach() * torch.log(pi)).sum(1))
            return out

        train(net, p["net"], loss)
        return probs(xt).detach().numpy()

    def next_order(self, perms, n, bs):
        """a shuffled order; it does not matter when all rounds are in one batch"""
        if perms and len(perms[0]) == n:
            return perms.pop(0)
        if bs >= n:
            return list(range(n))
        raise Unknown("rounds shuffled elsewhere")

    def close(self, a, b):
        a = a.detach().numpy()
        return a.shape == b.shape and bool(np.allclose(a, b, atol=1e-4, rtol=1e-4))

    def same(self, a, b):
        if not self.close(a, b):
            raise Unknown("the network is read in another way")

    def simplify(self, plan):
        for k in ("net", "q"):
            for f, v in (("hidden", []), ("act", "identity"), ("solver", "sgd"), ("alpha", 0.0), ("bs", "auto"), ("shuffle", False), ("es", False), ("iters", 1)):
                if plan[k][f] != v:
                    yield dict(plan, **{k: dict(plan[k], **{f: v})})
        for k, v in (("preg", 0.0), ("vreg", 0.0), ("ll", 1), ("dim", 1)):
            if plan.get(k, v) != v:
                yield dict(plan, **{k: v})
        for i, o in enumerate(plan["ops"]):
            if o["n"] > 6:
                yield dict(plan, ops=plan["ops"][:i] + [dict(o, n=6)] + plan["ops"][i + 1 :])


PROP = Prop()

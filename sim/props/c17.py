import numpy as np

from obp import dataset as D

from .. import gens as G
from ..core import SimFault, arr_eq, digest, np_rng, show
from ..opeworld import snapshot
from ..seams import LineFault

SIGMA = 7.5


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * np.maximum(np.abs(b), 1e-6)))


class Prop:
    id = "C17"
    runs = {"quick": 5000, "thorough": 80000}
    time_unit = "logged slates / rounds"
    rule = ("a run draws batches from one generator and, in between, asks it for the probabilities of evaluation policies on logged and on arbitrary slates, some of "
            "these calls interrupted; every answer is compared with the enumerated probabilities of deploying the policy item by item, and the batches with those "
            "of a twin generator that was never asked")
    measure = "distinct (generator, question, policy shape, factorizable, positions, interrupted) tuples"
    real = ["SyntheticSlateBanditDataset: obtain_pscore_given_evaluation_policy_logit, calc_evaluation_policy_action_dist, generate_evaluation_policy_pscore, calc_ground_truth_policy_value; MultiClassToBanditReduction.obtain_action_dist_by_eval_policy; linear_behavior_policy_logit"]
    stub = ["behaviour and reward functions: tables over contexts", "classifiers: tables, failing on command"]
    assumptions = ["logits stay within +-300 of each other and below the clipping value where one is given", "base expected rewards of different items differ"]

    def generate(self, r, i, tier):
        kind = r.choice(["slate", "slate", "slate", "slate", "multiclass"])
        na = r.randint(2, 5)
        p = dict(kind=kind, seed=r.choice([0, 1, 12345, r.randrange(10**6)]), t=r.randrange(10**6), na=na, dim=r.randint(1, 2), fac=r.random() < 0.35, bf=r.random() < 0.8, rt=r.choice(["binary", "continuous"]),
                 ops=[self.gen_op(r) for _ in range(r.choice([2, 4, 6, 8]))])
        p["ll"] = r.randint(2, 4) if p["fac"] else r.randint(2, max(2, min(4, na)))
        if not p["fac"]:
            p["na"] = max(na, p["ll"])
        if r.random() < 0.02:
            p["dim"] = r.choice([2, 6])
            p["na"], p["ll"] = (3, 5) if p["fac"] else r.choice([(5, 5), (8, 3), (12, 2)])
        if kind == "multiclass":
            p.update(k=r.randint(2, 5), m=r.choice([10, 24]), ab=r.choice([0.0, 0.3, 0.9]))
        return p

    def gen_op(self, r):
        return dict(op=r.choice(["batch", "batch", "pscore", "pscore", "pscore", "dist", "dist", "greedy", "greedy", "value"]), n=r.choice([1, 2, 7]), s=r.randrange(10**6), policy=r.choice(["soft", "soft", "behaviour", "flat", "sharp", "int"]),
                    slates=r.choice(["log", "log", "any", "all"]), item=r.random() < 0.7, clip=r.choice([None, None, 100.0, 700.0]), eps=r.choice([0.0, 0.1, 0.5, 1.0]), which=r.choice(["optimal", "anti-optimal", "random"]),
                    line=r.randint(1, 120) if r.random() < 0.25 else None, kind=r.choice(["interrupt", "memory", "exception"]), alpha=r.choice([0.0, 0.25, 0.8, 1.0]), fail=r.random() < 0.2)

    def run(self, p, ctx):
        getattr(self, p["kind"])(p, ctx)

    def disturbed(self, op, ctx, fn, *a, **k):
        """perhaps interrupt the call first; then it must succeed"""
        hit = False
        if op["line"]:
            f = LineFault(op["line"], op["kind"])

            def cut():
                with f:
                    return fn(*a, **k)

            ok, res = ctx.attempt("interrupted question", cut)
            if ok:
                return res, False
            ctx.fault("interrupted-" + op["kind"])
            hit = True
        return ctx.call("question", fn, *a, **k), hit

    # ---------------------------------------------------------------------------------------------
    def make(self, p, ctx):
        base = G.reward_table(p["t"], p["na"], "prob" if p["rt"] == "binary" else "cont")
        bf = G.logit_table(p["t"] + 1, p["na"], "soft") if p["bf"] else None
        ds = ctx.call("SyntheticSlateBanditDataset", D.SyntheticSlateBanditDataset, n_unique_action=p["na"], len_list=p["ll"], dim_context=p["dim"], reward_type=p["rt"], reward_structure="independent", base_reward_function=G.Table(base),
                      behavior_policy_function=None if bf is None else G.Table(bf), is_factorizable=p["fac"], random_state=p["seed"])
        return ds, base, bf

    def slate(self, p, ctx):
        ds, base, bf = self.make(p, ctx)
        twin, _, _ = self.make(p, ctx)
        na, ll, fac = p["na"], p["ll"], p["fac"]
        every = G.all_slates(na, ll, fac)
        log = None
        for op in p["ops"]:
            g = np_rng("c17", op["s"])
            if op["op"] == "batch" or log is None:
                log = ctx.call("obtain_batch_bandit_feedback", ds.obtain_batch_bandit_feedback, op["n"], return_pscore_item_position=op["item"])
                ref = ctx.call("obtain_batch_bandit_feedback", twin.obtain_batch_bandit_feedback, op["n"], return_pscore_item_position=op["item"])
                ctx.check(digest(log) == digest(ref), "questions-change-data", lambda: "after questions about evaluation policies the generator draws other data than a generator that was never asked")
                ctx.tick(op["n"])
                if op["op"] == "batch":
                    continue
            x = np.asarray(log["context"])
            A = np.asarray(log["action"]).reshape(-1, ll)
            rows = G.rows_of(x)
            if op["slates"] == "any":
                A = np.array([every[int(j)] for j in g.integers(0, len(every), len(x))])
            elif op["slates"] == "all" and len(every) <= 130:
                A = np.array(every)
                rows = np.full(len(A), rows[0])
                x = np.repeat(x[:1], len(A), axis=0)
            behave = op["policy"] == "behaviour"
            if behave:
                T = bf if bf is not None else np.zeros((G.K, na))
            elif op["policy"] == "flat":
                T = np.full((G.K, na), float(g.integers(-3, 4)))
            elif op["policy"] == "sharp":
                T = g.normal(size=(G.K, na)) * 20.0
            else:
                T = G.logit_table(op["s"], na, op["policy"])
            lg = T[rows]
            args = dict(action=A.reshape(-1).copy(), logit=lg.copy(), context=x.copy())
            keep = snapshot(args)
            n = len(A)
            if op["op"] == "pscore":
                (ps, pi, pc), hit = self.disturbed(op, ctx, ds.obtain_pscore_given_evaluation_policy_logit, args["action"], args["logit"], return_pscore_item_position=op["item"], clip_logit_value=op["clip"])
                pre = np.array([G.slate_probability(lg[i], A[i], fac) for i in range(n)])
                self.same(ctx, pc, pre, A, "pscore_cascade", "the probabilities of the top items")
                self.same(ctx, ps, np.repeat(pre[:, -1:], ll, axis=1), A, "pscore", "the probability of the slate")
                if op["item"]:
                    memo = {k: G.marginals(T[k], ll, fac) for k in set(rows.tolist())}
                    self.same(ctx, pi, np.array([[memo[rows[i]][q][A[i, q]] for q in range(ll)] for i in range(n)]), A, "pscore_item_position", "the probability of the item at its position")
                else:
                    ctx.check(pi is None, "pscore_item_position", "given although not asked for")
                if behave and op["slates"] == "log":
                    ctx.check(close(ps, log["pscore"], 1e-9) and close(pc, log["pscore_cascade"], 1e-9), "behaviour-policy", "the behaviour policy has other probabilities as evaluation policy than as logged")
                    ctx.check(not op["item"] or log["pscore_item_position"] is None or close(pi, log["pscore_item_position"], 1e-9), "behaviour-policy", "the behaviour policy has other position-wise probabilities than logged")
            elif op["op"] == "dist":
                d, hit = self.disturbed(op, ctx, ds.calc_evaluation_policy_action_dist, args["action"], args["logit"])
                d = np.asarray(d)
                ctx.check(d.shape == (n * ll * na,), "shape", lambda: f"action distribution of shape {d.shape}")
                d = d.reshape(n, ll, na)
                for i in range(n):
                    left = list(range(na))
                    for q in range(ll):
                        want = np.zeros(na)
                        want[left] = G.softmax(lg[i][left])
                        ctx.check(close(d[i, q], want, 1e-9), "action-dist", lambda: f"slate {A[i].tolist()}, position {q}: stated next-item probabilities {show(d[i, q])}, deploying the policy gives {show(want)}")
                        if not fac:
                            left.remove(int(A[i, q]))
            elif op["op"] == "greedy":
                if op["slates"] == "any" and op["s"] % 2:  # make sure that greedy slates occur
                    for i in range(n):
                        o = np.argsort(base[rows[i]] * (-1 if op["which"] == "optimal" else 1))
                        A[i] = np.full(ll, o[0]) if fac else o[:ll]
                        if g.random() < 0.4:
                            A[i, -1] = o[-1]
                    args["action"] = A.reshape(-1).copy()
                    keep = snapshot(args)
                (ps, pi, pc), hit = self.disturbed(op, ctx, ds.generate_evaluation_policy_pscore, op["which"], args["context"], args["action"], op["eps"])
                e = 1.0 if op["which"] == "random" else op["eps"]
                flat = np.zeros(na)
                W = [np.zeros((n, ll)) for _ in range(3)]
                mflat = G.marginals(flat, ll, fac)
                for i in range(n):
                    o = np.argsort(base[rows[i]] * (-1 if op["which"] == "optimal" else 1))
                    best = [int(o[0])] * ll if fac else [int(v) for v in o[:ll]]
                    hitq = [int(A[i, q]) == best[q] for q in range(ll)]
                    pre = G.slate_probability(flat, A[i], fac)
                    for q in range(ll):
                        W[0][i, q] = e * pre[-1] + (1 - e) * all(hitq)
                        W[1][i, q] = e * mflat[q][A[i, q]] + (1 - e) * hitq[q]
                        W[2][i, q] = e * pre[q] + (1 - e) * all(hitq[: q + 1])
                for got, want, nm in zip((ps, pi, pc), W, ("pscore", "pscore_item_position", "pscore_cascade")):
                    self.same(ctx, got, want, A, nm, f"the probabilities of the {op['which']} policy with exploration {e}", absolute=True)
            else:
                v, hit = self.disturbed(op, ctx, ds.calc_ground_truth_policy_value, args["context"], args["logit"])
                want = np.mean([sum(G.slate_probability(lg[i], s, fac)[-1] * G.slate_value(base[rows[i]][list(s)] if p["rt"] == "binary" else np.maximum(base[rows[i]][list(s)], 0), dict(p, cm=None, eta=1.0)) for s in every) for i in range(n)]) if len(every) * n <= 400 else v
                ctx.check(abs(v - want) <= 4e-3 * max(1.0, abs(want)), "value", lambda: f"ground-truth value {v}, deploying gives {want}")
            for k in args:
                ctx.check(arr_eq(args[k], keep[k]), "caller-data", lambda: f"`{k}` of the caller was modified by {op['op']}")
            ctx.cover("slate", op["op"], op["policy"] if op["op"] in ("pscore", "dist") else op["which"] if op["op"] == "greedy" else None, fac, ll, hit, op["slates"])
            ctx.log(op["op"], n)
            ctx.tick(n)

    def same(self, ctx, got, want, A, name, what, absolute=False):
        n, ll = want.shape
        ctx.check(np.shape(got) == (n * ll,), "shape", lambda: f"{name} has shape {np.shape(got)}, not ({n * ll},)")
        got = np.asarray(got, dtype=float).reshape(n, ll)
        bad = ~(np.abs(got - want) <= 1e-8 * (1.0 if absolute else np.maximum(np.abs(want), 1e-12)))
        ctx.check(not bad.any(), name, lambda: (lambda i: f"slate {A[i].tolist()}: {name} {show(got[i])}, {what}: {show(want[i])}")(int(np.argmax(bad.any(1)))))

    # --- classification data -------------------------------------------------------------------------
    def multiclass(self, p, ctx):
        g = np_rng("c17mc", p["t"])
        k, m = p["k"], p["m"]
        y = g.permutation(np.arange(m) % k)
        X = g.normal(size=(m, 2))
        key = 10**7 + p["t"]
        led = dict(fits=[], exc=SimFault)
        cb = G.TableClassifier(key, k)
        G.TableClassifier.ledgers[key] = led
        try:
            def make():
                d = ctx.call("MultiClassToBanditReduction", D.MultiClassToBanditReduction, X=X, y=y, base_classifier_b=cb, alpha_b=p["ab"])
                ctx.call("split_train_eval", d.split_train_eval, eval_size=0.5, random_state=p["seed"])
                return d

            ds, twin = make(), make()
            where = {X[i].tobytes(): i for i in range(m)}
            for op in p["ops"]:
                rs = op["s"] % 1000
                if op["op"] == "batch":
                    a, b = ds.obtain_batch_bandit_feedback(random_state=rs), twin.obtain_batch_bandit_feedback(random_state=rs)
                    ctx.check(digest(a) == digest(b), "questions-change-data", "after questions about evaluation policies the generator draws other data")
                    log = a
                    continue
                log = ctx.call("obtain_batch_bandit_feedback", ds.obtain_batch_bandit_feedback, random_state=rs)
                ev = np.array([where[r.tobytes()] for r in np.asarray(log["context"])])
                tr = sorted(set(range(m)) - set(ev.tolist()))
                own = op["policy"] == "behaviour"
                ekey = key if own else 2 * 10**7 + op["s"]
                led2 = dict(fits=[], exc=SimFault, fail=1 if op["fail"] else None)
                G.TableClassifier.ledgers[ekey] = led2
                al = p["ab"] if own else op["alpha"]
                ask = lambda: ds.obtain_action_dist_by_eval_policy(base_classifier_e=None if own else G.TableClassifier(ekey, k), alpha_e=al)  # noqa
                if op["fail"]:
                    ok, _ = ctx.attempt("eval policy with failing classifier", ask)
                    if not ok:
                        ctx.fault("model-fit-failed")
                    led2["fail"] = None
                d, hit = self.disturbed(op, ctx, ask)
                pred = (np.arange(G.K) * 5 + ekey)[G.rows_of(X[ev])] % k
                want = np.full((len(ev), k, 1), (1 - al) / k)
                want[np.arange(len(ev)), pred, 0] += al
                ctx.check(np.shape(d) == want.shape and close(d, want, 1e-12), "action-dist", lambda: f"stated distribution {show(np.asarray(d)[:2])}, the classifier's policy is {show(want[:2])}")
                ctx.check(not own or close(d, log["pi_b"], 1e-12), "behaviour-policy", "the behaviour policy has another distribution as evaluation policy than as logged")
                fx, fy = led2["fits"][-1]
                rows = [where[r.tobytes()] for r in fx]
                ctx.check(sorted(rows) == tr and np.array_equal(fy, y[rows]), "trained-on-evaluation", "the evaluation policy's classifier was not trained on exactly the training part")
                ctx.cover("multiclass", k, own, al, op["fail"], hit)
                ctx.tick(len(ev))
                ctx.log("dist", digest(d))
                if ekey != key:
                    del G.TableClassifier.ledgers[ekey]
                else:
                    G.TableClassifier.ledgers[key] = led
        finally:
            for kk in [kk for kk in G.TableClassifier.ledgers if kk >= 10**7]:
                del G.TableClassifier.ledgers[kk]

    def simplify(self, plan):
        for k, v in (("fac", False), ("bf", True), ("dim", 1)):
            if plan[k] != v and not (k == "fac" and plan["na"] < plan["ll"]):
                yield dict(plan, **{k: v})


PROP = Prop()

import numpy as np
from scipy.optimize import minimize

from .. import policies
from ..core import arr_eq, np_rng, show


def valid_list(ctx, sel, n_actions, len_list, what):
    s = np.asarray(sel)
    ok = s.shape == (len_list,) and s.dtype.kind in "iu" and len(set(s.tolist())) == len_list and s.min() >= 0 and s.max() < n_actions
    ctx.check(bool(ok), "invalid-choice", lambda: f"{what}: {show(s)} is not a list of {len_list} distinct actions below {n_actions}")


def is_ranking(sel, score, tol=1e-7):
    """the list is a best-first ranking of the scores, ties (within tol) in any order"""
    s = list(np.asarray(sel).tolist())
    left = set(range(len(score)))
    for a in s:
        best = max(score[j] for j in left)
        if score[a] < best - tol * (1 + abs(best)):
            return False
        left.remove(a)
    return True


GREEDY = ("egreedy", "lin_egreedy", "log_egreedy")


class Prop:
    id = "C05"
    runs = {"quick": 3000, "thorough": 120000}
    time_unit = "policy calls"
    rule = ("a run feeds a shipped policy a random history of choices and (delayed, reordered) feedback, and a twin the same feedback "
            "only when a batch is complete; then overwhelming evidence for one action; non-trivial when at least one batch completed")
    measure = "distinct (policy, batch size, list length, feedback pending in the open batch, completed batches, all actions seen) tuples"
    real = ["all nine shipped online policies"]
    stub = []
    assumptions = ["scores closer than 1e-7 count as ties", "exploration frequency is judged by a 7-sigma bound",
                   "logistic policies stop their optimiser early: their scores are compared with fully optimised ones to 0.02",
                   "sampling policies are compared with draws from the posterior by a 7.5-sigma bound"]

    def generate(self, r, i, tier):
        na, dim = (r.randint(2, 6), r.randint(1, 4)) if r.random() < 0.985 else (r.choice([10, 17, 30]), r.choice([6, 9]))
        s = policies.gen_spec(r, na, dim)
        na = policies.production(r, s)
        s["batch_size"] = r.choice([1, 2, 3, 4, 5, 7, 10])
        large = r.random() < 0.01
        if large:
            s["batch_size"] = r.choice([64, 300, 700])
        s["len_list"] = r.randint(1, na)
        if s["epsilon"] is not None and s["kind"] != "random" and r.random() < 0.5:
            s["epsilon"] = 0.0 if s["kind"] in ("egreedy", "lin_egreedy", "log_egreedy") else r.choice([0.1, 1.0])
        evs, pend = [], []
        cover = r.random() < 0.6  # touch every action early, so that greedy choices start
        n = r.choice([5, 15, 40])
        if s["kind"] == "bts":
            reward = r.choice([lambda: int(r.random() < 0.6), lambda: round(r.random(), 3)])
        elif s["kind"].startswith("log_"):
            reward = lambda: int(r.random() < 0.6)  # noqa
        else:
            reward = r.choice([lambda: int(r.random() < 0.6), lambda: round(r.uniform(-1, 3), 3), lambda: r.random() < 0.6])
        if large:
            evs = [dict(e="update", a=r.randrange(na), y=reward(), x=r.randrange(10**6)) for _ in range(s["batch_size"])]
        if cover:
            acts = list(range(na)) * r.randint(1, 3)
            r.shuffle(acts)
            pend = [[a, reward(), r.randrange(10**6)] for a in acts]
        for _ in range(n):
            k = r.random()
            if k < 0.4 or not pend:
                evs.append(dict(e="select", x=r.randrange(10**6)))
                pend.append([r.randrange(na), reward(), r.randrange(10**6)])
            else:
                a, y, x = pend.pop(r.randrange(len(pend)))
                evs.append(dict(e="update", a=a, y=y, x=x))
        return dict(spec=s, events=evs, probe=r.randrange(10**6), best=r.randrange(na), evidence=r.random() < 0.4, freq=r.random() < 0.3,
                    many=s["kind"] not in ("lin_ucb", "log_ucb") and r.random() < 0.03)

    def x(self, s, key):
        return np.round(np_rng("x", key).normal(size=s["dim"]), 6)

    def scores(self, s, done, x, explore=False):
        """scores by definition, from all completed feedback; None when the choice is random by design"""
        k, na = s["kind"], s["n_actions"]
        if k in GREEDY and s["epsilon"] > 0 and not explore:
            return None
        if k == "egreedy":
            cnt, tot = np.zeros(na), np.zeros(na)
            for a, y, _ in done:
                cnt[a] += 1
                tot[a] += y
            return tot / cnt if cnt.min() > 0 else None
        if k in ("lin_egreedy", "lin_ucb"):
            out = []
            for a in range(na):
                A, b = np.eye(s["dim"]), np.zeros(s["dim"])
                for a_, y, z in done:
                    if a_ == a:
                        A += np.outer(z, z)
                        b += y * z
                th = np.linalg.solve(A, b)
                out.append(x @ th + (s["epsilon"] * np.sqrt(x @ np.linalg.solve(A, x)) if k == "lin_ucb" else 0.0))
            return np.array(out)
        if k in ("log_egreedy", "log_ucb"):
            L = self.laplace(s, done)
            z = np.array([x @ m for m, _ in L])
            return 1 / (1 + np.exp(-z)) + (s["epsilon"] * np.array([np.sqrt((x**2 / q).sum()) for _, q in L]) if k == "log_ucb" else 0.0)
        return None

    def laplace(self, s, done):
        """mean and precision of every logistic model after each completed batch, fully optimised"""
        B = s["batch_size"]
        for t in range(len(done) // B + 1):
            if t in self.memo:
                continue
            out = []
            for a in range(s["n_actions"]):
                m, q = self.memo[t - 1][a] if t else (np.zeros(s["dim"]), np.full(s["dim"], float(s.get("lam") or 1.0)))
                rows = [(y, z) for a_, y, z in done[(t - 1) * B : t * B] if a_ == a] if t else []
                if rows:
                    y, X = np.array([r[0] for r in rows], dtype=float), np.array([r[1] for r in rows])
                    m2 = self.optimum(m, q, X, y)
                    P = 1 / (1 + np.exp(1 + X @ m2))
                    m, q = m2, q + (P * (1 - P)) @ X**2
                out.append((m, q))
            self.memo[t] = out
        return self.memo[len(done) // B]

    def optimum(self, m, q, X, y):
        f = lambda w: 0.5 * (q * (w - m) ** 2).sum() + np.logaddexp(0, -y * (X @ w)).sum()  # noqa
        d = lambda w: q * (w - m) - ((y / (1 + np.exp(y * (X @ w)))) @ X)  # noqa
        return minimize(f, m, jac=d, method="BFGS", options=dict(gtol=1e-7)).x

    def draws(self, s, done, x, n):
        """rankings of a sampling policy, drawn from the posterior by definition"""
        g, na = np_rng("posterior", len(done), s["random_state"]), s["n_actions"]
        if s["kind"] == "random":
            v = g.random((n, na))
        elif s["kind"] == "bts":
            c = np.array([sum(1 for a_, _, _ in done if a_ == a) for a in range(na)])
            w = np.array([sum(y for a_, y, _ in done if a_ == a) for a in range(na)])
            a0, b0 = policies.prior(s)
            v = g.beta(a0 + w, b0 + c - w, size=(n, na))
        elif s["kind"] == "lin_ts":
            v = np.zeros((n, na))
            for a in range(na):
                A, b = np.eye(s["dim"]), np.zeros(s["dim"])
                for a_, y, z in done:
                    if a_ == a:
                        A += np.outer(z, z)
                        b += y * z
                v[:, a] = x @ np.linalg.solve(A, b) + np.sqrt(x @ np.linalg.solve(A, x)) * g.normal(size=n)
        elif s["kind"] == "log_ts":
            L = self.laplace(s, done)
            v = np.array([((m + (s.get("scale") or 1.0) / q * g.normal(size=(n, s["dim"]))) @ x) for m, q in L]).T
        elif s["kind"] in GREEDY:
            sc = self.scores(s, done, x, explore=True)
            v = g.random((n, na))
            if sc is not None:
                o = np.sort(sc)
                if np.any(np.diff(o) < (0.03 if s["kind"] == "log_egreedy" else 1e-6)):
                    return None
                v = np.where(g.random((n, 1)) < s["epsilon"], v, sc)
        else:
            return None
        return np.argsort(-v, axis=1)[:, : s["len_list"]]

    def run(self, p, ctx):
        s = p["spec"]
        pol, twin = policies.make(s), policies.make(s)
        open_, done = [], []
        self.memo = {}
        nsel = 0

        def feed(a, y, x):
            ctx.call("update_params", policies.update, pol, a, y, x)
            open_.append((a, y, x))
            if len(open_) == s["batch_size"]:
                for q in open_:
                    ctx.call("update_params", policies.update, twin, *q)
                done.extend(open_)
                open_.clear()

        def choose(x, what):
            g = ctx.call("select_action", policies.select, pol, x)
            t = ctx.call("select_action", policies.select, twin, x)
            valid_list(ctx, g, s["n_actions"], s["len_list"], what)
            ctx.check(arr_eq(g, t), "open-batch-leaks", lambda: f"{what}: {s['kind']} with {len(open_)} of {s['batch_size']} feedbacks in the open batch chose {show(g)}, without them {show(t)}")
            sc = self.scores(s, done, x)
            if sc is not None:
                ctx.check(is_ranking(g, sc, 0.02 if s["kind"].startswith("log_") else 1e-7), "not-best", lambda: f"{what}: {s['kind']} chose {show(g)} after {len(done)} completed feedbacks, scores {show(sc)}")
            ctx.cover(s["kind"], s["batch_size"], s["len_list"], len(open_), min(len(done) // s["batch_size"], 12), sc is not None)
            return g

        for j, e in enumerate(p["events"]):
            ctx.tick()
            if e["e"] == "select":
                g = choose(self.x(s, e["x"]), f"event {j}")
                ctx.log("select", [int(a) for a in g])
                nsel += 1
            else:
                feed(e["a"], e["y"], self.x(s, e["x"]))
        for j in range(3):
            choose(self.x(s, (p["probe"], j)), f"probe {j}")
        if p["freq"] or p["many"]:
            self.frequencies(p, ctx, pol, done, choose)
        if not p["evidence"] or p["many"] or s.get("campaign"):
            return
        # overwhelming evidence for one action
        b = p["best"]
        e = np.zeros(s["dim"])
        e[0] = 1.0
        n = 400
        acts = [a for a in range(s["n_actions"]) for _ in range(n if s["kind"] not in ("log_egreedy", "log_ucb", "log_ts") or a == b else 5)]
        if s["kind"] in ("log_egreedy", "log_ucb", "log_ts"):
            pol, twin = policies.make(s), policies.make(s)
            open_.clear()
            done.clear()
            self.memo = {}
            acts = [b] * 60
        np_rng("order", p["probe"]).shuffle(acts)
        while (len(acts) + len(open_)) % s["batch_size"]:
            acts.append(b)
        for a in acts:
            feed(a, int(a == b), e)
        ctx.tick(len(acts))
        ctx.check(not open_, "harness", "batch not complete")
        k = s["kind"]
        if k in ("bts", "lin_ts", "lin_ucb", "log_egreedy", "log_ucb", "lin_egreedy", "egreedy"):
            eps = s["epsilon"] if k in ("egreedy", "lin_egreedy", "log_egreedy") else 0.0
            if s.get("lam") or (k == "log_ucb" and s["epsilon"] > 1):
                return
            m = 20 if not eps else 150
            miss = sum(int(choose(e, f"evidence {j}")[0] != b) for j in range(m))
            q = eps * (1 - 1 / s["n_actions"])
            bound = 0 if not eps else 7 * np.sqrt(m * q * (1 - q)) + 1
            ctx.check(miss <= m * q + bound, "evidence-ignored", lambda: f"{k} (epsilon {s['epsilon']}) chose another action {miss} of {m} times after {n} rewards for action {b} and none for the others")
            if eps:
                ctx.check(miss >= m * q - bound, "no-exploration", lambda: f"{k} (epsilon {eps}) explored {miss} of {m} times, expected about {m * q:.0f}")
            ctx.cover("evidence", k, s["batch_size"])

    def frequencies(self, p, ctx, pol, done, choose):
        """how often each action is chosen at each place, against draws from the posterior"""
        s = p["spec"]
        x = self.x(s, (p["probe"], "freq"))
        na, ll, m = s["n_actions"], s["len_list"], 6000 if p["many"] else 300
        nref = 40000 if p["many"] else 4000
        slack = 0.03 if s["kind"] == "log_ts" else 0.0
        ref = self.draws(s, done, x, nref)
        if ref is None:
            return
        want = np.array([[(ref[:, q] == a).mean() for q in range(ll)] for a in range(na)])

        def compare(got, k, what):
            v = want * (1 - want)
            ctx.check(np.all(np.abs(got - want) <= 7.5 * np.sqrt(v / k + v / nref) + 6.0 / k + slack), "sampling-distribution", lambda: f"{what}: frequencies {show(np.round(got, 3))} in {k} choices, by definition {show(np.round(want, 3))}")
            ctx.cover("frequency", what, s["kind"], ll)

        if p["many"]:
            sel = np.array([ctx.call("select_action", policies.select, pol, x) for j in range(m)])
        else:
            sel = np.array([choose(x, f"frequency {j}") for j in range(m)])
        ctx.tick(m)
        compare(np.array([[(sel[:, q] == a).mean() for q in range(ll)] for a in range(na)]), m, "select_action")
        if s["kind"] in ("bts", "random"):
            n = 1 + p["probe"] % 3
            kw = dict(n_sim=m) if s["kind"] == "bts" else {}
            twin = policies.make(s)
            for q in done:
                policies.update(twin, *q)
            d = np.asarray(ctx.call("compute_batch_action_dist", twin.compute_batch_action_dist, n_rounds=n, **kw))
            ctx.check(d.shape == (n, na, ll) and np.all(d >= 0) and np.allclose(d.sum(1), 1), "action-distribution", lambda: f"compute_batch_action_dist gives {show(d)}")
            ctx.check(all(arr_eq(d[0], d[i]) for i in range(n)), "action-distribution", "the stated distribution differs between rounds")
            compare(d[0], m, "compute_batch_action_dist")

    def simplify(self, plan):
        for k, v in (("len_list", 1), ("batch_size", 1), ("batch_size", 2)):
            yield dict(plan, spec=dict(plan["spec"], **{k: v}))
        if plan["many"]:
            yield dict(plan, many=False, freq=True)
        if plan["evidence"]:
            yield dict(plan, evidence=False)


PROP = Prop()

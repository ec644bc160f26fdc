import numpy as np

from obp import dataset as D
from obp.simulator.simulator import BanditEnvironmentSimulator

from .. import gens as G
from ..core import INJECTED, SimFault, digest, np_rng, show
from ..seams import EDGES_U, SOFT_EDGES_U, rigged_randomness

SIGMA = 7.5


def close(a, b, tol=1e-9):
    return bool(np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=tol, atol=tol))


class Prop:
    id = "C12"
    runs = {"quick": 4000, "thorough": 120000}
    time_unit = "generated rounds"
    rule = ("a run configures one generator with tabular reward and behaviour functions and draws several batches from it, either under rigged "
            "generators that push unit draws to the edges of their range (exact checks of every logged entry) or with many ordinary draws "
            "(frequencies and mean rewards within 7.5 standard errors); non-trivial when at least one batch was checked")
    measure = "distinct (generator, mode, reward type, behaviour kind, deficiency, structure) tuples"
    real = ["SyntheticBanditDataset and its multi-logger, embedding, continuous and slate variants, MultiClassToBanditReduction, BanditEnvironmentSimulator, sample_action_fast"]
    stub = ["numpy RandomState (edge draws)", "reward and behaviour functions: tables over contexts", "classifier: table"]
    assumptions = ["fractions are judged at 7.5 standard errors", "slate rewards are stored in half precision by the library: agreement to 4e-3"]

    def generate(self, r, i, tier):
        kind = r.choice(["synth", "synth", "multi", "embed", "cont", "slate", "slate", "multiclass", "env"])
        rig = r.random() < 0.6
        p = dict(kind=kind, seed=r.choice([0, 1, 2, 3, 12345, r.randrange(10**6)]), t=r.randrange(10**6), rig=r.choice([0.05, 0.3, 0.9]) if rig else 0.0, rigseed=r.randrange(10**9), rt=r.choice(["binary", "continuous"]),
                 na=r.randint(2, 5), dim=r.randint(1, 3), std=r.choice([0.5, 1.0, 2.0]), nd=r.choice([0, 0, 1, 2]), beta=r.choice([0, 1, 1.0, -1.5, 3.0]))
        p["nd"] = min(p["nd"], p["na"] - 1)
        p["bf"] = r.choice([None, "soft", "soft", "int", "steep"])
        p["rf"] = r.choice([None, "table", "table", "table"])
        big = {"slate": 500, "cont": 3000, "multiclass": 0}.get(kind, 300 if p["rt"] == "continuous" else 3000)
        n = r.choice([1, 2, 9, 30]) if rig or not big else big
        p["batches"] = [n if not rig else r.choice([1, 2, 9, 30]) for _ in range(r.choice([1, 2, 3] if rig else [1, 2]))]
        if kind == "multi":
            k = r.randint(1, 3)
            p.update(betas=[r.choice([-2, 0.0, 1.0, 3]) for _ in range(k)], rhos=[r.choice([0.2, 0.5, 1]) for _ in range(k)], rf="table" if r.random() < 0.7 else None)
            p["batches"] = [max(b, 12) for b in p["batches"]]
        if kind == "embed":
            p.update(ncat=r.randint(1, 4), ndim=r.randint(1, 4), unobs=r.choice([0, 0, 1, 2, 3]), irr=r.choice([0, 0, 1, 2]))
        if kind == "cont":
            p.update(lo=-3.0, hi=r.choice([1.0, 3.0]), noise=r.choice([0.1, 0.5, 1.0]), rnoise=r.choice([0, 0, 1.0]))
        if kind == "slate":
            p.update(ll=r.choice([2, 2, 3]), rs=r.choice(["cascade_additive", "cascade_decay", "independent", "independent", "standard_additive", "standard_decay"]), decay=r.choice(["exponential", "inverse"]), fac=r.random() < 0.3,
                     cm=r.choice([None, "pbm", "cascade"]), eta=r.choice([0.5, 1.0, 2.0]), item=r.random() < 0.7, clip=r.choice([None, None, 100.0]))
            p["bf"] = r.choice([None, "soft", "soft"])
            p["na"] = max(p["na"], p["ll"])
            if rig and r.random() < 0.1:
                p.update(na=200, item=False)
            if p["rt"] == "continuous":
                p["cm"] = None
        if kind == "multiclass":
            p.update(n=r.choice([8, 20, 60]), k=r.randint(2, 4), alpha=r.choice([0.0, 0.5, 0.9, 0.999]), off=r.choice([0, 0, 1, -3]), gap=r.choice([1, 1, 2]), ev=r.choice([0.25, 0.5, 3]), reqs=[r.randrange(10**6) for _ in range(r.choice([1, 2, 3]))], fault=r.choice([None, None, 1, 2]))
            p["nd"] = min(p["nd"], p["k"] - 1)
        if r.random() < 0.03:  # many actions, many features, longer slates
            p["dim"] = r.choice([2, 5, 9])
            if kind in ("synth", "multi", "embed", "env"):
                p["na"] = r.choice([8, 14, 30])
                p["nd"] = r.choice([0, 1, 5, 7])
            elif kind == "slate":
                p["ll"] = r.choice([4, 5])
                p["na"] = r.choice([p["ll"], 6])
                p["batches"] = [min(b, 60) for b in p["batches"]]
        return p

    def run(self, p, ctx):
        if p["rig"]:
            with rigged_randomness(p["rigseed"], p["rig"], ctx, self.edges(p)):
                getattr(self, p["kind"])(p, ctx)
        else:
            getattr(self, p["kind"])(p, ctx)

    def edges(self, p):
        if p["kind"] == "embed":
            return EDGES_U[1:]  # a concentration parameter of exactly 0 is no distribution at all
        return SOFT_EDGES_U if p["rt"] == "continuous" or p["kind"] == "cont" else EDGES_U

    # --- pieces ---------------------------------------------------------------------------------
    def cover(self, ctx, p, *more):
        ctx.cover(p["kind"], p["rig"], p["rt"], p["bf"], p["nd"], p["rf"], p["seed"] < 4, *more)

    def behaviour(self, ctx, p, pi, logits, nd, what="pi_b"):
        """pi equals the softmax policy of the logits, restricted to all but nd actions per round"""
        pi = np.asarray(pi)
        n, na = logits.shape
        ctx.check(pi.shape == (n, na), "pi-shape", lambda: f"{what} has shape {pi.shape}")
        ctx.check(bool(np.all(np.isfinite(pi)) and np.all(pi >= 0) and close(pi.sum(1), 1.0)), "pi-distribution", lambda: f"{what} is not a distribution in each round: {show(pi[:3])}")
        if nd == 0:
            ctx.check(close(pi, G.softmax(logits)), "pi-softmax", lambda: f"{what} differs from the softmax of its logits: {show(pi[:2])} vs {show(G.softmax(logits)[:2])}")
            return
        for i in range(n):
            sup = pi[i] > 0
            if p["bf"] != "steep":
                ctx.check(int(sup.sum()) == na - nd, "deficiency", lambda: f"round {i}: {int(sup.sum())} actions have positive probability, {na} - {nd} should")
                ctx.check(close(pi[i, sup], G.softmax(logits[i, sup])), "pi-softmax", lambda: f"round {i}: {what} is {show(pi[i])}, not the softmax over its support of {show(logits[i])}")
            else:  # probabilities may underflow: the support is known to lie among the positive ones only
                ctx.check(1 <= int(sup.sum()) <= na - nd, "deficiency", lambda: f"round {i}: {int(sup.sum())} actions have positive probability")
                sup = pi[i] > 1e-290  # not among the denormal numbers
                d = np.log(pi[i, sup]) - logits[i, sup]
                ctx.check(float(d.max() - d.min()) < 1e-6 * max(1.0, float(np.abs(logits[i]).max())), "pi-softmax", lambda: f"round {i}: {what} is {show(pi[i])} for logits {show(logits[i])}")

    def logged(self, ctx, p, b, pi, n, pscore="pscore"):
        a = np.asarray(b["action"])
        ctx.check(a.shape == (n,) and np.issubdtype(a.dtype, np.integer), "action-shape", lambda: f"action has shape {a.shape}, dtype {a.dtype}")
        ctx.check(bool(np.all((a >= 0) & (a < pi.shape[1]))), "action-range", lambda: f"actions {show(a)}")
        pa = pi[np.arange(n), a]
        ctx.check(bool(np.all(pa > 0)), "impossible-action", lambda: f"round {int(np.argmin(pa))}: logged action {int(a[np.argmin(pa)])} has probability 0 under {show(pi[np.argmin(pa)])}")
        ps = np.asarray(b[pscore])
        ctx.check(ps.shape == (n,) and bool(np.all(ps == pa)), "pscore", lambda: f"{pscore} {show(ps[:8])}, the policy gives the logged actions {show(pa[:8])}")

    def frequencies(self, ctx, p, a, pi, what="action"):
        for k in range(pi.shape[1]):
            v = float((pi[:, k] * (1 - pi[:, k])).sum())
            if v < 20:
                continue
            z = (float((a == k).sum()) - float(pi[:, k].sum())) / np.sqrt(v)
            ctx.check(abs(z) < SIGMA, "frequency", lambda: f"{what} {k} occurs {int((a == k).sum())} times in {len(a)} rounds, expected {pi[:, k].sum():.1f} ({z:.1f} standard errors)")

    def independent(self, ctx, cur, prev, skip, what):
        """residuals (outcome minus its conditional mean, with its variance) are uncorrelated between rounds and batches"""
        for k in cur:
            (r1, v1), (r2, v2) = cur[k], prev[k]
            r1, v1 = r1[skip:], v1[skip:]
            v = float((v1 * v2).sum())
            if v < 12:
                continue
            z = float((r1 * r2).sum()) / np.sqrt(v)
            ctx.check(abs(z) < SIGMA, "dependent-draws", lambda: f"{k} in {what} are correlated given their probabilities ({z:.1f} standard errors)")

    def residuals(self, p, a, pi, r, e):
        out = {f"choices of action {k}": ((a == k) - pi[:, k], pi[:, k] * (1 - pi[:, k])) for k in range(pi.shape[1])}
        if p["rt"] == "binary":
            out["rewards"] = (r - e, e * (1 - e))
        elif len(r) > 1:
            d = (r - e) / max(float(np.sqrt(np.mean((r - e) ** 2))), 1e-12)
            out["rewards"] = (d, np.ones(len(r)))
        return out

    def mean_reward(self, ctx, a, r, e, var, what="action"):
        for k in sorted(set(a.tolist())):
            m = a == k
            v = float(np.sum(var[m]))
            if v < 20 or m.sum() < 40:
                continue
            z = float((r[m] - e[m]).sum()) / np.sqrt(v)
            ctx.check(abs(z) < SIGMA, "mean-reward", lambda: f"{what} {k}: mean logged reward {r[m].mean():.4f} in {int(m.sum())} rounds, stated expected rewards average to {e[m].mean():.4f} ({z:.1f} standard errors)")

    def reward(self, ctx, p, r, e, a, stats, loc=None):
        """r drawn for expected reward e (per round, of the logged action)"""
        r = np.asarray(r, dtype=float)
        ctx.check(r.shape == e.shape, "reward-shape", lambda: f"reward has shape {r.shape}")
        if p["rt"] == "binary":
            ctx.check(bool(np.all((r == 0) | (r == 1))), "reward-values", lambda: f"binary rewards {show(r)}")
            ctx.check(not np.any((e == 0) & (r == 1)) and not np.any((e == 1) & (r == 0)), "reward-of-other-action", lambda: f"rewards {show(r[:10])} for expected rewards {show(e[:10])} of the logged actions")
            var = e * (1 - e)
        else:
            ctx.check(bool(np.all(np.isfinite(r)) and np.all(r >= -1e-3)), "reward-values", lambda: f"continuous rewards {show(r)}")
            var = np.full(r.shape, np.mean((r - e) ** 2)) if len(r) else e
        if stats:
            self.mean_reward(ctx, a, r, e, var)

    # --- generators -----------------------------------------------------------------------------
    def tables(self, p, na=None):
        na = na or p["na"]
        rt = G.reward_table(p["t"], na, "binary" if p["rt"] == "binary" else "cont")
        rf = G.Table(rt) if p["rf"] else None
        bf = G.Table(G.logit_table(p["t"] + 1, na, p["bf"])) if p["bf"] else None
        return rf, bf

    def expected(self, ctx, p, ds, b, rf, n):
        x = np.asarray(b["context"])
        ctx.check(x.shape == (n, p["dim"]), "context-shape", lambda: f"context has shape {x.shape}")
        e = np.asarray(b["expected_reward"], dtype=float)
        ctx.check(e.shape == (n, p["na"]), "expected-shape", lambda: f"expected_reward has shape {e.shape}")
        if rf is not None:
            want = rf(x)
        else:  # context-free: the same for all rounds and batches, remembered from the first batch
            if not hasattr(self, "_free") or self._free[0] is not ds:
                self._free = (ds, e[0].copy())
            ctx.check(close(e, np.tile(self._free[1], (n, 1))), "expected-constant", "context-free expected rewards differ between rounds or batches")
            return e
        if p["rt"] == "continuous":
            want = G.truncated_mean(want, p["std"])
        ctx.check(close(e, want, 1e-7), "expected-reward", lambda: f"expected_reward {show(e[:2])}, the reward function gives {show(want[:2])} for these contexts")
        return e

    def batches(self, p, ctx, ds, check):
        seen, last = [], None
        for n in p["batches"]:
            b = ctx.call("obtain_batch_bandit_feedback", ds.obtain_batch_bandit_feedback, n)
            ctx.check(int(b["n_rounds"]) == n, "n-rounds", lambda: f"asked for {n} rounds, got {b['n_rounds']}")
            cur = check(b, n)
            if not p["rig"] and cur:
                self.independent(ctx, cur, {k: (r[:-1], v[:-1]) for k, (r, v) in cur.items()}, 1, "successive rounds")
                if last and last[0] == n:
                    self.independent(ctx, cur, last[1], 0, "the same round of two batches")
                last = (n, cur)
            d = digest(b["context"])
            ctx.check(d not in seen, "repeated-batch", "two batches of one generator have identical contexts")
            seen.append(d)
            ctx.tick(n)
            ctx.log(n, digest([b["action"], b["reward"]]))

    def synth(self, p, ctx):
        rf, bf = self.tables(p)
        ac = np_rng("ac", p["t"]).normal(size=(p["na"], 2)) if p["t"] % 2 else None
        ds = ctx.call("SyntheticBanditDataset", D.SyntheticBanditDataset, n_actions=p["na"], dim_context=p["dim"], reward_type=p["rt"], reward_function=rf, reward_std=p["std"], action_context=ac, behavior_policy_function=bf, beta=p["beta"], n_deficient_actions=p["nd"], random_state=p["seed"])

        def check(b, n):
            e = self.expected(ctx, p, ds, b, rf, n)
            lg = p["beta"] * (bf(b["context"]) if bf else e)
            pi = np.asarray(b["pi_b"])[:, :, 0]
            self.behaviour(ctx, p, pi, lg, p["nd"])
            self.logged(ctx, p, b, pi, n)
            a = np.asarray(b["action"])
            stats = not p["rig"]
            if stats:
                self.frequencies(ctx, p, a, pi)
            self.reward(ctx, p, b["reward"], e[np.arange(n), a], a, stats)
            ctx.check(np.array_equal(b["action_context"], np.eye(p["na"]) if ac is None else ac), "action-context", "action_context is not that of the generator")
            # rewards sampled later for other actions in the same rounds
            if rf is not None or p["rt"] == "binary":
                a2 = np_rng("a2", p["t"], n).integers(0, p["na"], n)
                r2 = ctx.call("sample_reward", ds.sample_reward, np.asarray(b["context"]), a2)
                self.reward(ctx, p, r2, e[np.arange(n), a2], a2, stats)
            self.cover(ctx, p)
            return self.residuals(p, a, pi, np.asarray(b["reward"], dtype=float), e[np.arange(n), a])

        self.batches(p, ctx, ds, check)

    def multi(self, p, ctx):
        rf, _ = self.tables(p)
        p = dict(p, bf=None)
        ds = ctx.call("SyntheticMultiLoggersBanditDataset", D.SyntheticMultiLoggersBanditDataset, n_actions=p["na"], dim_context=p["dim"], reward_type=p["rt"], reward_function=rf, reward_std=p["std"], betas=list(p["betas"]), rhos=list(p["rhos"]), n_deficient_actions=p["nd"], random_state=p["seed"])
        rho = np.array(p["rhos"], dtype=float) / sum(p["rhos"])

        def check(b, n):
            e = self.expected(ctx, p, ds, b, rf, n)
            s = np.asarray(b["stratum_idx"])
            ctx.check(s.shape == (n,) and b["n_strata"] == len(rho) and bool(np.all((s >= 0) & (s < len(rho)))), "strata", lambda: f"stratum_idx {show(s)}")
            for k in range(len(rho)):
                ctx.check(abs(int((s == k).sum()) - n * rho[k]) <= len(rho), "strata", lambda: f"logger {k} has {int((s == k).sum())} of {n} rounds, its share is {rho[k]:.3f}")
            pi = np.asarray(b["pi_b"])[:, :, 0]
            self.behaviour(ctx, p, pi, np.array(p["betas"], dtype=float)[s][:, None] * e, p["nd"])
            self.logged(ctx, p, b, pi, n)
            avg = np.asarray(b["pi_b_avg"])[:, :, 0]
            want = np.zeros_like(e)
            for beta, w in zip(p["betas"], rho):
                x = np.where(pi > 0, beta * e, -np.inf) if p["nd"] else beta * e
                want += w * G.softmax(x)
            ctx.check(close(avg, want), "pi-average", lambda: f"pi_b_avg {show(avg[:2])}, the loggers' average is {show(want[:2])}")
            self.logged(ctx, p, b, avg, n, "pscore_avg")
            a = np.asarray(b["action"])
            if not p["rig"]:
                self.frequencies(ctx, p, a, pi)
                for k in range(len(rho)):
                    self.frequencies(ctx, p, a[s == k], pi[s == k], f"logger {k} action")
            self.reward(ctx, p, b["reward"], e[np.arange(n), a], a, not p["rig"])
            self.cover(ctx, p, len(rho))
            return self.residuals(p, a, pi, np.asarray(b["reward"], dtype=float), e[np.arange(n), a])

        self.batches(p, ctx, ds, check)

    def embed(self, p, ctx):
        lo, hi = (0.02, 0.98) if p["rt"] == "binary" else (-1.0, 2.0)
        rf = G.EmbedTable(p["t"], p["ncat"], lo, hi)
        bf = G.Table(G.logit_table(p["t"] + 1, p["na"], p["bf"])) if p["bf"] else None
        un, irr = min(p["unobs"], p["ndim"]), min(p["irr"], p["ndim"] - 1)
        ds = ctx.call("SyntheticBanditDatasetWithActionEmbeds", D.SyntheticBanditDatasetWithActionEmbeds, n_actions=p["na"], dim_context=p["dim"], reward_type=p["rt"], reward_function=rf, reward_std=p["std"], behavior_policy_function=bf, beta=p["beta"],
                      n_cat_per_dim=p["ncat"], latent_param_mat_dim=2, n_cat_dim=p["ndim"], n_unobserved_cat_dim=un, n_irrelevant_cat_dim=irr, n_deficient_actions=p["nd"], random_state=p["seed"])

        def check(b, n):
            e = np.asarray(b["expected_reward"], dtype=float)
            ctx.check(e.shape == (n, p["na"]) and bool(np.all((e > lo - 1e-9) & (e < hi + 1e-9))), "expected-reward", lambda: f"expected_reward outside the range of the reward function: {show(e[:2])}")
            lg = p["beta"] * (bf(b["context"]) if bf else e)
            pi = np.asarray(b["pi_b"])[:, :, 0]
            self.behaviour(ctx, p, pi, lg, p["nd"])
            self.logged(ctx, p, b, pi, n)
            a, m = np.asarray(b["action"]), np.asarray(b["action_embed"])
            pea, q = np.asarray(b["p_e_a"]), np.asarray(b["q_x_e"])
            dims = p["ndim"] - un
            ctx.check(m.shape == (n, dims) and pea.shape == (p["na"], p["ncat"], dims) and q.shape == (n, p["ncat"], dims), "embed-shape", lambda: f"action_embed {m.shape}, p_e_a {pea.shape}, q_x_e {q.shape}")
            ctx.check(close(pea.sum(1), 1.0) and bool(np.all(pea >= 0)), "embed-distribution", "p_e_a is not a distribution over categories")
            for d in range(dims):
                ctx.check(bool(np.all((m[:, d] >= 0) & (m[:, d] < p["ncat"]))) and bool(np.all(pea[a, m[:, d], d] > 0)), "embed-impossible", lambda: f"dimension {d}: embedding with probability 0")
                t = rf.table(p["seed"] + d + un + 1)[G.rows_of(b["context"])]
                ctx.check(close(q[:, :, d], t), "embed-q", lambda: f"dimension {d}: q_x_e is not the reward of its categories")
            r = np.asarray(b["reward"], dtype=float)
            ctx.check(r.shape == (n,) and bool(np.all(np.isfinite(r))), "reward-values", lambda: f"rewards {show(r)}")
            if p["rt"] == "binary":
                ctx.check(bool(np.all((r == 0) | (r == 1))), "reward-values", lambda: f"binary rewards {show(r)}")
            if not p["rig"]:
                self.frequencies(ctx, p, a, pi)
                for d in range(dims):
                    self.frequencies(ctx, p, m[:, d], pea[a][:, :, d], f"dimension {d}, category")
                    for k in range(p["na"]):
                        s = a == k
                        self.frequencies(ctx, p, m[s, d], pea[a[s]][:, :, d], f"action {k}, dimension {d}, category")
                ea = e[np.arange(n), a]
                self.mean_reward(ctx, a, r, ea, np.full(n, np.mean((r - ea) ** 2)))
            self.cover(ctx, p, p["ncat"], dims)
            out = self.residuals(p, a, pi, r, e[np.arange(n), a])
            out.pop("rewards", None)  # the embedding decides part of it
            for d in range(dims):
                q_ = pea[a][:, :, d]
                out.update({f"categories {k} in dimension {d}": ((m[:, d] == k) - q_[:, k], q_[:, k] * (1 - q_[:, k])) for k in range(p["ncat"])})
            return out

        self.batches(p, ctx, ds, check)

    def cont(self, p, ctx):
        g = np_rng("cont", p["t"])
        bf = G.ContTable(g.uniform(p["lo"], p["hi"], G.K)) if p["bf"] else None
        rf = G.ContTable(g.normal(size=G.K), g.normal(size=G.K)) if p["rf"] else None
        ds = ctx.call("SyntheticContinuousBanditDataset", D.SyntheticContinuousBanditDataset, dim_context=p["dim"], action_noise=p["noise"], reward_noise=p["rnoise"], min_action_value=p["lo"], max_action_value=p["hi"], reward_function=rf, behavior_policy_function=bf, random_state=p["seed"])
        width = p["hi"] - p["lo"]

        def check(b, n):
            a, ps = np.asarray(b["action"], dtype=float), np.asarray(b["pscore"], dtype=float)
            ctx.check(a.shape == (n,) and ps.shape == (n,), "action-shape", lambda: f"action {a.shape}, pscore {ps.shape}")
            ctx.check(bool(np.all((a >= p["lo"] - 1e-9) & (a <= p["hi"] + 1e-9))), "action-range", lambda: f"actions {show(a)} outside [{p['lo']}, {p['hi']}]")
            if bf is None:
                dens, cdf = np.full(n, 1.0 / width), (a - p["lo"]) / width
            else:
                loc = bf(b["context"])
                dens = G.truncated_pdf(a, loc, p["noise"], p["lo"], p["hi"])
                c = G.ndtr((p["lo"] - loc) / p["noise"])
                cdf = (G.ndtr((a - loc) / p["noise"]) - c) / (G.ndtr((p["hi"] - loc) / p["noise"]) - c)
            inner = (a > p["lo"] + 1e-9) & (a < p["hi"] - 1e-9)  # at the very edge rounding decides
            ctx.check(bool(np.all(ps[inner] > 0)) and close(ps[inner], dens[inner], 1e-7), "pscore", lambda: f"pscore {show(ps[:5])}, density of the logged actions {show(dens[:5])}")
            e = np.asarray(b["expected_reward"], dtype=float)
            if rf is not None:
                ctx.check(close(e, rf(b["context"], action=a)), "expected-reward", lambda: f"expected_reward {show(e[:4])} is not the reward function at the logged action {show(rf(b['context'], action=a)[:4])}")
            r = np.asarray(b["reward"], dtype=float)
            ctx.check(r.shape == (n,) and e.shape == (n,), "reward-shape", lambda: f"reward {r.shape}, expected {e.shape}")
            if p["rnoise"] == 0:
                ctx.check(bool(np.array_equal(r, e)), "reward-noise", "rewards differ from the expected rewards without noise")
            if not p["rig"]:
                # actions follow the stated density: ranks under it are uniform, in every part of the context space
                grp = G.rows_of(b["context"])
                for k in range(-1, G.K):
                    u = cdf[grp == k] if k >= 0 else cdf
                    if len(u) > 40:
                        for z in ((u.mean() - 0.5) * np.sqrt(12 * len(u)), (((u - 0.5) ** 2).mean() - 1 / 12) * np.sqrt(180 * len(u))):
                            ctx.check(abs(z) < SIGMA, "density", lambda: f"logged actions do not follow the stated density ({z:.1f} standard errors, {len(u)} rounds)")
                if p["rnoise"]:
                    for lo_, hi_ in ((0, 0.3), (0.3, 0.7), (0.7, 1.01)):
                        m = (cdf >= lo_) & (cdf < hi_)
                        if m.sum() > 40:
                            z = float((r - e)[m].sum()) / (p["rnoise"] * np.sqrt(m.sum()))
                            ctx.check(abs(z) < SIGMA, "mean-reward", lambda: f"rewards deviate from their expectation by {z:.1f} standard errors")
            self.cover(ctx, p, p["rnoise"])
            out = dict(actions=((cdf - 0.5) * np.sqrt(12), np.ones(n)))
            if p["rnoise"]:
                out["rewards"] = ((r - e) / p["rnoise"], np.ones(n))
            return out

        self.batches(p, ctx, ds, check)

    def slate(self, p, ctx):
        zero_one = p["rs"] in ("independent", "standard_additive", "cascade_additive") and p["rt"] == "binary" and p["rig"]
        base = G.reward_table(p["t"], p["na"], "binary" if zero_one else "prob" if p["rt"] == "binary" else "cont")
        rf = G.Table(base) if p["rf"] else None
        bf = G.Table(G.logit_table(p["t"] + 1, p["na"], "soft")) if p["bf"] else None
        ds = ctx.call("SyntheticSlateBanditDataset", D.SyntheticSlateBanditDataset, n_unique_action=p["na"], len_list=p["ll"], dim_context=p["dim"], reward_type=p["rt"], reward_structure=p["rs"], decay_function=p["decay"], click_model=p["cm"], eta=p["eta"], base_reward_function=rf, behavior_policy_function=bf, is_factorizable=p["fac"], random_state=p["seed"])
        ll, na = p["ll"], p["na"]
        exam, attr = G.click_weights(p)
        W = ds.action_interaction_weight_matrix
        memo = {}
        for n in p["batches"]:
            b = ctx.call("obtain_batch_bandit_feedback", ds.obtain_batch_bandit_feedback, n, return_pscore_item_position=p["item"], clip_logit_value=p["clip"])
            A = np.asarray(b["action"]).reshape(n, ll)
            R = np.asarray(b["reward"], dtype=float).reshape(n, ll)
            E = np.asarray(b["expected_reward_factual"], dtype=float).reshape(n, ll)
            ctx.check(np.array_equal(b["slate_id"], np.repeat(np.arange(n), ll)) and np.array_equal(b["position"], np.tile(np.arange(ll), n)), "slate-ids", "slate_id / position do not enumerate the slates")
            ctx.check(bool(np.all((A >= 0) & (A < na))), "action-range", lambda: f"actions {show(A)}")
            lg = bf(b["context"]) if bf else np.zeros((n, na))
            grp = G.rows_of(b["context"])
            ps, pc = np.asarray(b["pscore"]).reshape(n, ll), np.asarray(b["pscore_cascade"]).reshape(n, ll)
            pp = np.asarray(b["pscore_item_position"]).reshape(n, ll) if p["item"] else None
            ctx.check(p["item"] or b["pscore_item_position"] is None, "item-position", "pscore_item_position given although not asked for")
            for i in range(n):
                s = A[i].tolist()
                if not p["fac"]:
                    ctx.check(len(set(s)) == ll, "slate-duplicate", lambda: f"slate {i} repeats an item: {s}")
                pre = G.slate_probability(lg[i], s, p["fac"])
                ctx.check(min(pre) > 0 and close(pc[i], pre, 1e-8), "pscore-cascade", lambda: f"slate {i} {s}: pscore_cascade {show(pc[i])}, prefix probabilities are {pre}")
                ctx.check(close(ps[i], pre[-1], 1e-8), "pscore-slate", lambda: f"slate {i} {s}: pscore {show(ps[i])}, probability of the slate is {pre[-1]}")
                if p["item"]:
                    key = grp[i]
                    if key not in memo:
                        memo[key] = G.marginals(lg[i], ll, p["fac"])
                    want = [memo[key][k][a] for k, a in enumerate(s)]
                    ctx.check(close(pp[i], want, 1e-8), "pscore-position", lambda: f"slate {i} {s}: pscore_item_position {show(pp[i])}, marginal probabilities are {want}")
                if rf is not None:
                    bs = base[grp[i]]
                    e = G.slate_expected(bs, s, p, W) * exam
                    if p["rt"] == "continuous":
                        e = G.truncated_mean(e, 1.0)
                    ctx.check(bool(np.all(np.abs(E[i] - e) <= 4e-3 * np.maximum(1.0, np.abs(e)))), "expected-reward", lambda: f"slate {i} {s}: expected_reward_factual {show(E[i])}, the reward structure gives {show(e)}")
            ctx.check(bool(np.all(np.isfinite(R)) and np.all(R >= -1e-3)), "reward-values", lambda: f"rewards {show(R)}")
            disc = np.ones((n, ll))
            if p["rt"] == "binary":
                ctx.check(bool(np.all((R == 0) | (R == 1))), "reward-values", lambda: f"binary rewards {show(R)}")
                for k in range(1, ll):
                    disc[:, k] = disc[:, k - 1] * np.where(R[:, k - 1] == 1, attr[k], 1.0)
                q = disc * E
                ctx.check(not np.any((q == 0) & (R == 1)) and not np.any((q == 1) & (R == 0)), "reward-of-other-action", lambda: f"rewards {show(R[:4])} where the expected rewards are {show(q[:4])}")
            if rf is None:
                # context-free: one expected reward per item and position
                seen = {}
                for i in range(n):
                    for k in range(ll):
                        v = seen.setdefault((k, int(A[i, k])), E[i, k])
                        ctx.check(abs(v - E[i, k]) < 1e-9, "expected-constant", lambda: f"item {A[i, k]} at position {k} has two expected rewards")
            if not p["rig"]:
                M = np.array([G.marginals(lg[np.argmax(grp == k)], ll, p["fac"]) if np.any(grp == k) else np.zeros((ll, na)) for k in range(G.K)])
                for k in range(ll):
                    self.frequencies(ctx, p, A[:, k], M[grp][:, k, :], f"position {k}, item")
                    q = disc[:, k] * E[:, k]
                    var = q * (1 - q) if p["rt"] == "binary" else np.full(n, np.mean((R[:, k] - q) ** 2))
                    self.mean_reward(ctx, A[:, k], R[:, k], q, var, f"position {k}, item")
                    self.mean_reward(ctx, np.zeros(n, int), R[:, k], q, var, f"position {k}, all items")
                if p["rt"] == "continuous":  # noise at different positions is independent
                    z = (R - E) / np.sqrt(np.mean((R - E) ** 2, axis=0))
                    c = float(np.mean(z[:, 0] * z[:, 1]) * np.sqrt(n))
                    ctx.check(abs(c) < SIGMA, "reward-noise", lambda: f"rewards at positions 0 and 1 are correlated given the slate ({c:.1f} standard errors)")
            self.cover(ctx, p, p["rs"], p["cm"], p["fac"], p["item"], na > 128)
            ctx.tick(n)
            ctx.log(n, digest([A, R]))

    def multiclass(self, p, ctx):
        g = np_rng("mc", p["t"])
        n, k = p["n"], p["k"]
        y = g.permutation(np.arange(n) % k)
        X = g.normal(size=(n, 2))
        labels = y * p["gap"] + p["off"]
        key = p["t"]
        led = G.TableClassifier.ledgers[key] = dict(fits=[], fail=None, exc=SimFault)
        try:
            ds = ctx.call("MultiClassToBanditReduction", D.MultiClassToBanditReduction, X=X, y=labels, base_classifier_b=G.TableClassifier(key, k), alpha_b=p["alpha"], n_deficient_actions=p["nd"])
            ctx.call("split_train_eval", ds.split_train_eval, eval_size=p["ev"], random_state=p["seed"])
            where = {X[i].tobytes(): i for i in range(n)}
            first = None
            for j, s in enumerate(p["reqs"]):
                if p["fault"] is not None and j == 0:
                    led["fail"] = 1
                    try:
                        ds.obtain_batch_bandit_feedback(random_state=s)
                    except INJECTED:
                        ctx.fault("fit-failed")
                    led["fail"] = None
                led["fits"].clear()
                b = ctx.call("obtain_batch_bandit_feedback", ds.obtain_batch_bandit_feedback, random_state=s)
                x = np.asarray(b["context"])
                m = x.shape[0]
                idx = [where.get(row.tobytes()) for row in x]
                ctx.check(None not in idx and len(set(idx)) == m == b["n_rounds"], "rows", "the logged contexts are not distinct rows of the data")
                ctx.check(first is None or idx == first, "rows", "the evaluation part changed between batches")
                first = idx
                for Xf, yf in led["fits"]:
                    tr = [where.get(row.tobytes()) for row in Xf]
                    ctx.check(not set(tr) & set(idx), "train-eval-leak", lambda: f"the behaviour classifier was trained on logged rows {sorted(set(tr) & set(idx))[:4]}")
                    ctx.check(sorted(tr + idx) == list(range(n)), "rows", "training and evaluation part do not cover the data")
                    ctx.check(np.array_equal(np.asarray(yf), y[tr]), "labels", "the classifier was trained with labels of other rows")
                pred = G.TableClassifier(key, k).predict(x)
                want = np.full((m, k), (1 - p["alpha"]) / k)
                want[np.arange(m), pred] += p["alpha"]
                pi = np.asarray(b["pi_b"])[:, :, 0]
                for i in range(m):
                    sup = pi[i] > 0
                    ctx.check(int(sup.sum()) == k - p["nd"], "deficiency", lambda: f"round {i}: support of {int(sup.sum())} actions, expected {k - p['nd']}")
                    ctx.check(close(pi[i, sup], want[i, sup] / want[i, sup].sum()), "pi", lambda: f"round {i}: pi_b {show(pi[i])}, the classifier's policy is {show(want[i])}")
                self.logged(ctx, p, b, pi, m)
                a = np.asarray(b["action"])
                ctx.check(np.array_equal(np.asarray(b["reward"]), (a == y[idx]).astype(float)), "reward", lambda: f"rewards {show(b['reward'])} for actions {show(a)} and classes {show(y[idx])}")
                ae = ctx.call("obtain_action_dist_by_eval_policy", ds.obtain_action_dist_by_eval_policy, base_classifier_e=G.TableClassifier(key + 1, k), alpha_e=0.5)
                pe = np.full((m, k), 0.5 / k)
                pe[np.arange(m), G.TableClassifier(key + 1, k).predict(x)] += 0.5
                ctx.check(close(np.asarray(ae)[:, :, 0], pe), "pi-e", "evaluation policy differs from the classifier's policy")
                self.cover(ctx, p, p["off"], p["gap"], k)
                ctx.tick(m)
                ctx.log(m, digest([a, b["reward"]]))
        finally:
            del G.TableClassifier.ledgers[key]

    def env(self, p, ctx):
        rf = G.Table(G.reward_table(p["t"], p["na"], "binary")) if p["rf"] else None
        env = ctx.call("BanditEnvironmentSimulator", BanditEnvironmentSimulator, n_actions=p["na"], dim_context=p["dim"], reward_function=rf, random_state=p["seed"])
        free = None
        for n in p["batches"]:
            single = n == 1
            b = ctx.call("next_bandit_round", env.next_bandit_round) if single else ctx.call("next_bandit_round_batch", env.next_bandit_round_batch, n)
            x = np.asarray(b.context).reshape(n, p["dim"])
            e = np.asarray(b.expected_rewards, dtype=float).reshape(n, p["na"])
            r = np.asarray(b.rewards, dtype=float).reshape(n, p["na"])
            if rf is not None:
                ctx.check(close(e, rf(x)), "expected-reward", "expected rewards differ from the reward function")
            else:
                free = e[0] if free is None else free
                ctx.check(close(e, np.tile(free, (n, 1))), "expected-constant", "context-free expected rewards vary")
            q = dict(p, rt="binary")
            for k in range(p["na"]):
                self.reward(ctx, q, r[:, k], e[:, k], np.full(n, k), not p["rig"])
            r2 = np.asarray(ctx.call("sample_reward", env.sample_reward, x), dtype=float)
            for k in range(p["na"]):
                self.reward(ctx, q, r2[:, k], e[:, k], np.full(n, k), not p["rig"])
            self.cover(ctx, p, single)
            ctx.tick(n)
            ctx.log(n, digest([e, r]))

    def simplify(self, plan):
        if plan["rig"]:
            yield dict(plan, rig=0.0)
        if len(plan["batches"]) > 1:
            yield dict(plan, batches=plan["batches"][:1])
        for n in (1, 2, 9):
            if max(plan["batches"]) > n:
                yield dict(plan, batches=[min(b, n) for b in plan["batches"]])


PROP = Prop()

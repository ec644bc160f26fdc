import numpy as np

from obp.simulator.coefficient_drifter import CoefficientDrifter
from obp.simulator.delay_sampler import ExponentialDelaySampler
from obp.simulator.simulator import BanditEnvironmentSimulator

from .. import gens as G
from ..core import FAULTS, arr_eq, digest, np_rng, show
from ..seams import rigged_randomness

SIGMA = 7.5


class Part:
    """a collaborator that fails when told to, before it does anything"""

    def __init__(self, f):
        self.f, self.armed, self.calls = f, None, 0

    def __call__(self, *a, **k):
        self.calls += 1
        if self.armed:
            kind, self.armed = self.armed, None
            raise FAULTS[kind]("injected")
        return self.f(*a, **k)


class Prop:
    id = "C19"
    runs = {"quick": 5000, "thorough": 80000}
    time_unit = "environment rounds"
    rule = ("a run draws rounds from one environment, singly and in batches, with a tabular or drifting reward function and a real or scripted delay function, some of "
            "which fail; every round must carry the expected rewards of its own context at its absolute time, rewards drawn under them, and delays drawn for them")
    measure = "distinct (reward world, delay function, drift, request pattern, failure) tuples"
    real = ["BanditEnvironmentSimulator", "CoefficientDrifter", "ExponentialDelaySampler"]
    stub = ["reward functions: tables or a linear model of the drifter's coefficients; failing on command", "scripted delay function"]
    assumptions = ["fractions and means are judged at 7.5 standard errors", "a request whose delay function failed has used up its rounds of the drift schedule"]

    def generate(self, r, i, tier):
        asks = []
        for _ in range(r.choice([2, 4, 7, 12])):
            a = dict(n=r.choice([0, 0, 1, 2, 5, 9]))  # 0: a single round
            if r.random() < 0.15:
                a["fail"] = dict(at=r.choice(["reward", "delay"]), kind=r.choice(["exception", "interrupt", "memory"]))
            if r.random() < 0.1:
                a["extra"] = r.choice(["context", "reward", "expected"])
            asks.append(a)
        big = r.random() < 0.3
        if big:
            asks.append(dict(n=r.choice([300, 1200])))
        wide = r.random() < 0.02
        return dict(na=r.choice([7, 12]) if wide else r.randint(2, 4), dim=r.choice([2, 6]) if wide else r.randint(1, 3), world=r.choice(["table", "table", "drift", "free"]), delay=r.choice(["none", "exp", "expw", "expw", "script"]), lo=r.choice([1.0, 5.0]), hi=r.choice([1.0, 8.0, 40.0, 100.0]), rig=r.choice([0.0, 0.0, 0.3]), seed=r.randrange(10**6), asks=asks,
                    drift=dict(d=r.choice([1, 3, 5, 8]), t=r.randint(0, 2), seasonal=r.random() < 0.4, bw=r.choice([0.0, 0.4])))

    def drifter(self, p):
        q = p["drift"]
        return CoefficientDrifter(drift_interval=q["d"], transition_period=min(q["t"], q["d"]), seasonal=q["seasonal"], base_coefficient_weight=q["bw"], effective_dim_context=p["dim"], effective_dim_action_context=p["na"], random_state=p["seed"] % 7919)

    @staticmethod
    def model(context, cc, ac):
        z = np.asarray(context) * cc
        return 1.0 / (1.0 + np.exp(-(z.sum(1)[:, None] + 3.0 * (ac - 0.5))))

    def run(self, p, ctx):
        # the twin drifter must see the same draws
        with rigged_randomness(p["seed"], 0.0 if p["world"] == "drift" else p["rig"], ctx):
            self.play(p, ctx)

    def play(self, p, ctx):
        na, dim = p["na"], p["dim"]
        tab = G.Table(G.reward_table(p["seed"], na, "binary"))
        kw, seen = {}, []
        drift = ref = None
        if p["world"] == "table":
            rf = Part(lambda context, **k: tab(context))
        elif p["world"] == "drift":
            drift = self.drifter(p)
            total = sum(max(1, a["n"]) for a in p["asks"]) * 2 + 5
            ref = [np.asarray(c) for c in self.drifter(p).get_coefficients(n_rounds=total)]
            rf = Part(lambda context, action_context, random_state, coef_function, **k: self.model(context, *[np.asarray(c).reshape(len(context), -1) for c in coef_function(n_rounds=len(context), effective_dim_context=dim, effective_dim_action_context=na)[:2]]))
            kw["coef_function"] = drift.get_coefficients
        else:
            rf = None
        if rf is not None:
            kw["reward_function"] = rf
        sampler = ExponentialDelaySampler(max_scale=max(p["hi"], p["lo"]), min_scale=p["lo"], random_state=p["seed"] % 3571) if p["delay"] in ("exp", "expw") else None
        df = None
        if p["delay"] != "none":
            def script(n_rounds, n_actions, expected_rewards, **k):
                seen.append(np.array(expected_rewards))
                return np_rng("dl", p["seed"], len(seen)).integers(0, 9, (n_rounds, n_actions))

            df = Part(script if p["delay"] == "script" else sampler.exponential_delay_function if p["delay"] == "exp" else sampler.exponential_delay_function_expected_reward_weighted)
            kw["delay_function"] = df
        env = ctx.call("BanditEnvironmentSimulator", BanditEnvironmentSimulator, n_actions=na, dim_context=dim, random_state=p["seed"] % 99991, **kw)
        t, free, D, E, R, pattern = 0, None, [], [], [], []
        for a in p["asks"]:
            n = max(1, a["n"])
            ask = env.next_bandit_round if a["n"] == 0 else lambda: env.next_bandit_round_batch(n)
            f = a.get("fail")
            part = None if f is None else rf if f["at"] == "reward" else df
            if part is not None:
                part.armed = f["kind"]
                ok, _ = ctx.attempt("failing request", ask)
                ctx.check(not ok and part.armed is None, "swallowed", lambda: f"the failure of the {f['at']} function did not surface")
                ctx.fault(f"{f['at']}-function-{f['kind']}")
                if f["at"] == "delay":
                    t += n
                pattern.append("fail-" + f["at"])
            if a.get("extra") and p["world"] != "drift":
                x = np_rng("ex", p["seed"], len(D)).normal(size=(3, dim))
                if a["extra"] == "context":
                    ctx.check(np.shape(ctx.call("next_context_batch", env.next_context_batch, 4)) == (4, dim) and np.shape(ctx.call("next_context", env.next_context)) == (1, dim), "shape", "contexts")
                elif a["extra"] == "reward":
                    ctx.check(np.shape(ctx.call("sample_reward", env.sample_reward, x)) == (3, na), "shape", "sample_reward")
                elif rf is not None:
                    ctx.check(arr_eq(ctx.call("calc_expected_reward", env.calc_expected_reward, x), tab(x)), "expected-reward", "calc_expected_reward")
            k0 = len(seen)
            b = ctx.call("next_bandit_round", ask)
            x, e, r = (np.asarray(v, dtype=float) for v in (b.context, b.expected_rewards, b.rewards))
            ctx.check(x.size == n * dim and e.size == n * na and r.size == n * na, "shape", lambda: f"asked for {n} rounds: context {x.shape}, rewards {r.shape}, expected {e.shape}")
            x, e, r = x.reshape(n, dim), e.reshape(n, na), r.reshape(n, na)
            ctx.check(b.n_actions == na and (a["n"] == 0 or len(b) == n), "shape", "number of actions or rounds")
            if p["world"] == "table":
                want = tab(x)
            elif p["world"] == "drift":
                want = self.model(x, ref[0][t : t + n].reshape(n, -1), ref[1][t : t + n].reshape(n, -1))
            else:
                free = e[0] if free is None else free
                want = np.tile(free, (n, 1))
            ctx.check(np.allclose(e, want, rtol=0, atol=1e-10), "expected-reward", lambda: f"rounds {t}..{t + n - 1}: expected rewards {show(e[:3])}, the world gives {show(want[:3])}")
            t += n
            ctx.check(bool(np.all((r == 0) | (r == 1))) and not np.any((e == 0) & (r == 1)) and not np.any((e == 1) & (r == 0)), "reward", lambda: f"rewards {show(r[:3])} for expected rewards {show(e[:3])}")
            if p["delay"] == "none":
                ctx.check(b.round_delays is None, "delays", "delays without a delay function")
            else:
                d = np.asarray(b.round_delays, dtype=float)
                ctx.check(d.size == n * na and d.shape[-1] == na, "shape", lambda: f"delays of shape {d.shape}")
                d = d.reshape(n, na)
                ctx.check(bool(np.all(d >= 0) and np.all(d == np.floor(d)) and np.all(np.isfinite(d))), "delays", lambda: f"delays {show(d[:4])} are not whole numbers of rounds")
                if p["delay"] == "script":
                    ctx.check(len(seen) == k0 + 1 and arr_eq(np.asarray(seen[-1]).reshape(n, na), e), "delays", "the delay function was not asked once for these rounds' expected rewards")
                    ctx.check(arr_eq(d, np_rng("dl", p["seed"], len(seen)).integers(0, 9, (n, na))), "delays", lambda: f"delays {show(d)} differ from those of the delay function")
                if p["delay"] == "exp":
                    ctx.check(bool(np.all(d == d[:, :1])), "delays", lambda: f"one delay per round expected, got {show(d[:4])}")
                D.append(d)
            E.append(e)
            R.append(r)
            pattern.append(min(n, 10) if a["n"] else 0)
            ctx.tick(n)
            ctx.log(n, digest([x, r]))
        self.laws(p, ctx, np.vstack(E), np.vstack(R), np.vstack(D) if D else None)
        ctx.cover(p["world"], p["delay"], p["rig"], tuple(pattern[:4]))

    def laws(self, p, ctx, E, R, D):
        if p["rig"]:
            return
        v = E * (1 - E)
        for k in range(p["na"]):
            if v[:, k].sum() > 20:
                z = (R[:, k] - E[:, k]).sum() / np.sqrt(v[:, k].sum())
                ctx.check(abs(z) < SIGMA, "reward", lambda: f"rewards of action {k} are {z:.1f} standard errors off their expected rewards")
        w = v.sum()
        if w > 20 and p["na"] > 1:  # draws for different actions are independent
            c = ((R[:, 0] - E[:, 0]) * (R[:, 1] - E[:, 1])).sum() / np.sqrt(max(1e-9, (v[:, 0] * v[:, 1]).sum()))
            ctx.check(abs(c) < SIGMA or (v[:, 0] * v[:, 1]).sum() < 3, "reward", lambda: f"rewards of actions 0 and 1 are correlated ({c:.1f} standard errors)")
        if D is None or p["delay"] not in ("exp", "expw") or len(D) < 100:
            return
        hi, lo = max(p["hi"], p["lo"]), p["lo"]
        s = np.full(D.shape, hi) if p["delay"] == "exp" else lo + (1 - E) * (hi - lo)
        q = np.exp(-1.0 / s)
        for what, sel in (("short", s <= np.median(s)), ("long", s >= np.median(s))):
            cols = [0] if p["delay"] == "exp" else range(p["na"])
            for k in cols:
                m = sel[:, k]
                if m.sum() < 60:
                    continue
                d, qq = D[m, k], q[m, k]
                z = (d - 1 / (1 - qq)).sum() / np.sqrt((qq / (1 - qq) ** 2).sum())
                ctx.check(abs(z) < SIGMA, "delay-law", lambda: f"action {k}: mean delay {d.mean():.2f}, the law says {np.mean(1 / (1 - qq)):.2f} ({z:.1f} standard errors)")
                u = np.exp(-d / s[m, k])  # heavy part of the law: P(delay > its scale)
                far = (d > np.ceil(s[m, k])).astype(float)
                pr = qq ** np.ceil(s[m, k])
                z2 = (far - pr).sum() / np.sqrt((pr * (1 - pr)).sum())
                ctx.check(abs(z2) < SIGMA and np.all(np.isfinite(u)), "delay-law", lambda: f"action {k}: {far.mean():.3f} of the delays exceed their scale, the law says {pr.mean():.3f}")

    def simplify(self, plan):
        for k, v in (("rig", 0.0), ("delay", "none"), ("world", "table")):
            if plan[k] != v:
                yield dict(plan, **{k: v})


PROP = Prop()

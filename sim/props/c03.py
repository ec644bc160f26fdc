import numpy as np

from obp.dataset import logistic_reward_function
from obp.simulator.coefficient_drifter import CoefficientDrifter
from obp.simulator.delay_sampler import ExponentialDelaySampler
from obp.simulator.simulator import BanditEnvironmentSimulator, BanditPolicySimulator, BanditRound, BanditRounds

from .. import policies
from ..core import FAULTS, INJECTED, arr_eq, np_rng, show
from ..seams import Scheduler, gen_switches
from ..world import make_delays

DELAYS = ["none", "zero", "small", "pile", "mixed", "far"]


class Wrapped:
    """the shipped policy behind a collaborator that may fail before the policy is reached"""

    def __init__(self, policy, faults):
        self.p = policy
        self.faults = {f["round"]: f["kind"] for f in faults}
        self.sim = None
        self.fired = []

    @property
    def policy_type(self):
        return self.p.policy_type

    @property
    def policy_name(self):
        return self.p.policy_name

    def select_action(self, *a, **k):
        t = self.sim.rounds_played
        if t in self.faults:
            kind = self.faults.pop(t)
            self.fired.append(kind)
            raise FAULTS[kind]("injected")
        return self.p.select_action(*a, **k)

    def update_params(self, *a, **k):
        return self.p.update_params(*a, **k)


class Rounds:
    """the rounds of a batch, taken out one by one, all ahead, a few ahead, or out of a list several simulations share"""

    def __init__(self, batch, take, collected):
        self.take = take
        if take == "shared":
            self.rounds = collected
        else:
            self.rounds = list(batch) if take == "list" else []
        self.it = iter(batch)

    def get(self, t):
        if self.take in ("lazy", "ahead"):
            while len(self.rounds) <= t + (2 if self.take == "ahead" else 0):
                try:
                    self.rounds.append(next(self.it))
                except StopIteration:
                    break
        return self.rounds[t]


class Prop:
    id = "C03"
    runs = {"quick": 2500, "thorough": 100000}
    time_unit = "bandit rounds"
    rule = ("a run plays the same rounds with the same shipped policies twice: once uninterrupted and alone, once cut into random "
            "stepping operations, interrupted by failing policy calls that are retried, and interleaved (by operation or by line of "
            "code, in threads) with other simulations that share the batch; non-trivial when the cut differs from the reference")
    measure = "distinct (policies, mode, cuts, way of taking rounds, delay style, rounds) tuples and distinct thread schedules"
    real = ["BanditPolicySimulator", "BanditRounds", "BanditEnvironmentSimulator", "CoefficientDrifter", "ExponentialDelaySampler", "all nine shipped online policies"]
    stub = ["thread scheduler (one thread runs at a time, switches at planned lines)", "a wrapper that fails before the policy is reached"]
    assumptions = ["an environment or delay sampler is used by one simulation only; a batch of rounds may be shared"]

    def generate(self, r, i, tier):
        na, dim = r.randint(2, 4), r.randint(1, 3)
        mode = r.choice(["parts", "parts", "interleave", "threads"])
        source = r.choice(["batch", "batch", "env", "envbatch"])
        n = r.choice([3, 6, 12, 25])
        if r.random() < 0.012:  # long runs, many actions
            n, na, dim = r.choice([120, 300]), r.choice([3, 11]), r.choice([2, 6])
            mode = r.choice(["parts", "interleave"])
        sims = []
        for _ in range(1 if mode == "parts" else r.choice([2, 2, 3])):
            parts, left = [], n
            while left > 0:
                k = min(left, r.choice([1, 1, 2, 3, 5, n]) if n <= 25 else r.choice([1, 7, 40, n]))
                parts.append(dict(op=r.choice(["step", "steps"]), n=k))
                left -= k
            s = dict(policy=policies.gen_spec(r, na, dim), parts=parts, faults=[], take=r.choice(["lazy", "lazy", "list", "shared", "ahead"]))
            if r.random() < 0.4 and mode != "threads":
                s["faults"] = [dict(round=r.randrange(n), kind=r.choice(["exception", "interrupt", "memory"])) for _ in range(r.randint(1, 3))]
            sims.append(s)
        p = dict(mode=mode, source=source, n=n, n_actions=na, dim=dim, delay=r.choice(DELAYS), seed=r.randrange(10**6), sims=sims,
                 env=dict(reward=r.choice(["none", "logistic"]), delay=r.choice(["none", "exp", "expw"]), drift=r.random() < 0.3))
        if mode == "interleave":
            order = [k for k, s in enumerate(sims) for _ in s["parts"]]
            r.shuffle(order)
            p["order"] = order
        if mode == "threads":
            p["switches"] = gen_switches(r, r.choice([1, 2, 4, 8]), 60 * n * len(sims) if source == "env" else 45 * n * len(sims))
        return p

    # -- building the same world again ---------------------------------------------------------
    def arrays(self, p):
        g = np_rng("c03", p["seed"])
        n, k = p["n"], p["n_actions"]
        cx = g.normal(size=(n, p["dim"]))
        rw = (g.random((n, k)) < g.random((1, k))).astype(int)
        dl = None if p["delay"] == "none" else make_delays(g, n, k, p["delay"])
        return cx, rw, dl

    def batch(self, p, arrs, a=0, b=None):
        cx, rw, dl = arrs
        b = p["n"] if b is None else b
        return BanditRounds(n_rounds=b - a, n_actions=p["n_actions"], context=cx[a:b], action_context=np.eye(p["n_actions"], dtype=int), rewards=rw[a:b], expected_rewards=rw[a:b].astype(float), round_delays=None if dl is None else dl[a:b])

    def env(self, p, j):
        e = p["env"]
        kw = dict(n_actions=p["n_actions"], dim_context=p["dim"], random_state=(p["seed"] + 17 * j) % 99991)
        if e["reward"] == "logistic" or e["drift"]:
            kw["reward_function"] = logistic_reward_function
        if e["drift"]:
            kw["coef_function"] = CoefficientDrifter(drift_interval=3 + p["seed"] % 4, transition_period=p["seed"] % 3, seasonal=bool(p["seed"] % 2), random_state=p["seed"] % 7919).get_coefficients
        if e["delay"] != "none":
            s = ExponentialDelaySampler(max_scale=4.0, min_scale=1.0, random_state=p["seed"] % 3571)
            kw["delay_function"] = s.exponential_delay_function if e["delay"] == "exp" else s.exponential_delay_function_expected_reward_weighted
        return BanditEnvironmentSimulator(**kw)

    def simulator(self, p, j, faults=()):
        w = Wrapped(policies.make(p["sims"][j]["policy"]), faults)
        w.sim = BanditPolicySimulator(policy=w, environment=self.env(p, j) if p["source"] == "env" else None)
        return w

    def observe(self, p, w):
        s = w.sim
        g = np_rng("probe", p["seed"])
        rec = [int(s.rounds_played), np.array(s.selected_actions), np.array(s.obtained_rewards, float), float(s.total_reward)]
        if s.rounds_played:
            rec += [np.array(s.contexts), np.array(s.ground_truth_rewards)]
        s.clear_delayed_queue()
        return rec + [policies.select(w.p, g.normal(size=p["dim"])) for _ in range(6)]

    def part(self, p, arrs, w, it, part, a, shared):
        """play rounds a .. a+n, retrying what an injected failure stopped"""
        b = min(a + part["n"], p["n"])
        if p["source"] == "env":
            while w.sim.rounds_played < b:
                try:
                    if part["op"] == "steps":
                        w.sim.steps(n_rounds=b - w.sim.rounds_played)
                    else:
                        w.sim.step()
                except INJECTED:
                    # the drawn round is still there; play it without drawing another
                    w.sim.step(w.sim.current_round)
            return b
        whole = part["op"] == "steps" and a == 0 and b == p["n"]
        while w.sim.rounds_played < b:
            t = w.sim.rounds_played
            try:
                if whole and t == 0:
                    w.sim.steps(batch_bandit_rounds=shared)
                elif part["op"] == "steps":
                    w.sim.steps(batch_bandit_rounds=self.batch(p, arrs, t, b))
                else:
                    w.sim.step(it.get(t))
            except INJECTED:
                if w.sim.rounds_played == t and part["op"] == "steps" and not whole:
                    cx, rw, dl = arrs
                    w.sim.step(BanditRound(n_actions=p["n_actions"], context=cx[t], action_context=np.eye(p["n_actions"], dtype=int)[0], rewards=rw[t], expected_rewards=rw[t].astype(float), round_delays=None if dl is None else dl[t]))
        return b

    def play(self, p, arrs, w, j, shared):
        """generator: one item per part"""
        it = Rounds(shared, p["sims"][j]["take"], self.collected) if shared is not None else None
        a = 0
        for part in p["sims"][j]["parts"]:
            a = self.part(p, arrs, w, it, part, a, shared)
            yield a

    def run(self, p, ctx):
        arrs = self.arrays(p)
        if p["source"] == "envbatch":
            drawn = ctx.call("next_bandit_round_batch", self.env(p, 0).next_bandit_round_batch, n_rounds=p["n"])
            arrs = tuple(None if a is None else np.array(a) for a in (drawn.context, drawn.rewards, drawn.round_delays))
        ref = []
        for j in range(len(p["sims"])):
            w = self.simulator(p, j)
            if p["source"] == "env":
                n = sum(q["n"] for q in p["sims"][j]["parts"])
                ctx.call("steps(n_rounds)", w.sim.steps, n_rounds=min(n, p["n"]))
            else:
                n = min(p["n"], sum(q["n"] for q in p["sims"][j]["parts"]))
                own = tuple(None if a is None else a.copy() for a in arrs)
                if n:
                    ctx.call("steps(batch)", w.sim.steps, batch_bandit_rounds=self.batch(p, own, 0, n))
            ref.append(ctx.call("observe", self.observe, p, w))
        shared = None
        self.collected = []
        if p["source"] == "batch":
            shared = self.batch(p, arrs)
        elif p["source"] == "envbatch":
            shared = drawn
        if shared is not None and any(s["take"] == "shared" for s in p["sims"]):
            self.collected = list(shared)
        ws = [self.simulator(p, j, s["faults"] if p["mode"] != "threads" else ()) for j, s in enumerate(p["sims"])]
        runs = [self.play(p, arrs, w, j, shared) for j, w in enumerate(ws)]
        if p["mode"] == "threads":
            def go(g):
                for _ in g:
                    pass
            for j, (ok, v) in enumerate(Scheduler(p["switches"], ctx).run([lambda g=g: go(g) for g in runs])):
                ctx.check(ok, "operation-failed", lambda: f"simulation {j} raised {type(v).__name__}: {v}")
        else:
            for j in list(p.get("order", [])) + [j for j in range(len(runs)) for _ in p["sims"][j]["parts"]]:
                ctx.call("play", next, runs[j], None)
        for j, w in enumerate(ws):
            for kind in w.fired:
                ctx.fault(f"select-{kind}")
            got = ctx.call("observe", self.observe, p, w)
            ctx.tick(got[0])
            names = ["rounds played", "selected actions", "obtained rewards", "total reward", "contexts", "reward tables"] + [f"later choice {i}" for i in range(6)]
            if len(got) != len(names):
                names = names[:4] + names[6:]
            ctx.check(len(got) == len(ref[j]), "differs", "record shape")
            for nm, x, y in zip(names, got, ref[j]):
                ctx.check(arr_eq(x, y), "differs", lambda: f"simulation {j} ({p['sims'][j]['policy']['kind']}, {p['mode']}): {nm} {show(x)}, played in one piece and alone {show(y)}")
            ctx.cover(p["mode"], p["source"], p["delay"], p["sims"][j]["policy"]["kind"], tuple((q["op"], q["n"]) for q in p["sims"][j]["parts"]), p["sims"][j]["take"])
            ctx.log(j, got[0], got[3])

    def simplify(self, plan):
        if plan["mode"] == "threads":
            yield dict(plan, mode="parts")
        if plan["n"] > 1:
            for n in (plan["n"] // 2, plan["n"] - 1):
                yield dict(plan, n=n)


PROP = Prop()

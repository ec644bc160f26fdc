"""The online-simulation world: real BanditPolicySimulator and BanditEnvironmentSimulator, a scripted
policy, scripted rewards and delays, and a small reference model of what must happen."""
import numpy as np

from obp.policy.base import BaseContextFreePolicy, BaseContextualPolicy
from obp.simulator.delay_sampler import ExponentialDelaySampler
from obp.simulator.simulator import (
    BanditEnvironmentSimulator,
    BanditPolicySimulator,
    BanditRound,
    BanditRounds,
)

from .core import FAULTS, arr_eq, np_rng, show


class FaultPoint:
    """Raises the planned failure at the nth call of one kind within the current operation."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.fault = None
        self.fired = None
        self.count = {}

    def arm(self, fault):
        self.fault = fault
        self.count = {}
        self.fired = None

    def hit(self, where, when):
        f = self.fault
        if not f or f["at"] != where or f.get("when", "before") != when:
            return
        c = self.count[where] = self.count.get(where, 0) + 1
        if c == f["nth"]:
            self.fired = where
            self.ctx.fault(f"{where}-{when}-{f['kind']}")
            raise FAULTS[f["kind"]](f"injected at {where}")


class Recorder:
    """the scripted policy: what it is shown, what it is told, what it answers"""

    def setup(self, fp, script):
        self.fp = fp
        self.script = script
        self.events = []
        self.acc = script
        self.seq = 0

    def _select(self, context):
        ev = ["select", None if context is None else np.array(context, copy=True), None, "failed"]
        self.events.append(ev)
        self.fp.hit("select", "before")
        self.seq += 1
        a = (self.seq * 7 + self.acc) % self.n_actions
        self.fp.hit("select", "after")
        ev[2:] = [a, "ok"]
        return np.array([(a + i) % self.n_actions for i in range(self.len_list)])

    def _update(self, action, reward, context):
        ev = ["update", None if context is None else np.array(context, copy=True), action, reward, "failed"]
        self.events.append(ev)
        self.fp.hit("update", "before")
        self.acc = (self.acc * 31 + int(action) * 5 + int(round(float(reward) * 977))) % 1000003
        self.fp.hit("update", "after")
        ev[-1] = "ok"


class FreePolicy(Recorder, BaseContextFreePolicy):
    policy_name = "sim_free"

    def select_action(self):
        return self._select(None)

    def update_params(self, action, reward):
        self._update(action, reward, None)


class CtxPolicy(Recorder, BaseContextualPolicy):
    policy_name = "sim_ctx"

    def select_action(self, context):
        return self._select(context)

    def update_params(self, action, reward, context):
        self._update(action, reward, context)


class World:
    def __init__(self, plan, ctx):
        self.ctx = ctx
        self.plan = plan
        c = plan["config"]
        self.n_actions, self.dim = c["n_actions"], c["dim"]
        self.ctxual = c["policy"] == "ctx"
        self.fp = FaultPoint(ctx)
        if self.ctxual:
            self.policy = CtxPolicy(dim=self.dim, n_actions=self.n_actions, len_list=c["len_list"])
        else:
            self.policy = FreePolicy(n_actions=self.n_actions, len_list=c["len_list"])
        self.policy.setup(self.fp, c["script"])
        self.drawn = []  # rounds the environment produced: (context, rewards, delays)
        self.cur = {}
        self.env = None
        self.g = np_rng("env", c["seed"])
        kw = dict(n_actions=self.n_actions, dim_context=self.dim, reward_function=self._reward, random_state=c["seed"] % 100000)
        d = c["env_delay"]
        self.sampler = None
        if d == "script":
            kw["delay_function"] = self._delay
        elif d in ("exp", "expw"):
            self.sampler = ExponentialDelaySampler(max_scale=c["scale"], min_scale=1.0, random_state=c["seed"] % 9973)
            kw["delay_function"] = self._sampled_delay
        self.env = BanditEnvironmentSimulator(**kw)
        self.sim = BanditPolicySimulator(policy=self.policy, environment=self.env)
        # reference model
        self.hist = []  # completed rounds: (context, rewards, action)
        self.pending = {}  # due round -> [round, ...]
        self.stuck = []  # due, but the delivery before them failed

    # collaborators of the environment ---------------------------------------------------------
    def _reward(self, context, action_context, random_state=None, coef_function=None, **_):
        self.fp.hit("reward", "before")
        context = np.asarray(context)
        p = (self.g.random((context.shape[0], self.n_actions)) < 0.5).astype(float)
        self.cur = dict(context=np.array(context, copy=True), rewards=p.copy(), delays=None)
        if self.plan["config"]["env_delay"] == "none":
            self._emit()
        return p

    def _emit(self):
        c = self.cur
        for i in range(c["context"].shape[0]):
            self.drawn.append((c["context"][i], c["rewards"][i], None if c["delays"] is None else np.array(c["delays"][i], copy=True)))

    def _delay(self, n_rounds=None, n_actions=None, expected_rewards=None, **_):
        self.fp.hit("delay", "before")
        d = make_delays(self.g, n_rounds, n_actions, self.plan["config"]["delay_style"])
        self.cur["delays"] = d.copy()
        self._emit()
        return d

    def _sampled_delay(self, **kw):
        self.fp.hit("delay", "before")
        s = self.sampler
        f = s.exponential_delay_function if self.plan["config"]["env_delay"] == "exp" else s.exponential_delay_function_expected_reward_weighted
        d = f(**kw)
        a = np.asarray(d)
        n = kw["n_rounds"]
        self.ctx.check(a.shape == (n, self.n_actions), "delay-shape", lambda: f"{a.shape} for {n} rounds")
        self.ctx.check(bool(np.all(a >= 0) and np.all(a == np.floor(a)) and np.all(np.isfinite(a))), "delay-not-whole", lambda: show(a))
        self.cur["delays"] = a.copy()
        self._emit()
        return d

    # operations ---------------------------------------------------------------------------------
    def scripted_rounds(self, op):
        g = np_rng("rounds", op["seed"])
        n = op["n"]
        cx = g.normal(size=(n, self.dim))
        rw = np.round(g.random((n, self.n_actions)) * 8, 3) if op["real"] else (g.random((n, self.n_actions)) < 0.5).astype(int)
        dl = None if op["delay"] == "none" else make_delays(g, n, self.n_actions, op["delay"])
        return cx, rw, dl

    def batch(self, cx, rw, dl):
        return BanditRounds(n_rounds=cx.shape[0], n_actions=self.n_actions, context=cx, action_context=np.eye(self.n_actions, dtype=int), rewards=rw, expected_rewards=rw.astype(float), round_delays=dl)

    def perform(self, op):
        """Run one operation on the real simulator, then walk the reference model along the events
        the policy observed. Returns the number of rounds played by the operation."""
        k = op["op"]
        n0, d0, r0 = len(self.policy.events), len(self.drawn), len(self.hist)
        # which of several equal undelivered rounds a failed flush reached can only be told by context
        self.fp.arm(op.get("fault") if k != "flush" or self.ctxual else None)
        rounds, keep = [], None
        if k == "flush":
            ok, _ = self.ctx.attempt("clear_delayed_queue", self.sim.clear_delayed_queue)
        elif k == "env":
            ok, _ = self.ctx.attempt("steps(n_rounds)", self.sim.steps, n_rounds=op["n"])
        elif k == "envbatch":
            ok, b = self.ctx.attempt("next_bandit_round_batch", self.env.next_bandit_round_batch, n_rounds=op["n"])
            if ok:
                ok, _ = self.ctx.attempt("steps(batch)", self.sim.steps, batch_bandit_rounds=b)
        else:
            cx, rw, dl = self.scripted_rounds(op)
            keep = [a if a is None else a.copy() for a in (cx, rw, dl)]
            rounds = [(keep[0][i], keep[1][i], None if keep[2] is None else keep[2][i]) for i in range(op["n"])]
            if k == "batch":
                ok, _ = self.ctx.attempt("steps(batch)", self.sim.steps, batch_bandit_rounds=self.batch(cx, rw, dl))
            elif k == "both":
                ok, _ = self.ctx.attempt("steps(n, batch)", self.sim.steps, n_rounds=op["m"], batch_bandit_rounds=self.batch(cx, rw, dl))
            else:
                ok = True
                for i in range(op["n"]):
                    r = BanditRound(n_actions=self.n_actions, context=cx[i] if op.get("flat", True) else cx[i : i + 1], action_context=np.eye(self.n_actions, dtype=int), rewards=rw[i], expected_rewards=rw[i].astype(float), round_delays=None if dl is None else dl[i])
                    ok, _ = self.ctx.attempt("step(round)", self.sim.step, r)
                    if not ok:
                        break
            self.ctx.check(all((a is None and b is None) or arr_eq(a, b) for a, b in zip((cx, rw, dl), keep)), "rounds-modified", f"operation {k} changed the caller's rounds")
        fired = self.fp.fired
        self.fp.arm(None)
        seen = self.policy.events[n0:]
        new = self.drawn[d0:]
        if k in ("env", "envbatch"):
            rounds, total = new, op["n"]
        elif k == "both":
            rounds, total = new + rounds, op["m"] + op["n"]
        else:
            total = op.get("n", 0)
        if k == "flush":
            self._walk_flush(seen, ok)
        else:
            self._walk(op, rounds, total, len(new), seen, ok, fired)
        return len(self.hist) - r0

    # reference model ------------------------------------------------------------------------------
    def _expect(self, seen, pos, kind):
        self.ctx.check(pos < len(seen), "missing-event", lambda: f"round {len(self.hist)}: the policy was never given the expected {kind}")
        self.ctx.check(seen[pos][0] == kind, "wrong-event", lambda: f"after round {len(self.hist)}: expected {kind}, policy saw {seen[pos]}")
        return seen[pos]

    def _is(self, ev, j):
        cx, rw, a = self.hist[j]
        return int(ev[2]) == a and float(ev[3]) == float(rw[a]) and (not self.ctxual or (np.shape(ev[1]) == (1, self.dim) and arr_eq(np.ravel(ev[1]), np.ravel(cx))))

    def _stop(self, seen, pos, ok, want_ok, why):
        self.ctx.check(pos == len(seen), "extra-event", lambda: f"{why}: the policy was also given {seen[pos:]}")
        self.ctx.check(ok == want_ok, "outcome", lambda: f"{why}: operation {'succeeded' if ok else 'failed'}")

    def _walk(self, op, rounds, total, n_drawn, seen, ok, fired):
        pos = 0
        for i in range(total):
            if i >= len(rounds) or (op["op"] == "both" and i >= n_drawn and i < op["m"]):
                self.ctx.check(fired in ("reward", "delay"), "missing-round", lambda: f"only {i} of {total} rounds were produced")
                return self._stop(seen, pos, ok, False, f"environment failed at round {i} of the operation")
            if op["op"] == "envbatch" and fired in ("reward", "delay"):
                return self._stop(seen, pos, ok, False, "environment failed")
            cx, rw, dl = rounds[i]
            ev = self._expect(seen, pos, "select")
            pos += 1
            if self.ctxual:
                self.ctx.check(np.shape(ev[1]) == (1, self.dim) and arr_eq(np.ravel(ev[1]), np.ravel(cx)), "wrong-context", lambda: f"round {len(self.hist)}: policy shown {show(ev[1])}, round has {show(cx)}")
            if ev[-1] == "failed":
                return self._stop(seen, pos, ok, False, "select_action failed")
            r = len(self.hist)
            a = int(ev[2])
            self.hist.append((np.array(cx), np.array(rw), a))
            delay = 0 if dl is None else int(dl[a])
            self.pending.setdefault(r + delay, []).append(r)
            q = self.pending.pop(r, [])
            self.ctx.cover("due", len(q), min(delay, 8), min(sum(map(len, self.pending.values())), 12), len(self.stuck) > 0, op["op"], dl is None)
            while q:
                j = q.pop(0)
                ev = self._expect(seen, pos, "update")
                self.ctx.check(self._is(ev, j), "wrong-feedback", lambda: f"round {r}: feedback of round {j} {show(self.hist[j])} is due, the policy was given {show(ev)}")
                pos += 1
                if ev[-1] == "failed":
                    self.stuck += q
                    return self._stop(seen, pos, ok, False, f"update for round {j} failed")
        self._stop(seen, pos, ok, True, f"operation {op['op']}")

    def _walk_flush(self, seen, ok):
        rest = sorted(self.stuck + [j for q in self.pending.values() for j in q])
        self.ctx.cover("flush", min(len(rest), 12), len(self.stuck) > 0)

        def gone(j):
            rest.remove(j)
            if j in self.stuck:
                self.stuck.remove(j)
            for due in [d for d, q in self.pending.items() if j in q]:
                self.pending[due].remove(j)
                if not self.pending[due]:
                    del self.pending[due]

        for p, ev in enumerate(seen):
            self.ctx.check(ev[0] == "update", "wrong-event", lambda: f"flush: policy saw {show(ev)}")
            j = next((j for j in rest if self._is(ev, j)), None)
            self.ctx.check(j is not None, "wrong-feedback", lambda: f"flush: policy was given {show(ev)}; undelivered are rounds {rest}")
            gone(j)  # what a failed flush leaves is still delivered when due, or by the next flush
            if ev[-1] == "failed":
                return self._stop(seen, p + 1, ok, False, f"update for round {j} failed")
        self.ctx.check(not rest, "undelivered", lambda: f"flush did not deliver rounds {rest}")
        self._stop(seen, len(seen), ok, True, "flush")

    def check_record(self):
        """the public record equals the history of completed rounds"""
        c, s, h = self.ctx, self.sim, self.hist
        n = len(h)
        c.check(int(s.rounds_played) == n, "record-length", lambda: f"rounds_played={s.rounds_played}, completed rounds={n}")
        sel, obt = s.selected_actions, s.obtained_rewards
        c.check(len(sel) == n and len(obt) == n, "record-length", lambda: f"{len(sel)} actions, {len(obt)} rewards recorded for {n} rounds")
        if n:
            gt, cx = s.ground_truth_rewards, s.contexts
            c.check(gt.shape == (n, self.n_actions) and cx.shape == (n, self.dim), "record-length", lambda: f"contexts {cx.shape}, rewards {gt.shape} recorded for {n} rounds")
            c.check(arr_eq(np.asarray(sel, dtype=int), np.array([a for _, _, a in h])), "record-action", lambda: f"recorded {show(sel)}")
            c.check(arr_eq(cx, np.vstack([x for x, _, _ in h])), "record-context", "recorded contexts differ from the rounds played")
            c.check(arr_eq(np.asarray(gt, float), np.vstack([r for _, r, _ in h]).astype(float)), "record-rewards", "recorded reward tables differ from the rounds played")
            want = np.array([r[a] for _, r, a in h], float)
            c.check(arr_eq(np.asarray(obt, float), want), "record-obtained", lambda: f"obtained {show(obt)} want {show(want)}")
        tot = float(sum(float(r[a]) for _, r, a in h))
        c.check(abs(float(s.total_reward) - tot) <= 1e-6 * (1 + abs(tot)), "record-total", lambda: f"total {s.total_reward}, sum of obtained {tot}")


def make_delays(g, n, k, style):
    if style == "zero":
        d = np.zeros((n, k))
    elif style == "small":
        d = g.integers(0, 4, size=(n, k))
    elif style == "row":
        d = np.tile(g.integers(0, 6, size=(n, 1)), (1, k))
    elif style == "pile":  # everything falls due at the same later round
        d = np.tile((n - np.arange(n))[:, None], (1, k))
    elif style == "mixed":
        d = np.where(g.random((n, k)) < 0.3, 0, g.integers(0, 12, size=(n, k)))
    elif style == "float":
        d = g.integers(0, 5, size=(n, k)).astype(float)
    elif style == "far":
        d = g.integers(5, 60, size=(n, k))
    elif style == "long":
        d = np.floor(np.exp(g.uniform(np.log(40), np.log(2500), size=(n, k)))).astype(int)
    else:
        raise ValueError(style)
    return d

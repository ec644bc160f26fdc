import numpy as np

from obp.policy.base import BaseContextFreePolicy, BaseContextualPolicy
from obp.simulator import calc_ground_truth_policy_value

from .. import policies
from ..core import FAULTS, INJECTED, arr_eq, np_rng, show
from ..world import FaultPoint

LEDGER = None


def _ledger():
    return LEDGER


class Ledger:
    """shared by a policy and all its copies"""

    def __init__(self, fp):
        self.fp, self.events, self.copies = fp, [], 0

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_ledger, ())


class Token:
    def __init__(self, led, n):
        self.led, self.n = led, n

    def __deepcopy__(self, memo):
        self.led.copies += 1
        return Token(self.led, self.led.copies)

    __copy__ = __deepcopy__


class Script:
    def setup(self, led, seed):
        self.led, self.tok, self.seq, self.acc = led, Token(led, 0), 0, seed
        return self

    def answer(self):
        self.seq += 1
        return np_rng("c08", self.seq, self.acc).permutation(self.n_actions)[: self.len_list]

    def _select(self, cx):
        self.led.fp.hit("select", "before")
        a = self.answer()
        self.led.events.append(["select", self.tok.n, None if cx is None else np.array(cx, copy=True), a.copy()])
        return a

    def _update(self, a, r, cx):
        self.led.fp.hit("update", "before")
        self.acc = (self.acc * 31 + int(a) + int(round(1000 * float(np.ravel(r)[0])))) % 1000003
        self.led.events.append(["update", self.tok.n, None if cx is None else np.array(cx, copy=True), int(a), float(np.ravel(r)[0])])


class FreeScript(Script, BaseContextFreePolicy):
    policy_name = "s"

    def select_action(self):
        return self._select(None)

    def update_params(self, action, reward):
        self._update(action, reward, None)


class CtxScript(Script, BaseContextualPolicy):
    policy_name = "s"

    def select_action(self, context):
        return self._select(context)

    def update_params(self, action, reward, context):
        self._update(action, reward, context)


class Prop:
    id = "C08"
    runs = {"quick": 4000, "thorough": 150000}
    time_unit = "simulated rounds"
    rule = ("a run computes the simulated ground-truth value of a (pre-trained) scripted or shipped policy several times, some calls "
            "aborted by a failing sampler or policy; non-trivial when at least one call completed")
    measure = "distinct (policy kind, simulations, rounds, prior training, positions, failure point class) tuples"
    real = ["calc_ground_truth_policy_value", "all nine shipped online policies (half of the runs)"]
    stub = ["reward sampler", "scripted policy (half of the runs)"]
    assumptions = ["'the state in which the caller handed the policy in' includes its random state, as the code copies it"]

    def generate(self, r, i, tier):
        na, dim = (r.randint(2, 4), r.randint(1, 3)) if r.random() < 0.98 else (r.choice([8, 13]), r.choice([5, 7]))
        pl = dict(kind=r.choice(["free", "ctx", "shipped", "shipped"]), spec=policies.gen_spec(r, na, dim), n=r.choice([1, 2, 5, 12]), dim=dim, n_sim=r.choice([1, 1, 2, 3, 5]),
                  seed=r.randrange(10**6), pos=r.choice(["none", "zero", "any"]), prior=r.choice([0, 0, 3, 8]), script=r.randrange(1000), calls=[])
        for _ in range(r.choice([1, 2, 3])):
            c = dict(n_sim=pl["n_sim"])
            if r.random() < 0.4:
                c["fault"] = dict(at=r.choice(["sampler", "sampler", "select", "update"]), nth=r.choice([1, 2, 3, 7, 15]), kind=r.choice(["exception", "interrupt", "memory"]), when="before")
            pl["calls"].append(c)
        pl["calls"].append(dict(n_sim=pl["n_sim"]))
        if r.random() < 0.02:  # many rounds or many simulations
            pl["n"], pl["n_sim"] = r.choice([(120, 2), (300, 1), (4, 25), (2, 60)])
            pl["calls"] = pl["calls"][-2:]
            for c in pl["calls"]:
                c["n_sim"] = pl["n_sim"]
        return pl

    def run(self, p, ctx):
        global LEDGER
        s = p["spec"]
        g = np_rng("log", p["seed"])
        n, ll, na, d = p["n"], s["len_list"], s["n_actions"], p["dim"]
        log = dict(n_rounds=n, n_actions=na, action=g.integers(0, na, n), reward=g.integers(0, 2, n), expected_reward=np.round(g.random((n, na)), 4),
                   position={"none": None, "zero": np.zeros(n, int), "any": g.integers(0, ll, n)}[p["pos"]], context=g.normal(size=(n, d)), pscore=np.ones(n))
        keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in log.items()}
        fp = FaultPoint(ctx)
        led = LEDGER = Ledger(fp)
        scripted = p["kind"] != "shipped"

        def build():
            if p["kind"] == "shipped":
                q = policies.make(s)
            elif p["kind"] == "free":
                q = FreeScript(n_actions=na, len_list=ll).setup(led, p["script"])
            else:
                q = CtxScript(dim=d, n_actions=na, len_list=ll).setup(led, p["script"])
            h = np_rng("prior", p["seed"])
            for _ in range(p["prior"]):
                x = h.normal(size=(1, d))
                policies.select(q, x)
                policies.update(q, int(h.integers(na)), int(h.integers(2)), x)
            return q

        pol = build()
        led.events, led.copies = [], 0
        drawn = []

        def sampler(context, action, *a, **k):
            fp.hit("sampler", "before")
            cx, ac = np.array(context, copy=True), int(np.ravel(action)[0])
            # scripted policies: every draw is unique; shipped: a function of context and action
            v = (len(drawn) + 1) / 977.0 if scripted else float(np_rng("r", cx.tobytes(), ac).random() < 0.5)
            drawn.append((cx, ac, v))
            return v

        pos = np.zeros(n, int) if log["position"] is None else keep["position"]
        first = None
        for c in p["calls"]:
            led.events, led.copies = [], 0
            drawn.clear()
            fp.arm(c.get("fault") if scripted or (c.get("fault") or {}).get("at") == "sampler" else None)
            ok, v = ctx.attempt("calc_ground_truth_policy_value", calc_ground_truth_policy_value, bandit_feedback=log, reward_sampler=sampler, policy=pol, n_sim=c["n_sim"])
            fired = fp.fired
            fp.arm(None)
            ctx.check(ok == (fired is None), "outcome", lambda: f"collaborator {'failed' if fired else 'did not fail'}, call {'succeeded' if ok else 'failed'}")
            ctx.check(set(log) == set(keep) and all(log[k] is None and keep[k] is None or arr_eq(log[k], keep[k]) for k in keep), "log-modified", "the logged data were changed")
            ctx.cover(p["kind"], s["kind"] if not scripted else "", c["n_sim"], n, p["prior"] > 0, p["pos"], fired)
            ctx.tick(n * c["n_sim"] if ok else 0)
            ctx.log(ok, float(v) if ok else None)
            if not ok:
                continue
            v = float(v)
            if scripted:
                self.check_history(p, ctx, c, keep, pos, led, drawn, v, pol, build)
            else:
                if first is None:
                    first = v
                    self.check_shipped(p, ctx, c, keep, pos, v, build)
                ctx.check(abs(v - first) <= 1e-12 * (1 + abs(first)), "not-repeatable", lambda: f"value {v}, an equal call before gave {first}")
        # the caller's policy is as it was handed in
        led.events = []
        other = build()
        led.events = []
        for j in range(4):
            x = np_rng("probe", j).normal(size=(1, d))
            a, b = policies.select(pol, x), policies.select(other, x)
            ctx.check(arr_eq(a, b), "policy-changed", lambda: f"the caller's policy now chooses {show(a)}; untouched it would choose {show(b)}")
            policies.update(pol, j % na, 1, x)
            policies.update(other, j % na, 1, x)

    def check_shipped(self, p, ctx, c, log, pos, v, build):
        """the same simulations by hand, each on a policy brought to the same state again"""
        tot = 0.0
        for _ in range(c["n_sim"]):
            q = build()
            for t in range(log["n_rounds"]):
                x = log["context"][t].reshape(1, -1)
                a = int(policies.select(q, x)[pos[t]])
                tot += log["expected_reward"][t, a]
                policies.update(q, a, float(np_rng("r", np.array(x).tobytes(), a).random() < 0.5), x)
        want = tot / (c["n_sim"] * log["n_rounds"])
        ctx.check(abs(v - want) <= 1e-9, "wrong-value", lambda: f"value {v}, mean expected reward of the chosen actions {want}")

    def check_history(self, p, ctx, c, log, pos, led, drawn, v, pol, build):
        ev, n = led.events, log["n_rounds"]
        by = {}
        for e in ev:
            by.setdefault(e[1], []).append(e)
        ctx.check(0 not in by, "policy-used", "the caller's policy itself was asked or updated")
        runs = [b for b in by.values() if b]
        ctx.check(len(runs) == c["n_sim"], "wrong-count", lambda: f"{len(runs)} simulations, {c['n_sim']} requested")
        left = list(drawn)
        tot = 0.0
        cxual = p["kind"] == "ctx"
        for b in runs:
            fresh = build()  # a policy in the state that was handed in
            led_events = led.events
            ctx.check(len(b) == 2 * n, "wrong-count", lambda: f"a simulation made {len(b)} policy calls for {n} rounds")
            for t in range(n):
                sel, up = b[2 * t], b[2 * t + 1]
                x = log["context"][t]
                ctx.check(sel[0] == "select" and (not cxual or arr_eq(np.ravel(sel[2]), x)), "wrong-call", lambda: f"round {t}: {show(sel)}")
                want = fresh.answer()
                ctx.check(arr_eq(sel[3], want), "wrong-start", lambda: f"round {t}: the simulated policy chose {show(sel[3])}; from the state handed in it chooses {show(want)}")
                a = int(sel[3][pos[t]])
                tot += log["expected_reward"][t, a]
                ctx.check(up[0] == "update" and up[3] == a and (not cxual or arr_eq(np.ravel(up[2]), x)), "wrong-update", lambda: f"round {t}: chose {a}, updated with {show(up)}")
                hit = next((q for q in left if q[2] == up[4] and q[1] == a and arr_eq(np.ravel(q[0]), x)), None)
                ctx.check(hit is not None, "wrong-reward", lambda: f"round {t}: reward {up[4]} was not drawn for this context and action {a}")
                left = [q for q in left if q is not hit]
                fresh.acc = (fresh.acc * 31 + a + int(round(1000 * up[4]))) % 1000003
            led.events = led_events
        want = tot / (c["n_sim"] * n)
        ctx.check(abs(v - want) <= 1e-9, "wrong-value", lambda: f"value {v}, mean expected reward of the chosen actions {want}")

    def simplify(self, plan):
        for k in ("n", "prior"):
            if plan[k] > 1:
                yield dict(plan, **{k: plan[k] // 2})
        yield dict(plan, calls=[dict(c, n_sim=1) for c in plan["calls"]])


PROP = Prop()

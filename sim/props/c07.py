import numpy as np

from obp.policy.base import BaseContextFreePolicy, BaseContextualPolicy
from obp.policy.policy_type import PolicyType
from obp.simulator.replay import run_bandit_replay

from .. import policies
from ..core import arr_eq, np_rng, show
from ..world import FaultPoint


class Script:
    def setup(self, fp, seed):
        self.fp, self.seed, self.events = fp, seed, []
        self.initialize()
        return self

    def initialize(self):
        self.seq, self.acc = 0, self.seed

    def _select(self, cx):
        ev = ["select", None if cx is None else np.array(cx, copy=True), None]
        self.events.append(ev)
        self.fp.hit("select", "before")
        self.seq += 1
        g = np_rng("c07", self.seq, self.acc)
        ev[2] = g.permutation(self.n_actions)[: self.len_list]
        return ev[2].copy()

    def _update(self, a, r, cx):
        self.events.append(["update", None if cx is None else np.array(cx, copy=True), a, r])
        self.fp.hit("update", "before")
        self.acc = (self.acc * 31 + int(a) + int(1000 * float(r))) % 1000003
        self.fp.hit("update", "after")


class FreeScript(Script, BaseContextFreePolicy):
    policy_name = "s"

    def select_action(self):
        return self._select(None)

    def update_params(self, action, reward):
        self._update(action, reward, None)


class CtxScript(Script, BaseContextualPolicy):
    policy_name = "s"

    def select_action(self, context):
        return self._select(context)

    def update_params(self, action, reward, context):
        self._update(action, reward, context)


class Tap:
    """a shipped policy behind a recorder"""

    def __init__(self, p, fp):
        self.p, self.fp, self.events = p, fp, []
        self.policy_type, self.n_actions, self.len_list = p.policy_type, p.n_actions, p.len_list

    def initialize(self):
        self.p.initialize()

    def select_action(self, *a, **k):
        ev = ["select", np.array((a + tuple(k.values()))[0], copy=True) if a or k else None, None]
        self.events.append(ev)
        self.fp.hit("select", "before")
        out = self.p.select_action(*a, **k)
        ev[2] = np.array(out, copy=True)
        return out

    def update_params(self, action, reward, context=None):
        self.events.append(["update", None if context is None else np.array(context, copy=True), action, reward])
        self.fp.hit("update", "before")
        if context is None:
            self.p.update_params(action=action, reward=reward)
        else:
            self.p.update_params(action=action, reward=reward, context=context)
        self.fp.hit("update", "after")


class Prop:
    id = "C07"
    runs = {"quick": 4000, "thorough": 150000}
    time_unit = "logged rounds replayed"
    rule = ("a run replays a scripted or shipped policy on a random log, with a failure injected at a random policy call in some runs, "
            "re-initialises and replays again; non-trivial when at least one round matched")
    measure = "distinct (policy kind, positions given, list length, rounds, matches, failure point class) tuples"
    real = ["run_bandit_replay", "convert_to_action_dist", "all nine shipped online policies (half of the runs)"]
    stub = ["scripted policy (half of the runs)", "recorder around the policy"]
    assumptions = []

    def generate(self, r, i, tier):
        na, dim = (r.randint(2, 5), r.randint(1, 3)) if r.random() < 0.98 else (r.choice([9, 15]), r.choice([5, 8]))
        kind = r.choice(["free", "ctx", "shipped", "shipped"])
        spec = policies.gen_spec(r, na + r.choice([0, 0, 0, 1, 3]), dim)
        logged_max = r.choice([na, na, na, na - 1, 1])
        pl = dict(kind=kind, spec=spec, n=r.choice([1, 2, 5, 12, 30]), logged=max(1, logged_max), dim=dim, seed=r.randrange(10**6),
                  pos=r.choice(["none", "zero", "any", "any"]), script=r.randrange(1000), calls=[])
        for _ in range(r.choice([1, 1, 2, 3])):
            c = dict(again=r.choice(["initialize", "new"]))
            if r.random() < 0.35:
                c["fault"] = dict(at=r.choice(["select", "update"]), when=r.choice(["before", "after"]), nth=r.choice([1, 1, 2, 4, 9]), kind=r.choice(["exception", "interrupt", "memory"]))
                if c["fault"]["at"] == "select":
                    c["fault"]["when"] = "before"
            pl["calls"].append(c)
        pl["calls"].append(dict(again="initialize"))
        if r.random() < 0.015:  # a long log
            pl["n"] = r.choice([150, 400, 1100])
            pl["spec"]["batch_size"] = r.choice([1, 7, 64])
        return pl

    def policy(self, p, fp):
        s = p["spec"]
        if p["kind"] == "shipped":
            return Tap(policies.make(s), fp)
        if p["kind"] == "free":
            return FreeScript(n_actions=s["n_actions"], len_list=s["len_list"]).setup(fp, p["script"])
        return CtxScript(dim=p["dim"], n_actions=s["n_actions"], len_list=s["len_list"]).setup(fp, p["script"])

    def run(self, p, ctx):
        s = p["spec"]
        g = np_rng("log", p["seed"])
        n, ll = p["n"], s["len_list"]
        log = dict(n_rounds=n, n_actions=p["logged"], action=g.integers(0, p["logged"], n), reward=np.round(g.random(n), 3) if g.random() < 0.3 and s["kind"] != "bts" else g.integers(0, 2, n),
                   position={"none": None, "zero": np.zeros(n, int), "any": g.integers(0, ll, n)}[p["pos"]], pscore=g.uniform(0.1, 1.0, n), context=g.normal(size=(n, p["dim"])))
        keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in log.items()}
        fp = FaultPoint(ctx)
        pol = self.policy(p, fp)
        for c in p["calls"]:
            pol.events = []
            fp.arm(c.get("fault"))
            ok, out = ctx.attempt("run_bandit_replay", run_bandit_replay, bandit_feedback=log, policy=pol)
            fired = fp.fired
            fp.arm(None)
            ctx.check(ok == (fired is None), "outcome", lambda: f"policy {'failed' if fired else 'did not fail'}, replay {'succeeded' if ok else 'failed'}")
            ctx.check(set(log) == set(keep) and all(log[k] is None and keep[k] is None or arr_eq(log[k], keep[k]) for k in keep), "log-modified", lambda: f"changed: {[k for k in log if k not in keep or not (log[k] is None and keep[k] is None or arr_eq(log[k], keep[k]))]}")
            self.walk(p, ctx, keep, pol, ok, out)
            ctx.tick(sum(e[0] == "select" for e in pol.events))
            if c["again"] == "new":
                pol = self.policy(p, fp)
            else:
                pol.initialize()

    def walk(self, p, ctx, log, pol, ok, out):
        ev, n, ll = pol.events, log["n_rounds"], p["spec"]["len_list"]
        free = pol.policy_type == PolicyType.CONTEXT_FREE
        j, sel, match = 0, [], 0
        same = lambda cx, t: free or (np.shape(cx) == (1, p["dim"]) and arr_eq(np.ravel(cx), log["context"][t]))
        for t in range(n):
            if j >= len(ev) and not ok:
                break
            ctx.check(j < len(ev) and ev[j][0] == "select" and same(ev[j][1], t), "wrong-call", lambda: f"round {t}: expected a choice for this round's context, policy got {show(ev[j:j + 1])}")
            a = ev[j][2]
            j += 1
            if a is None:  # this call failed
                break
            sel.append(a)
            pos = 0 if log["position"] is None else int(log["position"][t])
            if int(a[pos]) == int(log["action"][t]):
                match += 1
                ctx.check(j < len(ev) and ev[j][0] == "update", "missing-update", lambda: f"round {t}: choice {show(a)} matches action {log['action'][t]} at position {pos} but the policy was not updated")
                u = ev[j]
                ctx.check(int(u[2]) == int(log["action"][t]) and float(u[3]) == float(log["reward"][t]) and same(u[1], t), "wrong-update", lambda: f"round {t}: updated with {show(u)}, logged action {log['action'][t]} reward {log['reward'][t]}")
                j += 1
        ctx.check(j == len(ev), "extra-call", lambda: f"the policy also got {show(ev[j:])}")
        ctx.cover(p["kind"], p["spec"]["kind"] if p["kind"] == "shipped" else "", p["pos"], ll, min(n, 12), min(match, 6), ok)
        ctx.log(ok, len(ev), match)
        if ok:
            ctx.check(len(sel) == n, "missing-rounds", lambda: f"{len(sel)} of {n} rounds replayed")
            d = np.asarray(out)
            k = max(max(int(a.max()) for a in sel), int(log["action"].max())) + 1
            ctx.check(d.ndim == 3 and d.shape[0] == n and d.shape[1] >= k and d.shape[2] == ll, "wrong-shape", lambda: f"{d.shape} for {n} rounds, {k} actions, lists of {ll}")
            want = np.zeros(d.shape)
            for t, a in enumerate(sel):
                want[t, a, np.arange(ll)] = 1
            ctx.check(arr_eq(d.astype(float), want), "wrong-distribution", "the returned distribution does not state what was chosen")

    def simplify(self, plan):
        if plan["n"] > 1:
            yield dict(plan, n=plan["n"] // 2)
            yield dict(plan, n=plan["n"] - 1)
        yield dict(plan, spec=dict(plan["spec"], len_list=1))


PROP = Prop()

import numpy as np

from .. import policies
from ..core import INJECTED, arr_eq, np_rng, show
from ..seams import LineFault


class Prop:
    id = "C06"
    runs = {"quick": 4000, "thorough": 150000}
    time_unit = "policy calls"
    rule = ("a run feeds a shipped policy a random history (choices, feedback, calls aborted at a random line, partly filled batches, "
            "aborted initialisations), re-initialises it, and compares all later choices with those of a new policy; non-trivial when "
            "the history before contains feedback")
    measure = "distinct (policy, batch size, open feedback at re-initialisation, aborted calls, updates before) tuples and lines at which calls were aborted"
    real = ["all nine shipped online policies"]
    stub = []
    assumptions = []

    def generate(self, r, i, tier):
        na, dim = r.randint(2, 5), r.randint(1, 3)
        wide = r.random() < 0.02
        if wide:
            na, dim = r.choice([5, 12]), r.choice([3, 7])
        s = policies.gen_spec(r, na, dim)
        if wide:
            s["batch_size"] = r.choice([1, 16, 50])
        na = policies.production(r, s)
        if s["epsilon"] is not None and r.random() < 0.5:
            s["epsilon"] = 0.0

        def hist(n, rate):
            out = []
            for _ in range(n):
                e = dict(e=r.choice(["select", "update", "update"]), a=r.randrange(na), y=int(r.random() < 0.6), x=r.randrange(10**6))
                if r.random() < rate:
                    e["fault"] = dict(line=r.randint(1, 12), kind=r.choice(["exception", "interrupt", "memory"]))
                out.append(e)
            return out

        cycles = []
        for _ in range(r.choice([1, 1, 2, 3])):
            c = dict(before=hist(r.choice([120, 260]) if wide else r.choice([1, 4, 12, 25]), r.choice([0, 0, 0.2])), init=r.choice([1, 1, 1, 2]))
            if r.random() < 0.15:
                c["fault"] = dict(line=r.randint(1, 8), kind=r.choice(["exception", "interrupt", "memory"]))
            cycles.append(c)
        return dict(spec=s, cycles=cycles, after=hist(r.choice([60, 200]) if wide else r.choice([5, 15, 30]), 0), sibling=r.random() < 0.3)

    def do(self, s, pol, e):
        x = np.round(np_rng("x", e["x"]).normal(size=s["dim"]), 6)
        if e["e"] == "select":
            return policies.select(pol, x)
        policies.update(pol, e["a"], e["y"], x)

    def step(self, ctx, s, pol, e):
        """one call, perhaps aborted at a line; True if it was aborted"""
        f = e.get("fault")
        if not f:
            ctx.call(e["e"], self.do, s, pol, e)
            return False
        lf = LineFault(f["line"], f["kind"])
        try:
            with lf:
                self.do(s, pol, e)
        except INJECTED:
            ctx.fault(f"{e['e']}-{f['kind']}")
            ctx.cover("line", s["kind"], e["e"], lf.fired)
            return True
        except Exception:
            # a call after an aborted one may fail; what counts is the behaviour after initialize()
            return True
        return False

    def run(self, p, ctx):
        s = p["spec"]
        pol = policies.make(s)
        sib = policies.make(s) if p["sibling"] else None
        for c in p["cycles"]:
            aborted = False
            ups = 0
            for e in c["before"]:
                if aborted and not e.get("fault"):
                    e = dict(e, fault=dict(line=10**6, kind="exception"))
                aborted |= self.step(ctx, s, pol, e)
                ups += e["e"] == "update"
                ctx.tick()
                if sib is not None:
                    ctx.call("sibling", self.do, s, sib, dict(e, a=(e["a"] + 1) % s["n_actions"]))
            if c.get("fault"):
                try:
                    with LineFault(c["fault"]["line"], c["fault"]["kind"]):
                        pol.initialize()
                except INJECTED:
                    ctx.fault("initialize-" + c["fault"]["kind"])
            for _ in range(c["init"]):
                ctx.call("initialize", pol.initialize)
            ctx.cover(s["kind"], s["batch_size"], ups % s["batch_size"], aborted, min(ups, 30))
        new = policies.make(s)
        for j, e in enumerate(p["after"]):
            a = ctx.call(e["e"], self.do, s, pol, e)
            b = ctx.call(e["e"], self.do, s, new, e)
            if e["e"] == "select":
                ctx.check(arr_eq(a, b), "remembers", lambda: f"call {j} after initialize(): {s['kind']} chose {show(a)}, a new policy {show(b)}")
                ctx.log(j, [int(v) for v in a])
            if sib is not None:
                ctx.call("sibling", self.do, s, sib, e)
            ctx.tick()
        for j in range(5):
            x = np_rng("probe", j).normal(size=s["dim"])
            a, b = ctx.call("select", policies.select, pol, x), ctx.call("select", policies.select, new, x)
            ctx.check(arr_eq(a, b), "remembers", lambda: f"probe {j} after initialize(): {s['kind']} chose {show(a)}, a new policy {show(b)}")

    def simplify(self, plan):
        for k, v in (("len_list", 1), ("batch_size", 1)):
            yield dict(plan, spec=dict(plan["spec"], **{k: v}))
        if plan["sibling"]:
            yield dict(plan, sibling=False)


PROP = Prop()

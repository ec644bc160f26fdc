import copy

import numpy as np

from .. import opeworld as W
from ..core import INJECTED, digest, np_rng, show
from ..seams import LineFault, Scheduler, count_lines, gen_switches

OPS = ["values", "values", "intervals", "summary", "perf", "compare", "direct", "direct_ci"]


def plain(x):
    """results as plain values (data frames as dictionaries)"""
    if hasattr(x, "to_dict"):
        return {"columns": [str(c) for c in x.columns], "index": [str(i) for i in x.index], "data": np.asarray(x.to_numpy(), float)}
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.astype(float)
    return float(x)


class Prop:
    id = "C10"
    runs = {"quick": 1600, "thorough": 60000}
    time_unit = "evaluation calls"
    rule = ("a run makes a random sequence of evaluation calls on shared evaluator and estimator objects over several data sets, with "
            "calls aborted at a random line, arrays changed in place by the caller between calls, and calls made from threads; each "
            "result is compared with the same call on newly built objects; non-trivial when at least two calls completed")
    measure = "distinct (front end, operation, estimator set, aborted before, data set switched, input form) tuples, lines at which calls were aborted, thread schedules"
    real = ["OffPolicyEvaluation and its continuous, slate and multi-logger variants", "all estimators and tuned estimators", "bootstrap helper"]
    stub = ["thread scheduler"]
    assumptions = ["self-tuning estimators (they publish the chosen hyperparameter on themselves) are not shared between threads",
                   "the caller does not change arrays while a call is running"]

    def generate(self, r, i, tier):
        fam = r.choice(["std", "std", "std", "multi", "slate", "cont"])
        na, ll = (r.randint(2, 4), r.choice([1, 1, 2, 3])) if r.random() < 0.98 else (r.choice([7, 12]), r.choice([1, 4, 5]))
        ll = min(ll, na)
        if fam == "slate":
            ll = max(2, ll)
            na = max(na, ll)
        mode = r.choice(["calls", "calls", "threads"])
        names = [k for k in W.FAMILY[fam] if mode != "threads" or k not in W.TUNED]
        if fam == "std" and r.random() < 0.3 and mode != "threads":
            names = list(W.TUNED) + ["ipw", "dr"]
        ests, seen = [], set()
        for _ in range(r.choice([1, 2, 3, 5])):
            e = W.gen_estimator(r, fam, na, ll, names)
            nm = e["kind"].rstrip("t") if e["kind"] in W.TUNED else e["kind"]
            nm = {"switch": "sdr"}.get(nm, nm)
            if nm not in seen:
                seen.add(nm)
                ests.append(e)
        sets = [dict(n=r.choice([8, 20, 40]) if r.random() < 0.98 else r.choice([150, 400]), n_actions=na, len_list=ll, seed=r.randrange(10**6), real=r.random() < 0.5) for _ in range(r.choice([1, 2, 3]))]
        evs = [dict(data=r.randrange(len(sets)), use=sorted(r.sample(range(len(ests)), r.randint(1, len(ests))))) for _ in range(r.choice([1, 2, 3]))]
        ops = []
        for _ in range(r.choice([2, 4, 8])):
            k = r.choice(OPS)
            op = dict(op=k, ev=r.randrange(len(evs)), arg=r.randrange(4), form=r.choice(["array", "array", "dict"]), seed=r.randrange(1000), alpha=r.choice([0.05, 0.1, 0.3]),
                      nb=r.choice([5, 20]), metric=r.choice(["se", "relative-ee"]), gt=round(r.uniform(0.1, 2), 3), plain_pea=r.random() < 0.5, e=r.randrange(8), thread=r.randrange(3))
            if r.random() < 0.2 and mode == "calls":
                op["fault"] = dict(frac=round(r.random(), 6), kind=r.choice(["exception", "interrupt", "memory"]))
            if r.random() < 0.12 and mode == "calls":
                op["change"] = dict(data=r.randrange(len(sets)), key=r.choice(["reward", "pscore", "action", "replace-action", "args", "args"]), seed=r.randrange(1000))
            ops.append(op)
        p = dict(fam=fam, mode=mode, ests=ests, sets=sets, evs=evs, ops=ops)
        if mode == "threads":
            p["switches"] = gen_switches(r, r.choice([1, 2, 4, 8]), 150 * len(ops))
        return p

    def args(self, p, c, op, ests):
        a = W.arguments(p["fam"], c, op["arg"])
        if p["fam"] == "std":
            if not op["plain_pea"] and not any(e["kind"] in ("mipw", "snmipw") and e["embsel"] for e in ests):
                a["p_e_a"] = None
        if op["form"] == "dict" and p["fam"] != "slate":
            g = np_rng("dict", op["arg"])
            for k in W.PER_ESTIMATOR:
                if k in a and a[k] is not None and k not in ("action_embed",):
                    v = a[k]
                    a[k] = {W.build(p["fam"], e).estimator_name: v.copy() if k in ("pi_b", "p_e_a") else v * (1 - 0.01 * j) for j, e in enumerate(ests)}
        return a

    def call(self, p, op, front, est, log, a):
        """one public operation"""
        k = op["op"]
        ci = dict(alpha=op["alpha"], n_bootstrap_samples=op["nb"], random_state=op["seed"])
        if k == "values":
            return front.estimate_policy_values(**a)
        if k == "intervals":
            return front.estimate_intervals(**a, **ci)
        if k == "summary":
            return front.summarize_off_policy_estimates(**a, **ci)
        if k == "perf":
            return front.evaluate_performance_of_estimators(ground_truth_policy_value=op["gt"], metric=op["metric"], **a)
        if k == "compare":
            return front.summarize_estimators_comparison(ground_truth_policy_value=op["gt"], metric=op["metric"], **a)
        nm = est.estimator_name
        kw = {x: (v.get(nm) if isinstance(v, dict) else v) for x, v in a.items()}
        for x in ("reward", "action", "position", "pscore", "context", "slate_id", "pscore_item_position", "pscore_cascade", "stratum_idx", "pscore_avg"):
            if x in log:
                kw[x] = log[x]
        if p["fam"] == "cont":
            kw["action_by_behavior_policy"] = kw.pop("action")
        return est.estimate_policy_value(**kw) if k == "direct" else est.estimate_interval(**kw, **ci)

    def single(self, p, op, log, e, a):
        """the value of one estimator alone, on new objects"""
        est = W.build(p["fam"], e)
        return float(self.call(p, dict(op, op="direct"), None, est, copy.deepcopy(log), copy.deepcopy(a)))

    def run(self, p, ctx):
        fam = p["fam"]
        if not (p["ests"] and p["evs"] and p["sets"]):
            return
        logs = [W.data(fam, c) for c in p["sets"]]
        shared = [W.build(fam, e) for e in p["ests"]]
        fronts, used = [], []
        for ev in p["evs"]:
            u = [j for j in ev["use"] if j < len(shared)] or [0]
            used.append(u)
            fronts.append(ctx.call("constructor", W.FRONT[fam], bandit_feedback=logs[ev["data"] % len(logs)], ope_estimators=[shared[j] for j in u]))
        self.aborted = False
        handed = {}

        def prepare(op):
            ev = op["ev"] % len(fronts)
            d = p["evs"][ev]["data"] % len(logs)
            u = used[ev]
            e = u[op["e"] % len(u)]
            # the caller passes the very same argument objects again and may have changed them in place
            key = (ev, op["arg"], op["form"], op["plain_pea"])
            if key not in handed:
                handed[key] = self.args(p, p["sets"][d], op, [p["ests"][j] for j in u])
            return ev, d, u, e, handed[key]

        def fresh(op, ev, d, u, e, a):
            log, aa = copy.deepcopy(logs[d]), copy.deepcopy(a)
            es = {j: W.build(fam, p["ests"][j]) for j in u}
            f = W.FRONT[fam](bandit_feedback=log, ope_estimators=list(es.values()))
            return plain(self.call(p, op, f, es[e], log, aa))

        if p["mode"] == "threads":
            jobs = {}
            for j, op in enumerate(p["ops"]):
                jobs.setdefault(op["thread"], []).append((j, op, prepare(op)))
            want = {j: ctx.call(op["op"], fresh, op, *pr) for th in jobs.values() for j, op, pr in th}
            before = digest(copy.deepcopy([logs, [pr[4] for th in jobs.values() for _, _, pr in th]]))
            got = {}

            def work(th):
                for j, op, (ev, d, u, e, a) in th:
                    got[j] = plain(self.call(p, op, fronts[ev], shared[e], logs[d], a))

            for ok, v in Scheduler(p["switches"], ctx).run([lambda th=th: work(th) for th in jobs.values()]):
                ctx.check(ok, "operation-failed", lambda: f"a call in a thread raised {type(v).__name__}: {v}")
            for j, op in enumerate(p["ops"]):
                ctx.check(digest(got[j]) == digest(want[j]), "interference", lambda: f"call {j} ({op['op']}) made in a thread gave {show(got[j])}, alone {show(want[j])}")
                ctx.cover("thread", fam, op["op"], tuple(p["ests"][x]["kind"] for x in used[op["ev"] % len(fronts)]))
                ctx.tick()
            ctx.check(before == digest([logs, [pr[4] for th in jobs.values() for _, _, pr in th]]), "input-modified", "data changed by calls in threads")
            return
        for j, op in enumerate(p["ops"]):
            ch = op.get("change")
            if ch:
                if ch["key"] == "args":
                    self.change_args(fam, handed, ch)
                else:
                    self.change(fam, logs[ch["data"] % len(logs)], ch)
                ctx.fault("caller-changes-data")
            ev, d, u, e, a = prepare(op)
            n = [0]
            keep = {}

            def ref():
                keep["want"] = fresh(op, ev, d, u, e, a)

            n[0] = ctx.call(op["op"], count_lines, ref)
            want = keep["want"]
            before = digest([logs, a, [x["=lams"] for x in p["ests"]]])
            f = op.get("fault")
            if f:
                lf = LineFault(1 + int(f["frac"] * max(1, n[0])), f["kind"])
                try:
                    with lf:
                        self.call(p, op, fronts[ev], shared[e], logs[d], a)
                except INJECTED:
                    ctx.fault(f"{op['op']}-{f['kind']}")
                    ctx.cover("line", fam, lf.fired)
                    self.aborted = True
                ctx.check(before == digest([logs, a, [x["=lams"] for x in p["ests"]]]), "input-modified", lambda: f"call {j} ({op['op']}), aborted, changed the caller's data")
            got = plain(ctx.call(op["op"], self.call, p, op, fronts[ev], shared[e], logs[d], a))
            ctx.check(before == digest([logs, a, [x["=lams"] for x in p["ests"]]]), "input-modified", lambda: f"call {j} ({op['op']}) changed the caller's data")
            ctx.check(digest(got) == digest(want), "history-dependent", lambda: f"call {j} ({op['op']}, {[p['ests'][x]['kind'] for x in u]}): {show(got)}, the same call on new objects {show(want)}")
            self.consistent(p, ctx, op, got, logs[d], [p["ests"][x] for x in u], a)
            ctx.cover(fam, op["op"], tuple(p["ests"][x]["kind"] for x in u), self.aborted, op["form"], j > 0)
            ctx.tick()
            ctx.log(j, op["op"], digest(got))

    def change_args(self, fam, handed, ch):
        g = np_rng("change-args", ch["seed"])
        for a in handed.values():
            seen = set()
            for k, v in a.items():
                if k == "evaluation_policy_action_dist":
                    continue
                for x in v.values() if isinstance(v, dict) else [v]:
                    if isinstance(x, np.ndarray) and id(x) not in seen and x.dtype.kind == "f":
                        seen.add(id(x))
                        if fam != "slate":
                            x[:] = x[g.permutation(len(x))]
                        elif x.ndim == 1 and x.max() > 0:
                            x *= 0.9 if ch["seed"] % 2 else 0.8

    def change(self, fam, log, ch):
        g = np_rng("change", ch["seed"])
        k = ch["key"]
        if k == "reward":
            log["reward"][:] = log["reward"][g.permutation(len(log["reward"]))]
        elif k == "pscore":
            if fam == "slate":
                log["pscore"] *= 0.9
            else:
                log["pscore"][:] = log["pscore"][g.permutation(len(log["pscore"]))]
        elif fam != "slate" and k == "action":
            log["action"][:] = log["action"][g.permutation(len(log["action"]))]
        elif fam != "slate":
            log["action"] = log["action"][g.permutation(len(log["action"]))]

    def consistent(self, p, ctx, op, got, log, ests, a):
        """combined results state the same numbers as each estimator alone"""
        k = op["op"]
        if k in ("direct", "direct_ci"):
            return
        vals = {W.build(p["fam"], e).estimator_name: self.single(p, op, log, e, a) for e in ests}
        near = lambda x, y: (np.isnan(x) and np.isnan(y)) or abs(x - y) <= 1e-9 * (1 + abs(y))
        if k == "values":
            ctx.check(set(got) == set(vals) and all(near(got[n], vals[n]) for n in vals), "inconsistent", lambda: f"evaluated together {show(got)}, one by one {show(vals)}")
        elif k == "perf":
            want = {n: (v - op["gt"]) ** 2 if op["metric"] == "se" else abs(v - op["gt"]) / abs(op["gt"]) for n, v in vals.items()}
            ctx.check(set(got) == set(want) and all(near(got[n], want[n]) for n in want), "inconsistent", lambda: f"reported {op['metric']} {show(got)}, from the estimates {show(want)}")
        elif k == "compare":
            want = {n: (v - op["gt"]) ** 2 if op["metric"] == "se" else abs(v - op["gt"]) / abs(op["gt"]) for n, v in vals.items()}
            tab = dict(zip(got["index"], got["data"][:, 0]))
            ctx.check(set(tab) == set(want) and all(near(tab[n], want[n]) for n in want), "inconsistent", lambda: f"comparison table {show(tab)}, from the estimates {show(want)}")
        elif k == "summary":
            v, iv = got
            tab = dict(zip(v["index"], v["data"][:, v["columns"].index("estimated_policy_value")]))
            ctx.check(set(tab) == set(vals) and all(near(tab[n], vals[n]) for n in vals), "inconsistent", lambda: f"summary {show(tab)}, one by one {show(vals)}")
            base = float(np.sum(log["reward"]) / len(np.unique(log["slate_id"]))) if p["fam"] == "slate" else float(np.mean(log["reward"]))
            rel = dict(zip(v["index"], v["data"][:, v["columns"].index("relative_estimated_policy_value")]))
            ctx.check(all(near(rel[n], vals[n] / base if base > 0 else np.nan) for n in vals), "inconsistent", lambda: f"relative values {show(rel)}, estimates {show(vals)}, behaviour policy {base}")
            one = {}
            for e in ests:
                est = W.build(p["fam"], e)
                one[est.estimator_name] = plain(self.call(p, dict(op, op="direct_ci"), None, est, copy.deepcopy(log), copy.deepcopy(a)))
            for n, row in zip(iv["index"], iv["data"]):
                t = dict(zip(iv["columns"], row))
                ctx.check(set(t) == set(one[n]) and all(near(t[c], one[n][c]) for c in t), "inconsistent", lambda: f"interval of {n} in the summary {show(t)}, alone {show(one[n])}")
        elif k == "intervals":
            for e in ests:
                est = W.build(p["fam"], e)
                w = plain(self.call(p, dict(op, op="direct_ci"), None, est, copy.deepcopy(log), copy.deepcopy(a)))
                g = got[est.estimator_name]
                ctx.check(set(g) == set(w) and all(near(g[c], w[c]) for c in w), "inconsistent", lambda: f"interval of {est.estimator_name} evaluated together {show(g)}, alone {show(w)}")

    def simplify(self, plan):
        if plan["mode"] == "threads":
            yield dict(plan, mode="calls")
        for i, op in enumerate(plan["ops"]):
            for k, v in (("form", "array"), ("op", "values"), ("ev", 0)):
                if op[k] != v:
                    ops = list(plan["ops"])
                    ops[i] = dict(op, **{k: v})
                    yield dict(plan, ops=ops)


PROP = Prop()

import numpy as np

from obp.simulator.coefficient_drifter import CoefficientDrifter

from ..core import show

NAMES = ("context", "action", "context-action")


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=0, atol=1e-11))


class Prop:
    id = "C04"
    runs = {"quick": 6000, "thorough": 200000}
    time_unit = "rounds of drifting coefficients requested"
    rule = ("a run is a random sequence of requests (chunk sizes, rejected requests in between) to a drifter of random configuration; "
            "non-trivial when the chunks differ from a single request")
    measure = "distinct (interval, transition, type, seasonal, position in interval at which a request starts, chunk size class) tuples"
    real = ["CoefficientDrifter", "sample_random_uniform_coefficients"]
    stub = []
    assumptions = ["transition period <= drift interval; with sampled transitions strictly smaller, so that the sets can be read off"]

    def generate(self, r, i, tier):
        d = r.choice([1, 2, 3, 4, 5, 7, 10, 20]) if r.random() < 0.96 else r.choice([50, 100, 250])
        typ = r.choice(["linear", "linear", "weighted_sampled"])
        t = r.choice([0, 0, 1, d // 2, d - 1, d, r.randint(0, d)])
        t = max(0, min(t, d - 1 if typ != "linear" else d))
        chunks = []
        for _ in range(r.choice([2, 4, 8, 15])):
            n = r.choice([1, 1, 2, 3, d - 1, d, d + 1, 2 * d, 2 * d + 1, r.randint(1, 3 * d)])
            chunks.append(dict(n=max(1, n), dims=r.random() < 0.5))
            if r.random() < 0.15:
                chunks.append(dict(bad=r.choice(["context", "action", "both"]), n=r.randint(1, 2 * d)))
        return dict(d=d, t=t, type=typ, seasonal=r.random() < 0.4, bw=r.choice([0.0, 0.0, 0.3, 0.5, 0.9]), dc=r.randint(1, 3) if r.random() < 0.97 else r.choice([6, 11]), da=r.randint(1, 4) if r.random() < 0.97 else r.choice([7, 12]),
                    early=r.random() < 0.5, seed=r.randrange(10**6), chunks=chunks)

    def drifter(self, p, **kw):
        a = dict(drift_interval=p["d"], transition_period=p["t"], transition_type=p["type"], seasonal=p["seasonal"], base_coefficient_weight=p["bw"], random_state=p["seed"])
        if p["early"]:
            a.update(effective_dim_action_context=p["da"], effective_dim_context=p["dc"])
        a.update(kw)
        return CoefficientDrifter(**a)

    def ask(self, ctx, p, dr, n, first, dims):
        kw = dict(effective_dim_context=p["dc"], effective_dim_action_context=p["da"]) if (first and not p["early"]) or dims else {}
        out = ctx.call(f"get_coefficients({n})", dr.get_coefficients, n_rounds=n, **kw)
        shapes = [(n, p["dc"]), (n, p["da"]), (n, p["dc"], p["da"])]
        for nm, o, s in zip(NAMES, out, shapes):
            o = np.asarray(o)
            if nm == "context-action":
                o = o.reshape(-1, p["dc"], p["da"]) if o.size == n * p["dc"] * p["da"] else o
            ctx.check(o.shape == s, "shape", lambda: f"{nm}: asked for {n} rounds, shape {o.shape}, expected {s}")
        return [np.array(np.asarray(o).reshape(s), copy=True) for o, s in zip(out, shapes)]

    def run(self, p, ctx):
        d, t, bw = p["d"], p["t"], p["bw"]
        good = [c for c in p["chunks"] if "bad" not in c]
        total = sum(c["n"] for c in good)
        if not total:
            return
        # the history under test
        dr = self.drifter(p)
        got = []
        n0 = 0
        for c in p["chunks"]:
            if "bad" in c:
                if n0 == 0 and not p["early"]:
                    continue
                kw = dict(effective_dim_context=p["dc"] + (c["bad"] != "action"), effective_dim_action_context=p["da"] + (c["bad"] != "context"))
                try:
                    dr.get_coefficients(n_rounds=c["n"], **kw)
                    ctx.fail("accepted", "a request for other dimensions was accepted")
                except RuntimeError:
                    ctx.fault("rejected-request")
                continue
            got.append(self.ask(ctx, p, dr, c["n"], n0 == 0, c["dims"]))
            ctx.cover(d, t, p["type"], p["seasonal"], bw > 0, n0 % d, min(c["n"], 3 * d))
            n0 += c["n"]
        got = [np.concatenate([g[k] for g in got]) for k in range(3)]
        ctx.tick(total)
        # one by one
        one = self.drifter(p)
        ones = [self.ask(ctx, p, one, 1, j == 0, False) for j in range(total)]
        for k in range(3):
            o = np.concatenate([q[k] for q in ones])
            bad = [j for j in range(total) if not close(o[j], got[k][j])]
            ctx.check(not bad, "chunking", lambda: f"{NAMES[k]} coefficients of round {bad[0]} differ between chunks {[c['n'] for c in good]} and one-by-one requests (interval {d}, transition {t})")
        pos, idx = np.arange(total) % d, np.arange(total) // d
        w = np.maximum(0.0, pos - (d - t) + 1) / (t + 1)
        m = int(idx.max()) + 2
        # the plain sets of coefficients, interval by interval
        if p["type"] == "linear":
            ref = self.drifter(p, transition_period=0, base_coefficient_weight=0.0)
            refs = self.ask(ctx, p, ref, m * d, True, False)
            sets = []
            for k in range(3):
                s = refs[k][::d]
                for j in range(m * d):
                    ctx.check(close(refs[k][j], s[j // d]), "not-constant", lambda: f"without transition, {NAMES[k]} coefficients change inside interval {j // d} (round {j})")
                sets.append(s)
        else:
            sets = []
            for k in range(3):
                s0 = got[k][0]  # the base set: (1-bw)*S0 + bw*S0
                s = [(got[k][i * d] - bw * s0) / (1 - bw) for i in range(int(idx.max()) + 1)]
                sets.append(np.array(s))
        ns = len(sets[0])
        for i in range(ns):
            for j in range(i + 1, ns):
                same = p["seasonal"] and (j - i) % 2 == 0
                eq = all(np.allclose(sets[k][i], sets[k][j], rtol=0, atol=1e-9) for k in range(3))
                ctx.check(eq == same, "schedule", lambda: f"the sets of intervals {i} and {j} are {'equal' if eq else 'different'} (seasonal={p['seasonal']})")
        e = lambda v, x: np.asarray(v).reshape((-1,) + (1,) * (x.ndim - 1))
        if p["type"] == "linear":
            for k in range(3):
                s = sets[k]
                want = bw * s[0][None] + (1 - bw) * (e(1 - w, s) * s[idx] + e(w, s) * s[idx + 1])
                bad = [j for j in range(total) if not np.allclose(want[j], got[k][j], rtol=0, atol=1e-9)]
                ctx.check(not bad, "schedule", lambda: f"round {bad[0]} (interval {idx[bad[0]]}, position {pos[bad[0]]} of {d}, transition {t}, base weight {bw}): {NAMES[k]} {show(got[k][bad[0]])}, schedule says {show(want[bad[0]])}")
        else:
            hits, ex, var = 0, 0.0, 0.0
            for j in range(total):
                i = idx[j]
                mix = [(got[k][j] - bw * sets[k][0]) / (1 - bw) for k in range(3)]
                old = all(np.allclose(mix[k], sets[k][i], rtol=0, atol=1e-9) for k in range(3))
                new = i + 1 < ns and all(np.allclose(mix[k], sets[k][i + 1], rtol=0, atol=1e-9) for k in range(3))
                if w[j] == 0:
                    ctx.check(old, "schedule", lambda: f"round {j} is outside the transition but does not have the coefficients of its interval")
                elif i + 1 < ns:
                    ctx.check(old or new, "schedule", lambda: f"round {j} has coefficients of neither the current nor the next interval")
                    hits, ex, var = hits + new, ex + w[j], var + w[j] * (1 - w[j])
            if var > 0:
                ctx.check(abs(hits - ex) <= 7 * np.sqrt(var) + 3, "frequency", lambda: f"{hits} of the transition rounds use the next set, expected {ex:.1f}")
        ctx.log(d, t, p["type"], total, float(np.sum(got[0])))

    def simplify(self, plan):
        for k, v in (("dc", 1), ("da", 1), ("bw", 0.0), ("seasonal", False), ("early", True)):
            yield dict(plan, **{k: v})
        for i, c in enumerate(plan["chunks"]):
            for n in (1, c["n"] // 2, c["n"] - 1):
                if 0 < n < c["n"]:
                    ch = list(plan["chunks"])
                    ch[i] = dict(c, n=n)
                    yield dict(plan, chunks=ch)


PROP = Prop()

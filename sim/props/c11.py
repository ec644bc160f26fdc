import os
import shutil
import tempfile

import numpy as np

from obp.dataset import OpenBanditDataset

from ..core import INJECTED, digest, np_rng, show
from ..seams import LineFault, faulty_open

UNIT = 4096  # propensities are multiples of 1/UNIT and name the row


def make_world(w):
    """rows of the log file (list of dicts, in file order) and items, from the plan's numbers"""
    g = np_rng("obd", w["s"])
    n, na = w["n"], w["items"]
    pos = sorted(g.choice([1, 2, 3, 5], size=w["npos"], replace=False).tolist())
    marks = g.permutation(UNIT - 1)[:n] + 1
    t0 = int(g.integers(0, 50))
    rows = []
    for i in range(n):
        # few distinct stamps give ties; fractions of a second of different lengths, several days
        k = int(g.integers(0, max(1, n // w["ties"]))) + t0
        frac = ["", ".5", ".123456", ".000001"][k % 4]
        rows.append(dict(ts=f"2019-1{k % 7 // 4 + 1}-{10 + k % 3} {k * 7 % 24:02d}:{k * 13 % 60:02d}:{k % 60:02d}{frac}+00:00", item=int(g.integers(0, na)), pos=int(pos[int(g.integers(0, len(pos)))]),
                         click=int(g.random() < 0.4), p=int(marks[i]), u=[f"c{int(g.integers(0, w['cats']))}x{j}" for j in range(w["users"])], aff=round(float(g.random()), 3)))
    if w["sorted"]:
        rows.sort(key=lambda r: r["ts"])
    elif w["reverse"]:
        rows.sort(key=lambda r: r["ts"], reverse=True)
    items = [dict(f0=round(float(g.normal()), 3), f=[f"v{int(g.integers(0, 4))}_{j}" for j in range(3)]) for _ in range(na)]
    return rows, items, pos


def write(root, w, policy, campaign):
    rows, items, pos = make_world(w)
    d = os.path.join(root, policy, campaign)
    os.makedirs(d, exist_ok=True)
    g = np_rng("obdidx", w["s"])
    idx = g.integers(0, 5, len(rows)).tolist() if w["dupindex"] else g.permutation(len(rows)).tolist()
    nu = w["users"]
    with open(os.path.join(d, campaign + ".csv"), "w") as f:
        f.write(",timestamp,item_id,position,click,propensity_score," + ",".join(f"user_feature_{j}" for j in range(nu)) + ",user-item_affinity_0\n")
        for k, r in zip(idx, rows):
            f.write(f"{k},{r['ts']},{r['item']},{r['pos']},{r['click']},{r['p'] / UNIT!r}," + ",".join(r["u"]) + f",{r['aff']}\n")
    with open(os.path.join(d, "item_context.csv"), "w") as f:
        f.write(",item_id,item_feature_0,item_feature_1,item_feature_2,item_feature_3\n")
        for k, it in enumerate(items):
            f.write(f"{k},{k},{it['f0']},{','.join(it['f'])}\n")
    return dict(rows={r["p"]: r for r in rows}, items=items, pos=pos, cats=[sorted({r["u"][j] for r in rows}) for j in range(nu)], n=len(rows))


class Prop:
    id = "C11"
    runs = {"quick": 1500, "thorough": 60000}
    time_unit = "file and data set operations"
    rule = ("a run writes generated log directories, (re)loads them through a file layer with short reads, failing opens and reads and "
            "interruptions at any line, and asks for batches, time splits and bootstrap samples of one or two loaded data sets in any order; "
            "non-trivial when at least one load succeeded and was inspected")
    measure = "distinct (operation, fault on log file, fault on item file, split?, ties?, position gaps?, file order) tuples"
    real = ["OpenBanditDataset", "pandas CSV reader", "real files in a scratch folder"]
    stub = ["builtins.open below the scratch folder (short reads, errors)"]
    assumptions = ["the item file lists items in the order of their identifiers, as in the published data", "order among rows with equal time stamps is open"]

    def gen_world(self, r):
        n = r.choice([1, 2, 5, 12, 40, 120]) if r.random() < 0.97 else 1500
        return dict(s=r.randrange(10**9), n=n, items=r.choice([1, 2, 3, 6]), npos=r.choice([1, 2, 3]), ties=r.choice([1, 1, 3, 20]), users=r.choice([1, 3, 4]), cats=r.choice([1, 2, 4]), sorted=r.random() < 0.2, reverse=r.random() < 0.3, dupindex=r.random() < 0.3)

    def gen_fault(self, r):
        x = r.random()
        if x < 0.35:
            return dict(short=r.choice([1, 3, 20, 150, 700]))
        if x < 0.55:
            return dict(open_error=r.choice(["ENOENT", "EACCES", "EMFILE", "EIO"]))
        if x < 0.8:
            return dict(short=r.choice([1, 5, 100]), read_error=r.randint(1, 6))
        return None

    def generate(self, r, i, tier):
        ops = []
        for _ in range(r.choice([2, 4, 8, 14])):
            k = r.choice(["load", "load", "write", "batch", "split", "split", "boot", "boot", "cover", "value"])
            o = dict(op=k, d=r.randrange(2), t=r.choice([0.0, 0.1, 0.3, 0.5, 0.7, 0.999, 1.0, round(r.random(), 4)]), split=r.random() < 0.5, s=r.randrange(10**6), size=r.choice([None, None, 1, 3, 30]))
            if k == "write":
                o["world"] = self.gen_world(r)
            if k in ("load", "value"):
                o["fault"] = {f: self.gen_fault(r) for f in ("log", "item")} if r.random() < 0.6 else None
                if r.random() < 0.15:
                    o["line"] = [r.randint(1, 40), r.choice(["interrupt", "memory"])]
                o["re"] = r.random() < 0.3
                o["str"] = r.random() < 0.5
            ops.append(o)
        w = [self.gen_world(r), self.gen_world(r)]
        return dict(worlds=w, ops=[dict(op="load", d=0, fault=None, re=False, str=True)] + ops)

    def run(self, p, ctx):
        root = tempfile.mkdtemp(prefix="simobd-")
        try:
            self._run(p, ctx, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, p, ctx, root):
        where = [("bts", "men"), ("random", "women")]
        disk = [write(root, w, *where[d]) for d, w in enumerate(p["worlds"])]
        loaded = [None, None]  # (data set, contents of the files when it was loaded)
        for o in p["ops"]:
            d, k = o["d"], o["op"]
            ctx.tick()
            if k == "write":
                disk[d] = write(root, o["world"], *where[d])
                ctx.log("write", d, disk[d]["n"])
                ctx.fault("files-replaced")
                continue
            if k in ("load", "value"):
                fault = {}
                for f, name in (("log", where[d][1] + ".csv"), ("item", "item_context.csv")):
                    if o.get("fault") and o["fault"].get(f):
                        fault[name] = o["fault"][f]
                must_fail = any(v.get("open_error") for v in fault.values())
                kw = dict(behavior_policy=where[d][0], campaign=where[d][1])
                path = root
                if o.get("str") is False:
                    from pathlib import Path

                    path = Path(root)
                reload_ = k == "load" and o.get("re") and loaded[d]

                def load():
                    if k == "value":
                        return OpenBanditDataset.calc_on_policy_policy_value_estimate(data_path=path, test_size=o["t"], is_timeseries_split=o["split"], **kw)
                    if reload_:
                        ds = loaded[d][0]
                        ds.load_raw_data()
                        ds.pre_process()
                        return ds
                    return OpenBanditDataset(data_path=path, **kw)

                def go():
                    with faulty_open(root, fault, ctx):
                        if o.get("line"):
                            with LineFault(*o["line"]):
                                return load()
                        return load()

                errors = ctx.faults.get("read-error", 0)
                try:
                    ds = go() if k == "load" else ctx.call("calc_on_policy_policy_value_estimate", go)
                    ok = True
                except INJECTED as e:
                    ok = False
                    ctx.log(k, d, "failed", type(e).__name__)
                    ctx.fault("load-failed")
                except Exception as e:
                    ctx.check(False, "load-failed", lambda: f"{k} raised {type(e).__name__}: {e}, which is none of the injected failures")
                if ok:
                    ctx.check(not must_fail, "error-swallowed", "a file could not be opened, yet loading reported success")
                    ctx.check(ctx.faults.get("read-error", 0) == errors, "error-swallowed", "reading a file failed, yet loading reported success")
                    ctx.cover(k, *[self.fk(o, f) for f in ("log", "item")], bool(o.get("split")), reload_ is not None)
                if k == "value":
                    if ok:
                        self.value(ctx, disk[d], float(ds), o)
                elif ok:
                    loaded[d] = (ds, disk[d])
                    self.full(ctx, ds, disk[d], d)
                elif reload_:
                    loaded[d] = None  # half reloaded: only a complete reload counts
                continue
            if not loaded[d]:
                continue
            ds, c = loaded[d]
            ctx.cover(k, bool(o["split"]), c["n"] > 5, len(c["pos"]))
            if k == "batch":
                self.full(ctx, ds, c, d)
            elif k == "split":
                self.split(ctx, ds, c, o["t"])
            elif k == "boot":
                self.boot(ctx, ds, c, o)
            elif k == "cover" and c["n"] <= 12:
                self.reach(ctx, ds, c, o)
        for d in range(2):
            if loaded[d]:
                self.full(ctx, *loaded[d], d)

    def fk(self, o, f):
        v = (o.get("fault") or {}).get(f)
        return "none" if not v else "+".join(sorted(v))

    def marks(self, ctx, c, b):
        """the rows a dictionary consists of, each checked to be intact"""
        n = b["n_rounds"]
        out = []
        for key in ("action", "position", "reward", "pscore", "context"):
            ctx.check(len(b[key]) == n, "row-count", lambda: f"n_rounds is {n} but there are {len(b[key])} entries of {key}")
        x = np.asarray(b["context"]).astype(float)
        dense = self.dense(c)
        for i in range(n):
            m = float(b["pscore"][i]) * UNIT
            mark = int(round(m))
            r = c["rows"].get(mark)
            ctx.check(r is not None and abs(m - mark) < 1e-6, "unknown-row", lambda: f"row {i} has propensity {b['pscore'][i]}, which no logged row has")
            want = (r["item"], dense[r["pos"]], r["click"])
            got = (int(b["action"][i]), int(b["position"][i]), int(b["reward"][i]))
            ctx.check(got == want, "row-torn", lambda: f"row {i} (propensity {mark}/{UNIT}): (action, position, reward) is {got}, logged was {want}")
            xs = [float(u == v) for u, cs in zip(r["u"], c["cats"]) for v in cs[1:]]
            ctx.check(list(x[i]) == xs, "context-torn", lambda: f"row {i} (propensity {mark}/{UNIT}): context {show(x[i])}, its user features {r['u']} encode to {xs}")
            out.append(mark)
        ac = np.asarray(b["action_context"]).astype(float)
        ctx.check(len(ac) == len(c["items"]), "item-features", lambda: f"{len(ac)} rows of action features for {len(c['items'])} items")
        for a, it in enumerate(c["items"]):
            codes = [sorted({o["f"][j] for o in c["items"]}).index(it["f"][j]) for j in range(3)]
            ctx.check(np.allclose(ac[a], codes + [it["f0"]], atol=1e-9), "item-features", lambda: f"action {a}: features {show(ac[a])}, the file says {codes + [it['f0']]}")
        used = max(r["item"] for r in c["rows"].values())
        ctx.check(b["n_actions"] == used + 1, "n-actions", lambda: f"n_actions is {b['n_actions']}, the largest logged action is {used}")
        return out

    def dense(self, c):
        used = sorted({r["pos"] for r in c["rows"].values()})
        return {v: k for k, v in enumerate(used)}

    def in_order(self, ctx, c, marks):
        ts = [c["rows"][m]["ts"] for m in marks]
        ctx.check(all(a <= b for a, b in zip(ts, ts[1:])), "time-order", lambda: f"rounds are not in time order: {ts[:6]}")

    def full(self, ctx, ds, c, d):
        b = ctx.call("obtain_batch_bandit_feedback", ds.obtain_batch_bandit_feedback)
        m = self.marks(ctx, c, b)
        ctx.check(sorted(m) == sorted(c["rows"]), "rows-lost", lambda: f"{len(m)} rows returned, {len(c['rows'])} logged; missing {sorted(set(c['rows']) - set(m))[:5]}")
        self.in_order(ctx, c, m)
        ctx.check(ds.n_rounds == c["n"] and ds.len_list == len(self.dense(c)) and ds.n_actions == b["n_actions"] and ds.dim_context == b["context"].shape[1], "summary", "n_rounds / len_list / n_actions / dim_context disagree with the data")
        ctx.log("full", d, digest([b[k] for k in ("reward", "position")]))

    def parts(self, ctx, ds, t):
        return ctx.call("obtain_batch_bandit_feedback(split)", ds.obtain_batch_bandit_feedback, test_size=t, is_timeseries_split=True)

    def split(self, ctx, ds, c, t):
        a, b = self.parts(ctx, ds, t)
        ma, mb = self.marks(ctx, c, a), self.marks(ctx, c, b)
        ctx.check(sorted(ma + mb) == sorted(c["rows"]), "split-partition", lambda: f"the parts have {len(ma)} and {len(mb)} rows and together are not the {c['n']} logged rows")
        self.in_order(ctx, c, ma + mb)
        ctx.check(abs(len(ma) - c["n"] * (1 - t)) < 1 + 1e-6, "split-size", lambda: f"test_size={t} of {c['n']} rows gave a training part of {len(ma)}")
        ctx.log("split", len(ma), len(mb))

    def boot(self, ctx, ds, c, o):
        pool = list(c["rows"])
        kw = dict(random_state=o["s"])
        if o["split"]:
            kw.update(test_size=o["t"], is_timeseries_split=True)
            pool = self.marks(ctx, c, self.parts(ctx, ds, o["t"])[0])
        size = o["size"]
        if size is not None and size > len(pool):
            size = len(pool)
        if not pool:
            return
        b = ctx.call("sample_bootstrap_bandit_feedback", ds.sample_bootstrap_bandit_feedback, sample_size=size, **kw)
        m = self.marks(ctx, c, b)
        ctx.check(len(m) == (len(pool) if size is None else size), "bootstrap-size", lambda: f"sample of {len(m)} rows, asked for {size} of {len(pool)}")
        ctx.check(set(m) <= set(pool), "bootstrap-leak", lambda: f"rows {sorted(set(m) - set(pool))[:5]} of the sample are not in the part sampled from")
        m2 = self.marks(ctx, c, ctx.call("sample_bootstrap_bandit_feedback", ds.sample_bootstrap_bandit_feedback, sample_size=size, **kw))
        ctx.check(m == m2, "bootstrap-seed", "the same seed gave another sample")
        if size is None and len(pool) >= 30:
            ctx.check(len(set(m)) < len(m), "bootstrap-replacement", "no row was drawn twice: not sampled with replacement")
            m3 = self.marks(ctx, c, ctx.call("sample_bootstrap_bandit_feedback", ds.sample_bootstrap_bandit_feedback, **dict(kw, random_state=o["s"] + 1)))
            ctx.check(m != m3, "bootstrap-constant", "two seeds gave the same sample")
        ctx.log("boot", m)

    def reach(self, ctx, ds, c, o):
        """many bootstrap samples of one size: every row equally often, with replacement"""
        pool, kw = list(c["rows"]), {}
        if o["split"]:
            kw.update(test_size=o["t"], is_timeseries_split=True)
            pool = self.marks(ctx, c, self.parts(ctx, ds, o["t"])[0])
        n = len(pool)
        if not n:
            return
        size = None if o["size"] is None else min(o["size"], n)
        k = n if size is None else size
        t = max(60, -(-60 * n // k))
        count, twice, distinct = dict.fromkeys(pool, 0), 0, 1.0
        for i in range(k):
            distinct *= 1 - i / n
        for s in range(t):
            m = self.marks(ctx, c, ctx.call("sample_bootstrap_bandit_feedback", ds.sample_bootstrap_bandit_feedback, sample_size=size, random_state=o["s"] + s, **kw))
            ctx.check(len(m) == k and set(m) <= set(pool), "bootstrap-leak", lambda: f"sample {m} of size {k} from {sorted(pool)}")
            twice += len(set(m)) < k
            for x in m:
                count[x] += 1
        # a given row is missed by all samples with probability below exp(-60)
        ctx.check(min(count.values()) > 0, "bootstrap-unreachable", lambda: f"{t} bootstrap samples of {k} of {n} rows never contained rows {[x for x in pool if not count[x]]}")
        for x in pool:
            z = (count[x] - t * k / n) / max(np.sqrt(t * k / n * (1 - 1 / n)), 1e-9)
            ctx.check(abs(z) < 8, "bootstrap-uneven", lambda: f"row {x} was drawn {count[x]} times in {t} samples of {k} of {n} rows")
        if distinct**t < 1e-15:
            ctx.check(twice > 0, "bootstrap-replacement", lambda: f"in {t} bootstrap samples of {k} of {n} rows no row was drawn twice: not sampled with replacement")

    def value(self, ctx, c, got, o):
        rows = sorted(c["rows"].values(), key=lambda r: r["ts"])
        if o["split"]:
            ds_rows = rows[int(len(rows) * (1.0 - o["t"])) :]
            rest = rows[: int(len(rows) * (1.0 - o["t"]))]
            if not ds_rows:
                return
            if rest and rest[-1]["ts"] == ds_rows[0]["ts"]:
                return  # which of the tied rows belong to the test part is open
            rows = ds_rows
        want = sum(r["click"] for r in rows) / len(rows)
        ctx.check(abs(got - want) < 1e-9, "on-policy-value", lambda: f"on-policy value {got}, mean logged reward is {want}")

    def simplify(self, plan):
        for d in range(len(plan["worlds"])):
            for n in (1, 2, 5):
                if plan["worlds"][d]["n"] > n:
                    q = dict(plan)
                    q["worlds"] = [dict(w) for w in plan["worlds"]]
                    q["worlds"][d]["n"] = n
                    yield q


PROP = Prop()

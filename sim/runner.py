"""Search driver: seeds -> plans -> executions on all cores, shrinking, replay files, evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time

from . import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BLOCK = 20  # runs per forked process; fixed, so results do not depend on the number of workers
RUN_WALL = int(os.environ.get("SIM_RUN_WALL", "150"))  # guard against hangs only


def load(pid):
    return importlib.import_module(f"sim.props.{pid.lower()}").PROP


def _alarm(*_):
    raise core.RunTimeout()


def guarded(prop, plan):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_WALL)
    try:
        return core.execute(prop, plan)
    finally:
        signal.alarm(0)


def plan_for(prop, seed, i, tier):
    plan = prop.generate(core.rng_for(seed, prop.id, i), i, tier)
    return json.loads(json.dumps(plan))


_P = {}


def run_block(args):
    pid, seed, tier, b, n, keep = args
    prop = _P[pid]
    # library chatter (progress bars, warnings) is not part of the observation
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 2)
    os.dup2(dn, 1)
    out = dict(b=b, runs=0, faults={}, keys=set(), time=0, checks=0, digests=[], bad=[], nontrivial=set(), sample=None)
    for i in range(b * BLOCK, min((b + 1) * BLOCK, n)):
        plan = plan_for(prop, seed, i, tier)
        v, ctx = guarded(prop, plan)
        out["runs"] += 1
        for k, c in ctx.faults.items():
            out["faults"][k] = out["faults"].get(k, 0) + c
        out["keys"] |= {hashlib.md5(k.encode()).hexdigest()[:12] for k in ctx.keys}
        out["time"] += ctx.sim_time
        out["checks"] += ctx.checks
        if ctx.keys:
            out["nontrivial"].add(hashlib.md5(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:12])
        d = ctx.h.hexdigest()[:16]
        out["digests"].append((i, d))
        if i < 3 and out["sample"] is None:
            out["sample"] = dict(run=i, plan=json.dumps(plan)[:1500], trace=ctx.trace[:25])
        if v is not None:
            out["bad"].append((i, v.sig, v.msg, d))
            if len(out["bad"]) >= 3:
                break
    return out


def parallel(pid, seed, tier, n, deadline, workers=None, stop_on_bad=True, first_block=0):
    blocks = [(pid, seed, tier, b, n, True) for b in range(first_block, (n + BLOCK - 1) // BLOCK)]
    workers = workers or int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    res = []
    with ctx.Pool(workers, maxtasksperchild=1) as pool:
        it = pool.imap(run_block, blocks, chunksize=1)
        for _ in blocks:
            try:
                r = it.next(timeout=max(1.0, deadline - time.time()))
            except mp.TimeoutError:
                break
            res.append(r)
            if r["bad"] and stop_on_bad:
                break
        pool.terminate()
    return res


# --- replay --------------------------------------------------------------------------------------
def replay_plans(pid, plans):
    """Execute the plans in order in this process; the verdict is that of the last one."""
    prop = _P.setdefault(pid, load(pid))
    v = ctx = None
    for p in plans:
        v, ctx = guarded(prop, p)
    return v, ctx


def _child(pid, plans, conn):
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 2)
    os.dup2(dn, 1)
    v, ctx = replay_plans(pid, plans)
    conn.send(None if v is None else (v.sig, v.msg, ctx.h.hexdigest()[:16], ctx.trace[-60:]))
    conn.close()


def isolated(pid, plans, timeout=400):
    """Execute plans in a forked process (the parent has imported the code but run nothing)."""
    c = mp.get_context("fork")
    a, b = c.Pipe(False)
    p = c.Process(target=_child, args=(pid, plans, b))
    p.start()
    b.close()
    r = None
    if a.poll(timeout):
        try:
            r = a.recv()
        except EOFError:
            r = None
    p.kill()
    p.join()
    return r


def report(pid, seed, tier, bad, known):
    """Shrink a failing run, write its replay file and print the VIOLATION line."""
    prop = _P[pid]
    i, sig, msg, _ = bad
    plan = plan_for(prop, seed, i, tier)
    plans, note = [plan], "single run"
    r = isolated(pid, plans)
    if r is None:  # the failure needs what earlier runs of the same process left behind
        start = (i // BLOCK) * BLOCK
        plans = [plan_for(prop, seed, j, tier) for j in range(start, i + 1)]
        r = isolated(pid, plans)
        note = "needs earlier runs in the same process"
        k = len(plans) - 1
        while r is not None and k >= 1 and len(plans) > 1:
            cand = plans[: k - 1] + plans[k:]
            r2 = isolated(pid, cand) if cand else None
            if r2 is not None and r2[0] == r[0]:
                plans, r = cand, r2
            k -= 1
    shr = 0
    if r is not None and sig != "no-progress":
        sig = r[0]
        t0 = time.time()
        budget = [getattr(prop, "shrink_budget", 300)]

        def fails(p):
            if time.time() - t0 > 90:
                return False
            q = isolated(pid, plans[:-1] + [p], timeout=60)
            return q is not None and q[0] == sig

        try:
            small, shr = core.shrink(plans[-1], fails, getattr(prop, "simplify", None), budget[0])
        except Exception as e:  # an unshrunk replay is better than none
            small, note = plans[-1], note + f", minimiser failed: {e!r}"
        r2 = isolated(pid, plans[:-1] + [small])
        if r2 is not None and r2[0] == sig:
            plans, r = plans[:-1] + [small], r2
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{pid}-seed{seed}-run{i}.json")
    exact = None
    if r is not None:
        msg = r[1]
    rec = dict(property=pid, seed=seed, run=i, signature=sig, message=msg, note=note, shrink_steps=shr, plans=plans,
               trace_digest=r[2] if r else None, trace=r[3] if r else None)
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    if r is not None:
        q = subprocess.run([sys.executable, "-W", "ignore", "-m", "sim", "replay", path], cwd=HERE, capture_output=True, text=True)
        exact = q.returncode == 1 and "digest: identical" in q.stdout
    print(f"{pid}: run {i} of seed {seed} violates the property: [{sig}] {msg}")
    print(f"{pid}: minimised in {shr} steps ({note}); replay in a fresh process is {'exact' if exact else 'NOT exact' if exact is False else 'not available'}")
    if sig in known:
        print(f"KNOWN-FINDING: property={pid} {known[sig]}")
        return False
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return True


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {e["signature"]: e["what"] for e in json.load(open(p)).get("open", []) if e["property"] == pid}


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = _P[pid] = load(pid)
    n = prop.runs[tier] if tier in prop.runs else prop.runs["quick"]
    n = int(os.environ.get("SIM_RUNS", n))
    cap = float(os.environ.get("SIM_WALL_CAP", "560" if tier == "quick" else "3000"))
    known = known_findings(pid)
    res = parallel(pid, seed, tier, n, t0 + cap, stop_on_bad=not known)
    bad = [b for r in res for b in r["bad"]]
    viol = 0
    seen = set()
    for b in sorted(bad):
        if b[1] in seen:
            continue
        seen.add(b[1])
        if report(pid, seed, tier, b, known):
            viol += 1
            break
    faults, keys, nontriv = {}, set(), set()
    for r in res:
        for k, c in r["faults"].items():
            faults[k] = faults.get(k, 0) + c
        keys |= r["keys"]
        nontriv |= r["nontrivial"]
    runs = sum(r["runs"] for r in res)
    # determinism: re-execute the first block(s) and compare the event-log digests
    again = 0
    mism = []
    if not viol and res:
        first = dict(d for r in res[:2] for d in r["digests"])
        r2 = parallel(pid, seed, tier, min(n, 2 * BLOCK), time.time() + 120)
        for r in r2:
            for i, d in r["digests"]:
                again += 1
                if first.get(i, d) != d:
                    mism.append(i)
    wall = time.time() - t0
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=runs, distinct_nontrivial=len(nontriv), rule=prop.rule,
            samples=[r["sample"] for r in res if r["sample"]][:2] or [dict(note="stopped before a sample was kept")],
            invariant_checks=sum(r["checks"] for r in res),
            runs_per_hour=int(runs / max(wall, 1e-9) * 3600), planned_runs=n,
            simulated_time=dict(amount=sum(r["time"] for r in res), unit=prop.time_unit),
            faults_injected=dict(sorted(faults.items())), fault_kinds=len(faults),
            distinct_states=dict(count=len(keys), measure=prop.measure),
            determinism=dict(runs_executed_twice=again, digest_mismatches=len(mism)),
            real_components=prop.real, stubbed_components=prop.stub,
        ),
        assumptions=prop.assumptions, wall_s=round(wall, 2), violations=viol,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: {runs} simulated runs, {len(keys)} distinct states, faults {sum(faults.values())} {faults}, "
          f"sim time {ev['coverage']['simulated_time']['amount']}, {wall:.1f}s, violations {viol}, nondeterministic {len(mism)}")
    return 1 if viol else 0


def replay(path):
    rec = json.load(open(path))
    v, ctx = replay_plans(rec["property"], rec["plans"])
    if v is None:
        print(f"{rec['property']}: replay shows no violation")
        return 0
    same = ctx.h.hexdigest()[:16] == rec.get("trace_digest")
    for line in ctx.trace[-40:]:
        print("  ", line)
    print(f"[{v.sig}] {v.msg}")
    print(f"digest: {'identical' if same else 'different'}")
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1


def determinism(ids, n=60):
    """Every property: the same seeds under other hash seeds and worker counts, logs compared."""
    bad = 0
    for pid in ids:
        outs = []
        for hs, w in (("0", "8"), ("1", "3"), ("4242", "1")):
            env = dict(os.environ, PYTHONHASHSEED=hs, SIM_WORKERS=w)
            q = subprocess.run([sys.executable, "-W", "ignore", "-m", "sim", "digests", pid, str(n)], cwd=HERE, env=env, capture_output=True, text=True)
            outs.append(q.stdout.strip())
        ok = len(set(outs)) == 1 and outs[0].count("\n") + 1 == n
        bad += not ok
        print(f"{pid}: {n} seeds x 3 configurations (hash seed, workers): {'identical event logs' if ok else 'DIFFERENT'}")
    return 1 if bad else 0


def digests(pid, n):
    _P[pid] = load(pid)
    res = parallel(pid, int(os.environ.get("VERIF_SEED", "1")), "quick", n, time.time() + 600, stop_on_bad=False)
    for r in res:
        for i, d in r["digests"]:
            print(i, d)
    return 0


def all_ids():
    d = os.path.join(HERE, "sim", "props")
    return sorted(f[:-3].upper() for f in os.listdir(d) if f[0] == "c" and f[1:3].isdigit() and f.endswith(".py"))


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "determinism":
        return determinism([a.upper() for a in argv[1:]] or all_ids())
    if argv[0] == "digests":
        return digests(argv[1].upper(), int(argv[2]))
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(argv[0].upper(), tier)

from ..core import show
from ..world import World

DELAYS = ["zero", "small", "row", "pile", "mixed", "float", "far"]


def config(r):
    return dict(
        n_actions=r.randint(2, 5), dim=r.randint(1, 3), policy=r.choice(["ctx", "ctx", "free"]),
        len_list=r.choice([1, 1, 2]), script=r.randrange(1000), seed=r.randrange(10**6),
        env_delay=r.choice(["script", "script", "exp", "expw", "none"]), delay_style=r.choice(DELAYS), scale=r.choice([1.5, 4.0, 10.0]),
    )


def gen_op(r, kinds):
    k = r.choice(kinds)
    op = dict(op=k)
    if k == "flush":
        return op
    op["n"] = r.choice([1, 1, 2, 3, 5, 8])
    op["seed"] = r.randrange(10**6)
    op["real"] = r.random() < 0.6
    op["delay"] = r.choice(DELAYS + ["none"])
    if k == "both":
        op["m"] = r.randint(1, 4)
    if k == "step":
        op["flat"] = r.random() < 0.7
    return op


def gen_fault(r, op, ats):
    at = r.choice(ats)
    if op["op"] == "flush":
        at = "update"
    if at in ("reward", "delay") and op["op"] not in ("env", "envbatch", "both"):
        at = "select"
    return dict(at=at, nth=r.choice([1, 1, 2, 3, 5]), kind=r.choice(["exception", "exception", "interrupt", "memory"]),
                when=r.choice(["before", "after"]) if at in ("select", "update") else "before")


class Prop:
    id = "C01"
    runs = {"quick": 3000, "thorough": 120000}
    time_unit = "bandit rounds"
    rule = ("a run is a random sequence of stepping and flushing operations over rounds with scripted or sampled delays, with "
            "failures injected into the policy; non-trivial when at least one round was played")
    measure = ("distinct tuples (feedback due this round, delay chosen, queue depth, deliveries held back by an earlier failure, "
               "operation kind, round without delays) plus flush depths")
    real = ["BanditPolicySimulator", "BanditEnvironmentSimulator", "BanditRounds iteration", "ExponentialDelaySampler", "policy base classes"]
    stub = ["the policy (scripted, recording, failing on demand)", "reward function", "delay function in scripted mode"]
    assumptions = ["delays are whole numbers >= 0", "the order in which a flush delivers is left open",
                   "a delivery during which the policy fails counts as the one delivery of that feedback"]

    def generate(self, r, i, tier):
        c = config(r)
        if r.random() < 0.008:  # a long simulation with distant feedback
            ops = [dict(op=k, n=n, seed=r.randrange(10**6), real=True, delay="long") for k, n in (("batch", r.choice([1100, 1700])), ("step", 3), ("batch", r.choice([50, 900])))]
            ops += [dict(op="flush")] + [dict(op="batch", n=r.choice([1100, 2100]), seed=r.randrange(10**6), real=True, delay=r.choice(["long", "far"])), dict(op="flush")]
            return dict(config=c, ops=ops)
        kinds = ["step", "step", "batch", "batch", "env", "envbatch", "both", "flush"]
        if r.random() < 0.3:
            kinds = r.sample(kinds, 3) + ["step", "flush"]
        ops = [gen_op(r, kinds) for _ in range(r.choice([3, 6, 10, 16]))]
        rate = r.choice([0, 0, 0.1, 0.3])
        for op in ops:
            if r.random() < rate:
                op["fault"] = gen_fault(r, op, ["update", "update", "select"])
        ops.append(dict(op="flush"))
        return dict(config=c, ops=ops)

    def run(self, plan, ctx):
        w = World(plan, ctx)
        for op in plan["ops"]:
            n = w.perform(op)
            ctx.tick(n)
            ctx.log(op["op"], len(w.hist), sorted((int(k), list(v)) for k, v in w.pending.items()), list(w.stuck), w.policy.acc)
        # nothing is ever delivered again
        w.perform(dict(op="flush"))

    def simplify(self, plan):
        for k, v in (("n_actions", 2), ("dim", 1), ("len_list", 1), ("env_delay", "none")):
            p = dict(plan, config=dict(plan["config"], **{k: v}))
            yield p
        for i, op in enumerate(plan["ops"]):
            for k, v in (("n", 1), ("n", op.get("n", 1) // 2 or 1), ("n", op.get("n", 2) - 1 or 1), ("m", 1), ("real", False), ("op", "step")):
                if k in op and op[k] != v and (k != "op" or op["op"] in ("batch",)):
                    ops = list(plan["ops"])
                    ops[i] = dict(op, **{k: v})
                    yield dict(plan, ops=ops)


PROP = Prop()

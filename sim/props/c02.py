from ..world import World
from . import c01


class Prop(c01.Prop):
    id = "C02"
    runs = {"quick": 3000, "thorough": 120000}
    rule = ("a run is a random sequence of stepping and flushing operations with failures injected into the policy's choice, the "
            "policy's update, the reward function and the delay function; after every operation the public record is compared with "
            "the history of completed rounds; non-trivial when at least one round was played")
    measure = c01.Prop.measure
    assumptions = ["a round counts as completed once the policy has answered with an action, whether or not a later delivery fails",
                   "the arrays handed to the simulator are not changed by the caller while the simulation uses them"]

    def generate(self, r, i, tier):
        c = c01.config(r)
        kinds = ["step", "batch", "env", "env", "envbatch", "both", "flush"]
        ops = [c01.gen_op(r, kinds) for _ in range(r.choice([3, 6, 10, 16]))]
        if r.random() < 0.008:  # a long record
            ops[:1] = [dict(op=r.choice(["batch", "env", "envbatch"]), n=r.choice([1100, 2200]), seed=r.randrange(10**6), real=True, delay=r.choice(["long", "far"]))]
        rate = r.choice([0, 0.3, 0.6])
        for op in ops:
            if r.random() < rate:
                op["fault"] = c01.gen_fault(r, op, ["update", "select", "reward", "delay"])
        return dict(config=c, ops=ops)

    def run(self, plan, ctx):
        w = World(plan, ctx)
        w.check_record()
        for op in plan["ops"]:
            ctx.tick(w.perform(op))
            w.check_record()
            ctx.cover("record", op["op"], w.fp.fired is None, min(len(w.hist), 60))
            ctx.log(op["op"], len(w.hist), w.policy.acc, float(w.sim.total_reward))


PROP = Prop()

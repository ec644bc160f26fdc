import numpy as np

from .. import components as K
from ..core import INJECTED, digest
from ..seams import LineFault, Scheduler, gen_switches


def state():
    return digest(list(np.random.get_state()))


class Prop:
    id = "C09"
    runs = {"quick": 1500, "thorough": 60000}
    time_unit = "component calls"
    rule = ("a run executes the call programs of 2-4 seeded components once each alone and once interleaved (by call, or by line in "
            "threads) with each other, with identically seeded twins, with users of the global random generators and with calls on "
            "other objects that are aborted at a random line; all results must be bit-identical; non-trivial when control changed "
            "between components at least twice")
    measure = "distinct (component kind, operation, kind that ran just before, noise since its last call) tuples and thread schedules"
    real = ["data generators, environment and delay simulators, drifter, online and offline policies, neural learners, nuisance models, bootstrap"]
    stub = ["thread scheduler", "global random generators are disturbed by the simulator"]
    assumptions = ["components built on torch are interleaved by call only: torch has one process-wide generator", "neural learners: construction and first use of an operation are each a single call"]

    def generate(self, r, i, tier):
        mode = r.choice(["calls", "calls", "calls", "threads"])
        kinds = [k for k in K.KINDS if mode == "calls" or not K.KINDS[k].torch]
        comps = []
        for _ in range(r.choice([2, 2, 3, 4])):
            if comps and r.random() < 0.35:
                c = r.choice(comps)
                c = dict(kind=c["kind"], params=dict(c["params"]), ops=[dict(o) for o in c["ops"]])
                if r.random() < 0.5:  # same object, different program
                    c["ops"] = [K.KINDS[c["kind"]].gen_op(r) for _ in range(r.choice([2, 4, 6]))]
            else:
                k = r.choice(kinds)
                c = dict(kind=k, params=K.KINDS[k].gen(r), ops=[K.KINDS[k].gen_op(r) for _ in range(r.choice([2, 4, 6]))])
            comps.append(c)
        order = []
        if mode == "calls":
            seq = [j for j, c in enumerate(comps) for _ in range(len(c["ops"]) + 1)]
            r.shuffle(seq)
            for j in seq:
                if r.random() < 0.35:
                    order.append(dict(do=r.choice(["np", "np-seed", "torch", "decoy", "py"]), s=r.randrange(10**6), c=r.randrange(len(comps)), line=r.randint(1, 40), kind=r.choice(["exception", "interrupt", "memory"])))
                order.append(dict(do="call", c=j))
        p = dict(mode=mode, comps=comps, order=order, share=r.random() < 0.6, noise=r.randrange(10**6))
        if mode == "threads":
            p["switches"] = gen_switches(r, r.choice([1, 2, 4, 8, 16]), 60 * sum(len(c["ops"]) + 1 for c in comps))
        return p

    def program(self, ctx, c, sh, out):
        """the calls of one component as a list of thunks; out collects digests"""
        k = K.KINDS[c["kind"]]
        box = {}

        def first():
            box["o"] = ctx.call(c["kind"] + "()", k.make, c["params"], sh)
            out.append("made")

        def nxt(op):
            out.append(digest(ctx.call(f"{c['kind']}.{op['op']}", k.call, box["o"], op, c["params"], sh)))

        return [first] + [lambda op=op: nxt(op) for op in c["ops"]]

    def run(self, p, ctx):
        import random

        solo = []
        for c in p["comps"]:
            np.random.seed(0)
            out = []
            for f in self.program(ctx, c, K.Shared(), out):
                f()
            solo.append(out)
        np.random.seed(p["noise"])
        K.torch_noise(p["noise"])
        sh = K.Shared() if p["share"] else None
        outs = [[] for _ in p["comps"]]
        progs = [self.program(ctx, c, sh or K.Shared(), o) for c, o in zip(p["comps"], outs)]
        if p["mode"] == "threads":
            before = state()

            def body(j):
                for f in progs[j]:
                    f()

            for ok, v in Scheduler(p["switches"], ctx).run([lambda j=j: body(j) for j in range(len(progs))]):
                if not ok:
                    raise v
            ctx.check(state() == before, "global-state", "seeded components in threads changed the global NumPy generator")
            for j, c in enumerate(p["comps"]):
                ctx.cover("thread", c["kind"])
        else:
            pos = [0] * len(progs)
            last, noise = None, "none"
            seq = [e for e in p["order"]]
            rest = [dict(do="call", c=j) for j in range(len(progs)) for _ in range(len(progs[j]))]
            for e in seq + rest:
                j = e["c"] % len(progs)
                if e["do"] == "call":
                    if pos[j] >= len(progs[j]):
                        continue
                    before = state()
                    progs[j][pos[j]]()
                    ctx.check(state() == before, "global-state", lambda: f"{p['comps'][j]['kind']} {self.name(p, j, pos[j])} changed the global NumPy generator")
                    ctx.cover(p["comps"][j]["kind"], self.name(p, j, pos[j]), last, noise)
                    self.compare(ctx, p, solo, outs, j)
                    pos[j] += 1
                    last, noise = p["comps"][j]["kind"], "none"
                    ctx.tick()
                    continue
                noise = e["do"]
                ctx.fault("noise-" + noise)
                if noise == "np":
                    np.random.random(e["s"] % 7 + 1)
                elif noise == "np-seed":
                    np.random.seed(e["s"])
                elif noise == "py":
                    random.seed(e["s"])
                    random.random()
                elif noise == "torch":
                    K.torch_noise(e["s"])
                else:  # another object of the same kind, its call cut short
                    c = p["comps"][j]
                    thunks = self.program(ctx, c, sh or K.Shared(), [])
                    try:
                        thunks[0]()
                        with LineFault(e["line"], e["kind"]):
                            for f in thunks[1:3]:
                                f()
                    except INJECTED:
                        ctx.fault("abort-other-" + e["kind"])
        for j in range(len(progs)):
            ctx.check(len(outs[j]) == len(solo[j]), "incomplete", "harness: program not completed")
            self.compare(ctx, p, solo, outs, j)
            ctx.log(j, outs[j])

    def name(self, p, j, k):
        return "construct" if k == 0 else p["comps"][j]["ops"][k - 1]["op"]

    def compare(self, ctx, p, solo, outs, j):
        k = len(outs[j])
        ctx.check(outs[j] == solo[j][:k], "interference", lambda: f"component {j} ({p['comps'][j]['kind']}), call {next(i for i in range(k) if outs[j][i] != solo[j][i])} "
                  f"({self.name(p, j, next(i for i in range(k) if outs[j][i] != solo[j][i]))}): different result than when run alone with the same seed")

    def simplify(self, plan):
        if plan["mode"] == "threads":
            yield dict(plan, switches=[])
        if plan["share"]:
            yield dict(plan, share=False)


PROP = Prop()

"""Fault plans: a list of {"at": step, "k": kind, ...} applied as the run proceeds.

kinds: stall (who, d)   the process does not run for d seconds
       part (a, b, d)   nothing passes between a and b for d seconds, then heals
       jump (who, d)    the process's wall clock jumps by d seconds
       crash (who)      the process dies; only its disk survives
"""
import math


def gen_timing(rng, n, count=None):
    out = []
    for _ in range(rng.choice([0, 1, 2, 4, 8]) if count is None else count):
        at = int(10 ** rng.uniform(0, 3.3))
        k = rng.choice(["stall", "stall", "part", "part", "jump"])
        d = 10 ** rng.uniform(-4, 3.5)
        f = {"at": at, "k": k, "d": round(d, 5)}
        if k == "part":
            f["a"] = rng.randrange(n)
            f["b"] = rng.randrange(n)
        else:
            f["who"] = rng.randrange(n)
        if k == "jump" and rng.random() < 0.5:
            f["d"] = -f["d"]
        out.append(f)
    return out


def install(world, plan):
    """Apply `plan` (actors are addressed by spawn order)."""
    sim, net = world.sim, world.net
    todo = sorted(plan, key=lambda f: f["at"])

    def hook(a, desc):
        while todo and todo[0]["at"] <= sim.steps:
            apply(sim, net, todo.pop(0))

    sim.on_step.append(hook)


def apply(sim, net, f):
    k = f["k"]
    if k == "part":
        t = sim.clock + f["d"]
        sim.fault("partition")
        for p in ((f["a"], f["b"]), (f["b"], f["a"])):
            net.link_slow[p] = max(net.link_slow.get(p, 0.0), t)
        sim.at(f["d"], lambda: None)
        return
    if f["who"] >= len(sim.actors):
        return
    a = sim.actors[f["who"]]
    if k == "stall":
        sim.fault("process-stall")
        a.stalled_until = max(a.stalled_until, sim.clock + f["d"])
        sim.at(f["d"], lambda: None)
    elif k == "jump":
        sim.fault("clock-jump")
        a.proc.clock_skew += f["d"]
    elif k == "crash":
        if a.state in ("done", "crashed"):
            return
        sim.fault("crash")
        sim.crash(a)
        for h in sim.on_exit:
            h(a)

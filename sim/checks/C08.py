"""C08: a party that dies stops the computation; it never yields a wrong or partial value."""
import torch

from .. import faults, prog
from ..runner import viol
from .C07 import API
from .common import configure, gen_topology, ttp_main
from .ops import OPS, pick

PID = "C08"
IMAGES = 6
LEVEL = "fault_enumeration"
COUNT = {"quick": 420, "thorough": 30000}
SAFE = sorted(set(API) - {"stats", "print"})


def gen(rng, tier, i):
    topo = gen_topology(rng, max_n=4, single=False)
    g = prog.Gen(rng, topo["n"], 16)
    g.add_input()
    g.program(rng.choice([1, 2, 4]))
    for d in g.inputs:
        d["how"] = rng.choice(["decoy", "all", "bsize"])
    s = g.spec()
    s.update(topo)
    s["bulk"] = pick(rng, rng.choice([0, 1, 2]), 8)
    s["api"] = [rng.choice(SAFE) for _ in range(rng.choice([1, 2]))]
    s["src"] = rng.randrange(topo["n"])
    s["key"] = rng.randrange(1 << 30)
    s["victim"] = rng.randrange(topo["n"] + (topo["provider"] == "TTP"))
    s["frac"] = rng.random()
    s["faults"] = faults.gen_timing(rng, topo["n"], rng.choice([0, 0, 1, 2]))
    return s


def main_of(spec, sink):
    def main(crypten, rank):
        got = sink.setdefault(rank, [])
        configure(crypten, spec)
        crypten.init()
        pool = prog.run_party(spec, crypten, rank)
        got.append(pool[-1].get_plain_text())
        g = torch.Generator().manual_seed(spec["key"])
        x = (torch.rand(16, generator=g) * 4 - 2).float()
        for o in spec["bulk"]:
            ex = crypten.cryptensor(x, src=spec["src"])
            ey = crypten.cryptensor(x.flip(0), src=0)
            for t in OPS[o][0](crypten, ex, ey):
                got.append(t.get_plain_text())
        for a in spec["api"]:
            got.append(API[a](crypten, spec, rank))
        crypten.uninit()
        return "complete"

    return main


def start(ctl, spec, ent, plan, calm):
    n = spec["n"]
    sink = {}
    w = ctl.world(max_steps=1_000_000, policy="block" if calm else None, delay="none" if calm else None)
    w.actors = [w.party(r, n, main_of(spec, sink), entropy=ent) for r in range(n)]
    if spec["provider"] == "TTP":
        w.party(n, n, ttp_main(spec), entropy=ent)
    faults.install(w, plan)
    w.run()
    return w, sink


def run(spec, ctl):
    ent = "%s/same" % ctl.entropy
    stats = {"evaluations": 0, "ops": spec["bulk"] + spec["api"], "topology": ["%d/%s/%s" % (spec["n"], spec["provider"], spec["protocol"])]}
    a, good = start(ctl, spec, ent, [], True)
    bad = [x for x in a.sim.actors if x.exc is not None]
    if bad or a.sim.deadlock or a.net.desync:
        return {"viol": [viol("baseline", "fault-free run fails: %s %s" % (a.sim.deadlock, bad[0].tb[-600:] if bad else a.net.desync))], "obs": None, "stats": stats}
    at = max(1, int(spec["frac"] * a.sim.steps))
    b, got = start(ctl, spec, ent, spec["faults"] + [{"at": at, "k": "crash", "who": spec["victim"]}], False)
    out = []
    crashed = b.sim.actors[spec["victim"]].state == "crashed"
    if b.sim.deadlock:
        out.append(viol("hang", "after party %d died, the others wait forever: %s" % (spec["victim"], b.sim.deadlock)))
    if b.sim.aborted:
        out.append(viol("hang", "after party %d died, the others keep running without end" % spec["victim"]))
    for p in range(spec["n"]):
        for j, v in enumerate(got.get(p, [])):
            stats["evaluations"] += 1
            u = good[p][j]
            if v.shape != u.shape or not torch.equal(u, v):
                out.append(viol("wrong", "party %d decrypted %s after party %d died, instead of %s" % (
                    p, v.reshape(-1).tolist()[:4], spec["victim"], u.reshape(-1).tolist()[:4])))
                break
        if p != spec["victim"] and b.sim.actors[p].exc is None and b.sim.actors[p].result == "complete":
            if len(got[p]) != len(good[p]):
                out.append(viol("partial", "party %d ended normally with %d of %d results" % (p, len(got[p]), len(good[p]))))
    stats["outcome"] = ["%s/%s" % ("crashed" if crashed else "finished", "".join(
        "E" if x.exc is not None else ("-" if x.state == "crashed" else "C") for x in b.sim.actors[:spec["n"]]))]
    return {"viol": out[:1], "obs": {p: [t.tolist() for t in v] for p, v in got.items()}, "stats": stats}


def shrink(spec):
    for k in ("faults", "api", "bulk"):
        for j in reversed(range(len(spec[k]))):
            yield dict(spec, **{k: spec[k][:j] + spec[k][j + 1:]})
    for k in reversed(range(len(spec["ops"]))):
        yield prog.drop_op(spec, k)

"""C07: timing decides nothing: same results, same messages, and every run ends."""
import sys

import torch

from .. import faults, prog
from ..runner import viol
from .common import configure, drop_list, gen_topology, settle, ttp_main
from .ops import OPS, pick

PID = "C07"
IMAGES = 6
LEVEL = "exploration"
COUNT = {"quick": 200, "thorough": 15000}


def gen(rng, tier, i):
    topo = gen_topology(rng, single=False)
    g = prog.Gen(rng, topo["n"], 16)
    g.add_input()
    g.program(rng.choice([1, 3, 6]))
    for d in g.inputs:
        d["how"] = rng.choice(["decoy", "all", "bsize"])
    s = g.spec()
    s.update(topo)
    s["bulk"] = pick(rng, rng.choice([0, 1, 2]), 16) if rng.random() < 0.8 else []
    s["api"] = [rng.choice(sorted(API)) for _ in range(rng.choice([1, 2, 3]))]
    s["src"] = rng.randrange(topo["n"])
    na = topo["n"] + (topo["provider"] == "TTP")
    s["faults"] = faults.gen_timing(rng, na)
    s["key"] = rng.randrange(1 << 30)
    s["policy"] = rng.choice([None, "random", "starve", "pct"])
    return s


def a_barrier(c, spec, rank):
    c.comm.get().barrier()
    return torch.zeros(1)


def a_rand(c, spec, rank):
    return c.rand(2, 3).get_plain_text()


def a_randn(c, spec, rank):
    return c.randn(3).get_plain_text()


def a_bern(c, spec, rank):
    return c.bernoulli(torch.full((6,), 0.4)).get_plain_text()


def a_bcast(c, spec, rank):
    o = c.comm.get().broadcast_obj({"k": [spec["src"], 2]} if rank == spec["src"] else None, spec["src"])
    return torch.tensor(o["k"])


def a_sendobj(c, spec, rank):
    cm = c.comm.get()
    n = cm.get_world_size()
    nxt, prv = (rank + 1) % n, (rank - 1) % n
    if rank == 0:
        cm.send_obj([rank, "x"], nxt)
        o = cm.recv_obj(prv)
    else:
        o = cm.recv_obj(prv)
        cm.send_obj([rank, "x"], nxt)
    return torch.tensor(o[0])


def a_model(c, spec, rank):
    torch.manual_seed(3 + rank)
    m = torch.nn.Sequential(torch.nn.Linear(3, 2), torch.nn.ReLU())
    e = c.nn.Sequential(c.nn.Linear(3, 2), c.nn.ReLU())
    e.encrypt(src=spec["src"])
    x = c.cryptensor(torch.ones(2, 3), src=0)
    return e(x).get_plain_text()


def a_print(c, spec, rank):
    c.print("hello", rank)
    c.print("in order", rank, in_order=True)
    c.log("l", in_order=True)
    return torch.zeros(1)


def a_stats(c, spec, rank):
    c.reset_communication_stats()
    x = c.cryptensor(torch.ones(4), src=0)
    (x * x).get_plain_text()
    s = c.comm.get().get_communication_stats()
    return torch.tensor([s["rounds"], s["bytes"]])


def a_load(c, spec, rank):
    if rank == spec["src"]:
        c.save_from_party(torch.arange(4.0), "/data/x.pth", src=spec["src"])
    else:
        c.save_from_party(torch.zeros(4), "/data/x.pth", src=spec["src"])
    t = c.load_from_party("/data/x.pth", src=spec["src"])
    return t.get_plain_text()


def a_przs(c, spec, rank):
    return c.cryptensor(torch.arange(3.0), src=spec["src"]).get_plain_text(dst=None)


def a_dst(c, spec, rank):
    v = c.cryptensor(torch.arange(3.0), src=spec["src"]).get_plain_text(dst=spec["src"])
    return torch.zeros(1) if v is None else v


API = {k[2:]: v for k, v in list(globals().items()) if k.startswith("a_")}


def main_of(spec):
    def main(crypten, rank):
        configure(crypten, spec)
        crypten.init()
        out = []
        pool = prog.run_party(spec, crypten, rank)
        out.append(pool[-1].get_plain_text())
        g = torch.Generator().manual_seed(spec["key"])
        x = (torch.rand(16, generator=g) * 4 - 2).float()
        for o in spec["bulk"]:
            ex = crypten.cryptensor(x, src=spec["src"])
            ey = crypten.cryptensor(x.flip(0), src=0)
            out += [t.get_plain_text() for t in OPS[o][0](crypten, ex, ey)]
        for a in spec["api"]:
            out.append(API[a](crypten, spec, rank))
        crypten.uninit()
        return out

    return main


def start(ctl, spec, ent, calm):
    n = spec["n"]
    w = ctl.world(keep_wire=True, max_steps=1_000_000, policy="block" if calm else spec["policy"], delay="none" if calm else None)
    w.actors = [w.party(r, n, main_of(spec), entropy=ent) for r in range(n)]
    if spec["provider"] == "TTP":
        w.party(n, n, ttp_main(spec), entropy=ent)
    if not calm:
        faults.install(w, spec["faults"])
    w.run()
    return w, settle(w)


def trace(w, r):
    return [(m.kind, m.group, tuple(m.dsts), m.tensor.numel(), str(m.tensor.dtype)) for m in w.net.wire if m.src == r]


def run(spec, ctl):
    ent = "%s/same" % ctl.entropy
    stats = {"evaluations": 0, "ops": spec["bulk"] + spec["api"], "topology": ["%d/%s/%s" % (spec["n"], spec["provider"], spec["protocol"])]}
    a, oa = start(ctl, spec, ent, True)
    if oa:
        return {"viol": oa[:1], "obs": None, "stats": stats}
    b, ob = start(ctl, spec, ent, False)
    if ob:
        return {"viol": ob[:1], "obs": None, "stats": stats}
    out = []
    ttp = spec["provider"] == "TTP"
    if ttp and b.sim.actors[spec["n"]].state != "done":
        out.append(viol("ttp", "the trusted third party did not terminate"))
    for p, (x, y) in enumerate(zip(a.actors, b.actors)):
        for j, (t, u) in enumerate(zip(x.result, y.result)):
            stats["evaluations"] += 1
            if t.shape != u.shape or not torch.equal(t, u):
                out.append(viol("timing", "party %d, result %d: %s without delays, %s under this schedule with the same randomness" % (
                    p, j, t.reshape(-1).tolist()[:4], u.reshape(-1).tolist()[:4])))
                break
        if trace(a, p) != trace(b, p):
            out.append(viol("trace", "party %d sends different messages depending on the schedule" % p))
    if b.sim.steps > 3 * a.sim.steps + 500:
        out.append(viol("progress", "%d steps under this schedule, %d without faults" % (b.sim.steps, a.sim.steps)))
    return {"viol": out[:1], "obs": [[t.tolist() for t in x.result] for x in b.actors], "stats": stats}


def shrink(spec):
    for k in ("faults", "api", "bulk"):
        for j in reversed(range(len(spec[k]))):
            yield dict(spec, **{k: spec[k][:j] + spec[k][j + 1:]})
    for k in reversed(range(len(spec["ops"]))):
        yield prog.drop_op(spec, k)
    if spec["provider"] == "TTP":
        yield dict(spec, provider="TFP")

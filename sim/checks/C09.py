"""C09: every communicator operation delivers exactly what was sent, to whom it was sent."""
import random

import torch

from .. import faults
from ..runner import viol
from .common import drop_list, settle

PID = "C09"
IMAGES = 6
LEVEL = "exploration"
COUNT = {"quick": 1800, "thorough": 60000}
KINDS = ["send", "isend", "ring", "cross", "scatter", "reduce", "reduce_b", "all_reduce", "all_reduce_b", "gather", "all_gather",
         "broadcast", "broadcast_b", "barrier", "send_obj", "broadcast_obj", "many", "fan_in", "objs"]
ROPS = ["SUM", "SUM", "BXOR", "PRODUCT", "MIN", "MAX", "BAND", "BOR"]
BIG = 1 << 63


def gen(rng, tier, i):
    n = rng.choices([1, 2, 3, 4, 5], [1, 5, 5, 3, 2])[0]
    ops = []
    for _ in range(rng.choice([1, 2, 4, 8, 12])):
        k = rng.choice(KINDS)
        shape = rng.choice([[], [1], [3], [2, 2], [0], [5, 1], [17]])
        o = {"k": k, "a": rng.randrange(n), "b": rng.randrange(n), "shape": shape, "seed": rng.randrange(1 << 30),
             "rop": rng.choice(ROPS), "cnt": rng.choice([1, 2, 3]), "edge": rng.random() < 0.3, "sized": rng.random() < 0.5}
        if n > 1 and o["a"] == o["b"]:
            o["b"] = (o["a"] + 1 + rng.randrange(n - 1)) % n
        if n == 1 and k in ("send", "isend", "ring", "cross", "send_obj", "many", "fan_in", "objs"):
            continue
        ops.append(o)
    return {"n": n, "ops": ops, "ttp": n > 1 and rng.random() < 0.3, "verbose": rng.random() < 0.3, "faults": faults.gen_timing(rng, n)}


def shrink(spec):
    if spec["faults"]:
        yield dict(spec, faults=[])
    yield from drop_list(spec, "ops")
    if spec["faults"]:
        yield from drop_list(spec, "faults")


def data(o, rank, j=0):
    """The tensor that party `rank` contributes to operation o."""
    r = random.Random("%d/%d/%d" % (o["seed"], rank, j))
    num = 1
    for d in o["shape"]:
        num *= d
    if o["edge"]:
        v = [r.choice([0, -1, 1, BIG - 1, -BIG, 1 << 32, r.getrandbits(64) - BIG]) for _ in range(num)]
    else:
        v = [r.getrandbits(64) - BIG for _ in range(num)]
    return torch.tensor(v, dtype=torch.long).reshape(o["shape"])


def obj(o, rank, j=0):
    r = random.Random("o%d/%d/%d" % (o["seed"], rank, j))
    return r.choice([
        lambda: {"a": [rank, j, r.random()], "b": (None, True, "x" * r.randrange(300))},
        lambda: "s%d" % r.getrandbits(40),
        lambda: torch.Size([r.randrange(5), r.randrange(5)]),
        lambda: [b"\x00\xff" * r.randrange(40), -r.getrandbits(70)],
        lambda: torch.tensor([r.random() for _ in range(3)]),
        lambda: 0, lambda: [], lambda: False,
    ])()


def same(x, y):
    if torch.is_tensor(x) or torch.is_tensor(y):
        return torch.is_tensor(x) and torch.is_tensor(y) and x.dtype == y.dtype and x.size() == y.size() and torch.equal(x, y)
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    return type(x) is type(y) and x == y


def wrap64(v):
    return (v + BIG) % (1 << 64) - BIG


def fold(rop, ts):
    out = ts[0].clone()
    flat = [t.reshape(-1).tolist() for t in ts]
    res = []
    for col in zip(*flat):
        a = col[0]
        for b in col[1:]:
            a = {"SUM": lambda: wrap64(a + b), "PRODUCT": lambda: wrap64(a * b), "MIN": lambda: min(a, b), "MAX": lambda: max(a, b),
                 "BAND": lambda: a & b, "BOR": lambda: a | b, "BXOR": lambda: a ^ b}[rop]()
        res.append(a)
    return torch.tensor(res, dtype=torch.long).reshape(out.size())


def perform(comm, dist, o, me, n, rec):
    """Do the operation; return [(what, got, expected)] and check inputs stay intact."""
    k, a, b = o["k"], o["a"], o["b"]
    out = []
    mine = [data(o, me, j) for j in range(3)]
    keep = [t.clone() for t in mine]
    rop = getattr(dist.ReduceOp, o["rop"])
    cnt = o["cnt"]
    frozen = True
    if k == "send":
        if me == a:
            comm.send(mine[0], b)
        elif me == b:
            buf = mine[1]
            out.append(("recv", comm.recv(buf, a), data(o, a)))
    elif k == "isend":
        if me == a:
            reqs = [comm.isend(mine[j], b) for j in range(cnt)]
            for r in reqs:
                r.wait()
        elif me == b:
            bufs = [torch.zeros(o["shape"], dtype=torch.long) for j in range(cnt)]
            reqs = [comm.irecv(bufs[j], src=a) for j in range(cnt)]
            for r in reqs:
                r.wait()
            out += [("irecv %d" % j, bufs[j], data(o, a, j)) for j in range(cnt)]
    elif k == "ring":
        nxt, prv = (me + 1) % n, (me - 1) % n
        buf = torch.zeros(o["shape"], dtype=torch.long)
        r0 = comm.isend(mine[0], nxt)
        r1 = comm.irecv(buf, src=prv)
        r0.wait()
        r1.wait()
        out.append(("ring", buf, data(o, prv)))
    elif k == "cross":
        # both directions between a and b at once
        if me in (a, b):
            other = b if me == a else a
            buf = torch.zeros(o["shape"], dtype=torch.long)
            r1 = comm.irecv(buf, src=other)
            r0 = comm.isend(mine[0], other)
            r1.wait()
            r0.wait()
            out.append(("cross", buf, data(o, other)))
    elif k == "fan_in":
        # everyone sends to b, which receives in a fixed order
        if me != b:
            comm.send(mine[0], b)
        else:
            for s in list(range(n))[:: -1 if o["sized"] else 1]:
                if s != b:
                    out.append(("fan_in from %d" % s, comm.recv(torch.zeros(o["shape"], dtype=torch.long), s), data(o, s)))
    elif k == "scatter":
        parts = [data(o, r) for r in range(n)]
        if me == a:
            orig = [t.clone() for t in parts]
            got = comm.scatter(parts, a)
            out.append(("scatter list kept", parts, orig))
        elif o["sized"]:
            got = comm.scatter(None, a, size=torch.Size(o["shape"])) if n > 1 else parts[0]
        else:
            got = comm.scatter([torch.zeros(o["shape"], dtype=torch.long)] * n, a)
        if n > 1:
            out.append(("scatter", got, data(o, me)))
    elif k == "reduce":
        got = comm.reduce(mine[0], a, op=rop)
        if me == a:
            out.append(("reduce", got, fold(o["rop"], [data(o, r) for r in range(n)])))
        else:
            out.append(("reduce elsewhere", got, None))
    elif k == "reduce_b":
        got = comm.reduce(mine[:cnt], a, op=rop, batched=True)
        if me == a:
            out.append(("reduce batched", got, [fold(o["rop"], [data(o, r, j) for r in range(n)]) for j in range(cnt)]))
        else:
            out.append(("reduce batched elsewhere", got, None))
    elif k == "all_reduce":
        out.append(("all_reduce", comm.all_reduce(mine[0], op=rop), fold(o["rop"], [data(o, r) for r in range(n)])))
    elif k == "all_reduce_b":
        out.append(("all_reduce batched", comm.all_reduce(mine[:cnt], op=rop, batched=True),
                    [fold(o["rop"], [data(o, r, j) for r in range(n)]) for j in range(cnt)]))
    elif k == "gather":
        got = comm.gather(mine[0], a)
        if me == a:
            out.append(("gather", list(got), [data(o, r) for r in range(n)]))
        else:
            out.append(("gather elsewhere", all(g is None for g in (got or [])), True))
    elif k == "all_gather":
        out.append(("all_gather", list(comm.all_gather(mine[0])), [data(o, r) for r in range(n)]))
    elif k == "broadcast":
        frozen = False
        out.append(("broadcast", comm.broadcast(mine[0], a), data(o, a)))
    elif k == "broadcast_b":
        frozen = False
        got = comm.broadcast(mine[:cnt], a, batched=True)
        out.append(("broadcast batched", list(got), [data(o, a, j) for j in range(cnt)]))
    elif k == "barrier":
        rec["enter"].append(rec["now"]())
        comm.barrier()
        rec["leave"].append(rec["now"]())
    elif k == "send_obj":
        if me == a:
            comm.send_obj(obj(o, a), b)
        elif me == b:
            out.append(("recv_obj", comm.recv_obj(a), obj(o, a)))
    elif k == "broadcast_obj":
        x = obj(o, a)
        got = comm.broadcast_obj(x if me == a else None, a)
        out.append(("broadcast_obj", got, obj(o, a)))
    elif k == "objs":
        # a stream of objects of different sizes mixed with tensors on one link
        for j in range(3):
            if me == a:
                comm.send_obj(obj(o, a, j), b)
                comm.send(mine[j], b)
            elif me == b:
                out.append(("stream object", comm.recv_obj(a), obj(o, a, j)))
                out.append(("stream tensor", comm.recv(torch.zeros(o["shape"], dtype=torch.long), a), data(o, a, j)))
    elif k == "many":
        # interleaved point-to-point traffic and a collective in between
        if me == a:
            r = comm.isend(mine[0], b)
        elif me == b:
            buf = torch.zeros(o["shape"], dtype=torch.long)
            r = comm.irecv(buf, src=a)
        out.append(("all_reduce between", comm.all_reduce(mine[1]), fold("SUM", [data(o, r_, 1) for r_ in range(n)])))
        if me in (a, b):
            r.wait()
            if me == b:
                out.append(("irecv across a collective", buf, data(o, a)))
    if frozen:
        out.append(("own inputs intact", mine, keep))
    return out


def run(spec, ctl):
    n = spec["n"]
    w = ctl.world()
    bad = []
    rec = {r: {"enter": [], "leave": [], "now": lambda: w.sim.steps} for r in range(n)}
    names = []

    def main(crypten, rank):
        import torch.distributed as dist

        crypten.cfg.communicator.verbose = spec["verbose"]
        if spec["ttp"]:
            crypten.cfg.mpc.provider = "TTP"
        crypten.init(party_name="party %d" % rank)
        comm = crypten.communicator.get()
        if comm.get_rank() != rank or comm.get_world_size() != n:
            bad.append(viol("rank", "party %d of %d sees itself as %d of %d" % (rank, n, comm.get_rank(), comm.get_world_size())))
        names.append(comm.get_name())
        for j, o in enumerate(spec["ops"]):
            for what, got, exp in perform(comm, dist, o, rank, n, rec[rank]):
                if not same(got, exp):
                    bad.append(viol("value:" + o["k"], "operation %d (%s): party %d got %s, expected %s (%s)"
                                    % (j, o["k"], rank, str(got)[:200], str(exp)[:200], what)))
        crypten.uninit()
        return True

    for r in range(n):
        w.party(r, n, main)
    if spec["ttp"]:
        def srv(crypten, rank):
            crypten.cfg.mpc.provider = "TTP"
            crypten.mpc.provider.TTPServer()
            return True

        w.party(n, n, srv)
    faults.install(w, spec["faults"])
    w.run()
    bad += settle(w)
    if not bad and n > 1:
        for j in range(len(rec[0]["enter"])):
            last_in = max(rec[r]["enter"][j] for r in range(n))
            first_out = min(rec[r]["leave"][j] for r in range(n))
            if first_out < last_in:
                bad.append(viol("barrier", "a party left barrier %d before all had entered it" % j))
    if not bad and sorted(names) != ["party %d" % r for r in range(n)]:
        bad.append(viol("name", "party names are %s" % names))
    return {"viol": bad, "stats": {"ops": len(spec["ops"]), "parties": n}, "obs": names}


REAL = ["crypten.communicator (all operations)", "crypten.init / uninit", "pickling of objects", "torch.distributed front end"]
STUB = ["the gloo process group and the rendezvous store: simulated reliable FIFO transport with arbitrary delays"]
ASSUME = ["links are reliable and ordered, as TCP is; tensors are contiguous int64"]

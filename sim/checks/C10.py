"""C10: threads of one process communicate as parties do, whatever the thread schedule."""
import torch

from .. import faults
from ..runner import viol
from . import C09
from .C09 import data, fold, same
from .common import drop_list, settle

PID = "C10"
IMAGES = 1
LEVEL = "exploration"
COUNT = {"quick": 2500, "thorough": 150000}
KINDS = ["send", "isend", "ring", "cross", "fan_in", "scatter", "reduce", "all_reduce", "gather", "all_gather", "broadcast", "any", "many", "burst"]


def gen_ops(rng, n):
    ops = []
    for _ in range(rng.choice([1, 2, 4, 8, 12])):
        a = rng.randrange(n)
        b = (a + 1 + rng.randrange(n - 1)) % n if n > 1 else a
        k = rng.choice(KINDS)
        if n == 1 and k in ("send", "isend", "ring", "cross", "fan_in", "any", "many", "burst"):
            k = "all_reduce"
        ops.append({"k": k, "a": a, "b": b, "shape": rng.choice([[], [1], [3], [2, 2], [0], [9]]), "seed": rng.randrange(1 << 30),
                    "rop": "SUM", "cnt": rng.choice([1, 2, 3]), "edge": rng.random() < 0.3, "sized": rng.random() < 0.5})
    return ops


def gen(rng, tier, i):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        n = rng.choices([1, 2, 3, 4, 5], [1, 4, 5, 3, 2])[0]
        out.append({"n": n, "ops": gen_ops(rng, n), "prng": rng.random() < 0.8})
    plan = [f for f in faults.gen_timing(rng, out[0]["n"] + 1) if f["k"] == "stall"]
    return {"sessions": out, "faults": plan}


def shrink(spec):
    if spec["faults"]:
        yield dict(spec, faults=[])
    yield from drop_list(spec, "sessions")
    for j, s in enumerate(spec["sessions"]):
        for t in drop_list(s, "ops"):
            yield dict(spec, sessions=spec["sessions"][:j] + [t] + spec["sessions"][j + 1:])


def perform(comm, o, me, n):
    k, a, b = o["k"], o["a"], o["b"]
    mine = [data(o, me, j) for j in range(3)]
    out = []
    if k == "scatter":
        parts = [data(o, r) for r in range(n)] if me == a else None
        out.append(("scatter", comm.scatter(parts, a, size=torch.Size(o["shape"])), data(o, me)))
    elif k == "reduce":
        got = comm.reduce(mine[0], a)
        out.append(("reduce", got, fold("SUM", [data(o, r) for r in range(n)]) if me == a else None))
    elif k == "all_reduce":
        out.append(("all_reduce", comm.all_reduce(mine[0]), fold("SUM", [data(o, r) for r in range(n)])))
    elif k == "gather":
        got = comm.gather(mine[0], a)
        out.append(("gather", list(got) if me == a else None, [data(o, r) for r in range(n)] if me == a else None))
    elif k == "all_gather":
        out.append(("all_gather", list(comm.all_gather(mine[0])), [data(o, r) for r in range(n)]))
    elif k == "broadcast":
        out.append(("broadcast", comm.broadcast(mine[0], a), data(o, a)))
    elif k == "any":
        # any-source receive: exactly one of the messages sent, each once
        if me != b:
            comm.send(mine[0], b)
        else:
            got = [comm.recv(torch.zeros(o["shape"], dtype=torch.long)) for _ in range(n - 1)]
            key = lambda t: (list(t.size()), t.reshape(-1).tolist())
            out.append(("any source", sorted(map(key, got)), sorted(key(data(o, r)) for r in range(n) if r != b)))
        comm.all_gather(mine[1])  # nobody sends again before they are all received
    elif k == "burst":
        # several messages on one link, the sender's buffer reused at once
        if me == a:
            for j in range(3):
                t = mine[j].clone()
                comm.send(t, b)
                t.zero_()
        elif me == b:
            for j in range(3):
                out.append(("burst %d" % j, comm.recv(torch.zeros(o["shape"], dtype=torch.long), a), data(o, a, j)))
    else:
        class D:
            class ReduceOp:
                SUM = torch.distributed.ReduceOp.SUM

        return C09.perform(comm, D, o, me, n, None)
    return out


def run(spec, ctl):
    w = ctl.world()
    sim = w.sim
    bad = []
    proc = w.process(0, {})

    def main():
        import sys

        crypten = sys.modules["crypten"]
        for si, s in enumerate(spec["sessions"]):
            n = s["n"]

            def body(rank, s=s, n=n, si=si):
                if s["prng"]:
                    crypten.init_thread(rank, n)
                else:
                    crypten.communicator._init(use_threads=True, rank=rank, world_size=n)
                comm = crypten.communicator.get()
                if comm.get_rank() != rank or comm.get_world_size() != n or not crypten.is_initialized():
                    bad.append(viol("rank", "thread %d of %d sees itself as %d of %d" % (rank, n, comm.get_rank(), comm.get_world_size())))
                for j, o in enumerate(s["ops"]):
                    for what, got, exp in perform(comm, o, rank, n):
                        if not same(got, exp):
                            bad.append(viol("value:" + o["k"], "session %d operation %d (%s): thread %d got %s, expected %s (%s)"
                                            % (si, j, o["k"], rank, str(got)[:200], str(exp)[:200], what)))
                return True

            actors = [sim.spawn(lambda r=r: body(r), proc) for r in range(n)]
            sim.block(lambda: all(a.state == "done" for a in actors), "join threads")
            if any(a.exc is not None for a in actors):
                return False
            crypten.uninit()
        return True

    sim.spawn(main, proc)
    faults.install(w, spec["faults"])
    w.run()
    bad = settle(w) + bad
    return {"viol": bad, "stats": {"ops": sum(len(s["ops"]) for s in spec["sessions"]), "threads": sum(s["n"] for s in spec["sessions"])}}


REAL = ["crypten.communicator.InProcessCommunicator", "crypten.init_thread", "seed exchange"]
STUB = ["threading.Lock / Barrier and queue.Queue: same semantics, but every blocking operation yields to the seeded scheduler"]
ASSUME = ["threads are pre-empted at lock, queue and barrier operations only; requests returned by irecv are waited for in posting order"]

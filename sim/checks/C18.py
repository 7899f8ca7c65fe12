"""C18: communication statistics account for exactly the traffic that happened."""
import torch

from .. import faults
from ..runner import viol
from . import C09
from .common import configure, drop_list, settle
from .ops import OPS, pick

PID = "C18"
IMAGES = 6
LEVEL = "exploration"
COUNT = {"quick": 700, "thorough": 40000}
B = 8
KINDS = [k for k in C09.KINDS if k not in ("send_obj", "broadcast_obj", "objs")]


def gen(rng, tier, i):
    s = C09.gen(rng, tier, i)
    s["mode"] = rng.choice(["ops", "ops", "mpc"])
    n = s["n"]
    for o in s["ops"]:
        if rng.random() < 0.8 and o["k"] not in KINDS:
            o["k"] = rng.choice(["all_reduce", "broadcast", "gather", "barrier"])
        o["on"] = rng.random() < 0.75  # verbose during this operation
        o["reset"] = rng.random() < 0.12
    s["bulk"] = pick(rng, rng.choice([1, 2]), 12) if s["mode"] == "mpc" else []
    s["ttp"] = False
    s["again"] = rng.random() < 0.2
    s["protocol"] = "replicated" if n == 3 and rng.random() < 0.4 else "beaver"
    return s


def shrink(spec):
    if spec["faults"]:
        yield dict(spec, faults=[])
    if spec["again"]:
        yield dict(spec, again=False)
    yield from drop_list(spec, "ops")


def numel(o):
    k = 1
    for d in o["shape"]:
        k *= d
    return k


def expect(o, me, n):
    """(rounds, bytes or None) that party `me` must account for operation o."""
    if n == 1:
        return int(o["k"] == "barrier"), 0
    k, a, b, m, c = o["k"], o["a"], o["b"], numel(o) * B, o["cnt"]
    at = me in (a, b)
    if k == "send":
        return (1, m) if at else (0, 0)
    if k == "isend":
        return (c, c * m) if at else (0, 0)
    if k == "ring":
        return 2, 2 * m
    if k == "cross":
        return (2, 2 * m) if at else (0, 0)
    if k == "fan_in":
        return (n - 1, (n - 1) * m) if me == b else (1, m)
    if k == "scatter":
        return 1, (n - 1) * m if me == a else m
    if k in ("reduce", "gather", "broadcast"):
        return 1, (n - 1) * m if me == a else m
    if k in ("reduce_b", "broadcast_b"):
        return 1, c * ((n - 1) * m if me == a else m)
    if k == "all_reduce":
        return 1, 2 * m
    if k == "all_reduce_b":
        return 1, 2 * m * c
    if k == "all_gather":
        return 1, 2 * (n - 1) * m
    if k == "barrier":
        return 1, 0
    if k == "many":
        return (2, 3 * m) if at else (1, 2 * m)
    if k == "send_obj":
        return (1, None) if at else (0, 0)
    if k == "broadcast_obj":
        return 1, None
    if k == "objs":
        return (6, None) if at else (0, 0)
    raise AssertionError(k)


def run(spec, ctl):
    n = spec["n"]
    w = ctl.world(keep_wire=True)
    bad = []
    obs = {}
    marks = {}

    def check(stats, rounds, nbytes, spent, where, rank, slack=0.0):
        if set(stats) != {"rounds", "bytes", "time"}:
            bad.append(viol("keys", "%s: party %d: statistics are %s" % (where, rank, sorted(stats))))
            return
        if stats["rounds"] != rounds:
            bad.append(viol("rounds", "%s: party %d counts %s rounds, took part in %d" % (where, rank, stats["rounds"], rounds)))
        if nbytes is not None and stats["bytes"] != nbytes:
            bad.append(viol("bytes", "%s: party %d counts %s bytes, sent and received %d" % (where, rank, stats["bytes"], nbytes)))
        if spent is not None and not -1e-9 <= spent - stats["time"] <= 1e-6 * (3 + rounds) + slack:
            bad.append(viol("time", "%s: party %d accounts %.6f s of communication, spent %.6f s" % (where, rank, stats["time"], spent)))

    def session(crypten, rank, tag):
        import torch.distributed as dist
        import timeit

        configure(crypten, {"provider": "TFP", "protocol": spec["protocol"]})
        crypten.init()
        comm = crypten.communicator.get()
        check(comm.get_communication_stats(), 0, 0, 0.0, "after init (verbose off)", rank)
        cfg = crypten.cfg
        rounds = nbytes = 0
        spent = 0.0
        exact = True
        calls = 0
        for j, o in enumerate(spec["ops"]):
            if o["reset"]:
                crypten.reset_communication_stats()
                rounds = nbytes = calls = 0
                spent, exact = 0.0, True
            cfg.communicator.verbose = o["on"]
            t0 = timeit.default_timer()
            C09.perform(comm, dist, o, rank, n, {"enter": [], "leave": [], "now": lambda: 0})
            t1 = timeit.default_timer()
            cfg.communicator.verbose = False
            if o["on"]:
                r, b = expect(o, rank, n)
                rounds += r
                calls += 1
                if b is None:
                    exact = False
                else:
                    nbytes += b
                if r:
                    spent += t1 - t0
            s = comm.get_communication_stats()
            # waits on isend/irecv requests happen after the counted call returns
            sync = all(p["k"] not in ("isend", "ring", "cross", "many") for p in spec["ops"][:j + 1])
            check(s, rounds, nbytes if exact else None, spent, "after operation %d (%s)" % (j, o["k"]), rank,
                  slack=1e-4 * (1 + 4 * j) if sync else float("inf"))
        if spec["mode"] == "mpc" and n > 1:
            crypten.reset_communication_stats()
            check(comm.get_communication_stats(), 0, 0, 0.0, "after reset", rank)
            comm.barrier()
            x = crypten.cryptensor(torch.arange(16).float() / 8 - 1, src=0)
            y = crypten.cryptensor(torch.ones(16), src=n - 1)
            comm.barrier()
            marks[(tag, rank, 0)] = len(w.net.wire)
            cfg.communicator.verbose = True
            outs = []
            for name in spec["bulk"]:
                outs += OPS[name][0](crypten, x, y)
            for t in outs:
                t.get_plain_text()
            cfg.communicator.verbose = False
            obs[(tag, rank)] = comm.get_communication_stats()
            comm.barrier()
            marks[(tag, rank, 1)] = len(w.net.wire)
        crypten.uninit()

    def main(crypten, rank):
        session(crypten, rank, 0)
        if spec["again"]:
            session(crypten, rank, 1)
        return True

    for r in range(n):
        w.party(r, n, main)
    faults.install(w, spec["faults"])
    w.run()
    bad = settle(w) + bad
    if not bad and obs:
        # what the network saw between the two barriers, counted independently
        for tag in ([0, 1] if spec["again"] else [0]):
            lo = min(marks[(tag, r, 0)] for r in range(n))
            hi = max(marks[(tag, r, 1)] for r in range(n))
            per = [0] * n
            for m in w.net.wire[lo:hi]:
                k = m.tensor.numel() * B if m.tensor is not None else 0
                if m.kind == "send":
                    per[m.src] += k
                    per[m.dsts[0]] += k
                elif m.kind == "allreduce":
                    per[m.src] += 2 * k
                elif m.kind == "broadcast":
                    per[m.src] += k * (n - 1)
                    for d in m.dsts:
                        per[d] += k
                elif m.kind == "barrier":
                    pass
                else:
                    per = None
                    break
            if per is None:
                continue
            for r in range(n):
                st = obs[(tag, r)]
                if st["bytes"] != per[r]:
                    bad.append(viol("mpc bytes", "party %d accounts %s bytes for %s, the network carried %d" % (r, st["bytes"], spec["bulk"], per[r])))
                if not st["rounds"] > 0 or st["time"] <= 0:
                    bad.append(viol("mpc stats", "party %d: statistics %s after %s" % (r, st, spec["bulk"])))
            if spec["protocol"] == "beaver" and len({obs[(tag, r)]["rounds"] for r in range(n)}) > 1:
                bad.append(viol("mpc rounds", "parties count different numbers of rounds: %s" % [obs[(tag, r)]["rounds"] for r in range(n)]))
    return {"viol": bad, "stats": {"ops": len(spec["ops"]), "mpc": bool(spec["bulk"])}, "obs": sorted((k, v) for k, v in obs.items())}


REAL = ["crypten.communicator statistics", "all communicator operations", "MPC primitives (mpc mode)"]
STUB = ["gloo transport and store; clocks (virtual)"]
ASSUME = ["the byte model is the documented one: a ring all-reduce costs one send and one receive of the tensor per party, the other collectives are direct; object sizes are estimates and not checked"]

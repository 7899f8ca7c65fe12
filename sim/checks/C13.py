"""C13: tuples prepared in advance give the same results and are used at most once."""
import torch

from .. import faults, harness
from ..runner import viol
from .common import configure, drop_list, gen_topology, settle, ttp_main
from .ops import OPS

PID = "C13"
IMAGES = 9
LEVEL = "fault_enumeration"
COUNT = {"quick": 150, "thorough": 12000}
PUB = "public"
NAMES = ["mul", "square", "matmul", "conv1d", "conv2d", "convt", "div", "mean", "gt", "le0", "eq", "relu", "abs", "where", "max", "a2b", "polynomial",
         "pow3", "avg_pool", "max_pool", "exp", "train"]

# operations that request tuples of the same sizes and differ only in other arguments
_S = lambda t: t[:16].reshape(4, 4)  # noqa: E731
_1 = lambda x, y, **k: [x[:12].reshape(1, 2, 6).conv1d(y[:12].reshape(2, 2, 3), **k)]  # noqa: E731
_2 = lambda x, y, **k: [x[:16].reshape(1, 1, 4, 4).conv2d(y[:4].reshape(1, 1, 2, 2), **k)]  # noqa: E731
ALIKE = {
    "sq_mul": lambda c, x, y: [_S(x) * _S(y)],
    "sq_matmul": lambda c, x, y: [_S(x).matmul(_S(y))],
    "sq_self": lambda c, x, y: [_S(x).square() + _S(y)],
    "c1": lambda c, x, y: _1(x, y),
    "c1p": lambda c, x, y: _1(x, y, padding=1),
    "c1s": lambda c, x, y: _1(x, y, stride=2, padding=1),
    "c1d": lambda c, x, y: _1(x, y, dilation=2, padding=2),
    "c1g": lambda c, x, y: [x[:12].reshape(1, 2, 6).conv1d(y[:6].reshape(2, 1, 3), groups=2)],
    "c1t": lambda c, x, y: [x[:12].reshape(1, 2, 6).conv_transpose1d(y[:12].reshape(2, 2, 3))],
    "c1ts": lambda c, x, y: [x[:12].reshape(1, 2, 6).conv_transpose1d(y[:12].reshape(2, 2, 3), stride=2, output_padding=1)],
    "c2": lambda c, x, y: _2(x, y),
    "c2p": lambda c, x, y: _2(x, y, padding=1),
    "c2q": lambda c, x, y: _2(x, y, padding=(0, 1)),
    "c2s": lambda c, x, y: _2(x, y, stride=(2, 1)),
    "c2d": lambda c, x, y: _2(x, y, dilation=2),
    "c2t": lambda c, x, y: [x[:16].reshape(1, 1, 4, 4).conv_transpose2d(y[:4].reshape(1, 1, 2, 2))],
    "c2tp": lambda c, x, y: [x[:16].reshape(1, 1, 4, 4).conv_transpose2d(y[:4].reshape(1, 1, 2, 2), padding=1)],
    "bin_and": lambda c, x, y: [x[:4].gt(y[:4]) * y[4:8].gt(x[4:8])],
    "bin_xor": lambda c, x, y: [x[:4].gt(y[:4]) + y[4:8].le(x[4:8])],
    "cmp_row": lambda c, x, y: [_S(x).gt(y[:4])],
    "mul_row": lambda c, x, y: [_S(x) * y[:4]],
    "mul_col": lambda c, x, y: [_S(x) * y[:4].reshape(4, 1)],
}
FAMILIES = [["sq_mul", "sq_matmul", "sq_self"], ["c1", "c1p", "c1s", "c1d", "c1t", "c1ts"], ["c2", "c2p", "c2q", "c2s", "c2d", "c2t", "c2tp"],
            ["bin_and", "bin_xor", "cmp_row"], ["mul_row", "mul_col", "sq_mul"]]
ALL = dict({k: v[0] for k, v in OPS.items()}, **ALIKE)


def gen(rng, tier, i):
    topo = gen_topology(rng, max_n=3, single=False, rss=False)
    n = topo["n"]
    progs = [[rng.choice(NAMES[:-2] if rng.random() < 0.9 else NAMES) for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.4:
        fam = rng.choice(FAMILIES)
        progs = [[rng.choice(fam) for _ in range(rng.choice([2, 2, 3]))] for _ in range(rng.choice([1, 2]))]
    acts = []
    for _ in range(rng.choice([4, 6, 9])):
        acts.append(rng.choice(["trace", "trace_once", "untrace", "fill", "fill", "run", "run", "run", "run", "save", "load", "cycle", "cycle"]))
    restart = rng.random() < 0.5
    return dict(topo, progs=progs, acts=acts, key=rng.randrange(1 << 30), src=rng.randrange(n), restart=restart, path=rng.choice([None, "cachedir"]),
                again=restart and rng.random() < 0.5, fills=rng.choice([1, 2]), runs=rng.choice([1, 2, 3]), which=[rng.randrange(2) for _ in range(12)],
                filed=rng.random() < 0.5,
                faults=faults.gen_timing(rng, n, rng.choice([0, 0, 2])), size=rng.choice([16, 16, 48]))


def shrink(spec):
    if spec["faults"]:
        yield dict(spec, faults=[])
    if spec["again"]:
        yield dict(spec, again=False)
    if spec["restart"]:
        yield dict(spec, restart=False, again=False)
    yield from drop_list(spec, "acts")
    yield from drop_list(spec, "progs")


def run(spec, ctl):
    n = spec["n"]
    bad = []
    stats = {"evaluations": 0, "cached_runs": 0, "ops": [o for p in spec["progs"] for o in p]}
    g = torch.Generator().manual_seed(spec["key"])
    X = (torch.rand(spec["size"], generator=g) * 4 - 2).float()
    Y = (torch.rand(spec["size"], generator=g) * 4 - 2).float()
    results = []  # (session, rank, label, outs)
    ref = {}
    quiet = []  # (world, lo, hi, what): stretches in which no tuple may be requested

    def session(k, files=None, mode="acts"):
        w = ctl.world(keep_wire=True, max_steps=1_500_000)
        if files is not None:
            w.sim.disk.files = files

        def main(crypten, rank):
            me = w.sim.me()
            configure(crypten, spec)
            crypten.init()
            comm = crypten.communicator.get()
            prov = crypten.mpc.get_default_provider()
            ex = crypten.cryptensor(X, src=spec["src"])
            ey = crypten.cryptensor(Y, src=0)
            count = [0]

            def go(label, which=None):
                p = spec["progs"][(spec["which"][count[0] % 12] if which is None else which) % len(spec["progs"])]
                count[0] += 1
                for o in p:
                    outs = ALL[o](crypten, ex, ey)
                    me.tag = PUB
                    results.append((k, rank, (label, o), [t.get_plain_text() for t in outs]))
                    me.tag = None

            def cycle(which):
                """Prepare tuples for exactly the next runs and use them up."""
                crypten.trace(False)
                prov.request_cache = []
                prov.tuple_cache = {}
                crypten.trace()
                go("traced", which)
                crypten.trace(False)
                for _ in range(spec["fills"]):
                    crypten.fill_cache()
                if spec["filed"]:
                    prov.save_cache(spec["path"])
                    comm.barrier()
                    # saved tuples are for later: they must not be used now as well
                    go("saved", which)
                    prov.load_cache(spec["path"])
                comm.barrier()
                for j in range(spec["fills"]):
                    lo = len(w.net.wire)
                    me.quiet = True
                    go("cached", which)
                    me.quiet = False
                    comm.barrier()
                    if rank == 0:
                        quiet.append((w, lo, len(w.net.wire), "run %d of %d prepared ones" % (j + 1, spec["fills"])))
                        stats["cached_runs"] += 1
                prov.request_cache = []
                go("exhausted", which)

            if mode == "acts":
                for p in range(len(spec["progs"])):
                    go("plain", p)
                for j, a in enumerate(spec["acts"]):
                    if a == "trace":
                        crypten.trace()
                    elif a == "trace_once":
                        crypten.trace_once()
                    elif a == "untrace":
                        crypten.trace(False)
                    elif a == "fill":
                        crypten.fill_cache()
                    elif a == "run":
                        go("act %d" % j)
                    elif a == "save":
                        prov.save_cache(spec["path"])
                        comm.barrier()
                    elif a == "load":
                        prov.load_cache(spec["path"])
                        comm.barrier()
                    else:
                        cycle(spec["which"][j] % len(spec["progs"]))
                if spec["restart"]:
                    crypten.trace(False)
                    prov.request_cache = []
                    prov.tuple_cache = {}
                    crypten.trace()
                    go("traced", 0)
                    crypten.trace(False)
                    crypten.fill_cache()
                    prov.save_cache(spec["path"])
                    comm.barrier()
            else:
                prov.load_cache(spec["path"])
                comm.barrier()
                lo = len(w.net.wire)
                for j in range(spec["runs"]):
                    go("restarted %d/%d" % (k, j), 0)
                    if j == 0:
                        comm.barrier()
                        if mode == "load" and rank == 0:
                            quiet.append((w, lo, len(w.net.wire), "the first run after a restart"))
            crypten.uninit()
            return True

        for r in range(n):
            img = harness.IMAGES[r + (n + 1) * k] if k else harness.IMAGES[r]
            w.party(r, n, main, rdv="sim://s%d" % k, image=img)
        if spec["provider"] == "TTP":
            img = harness.IMAGES[n + (n + 1) * k] if k else harness.IMAGES[n]
            w.party(n, n, ttp_main(spec), rdv="sim://s%d" % k, image=img)
        if k == 0:
            faults.install(w, spec["faults"])
        w.run()
        return w

    worlds = [session(0)]
    out = settle(worlds[0])
    if not out and spec["restart"] and (n + 1) * 2 <= IMAGES:
        worlds.append(session(1, worlds[0].sim.disk.files, "load"))
        worlds[1].sim.fault("restart")
        out += settle(worlds[1])
        if not out and spec["again"] and (n + 1) * 3 <= IMAGES:
            # used tuples are gone: a second restart must not find them again
            worlds.append(session(2, worlds[1].sim.disk.files, "again"))
            worlds[2].sim.fault("restart")
            out += settle(worlds[2])
    if out:
        return {"viol": out[:1], "stats": stats}
    for k, r, (label, o), outs in results:
        if label == "plain":
            ref.setdefault(o, outs)
    for k, r, (label, o), outs in results:
        stats["evaluations"] += len(outs)
        for a, b in zip(ref[o], outs):
            tol = 0.05 + 0.02 * a.abs()
            if a.size() != b.size() or not bool(((a - b).abs() <= tol).all()):
                bad.append(viol("value", "%s (%s, session %d): party %d gets %s instead of %s" % (
                    o, label, k, r, b.reshape(-1).tolist()[:4], a.reshape(-1).tolist()[:4]), soft=True))
                break
        if bad:
            break
    # no masked word may appear twice: a tuple used twice repeats its mask
    if not bad:
        seen = {}
        for k, w in enumerate(worlds):
            for m in w.net.wire:
                if m.tag == PUB or m.tensor.dtype != torch.int64 or m.kind != "allreduce":
                    continue
                for x in m.tensor.reshape(-1).tolist():
                    if -4 < x < 4:
                        continue
                    key = (m.src, x)
                    if key in seen and seen[key][0] is not m:
                        bad.append(viol("reuse", "party %d sends the masked word %d twice (session %d and session %d): a tuple was used twice" % (
                            m.src, x, seen[key][1], k)))
                        break
                    seen[key] = (m, k)
                if bad:
                    break
            if bad:
                break
    # prepared tuples are not requested again
    if not bad:
        for w, lo, hi, what in quiet:
            for m in w.net.wire[lo:hi]:
                hit = m.kind == "scatter" if spec["provider"] == "TFP" else n in m.dsts or m.src == n
                if hit:
                    bad.append(viol("request", "tuples are requested from the provider in %s although they were prepared" % what))
                    break
            if bad:
                break
    return {"viol": bad[:1], "stats": stats, "obs": [len(w.net.wire) for w in worlds]}


REAL = ["crypten.trace / trace_once / fill_cache", "TupleProvider request and tuple caches, save_cache / load_cache", "MPC primitives", "TTP server and client"]
STUB = ["transport", "disk (in memory, survives restarts)"]
ASSUME = ["all parties trace, fill, save and load at the same points of the program; a restart happens after all parties loaded or none"]

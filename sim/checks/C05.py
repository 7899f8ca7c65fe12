"""C05: what a party sees on the wire is independent of the others' secrets."""
import struct

import torch

from ..runner import viol
from .common import boot, drop_list, gen_topology, settle
from .ops import OPS, _m

PID = "C05"
IMAGES = 6
LEVEL = "exploration"
COUNT = {"quick": 176, "thorough": 12000}
PUB = "public"


def _norm(c, x, y):
    return [_m(x).norm(dim=1)]


def _bn(c, x, y):
    bn = c.nn.BatchNorm1d(4)
    bn.encrypt()
    bn.train()
    return [bn(_m(x))]


def _loss(name):
    def f(c, x, y):
        if name == "CrossEntropyLoss":
            return [c.nn.CrossEntropyLoss()(_m(x), _m(y).argmax(1, one_hot=True))]
        return [getattr(c.nn, name)()(x, y > 0)]
    return f


# many more operations whose traffic must not depend on the values, also where a result is meaningless (1/0, log of a negative value)
OPS = dict(OPS, **{
    "recip": (lambda c, x, y: [x.reciprocal()], 8),
    "div_enc": (lambda c, x, y: [x / y], 8),
    "log": (lambda c, x, y: [x.log()], 10),
    "erf": (lambda c, x, y: [x.erf()], 4),
    "tanh": (lambda c, x, y: [x.tanh()], 8),
    "sin": (lambda c, x, y: [x.sin()], 6),
    "norm": (_norm, 6),
    "var": (lambda c, x, y: [_m(x).var(0)], 2),
    "inv_sqrt": (lambda c, x, y: [x.inv_sqrt()], 6),
    "prod": (lambda c, x, y: [_m(x).prod(1)], 3),
    "min": (lambda c, x, y: [_m(y).min(dim=0)[0]], 8),
    "argmin": (lambda c, x, y: [x.argmin(one_hot=True)], 10),
    "maxall": (lambda c, x, y: [x.max()], 10),
    "pos_pow": (lambda c, x, y: [(x + 5).pos_pow(1.5)], 14),
    "log_softmax": (lambda c, x, y: [_m(x).log_softmax(1)], 14),
    "ne": (lambda c, x, y: [x.ne(y)], 4),
    "sign": (lambda c, x, y: [x.sign()], 3),
    "hardtanh": (lambda c, x, y: [x.hardtanh(-1, 1)], 6),
    "relu6": (lambda c, x, y: [x.relu6()], 6),
    "bernoulli": (lambda c, x, y: [(x * 0.1 + 0.5).bernoulli()], 4),
    "rec01": (lambda c, x, y: [(x * 0.1 + 0.5).reciprocal(input_in_01=True)], 8),
    "batchnorm": (_bn, 10),
    "BCEWithLogitsLoss": (_loss("BCEWithLogitsLoss"), 18),
    "CrossEntropyLoss": (_loss("CrossEntropyLoss"), 18),
    "L1Loss": (_loss("L1Loss"), 6),
    "cumsum": (lambda c, x, y: [x.cumsum(0) * y], 1),
    "ge_pub": (lambda c, x, y: [x >= 0.5], 3),
})


def pick(rng, k, budget):
    out = []
    for _ in range(k):
        o = rng.choice(sorted(OPS))
        if OPS[o][1] <= budget:
            budget -= OPS[o][1]
            out.append(o)
    return out or ["mul"]


def gen(rng, tier, i):
    topo = gen_topology(rng, max_n=4, single=False)
    n = topo["n"]
    size = rng.choice([48, 64, 96])
    names = sorted(OPS)
    ops = [names[i % len(names)]]
    if rng.random() < 0.5:
        ops += pick(rng, rng.choice([1, 2]), 18 - OPS[ops[0]][1])
    rng.shuffle(ops)
    kind = rng.choice(["const", "neg", "ramp", "zero", "onehot"])
    return dict(topo, ops=ops, size=size, kind=kind, reps=rng.choice([3, 4]), srcx=rng.randrange(n), srcy=rng.randrange(n),
                how=rng.choice(["src", "src", "all"]), key=rng.randrange(1 << 30))


def secrets(spec, alt):
    """Two very different secret inputs of the same shape; recognisable values."""
    g = torch.Generator().manual_seed(spec["key"] + (1 if alt else 0))
    m = spec["size"]
    tag = torch.rand(m, generator=g) * 0.2
    if alt:
        x = 3.0 * torch.rand(m, generator=g) - 1.5
    elif spec["kind"] == "const":
        x = 2.25 + tag
    elif spec["kind"] == "neg":
        x = -3.0 + tag
    elif spec["kind"] == "zero":
        x = tag * 0.01
    elif spec["kind"] == "onehot":
        x = tag.clone()
        x[::7] += 3
    else:
        x = torch.linspace(-3.5, 3.5, m) + tag
    y = (x.flip(0) * 0.7 + 0.3) if not alt else -x + 0.1
    return x.float(), y.float()


def program(spec, crypten, rank, x, y, seen):
    import sys

    sim = sys.modules["sim.seams"].SIM
    me = sim.me()
    res = []

    def inp(t, src):
        if spec["how"] == "all":
            return crypten.cryptensor(t, src=src)
        return crypten.cryptensor(t if rank == src else torch.zeros_like(t), src=src)

    for rep in range(spec["reps"] if not seen else 1):
        ex = inp(x, spec["srcx"])
        ey = inp(y, spec["srcy"])
        for k, o in enumerate(spec["ops"]):
            me.tag = (rep, k, o)
            outs = OPS[o][0](crypten, ex, ey)
            me.tag = PUB
            res.append([t.get_plain_text() for t in outs[:1]])
        me.tag = None
    return len(res)


def run(spec, ctl):
    out = []
    stats = {"evaluations": 0, "ops": spec["ops"], "messages": [],
             "topology": ["%d/%s/%s" % (spec["n"], spec["provider"], spec["protocol"])]}
    worlds = []
    for alt in (0, 1):
        w = ctl.world(keep_wire=True, max_steps=2_000_000)
        x, y = secrets(spec, alt)
        actors = boot(w, spec, lambda crypten, rank: program(spec, crypten, rank, x, y, alt))
        w.run()
        out += settle(w)
        worlds.append(w)
        if out:
            return {"viol": out, "obs": None, "stats": stats}
    a, b = worlds
    stats["evaluations"] = len(a.net.wire) + len(b.net.wire)
    # 1. the pattern of communication does not depend on the secrets
    for r in range(spec["n"] + 1):
        pa = shape_trace(a, r, spec["reps"])
        pb = shape_trace(b, r, 1)
        if pa != pb:
            k = next((i for i, (p, q) in enumerate(zip(pa, pb)) if p != q), min(len(pa), len(pb)))
            out.append(viol("pattern", "the messages party %d sends depend on secret values: message %d of the same program is %s for one input and %s for another" % (
                r, k, pa[k] if k < len(pa) else "absent", pb[k] if k < len(pb) else "absent")))
            return {"viol": out, "obs": None, "stats": stats}
    # 2. no secret, encoded or not, appears in clear
    out += leak_scan(spec, a)
    # 3. words are uniformly masked
    if not out:
        out += uniform(spec, a, stats)
    return {"viol": out[:1], "obs": [len(a.net.wire), [int(m.tensor.sum()) if m.tensor.numel() else 0 for m in a.net.wire[-5:]]], "stats": stats}


def is_pub(m):
    return m.tag == PUB


def shape_trace(w, r, reps):
    out = []
    for m in w.net.wire:
        if m.src == r:
            t = m.tag
            if isinstance(t, tuple) and t[0] != 0:
                continue
            if is_pub(m) or t is None:
                continue
            out.append((t[2], m.kind, tuple(m.dsts), m.tensor.numel(), str(m.tensor.dtype)))
    return out


def leak_scan(spec, w):
    x, y = secrets(spec, 0)
    enc = {}
    for name, t in (("x", x), ("y", y)):
        for v in t.tolist():
            for scale in (1, 1 << 8, 1 << 16, 1 << 32):
                for sg in (1, -1):
                    k = int(v * scale) * sg
                    if abs(k) > 1 << 12:
                        enc[k] = "%s=%s" % (name, v)
    pats = {}
    for name, t in (("x", x), ("y", y)):
        for v in t[:12].tolist():
            pats[struct.pack("<f", v)] = "%s=%s" % (name, v)
            pats[struct.pack("<d", v)] = "%s=%s" % (name, v)
            pats[struct.pack("<q", int(v * 65536))] = "%s=%s" % (name, v)
    for m in w.net.wire:
        if is_pub(m):
            continue
        t = m.tensor
        if t.dtype == torch.int64:
            hits = [v for v in t.reshape(-1).tolist() if v in enc]
            if len(hits) >= max(2, 0.02 * t.numel()):
                return [viol("leak", "party %s sends the encoding of a secret in clear to %s in %s (%s): %s" % (m.src, m.dsts, m.kind, m.tag, enc[hits[0]]))]
        elif t.is_floating_point():
            vals = {round(float(v), 5) for v in t.reshape(-1).double().tolist()}
            hits = [v for v in x.tolist() + y.tolist() if round(v, 5) in vals]
            if len(hits) >= 2:
                return [viol("leak", "party %s sends secrets in clear to %s in %s (%s): %s" % (m.src, m.dsts, m.kind, m.tag, hits[0]))]
        if t.dtype not in (torch.int64,):
            raw = t.reshape(-1).contiguous().view(torch.uint8).numpy().tobytes()
            hits = [p for p in pats if p in raw and p.count(0) < 5]
            if len(hits) >= 2:
                return [viol("leak", "party %s sends an object containing a secret to %s (%s): %s" % (m.src, m.dsts, m.tag, pats[hits[0]]))]
    return []


def bits_of(t):
    """[words, 64] of bits."""
    t = t.reshape(-1, 1)
    sh = torch.arange(64, dtype=torch.int64)
    return (t >> sh) & 1


def uniform(spec, w, stats):
    streams = {}
    pos = {}
    coll = {}
    for m in w.net.wire:
        if is_pub(m) or m.tag is None or m.tensor.dtype != torch.int64:
            continue
        if m.kind == "send":  # replicated shares: see C06
            continue
        if m.src == spec["n"] and m.kind != "broadcast":
            continue
        rep, k, o = m.tag
        i = pos.get((m.src, rep, k), 0)
        pos[(m.src, rep, k)] = i + 1
        streams.setdefault(("share", k, o, m.src, i, m.kind), []).append(m.tensor.reshape(-1))
        if m.kind == "allreduce":
            coll.setdefault((m.group, m.seq), []).append((m, i))
    for (g, seq), ms in coll.items():
        if len(ms) != spec["n"]:
            continue
        ms = sorted(ms, key=lambda p: p[0].src)
        m0, i = ms[0]
        t = ms[0][0].tensor.reshape(-1).clone()
        for mm, _ in ms[1:]:
            t = (t ^ mm.tensor.reshape(-1)) if "BXOR" in str(m0.op) else t + mm.tensor.reshape(-1)
        rep, k, o = m0.tag
        streams.setdefault(("opened", k, o, "all", i, m0.op), []).append(t)
        # a single opened word is as good a leak as many: no masked word is small
        tiny = [v for v in t.tolist() if -(1 << 22) < v < 1 << 22]
        if tiny and not bool(((t == 0) | (t == 1)).all()):
            return [viol("mask", "the value opened by %s is not masked: message %s (%s) opens %s" % (o, i, m0.op, tiny[:4]), soft=True)]
    n = 0
    for key, ts in sorted(streams.items(), key=lambda kv: str(kv[0])):
        t = torch.cat(ts)
        N = t.numel()
        if N < 90:
            continue
        n += 1
        single = bool(((t == 0) | (t == 1)).all())
        b = bits_of(t)
        cols = [0] if single else list(range(64))
        f = b[:, cols].double().mean(0)
        lim = 0.5 * 6.8 / (N ** 0.5)
        dev = (f - 0.5).abs()
        j = int(dev.argmax())
        if dev[j] > lim:
            what = "the value opened by" if key[0] == "opened" else "what party %s sends in" % key[3]
            return [viol("mask", "%s %s is not uniformly masked: bit %d of message %s (%s) is set in %.1f%% of %d words" % (
                what, key[2], cols[j], key[4], key[5], 100 * float(f[j]), N), soft=True)]
        # masks are not shared between the elements of a tensor
        if not single:
            u = torch.unique(t)
            if u.numel() < 0.9 * N and spec["reps"] > 1:
                return [viol("mask", "%s sent in %s repeats: %d distinct words among %d" % (key[0], key[2], u.numel(), N), soft=True)]
    stats["evaluations"] += n
    return []


def shrink(spec):
    yield from drop_list(spec, "ops")
    if spec["provider"] == "TTP":
        yield dict(spec, provider="TFP")

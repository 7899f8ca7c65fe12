"""C06: masks are fresh, unpredictable to the other parties and never reused."""
import sys

import torch

from ..runner import viol
from .common import configure, drop_list, gen_topology, settle, ttp_main
from .ops import OPS

PID = "C06"
IMAGES = 6
LEVEL = "exploration"
COUNT = {"quick": 220, "thorough": 15000}
PUB = "public"
# nonlinear operations applied directly to freshly shared inputs
DIRECT = ["mul", "square", "pow3", "matmul", "conv1d", "conv2d", "convt", "gt", "le0", "eq", "relu", "abs", "where", "max", "argmax", "a2b"]
MORE = ["div", "mean", "exp", "sigmoid", "dropout", "train", "softmax", "avg_pool", "cos"]


def gen(rng, tier, i):
    topo = gen_topology(rng, max_n=4, single=False)
    mode = rng.choices(["reuse", "dealer", "owner", "przs", "rerand"], [4, 2, 2, 2, 2])[0]
    if mode == "rerand" and rng.random() < 0.8:
        topo.update(n=3, protocol="replicated")
    ops = [rng.choice(DIRECT if mode == "rerand" or rng.random() < 0.6 else MORE) for _ in range(rng.choice([1, 1, 2]))]
    if mode == "dealer" and topo["protocol"] == "replicated":
        topo["protocol"] = "beaver"
    return dict(topo, mode=mode, ops=ops, size=16, sessions=rng.choice([1, 1, 2, 3]) if mode == "reuse" else 1, key=rng.randrange(1 << 30),
                srcx=rng.randrange(topo["n"]), srcy=rng.randrange(topo["n"]), who=rng.randrange(topo["n"]),
                twice=rng.random() < 0.7, sizes=[rng.choice([[3], [2, 3], [1], [7], []]) for _ in range(4)], seeded=rng.random() < 0.3)


def actor():
    return sys.modules["sim.seams"].SIM.me()


def inputs(spec):
    g = torch.Generator().manual_seed(spec["key"])
    m = spec["size"]
    return (torch.rand(m, generator=g) * 6 - 3).float(), (torch.rand(m, generator=g) * 6 - 3).float()


def party_main(spec, reseed=False):
    x, y = inputs(spec)

    def main(crypten, rank):
        got = []
        shares = []
        for s in range(spec["sessions"]):
            configure(crypten, spec)
            crypten.init()
            me = actor()
            ex = crypten.cryptensor(x if rank == spec["srcx"] else torch.zeros_like(x), src=spec["srcx"])
            ey = crypten.cryptensor(y if rank == spec["srcy"] else torch.zeros_like(y), src=spec["srcy"])
            shares.append((ex.share.clone(), ey.share.clone()))
            if reseed:
                # the same sharing of the inputs, different randomness from here on
                for k, gens in crypten.generators.items():
                    for g in gens.values():
                        g.manual_seed(hash_seed(g.initial_seed()))
            for rep in range(2 if spec["twice"] else 1):
                for k, o in enumerate(spec["ops"]):
                    me.tag = (s, rep, k, o)
                    outs = OPS[o][0](crypten, ex, ey)
                    me.tag = PUB
                    got.append(outs[0].get_plain_text())
                    me.tag = None
            crypten.uninit()
        return shares

    return main


def hash_seed(v):
    return (v * 6364136223846793005 + 1442695040888963407) % (1 << 63)


def start(ctl, spec, entropy=None, reseed=False, main=None):
    """entropy: {pid: suffix} overrides."""
    n = spec["n"]
    w = ctl.world(keep_wire=True, max_steps=2_000_000)
    base = w.entropy_seed if entropy is None else "%s/fixed" % ctl.entropy
    ent = lambda r: base + (entropy or {}).get(r, "")
    w.actors = []
    for r in range(n):
        w.actors.append(w.party(r, n, main or party_main(spec, reseed), entropy=ent(r)))
    if spec["provider"] == "TTP":
        if spec["sessions"] == 1:
            w.party(n, n, ttp_main(spec), entropy=ent(n))
        else:
            def srv(crypten, rank):
                for _ in range(spec["sessions"]):
                    configure(crypten, spec)
                    crypten.mpc.provider.TTPServer()
                    crypten.uninit()

            w.party(n, n, srv, entropy=ent(n))
    w.run()
    return w, settle(w)


def secret_msgs(w):
    return [m for m in w.net.wire if isinstance(m.tag, tuple) and m.tensor.dtype == torch.int64 and m.tensor.numel() >= 2]


def small(t):
    return bool(((t >= -1) & (t <= 1)).all())


def opened(spec, w):
    coll = {}
    for m in w.net.wire:
        if isinstance(m.tag, tuple) and m.kind == "allreduce":
            coll.setdefault((m.group, m.seq, m.tag[0]), []).append(m)
    out = []
    for k, ms in sorted(coll.items(), key=lambda kv: str(kv[0])):
        if len(ms) != spec["n"]:
            continue
        t = ms[0].tensor.reshape(-1).clone()
        for m in ms[1:]:
            t = (t ^ m.tensor.reshape(-1)) if "BXOR" in str(m.op) else t + m.tensor.reshape(-1)
        out.append((ms[0], t))
    return out


def run(spec, ctl):
    f = globals()["mode_" + spec["mode"]]
    stats = {"evaluations": 0, "ops": spec["ops"], "mode": [spec["mode"]],
             "topology": ["%d/%s/%s" % (spec["n"], spec["provider"], spec["protocol"])]}
    out, obs = f(spec, ctl, stats)
    return {"viol": out[:1], "obs": obs, "stats": stats}


def obs_of(w):
    return [len(w.net.wire), [int(m.tensor.sum()) for m in secret_msgs(w)[-8:]]]


def mode_reuse(spec, ctl, stats):
    """No two masked words of a party's messages, or of opened values, may be close."""
    w, out = start(ctl, spec)
    if out:
        return out, None
    items = []
    for m in secret_msgs(w):
        if m.kind == "send" or small(m.tensor):
            continue
        items.append(("what party %d sends" % m.src, m.tag, m.tensor.reshape(-1)))
    for m, t in opened(spec, w):
        if not small(t):
            items.append(("the value opened", m.tag, t))
    for who in sorted({it[0] for it in items}):
        part = [it for it in items if it[0] == who]
        allw = torch.cat([t for _, _, t in part])
        own = torch.cat([torch.full((t.numel(),), i) for i, (_, _, t) in enumerate(part)])
        srt, idx = torch.sort(allw)
        d = srt[1:] - srt[:-1]  # negative only where the gap exceeds 2^63
        close = ((d >= 0) & (d < (1 << 20))).nonzero().reshape(-1).tolist()
        stats["evaluations"] += int(allw.numel())
        pairs = {}
        for c in close:
            i, j = int(own[idx[c]]), int(own[idx[c + 1]])
            pairs.setdefault((min(i, j), max(i, j)), []).append(c)
        for (i, j), cs in sorted(pairs.items()):
            if len(cs) >= 2:
                a, b = part[i], part[j]
                return [viol("reuse", "%s in %s and in %s differs by less than 2^20 in %d of %d words: the same mask was used twice" % (
                    who, fmt(a[1]), fmt(b[1]), len(cs), a[2].numel()))], None
    return [], obs_of(w)


def fmt(tag):
    return "%s (session %d, repetition %d)" % (tag[3], tag[0], tag[1])


def mode_dealer(spec, ctl, stats):
    """Everything opened depends on the randomness of whoever deals the tuples."""
    dealer = spec["n"] if spec["provider"] == "TTP" else 0
    a, oa = start(ctl, spec, entropy={})
    b, ob = start(ctl, spec, entropy={dealer: "/other"})
    if oa or ob:
        return oa + ob, None
    va, vb = opened(spec, a), opened(spec, b)
    for (m, t), (m2, u) in zip(va, vb):
        if t.shape != u.shape:
            continue
        stats["evaluations"] += t.numel()
        if small(t):
            continue
        eq = int((t == u).sum())
        if eq >= 2:
            return [viol("dealer", "%d of %d words opened in %s do not depend on the randomness of the tuple dealer (party %d): the masks are predictable" % (
                eq, t.numel(), fmt(m.tag), dealer))], None
    return [], obs_of(a)


def mode_owner(spec, ctl, stats):
    """What a party sends is masked with randomness the other parties do not have."""
    j = spec["who"]
    a, oa = start(ctl, spec, entropy={})
    dealer = spec["n"] if spec["provider"] == "TTP" else 0
    b, ob = start(ctl, spec, entropy={j: "/other", dealer: "/other"})
    if oa or ob:
        return oa + ob, None
    va = [m for m in secret_msgs(a) if m.src == j]
    vb = [m for m in secret_msgs(b) if m.src == j]
    for m, u in zip(va, vb):
        if m.tensor.shape != u.tensor.shape or small(m.tensor):
            continue
        stats["evaluations"] += m.tensor.numel()
        eq = int((m.tensor == u.tensor).sum())
        if eq >= 2:
            return [viol("owner", "%d of %d words party %d sends in %s (%s) are the same whatever its own and the dealer's randomness: the other parties can predict its masks" % (
                eq, m.tensor.numel(), j, fmt(m.tag), m.kind))], None
    return [], obs_of(a)


def mode_rerand(spec, ctl, stats):
    """Messages derived from products carry randomness drawn after the inputs were shared."""
    a, oa = start(ctl, spec, entropy={})
    b, ob = start(ctl, spec, entropy={spec["n"]: "/other"}, reseed=True)
    if oa or ob:
        return oa + ob, None
    raw = {}
    for act in a.actors:
        for pair in act.result:
            for t in pair:
                raw.setdefault(act.aid, set()).update(t.reshape(-1).tolist())
    va = [m for m in secret_msgs(a)]
    for r in range(spec["n"]):
        ma = [m for m in va if m.src == r]
        mb = [m for m in secret_msgs(b) if m.src == r]
        for m, u in zip(ma, mb):
            if m.tensor.shape != u.tensor.shape or small(m.tensor):
                continue
            stats["evaluations"] += m.tensor.numel()
            eq = (m.tensor == u.tensor).reshape(-1)
            if int(eq.sum()) < 2:
                continue
            left = [v for v, e in zip(m.tensor.reshape(-1).tolist(), eq.tolist()) if e and v not in raw[r]]
            if len(left) >= 2:
                return [viol("rerand", "%d of %d words party %d sends in %s (%s) are a fixed function of the shares of the inputs: no fresh mask" % (
                    len(left), m.tensor.numel(), r, fmt(m.tag), m.kind))], None
    return [], obs_of(a)


def mode_przs(spec, ctl, stats):
    """Shares of zero cancel, are fresh and differ between parties; shared generators agree."""
    def main(crypten, rank):
        configure(crypten, spec)
        crypten.init()
        A = crypten.mpc.primitives.ArithmeticSharedTensor
        B = crypten.mpc.primitives.BinarySharedTensor
        if spec["seeded"]:
            with crypten.cfg.temp_override({"debug.debug_mode": True}):
                crypten.manual_seed(100 + rank, 200 + rank, 300)
        r = []
        for s in spec["sizes"]:
            r.append(("a", A.PRZS(tuple(s)).share.clone()))
            r.append(("b", B.PRZS(tuple(s)).share.clone()))
        for k in ("global", "local"):
            r.append((k, torch.randint(-(2**62), 2**62, (3,), generator=crypten.generators[k][torch.device("cpu")])))
        z = crypten.cryptensor(torch.zeros(4), src=spec["srcx"])
        r.append(("z", z.share.clone()))
        # two sharings of the same value
        r.append(("z", crypten.cryptensor(torch.zeros(4), src=spec["srcx"]).share.clone()))
        crypten.uninit()
        return r

    w, out = start(ctl, spec, main=main)
    if out:
        return out, None
    cols = [a.result for a in w.actors]
    seen = []
    for i, (k, _) in enumerate(cols[0]):
        ts = [c[i][1] for c in cols]
        stats["evaluations"] += ts[0].numel()
        if k == "global":
            if any(not torch.equal(ts[0], t) for t in ts):
                return [viol("przs", "the generator shared by all parties is not the same everywhere")], None
            continue
        if k == "local":
            if any(torch.equal(ts[a], ts[b]) for a in range(len(ts)) for b in range(a)):
                return [viol("przs", "two parties have the same private generator")], None
            continue
        tot = ts[0].clone()
        for t in ts[1:]:
            tot = tot ^ t if k == "b" else tot + t
        if bool((tot != 0).any()):
            return [viol("przs", "shares of zero (%s) do not cancel over %d parties: %s" % (k, spec["n"], tot.reshape(-1).tolist()[:4]))], None
        if spec["n"] == 1:
            continue
        for p, t in enumerate(ts):
            for v in t.reshape(-1).tolist():
                if -(1 << 16) < v < 1 << 16:
                    return [viol("przs", "party %d's share of zero is %d: not masked" % (p, v), soft=True)], None
                seen.append((v, p, i))
    for p in range(spec["n"]):
        vs = [v for v, q, _ in seen if q == p]
        if len(set(vs)) != len(vs):
            return [viol("przs", "party %d's shares of zero repeat" % p, soft=True)], None
    return [], [c.tolist() for _, c in cols[0]]


def shrink(spec):
    yield from drop_list(spec, "ops")
    if spec["sessions"] > 1:
        yield dict(spec, sessions=spec["sessions"] - 1)
    if spec["twice"]:
        yield dict(spec, twice=False)

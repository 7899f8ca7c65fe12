"""C02: comparisons, conversions between sharings and selections are exact."""
import math

import torch

from ..runner import viol
from .common import boot, gen_topology, settle, drop_list

PID = "C02"
IMAGES = 6
LEVEL = "exploration"
COUNT = {"quick": 480, "thorough": 40000}
METHODS = ["pairwise", "log_reduction", "double_log_reduction", "accelerated_cascade"]
CMP = ["gt", "ge", "lt", "le", "eq", "ne"]
BIN2 = ["xor", "and", "or", "add", "eq", "ne", "lt", "le", "gt", "ge"]
M64 = (1 << 64) - 1


def s64(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


# -- generation --------------------------------------------------------------
def gen_enc(rng, k, bits, big=False):
    one = 1 << bits
    mode = rng.choice(["ties", "near", "uniform", "grid", "mixed", "const"] + (["big"] if big else []))
    base = rng.randrange(-50 * one, 50 * one)
    out = []
    for _ in range(k):
        m = mode if mode != "mixed" else rng.choice(["ties", "near", "uniform", "zero", "grid"])
        if m == "ties":
            v = rng.choice([-2, -1, 0, 1, 2]) * one
        elif m == "near":
            v = base + rng.choice([-1, 0, 0, 1])
        elif m == "uniform":
            v = rng.randrange(-100 * one, 100 * one)
        elif m == "grid":
            v = rng.randrange(-8, 9) * one // 2
        elif m == "const":
            v = base
        elif m == "big":
            v = rng.choice([-1, 1]) * rng.randrange(1 << 40, 1 << 44)
        else:
            v = 0
        out.append(v)
    return out


def gen_ints(rng, k):
    def one():
        r = rng.random()
        if r < 0.3:
            return rng.randrange(-4, 5)
        if r < 0.5:
            return s64(rng.choice([(1 << 63), (1 << 63) - 1, M64, (1 << 62), 0x5555555555555555, 0xAAAAAAAAAAAAAAAA]) + rng.choice([-1, 0, 1]))
        return rng.randrange(-(1 << 63), 1 << 63)

    return [one() for _ in range(k)]


def shape_of(rng, lo=0, maxnum=24):
    while True:
        s = [rng.choice([1, 2, 2, 3, 3, 4, 5, 7]) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])) ]
        if len(s) >= lo and math.prod(s) <= maxnum:
            return s


def gen_case(rng, n, bits):
    one = 1 << bits
    k = rng.choices(["cmp", "unary", "where", "max", "pool", "binary", "conv", "bshift", "b2abits", "bwhere"],
                    [6, 4, 4, 7, 3, 5, 3, 2, 2, 2])[0]
    src = lambda: rng.randrange(n)
    if k == "cmp":
        s = shape_of(rng)
        x = gen_enc(rng, math.prod(s), bits, True)
        how = rng.choice(["enc", "enc", "pubt", "scalar", "int"])
        c = {"k": k, "m": rng.choice(CMP), "oper": rng.random() < 0.4, "s": s, "x": x, "xs": src(), "how": how}
        if how in ("enc", "pubt"):
            if rng.random() < 0.5:
                y = [v + rng.choice([-1, 0, 0, 1]) for v in x]
                c["ys"] = s
            else:
                c["ys"] = rng.choice([s, [1], s[-1:], []])
                y = gen_enc(rng, math.prod(c["ys"]), bits)
            if how == "pubt":  # public operands are float32
                y = [v if abs(v) < (1 << 24) else (v >> 24) for v in y]
            c["y"] = y
            c["ysrc"] = src()
        elif how == "scalar":
            c["y"] = rng.choice([0, one // 2, -one, one, 3 * one // 4])
        else:
            c["y"] = rng.choice([0, 1, -1, 2]) * one
        if rng.random() < 0.15:
            c["prec"] = rng.choice([8, 20])
            c["x"] = [v >> (bits - 8) << (bits - 8) for v in c["x"]] if bits > 8 else c["x"]
            if how in ("enc", "pubt"):
                c["how"], c["y"], c["ys"] = "int", 0, []
        return c
    if k == "unary":
        s = shape_of(rng)
        m = rng.choice(["sign", "abs", "relu", "hardtanh"])
        c = {"k": k, "m": m, "s": s, "x": gen_enc(rng, math.prod(s), bits, True), "xs": src()}
        if m == "hardtanh" and rng.random() < 0.5:
            c["lim"] = rng.choice([[-2, 2], [0, 6], [-1, 3]])
        return c
    if k == "where":
        s = shape_of(rng)
        num = math.prod(s)
        return {"k": k, "s": s, "x": gen_enc(rng, num, bits), "xs": src(), "cond": [rng.randrange(2) for _ in range(num)],
                "ck": rng.choice(["enc", "pub", "cmp"]), "cs": src(),
                "yk": rng.choice(["enc", "pub", "scalar"]), "y": gen_enc(rng, num, bits), "ysrc": src(),
                "fn": rng.random() < 0.5}
    if k == "max":
        s = shape_of(rng)
        if rng.random() < 0.1:
            s = [rng.choice([8, 9, 16, 17, 27])] + ([2] if rng.random() < 0.3 else [])
        if rng.random() < 0.01:
            s = [130]
        m = rng.choice(["max", "min", "argmax", "argmin"])
        c = {"k": k, "m": m, "s": s, "x": gen_enc(rng, math.prod(s), bits, True), "xs": src(), "method": rng.choice(METHODS),
             "dim": None, "keepdim": False, "one_hot": rng.random() < 0.6}
        if s and rng.random() < 0.75:
            c["dim"] = rng.randrange(-len(s), len(s))
            c["keepdim"] = rng.random() < 0.4
        return c
    if k == "pool":
        s = [1, rng.choice([1, 2]), rng.choice([2, 3, 4, 5]), rng.choice([2, 3, 4, 5])]
        c = {"k": k, "s": s, "x": gen_enc(rng, math.prod(s), bits), "xs": src(), "method": rng.choice(METHODS), "kw": {}}
        if rng.random() < 0.25:
            c["m"] = "adaptive_max_pool2d"
            c["out"] = [rng.randrange(1, s[2] + 1), rng.randrange(1, s[3] + 1)]
        else:
            c["m"] = "max_pool2d"
            c["ks"] = rng.choice([1, 2, 2, 3, [2, 1], [1, 2], [3, 2]])
            kk = c["ks"] if isinstance(c["ks"], list) else [c["ks"]] * 2
            if rng.random() < 0.5:
                c["kw"]["stride"] = rng.choice([1, 2, [1, 2], [2, 1]])
            if rng.random() < 0.4:
                p = rng.choice([[1, 1], [1, 0], [0, 1]])
                p = [min(a, b // 2) for a, b in zip(p, kk)]
                c["kw"]["padding"] = p[0] if p[0] == p[1] else p
            if rng.random() < 0.25:
                c["kw"]["ceil_mode"] = True
            if rng.random() < 0.2:
                c["kw"]["dilation"] = rng.choice([2, [1, 2], [2, 1]])
        try:
            pool_ref(c, torch.zeros(s, dtype=torch.float64))
        except RuntimeError:
            return gen_case(rng, n, bits)
        return c
    s = shape_of(rng)
    num = math.prod(s)
    if k == "binary":
        return {"k": k, "m": rng.choice(BIN2), "s": s, "x": gen_ints(rng, num), "xs": src(),
                "y": gen_ints(rng, num), "ysrc": src(), "yk": rng.choice(["enc", "enc", "pub", "self"]), "inpl": rng.random() < 0.3}
    if k == "conv":
        return {"k": k, "s": s, "x": gen_enc(rng, num, bits, True), "xs": src()}
    if k == "bshift":
        return {"k": k, "s": s, "x": gen_ints(rng, num), "xs": src(), "m": rng.choice(["lshift", "rshift", "invert", "sum"]),
                "by": rng.randrange(0, 64), "inpl": rng.random() < 0.5}
    if k == "b2abits":
        return {"k": k, "s": s, "x": gen_ints(rng, num), "xs": src(), "bits": rng.choice([1, 2, 8, 16, 31, 63, None])}
    return {"k": "bwhere", "s": s, "x": gen_ints(rng, num), "xs": src(), "y": gen_ints(rng, num), "ysrc": src(),
            "cond": [rng.randrange(2) for _ in range(num)], "cs": src(), "ck": rng.choice(["enc", "pub"]), "yk": rng.choice(["enc", "pub"])}


def gen(rng, tier, i):
    topo = gen_topology(rng)
    bits = rng.choice([16, 16, 16, 12, 10])
    spec = dict(topo, bits=bits)
    spec["cases"] = [gen_case(rng, topo["n"], bits) for _ in range(rng.choice([2, 3, 4]))]
    return spec


# -- reference ----------------------------------------------------------------
def tup(v):
    return tuple(v) if isinstance(v, list) else v


def pool_ref(c, x):
    F = torch.nn.functional
    if c["m"] == "adaptive_max_pool2d":
        return F.adaptive_max_pool2d(x, c["out"])
    kw = {k: tup(v) for k, v in c["kw"].items()}
    return F.max_pool2d(x, tup(c["ks"]), **kw)


def to_t(v, s):
    return torch.tensor(v, dtype=torch.int64).reshape(s)


def expected(c, bits, n):
    """(kind, value, tolerance) - kind 'val' or a predicate description."""
    one = 1 << bits
    k = c["k"]
    x = to_t(c["x"], c["s"])
    if k == "cmp":
        y = c["y"] if not isinstance(c["y"], list) else to_t(c["y"], c["ys"])
        y = torch.as_tensor(y)
        return (getattr(x, c["m"])(y)).to(torch.float64), 0
    if k == "unary":
        if c["m"] == "sign":
            return torch.where(x < 0, -1, 1).to(torch.float64), 0
        if c["m"] == "abs":
            r = x.abs()
        elif c["m"] == "relu":
            r = x.clamp(min=0)
        else:
            lo, hi = c.get("lim", [-1, 1])
            r = x.clamp(lo * one, hi * one)
        return r.to(torch.float64) / one, 0
    if k == "where":
        cond = torch.tensor(c["cond"]).reshape(c["s"]).bool()
        y = to_t(c["y"], c["s"]) if c["yk"] != "scalar" else torch.tensor(one // 2)
        r = torch.where(cond, x, y).to(torch.float64) / one
        # a public condition is encoded: one rescaling
        return r, (2 * (n + 2) / one if c["ck"] != "cmp" else (2.0 / one if c["yk"] == "pub" else 0))
    if k == "pool":
        return pool_ref(c, x.to(torch.float64) / one), 0
    if k == "conv":
        return x.to(torch.float64) / one, 0
    raise KeyError(k)


def decode(v, one):
    return v.to(torch.float64) / one


# -- the parties' program ---------------------------------------------------------
def party(spec, crypten, rank):
    bits = spec["bits"]
    one = 1 << bits
    Bin = crypten.mpc.primitives.BinarySharedTensor
    mpc = crypten.mpc

    def inp(enc, s, src, **kw):
        t = (to_t(enc, s).to(torch.float64) / one) if rank == src else torch.full(s, 7.25, dtype=torch.float64)
        return crypten.cryptensor(t, src=src, **kw)

    def binp(v, s, src):
        return Bin(to_t(v, s) if rank == src else torch.zeros(s, dtype=torch.long), src=src)

    out = []
    for c in spec["cases"]:
        k = c["k"]
        if k in ("binary", "bshift", "b2abits", "bwhere"):
            x = binp(c["x"], c["s"], c["xs"])
            if k == "binary":
                y = {"enc": lambda: binp(c["y"], c["s"], c["ysrc"]), "pub": lambda: to_t(c["y"], c["s"]), "self": lambda: x}[c["yk"]]()
                m = c["m"]
                if c["inpl"] and m in ("xor", "and", "or"):
                    r = x.clone()
                    r = getattr(r, "__i%s__" % m)(y)
                elif m in ("xor", "and", "or"):
                    r = getattr(x, "__%s__" % m)(y)
                else:
                    r = getattr(x, m)(y)
                o = r.reveal()
                if m in ("eq", "ne", "lt", "le", "gt", "ge"):
                    o = o & 1
                out.append((o, x.reveal()))
            elif k == "bshift":
                m = c["m"]
                if m == "invert":
                    r = ~x
                elif m == "sum":
                    r = x.sum(dim=0) if x.dim() > 0 else x
                elif c["inpl"]:
                    r = x.clone()
                    r = getattr(r, m + "_")(c["by"])
                else:
                    r = getattr(x, m)(c["by"])
                out.append((r.reveal(), x.reveal()))
            elif k == "b2abits":
                kw = {} if c["bits"] is None else {"bits": c["bits"]}
                m = mpc.MPCTensor(to_t(c["x"], c["s"]) if rank == c["xs"] else torch.zeros(c["s"], dtype=torch.long),
                                  ptype=mpc.binary, src=c["xs"])
                r = m.to(mpc.arithmetic, precision=0, **kw)
                out.append((r.reveal(), m.reveal()))
            else:
                y = binp(c["y"], c["s"], c["ysrc"]) if c["yk"] == "enc" else to_t(c["y"], c["s"])
                cond = binp(c["cond"], c["s"], c["cs"]) if c["ck"] == "enc" else to_t(c["cond"], c["s"]).bool()
                out.append((x.where(cond, y).reveal(), x.reveal()))
            continue
        kw = {"precision": c["prec"]} if "prec" in c else {}
        x = inp(c["x"], c["s"], c["xs"], **kw)
        if k == "cmp":
            if c["how"] == "enc":
                y = inp(c["y"], c["ys"], c["ysrc"])
            elif c["how"] == "pubt":
                y = (to_t(c["y"], c["ys"]).to(torch.float64) / one).float()
            elif c["how"] == "scalar":
                y = c["y"] / one
            else:
                y = c["y"] // one
            if c["oper"]:
                r = {"gt": lambda: x > y, "ge": lambda: x >= y, "lt": lambda: x < y, "le": lambda: x <= y,
                     "eq": lambda: x == y, "ne": lambda: x != y}[c["m"]]()
            else:
                r = getattr(x, c["m"])(y)
            rs = [r]
        elif k == "unary":
            a = [] if "lim" not in c else c["lim"]
            rs = [getattr(x, c["m"])(*a)]
        elif k == "where":
            y = {"enc": lambda: inp(c["y"], c["s"], c["ysrc"]),
                 "pub": lambda: (to_t(c["y"], c["s"]).to(torch.float64) / one).float(),
                 "scalar": lambda: 0.5}[c["yk"]]()
            ct = torch.tensor(c["cond"]).reshape(c["s"])
            if c["ck"] == "pub":
                cond = ct.bool()
            elif c["ck"] == "enc":
                cond = crypten.cryptensor(ct.float() if rank == c["cs"] else torch.zeros(c["s"]), src=c["cs"])
            else:
                cond = crypten.cryptensor(ct.float() if rank == c["cs"] else torch.zeros(c["s"]), src=c["cs"]) > 0.5
            rs = [crypten.where(cond, x, y) if c["fn"] else x.where(cond, y)]
        elif k == "max":
            with crypten.cfg.temp_override({"functions.max_method": c["method"]}):
                kw = {"one_hot": c["one_hot"]}
                if c["dim"] is not None:
                    kw.update(dim=c["dim"], keepdim=c["keepdim"])
                r = getattr(x, c["m"])(**kw)
                rs = list(r) if isinstance(r, tuple) else [r]
        elif k == "pool":
            with crypten.cfg.temp_override({"functions.max_method": c["method"]}):
                if c["m"] == "adaptive_max_pool2d":
                    rs = [x.adaptive_max_pool2d(tuple(c["out"]))]
                else:
                    kw = {q: tup(v) for q, v in c["kw"].items()}
                    rs = [x.max_pool2d(tup(c["ks"]), **kw)]
        else:
            b = x.to(mpc.binary)
            rs = [b, b.to(mpc.arithmetic)]
        out.append(tuple(q.get_plain_text() for q in rs) + (x.get_plain_text(),))
    return out


def near(g, e, tol=0.0):
    if not torch.is_tensor(g):
        return "no tensor"
    if tuple(g.shape) != tuple(e.shape):
        return "shape %s, expected %s" % (tuple(g.shape), tuple(e.shape))
    g = g.to(torch.float64)
    bad = (g - e).abs() > tol + e.abs() * 2.0 ** -22
    bad |= g.isnan()
    if bad.any():
        j = bad.reshape(-1).nonzero()[0].item()
        return "element %d is %r, expected %r" % (j, g.reshape(-1)[j].item(), e.reshape(-1)[j].item())
    return None


def iexact(g, e):
    if tuple(g.shape) != tuple(e.shape):
        return "shape %s, expected %s" % (tuple(g.shape), tuple(e.shape))
    if not torch.equal(g, e):
        j = (g != e).reshape(-1).nonzero()[0].item()
        return "element %d is %d, expected %d" % (j, g.reshape(-1)[j].item(), e.reshape(-1)[j].item())
    return None


def judge(c, got, bits, n):
    one = 1 << bits
    k = c["k"]
    x = to_t(c["x"], c["s"])
    last = got[-1]
    if k in ("binary", "bshift", "b2abits", "bwhere"):
        bad = iexact(last, x)
        if bad:
            return "operand changed: " + bad
        g = got[0]
        if k == "binary":
            y = x if c["yk"] == "self" else to_t(c["y"], c["s"])
            m = c["m"]
            if m in ("eq", "ne", "lt", "le", "gt", "ge"):
                e = getattr(x, m)(y).long()
            else:
                e = {"xor": lambda: x ^ y, "and": lambda: x & y, "or": lambda: x | y, "add": lambda: x + y}[m]()
        elif k == "bshift":
            m = c["m"]
            e = {"invert": lambda: ~x, "sum": lambda: x.sum(dim=0) if x.dim() else x,
                 "lshift": lambda: x << c["by"], "rshift": lambda: x >> c["by"]}[m]()
        elif k == "b2abits":
            e = x if c["bits"] is None else x & ((1 << c["bits"]) - 1)
        else:
            e = torch.where(torch.tensor(c["cond"]).reshape(c["s"]).bool(), x, to_t(c["y"], c["s"]))
        return iexact(g, e)
    bad = near(last, x.to(torch.float64) / one)
    if bad:
        return "operand changed: " + bad
    if k == "max":
        return judge_max(c, got[:-1], x, one)
    e, tol = expected(c, bits, n)
    for g in got[:-1]:
        bad = near(g, e, tol)
        if bad:
            return bad
    return None


def judge_max(c, got, x, one):
    sgn = -1 if c["m"] in ("min", "argmin") else 1
    X = x * sgn
    dim, keep = c["dim"], c["keepdim"]
    if X.dim() == 0:
        mx = X
        e = X.to(torch.float64) * sgn / one
    else:
        mx = X.max() if dim is None else X.amax(dim, keepdim=True)
        e = (mx if dim is None or keep else mx.squeeze(dim)).to(torch.float64) * sgn / one
    got = list(got)
    if c["m"] in ("max", "min"):
        # the trivial 0-dimensional case goes through a fixed-point product
        bad = near(got.pop(0), e, 8.0 / one if X.dim() == 0 else 0)
        if bad:
            return "extremum: " + bad
        if not got:
            return None
    g = got[0]
    ext = (X == mx)
    if c["one_hot"]:
        if tuple(g.shape) != tuple(x.shape):
            return "one-hot shape %s, expected %s" % (tuple(g.shape), tuple(x.shape))
        if not bool(((g == 0) | (g == 1)).all()):
            return "one-hot has entries other than 0 and 1: %s" % g.reshape(-1)[:8].tolist()
        tot = g.sum() if dim is None or x.dim() == 0 else g.sum(dim)
        if not bool((tot == 1).all()):
            return "one-hot marks %s elements" % tot.reshape(-1)[:8].tolist()
        if bool((g.bool() & ~ext).any()):
            return "one-hot marks an element that is not extremal"
        return None
    if x.dim() == 0:
        return near(g, torch.zeros((), dtype=torch.float64))
    if dim is None:
        ok = tuple(g.shape) == () and g.item() == round(g.item()) and 0 <= g.item() < x.numel() and bool(ext.reshape(-1)[int(g.item())])
        return None if ok else "index %s is not that of an extremum" % g.tolist()
    eshape = list(x.shape)
    d = dim % x.dim()
    if keep:
        eshape[d] = 1
    else:
        eshape.pop(d)
    if list(g.shape) != eshape:
        return "index shape %s, expected %s" % (tuple(g.shape), eshape)
    gi = g if keep else g.unsqueeze(d)
    if not bool((gi == gi.round()).all()) or bool((gi < 0).any()) or bool((gi >= x.shape[d]).any()):
        return "index out of range: %s" % g.tolist()
    if not bool(ext.gather(d, gi.long()).all()):
        return "index %s is not that of an extremum" % g.tolist()
    return None


def run(spec, ctl):
    w = ctl.world()
    actors = boot(w, spec, lambda crypten, rank: party(spec, crypten, rank))
    w.run()
    out = settle(w)
    n = 0
    if not out:
        for a in actors:
            for j, c in enumerate(spec["cases"]):
                n += 1
                bad = judge(c, a.result[j], spec["bits"], spec["n"])
                if bad:
                    out.append(viol("value", "%s %s at party %d: %s (%s)" % (
                        c["k"], c.get("m", ""), a.aid, bad, {q: v for q, v in c.items() if q not in ("x", "y", "cond")}), soft=True))
                    break
    return {"viol": out, "obs": [[[t.tolist() for t in r] for r in (a.result or [])] for a in actors],
            "stats": {"evaluations": n, "ops": ["%s:%s" % (c["k"], c.get("m", "")) for c in spec["cases"]],
                      "methods": [c["method"] for c in spec["cases"] if "method" in c],
                      "topology": ["%d/%s/%s" % (spec["n"], spec["provider"], spec["protocol"])]}}


def shrink(spec):
    yield from drop_list(spec, "cases")
    if spec["provider"] == "TTP":
        yield dict(spec, provider="TFP")
    for j, c in enumerate(spec["cases"]):
        for f in ("xs", "ysrc", "cs"):
            if c.get(f):
                yield dict(spec, cases=spec["cases"][:j] + [dict(c, **{f: 0})] + spec["cases"][j + 1:])
    mx = max([c.get(f, 0) for c in spec["cases"] for f in ("xs", "ysrc", "cs")])
    if spec["n"] > 2 and mx < 2 and spec["protocol"] == "beaver":
        yield dict(spec, n=2)

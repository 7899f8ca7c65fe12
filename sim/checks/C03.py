"""C03: approximations of nonlinear functions stay inside their accuracy envelope."""
import math

import torch

from ..runner import viol
from .common import boot, drop_list, gen_topology, settle

PID = "C03"
IMAGES = 6
LEVEL = "exploration"
COUNT = {"quick": 190, "thorough": 20000}

# function -> (configuration, method, kwargs, reference, [(lo, hi, abs tol, rel tol)])
# The tolerances are about twice the envelope of the three-party protocol on a
# dense grid; with more parties they grow with the truncation noise.
LOG = {"functions.reciprocal_method": "log"}
CHEB = {"functions.sigmoid_tanh_method": "chebyshev"}
POS = {"functions.reciprocal_all_pos": True}
WORST = 0.6
FN = {
    "exp": ({}, "exp", {}, torch.exp, [(-10, -6, 0.0008, 0), (-6, -2, 0.006, 0), (-2, 0, 0.02, 0), (0, 1, 0, 0.03), (1, 2, 0, 0.04),
                                       (2, 3, 0, 0.06), (3, 5, 0, 0.11)]),
    "log": ({}, "log", {}, torch.log, [(0.0005, 0.005, 0.25, 0), (0.005, 0.05, 0.13, 0), (0.05, 0.5, 0.06, 0), (0.5, 2, 0.03, 0),
                                       (2, 20, 0.06, 0), (20, 100, 0.11, 0), (100, 250, 0.17, 0)]),
    "log01": ({}, "log", {"input_in_01": True}, torch.log, [(0.0005, 0.005, 0.11, 0), (0.005, 0.05, 0.04, 0), (0.05, 1, 0.12, 0)]),
    "reciprocal": ({}, "reciprocal", {}, torch.reciprocal, [(0.02, 0.1, 0, 0.003), (0.1, 0.5, 0, 0.001), (0.5, 2, 0, 0.0006), (2, 10, 0, 0.01)]),
    "nreciprocal": ({}, "reciprocal", {}, torch.reciprocal, [(-0.1, -0.02, 0, 0.003), (-2, -0.1, 0, 0.001), (-10, -2, 0, 0.01)]),
    "preciprocal": (POS, "reciprocal", {}, torch.reciprocal, [(0.02, 0.1, 0, 0.003), (0.1, 2, 0, 0.001), (2, 10, 0, 0.01)]),
    "reclog": (LOG, "reciprocal", {}, torch.reciprocal, [(0.02, 10, 0, 0.06), (10, 200, 0.0006, 0.05)]),
    "nreclog": (LOG, "reciprocal", {}, torch.reciprocal, [(-10, -0.02, 0, 0.06)]),
    "reciprocal01": ({}, "reciprocal", {"input_in_01": True}, torch.reciprocal, [(0.001, 0.01, 0, 0.035), (0.01, 0.1, 0, 0.005)]),
    "inv_sqrt": ({}, "inv_sqrt", {}, torch.rsqrt, [(0.05, 0.2, 0, 0.12), (0.2, 1, 0, 0.004), (1, 50, 0, 0.008)]),
    "sqrt": ({}, "sqrt", {}, torch.sqrt, [(0.0, 0.04, 0.1, 0), (0.05, 0.2, 0, 0.12), (0.2, 1, 0, 0.005), (1, 50, 0, 0.008)]),
    "cos": ({}, "cos", {}, torch.cos, [(-3.2, 3.2, 0.08, 0), (-8, 8, 0.1, 0)]),
    "sin": ({}, "sin", {}, torch.sin, [(-3.2, 3.2, 0.08, 0), (-8, 8, 0.1, 0)]),
    "sigmoid": ({}, "sigmoid", {}, torch.sigmoid, [(-3, 3, 0.008, 0), (-30, 30, 0.008, 0)]),
    "tanh": ({}, "tanh", {}, torch.tanh, [(-1, 1, 0.015, 0), (-15, 15, 0.015, 0)]),
    "sigmoidC": (CHEB, "sigmoid", {}, torch.sigmoid, [(-2, 2, 0.0004, 0)]),
    "tanhC": (CHEB, "tanh", {}, torch.tanh, [(-1, 1, 0.0006, 0)]),
    "erf": ({}, "erf", {}, torch.erf, [(-1, 1, 0.001, 0), (-1.5, 1.5, 0.015, 0)]),
}
EXTRA = ["softmax", "log_softmax", "div", "npow", "pos_pow", "norm", "cossin", "divc"]


def shape_of(rng):
    return rng.choice([[], [1], [3], [5], [9], [2, 3], [3, 1], [2, 2, 2], [16]])


def gen_case(rng, n):
    src = rng.randrange(n)
    if rng.random() < 0.62:
        f = rng.choice(sorted(FN))
        ivs = FN[f][4]
        lo, hi = rng.choice(ivs)[:2]
        s = shape_of(rng)
        num = math.prod(s)
        mix = rng.random() < 0.4
        x = []
        for _ in range(num):
            if mix:
                lo, hi = rng.choice(ivs)[:2]
            x.append(rng.choice([lo, hi]) if rng.random() < 0.12 else rng.uniform(lo, hi))
        return {"f": f, "s": s, "x": x, "src": src, "inpl": False}
    f = rng.choice(EXTRA)
    c = {"f": f, "src": src}
    if f in ("softmax", "log_softmax"):
        s = rng.choice([[2], [3], [5], [1], [2, 3], [4, 2], [2, 1, 3], [2, 2, 2], [10], []])
        sc = rng.choice([1, 3, 8])
        c.update(s=s, x=[rng.uniform(-sc, sc) for _ in range(math.prod(s))], dim=rng.randrange(-len(s), len(s)) if s else 0)
    elif f in ("div", "divc"):
        s = shape_of(rng)
        num = math.prod(s)
        sgn = [rng.choice([-1, 1]) for _ in range(num)]
        c.update(s=s, x=[rng.uniform(-8, 8) for _ in range(num)], y=[g * rng.uniform(0.05, 9) for g in sgn], src2=rng.randrange(n),
                 how=rng.choice(["method", "op", "inplace"]) if f == "div" else rng.choice(["rdiv", "rdivf"]))
    elif f == "npow":
        s = shape_of(rng)
        c.update(s=s, x=[rng.choice([-1, 1]) * rng.uniform(0.4, 3) for _ in range(math.prod(s))], p=rng.choice([-1, -2, -3, -4, -2.0]))
    elif f == "pos_pow":
        s = shape_of(rng)
        c.update(s=s, x=[rng.uniform(0.3, 4) for _ in range(math.prod(s))], p=rng.choice([0.5, 1.5, -0.5, 2.5, 2, 3, 1.0, 0]),
                 pk=rng.choice(["n", "n", "t"]))
    elif f == "norm":
        s = rng.choice([[3], [2, 3], [4], [2, 2, 2], [5]])
        c.update(s=s, x=[rng.choice([-1, 1]) * rng.uniform(0.2, 2.5) for _ in range(math.prod(s))], p=rng.choice([1, 2, "fro", "inf", 3, 2.5]),
                 dim=rng.choice([None, rng.randrange(-len(s), len(s))]), keepdim=rng.random() < 0.4)
    else:
        s = shape_of(rng)
        c.update(s=s, x=[rng.uniform(-3, 3) for _ in range(math.prod(s))])
    return c


def gen(rng, tier, i):
    topo = gen_topology(rng, max_n=4)
    spec = dict(topo)
    spec["cases"] = [gen_case(rng, topo["n"]) for _ in range(rng.choice([2, 3, 3]))]
    return spec


def T(v, s):
    return torch.tensor(v, dtype=torch.float64).reshape(s)


def q16(t):
    return (t * 65536).to(torch.int64).to(torch.float64) / 65536


def tol_table(f, x, t):
    """Per element: the most generous interval containing the input."""
    out = torch.zeros_like(x)
    for j, (xv, tv) in enumerate(zip(x.reshape(-1).tolist(), t.reshape(-1).tolist())):
        best = 0
        for lo, hi, a, r in FN[f][4]:
            if lo - 1e-4 <= xv <= hi + 1e-4:
                best = max(best, a + r * abs(tv))
        out.view(-1)[j] = best
    return out


def expected(c, n):
    """List of (value, tolerance)."""
    f = c["f"]
    x = q16(T(c["x"], c["s"]))
    scale = {1: 1, 2: 1, 3: 1.3}.get(n, 2.5)
    if f in FN:
        t = FN[f][3](x)
        tol = tol_table(f, x, t)
        if f == "sqrt":
            t = torch.where(x < 0.045, torch.sqrt(x.clamp(min=0)), t)
        return [(t, scale * tol + 4e-5)]
    one = torch.ones_like(x)
    if f == "softmax":
        return [(torch.softmax(x, c["dim"]) if c["s"] else one, scale * 0.015 * one)]
    if f == "log_softmax":
        return [(torch.log_softmax(x, c["dim"]) if c["s"] else 0 * one, scale * 0.03 * one)]
    if f in ("div", "divc"):
        y = q16(T(c["y"], c["s"]))
        num = x if f == "div" else torch.full_like(x, 3.0 if c["how"] == "rdiv" else 1.75)
        t = num / y
        return [(t, scale * (0.006 * t.abs() + 2e-4 * (1 + num.abs())))]
    if f == "npow":
        t = x ** int(c["p"])
        return [(t, scale * (0.012 * t.abs() + 0.001))]
    if f == "pos_pow":
        p = c["p"]
        t = x ** p
        if c["pk"] == "n" and float(p) == int(p):
            return [(t, scale * (0.002 * t.abs() + 0.002))]
        return [(t, scale * (0.11 * t.abs() + 0.02))]
    if f == "norm":
        p = {"fro": 2.0, "inf": float("inf")}.get(c["p"], c["p"])
        t = torch.linalg.vector_norm(x, p, dim=c["dim"], keepdim=c["keepdim"] if c["dim"] is not None else False)
        if p in (1, float("inf")):
            return [(t, torch.full_like(t, 1e-3))]
        if p == 2:
            return [(t, scale * (0.012 * t + torch.where(t < 0.45, 0.12 * t, 0 * t)))]
        return [(t, scale * (0.12 * t + 0.03))]
    return [(torch.cos(x), 0.08 * scale * one), (torch.sin(x), 0.08 * scale * one)]


def party(spec, crypten, rank):
    out = []
    for c in spec["cases"]:
        f = c["f"]

        def inp(v, src):
            t = T(v, c["s"]) if rank == src else torch.full(c["s"], 0.77, dtype=torch.float64)
            return crypten.cryptensor(t, src=src)

        x = inp(c["x"], c["src"])
        before = None
        if f in FN:
            cf, m, kw = FN[f][:3]
            with crypten.cfg.temp_override(cf):
                rs = [getattr(x, m)(**kw)]
        elif f in ("softmax", "log_softmax"):
            rs = [getattr(x, f)(c["dim"])]
        elif f == "div":
            y = inp(c["y"], c["src2"])
            if c["how"] == "method":
                rs = [x.div(y)]
            elif c["how"] == "op":
                rs = [x / y]
            else:
                z = x.clone()
                z /= y
                rs = [z]
        elif f == "divc":
            y = inp(c["y"], c["src2"])
            rs = [y.__rtruediv__(3 if c["how"] == "rdiv" else 1.75)]
        elif f == "npow":
            rs = [x.pow(c["p"])]
        elif f == "pos_pow":
            p = c["p"] if c["pk"] == "n" else torch.full(c["s"], float(c["p"]))
            rs = [x.pos_pow(p)]
        elif f == "norm":
            kw = {} if c["dim"] is None else {"dim": c["dim"], "keepdim": c["keepdim"]}
            rs = [x.norm(p=float("inf") if c["p"] == "inf" else c["p"], **kw)]
        else:
            rs = list(x.cossin())
        out.append(tuple(r.get_plain_text() for r in rs) + (x.get_plain_text(),))
    return out


def run(spec, ctl):
    w = ctl.world(max_steps=2_000_000)
    actors = boot(w, spec, lambda crypten, rank: party(spec, crypten, rank))
    w.run()
    out = settle(w)
    n = 0
    worst = {}
    if not out:
        for a in actors:
            for c, got in zip(spec["cases"], a.result):
                exp = expected(c, spec["n"])
                for (t, tol), g in zip(exp, got[:-1]):
                    n += t.numel()
                    name = c["f"]
                    if tuple(g.shape) != tuple(t.shape):
                        out.append(viol("shape", "party %d: %s%s returned shape %s, expected %s" % (
                            a.aid, name, brief(c), tuple(g.shape), tuple(t.shape))))
                        break
                    err = (g.double() - t).abs()
                    if t.numel():
                        worst[name] = max(worst.get(name, 0), (err / tol).max().item())
                    bad = (err > tol).reshape(-1).nonzero().reshape(-1).tolist()
                    if bad:
                        j = bad[0]
                        out.append(viol("accuracy", "party %d: %s%s of %s gave %.6f, true value %.6f, allowed error %.6f" % (
                            a.aid, name, brief(c), c["x"][j] if len(c["x"]) == t.numel() else c["x"], g.reshape(-1)[j].item(), t.reshape(-1)[j].item(),
                            tol.reshape(-1)[j].item()), soft=True))
                        break
                xs = q16(T(c["x"], c["s"]))
                if (got[-1].double() - xs).abs().max().item() > 3e-5 if xs.numel() else False:
                    out.append(viol("mutated", "party %d: %s%s changed its input" % (a.aid, c["f"], brief(c))))
                if out:
                    break
            if out:
                break
    return {"viol": out, "obs": [[[t.tolist() for t in r] for r in (a.result or [])] for a in actors],
            "stats": {"evaluations": n, "ops": [c["f"] for c in spec["cases"]],
                      "worst": ["%s:%.1f" % kv for kv in worst.items() if kv[1] > WORST],
                      "topology": ["%d/%s/%s" % (spec["n"], spec["provider"], spec["protocol"])]}}


def brief(c):
    return str({k: v for k, v in c.items() if k not in ("x", "y", "f", "src", "src2", "inpl")})


def shrink(spec):
    yield from drop_list(spec, "cases")
    for j, c in enumerate(spec["cases"]):
        if c["f"] in FN and len(c["x"]) > 1:
            for k in range(len(c["x"])):
                d = dict(c, x=[c["x"][k]], s=[1])
                yield dict(spec, cases=spec["cases"][:j] + [d] + spec["cases"][j + 1:])
    if spec["provider"] == "TTP":
        yield dict(spec, provider="TFP")

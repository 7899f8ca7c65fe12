"""Random straight-line programs over encrypted tensors, with a reference.

A program is JSON: inputs (data + owning party) and a list of ops.  The
reference interpreter runs it in float64 and carries, per element, a bound on
the error fixed-point arithmetic may legitimately introduce.  The same program
is run by every simulated party through the public CrypTen API.
"""
import math
import random

import torch

F = torch.nn.functional


def T(data, dtype=torch.float64):
    return torch.tensor(data, dtype=dtype)


class Ref:
    """Reference value V with elementwise error bound E."""

    __slots__ = ("V", "E")

    def __init__(self, V, E):
        self.V, self.E = V, E

    @property
    def shape(self):
        return tuple(self.V.shape)


class Ctx:
    def __init__(self, n, bits):
        self.n = n
        self.ulp = 2.0 ** -bits
        # a public rescaling loses at most one unit per share, plus rounding
        self.trunc = (n + 2) * self.ulp


# --------------------------------------------------------------------------
# argument encoding: {"v": i} = pool value, {"t": data, "d": dtype} = public
# --------------------------------------------------------------------------
def dec_arg(a, pool):
    if isinstance(a, dict):
        if "v" in a:
            return pool[a["v"]]
        if "t" in a:
            dt = {"f": torch.float32, "l": torch.long, "b": torch.bool, "d": torch.float64}[a["d"]]
            return torch.tensor(a["t"], dtype=dt).reshape(a["s"])
        if "sl" in a:
            return slice(*a["sl"])
        if "tup" in a:
            return tuple(dec_arg(x, pool) for x in a["tup"])
        if "ell" in a:
            return Ellipsis
        if "none" in a:
            return None
        raise KeyError(a)
    if isinstance(a, list):
        return [dec_arg(x, pool) for x in a]
    return a


def pub(t, d="f"):
    return {"t": t.reshape(-1).tolist(), "s": list(t.shape), "d": d}


def _c(x):
    """Public operand as the protocol sees it, in float64."""
    return x.to(torch.float64) if torch.is_tensor(x) else x


LINEAR = {  # the op itself, applied to V and (absolute) to E
    "sum", "cumsum", "transpose", "t", "permute", "reshape", "view", "flatten",
    "unsqueeze", "squeeze", "flip", "roll", "repeat", "expand", "narrow",
    "index_select", "gather", "trace", "unfold", "__getitem__", "clone",
}
BILINEAR = {"mul", "matmul", "conv1d", "conv2d", "conv_transpose1d", "conv_transpose2d", "dot", "ger"}


def _bil(name, x, y, kw):
    if name in ("mul",):
        return x * y
    if name == "matmul":
        return torch.matmul(x, y)
    if name == "dot":
        return (x * y).sum()
    if name == "ger":
        return torch.outer(x, y)
    return getattr(F, name)(x, y, **kw)


def _encpub(y, ctx):
    """Public float operands are encoded: error up to one unit."""
    if torch.is_tensor(y):
        return y.to(torch.float64), torch.full_like(y.to(torch.float64), ctx.ulp)
    return torch.tensor(float(y), dtype=torch.float64), torch.tensor(ctx.ulp, dtype=torch.float64)


def ref_apply(op, pool, ctx):
    """Reference semantics: returns Ref or list of Ref; mutates for in-place."""
    m = op["m"]
    x = pool[op["x"]] if "x" in op else None
    args = [dec_arg(a, pool) for a in op.get("args", [])]
    kw = {k: dec_arg(v, pool) for k, v in op.get("kw", {}).items()}
    if m in LINEAR:
        f = getattr(x.V, m)
        return Ref(f(*args, **kw).clone(), getattr(x.E, m)(*args, **kw).clone())
    if m in ("unbind", "split"):
        return [Ref(v.clone(), e.clone()) for v, e in zip(getattr(x.V, m)(*args, **kw), getattr(x.E, m)(*args, **kw))]
    if m == "take":
        if len(args) == 1 and not kw:
            return Ref(x.V.take(args[0]), x.E.take(args[0]))
        d = args[1] if len(args) > 1 else kw["dimension"]
        idx = [slice(0, s) for s in x.V.shape]
        idx[d] = args[0]
        return Ref(x.V[tuple(idx)], x.E[tuple(idx)])
    if m in ("neg", "rneg"):
        return Ref(-x.V, x.E.clone())
    if m in ("add", "sub", "radd", "rsub", "iadd", "isub"):
        y = args[0]
        if isinstance(y, Ref):
            yv, ye = y.V, y.E
        else:
            yv, ye = _encpub(y, ctx)
        s = {"add": 1, "radd": 1, "iadd": 1}.get(m, -1)
        v = x.V + s * yv
        if m == "rsub":
            v = yv - x.V
        e = (x.E + ye).expand(v.shape).clone() if (x.E + ye).shape != v.shape else x.E + ye
        return Ref(v, e)
    if m in BILINEAR or m in ("rmul", "imul"):
        nm = "mul" if m in ("rmul", "imul") else m
        y = args[0]
        if isinstance(y, Ref):
            yv, ye = y.V, y.E
        elif isinstance(y, int) and nm == "mul":
            return Ref(x.V * y, x.E * abs(y))
        else:
            yv, ye = _encpub(y, ctx)
        v = _bil(nm, x.V, yv, kw)
        e = _bil(nm, x.V.abs(), ye, kw) + _bil(nm, x.E, yv.abs(), kw) + _bil(nm, x.E, ye, kw)
        t = ctx.trunc * (x.V.numel() if nm == "dot" else 1)
        return Ref(v, e + t)
    if m == "square":
        return Ref(x.V ** 2, 2 * x.V.abs() * x.E + x.E ** 2 + ctx.trunc)
    if m in ("div", "idiv"):
        y = args[0]
        if torch.is_tensor(y):
            yv = y.to(torch.float64)
        else:
            yv = torch.tensor(float(y), dtype=torch.float64)
        isint = bool((yv == yv.round()).all()) if (torch.is_tensor(y) and not y.is_floating_point()) or isinstance(y, (int, float)) else False
        v = x.V / yv
        e = x.E / yv.abs() + ctx.trunc + (x.V.abs() + x.E) * ctx.ulp * 1.01
        return Ref(v, e.expand(v.shape).clone())
    if m == "mean":
        v = x.V.mean(*args, **kw)
        return Ref(v, x.E.mean(*args, **kw) + ctx.trunc)
    if m == "prod":
        V, E = x.V, x.E
        d = kw.get("dim", args[0] if args else None)
        keep = kw.get("keepdim", False)
        if d is None:
            V, E, d = V.flatten(), E.flatten(), 0
        v = V.prod(d, keepdim=keep)
        up = (V.abs() + E + ctx.trunc).prod(d, keepdim=keep)
        low = V.abs().prod(d, keepdim=keep)
        return Ref(v, (up - low) * 2 + ctx.trunc * V.shape[d])
    if m == "avg_pool2d":
        v = F.avg_pool2d(x.V, *args, **kw)
        e = F.avg_pool2d(x.E, *args, **kw)
        return Ref(v, e + ctx.trunc)
    if m == "pad":
        val = kw.get("value", 0)
        if isinstance(val, Ref):
            v = F.pad(x.V, args[0], value=val.V.item())
            return Ref(v, F.pad(x.E, args[0], value=val.E.item()))
        return Ref(F.pad(x.V, args[0], value=float(val)), F.pad(x.E, args[0], value=ctx.ulp))
    if m in ("cat", "stack"):
        xs = [pool[i] for i in op["xs"]]
        f = getattr(torch, m)
        return Ref(f([a.V for a in xs], **kw), f([a.E for a in xs], **kw))
    if m in ("scatter", "scatter_add", "index_add"):
        d, idx, src = args
        if isinstance(src, Ref):
            sv, se = src.V, src.E
        else:
            sv, se = _encpub(src, ctx)
        if m == "scatter":
            return Ref(x.V.scatter(d, idx, sv), x.E.scatter(d, idx, se))
        return Ref(getattr(x.V, m)(d, idx, sv), getattr(x.E, m)(d, idx, se))
    if m == "setitem":
        idx, val = args
        V, E = x.V.clone(), x.E.clone()
        if isinstance(val, Ref):
            V[idx], E[idx] = val.V, val.E
        else:
            V[idx] = val.to(torch.float64) if torch.is_tensor(val) else val
            E[idx] = ctx.ulp
        return Ref(V, E)
    if m == "where":
        cond, y = args
        yv, ye = (y.V, y.E) if isinstance(y, Ref) else _encpub(y, ctx)
        c = cond.V if isinstance(cond, Ref) else cond.to(torch.float64)
        v = x.V * c + yv * (1 - c)
        return Ref(v, (x.E + ye + 2 * ctx.trunc + 2 * ctx.ulp * (x.V.abs() + yv.abs())).expand(v.shape).clone())
    if m == "polyval":
        co = args[0]
        v = torch.zeros_like(x.V)
        up = torch.zeros_like(x.V)
        lo = torch.zeros_like(x.V)
        for i, c in enumerate(co.tolist()):
            p = i + 1
            v = v + c * x.V ** p
            up = up + (abs(c) + ctx.ulp) * (x.V.abs() + x.E + (p + 1) * ctx.trunc) ** p
            lo = lo + abs(c) * x.V.abs() ** p
        return Ref(v, 2 * (up - lo) + ctx.trunc * (len(co) + 2))
    if m in ("gt", "ge", "lt", "le"):
        v = getattr(x.V, m)(args[0]).to(torch.float64)
        if not ((x.V - args[0]).abs() > 1.5 * x.E + 16 * ctx.ulp).all():
            raise ValueError("too close to call")
        return Ref(v, torch.zeros_like(v))
    if m == "var":
        raise KeyError(m)
    raise KeyError(m)


def crypt_apply(op, pool, crypten):
    """The same op through CrypTen's public API."""
    m = op["m"]
    x = pool[op["x"]] if "x" in op else None
    args = [dec_arg(a, pool) for a in op.get("args", [])]
    kw = {k: dec_arg(v, pool) for k, v in op.get("kw", {}).items()}
    if m == "radd":
        return args[0] + x
    if m == "rsub":
        return args[0] - x
    if m == "rmul":
        return args[0] * x
    if m == "iadd":
        z = x.clone()
        z += args[0]
        return z
    if m == "isub":
        z = x.clone()
        z -= args[0]
        return z
    if m == "imul":
        z = x.clone()
        z *= args[0]
        return z
    if m == "idiv":
        z = x.clone()
        z /= args[0]
        return z
    if m == "rneg":
        return -x
    if m == "div" and op.get("oper"):
        return x / args[0]
    if m in ("add", "sub", "mul") and op.get("oper"):
        return {"add": lambda: x + args[0], "sub": lambda: x - args[0], "mul": lambda: x * args[0]}[m]()
    if m == "matmul" and op.get("oper"):
        return x @ args[0]
    if m == "__getitem__":
        return x[args[0]]
    if m in ("cat", "stack"):
        return getattr(crypten, m)([pool[i] for i in op["xs"]], **kw)
    if m == "setitem":
        z = x.clone()
        z[args[0]] = args[1]
        return z
    if m == "where":
        if op.get("fn"):
            return crypten.where(args[0], x, args[1])
        return x.where(args[0], args[1])
    if m == "polyval":
        return x.polynomial(args[0].float())
    return getattr(x, m)(*args, **kw)


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------
def gen_shape(rng, maxnum=16):
    k = rng.choice([0, 1, 1, 2, 2, 2, 3, 4])
    while True:
        s = [rng.choice([1, 1, 2, 2, 3, 3, 4, 5]) for _ in range(k)]
        if math.prod(s) <= maxnum:
            return s


def gen_data(rng, n, lo=-4.0, hi=4.0):
    mode = rng.choice(["uniform", "uniform", "grid", "int", "tiny", "mixed"])
    out = []
    for _ in range(n):
        m = mode if mode != "mixed" else rng.choice(["uniform", "grid", "int", "tiny", "zero"])
        if m == "uniform":
            v = rng.uniform(lo, hi)
        elif m == "grid":
            v = rng.randrange(int(lo * 8), int(hi * 8) + 1) / 8.0
        elif m == "int":
            v = float(rng.randrange(int(lo), int(hi) + 1))
        elif m == "tiny":
            v = rng.choice([-1, 1]) * rng.choice([0.0, 2.0**-16, 2.0**-10, 0.001, 0.5])
        else:
            v = 0.0
        # float32 is what the user's tensors hold
        out.append(torch.tensor(v, dtype=torch.float32).item())
    return out


def prod(s):
    return math.prod(s)


def bshape(rng, s):
    """A shape that broadcasts with s (possibly to a larger one)."""
    r = rng.random()
    s = list(s)
    if r < 0.4:
        return s
    if r < 0.75:
        t = [1 if rng.random() < 0.4 else d for d in s]
        k = rng.randrange(0, len(t) + 1)
        return t[k:]
    return ([rng.choice([1, 2])] + s) if len(s) < 4 else s


class Gen:
    def __init__(self, rng, n, bits, maxabs=60.0, maxnum=48):
        self.rng = rng
        self.ctx = Ctx(n, bits)
        self.n = n
        self.bits = bits
        self.pool = []
        self.kind = []
        self.inputs = []
        self.ops = []
        self.maxabs = maxabs
        self.maxnum = maxnum

    def add_input(self, shape=None, data=None, src=None, lo=-4.0, hi=4.0, **extra):
        rng = self.rng
        if shape is None:
            shape = gen_shape(rng)
        if data is None:
            data = gen_data(rng, prod(shape), lo, hi)
        src = rng.randrange(self.n) if src is None else src
        d = {"data": data, "shape": list(shape), "src": src}
        d.update(extra)
        self.inputs.append(d)
        V = T(data).reshape(shape)
        self.pool.append(Ref(V, torch.full_like(V, self.ctx.ulp)))
        self.ops.append({"in": len(self.inputs) - 1})
        return len(self.pool) - 1

    def pick(self, pred=lambda r: True):
        c = [i for i, r in enumerate(self.pool) if r is not None and pred(r)]
        return self.rng.choice(c) if c else None

    def try_op(self, op):
        try:
            r = ref_apply(op, self.pool, self.ctx)
        except (RuntimeError, IndexError, ValueError, TypeError):
            return False
        rs = r if isinstance(r, list) else [r]
        for q in rs:
            if q.V.numel() == 0 or q.V.numel() > self.maxnum:
                return False
            if q.V.abs().max().item() > self.maxabs or q.E.max().item() > 0.25:
                return False
            if q.E.shape != q.V.shape:
                return False
        self.ops.append(op)
        self.pool.extend(rs)
        return True

    def pubt(self, shape, lo=-3.0, hi=3.0):
        return torch.tensor(gen_data(self.rng, prod(shape), lo, hi)).reshape(shape)

    def operand(self, shape):
        """Either an encrypted pool value / new input or a public operand."""
        rng = self.rng
        r = rng.random()
        if r < 0.6:
            i = self.pick(lambda q: list(q.shape) == list(shape))
            if i is not None and rng.random() < 0.6:
                return {"v": i}
            return {"v": self.add_input(shape)}
        if r < 0.85:
            return pub(self.pubt(shape))
        if r < 0.95:
            return round(rng.uniform(-3, 3), 3)
        return rng.randrange(-3, 4)

    # one random linear/bilinear/shape op; returns True if appended
    def step(self):
        rng = self.rng
        w = [
            ("ew", 10), ("mm", 5), ("conv", 5), ("shape", 7), ("index", 5),
            ("reduce", 5), ("sq", 2), ("div", 4), ("cat", 3), ("scatter", 4),
            ("set", 2), ("pool", 2), ("prod", 1), ("vec", 2), ("poly", 1), ("bit", 3),
        ]
        k = rng.choices([a for a, _ in w], [b for _, b in w])[0]
        return getattr(self, "g_" + k)()

    def g_ew(self):
        rng = self.rng
        i = self.pick()
        x = self.pool[i]
        m = rng.choice(["add", "sub", "mul", "mul", "radd", "rsub", "rmul", "iadd", "isub", "imul", "neg", "rneg"])
        if m in ("neg", "rneg"):
            return self.try_op({"m": m, "x": i})
        s = list(x.shape) if m in ("iadd", "isub", "imul") else bshape(rng, x.shape)
        y = self.operand(s)
        if m in ("radd", "rsub", "rmul") and isinstance(y, dict) and "t" in y:
            y = round(rng.uniform(-3, 3), 3)
        op = {"m": m, "x": i, "args": [y]}
        if m in ("add", "sub", "mul") and rng.random() < 0.5:
            op["oper"] = 1
        return self.try_op(op)

    def g_mm(self):
        rng = self.rng
        i = self.pick(lambda q: len(q.shape) >= 1 and len(q.shape) <= 3)
        if i is None:
            return False
        s = list(self.pool[i].shape)
        if len(s) == 1:
            ys = rng.choice([[s[0]], [s[0], rng.choice([1, 2, 3])]])
        elif len(s) == 2:
            ys = rng.choice([[s[1]], [s[1], rng.choice([1, 2, 3])], [2, s[1], 2]])
        else:
            ys = rng.choice([[s[2], 2], [s[0], s[2], rng.choice([1, 2])]])
        y = self.operand(ys)
        if not isinstance(y, dict):
            y = pub(self.pubt(ys))
        op = {"m": "matmul", "x": i, "args": [y]}
        if rng.random() < 0.4:
            op["oper"] = 1
        return self.try_op(op)

    def g_conv(self):
        rng = self.rng
        d = rng.choice([1, 1, 2])
        tr = rng.random() < 0.35
        g = rng.choice([1, 1, 1, 2])
        cin = g * rng.choice([1, 1, 2])
        cout = g * rng.choice([1, 2])
        sp = [rng.choice([3, 4, 5]) for _ in range(d)]
        ks = [rng.choice([1, 2, 3]) for _ in range(d)]
        b = rng.choice([1, 1, 2])
        kw = {}
        if rng.random() < 0.6:
            kw["stride"] = rng.choice([1, 2])
        if rng.random() < 0.6:
            kw["padding"] = rng.choice([0, 1])
        if rng.random() < 0.3:
            kw["dilation"] = rng.choice([1, 2])
        if g > 1:
            kw["groups"] = g
        if tr and kw.get("stride", 1) == 2 and rng.random() < 0.5:
            kw["output_padding"] = 1
        i = self.add_input([b, cin] + sp, lo=-2, hi=2)
        kshape = ([cin, cout // g] if tr else [cout, cin // g]) + ks
        if rng.random() < 0.7:
            y = {"v": self.add_input(kshape, lo=-2, hi=2)}
        else:
            y = pub(self.pubt(kshape, -2, 2))
        return self.try_op({"m": ("conv_transpose%dd" if tr else "conv%dd") % d, "x": i, "args": [y], "kw": kw})

    def g_shape(self):
        rng = self.rng
        m = rng.choice(["transpose", "t", "permute", "reshape", "view", "flatten", "unsqueeze", "squeeze", "flip", "roll", "repeat", "expand", "unbind", "split", "clone", "unfold"])
        i = self.pick(lambda q: len(q.shape) >= 1)
        if i is None:
            return False
        s = list(self.pool[i].shape)
        k = len(s)
        dim = rng.randrange(-k, k)
        if m == "t":
            i = self.pick(lambda q: len(q.shape) == 2)
            return i is not None and self.try_op({"m": "t", "x": i})
        if m == "transpose":
            return self.try_op({"m": m, "x": i, "args": [rng.randrange(k), rng.randrange(k)]})
        if m == "permute":
            p = list(range(k))
            rng.shuffle(p)
            return self.try_op({"m": m, "x": i, "args": [{"tup": p}] if rng.random() < 0.5 else p})
        if m in ("reshape", "view"):
            n = prod(s)
            divs = [q for q in range(1, n + 1) if n % q == 0]
            a = rng.choice(divs)
            sh = rng.choice([[a, n // a], [-1], [a, -1], [1, n]])
            return self.try_op({"m": m, "x": i, "args": [{"tup": sh}] if rng.random() < 0.5 else sh})
        if m == "flatten":
            a = rng.randrange(k)
            return self.try_op({"m": m, "x": i, "args": rng.choice([[], [a], [a, k - 1]])})
        if m == "unsqueeze":
            return self.try_op({"m": m, "x": i, "args": [rng.randrange(-k - 1, k + 1)]})
        if m == "squeeze":
            ones = [j for j, d in enumerate(s) if d == 1]
            if not ones:
                return self.try_op({"m": m, "x": i, "args": [0]})
            return self.try_op({"m": m, "x": i, "args": rng.choice([[], [rng.choice(ones)]])})
        if m == "flip":
            ds = [j for j in range(k) if rng.random() < 0.6] or [0]
            return self.try_op({"m": m, "x": i, "args": [ds]})
        if m == "roll":
            return self.try_op({"m": m, "x": i, "args": [rng.randrange(-3, 4), rng.randrange(k)]})
        if m == "repeat":
            return self.try_op({"m": m, "x": i, "args": [{"tup": [rng.choice([1, 2]) for _ in range(k + rng.choice([0, 1]))]}]})
        if m == "expand":
            return self.try_op({"m": m, "x": i, "args": [{"tup": [2] + s}]})
        if m == "unbind":
            return self.try_op({"m": m, "x": i, "kw": {"dim": rng.randrange(k)}})
        if m == "split":
            d = rng.randrange(k)
            if rng.random() < 0.5:
                a = rng.randrange(1, s[d] + 1)
            else:
                c = rng.randrange(1, s[d]) if s[d] > 1 else 1
                a = [c, s[d] - c] if s[d] > 1 else [1]
            return self.try_op({"m": m, "x": i, "args": [a], "kw": {"dim": d}})
        if m == "unfold":
            d = rng.randrange(k)
            return self.try_op({"m": m, "x": i, "args": [d, rng.randrange(1, s[d] + 1), rng.choice([1, 2])]})
        return self.try_op({"m": "clone", "x": i})

    def g_index(self):
        rng = self.rng
        i = self.pick(lambda q: len(q.shape) >= 1)
        if i is None:
            return False
        s = list(self.pool[i].shape)
        k = len(s)
        m = rng.choice(["__getitem__", "__getitem__", "narrow", "index_select", "take", "take", "gather"])
        d = rng.randrange(k)
        if m == "__getitem__":
            ix = []
            for dd in s[: rng.randrange(1, k + 1)]:
                r = rng.random()
                if r < 0.4:
                    ix.append(rng.randrange(-dd, dd))
                elif r < 0.8:
                    a = rng.randrange(dd)
                    ix.append({"sl": [a, rng.randrange(a + 1, dd + 1), rng.choice([None, 1, 2])]})
                elif r < 0.9:
                    ix.append({"none": 1})
                else:
                    ix.append({"ell": 1})
                    break
            return self.try_op({"m": m, "x": i, "args": [ix[0] if len(ix) == 1 and rng.random() < 0.5 else {"tup": ix}]})
        if m == "narrow":
            a = rng.randrange(s[d])
            return self.try_op({"m": m, "x": i, "args": [d, a, rng.randrange(1, s[d] - a + 1)]})
        if m == "index_select":
            idx = torch.tensor([rng.randrange(s[d]) for _ in range(rng.choice([1, 2, 3]))])
            return self.try_op({"m": m, "x": i, "args": [d, pub(idx, "l")]})
        if m == "take":
            if rng.random() < 0.5:
                idx = torch.tensor([rng.randrange(prod(s)) for _ in range(4)]).reshape(rng.choice([[4], [2, 2]]))
                return self.try_op({"m": m, "x": i, "args": [pub(idx, "l")]})
            idx = torch.tensor([rng.randrange(s[d]) for _ in range(2)])
            return self.try_op({"m": m, "x": i, "args": [pub(idx, "l"), d]})
        idx = torch.tensor([rng.randrange(s[d]) for _ in range(prod(s))]).reshape(s)
        return self.try_op({"m": "gather", "x": i, "args": [d, pub(idx, "l")]})

    def g_reduce(self):
        rng = self.rng
        m = rng.choice(["sum", "sum", "mean", "mean", "cumsum", "trace"])
        i = self.pick(lambda q: len(q.shape) >= (2 if m == "trace" else 1) and (m != "trace" or len(q.shape) == 2))
        if i is None:
            return False
        k = len(self.pool[i].shape)
        if m == "trace":
            return self.try_op({"m": m, "x": i})
        if m == "cumsum":
            return self.try_op({"m": m, "x": i, "args": [rng.randrange(-k, k)]})
        r = rng.random()
        if r < 0.3:
            return self.try_op({"m": m, "x": i})
        d = rng.randrange(-k, k)
        if k > 1 and rng.random() < 0.25:
            d = {"tup": sorted(rng.sample(range(k), 2))}
        kw = {"keepdim": rng.choice([True, False])} if rng.random() < 0.6 else {}
        if rng.random() < 0.4:
            kw["dim"] = d
            return self.try_op({"m": m, "x": i, "kw": kw})
        return self.try_op({"m": m, "x": i, "args": [d], "kw": kw})

    def g_bit(self):
        rng = self.rng
        c = rng.choice([0, 1, -1, 0.5, 0.25, -1.75])
        return self.try_op({"m": rng.choice(["gt", "ge", "lt", "le"]), "x": self.pick(), "args": [c]})

    def g_sq(self):
        return self.try_op({"m": "square", "x": self.pick()})

    def g_div(self):
        rng = self.rng
        i = self.pick()
        s = list(self.pool[i].shape)
        r = rng.random()
        if r < 0.35:
            y = rng.choice([2, 3, 4, 7, 10, -2, -5])
        elif r < 0.6:
            y = rng.choice([2.0, 0.5, 1.5, -2.5, 3.0, 10.0, 0.3])
        else:
            sh = bshape(rng, s)
            if r < 0.8:
                y = pub(torch.tensor([rng.choice([-1, 1]) * rng.choice([0.5, 1.5, 2.0, 3.25]) for _ in range(prod(sh))]).reshape(sh))
            else:
                y = pub(torch.tensor([rng.choice([1, 2, 3, 5]) for _ in range(prod(sh))]).reshape(sh), "l")
        op = {"m": rng.choice(["div", "div", "idiv"]), "x": i, "args": [y]}
        if op["m"] == "idiv" and isinstance(y, dict) and y["s"] != s:
            op["m"] = "div"
        if op["m"] == "div" and rng.random() < 0.5:
            op["oper"] = 1
        return self.try_op(op)

    def g_cat(self):
        rng = self.rng
        i = self.pick(lambda q: len(q.shape) >= 1)
        if i is None:
            return False
        s = self.pool[i].shape
        xs = [i]
        for _ in range(rng.choice([1, 2])):
            j = self.pick(lambda q: q.shape == s)
            xs.append(j if rng.random() < 0.5 else self.add_input(list(s)))
        rng.shuffle(xs)
        kw = {"dim": rng.randrange(-len(s), len(s))} if rng.random() < 0.8 else {}
        return self.try_op({"m": rng.choice(["cat", "stack"]), "xs": xs, "kw": kw})

    def g_scatter(self):
        rng = self.rng
        i = self.pick(lambda q: len(q.shape) >= 1)
        if i is None:
            return False
        s = list(self.pool[i].shape)
        k = len(s)
        d = rng.randrange(k)
        m = rng.choice(["scatter", "scatter_add", "index_add", "pad"])
        if m == "pad":
            p = [rng.choice([0, 1, 2]) for _ in range(2 * rng.randrange(1, min(k, 2) + 1))]
            kw = {}
            r = rng.random()
            if r < 0.4:
                kw["value"] = rng.choice([1, -2, 0.5, 0])
            elif r < 0.6:
                j = self.add_input([])
                kw["value"] = {"v": j}
            return self.try_op({"m": "pad", "x": i, "args": [{"tup": p}], "kw": kw})
        if m == "index_add":
            idx = torch.tensor([rng.randrange(s[d]) for _ in range(2)])
            sh = list(s)
            sh[d] = 2
        else:
            # distinct positions along d, so the result is well defined
            sh = list(s)
            if m == "scatter":
                perm = list(range(s[d]))
                rng.shuffle(perm)
                shp = [1] * k
                shp[d] = s[d]
                idx = torch.tensor(perm).reshape(shp).expand(s).contiguous()
            else:
                idx = torch.tensor([rng.randrange(s[d]) for _ in range(prod(s))]).reshape(s)
        src = self.operand(sh)
        if not isinstance(src, dict):
            src = pub(self.pubt(sh))
        return self.try_op({"m": m, "x": i, "args": [d, pub(idx, "l"), src]})

    def g_set(self):
        rng = self.rng
        i = self.pick(lambda q: len(q.shape) >= 1)
        if i is None:
            return False
        s = list(self.pool[i].shape)
        a = rng.randrange(s[0])
        if rng.random() < 0.5:
            sub = s[1:]
            val = self.operand(sub)
            return self.try_op({"m": "setitem", "x": i, "args": [a, val]})
        b = rng.randrange(a + 1, s[0] + 1)
        val = self.operand([b - a] + s[1:])
        return self.try_op({"m": "setitem", "x": i, "args": [{"sl": [a, b]}, val]})

    def g_pool(self):
        rng = self.rng
        i = self.add_input([1, rng.choice([1, 2]), rng.choice([3, 4]), rng.choice([3, 4])])
        ks = rng.choice([1, 2, 3, {"tup": [2, 1]}, {"tup": [1, 2]}])
        kw = {}
        if rng.random() < 0.5:
            kw["stride"] = rng.choice([1, 2])
        if rng.random() < 0.4 and ks in (2, 3):
            kw["padding"] = 1
        return self.try_op({"m": "avg_pool2d", "x": i, "args": [ks], "kw": kw})

    def g_prod(self):
        rng = self.rng
        i = self.pick(lambda q: len(q.shape) >= 1 and q.V.abs().max() <= 3)
        if i is None:
            return False
        k = len(self.pool[i].shape)
        kw = {}
        if rng.random() < 0.8:
            kw["dim"] = rng.randrange(k)
            if rng.random() < 0.4:
                kw["keepdim"] = True
        return self.try_op({"m": "prod", "x": i, "kw": kw})

    def g_vec(self):
        rng = self.rng
        i = self.pick(lambda q: len(q.shape) == 1)
        if i is None:
            i = self.add_input([rng.choice([1, 2, 3, 4])])
        s = list(self.pool[i].shape)
        m = rng.choice(["dot", "ger"])
        sh = s if m == "dot" else [rng.choice([1, 2, 3])]
        y = self.operand(sh)
        if not isinstance(y, dict):
            y = {"v": self.add_input(sh)}
        return self.try_op({"m": m, "x": i, "args": [y]})

    def g_poly(self):
        rng = self.rng
        i = self.pick(lambda q: len(q.shape) >= 1 and q.V.abs().max() <= 2)
        if i is None:
            return False
        co = torch.tensor([round(rng.uniform(-1, 1), 3) for _ in range(rng.choice([1, 2, 3, 4]))])
        return self.try_op({"m": "polyval", "x": i, "args": [pub(co)]})

    def program(self, nops):
        tries = 0
        done = 0
        while done < nops and tries < nops * 6:
            tries += 1
            if self.step():
                done += 1

    def spec(self):
        return {"n": self.n, "bits": self.bits, "inputs": self.inputs, "ops": self.ops}


def reference(spec):
    """Recompute the reference pool of a spec."""
    ctx = Ctx(spec["n"], spec["bits"])
    pool = []
    for op in spec["ops"]:
        if "in" in op:
            d = spec["inputs"][op["in"]]
            V = T(d["data"]).reshape(d["shape"])
            pool.append(Ref(V, torch.full_like(V, ctx.ulp)))
        else:
            r = ref_apply(op, pool, ctx)
            pool.extend(r if isinstance(r, list) else [r])
    return pool


def decoy(rank, shape, salt=0):
    """What a party that does not own an input passes in its place."""
    g = random.Random("decoy/%s/%s/%s" % (rank, shape, salt))
    return torch.tensor([g.uniform(-50, 50) for _ in range(prod(shape))], dtype=torch.float32).reshape(shape)


def make_input(crypten, d, rank, how=None):
    shape = d["shape"]
    src = d["src"]
    how = d.get("how", "decoy")
    data = torch.tensor(d["data"], dtype=torch.float32).reshape(shape)
    if how == "all":  # every party passes the data (replicated plaintext)
        return crypten.cryptensor(data, src=src)
    if how == "bsize":
        return crypten.cryptensor(data if rank == src else torch.empty(0), src=src, broadcast_size=True)
    return crypten.cryptensor(data if rank == src else decoy(rank, shape), src=src)


def run_party(spec, crypten, rank, apply=crypt_apply):
    pool = []
    for op in spec["ops"]:
        if "in" in op:
            pool.append(make_input(crypten, spec["inputs"][op["in"]], rank))
        else:
            r = apply(op, pool, crypten)
            if isinstance(r, (list, tuple)):
                pool.extend(r)
            else:
                pool.append(r)
    return pool


def drop_op(spec, k):
    """Spec without op k and everything depending on it, re-indexed; or None."""
    # pool slots produced by each op
    ref = []
    counts = []
    ctx = Ctx(spec["n"], spec["bits"])
    pool = []
    dead = set()
    newidx = {}
    ops2 = []

    def refs(a):
        if isinstance(a, dict):
            if "v" in a:
                yield a["v"]
            elif "tup" in a:
                for q in a["tup"]:
                    yield from refs(q)
        elif isinstance(a, list):
            for q in a:
                yield from refs(q)

    def remap(a):
        if isinstance(a, dict):
            if "v" in a:
                return {"v": newidx[a["v"]]}
            if "tup" in a:
                return {"tup": [remap(q) for q in a["tup"]]}
            return a
        if isinstance(a, list):
            return [remap(q) for q in a]
        return a

    nslot = 0
    nnew = 0
    full = []
    for j, op in enumerate(spec["ops"]):
        if "in" in op:
            d = spec["inputs"][op["in"]]
            V = T(d["data"]).reshape(d["shape"])
            full.append(Ref(V, torch.full_like(V, ctx.ulp)))
            cnt = 1
            deps = []
        else:
            r = ref_apply(op, full, ctx)
            rs = r if isinstance(r, list) else [r]
            full.extend(rs)
            cnt = len(rs)
            deps = ([op["x"]] if "x" in op else []) + list(op.get("xs", []))
            for a in op.get("args", []):
                deps += list(refs(a))
            for a in op.get("kw", {}).values():
                deps += list(refs(a))
        slots = list(range(nslot, nslot + cnt))
        nslot += cnt
        if j == k or any(d in dead for d in deps):
            dead.update(slots)
            continue
        o2 = dict(op)
        if "x" in o2:
            o2["x"] = newidx[o2["x"]]
        if "xs" in o2:
            o2["xs"] = [newidx[q] for q in o2["xs"]]
        if "args" in o2:
            o2["args"] = [remap(a) for a in o2["args"]]
        if "kw" in o2:
            o2["kw"] = {q: remap(a) for q, a in o2["kw"].items()}
        ops2.append(o2)
        for s in slots:
            newidx[s] = nnew
            nnew += 1
    if not ops2:
        return None
    s2 = dict(spec)
    s2["ops"] = ops2
    return s2


def compare(ref, got, ulp=2.0**-16):
    """None, or a description of the first disagreement."""
    if got is None:
        return "no value"
    if tuple(got.shape) != ref.shape:
        return "shape %s, expected %s" % (tuple(got.shape), ref.shape)
    g = got.to(torch.float64)
    tol = 1.5 * ref.E + 4 * ulp + ref.V.abs() * 2.0**-22
    bad = (g - ref.V).abs() > tol
    bad |= g.isnan()
    if bad.any():
        j = bad.reshape(-1).nonzero()[0].item()
        return "element %d is %.6f, expected %.6f +- %.6f" % (
            j, g.reshape(-1)[j].item(), ref.V.reshape(-1)[j].item(), tol.reshape(-1)[j].item())
    return None

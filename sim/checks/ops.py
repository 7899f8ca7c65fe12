"""Secret computations used by several scenarios: name -> (function, cost).

Each takes (crypten, x, y) - two encrypted tensors of the same 1-d size (a
multiple of 16) with entries in about [-4, 4] - and returns encrypted tensors.
"""
import torch


def _m(x, k=4):
    return x.reshape(-1, k)


def _train(crypten, x, y):
    nn = crypten.nn
    torch.manual_seed(7)
    model = nn.Sequential(nn.Linear(4, 3), nn.ReLU(), nn.Linear(3, 1))
    model.encrypt()
    model.train()
    a = _m(x)
    a.requires_grad = True
    t = _m(y)[:, :1]
    loss = nn.MSELoss()(model(a), t)
    model.zero_grad()
    loss.backward()
    model.update_parameters(0.05)
    return [p for p in model.parameters()] + [loss]


def _bce(crypten, x, y):
    p = x.sigmoid()
    t = y > 0
    return [crypten.nn.BCELoss()(p, t)]


OPS = {
    "mul": (lambda c, x, y: [x * y], 1),
    "square": (lambda c, x, y: [x.square()], 1),
    "pow3": (lambda c, x, y: [x.pow(3)], 1),
    "matmul": (lambda c, x, y: [_m(x).matmul(_m(y).t())], 1),
    "conv1d": (lambda c, x, y: [x.reshape(1, 1, -1).conv1d(y[:3].reshape(1, 1, 3))], 1),
    "conv2d": (lambda c, x, y: [x.reshape(1, 1, -1, 4).conv2d(y[:4].reshape(1, 1, 2, 2))], 1),
    "convt": (lambda c, x, y: [x.reshape(1, 1, -1).conv_transpose1d(y[:3].reshape(1, 1, 3))], 1),
    "div": (lambda c, x, y: [x / 3.7], 1),
    "mean": (lambda c, x, y: [_m(x).mean(0)], 1),
    "avg_pool": (lambda c, x, y: [x.reshape(1, 1, -1, 4).avg_pool2d(2)], 1),
    "polynomial": (lambda c, x, y: [x.polynomial([0.5, -0.25, 0.1])], 2),
    "gt": (lambda c, x, y: [x > y], 3),
    "le0": (lambda c, x, y: [x <= 0], 3),
    "eq": (lambda c, x, y: [x.eq(y)], 4),
    "relu": (lambda c, x, y: [x.relu()], 3),
    "abs": (lambda c, x, y: [x.abs()], 3),
    "where": (lambda c, x, y: [c.where(x > 0, x, y)], 3),
    "max": (lambda c, x, y: [_m(x).max(dim=1)[0]], 8),
    "argmax": (lambda c, x, y: [_m(x).argmax(dim=1)], 8),
    "max_pool": (lambda c, x, y: [x.reshape(1, 1, -1, 4).max_pool2d(2)], 8),
    "exp": (lambda c, x, y: [x.exp()], 4),
    "sigmoid": (lambda c, x, y: [x.sigmoid()], 8),
    "reciprocal": (lambda c, x, y: [(x + 8).reciprocal()], 8),
    "edv": (lambda c, x, y: [y / (x + 8)], 8),
    "sqrt": (lambda c, x, y: [(x + 8).sqrt()], 6),
    "cos": (lambda c, x, y: [x.cos()], 6),
    "softmax": (lambda c, x, y: [_m(x).softmax(1)], 14),
    "a2b": (lambda c, x, y: [x.to(c.mpc.binary).to(c.mpc.arithmetic)], 4),
    "dropout": (lambda c, x, y: [x.dropout(0.5)], 4),
    "train": (_train, 14),
    "bce": (_bce, 16),
}


def pick(rng, k, budget):
    out = []
    for _ in range(k):
        o = rng.choice(sorted(OPS))
        if OPS[o][1] <= budget:
            budget -= OPS[o][1]
            out.append(o)
    return out or ["mul"]

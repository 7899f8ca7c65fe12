"""C01: linear and bilinear arithmetic on encrypted tensors."""
import torch

from .. import prog
from ..runner import viol
from .common import boot, gen_topology, settle

PID = "C01"
IMAGES = 6
LEVEL = "exploration"
COUNT = {"quick": 900, "thorough": 40000}


def gen(rng, tier, i):
    topo = gen_topology(rng)
    bits = rng.choice([16, 16, 16, 12, 10])
    g = prog.Gen(rng, topo["n"], bits)
    for _ in range(rng.choice([1, 2, 3])):
        g.add_input()
    g.program(rng.choice([3, 5, 8, 10]))
    for d in g.inputs:
        d["how"] = rng.choice(["decoy", "decoy", "all", "bsize"])
    s = g.spec()
    s.update(topo)
    return s


def run(spec, ctl):
    w = ctl.world()

    def main(crypten, rank):
        pool = prog.run_party(spec, crypten, rank)
        return [v.get_plain_text() for v in pool]

    actors = boot(w, spec, main)
    w.run()
    out = settle(w)
    ref = prog.reference(spec)
    n = 0
    if not out:
        ulp = 2.0 ** -spec["bits"]
        for a in actors:
            for j, (r, g) in enumerate(zip(ref, a.result)):
                n += 1
                bad = prog.compare(r, g, ulp)
                if bad:
                    out.append(viol("value", "party %d, value %d (%s): %s" % (
                        a.aid, j, origin(spec, j), bad), soft=True))
                    break
    return {"viol": out, "obs": [[t.tolist() for t in (a.result or [])] for a in actors],
            "stats": {"evaluations": n, "ops": [o["m"] for o in spec["ops"] if "m" in o],
                      "topology": ["%d/%s/%s" % (spec["n"], spec["provider"], spec["protocol"])]}}


def origin(spec, j):
    k = 0
    ref = None
    pool = []
    ctx = prog.Ctx(spec["n"], spec["bits"])
    for op in spec["ops"]:
        if "in" in op:
            d = spec["inputs"][op["in"]]
            V = prog.T(d["data"]).reshape(d["shape"])
            pool.append(prog.Ref(V, torch.full_like(V, ctx.ulp)))
            c = 1
        else:
            r = prog.ref_apply(op, pool, ctx)
            rs = r if isinstance(r, list) else [r]
            pool.extend(rs)
            c = len(rs)
        if k <= j < k + c:
            return op.get("m", "input")
        k += c
    return "?"


def shrink(spec):
    for k in reversed(range(len(spec["ops"]))):
        yield prog.drop_op(spec, k)
    if spec["n"] > 2 and spec["protocol"] == "beaver":
        s = dict(spec)
        s["n"] = 2
        s["inputs"] = [dict(d, src=d["src"] % 2) for d in spec["inputs"]]
        yield s
    if spec["provider"] == "TTP":
        yield dict(spec, provider="TFP")

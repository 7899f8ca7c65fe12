"""C04: all parties decrypt the same value; decrypting to one party tells only that party."""
import sys

import torch

from .. import prog
from ..runner import viol
from .common import boot, gen_topology, settle

PID = "C04"
IMAGES = 6
LEVEL = "exploration"
COUNT = {"quick": 450, "thorough": 30000}
HOW = ["plain", "reveal", "batch", "plain", "binary", "cmp"]


def gen(rng, tier, i):
    topo = gen_topology(rng, single=False)
    g = prog.Gen(rng, topo["n"], 16)
    for _ in range(rng.choice([1, 2])):
        g.add_input()
    g.program(rng.choice([1, 3, 5]))
    for d in g.inputs:
        d["how"] = rng.choice(["decoy", "decoy", "all", "bsize"])
    s = g.spec()
    s.update(topo)
    s["rev"] = [{"v": rng.randrange(10**6), "dst": rng.choice([None] + list(range(topo["n"])) * 2), "how": rng.choice(HOW),
                 "again": rng.random() < 0.5} for _ in range(rng.choice([2, 3, 4]))]
    return s


def party(spec, crypten, rank):
    me = sys.modules["sim.seams"].SIM.me()
    A = crypten.mpc.primitives.ArithmeticSharedTensor
    B = crypten.mpc.primitives.BinarySharedTensor
    pool = prog.run_party(spec, crypten, rank)
    out = []
    for k, r in enumerate(spec["rev"]):
        t = pool[r["v"] % len(pool)]
        how, dst = r["how"], r["dst"]
        if how == "binary":
            t = t.to(crypten.mpc.binary)
        elif how == "cmp":
            t = t > 0
        before = t.share.clone()
        me.tag = ("reveal", k)
        if how == "plain" or how == "cmp":
            v = [t.get_plain_text(dst=dst)]
        elif how == "binary":
            v = [t._tensor.reveal(dst=dst)] if not r["again"] else B.reveal_batch([t._tensor], dst=dst)
        elif how == "reveal":
            v = [t.reveal(dst=dst)]
        else:
            v = A.reveal_batch([t._tensor, t._tensor], dst=dst)
        me.tag = None
        if v is None:
            v = [None]
        full = t.get_plain_text() if how in ("plain", "cmp") else t._tensor.reveal()
        out.append({"v": v, "full": full, "share": before, "same": torch.equal(before, t.share), "size": tuple(t.size()),
                    "scale": int(t.encoder.scale), "xor": how == "binary"})
    return out


def run(spec, ctl):
    w = ctl.world(keep_wire=True)
    actors = boot(w, spec, lambda crypten, rank: party(spec, crypten, rank))
    w.run()
    out = settle(w)
    n = 0
    if not out:
        for k, r in enumerate(spec["rev"]):
            rs = [a.result[k] for a in actors]
            what = "reveal %d (%s to %s)" % (k, r["how"], "all" if r["dst"] is None else "party %d" % r["dst"])
            n += 1
            for key in ("size", "scale"):
                if len({x[key] for x in rs}) != 1:
                    out.append(viol("agree", "%s: the parties disagree on the %s: %s" % (what, key, [x[key] for x in rs])))
            f0 = rs[0]["full"]
            for p, x in enumerate(rs):
                if not same(f0, x["full"]):
                    out.append(viol("agree", "%s: party 0 and party %d decrypt different values" % (what, p)))
                if not x["same"]:
                    out.append(viol("share", "%s: decryption changed party %d's share" % (what, p)))
                for v in x["v"]:
                    if r["dst"] is None or r["dst"] == p:
                        if v is None or not same(v, f0):
                            out.append(viol("dst", "%s: party %d got %s instead of the value all parties decrypt" % (what, p, brief(v))))
                    elif v is not None and v.numel() > 0 and f0.numel() > 0 and same(v, f0):
                        out.append(viol("secret", "%s: party %d also obtained the value" % (what, p)))
                    elif v is not None and v.numel() > 0:
                        out.append(viol("secret", "%s: party %d, not the destination, got %s" % (what, p, brief(v))))
            tot = rs[0]["share"].clone()
            for x in rs[1:]:
                tot = tot ^ x["share"] if x["xor"] else tot + x["share"]
            if r["how"] in ("reveal", "batch", "binary") and not same(tot, f0):
                out.append(viol("share", "%s: the shares do not add up to the revealed value" % what))
            if r["dst"] is not None:
                for m in w.net.wire:
                    if m.tag == ("reveal", k) and m.tensor.numel() and any(d != r["dst"] for d in m.dsts):
                        out.append(viol("secret", "%s: party %d sends its share to party %s" % (what, m.src, [d for d in m.dsts if d != r["dst"]])))
                        break
            if out:
                break
    return {"viol": out[:1], "obs": [[x["full"].tolist() for x in a.result] for a in actors] if not out else None,
            "stats": {"evaluations": n * spec["n"], "reveals": ["%s/%s" % (r["how"], "all" if r["dst"] is None else "dst") for r in spec["rev"]],
                      "topology": ["%d/%s/%s" % (spec["n"], spec["provider"], spec["protocol"])]}}


def same(a, b):
    return a is not None and b is not None and tuple(a.shape) == tuple(b.shape) and torch.equal(a, b)


def brief(v):
    return "nothing" if v is None else str(v.reshape(-1).tolist()[:4])


def shrink(spec):
    for j in reversed(range(len(spec["rev"]))):
        if len(spec["rev"]) > 1:
            yield dict(spec, rev=spec["rev"][:j] + spec["rev"][j + 1:])
    for k in reversed(range(len(spec["ops"]))):
        yield prog.drop_op(spec, k)
    if spec["provider"] == "TTP":
        yield dict(spec, provider="TFP")

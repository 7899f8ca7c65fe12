"""C12: what was saved is what is loaded; loading from one party reveals nothing to the others."""
import struct

import torch

from .. import faults, harness
from ..runner import viol
from .common import configure, drop_list, gen_topology, ttp_main

PID = "C12"
IMAGES = 8
LEVEL = "fault_enumeration"
COUNT = {"quick": 420, "thorough": 30000}
KINDS = ["arith", "arith", "product", "binary", "prec", "cmp", "dict", "model", "model"]


class Net(torch.nn.Module):
    def __init__(self, bn=True):
        super().__init__()
        self.fc1 = torch.nn.Linear(4, 3)
        self.bn = torch.nn.BatchNorm1d(3) if bn else torch.nn.ReLU()
        self.fc2 = torch.nn.Linear(3, 2)

    def forward(self, x):
        return self.fc2(self.bn(self.fc1(x)))


def gen(rng, tier, i):
    topo = gen_topology(rng, max_n=3, single=False)
    n = topo["n"]
    if rng.random() < 0.4:
        steps = []
        for _ in range(rng.choice([1, 2, 3])):
            steps.append({"what": rng.choice(["tensor", "tensor", "model", "bad"]), "src": rng.randrange(n), "pre": rng.random() < 0.3,
                          "closure": rng.random() < 0.3, "bn": rng.random() < 0.6, "frozen": rng.randrange(2), "key": rng.randrange(1 << 30), "int": rng.random() < 0.2})
        return dict(topo, mode="party", steps=steps, faults=faults.gen_timing(rng, n))
    steps = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        steps.append({"kind": rng.choice(KINDS), "path": rng.choice(["a", "b", "c"]), "src": rng.randrange(n), "key": rng.randrange(1 << 30),
                      "closure": rng.random() < 0.25, "reload": rng.random() < 0.3})
    end = rng.choice(["clean", "crash", "crash", "blackout", "blackout", "full", "same"])
    return dict(topo, mode="shares", steps=steps, end=end, victim=rng.randrange(n), frac=rng.random(),
                faults=faults.gen_timing(rng, n, rng.choice([0, 1, 3])))


def shrink(spec):
    if spec["faults"]:
        yield dict(spec, faults=[])
    yield from drop_list(spec, "steps")


def close(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a.size() == b.size() and bool(((a.double() - b.double()).abs() <= 0.02).all())


def build(crypten, d, rank):
    """(object to save, its plaintext as a list of tensors)"""
    g = torch.Generator().manual_seed(d["key"])
    x = (torch.rand(5, generator=g) * 20 - 10).float()
    src = d["src"]
    k = d["kind"]
    if k == "binary":
        v = torch.randint(-(1 << 40), 1 << 40, (5,), generator=g)
        return crypten.cryptensor(v, src=src, ptype=crypten.mpc.binary), [v]
    if k == "prec":
        v = torch.randint(-1000, 1000, (5,), generator=g)
        return crypten.cryptensor(v, src=src, precision=0), [v]
    e = crypten.cryptensor(x, src=src)
    if k == "product":
        y = torch.rand(5, generator=g)
        return e * crypten.cryptensor(y, src=0), [x * y]
    if k == "cmp":
        return e > 0, [(x > 0).float()]
    if k == "dict":
        return {"u": e, "v": e + 1, "n": 3}, [x, x + 1]
    if k == "model":
        torch.manual_seed(d["key"])
        nn = crypten.nn
        m = nn.Sequential(nn.Linear(4, 3), nn.ReLU(), nn.Linear(3, 2))
        plain = [p.clone() for p in m.parameters()]
        m.encrypt(src=src)
        # every party built the same initial weights from the public seed
        return m, plain
    return e, [x]


def reveal(crypten, obj):
    if isinstance(obj, dict):
        return [obj["u"].get_plain_text(), obj["v"].get_plain_text()]
    if isinstance(obj, crypten.nn.Module):
        return [p.get_plain_text() for p in obj.parameters()]
    out = obj.get_plain_text()
    return [out]


def use(crypten, obj, kind):
    """The loaded object must be usable in further computation."""
    if kind in ("arith", "product"):
        return [((obj * 2) + obj * obj).get_plain_text()]
    if kind == "cmp":
        return [(obj * 3.5).get_plain_text()]
    if kind == "model":
        x = crypten.cryptensor(torch.ones(2, 4), src=0)
        return [obj(x).get_plain_text()]
    return []


def expect_use(plain, kind):
    if kind in ("arith", "product"):
        return [plain[0] * 2 + plain[0] * plain[0]]
    if kind == "cmp":
        return [plain[0] * 3.5]
    if kind == "model":
        h = torch.relu(torch.ones(2, 4) @ plain[0].t() + plain[1])
        return [h @ plain[2].t() + plain[3]]
    return []


def s_closure(obj, f, extra=None):
    torch.save({"wrapped": obj, "extra": extra}, f)


def l_closure(f, extra=None):
    d = torch.load(f)
    assert d["extra"] == extra
    return d["wrapped"]


def run_shares(spec, ctl):
    n = spec["n"]
    bad = []
    stats = {"evaluations": 0, "loads": 0, "end": [spec["end"]]}
    base = None
    if spec["end"] in ("crash", "blackout"):
        # how long the undisturbed run is, to aim the crash
        w0, _, _ = first(spec, ctl, None, calm=True)
        if w0.errors() or w0.sim.deadlock:
            return {"viol": [viol("baseline", str(w0.errors() or w0.sim.deadlock)[:1500])], "stats": stats}
        base = w0.sim.steps
        del ctl.worlds[:]
    w, log, plains = first(spec, ctl, base)
    full = spec["end"] == "full"
    if spec["end"] in ("clean", "same"):
        for aid, tb in w.errors().items():
            bad.append(viol("exception", "party %d: %s" % (aid, tb[-800:])))
        if w.sim.deadlock:
            bad.append(viol("deadlock", str(w.sim.deadlock)))
    elif w.sim.deadlock:
        bad.append(viol("hang", "after a failed save or crash, parties wait forever: %s" % w.sim.deadlock))
    bad += log["bad"]
    if bad:
        stats["evaluations"] = stats["loads"]
    return {"viol": bad[:1], "stats": stats}
    # a save that returned anywhere is complete everywhere
    done = sorted({j for (r, j) in log["returned"]})
    begun = sorted({j for (r, j) in log["begun"]})
    durable = {}
    for j in begun:
        p = spec["steps"][j]["path"]
        durable.pop(p, None)
        if j in done:
            durable[p] = j
    if full and log["failed"]:
        j = log["failed"][0]
        if any(jj == j for (_, jj) in log["returned"]):
            bad.append(viol("silent", "crypten.save returned normally although party %d could not write its share (disk full)" % spec["victim"]))
    if spec["end"] == "same" or bad:
        return {"viol": bad, "stats": stats}
    files = w.sim.disk.files
    w2 = ctl.world(max_steps=1_000_000)
    w2.sim.disk.files = files
    w2.sim.fault("restart")
    got = {}

    def main(crypten, rank):
        configure(crypten, spec)
        crypten.init()
        for p, j in sorted(durable.items()):
            d = spec["steps"][j]
            obj = load(crypten, d)
            got[(rank, p)] = [reveal(crypten, obj), use(crypten, obj, d["kind"])]
        crypten.uninit()
        return True

    for r in range(n):
        w2.party(r, n, main, rdv="sim://second", image=harness.IMAGES[n + 1 + r])
    if spec["provider"] == "TTP":
        w2.party(n, n, ttp_main(spec), rdv="sim://second", image=harness.IMAGES[2 * n + 1])
    w2.run()
    for aid, tb in w2.errors().items():
        bad.append(viol("load", "after a restart, party %d cannot load what crypten.save had reported as saved: %s" % (aid, tb.strip().splitlines()[-1])))
    if w2.sim.deadlock:
        bad.append(viol("deadlock", str(w2.sim.deadlock)))
    for p, j in sorted(durable.items()):
        for r in range(n):
            if (r, p) in got and not bad:
                stats["loads"] += 1
                plain, kind = plains[j], spec["steps"][j]["kind"]
                a, b = got[(r, p)]
                if not close(a, plain):
                    bad.append(viol("value", "after a restart, party %d decrypts %s from file %s, saved was %s (%s)" % (r, a, p, plain, kind), soft=True))
                elif not all(x.size() == y.size() and bool(((x - y).abs() <= 0.05 + 0.001 * y.abs()).all()) for x, y in zip(b, expect_use(plain, kind))):
                    bad.append(viol("use", "after a restart, computing with the loaded %s gives %s, expected %s" % (kind, b, expect_use(plain, kind)), soft=True))
    stats["evaluations"] = stats["loads"]
    return {"viol": bad[:1], "stats": stats, "obs": [sorted(durable.items()), done]}


def load(crypten, d):
    if d["closure"]:
        return crypten.load(d["path"], load_closure=l_closure, extra=d["key"])
    return crypten.load(d["path"])


def first(spec, ctl, base, calm=False):
    n = spec["n"]
    w = ctl.world(max_steps=1_000_000, **({"policy": "block", "delay": "none"} if calm else {}))
    log = {"begun": [], "returned": [], "failed": [], "bad": []}
    plains = {}

    def main(crypten, rank):
        configure(crypten, spec)
        crypten.init()
        for j, d in enumerate(spec["steps"]):
            obj, plain = build(crypten, d, rank)
            plains[j] = plain
            log["begun"].append((rank, j))
            if d["closure"]:
                crypten.save(obj, d["path"], save_closure=s_closure, extra=d["key"])
            else:
                crypten.save(obj, d["path"])
            log["returned"].append((rank, j))
            if len({r for (r, jj) in log["begun"] if jj == j}) < n:
                log["bad"].append(viol("early", "crypten.save returned at party %d before all parties had begun to save" % rank))
            later = any(jj > j and spec["steps"][jj]["path"] == d["path"] for (_, jj) in log["begun"])
            for r in range(n):
                if not later and not w.sim.disk.files.get((r, d["path"])):
                    log["bad"].append(viol("early", "crypten.save returned at party %d before party %d's share was on its disk" % (rank, r)))
            if d["reload"] or spec["end"] == "same":
                out = reveal(crypten, load(crypten, d))
                if not close(out, plain):
                    log["bad"].append(viol("value", "party %d loads %s, saved was %s" % (rank, out, plain), soft=True))
        crypten.uninit()
        return True

    for r in range(n):
        w.party(r, n, main)
    if spec["provider"] == "TTP":
        w.party(n, n, ttp_main(spec))
    if not calm:
        faults.install(w, spec["faults"])
        if spec["end"] == "crash":
            faults.install(w, [{"at": max(1, int(spec["frac"] * base)), "k": "crash", "who": spec["victim"]}])
        elif spec["end"] == "blackout":
            at = max(1, int(spec["frac"] * base))
            faults.install(w, [{"at": at, "k": "crash", "who": r} for r in range(n + 1)])
        elif spec["end"] == "full":
            nth = int(spec["frac"] * len(spec["steps"]))
            cnt = [0]

            def plan(op, pid, path, data):
                if op == "write" and pid == spec["victim"]:
                    if cnt[0] == nth:
                        cnt[0] += 1
                        w.sim.fault("disk-full")
                        log["failed"].append(nth)
                        w.sim.disk.files[(pid, path)] = data[: len(data) // 3]
                        raise OSError(28, "No space left on device")
                    cnt[0] += 1
                return data

            w.sim.disk.plan = plan
    w.run()
    return w, log, plains


# -- objects owned by one party ------------------------------------------------------------
def run_party(spec, ctl):
    n = spec["n"]
    bad = []
    stats = {"evaluations": 0, "loads": 0}
    w = ctl.world(keep_wire=True, max_steps=1_000_000)
    disk = w.sim.disk
    secrets = []

    def make(d):
        g = torch.Generator().manual_seed(d["key"])
        if d["what"] == "model":
            with torch.random.fork_rng():
                torch.manual_seed(d["key"])
                m = Net(d["bn"])
                if d["bn"]:
                    m.bn.running_mean.uniform_(-2, 2)
                    m.bn.running_var.uniform_(0.5, 2)
                m.eval()
                for j, q in enumerate(m.parameters()):
                    q.requires_grad = not (d["key"] >> j) & d.get("frozen", 0)
            return m
        if d["what"] == "bad":
            return {"not": "a tensor"}
        if d["int"]:
            return torch.randint(-100, 100, (6,), generator=g)
        return torch.rand(6, generator=g) * 20 - 10

    def main(crypten, rank):
        me = w.sim.me()
        configure(crypten, spec)
        crypten.init()
        for j, d in enumerate(spec["steps"]):
            obj = make(d)
            src = d["src"]
            path = "file%d" % j
            kw = {}
            if not d["pre"]:
                if d["closure"]:
                    crypten.save_from_party(obj if rank == src else None, path, src=src, save_closure=s_closure, extra=7)
                    kw = {"load_closure": l_closure, "extra": 7}
                else:
                    crypten.save_from_party(obj if rank == src else torch.zeros(1), path, src=src)
                for r in range(n):
                    have = bool(disk.files.get((r, path)))
                    if r == src and not have:
                        bad.append(viol("early", "save_from_party returned at party %d before the file of party %d was written" % (rank, src)))
                    if r != src and have:
                        bad.append(viol("spread", "save_from_party(src=%d) wrote a file at party %d" % (src, r)))
                kw["f"] = path
            elif rank == src:
                kw["preloaded"] = obj
            me.tag = "load"
            try:
                res = crypten.load_from_party(src=src, model_class=Net if d["what"] == "model" else None, **kw)
                if d["what"] == "bad":
                    bad.append(viol("type", "party %d: loading a %s from a party did not fail" % (rank, type(obj))))
                    break
            except TypeError:
                if d["what"] != "bad":
                    raise
                me.tag = None
                crypten.communicator.get().barrier()
                continue
            if d["what"] == "tensor":
                me.tag = "out"
                if res.src != src:
                    bad.append(viol("src", "loaded tensor has src %s, not %d" % (res.src, src)))
                out = res.get_plain_text()
                stats["loads"] += 1
                if not close(out, obj):
                    bad.append(viol("value", "party %d decrypts %s, party %d had saved %s" % (rank, out, src, obj), soft=True))
            else:
                if rank == src:
                    same = all(torch.equal(a, b) for a, b in zip(res.state_dict().values(), obj.state_dict().values()))
                    if not same:
                        bad.append(viol("model", "the loading party's model differs from the saved one"))
                else:
                    mine, own = res.state_dict(), obj.state_dict()
                    if {k: v.size() for k, v in mine.items()} != {k: v.size() for k, v in own.items()}:
                        bad.append(viol("structure", "party %d obtained a model of another structure than party %d's" % (rank, src)))
                    elif any(bool(((mine[k] == own[k]) & (own[k] != 0) & (own[k] != 1)).any()) for k in own):
                        bad.append(viol("leak", "party %d obtained parameters or buffers of party %d's model" % (rank, src)))
                stats["loads"] += 1
                if d["key"] % 3 == 0:
                    model = crypten.nn.from_pytorch(res, torch.empty(1, 4))
                    model.encrypt(src=src)
                    model.eval()
                    x = torch.rand(2, 4, generator=torch.Generator().manual_seed(d["key"]))
                    y = model(crypten.cryptensor(x, src=0))
                    me.tag = "out"
                    y = y.get_plain_text()
                    ref = obj(x)
                    if not bool(((y - ref).abs() <= 0.05 + 0.02 * ref.abs()).all()):
                        bad.append(viol("inference", "the loaded model computes %s, the saved one %s" % (y.tolist(), ref.tolist()), soft=True))
            me.tag = None
        crypten.uninit()
        return True

    for r in range(n):
        w.party(r, n, main)
    if spec["provider"] == "TTP":
        w.party(n, n, ttp_main(spec))
    faults.install(w, spec["faults"])
    w.run()
    for aid, tb in w.errors().items():
        bad.append(viol("exception", "party %d: %s" % (aid, tb[-900:])))
    if w.sim.deadlock:
        bad.append(viol("deadlock", str(w.sim.deadlock)))
    # no value of the owner's tensor, weights or buffers is on the wire
    pats, words = {}, {}
    for d in spec["steps"]:
        obj = make(d)
        vals = []
        if d["what"] == "tensor" and not d["int"]:
            vals = obj.reshape(-1).tolist()
        elif d["what"] == "model":
            for t in obj.state_dict().values():
                if t.dtype == torch.float32:
                    vals += [v for v in t.reshape(-1).tolist() if v not in (0.0, 1.0)]
        for v in vals:
            pats[struct.pack("<f", v)] = v
            if abs(v) > 0.1:
                words[int(v * 65536)] = v
    if not bad:
        for m in w.net.wire:
            if m.tag != "load" or not m.tensor.numel():
                continue
            if m.tensor.dtype == torch.int64:
                # shares: a chance match of a whole word is out of the question
                for x in m.tensor.reshape(-1).tolist():
                    if x in words:
                        bad.append(viol("leak", "while loading, party %d sent the encoding of the value %s in clear" % (m.src, words[x])))
                        break
                continue
            raw = m.tensor.contiguous().reshape(-1).view(torch.uint8).numpy().tobytes()
            for p, v in pats.items():
                if p in raw:
                    bad.append(viol("leak", "while loading, party %d sent the plaintext value %s in clear" % (m.src, v)))
                    break
            if bad:
                break
    stats["evaluations"] = stats["loads"]
    return {"viol": bad[:1], "stats": stats}


def run(spec, ctl):
    return run_party(spec, ctl) if spec["mode"] == "party" else run_shares(spec, ctl)


REAL = ["crypten.save / load / save_from_party / load_from_party", "pickling of encrypted tensors and models", "restricted deserialisation", "MPC"]
STUB = ["the disk behind torch.save / torch.load: one per party, in memory, with torn writes on crashes and full-disk errors", "transport"]
ASSUME = ["a file is durable once the write call has returned (no lost page cache); only files of completed saves are claimed"]

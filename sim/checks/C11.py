"""C11: an object received from another party never runs code of that party's choosing."""
import collections
import io
import pickle
import pickletools  # noqa: F401
import random

import torch

from .. import faults
from ..runner import viol
from .common import settle

PID = "C11"
IMAGES = 6
LEVEL = "fault_enumeration"
COUNT = {"quick": 1500, "thorough": 60000}

HITS = []
MOD = __name__

# globals that no received object may refer to; harmless when merely referenced
BAD = [
    ("os", "system"), ("posix", "system"), ("os", "popen"), ("os", "execv"), ("os", "fork"), ("nt", "system"), ("subprocess", "Popen"),
    ("subprocess", "check_output"), ("subprocess", "run"), ("builtins", "eval"), ("builtins", "exec"), ("builtins", "compile"),
    ("builtins", "open"), ("builtins", "getattr"), ("builtins", "setattr"), ("builtins", "__import__"), ("builtins", "globals"),
    ("__builtin__", "eval"), ("__builtin__", "exec"), ("importlib", "import_module"), ("sys", "exit"), ("sys", "modules"), ("shutil", "rmtree"),
    ("pickle", "loads"), ("_pickle", "loads"), ("pickle", "Unpickler"), ("marshal", "loads"), ("types", "FunctionType"), ("types", "CodeType"),
    ("operator", "attrgetter"), ("operator", "methodcaller"), ("functools", "partial"), ("functools", "reduce"), ("runpy", "run_path"),
    ("ctypes", "CDLL"), ("socket", "socket"), ("threading", "Thread"), ("io", "FileIO"), ("code", "interact"), ("pdb", "run"),
    ("torch", "load"), ("torch", "save"), ("torch.serialization", "load"), ("torch.storage", "_load_from_file"), ("torch.hub", "load"),
    ("torch.hub", "_import_module"), ("torch.jit", "load"), ("torch.utils.cpp_extension", "load"), ("torch._utils", "_rebuild_wrapper_subclass"),
    ("torch.nn.modules.module", "register_module_forward_hook"), ("torch.multiprocessing", "spawn"), ("torch._utils", "_import_dotted_name"),
    ("torch", "os.system"), ("torch.serialization", "os.system"), ("torch.nn.modules.linear", "math.sqrt"), ("collections", "sys.modules"),
    ("torch.Size", "__reduce__"), ("torch.nn.modules.linear.Linear", "forward"), ("collections.OrderedDict", "__class__"),
    ("numpy", "load"), ("numpy.core.multiarray", "_reconstruct"), ("crypten", "load"), ("crypten.mpc", "run_multiprocess"),
    ("crypten.common.serial", "register_safe_class"), ("crypten.common.serial", "builtins.eval"), ("crypten.common.serial", "pickle.loads"),
    ("collections", "namedtuple"), ("collections", "OrderedDict.fromkeys"), ("builtins", "set.__init__"), ("builtins", "map"),
    (MOD, "boom"), (MOD, "Canary"), (MOD, "KnownModelX"), (MOD, "KnownModel.forward"), (MOD, "KnownModel.__init__"), (MOD, "Know"),
    (MOD, "sub.KnownModel"), ("__main__", "KnownModel"),
]


def boom(*a):
    HITS.append(str(a))
    return 1


class Canary:
    def __init__(self, *a):
        HITS.append("Canary")

    def __setstate__(self, s):
        HITS.append("Canary.__setstate__")


class KnownModel(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.fc = torch.nn.Linear(2, 3)

    def forward(self, x):
        return self.fc(x)


class KnownModelX(KnownModel):
    pass


class Raw:
    """An object whose pickle is exactly the given bytes."""

    def __init__(self, raw):
        self.raw = raw

    def __reduce__(self):
        return (boom, ("fallback",))


_dumps = pickle.dumps


def _shim(obj, *a, **kw):
    if type(obj) is Raw:
        return obj.raw
    return _dumps(obj, *a, **kw)


def setup():
    pickle.dumps = _shim


# -- payloads ----------------------------------------------------------------------
def p_str(s):
    b = s.encode()
    return b"X" + len(b).to_bytes(4, "little") + b


def p_global(mod, name, how):
    if how == "c" or how == "i":
        return b"c" + mod.encode() + b"\n" + name.encode() + b"\n"
    return p_str(mod) + p_str(name) + b"\x93"


def gadget(mod, name, how, call):
    if how == "i" and call:
        return b"(" + p_str("x") + b"i" + mod.encode() + b"\n" + name.encode() + b"\n"
    g = p_global(mod, name, how)
    if not call:
        return g
    return {"R": g + b"(" + p_str("x") + b"tR", "o": b"(" + g + p_str("x") + b"o", "new": g + b")\x81",
            "build": g + b")\x81}(" + p_str("a") + b"K\x01ub"}.get(call, g + b")R")


def wrapped(body, wrap):
    return {
        "plain": body,
        "list": b"]" + body + b"a",
        "tuple": b"(K\x01" + body + b"t",
        "dictval": b"}" + p_str("k") + body + b"s",
        "odict": b"ccollections\nOrderedDict\n)R" + p_str("k") + body + b"s",
        "discard": body + b"0K\x07",  # pops the result: only the side effect remains
        "memo": body + b"q\x000" + b"]h\x00a",
        "state": b"ctorch.nn.modules.linear\nLinear\n)\x81}(" + p_str("_backward_hooks") + body + b"ub",
        "hook": b"ctorch._utils\n_rebuild_parameter\n(" + body + b"\x89ccollections\nOrderedDict\n)RtR",
    }[wrap]


def legacy_stream(rng, evil, where):
    """A torch legacy file with a hostile pickle in one of its slots."""
    buf = io.BytesIO()
    torch.save(torch.arange(4.0), buf, _use_new_zipfile_serialization=False)
    data = buf.getvalue()
    bounds, pos = [0], 0
    f = io.BytesIO(data)
    for _ in range(3):
        pickle.load(f)
        bounds.append(f.tell())
    pieces = [data[bounds[i]:bounds[i + 1]] for i in range(3)] + [data[bounds[3]:]]
    pieces[where] = b"\x80\x02" + evil + b"." + (pieces[where] if where == 3 and rng.random() < 0.5 else b"")
    return b"".join(pieces)


def nested(rng, evil):
    raw = legacy_stream(rng, evil, rng.randrange(4))
    return b"ctorch.storage\n_load_from_bytes\n(" + b"B" + len(raw).to_bytes(4, "little") + raw + b"tR"


def hostile(d):
    r = random.Random(d["seed"])
    how, call = d["how"], d["call"]
    if d.get("hooks"):
        return hooked(d)
    if d["deep"]:
        # only an executed canary can be noticed inside a storage stream
        body = nested(r, gadget(MOD, r.choice(["boom", "Canary"]), how, call or "R"))
    else:
        body = gadget(d["mod"], d["name"], how, call)
    return b"\x80\x04" + wrapped(body, d["wrap"]) + b"."


class _Red:
    def __init__(self, fn, args):
        self.x = (fn, args)

    def __reduce__(self):
        return self.x


def hooked(d):
    """Allowlisted objects only, but with a hook that would run later."""
    r = random.Random(d["seed"])
    hooks = collections.OrderedDict([(r.randrange(5), torch.nn.ReLU())])
    k = r.choice(["tensor", "param", "module", "submodule", "inner param"])
    t = torch.arange(6.0)
    if k == "tensor":
        return _dumps(_Red(torch._utils._rebuild_tensor_v2, (t.storage(), 0, (2, 3), (3, 1), True, hooks)))
    if k == "param":
        return _dumps(_Red(torch._utils._rebuild_parameter, (t, True, hooks)))
    m = torch.nn.Linear(2, 2)
    if k == "module":
        m._backward_hooks = hooks
    elif k == "submodule":
        c = torch.nn.ReLU()
        c._backward_hooks = hooks
        m._modules["c"] = c
    else:
        m._parameters["w"] = None
        m.__dict__["_parameters"] = collections.OrderedDict(m._parameters)
        m.__dict__["_parameters"]["w"] = _Red(torch._utils._rebuild_parameter, (t, True, hooks))
    return _dumps(m)


# -- friendly objects ------------------------------------------------------------------
DT = [torch.float32, torch.float64, torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8, torch.bool, torch.float16, torch.bfloat16]
NN = [lambda: torch.nn.Linear(3, 2), lambda: torch.nn.Conv1d(1, 2, 3), lambda: torch.nn.Conv2d(1, 2, 3), lambda: torch.nn.ReLU(),
      lambda: torch.nn.BatchNorm1d(3), lambda: torch.nn.BatchNorm2d(2), lambda: torch.nn.Softmax(dim=1), lambda: torch.nn.Flatten(),
      lambda: torch.nn.MaxPool2d(2), lambda: torch.nn.AvgPool2d(2), lambda: torch.nn.MSELoss(), lambda: torch.nn.Sigmoid(),
      lambda: torch.nn.LogSoftmax(dim=0), lambda: torch.nn.ConvTranspose2d(1, 1, 2), lambda: torch.nn.Dropout2d(0.5), lambda: torch.nn.BCELoss(),
      lambda: torch.nn.CrossEntropyLoss()]


def friendly(d):
    r = random.Random(d["seed"])
    g = torch.Generator().manual_seed(d["seed"])
    k = d["kind"]
    shape = r.choice([[], [3], [2, 0], [2, 3], [1, 2, 2]])
    if k == "tensor":
        t = (torch.rand(shape, generator=g) * 100 - 50)
        dt = r.choice(DT)
        t = t > 0 if dt == torch.bool else t.to(dt)
        return t.t() if t.dim() == 2 and r.random() < 0.3 else t
    if k == "param":
        return torch.nn.Parameter(torch.rand(shape, generator=g))
    if k == "state":
        with torch.random.fork_rng():
            torch.manual_seed(d["seed"])
            return r.choice(NN)().state_dict()
    if k == "module":
        with torch.random.fork_rng():
            torch.manual_seed(d["seed"])
            return r.choice(NN)()
    if k == "known":
        with torch.random.fork_rng():
            torch.manual_seed(d["seed"])
            return KnownModel()
    return r.choice([lambda: {"a": {1, 2, r.random()}, "b": [None, True, -r.getrandbits(80)]}, lambda: torch.Size([1, 2]),
                     lambda: collections.OrderedDict([("z", (1,)), ("a", "é" * r.randrange(70000))]), lambda: b"\x80\x04." * r.randrange(50),
                     lambda: [torch.arange(3), {"x": torch.ones(2)}]])()


def equal(x, y):
    if torch.is_tensor(x):
        return torch.is_tensor(y) and type(x) is type(y) and x.dtype == y.dtype and x.size() == y.size() and bool(torch.equal(x, y)) \
            and x.requires_grad == y.requires_grad
    if isinstance(x, torch.nn.Module):
        return type(x) is type(y) and equal(dict(x.state_dict()), dict(y.state_dict())) and repr(x) == repr(y)
    if isinstance(x, dict):
        return type(x) is type(y) and list(x) == list(y) and all(equal(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(equal(a, b) for a, b in zip(x, y))
    return type(x) is type(y) and x == y


def gen(rng, tier, i):
    n = rng.choice([2, 2, 3, 4])
    msgs = []
    for _ in range(rng.choice([1, 2, 4])):
        a = rng.randrange(n)
        path = rng.choice(["p2p", "bcast", "load", "ttp"])
        d = {"a": a, "b": (a + 1 + rng.randrange(n - 1)) % n, "path": path, "seed": rng.randrange(1 << 30)}
        if rng.random() < 0.65:
            m = rng.choice(BAD)
            d.update(evil=True, mod=m[0], name=m[1], how=rng.choice(["c", "c", "s", "s", "i"]), deep=rng.random() < 0.25,
                     call=rng.choice(["", "", "", "R", "o", "new", "build"]),
                     wrap=rng.choice(["plain", "plain", "list", "tuple", "dictval", "odict", "discard", "memo", "state", "hook"]))
            d["hooks"] = rng.random() < 0.12
            if m[0] != MOD:
                d["call"] = ""  # never invoke a real system function, only refer to it
        else:
            d.update(evil=False, kind=rng.choice(["tensor", "tensor", "param", "state", "module", "misc", "known"]))
            if d["kind"] == "known":
                d["reg"] = rng.random() < 0.6
        msgs.append(d)
    return {"n": n, "msgs": msgs, "faults": faults.gen_timing(rng, n)}


def shrink(spec):
    if spec["faults"]:
        yield dict(spec, faults=[])
    if len(spec["msgs"]) > 1:
        for j in range(len(spec["msgs"])):
            yield dict(spec, msgs=spec["msgs"][:j] + spec["msgs"][j + 1:])
    for j, d in enumerate(spec["msgs"]):
        if d["evil"] and d["wrap"] != "plain":
            yield dict(spec, msgs=spec["msgs"][:j] + [dict(d, wrap="plain")] + spec["msgs"][j + 1:])


def run(spec, ctl):
    n = spec["n"]
    w = ctl.world()
    bad = []
    seen = {"refused": 0, "accepted": 0}
    del HITS[:]
    ttp = any(d["path"] == "ttp" for d in spec["msgs"])

    def judge(d, who, got, exc):
        if HITS:
            bad.append(viol("executed", "party %s: receiving a hostile object ran code of the sender: %s (%s)" % (who, HITS[0], what(d))))
            del HITS[:]
            return
        if d["evil"]:
            if exc is None:
                bad.append(viol("accepted", "party %s accepted an object that refers to %s: %s" % (who, what(d), str(got)[:150])))
            else:
                seen["refused"] += 1
        elif d.get("kind") == "known" and not d["reg"] and not registered.get(who):
            if exc is None:
                bad.append(viol("unregistered", "party %s accepted an instance of a class it never registered" % who))
        elif exc is not None:
            bad.append(viol("refused", "party %s refused a legitimate %s: %r" % (who, d.get("kind"), exc)))
        elif not equal(friendly(d), got):
            bad.append(viol("changed", "party %s received a different %s: %s" % (who, d.get("kind"), str(got)[:200])))
        else:
            seen["accepted"] += 1

    def what(d):
        if d.get("hooks"):
            return "a backward hook"
        return "%s.%s" % (d["mod"], d["name"]) if d["evil"] and not d["deep"] else str({k: v for k, v in d.items() if k != "seed"})

    registered = {}

    def main(crypten, rank):
        serial = crypten.common.serial
        if ttp:
            crypten.cfg.mpc.provider = "TTP"
        crypten.init()
        comm = crypten.communicator.get()
        for d in spec["msgs"]:
            obj = None
            if rank == d["a"]:
                obj = Raw(hostile(d)) if d["evil"] else friendly(d)
            reg = not d["evil"] and d.get("reg")
            path = d["path"]
            if path == "ttp" and (not d["evil"] or n < 1):
                path = "bcast"
            got = exc = None
            if reg and path != "load":
                serial.register_safe_class(KnownModel)
                registered[rank] = True
            elif reg:
                registered[rank] = True
            try:
                if path == "p2p":
                    if rank == d["a"]:
                        comm.send_obj(obj, d["b"])
                    elif rank == d["b"]:
                        got = comm.recv_obj(d["a"])
                elif path == "bcast":
                    got = comm.broadcast_obj(obj, d["a"])
                elif path == "load":
                    # the sender broadcasts the hostile object; receivers call the public API
                    if rank == d["a"]:
                        comm.broadcast_obj(obj, d["a"])
                    elif not d["evil"]:
                        if reg:
                            serial.register_safe_class(KnownModel)
                        got = comm.broadcast_obj(None, d["a"])
                    else:
                        got = crypten.load_from_party(f="x", src=d["a"], model_class=KnownModel)
                elif path == "ttp":
                    # receive over the group shared with the third party
                    if rank == d["a"]:
                        comm.send_obj(obj, d["b"], comm.ttp_group)
                    elif rank == d["b"]:
                        got = comm.recv_obj(d["a"], comm.ttp_group)
            except Exception as e:
                exc = e
            if path == "load" and d["evil"] and rank != d["a"]:
                registered[rank] = True
            receiver = rank != d["a"] and (path in ("bcast", "load") or rank == d["b"])
            if receiver:
                judge(d, rank, got, exc)
            elif exc is not None:
                raise exc
            comm.barrier()
        crypten.uninit()
        return True

    for r in range(n):
        w.party(r, n, main)
    if ttp:
        def srv(crypten, rank):
            crypten.cfg.mpc.provider = "TTP"
            crypten.mpc.provider.TTPServer()
            return True

        w.party(n, n, srv)
    faults.install(w, spec["faults"])
    w.run()
    w.sim.faults["hostile-message"] = sum(1 for d in spec["msgs"] if d["evil"])
    bad += settle(w)
    if HITS:
        bad.append(viol("executed", "receiving an object ran code of the sender: %s" % HITS[0]))
    return {"viol": bad, "stats": seen}


REAL = ["crypten.common.serial", "send_obj / recv_obj / broadcast_obj", "load_from_party", "pickle and torch legacy deserialisation"]
STUB = ["transport; the hostile sender's pickler (hand-written opcode streams)"]
ASSUME = ["the attacker controls the bytes of an object message completely, but not the process of the receiver"]

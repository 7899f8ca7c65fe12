"""Seams: per-party process images and every source of nondeterminism.

A party is an operating system process in a real deployment.  Here each party
owns an *image*: its own import of the crypten package (own module globals,
class attributes and singletons), its own os.environ, torch / numpy / random
global generator state and torch.distributed world.  The scheduler swaps the
image in whenever it hands the token to the party.
"""
import builtins
import io
import logging
import os
import queue
import random
import sys
import threading
import time
import timeit
import warnings

import numpy as np
import torch
import torch.distributed.distributed_c10d as c10d

from . import net as simnet

PREFIX = "crypten"
REPO = os.environ.get("VERIF_REPO", "/repo")

SIM = None  # the Sim of the run in progress


def _is_img(name):
    return name == PREFIX or name.startswith(PREFIX + ".")


real = {
    "urandom": os.urandom,
    "time": time.time,
    "monotonic": time.monotonic,
    "perf_counter": time.perf_counter,
    "sleep": time.sleep,
    "save": torch.save,
    "load": torch.load,
    "print": builtins.print,
    "exists": os.path.exists,
    "remove": os.remove,
}


def _sim_on():
    return SIM is not None and SIM.in_sim()


# -- randomness ------------------------------------------------------------
def _urandom(n):
    if not _sim_on():
        return real["urandom"](n)
    proc = SIM.me().proc
    return proc.entropy.randbytes(n)


def _patch_rngs():
    """Module-level random / numpy.random functions: one generator per party."""
    for name in dir(random):
        f = getattr(random, name)
        if getattr(f, "__self__", None) is random._inst:

            def g(*a, _n=name, _f=f, **kw):
                if not _sim_on():
                    return _f(*a, **kw)
                return getattr(SIM.me().proc.pyrandom, _n)(*a, **kw)

            g.__name__ = name
            setattr(random, name, g)
    inst = np.random.mtrand._rand
    for name in dir(np.random):
        f = getattr(np.random, name)
        if getattr(f, "__self__", None) is inst:

            def h(*a, _n=name, _f=f, **kw):
                if not _sim_on():
                    return _f(*a, **kw)
                return getattr(SIM.me().proc.nprandom, _n)(*a, **kw)

            h.__name__ = name
            setattr(np.random, name, h)


# -- clock --------------------------------------------------------------------
def _now():
    if not _sim_on():
        return None
    # reading the clock takes time, so that two readings always differ
    SIM.clock += 1e-7
    return SIM.clock


def _mk_clock(name, base):
    rf = real[name]

    def f():
        t = _now()
        if t is None:
            return rf()
        # only the wall clock can be set; monotonic clocks never jump
        return base + t + (SIM.me().proc.clock_skew if name == "time" else 0.0)

    f.__name__ = name
    return f


def _sleep(dt):
    if not _sim_on():
        return real["sleep"](dt)
    SIM.sleep(max(0.0, dt))


# -- output ---------------------------------------------------------------------
def _print(*args, **kw):
    if not _sim_on() or kw.get("file") not in (None, sys.stdout, sys.stderr):
        return real["print"](*args, **kw)
    buf = io.StringIO()
    kw.pop("file", None)
    kw.pop("flush", None)
    real["print"](*args, file=buf, **kw)
    a = SIM.me()
    SIM.output.append((SIM.clock, a.aid, buf.getvalue()))
    SIM.step("print")


class _Handler(logging.Handler):
    def emit(self, record):
        if _sim_on():
            a = SIM.me()
            try:
                msg = record.getMessage()
            except Exception:
                msg = str(record.msg)
            a.proc.log.append((record.levelno, msg))
            SIM.logs.append((SIM.clock, a.aid, record.levelno, msg))


# -- simulated disk -----------------------------------------------------------------
class Disk:
    """torch.save / torch.load go through here: one disk per party.

    Contents live in memory as bytes; faults are decided by the run.
    """

    def __init__(self, sim):
        self.sim = sim
        self.files = {}  # (pid, path) -> bytes
        self.plan = None  # callable(op, pid, path, data) -> data or raises

    def save(self, obj, f, *a, **kw):
        if not isinstance(f, (str, os.PathLike)):
            return real["save"](obj, f, *a, **kw)
        pid = self.sim.me().proc.pid
        path = os.path.normpath(os.fspath(f))
        buf = io.BytesIO()
        real["save"](obj, buf, *a, **kw)
        data = buf.getvalue()
        self.sim.step("disk.write %s" % path)
        self.write(pid, path, data)

    def write(self, pid, path, data):
        self.sim.note("disk.write", pid, path, len(data))
        if self.plan is not None:
            data = self.plan("write", pid, path, data)
        # a write is not atomic: a crash leaves an empty or partial file
        self.files[(pid, path)] = b""
        self.sim.step("disk.open %s" % path)
        self.files[(pid, path)] = data[: len(data) // 2]
        self.sim.step("disk.partial %s" % path)
        self.files[(pid, path)] = data
        self.sim.step("disk.written %s" % path)

    def load(self, f, *a, **kw):
        if not isinstance(f, (str, os.PathLike)):
            return real["load"](f, *a, **kw)
        pid = self.sim.me().proc.pid
        path = os.path.normpath(os.fspath(f))
        self.sim.step("disk.read %s" % path)
        if (pid, path) not in self.files:
            raise FileNotFoundError(2, "No such file or directory", path)
        data = self.files[(pid, path)]
        if self.plan is not None:
            data = self.plan("read", pid, path, data)
        return real["load"](io.BytesIO(data), *a, **kw)


def _disk_key(path):
    try:
        return (SIM.me().proc.pid, os.path.normpath(os.fspath(path)))
    except TypeError:
        return None


def _exists(path):
    if _sim_on() and SIM.disk is not None and _disk_key(path) in SIM.disk.files:
        SIM.step("disk.exists")
        return _disk_key(path) in SIM.disk.files
    return real["exists"](path)


def _remove(path, **kw):
    if not _sim_on() or SIM.disk is None:
        return real["remove"](path, **kw)
    SIM.step("disk.remove")
    # nothing outside of the simulated disk is ever deleted
    if SIM.disk.files.pop(_disk_key(path), None) is None:
        raise FileNotFoundError(2, "No such file or directory", str(path))
    SIM.note("disk.remove", _disk_key(path))


def _save(obj, f, *a, **kw):
    if not _sim_on() or SIM.disk is None:
        return real["save"](obj, f, *a, **kw)
    return SIM.disk.save(obj, f, *a, **kw)


def _load(f, *a, **kw):
    if not _sim_on() or SIM.disk is None:
        return real["load"](f, *a, **kw)
    return SIM.disk.load(f, *a, **kw)


# -- threads of one process: locks, queues and barriers ---------------------------
_RealQueue = queue.Queue
_RealBarrier = threading.Barrier
_RealLock = threading.Lock


class SimQueue(_RealQueue):
    """A queue whose blocking operations are yield points of the simulator."""

    def put(self, item, block=True, timeout=None):
        if not _sim_on():
            return super().put(item, block, timeout)
        if block and self.maxsize > 0:
            _sim_wait(lambda: self._qsize() < self.maxsize, "queue.put", timeout)
        else:
            SIM.step("queue.put")
        SIM.note("put", SIM.me().aid, id_of(self))
        return super().put(item, False)

    def get(self, block=True, timeout=None):
        if not _sim_on():
            return super().get(block, timeout)
        if block:
            _sim_wait(lambda: self._qsize() > 0, "queue.get", timeout)
        else:
            SIM.step("queue.get")
        SIM.note("get", SIM.me().aid, id_of(self))
        return super().get(False)

    def empty(self):
        if _sim_on():
            SIM.step("queue.empty")
        return super().empty()

    def join(self):
        if not _sim_on():
            return super().join()
        _sim_wait(lambda: self.unfinished_tasks == 0, "queue.join", None)


def id_of(obj):
    """A number for an object that is the same in every execution of a run."""
    ids = SIM.__dict__.setdefault("_ids", {})
    return ids.setdefault(id(obj), len(ids))


def _sim_wait(pred, desc, timeout):
    if timeout is None:
        SIM.block(pred, desc)
        return True
    end = SIM.clock + timeout
    SIM.at(timeout, lambda: None)
    SIM.block(lambda: pred() or SIM.clock >= end, desc)
    return pred()


class SimBarrier(_RealBarrier):
    def __init__(self, parties, action=None, timeout=None):
        super().__init__(parties, action, timeout)
        self._sim_in = 0
        self._sim_gen = 0

    def wait(self, timeout=None):
        if not _sim_on():
            return super().wait(timeout)
        gen, idx = self._sim_gen, self._sim_in
        SIM.note("barrier", SIM.me().aid, idx)
        self._sim_in += 1
        if self._sim_in == self.parties:
            self._sim_in = 0
            self._sim_gen += 1
            if self._action:
                self._action()
            SIM.step("barrier last")
            return idx
        if not _sim_wait(lambda: self._sim_gen != gen, "barrier", timeout if timeout is not None else self._timeout):
            raise threading.BrokenBarrierError
        return idx


class SimLock:
    def __init__(self):
        self._real = _RealLock()

    def acquire(self, blocking=True, timeout=-1):
        if not _sim_on():
            return self._real.acquire(blocking, timeout)
        if blocking:
            _sim_wait(lambda: not self._real.locked(), "lock", None if timeout < 0 else timeout)
        return self._real.acquire(False)

    def release(self):
        self._real.release()
        if _sim_on():
            SIM.step("unlock")

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def install():
    """Patch the process-wide seams; inert outside of a simulated run."""
    _install_loader()
    simnet.install()
    _patch_rngs()
    os.urandom = _urandom
    random._urandom = _urandom
    time.time = _mk_clock("time", 1.7e9)
    time.monotonic = _mk_clock("monotonic", 1000.0)
    time.perf_counter = _mk_clock("perf_counter", 5000.0)
    timeit.default_timer = time.perf_counter
    time.sleep = _sleep
    torch.save = _save
    torch.load = _load
    torch.serialization.save = _save
    torch.serialization.load = _load
    builtins.print = _print
    os.path.exists = _exists
    isfile = os.path.isfile
    os.path.isfile = lambda p: _exists(p) if _sim_on() and SIM.disk is not None and _disk_key(p) in SIM.disk.files else isfile(p)
    os.remove = os.unlink = _remove
    queue.Queue = SimQueue
    threading.Barrier = SimBarrier
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(_Handler())
    root.setLevel(logging.INFO)
    warnings.simplefilter("ignore")
    torch.set_num_threads(1)


# -- loading: always from the source text, never from cached bytecode -----------
_code = {}


def _install_loader():
    import importlib.machinery as mach

    orig = mach.SourceFileLoader.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if not path.startswith(REPO + "/"):
            return orig(self, fullname)
        c = _code.get(path)
        if c is None:
            c = _code[path] = self.source_to_code(self.get_data(path), path)
        return c

    mach.SourceFileLoader.get_code = get_code


# -- images ---------------------------------------------------------------------------
def take_image():
    return {k: v for k, v in sys.modules.items() if _is_img(k)}


def drop_image():
    for k in [k for k in sys.modules if _is_img(k)]:
        del sys.modules[k]


def put_image(img):
    drop_image()
    sys.modules.update(img)


def import_image(pre=None):
    """Import a fresh copy of crypten from the repository's working tree."""
    drop_image()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    old_save, old_load = torch.save, torch.load
    saved = {}
    if pre:
        for k, v in pre.items():
            saved[k] = sys.modules.get(k)
            sys.modules[k] = v
    threading.Lock = SimLock
    try:
        import crypten  # noqa: F401
        import crypten.mpc.provider.ttp_provider  # noqa: F401
        import crypten.nn.onnx_converter  # noqa: F401
        import crypten.nn.privacy  # noqa: F401
    finally:
        threading.Lock = _RealLock
        for k, v in saved.items():
            sys.modules[k] = v
    img = take_image()
    drop_image()
    return img


class Swapper:
    """Swaps per-process global state on a context switch."""

    def __init__(self):
        self.base = self._capture()
        self.nmods = -1

    @staticmethod
    def _capture():
        return torch.default_generator.get_state()

    def swap(self, old, new):
        if old is not None:
            old.saved = {
                "rng": self._capture(),
                "world": c10d._world,
                "environ": os.environ,
                "dpim": c10d._default_pg_init_method,
            }
            # modules imported lazily by this party belong to its image
            if len(sys.modules) != self.nmods:
                for k, v in sys.modules.copy().items():
                    if _is_img(k) and k not in old.image:
                        old.image[k] = v
        s = new.saved
        torch.default_generator.set_state(s["rng"])
        c10d._world = s["world"]
        c10d._default_pg_init_method = s["dpim"]
        os.environ = s["environ"]
        if old is None or old.image is not new.image:
            mods = sys.modules
            if old is None:
                drop_image()
            else:
                for k in old.image:
                    mods.pop(k, None)
            mods.update(new.image)
        self.nmods = len(sys.modules)

    def fresh(self, proc, rng=None):
        """State of a newly started process."""
        if rng is None:
            rng = self.base
        proc.pyrandom = random.Random(proc.entropy.random())
        proc.nprandom = np.random.RandomState(proc.entropy.getrandbits(32))
        proc.saved = {
            "rng": rng,
            "world": simnet.World(),
            "environ": proc.environ,
            "dpim": None,
        }

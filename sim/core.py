"""Deterministic simulator core: choices, virtual clock, cooperative scheduler.

Every simulated party runs the real CrypTen code on its own OS thread, but the
threads never run concurrently: exactly one holds the token, and it hands the
token over only at the simulator's yield points (network, store, disk, sleep,
lock and queue operations).  Who runs next, how long a message takes and which
fault strikes is decided by one `Choices` object, so (spec, choices) is one
exactly repeatable execution.
"""
import hashlib
import heapq
import random
import sys
import threading
import traceback

_real_lock = threading.Lock
_get_ident = threading.get_ident


class Choices:
    """The single source of nondeterminism of a run.

    mode 'seed': draw from a PRNG and record every draw.
    mode 'replay': read back a recorded list; 0 (the calmest choice) once it is
    exhausted.
    """

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed)
        self.replay = list(replay) if replay is not None else None
        self.log = []
        self.pos = 0

    def choose(self, n, weights=None):
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            v = v % n
        elif weights is None:
            v = int(self.rng.random() * n)
        else:
            r = self.rng.random() * sum(weights)
            v = n - 1
            for i, w in enumerate(weights):
                r -= w
                if r < 0:
                    v = i
                    break
        self.log.append(v)
        return v


class Deadlock(Exception):
    pass


class SimAbort(BaseException):
    """Raised inside party threads to unwind them when the run is over."""


RUNNING, BLOCKED, DONE, CRASHED = "running", "blocked", "done", "crashed"


class Actor:
    """One simulated thread of control (a party process, or a thread of one)."""

    def __init__(self, sim, aid, fn, proc):
        self.sim = sim
        self.aid = aid
        self.fn = fn
        self.proc = proc
        self.lock = _real_lock()
        self.lock.acquire()
        self.state = RUNNING
        self.pred = None
        self.desc = ""
        self.wake_exc = None
        self.stalled_until = 0.0
        self.result = None
        self.exc = None
        self.tb = None
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.ident = None

    def _main(self):
        self.lock.acquire()
        self.ident = _get_ident()
        self.sim.by_ident[self.ident] = self
        try:
            self.result = self.fn()
            self.state = DONE
        except SimAbort:
            self.state = DONE
        except BaseException as e:  # noqa: B902
            self.exc = e
            self.tb = traceback.format_exc()
            self.state = DONE
        self.sim._actor_finished(self)


class Process:
    """What a party's operating system process owns (module image, env, RNG)."""

    def __init__(self, pid, image=None, environ=None):
        self.pid = pid
        self.image = image
        self.environ = environ if environ is not None else {}
        self.saved = {}
        self.log = []
        self.alive = True


class Sim:
    def __init__(self, choices, policy=None, max_steps=200000, seams=None):
        self.choices = choices
        self.actors = []
        self.by_ident = {}
        self.clock = 0.0
        self.end_clock = None  # when the last actor finished
        self.timers = []
        self.seq = 0
        self.steps = 0
        self.max_steps = max_steps
        self.current = None
        self.main_lock = _real_lock()
        self.main_lock.acquire()
        self.violations = []
        self.deadlock = None
        self.over = False
        self.aborted = None
        self.hash = hashlib.blake2b(digest_size=12)
        self.events = []
        self.keep_events = False
        self.faults = {}
        self.on_step = []
        self.on_exit = []
        self.seams = seams
        self.switches = 0
        if policy is None:
            policy = ["random", "block", "starve", "pct"][choices.choose(4)]
        self.policy = policy
        self.starved = None
        self.prio = {}
        self.current_proc = None

    # -- trace ---------------------------------------------------------
    def note(self, *ev):
        line = "|".join(str(e) for e in ev)
        self.hash.update(line.encode())
        self.hash.update(b"\n")
        if self.keep_events:
            self.events.append("%.6f %s" % (self.clock, line))

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def violation(self, what):
        self.violations.append(what)
        self.note("VIOLATION", what)

    # -- actors --------------------------------------------------------
    def spawn(self, fn, proc):
        a = Actor(self, len(self.actors), fn, proc)
        self.actors.append(a)
        self.prio[a.aid] = self.choices.choose(1000) if self.policy == "pct" else 0
        a.thread.start()
        return a

    def me(self):
        return self.by_ident.get(_get_ident())

    def in_sim(self):
        return (not self.over) and _get_ident() in self.by_ident

    def at(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.timers, (self.clock + delay, self.seq, fn))

    def run(self):
        """Called from the controlling thread: run until everything settles."""
        if self.policy == "starve" and self.actors:
            self.starved = self.actors[self.choices.choose(len(self.actors))].aid
        self._dispatch(None)
        self.main_lock.acquire()
        self.over = True

    # -- scheduling ----------------------------------------------------
    def _fire_due(self):
        fired = False
        while self.timers and self.timers[0][0] <= self.clock:
            _, _, fn = heapq.heappop(self.timers)
            fn()
            fired = True
        return fired

    def _ready(self):
        out = []
        for a in self.actors:
            if a.state == RUNNING:
                if a.stalled_until <= self.clock:
                    out.append(a)
            elif a.state == BLOCKED:
                if a.stalled_until <= self.clock and (
                    a.wake_exc is not None or a.pred()
                ):
                    out.append(a)
        return out

    def _pick(self, ready, cur):
        if len(ready) == 1:
            return ready[0]
        # index 0 is always "the calmest choice": carry on with the same actor
        if cur in ready:
            ready = [cur] + [a for a in ready if a is not cur]
        n = len(ready)
        if self.policy == "random":
            return ready[self.choices.choose(n)]
        if self.policy == "block":
            return ready[self.choices.choose(n, [20] + [1] * (n - 1))]
        if self.policy == "starve":
            w = [0.02 if a.aid == self.starved else 1.0 for a in ready]
            return ready[self.choices.choose(n, w)]
        # pct: highest priority first, with random priority changes
        if self.choices.choose(12, [11] + [1] * 11) == 1:
            a = ready[self.choices.choose(n)]
            self.prio[a.aid] = self.choices.choose(1000)
        return max(ready, key=lambda a: (self.prio[a.aid], -a.aid))

    def _next(self, cur):
        """Decide who runs next; None when the run is finished or stuck."""
        while True:
            self._fire_due()
            ready = self._ready()
            if ready:
                return self._pick(ready, cur)
            live = [a for a in self.actors if a.state in (RUNNING, BLOCKED)]
            if not live:
                if self.end_clock is None:
                    self.end_clock = self.clock
                if self.timers:
                    self.clock = max(self.clock, self.timers[0][0])
                    continue
                return None
            # nobody can run: let virtual time pass
            nxt = [a.stalled_until for a in live if a.stalled_until > self.clock]
            if self.timers:
                nxt.append(self.timers[0][0])
            if not nxt:
                self.deadlock = {a.aid: a.desc for a in live}
                self.note("DEADLOCK", self.deadlock)
                return None
            self.clock = max(self.clock, min(nxt))

    def _dispatch(self, cur):
        """Hand the token from `cur` (already parked state set) to someone."""
        nxt = self._next(cur)
        if nxt is cur and nxt is not None:
            cur.state = RUNNING
            return True
        if nxt is None:
            self.current = None
            self.main_lock.release()
            return False
        self.switches += 1
        self._activate(nxt)
        nxt.state = RUNNING
        nxt.lock.release()
        return False

    def _activate(self, actor):
        self.current = actor
        if self.seams is not None and actor.proc is not self.current_proc:
            self.seams.swap(self.current_proc, actor.proc)
        self.current_proc = actor.proc

    def _park(self, a):
        if not self._dispatch(a):
            a.lock.acquire()
        if self.over:
            raise SimAbort()
        if a.wake_exc is not None:
            e, a.wake_exc = a.wake_exc, None
            raise e

    def step(self, desc=""):
        """A yield point at which the caller stays runnable."""
        a = self.me()
        if a is None:
            return
        if self.over:
            raise SimAbort()
        self.steps += 1
        self.clock += 1e-6
        if self.steps > self.max_steps:
            self.aborted = "step limit"
            self.main_lock.release()
            a.lock.acquire()
        for h in self.on_step:
            h(a, desc)
        self._park(a)

    def block(self, pred, desc=""):
        a = self.me()
        if a is None:
            raise RuntimeError("block outside of simulation: " + desc)
        if self.over:
            raise SimAbort()
        self.step(desc)
        while not pred():
            a.pred, a.desc = pred, desc
            a.state = BLOCKED
            self._park(a)
        a.desc = ""

    def sleep(self, dt):
        t = self.clock + dt
        self.at(dt, lambda: None)
        self.block(lambda: self.clock >= t, "sleep")

    def _actor_finished(self, a):
        for h in self.on_exit:
            h(a)
        nxt = self._next(a)
        if nxt is None:
            self.current = None
            self.main_lock.release()
            return
        self._activate(nxt)
        nxt.state = RUNNING
        nxt.lock.release()

    def crash(self, actor):
        """Kill an actor at its current yield point; its thread never resumes."""
        actor.state = CRASHED
        actor.proc.alive = False
        self.note("CRASH", actor.aid)

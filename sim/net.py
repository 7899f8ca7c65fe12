"""Simulated network: a torch.distributed process group and store.

CrypTen's own seam is the pair of environment variables DISTRIBUTED_BACKEND and
RENDEZVOUS; below it the real Python layer of torch.distributed runs unchanged
and only the transport (ProcessGroupGloo, Store, rendezvous) is replaced.

Semantics follow gloo: point-to-point sends rendezvous with the matching
receive (FIFO per group, link and tag), collectives match by call order per
group, buffers belong to the transport until the work completes, the non-root
buffers of a reduce come back scrambled, and a dead peer surfaces as a
RuntimeError on everyone who depends on it.
"""
import torch
import torch.distributed as dist
import torch.distributed.distributed_c10d as c10d
import sys as _sys

import torch.distributed.rendezvous  # noqa: F401

rdzv = _sys.modules["torch.distributed.rendezvous"]
from torch.distributed import ReduceOp

NET = None  # the SimNet of the run in progress


class NetError(RuntimeError):
    pass


CLOSED = "[sim/transport] Connection closed by peer"


class SimStore(dist.Store):
    def __init__(self, data, who):
        super().__init__()
        self.data = data
        self.who = who

    def set_timeout(self, t):
        pass

    def set(self, key, value):
        NET.sim.step("store.set")
        if isinstance(value, str):
            value = value.encode()
        self.data[key] = bytes(value)

    def get(self, key):
        NET.sim.block(lambda: key in self.data, "store.get %s" % key)
        return self.data[key]

    def add(self, key, n):
        NET.sim.step("store.add")
        v = int(self.data.get(key, b"0")) + int(n)
        self.data[key] = str(v).encode()
        return v

    def wait(self, keys, timeout=None):
        NET.sim.block(lambda: all(k in self.data for k in keys), "store.wait")

    def check(self, keys):
        NET.sim.step("store.check")
        return all(k in self.data for k in keys)

    def compare_set(self, key, exp, new):
        NET.sim.step("store.cas")
        cur = self.data.get(key)
        exp = exp.encode() if isinstance(exp, str) else exp
        new = new.encode() if isinstance(new, str) else new
        if cur is None and exp == b"" or cur == exp:
            self.data[key] = new
            return new
        return cur if cur is not None else exp

    def delete_key(self, key):
        return self.data.pop(key, None) is not None

    def num_keys(self):
        return len(self.data)


class SimPrefixStore(SimStore):
    def __init__(self, prefix, store):
        super().__init__(store.data, store.who)
        self.inner = store
        self.prefix = prefix
        self.path = getattr(store, "path", "") + "/" + prefix
        self.session = store.session

    def set(self, key, value):
        return self.inner.set(self.prefix + "/" + key, value)

    def get(self, key):
        return self.inner.get(self.prefix + "/" + key)

    def add(self, key, n):
        return self.inner.add(self.prefix + "/" + key, n)

    def wait(self, keys, timeout=None):
        return self.inner.wait([self.prefix + "/" + k for k in keys])

    def check(self, keys):
        return self.inner.check([self.prefix + "/" + k for k in keys])

    def compare_set(self, key, e, n):
        return self.inner.compare_set(self.prefix + "/" + key, e, n)

    def delete_key(self, key):
        return self.inner.delete_key(self.prefix + "/" + key)


def _rendezvous_handler(url, timeout=None, **kwargs):
    from urllib.parse import urlparse, parse_qs

    r = urlparse(url)
    q = {k: v[0] for k, v in parse_qs(r.query).items()}
    base = "%s://%s%s" % (r.scheme, r.netloc, r.path)
    rank = int(q.get("rank", -1))
    ws = int(q.get("world_size", -1))
    store, session = NET.rendezvous(base, rank, ws)
    store.session = session
    yield (store, rank, ws)
    raise RuntimeError("unable to re-rendezvous")


class Session:
    """One incarnation of a world: (rendezvous address, n-th init)."""

    def __init__(self, key, ws):
        self.key = key
        self.ws = ws
        self.data = {}
        self.actor_of = {}  # global rank -> Actor
        self.gone = {}  # global rank -> reason
        self.groups = {}


class Group:
    def __init__(self, session, name, ranks):
        self.session = session
        self.name = name
        self.ranks = ranks
        self.joined = set()
        self.colls = {}
        self.chan = {}
        self.counter = {}
        self.left = set()


def _reduce(op, tensors):
    op = getattr(op, "op", op)
    out = tensors[0].clone()
    for t in tensors[1:]:
        if op == ReduceOp.SUM or op == ReduceOp.AVG:
            out = out + t
        elif op == ReduceOp.PRODUCT:
            out = out * t
        elif op == ReduceOp.MIN:
            out = torch.minimum(out, t)
        elif op == ReduceOp.MAX:
            out = torch.maximum(out, t)
        elif op == ReduceOp.BAND:
            out = out & t
        elif op == ReduceOp.BOR:
            out = out | t
        elif op == ReduceOp.BXOR:
            out = out ^ t
        else:
            raise NetError("unsupported reduce op")
    if op == ReduceOp.AVG:
        out = torch.div(out, len(tensors))
    return out


class SimWork:
    def __init__(self, net, desc):
        self.net = net
        self.desc = desc
        self.done = False
        self.error = None
        self.source = None

    def finish(self, error=None):
        if not self.done:
            self.done = True
            self.error = error

    def wait(self, timeout=None):
        self.net.sim.block(lambda: self.done, "wait " + self.desc)
        if self.error is not None:
            raise NetError(self.error)
        return True

    def is_completed(self):
        self.net.sim.step("poll " + self.desc)
        return self.done

    def is_success(self):
        return self.done and self.error is None

    def exception(self):
        return NetError(self.error) if self.error else None

    def source_rank(self):
        return self.source

    _source_rank = source_rank

    def result(self):
        return []

    def synchronize(self):
        self.wait()


class SimGroup(dist.ProcessGroup):
    """The per-party end of a process group."""

    def __init__(self, net, group, rank, actor):
        super().__init__(rank, len(group.ranks))
        self.net = net
        self.g = group
        self.r = rank
        self.actor = actor
        self.sname = group.name
        self.nseq = 0

    def _set_sequence_number_for_group(self):
        pass

    def size(self):
        return len(self.g.ranks)

    def rank(self):
        return self.r

    def name(self):
        return "gloo"

    def getBackendName(self):
        return "gloo"

    # -- point to point ---------------------------------------------------
    def send(self, tensors, dst, tag=0):
        return self.net.p2p_send(self, tensors[0], dst, tag)

    def recv(self, tensors, src, tag=0):
        return self.net.p2p_recv(self, tensors[0], src, tag)

    def recv_anysource(self, tensors, tag=0):
        return self.net.p2p_recv(self, tensors[0], None, tag)

    # -- collectives ------------------------------------------------------
    def _coll(self, kind, ins, outs, root=None, op=None):
        return self.net.collective(self, kind, ins, outs, root, op)

    def broadcast(self, tensors, opts=None):
        root = opts.rootRank
        t = tensors[0]
        if root == self.r:
            return self._coll("broadcast", [t], [], root)
        return self._coll("broadcast", [], [t], root)

    def allreduce(self, tensors, opts=None):
        op = opts.reduceOp if opts is not None else ReduceOp.SUM
        return self._coll("allreduce", list(tensors), list(tensors), None, op)

    def allreduce_coalesced(self, tensors, opts=None):
        return self.allreduce(tensors, opts)

    def reduce(self, tensors, opts=None):
        return self._coll("reduce", [tensors[0]], [tensors[0]], opts.rootRank, opts.reduceOp)

    def allgather(self, output_tensors, input_tensors, opts=None):
        return self._coll("allgather", [input_tensors[0]], list(output_tensors[0]))

    def _allgather_base(self, output, input, opts=None):
        outs = list(output.view((self.size(),) + tuple(input.shape)).unbind(0)) if output.numel() == self.size() * input.numel() else list(torch.chunk(output, self.size()))
        return self._coll("allgather", [input], outs)

    def allgather_coalesced(self, output_lists, input_list, opts=None):
        outs = [list(o) for o in output_lists]
        works = [
            self._coll("allgather", [t], [o[i] for o in outs])
            for i, t in enumerate(input_list)
        ]
        return works[-1]

    def gather(self, output_tensors, input_tensors, opts=None):
        outs = list(output_tensors[0]) if output_tensors else []
        return self._coll("gather", [input_tensors[0]], outs, opts.rootRank)

    def scatter(self, output_tensors, input_tensors, opts=None):
        ins = list(input_tensors[0]) if input_tensors else []
        return self._coll("scatter", ins, [output_tensors[0]], opts.rootRank)

    def reduce_scatter(self, output_tensors, input_tensors, opts=None):
        return self._coll(
            "reduce_scatter", list(input_tensors[0]), [output_tensors[0]], None, opts.reduceOp
        )

    def alltoall(self, outs, ins, opts=None):
        return self._coll("alltoall", list(ins), list(outs))

    def alltoall_base(self, out, inp, osplit, isplit, opts=None):
        n = self.size()
        return self._coll(
            "alltoall",
            list(torch.split(inp, isplit)) if isplit else list(torch.chunk(inp, n)),
            list(torch.split(out, osplit)) if osplit else list(torch.chunk(out, n)),
        )

    def barrier(self, opts=None):
        return self._coll("barrier", [], [])


class Msg:
    """One wire observation: what `src` handed to the transport for `dsts`."""

    __slots__ = ("src", "dsts", "kind", "group", "tensor", "t", "pos", "tag", "seq", "op")

    def __init__(self, src, dsts, kind, group, tensor, t, pos, tag=None, seq=None, op=None):
        self.src, self.dsts, self.kind = src, dsts, kind
        self.group, self.tensor, self.t, self.pos = group, tensor, t, pos
        self.tag, self.seq, self.op = tag, seq, op


class SimNet:
    def __init__(self, sim, delay_profile=None, keep_wire=False):
        self.sim = sim
        self.sessions = {}
        self.incarn = {}
        self.keep_wire = keep_wire
        self.wire = []
        self.nmsgs = 0
        self.nbytes = 0
        self.desync = []
        self.on_deliver = None
        self.link_slow = {}
        self.scramble = True
        ch = sim.choices
        if delay_profile is None:
            delay_profile = ["none", "lan", "wan", "heavy"][ch.choose(4)]
        self.profile = delay_profile
        self.mutating = {}
        sim.on_exit.append(self._actor_exit)

    # -- plumbing -----------------------------------------------------------
    def delay(self, a=None, b=None):
        ch = self.sim.choices
        p = self.profile
        if p == "none":
            d = 0.0
        elif p == "lan":
            d = (0.0, 1e-5, 1e-4, 5e-4)[ch.choose(4)]
        elif p == "wan":
            d = (0.0, 0.01, 0.05, 0.2)[ch.choose(4)]
        else:
            d = (0.0, 1e-4, 0.05, 1.0, 30.0)[ch.choose(5, [8, 8, 4, 2, 0.3])]
        if d > 0.02:
            self.sim.fault("message-delay")
        ls = self.link_slow.get((a, b))
        if ls is not None and self.sim.clock < ls:
            self.sim.fault("partition-held")
            d += ls - self.sim.clock
        return d

    def rendezvous(self, url, rank, ws):
        k = (url, rank)
        n = self.incarn.get(k, 0)
        self.incarn[k] = n + 1
        key = (url, n)
        s = self.sessions.get(key)
        if s is None:
            s = self.sessions[key] = Session(key, ws)
        self.sim.step("rendezvous")
        me = self.sim.me()
        if rank in s.actor_of and s.actor_of[rank] is not me:
            raise NetError("rank %d joined twice" % rank)
        if s.ws != ws:
            self.desync.append("world_size mismatch %s vs %s" % (s.ws, ws))
            raise NetError("world size mismatch at rendezvous")
        s.actor_of[rank] = me
        return SimStore(s.data, rank), s

    def make_group(self, store, grank, gsize):
        """Replacement of the ProcessGroupGloo constructor (full-mesh connect)."""
        session = store.session
        name = store.path
        g = session.groups.get(name)
        me = self.sim.me()
        if g is None:
            g = session.groups[name] = Group(session, name, [None] * gsize)
        if len(g.ranks) != gsize:
            self.desync.append("group size mismatch on %s" % name)
            raise NetError("group size mismatch")
        grk = [r for r, a in session.actor_of.items() if a is me]
        g.ranks[grank] = grk[0]
        g.joined.add(grank)
        pg = SimGroup(self, g, grank, me)
        # a peer that never shows up: the rendezvous gives up after 30 minutes
        limit = self.sim.clock + 1800.0
        self.sim.at(1800.0, lambda: None)
        dead = lambda: any(a.state in ("done", "crashed") for a in session.actor_of.values() if a is not me and a is not None) or (
            self.sim.clock >= limit and any(a.state == "crashed" for a in self.sim.actors)
        )
        self.sim.block(
            lambda: len(g.joined) == gsize or dead(), "connect group %s" % name
        )
        if len(g.joined) != gsize:
            raise NetError(CLOSED)
        return pg

    def _dead(self, g, grank):
        gr = g.ranks[grank]
        if grank in g.left:
            return True
        a = g.session.actor_of.get(gr)
        return a is None or a.state in ("done", "crashed") or not a.proc.alive

    def leave(self, pg):
        pg.g.left.add(pg.r)
        self.sim.at(0, lambda: self._reap(pg.g))

    def _actor_exit(self, actor):
        for s in self.sessions.values():
            for g in s.groups.values():
                if any(s.actor_of.get(r) is actor for r in g.ranks if r is not None):
                    self._reap(g)

    def _reap(self, g):
        """Fail every pending operation that depends on a departed member."""
        dead = {i for i in range(len(g.ranks)) if g.ranks[i] is None or self._dead(g, i)}
        for c in list(g.colls.values()):
            for r, part in list(c["parts"].items()):
                if part["work"].done or part["sched"]:
                    continue
                need = self._needs(c, r, len(g.ranks))
                missing = [x for x in need if x not in c["parts"]]
                if any(x in dead for x in missing):
                    self._fail_later(part["work"])
        for (a, b, tag), ch in g.chan.items():
            if b in dead:
                for it in ch["send"]:
                    self._fail_later(it[1])
            if a in dead:
                for it in ch["recv"]:
                    self._fail_later(it[1])
        for key, lst in g.__dict__.get("any", {}).items():
            r = key[0]
            if all(i in dead for i in range(len(g.ranks)) if i != r):
                for it in lst:
                    self._fail_later(it[1])

    def _fail_later(self, work):
        self.sim.fault("connection-closed")
        d = self.delay()
        self.sim.at(d, lambda: work.finish(CLOSED))

    # -- faults --------------------------------------------------------------
    def fault_in_transit(self, src, dsts):
        return None

    # -- p2p -------------------------------------------------------------------
    def _log(self, g, src, dsts, kind, tensor, pos, seq=None, op=None):
        self.nmsgs += 1
        self.nbytes += tensor.numel() * tensor.element_size() * max(1, len(dsts))
        if self.keep_wire:
            self.wire.append(
                Msg(
                    g.ranks[src],
                    [g.ranks[d] for d in dsts],
                    kind,
                    g.name,
                    tensor.detach().clone(),
                    self.sim.clock,
                    pos,
                    getattr(self.sim.me(), "tag", None),
                    seq,
                    op,
                )
            )

    def _pre(self, pg, desc):
        self.sim.note("op", pg.g.ranks[pg.r], pg.g.name, desc)
        self.sim.step(desc)
        if self.sim.me() is not pg.actor and pg.actor is not None:
            # a handle used from another simulated process: harness bug
            raise RuntimeError("process group used by a foreign actor")
        if pg.r in pg.g.left:
            raise NetError("process group was destroyed")

    def p2p_send(self, pg, tensor, dst, tag):
        self._pre(pg, "send->%d" % pg.g.ranks[dst])
        w = SimWork(self, "send to %s on %s" % (pg.g.ranks[dst], pg.g.name))
        g = pg.g
        ch = g.chan.setdefault((pg.r, dst, tag), {"send": [], "recv": [], "last": 0.0})
        self._log(g, pg.r, [dst], "send", tensor, self.sim.steps)
        if self._dead(g, dst):
            self._fail_later(w)
            return w
        ch["send"].append((tensor, w))
        self._match(g, pg.r, dst, tag)
        return w

    def p2p_recv(self, pg, tensor, src, tag):
        self._pre(pg, "recv<-%s" % (None if src is None else pg.g.ranks[src]))
        g = pg.g
        w = SimWork(
            self,
            "recv from %s on %s" % (None if src is None else g.ranks[src], g.name),
        )
        if src is None:
            g.__dict__.setdefault("any", {}).setdefault((pg.r, tag), []).append((tensor, w))
            for s in range(len(g.ranks)):
                if (s, pg.r, tag) in g.chan:
                    self._match(g, s, pg.r, tag)
            return w
        ch = g.chan.setdefault((src, pg.r, tag), {"send": [], "recv": [], "last": 0.0})
        ch["recv"].append((tensor, w))
        self._match(g, src, pg.r, tag)
        if not w.done and self._dead(g, src) and ch["recv"] and ch["recv"][-1][1] is w:
            self._fail_later(w)
        return w

    def _match(self, g, a, b, tag):
        ch = g.chan[(a, b, tag)]
        anyq = g.__dict__.get("any", {}).get((b, tag), [])
        while ch["send"] and (ch["recv"] or anyq):
            st, sw = ch["send"].pop(0)
            rt, rw = ch["recv"].pop(0) if ch["recv"] else anyq.pop(0)
            rw.source = a
            if (
                st.numel() * st.element_size() != rt.numel() * rt.element_size()
            ):
                self._mismatch(
                    "p2p size mismatch %s->%s: %s %s vs %s %s"
                    % (g.ranks[a], g.ranks[b], st.dtype, tuple(st.shape), rt.dtype, tuple(rt.shape))
                )
                if st.numel() * st.element_size() > rt.numel() * rt.element_size():
                    sw.finish("message too large for receive buffer")
                    rw.finish("message too large for receive buffer")
                    continue
            t = max(self.sim.clock + self.delay(g.ranks[a], g.ranks[b]), ch["last"])
            ch["last"] = t
            t2 = max(0.0, t - self.sim.clock)

            def deliver(st=st, rt=rt, sw=sw, rw=rw):
                with torch.no_grad():
                    raw_copy(rt, st)
                rw.finish()
                sw.finish()

            self.sim.at(t2, deliver)

    def _mismatch(self, what):
        self.desync.append(what)
        self.sim.note("DESYNC", what)

    # -- collectives -------------------------------------------------------------
    def _needs(self, c, r, n):
        """Whose contribution must be present before member r can complete."""
        k = c["kind"]
        if k == "broadcast" or k == "scatter":
            if r == c["root"]:
                return range(n) if not c["eager"] else [r]
            return [c["root"], r]
        if k == "reduce" or k == "gather":
            if r == c["root"]:
                return range(n)
            return [c["root"], r] if not c["eager"] else [r]
        return range(n)

    def collective(self, pg, kind, ins, outs, root, op):
        g = pg.g
        n = len(g.ranks)
        self._pre(pg, "%s" % kind)
        seq = pg.nseq
        pg.nseq += 1
        w = SimWork(self, "%s #%d on %s" % (kind, seq, g.name))
        sig = (kind, root, str(getattr(op, "op", op)) if op is not None else None)
        nb = [t.numel() * t.element_size() for t in (ins or outs)]
        nbytes = nb[0] if nb else 0
        dt = str((ins or outs)[0].dtype) if (ins or outs) else ""
        c = g.colls.get(seq)
        if c is None:
            c = g.colls[seq] = {
                "kind": kind,
                "root": root,
                "op": op,
                "sig": sig,
                "nbytes": nbytes,
                "dt": dt,
                "parts": {},
                "eager": bool(self.sim.choices.choose(2)),
                "snap": {},
                "n": n,
            }
        if c["sig"] != sig or c["nbytes"] != nbytes or c["dt"] != dt:
            self._mismatch(
                "collective mismatch on %s #%d: %s/%s/%s vs %s/%s/%s"
                % (g.name, seq, c["sig"], c["nbytes"], c["dt"], sig, nbytes, dt)
            )
            w.finish("collective mismatch")
            raise NetError("collective mismatch")
        # what leaves this party
        others = [i for i in range(n) if i != pg.r]
        if kind == "scatter" and ins:
            for i, t in enumerate(ins):
                if i != pg.r:
                    self._log(g, pg.r, [i], kind, t, self.sim.steps, seq, sig[2])
        elif kind in ("reduce", "gather"):
            if pg.r != root:
                self._log(g, pg.r, [root], kind, ins[0], self.sim.steps, seq, sig[2])
        elif kind in ("alltoall", "reduce_scatter"):
            for i, t in enumerate(ins):
                if i != pg.r:
                    self._log(g, pg.r, [i], kind, t, self.sim.steps, seq, sig[2])
        else:
            for t in ins:
                self._log(g, pg.r, others, kind, t, self.sim.steps, seq, sig[2])
        c["parts"][pg.r] = {"ins": ins, "outs": outs, "work": w, "sched": False}
        self._advance(g, seq)
        if not w.done and not c["parts"][pg.r]["sched"]:
            dead = [i for i in self._needs(c, pg.r, n) if i not in c["parts"] and self._dead(g, i)]
            if dead:
                self._fail_later(w)
        return w

    def _advance(self, g, seq):
        c = g.colls[seq]
        n = c["n"]
        for r in sorted(c["parts"]):
            part = c["parts"][r]
            if part["sched"] or part["work"].done:
                continue
            if all(x in c["parts"] for x in self._needs(c, r, n)):
                part["sched"] = True
                # inputs are read some time between the post and the completion
                src = [x for x in self._needs(c, r, n)]
                for x in src:
                    if x not in c["snap"] and c["parts"][x]["ins"]:
                        c["snap"][x] = [
                            t.detach().clone() for t in c["parts"][x]["ins"]
                        ]
                d = self.delay()
                hold = max(
                    [self.link_slow.get((g.ranks[x], g.ranks[r]), 0.0) for x in src if x != r] or [0.0]
                )
                if hold > self.sim.clock + d:
                    self.sim.fault("partition-held")
                    d = hold - self.sim.clock

                def complete(c=c, r=r, part=part):
                    if not part["work"].done:
                        with torch.no_grad():
                            self._apply(c, r, part)
                        part["work"].finish()
                        if len(c["parts"]) == c["n"] and all(
                            p["work"].done for p in c["parts"].values()
                        ):
                            g.colls.pop(seq, None)

                self.sim.at(d, complete)

    def _apply(self, c, r, part):
        k, root, snap = c["kind"], c["root"], c["snap"]
        outs = part["outs"]
        if k == "broadcast":
            if r != root:
                raw_copy(outs[0], snap[root][0])
        elif k == "allreduce":
            for i, o in enumerate(outs):
                o.copy_(_reduce(c["op"], [snap[x][i] for x in range(c["n"])]))
        elif k == "reduce":
            if r == root:
                outs[0].copy_(_reduce(c["op"], [snap[x][0] for x in range(c["n"])]))
            elif self.scramble and outs[0].numel() > 0 and c["n"] > 1:
                outs[0].copy_(_reduce(c["op"], [outs[0], snap[r][0]]))
        elif k == "allgather":
            for i, o in enumerate(outs):
                raw_copy(o, snap[i][0])
        elif k == "gather":
            if r == root:
                for i, o in enumerate(outs):
                    raw_copy(o, snap[i][0])
        elif k == "scatter":
            raw_copy(outs[0], snap[root][r])
        elif k == "alltoall":
            for i, o in enumerate(outs):
                raw_copy(o, snap[i][r])
        elif k == "reduce_scatter":
            outs[0].copy_(_reduce(c["op"], [snap[x][r] for x in range(c["n"])]))


def raw_copy(dst, src):
    """Byte-wise copy, as a wire would do it (dtype is not transmitted)."""
    if dst.dtype == src.dtype and dst.numel() == src.numel():
        dst.copy_(src.reshape(dst.shape))
        return
    import numpy as np

    sb = src.contiguous().reshape(-1).view(torch.uint8) if src.numel() else torch.empty(0, dtype=torch.uint8)
    db = dst.reshape(-1).view(torch.uint8)
    k = min(sb.numel(), db.numel())
    db[:k] = sb[:k]


def _gloo_factory(prefix_store, rank, size, timeout=None):
    return NET.make_group(prefix_store, rank, size)


_real_destroy = c10d.destroy_process_group


def _destroy(group=None):
    """Real destroy_process_group, plus telling the transport we hung up."""
    world = c10d._world
    pgs = list(world.pg_map.keys())
    target = world.default_pg if group is None else group
    is_world = target is not None and target is world.default_pg
    _real_destroy(group)
    if NET is None or not NET.sim.in_sim():
        return
    for pg in pgs:
        if isinstance(pg, SimGroup) and (is_world or pg is target):
            NET.leave(pg)


class World(c10d._World):
    """Per-process torch.distributed state (module globals in the original)."""

    def __init__(self):
        super().__init__()
        self._m = [{}, {}, {}, {}, {}, {}]
        self._gc = 0

    pg_map = property(lambda s: s._m[0])
    pg_names = property(lambda s: s._m[1])
    pg_group_ranks = property(lambda s: s._m[2])
    pg_backend_config = property(lambda s: s._m[3])
    tags_to_pg = property(lambda s: s._m[4])
    pg_to_tag = property(lambda s: s._m[5])

    @property
    def group_count(self):
        return self._gc

    @group_count.setter
    def group_count(self, v):
        self._gc = v


def install():
    c10d.ProcessGroupGloo = _gloo_factory
    c10d.PrefixStore = SimPrefixStore
    c10d.destroy_process_group = _destroy
    dist.destroy_process_group = _destroy
    for k in list(rdzv._rendezvous_handlers):
        rdzv._rendezvous_handlers[k] = _rendezvous_handler
    rdzv._rendezvous_handlers["sim"] = _rendezvous_handler

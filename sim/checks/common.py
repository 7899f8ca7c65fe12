"""Helpers shared by the scenarios."""
import random

import torch

from .. import prog
from ..runner import viol


def gen_topology(rng, max_n=5, providers=("TFP", "TTP"), rss=True, single=True):
    """Number of parties, tuple provider and protocol."""
    n = rng.choices([1, 2, 3, 4, 5], [0.4 if single else 0, 4, 4, 2, 1])[0]
    n = min(n, max_n)
    provider = rng.choice(list(providers))
    protocol = "beaver"
    if n == 1:
        provider = "TFP"
    if rss and n == 3 and rng.random() < 0.4:
        protocol = "replicated"
    return {"n": n, "provider": provider, "protocol": protocol}


def configure(crypten, spec):
    crypten.cfg.mpc.provider = spec.get("provider", "TFP")
    crypten.cfg.mpc.protocol = spec.get("protocol", "beaver")
    if "bits" in spec:
        crypten.cfg.encoder.precision_bits = spec["bits"]
    for k, v in spec.get("cfg", {}).items():
        cur = crypten.cfg
        parts = k.split(".")
        for p in parts[:-1]:
            cur = getattr(cur, p)
        setattr(cur, parts[-1], v)


def ttp_main(spec):
    def srv(crypten, rank):
        configure(crypten, spec)
        crypten.mpc.provider.TTPServer()
        crypten.uninit()
        return "ttp-done"

    return srv


def boot(world, spec, main, rdv="sim://world", **kw):
    """Spawn n parties running main(crypten, rank) plus a TTP if needed."""
    n = spec["n"]

    def wrap(crypten, rank):
        configure(crypten, spec)
        crypten.init()
        r = main(crypten, rank)
        crypten.uninit()
        return r

    actors = [world.party(r, n, wrap, rdv=rdv, **kw) for r in range(n)]
    if spec.get("provider") == "TTP":
        world.party(n, n, ttp_main(spec), rdv=rdv, **kw)
    return actors


def settle(world, where=""):
    """Violations of a fault-free run that does not end cleanly."""
    sim = world.sim
    out = []
    if world.net.desync:
        out.append(viol("desync", world.net.desync[0]))
    for aid, tb in world.errors().items():
        last = tb.strip().splitlines()[-1]
        out.append(viol("exception", "party %d raised: %s\n%s" % (aid, last, tb[-900:])))
    if sim.deadlock:
        out.append(viol("deadlock", "no party can make progress: %s" % sim.deadlock))
    if sim.aborted:
        out.append(viol("livelock", sim.aborted))
    return out


def drop_list(spec, key):
    """Shrinking candidates: spec without one element of a list."""
    xs = spec[key]
    if len(xs) > 1:
        for j in reversed(range(len(xs))):
            yield dict(spec, **{key: xs[:j] + xs[j + 1:]})

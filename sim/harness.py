"""Building blocks shared by all scenarios: boot a world, run party programs."""
import os
import random
import sys
import traceback

from . import core, net as simnet, seams

IMAGES = []
SWAPPER = None


def preload(n):
    """Import n independent images of crypten (once, before forking)."""
    global SWAPPER
    seams.install()
    while len(IMAGES) < n:
        IMAGES.append(seams.import_image())
    if SWAPPER is None:
        import torch

        torch.default_generator.manual_seed(67280421310721)  # torch's own default
        SWAPPER = seams.Swapper()


class RunResult:
    pass


class World:
    """One simulated deployment: n parties, optionally a TTP."""

    def __init__(self, choices, entropy_seed, keep_wire=False, policy=None, delay=None,
                 max_steps=400000, keep_events=False):
        self.choices = choices
        self.sim = core.Sim(choices, policy=policy, max_steps=max_steps, seams=SWAPPER)
        self.sim.keep_events = keep_events
        self.sim.output = []
        self.sim.logs = []
        self.sim.disk = seams.Disk(self.sim)
        self.net = simnet.SimNet(self.sim, delay_profile=delay, keep_wire=keep_wire)
        self.entropy_seed = entropy_seed
        self.procs = []
        seams.SIM = self.sim
        simnet.NET = self.net

    def process(self, pid, environ, image=None, entropy=None):
        env = {"PATH": "/usr/bin", "HOME": "/nonexistent"}
        env.update({k: str(v) for k, v in environ.items()})
        p = core.Process(pid, image if image is not None else IMAGES[pid], env)
        p.image = dict(p.image)
        p.entropy = random.Random("%s/%s" % (self.entropy_seed if entropy is None else entropy, pid))
        p.clock_skew = 0.0
        SWAPPER.fresh(p)
        self.procs.append(p)
        return p

    def party(self, rank, world_size, fn, rdv="sim://world", image=None, extra_env=None, backend="gloo", pid=None, entropy=None):
        env = {
            "DISTRIBUTED_BACKEND": backend,
            "RENDEZVOUS": rdv,
            "WORLD_SIZE": world_size,
            "RANK": rank,
        }
        if extra_env:
            env.update(extra_env)
        p = self.process(rank if pid is None else pid, env, image, entropy)
        p.rank = rank

        def main():
            crypten = sys.modules["crypten"]
            return fn(crypten, rank)

        return self.sim.spawn(main, p)

    def run(self):
        self.sim.run()
        seams.SIM = None
        return self.sim

    def errors(self):
        return {a.aid: a.tb for a in self.sim.actors if a.exc is not None}

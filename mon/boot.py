"""Imports pyactr from /repo's working tree with the kernel observable. Import this first."""
import os, sys, warnings
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
import simpy

class MonEnv(simpy.Environment):
    """simpy.Environment that reports every atomic kernel step to an observer."""
    last = None
    hook = None
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        MonEnv.last = self
        self.nsteps = 0
    def step(self):
        super().step()
        self.nsteps += 1
        h = self.hook
        if h is not None:
            h(self)

class MonRT(simpy.RealtimeEnvironment):
    """simpy.RealtimeEnvironment a thousand times faster than real time, never failing because of a slow machine"""
    last = None
    def __init__(self, *a, **k):
        k["factor"] = 1e-3; k["strict"] = False
        super().__init__(*a, **k)
        MonRT.last = self

simpy.Environment = MonEnv
simpy.RealtimeEnvironment = MonRT

import pyactr
import pyactr.chunks, pyactr.utilities, pyactr.simulation, pyactr.buffers, pyactr.declarative
import pyactr.goals, pyactr.motor, pyactr.vision, pyactr.productions, pyactr.model, pyactr.environment
assert os.path.abspath(pyactr.__file__).startswith(REPO + os.sep), pyactr.__file__
warnings.simplefilter("ignore")

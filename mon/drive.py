"""Drives a simulation in one of several ways and records only its visible events, the printed trace and the final state."""
import io, contextlib, random, sys, re
import boot
from boot import MonEnv, MonRT
import ref, gen, genmodel, genret, genvis, obs
import numpy, simpy
from props import c16, c20
UNDEF = re.compile(r"undefined\d+")

def make(rng, noise=.3, kinds=("model", "chain", "ret", "vis", "keys"), idx=None, compilation=False, **f):
    """a random model of any kind -> (kind, spec)"""
    k = kinds[idx % len(kinds)] if idx is not None else rng.choice(kinds)
    if k == "model": sp = genmodel.random_spec(rng, manual=.4, retrieval=.6, retr2=.2, **f); sp["until"] = rng.choice([.5, 1.0, 2.0])
    elif k == "chain": sp = genmodel.chain_spec(rng, manual=.4, **f); sp["until"] = rng.choice([.5, 1.0, 2.0])
    elif k == "ret": sp = genret.spec(rng, subsymbolic=rng.random() < .7, recall=.3, until=rng.choice([20.0, 200.0, 5000.0]), **f); sp["until"] = min(sp["until"], 5000.0)
    elif k == "vis": sp = genvis.spec(rng, **f); genvis.separate(sp)
    elif k == "comp": sp = c16.spec(rng)
    else: sp = c20.spec(rng); sp["until"] = 6.0
    P = sp["params"]
    if k in ("model", "chain"):
        if sp["retrievals"] and rng.random() < .5: P.update(subsymbolic=True, retrieval_threshold=rng.choice([-10.0, 0, 1.0]), latency_factor=rng.choice([.01, .05, .2]))
        if rng.random() < .4:
            P["utility_learning"] = True; P["utility_alpha"] = rng.choice([.2, .5])
            for r in sp["rules"]:
                if rng.random() < .3: r["reward"] = rng.choice([1, 5, 10, 2.5, 0, 0, -3])
    if compilation and k in ("model", "chain") and rng.random() < .4: P["production_compilation"] = True; sp["until"] = sp["until"] if k == "chain" else min(sp["until"], 8.5 * P.get("rule_firing", .05))     # every compiled rule runs both its parents
    if rng.random() < noise:
        if k == "vis": P["emma_noise"] = True
        elif k != "keys":
            P["subsymbolic"] = True
            if rng.random() < .7: P["instantaneous_noise"] = rng.choice([.1, .3, 1.0])
            if rng.random() < .7: P["utility_noise"] = rng.choice([.1, 1.0, 3.0])
    return k, sp

def build(kind, sp, shift=0.0):
    """-> model, environment, simulation arguments"""
    if kind == "vis":
        env = genvis.env_of(sp); return genvis.build(sp, env), env, genvis.envargs(sp, env)
    if kind == "comp": return c16.build(sp), None, {}
    for t in ("tx_g", "tx_g2", "tx_r"): genmodel.C.chunktype(t, "step a b c d")
    return (genret.build if kind == "ret" else genmodel.build)(sp, shift=shift), None, {}

def show(kind, sp):
    return (c16.show if kind == "comp" else genvis.show if kind == "vis" else genret.show if kind == "ret" else genmodel.show)(sp)

class Drive:
    """how: run | split | step | steps | print | realtime"""
    def __init__(self, kind, sp, nseed, trace=False, realtime=False, initial_time=None, shift=0.0):
        self.kind, self.sp = kind, sp
        self.model, self.env, args = build(kind, sp, shift)
        if initial_time is not None: args["initial_time"] = initial_time
        numpy.random.seed(nseed)
        self.sim = self.model.simulation(gui=False, trace=trace, realtime=realtime, **args)
        self.kernel = MonRT.last if realtime else MonEnv.last
        self.buffers = obs.find_buffers(self.sim, self.model)
        self.learning = sp['params'].get('utility_learning'); self.util = {}
        self.events = []; self.crash = None; self.out = io.StringIO()
        self.sim.__class__ = obs.MonSim
        self.sim.__dict__["_mon_log"] = self
    def on_event(self, e):
        self.events.append(tuple(e[:3]))
        if self.learning and e.action == "CONFLICT RESOLUTION":
            p = self.model.productions; self.util[len(self.events)] = {n: float(p[n]["utility"]) for n in p}
    def go(self, f):
        """one piece of driving; an exception out of the simulation is part of the result"""
        if self.crash is not None: return
        try:
            with contextlib.redirect_stdout(self.out): f()
        except simpy.core.EmptySchedule: raise
        except Exception as e: self.crash = e
    def run(self, until): self.go(lambda: self.sim.run(until)); return self
    def split(self, times):
        for t in times: self.run(t)
        return self
    def peek(self):
        q = [x for x in self.kernel._queue if x[-1].callbacks]
        return min(q)[0] if q else float("inf")
    def step(self, until, rng=None):
        """steps while something is left to do before the limit; rng: mixes step() and steps(n)"""
        self.seen = []; self.clocks = []
        try:
            while self.crash is None and self.peek() < until:
                n = len(self.events)
                if rng is not None and rng.random() < .3:
                    k = rng.choice([1, 2, 3])
                    if len(self.events) + k > self.cap: self.go(self.sim.step)
                    else: self.go(lambda: self.sim.steps(k))
                else: self.go(self.sim.step)
                self.seen.append((n, len(self.events), tuple(self.sim.current_event[:3]) if self.sim.current_event else None))
                self.clocks.append((self.kernel.now, self.sim.show_time(), self.sim.now))
            if self.crash is None and self.peek() == float("inf"): self.go(self.sim.step)      # nothing is left to happen: the end is announced, after the last work
        except simpy.core.EmptySchedule: pass
        return self
    cap = 10 ** 9
    def trace(self):
        return [(round(float(t), 4), p, UNDEF.sub("undefined", a)) for t, p, a in self.events]
    def final(self):
        out = {n: obs.content(b) for n, b in self.buffers.items()}
        p = self.model.productions; out["rules"] = {n: round(float(p[n]["utility"]), 6) for n in p}
        out["dm"] = {n: sorted(map(canon, obs.dm_norm(d).items())) for n, d in self.model.decmems.items()}
        return out

def canon(v):
    """a text of v that does not depend on the order of sets and dictionaries"""
    if isinstance(v, frozenset): return "{" + ", ".join(sorted(map(canon, v))) + "}"
    if isinstance(v, dict): return "{" + ", ".join(sorted(canon(k) + ":" + canon(x) for k, x in v.items())) + "}"
    if isinstance(v, (list, tuple)): return "[" + ", ".join(map(canon, v)) + "]"
    if isinstance(v, float): return repr(round(v, 9))
    return repr(v)

def result(d):
    return {"trace": d.trace(), "crash": type(d.crash).__name__ if d.crash is not None else None, "final": canon(d.final())}

if __name__ == "__main__":
    # a child process with its own hash seed: reads pickled (kind, spec, nseed), writes pickled results
    import pickle
    jobs = pickle.load(sys.stdin.buffer); out = []
    for kind, sp, nseed in jobs:
        out.append(result(Drive(kind, sp, nseed).run(sp["until"])))
    sys.stdout.buffer.write(pickle.dumps(out))

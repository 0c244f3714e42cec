"""C32: a model simulated again."""
import random
import boot, drive, genvis, obs
from boot import pyactr
from pyactr import declarative as D
import numpy
PROPERTY = "C32"
N = {"quick": 1600, "thorough": 40000}
TECHNIQUE = "differential monitoring: recorded events, utilities, memories and final buffers of a model's second (third) simulation, after its contents were put back, compared one by one with those of a fresh model"
RULE = ("a case is a random model (rule sets, chains, retrieval, vision with automatic or own buffers, key presses; utility learning, compilation, noise) simulated once or twice up to a random moment (an event's, the middle of a module's work, the end), "
        "whose chunks, memory, utilities and eye are then put back and which is simulated again; distinct: (trace, moment of the cut)")
REQUIRE = {"again": 1600, "cut_busy": 300, "events": 60000, "learned": 100, "compiled": 80, "presses": 1000, "encoded": 150, "own_vision": 100, "prepared": 150}

class Keeper:
    """what a user puts back by hand: chunks in buffers, memory, utilities and rules, the eye, finsts"""
    def __init__(self, m, env):
        self.m, self.env = m, env
        self.goals = {n: list(b) for n, b in m.goals.items()}
        self.dms = {n: ([(c, [float(x) for x in d[c]]) for c in d], dict(d.activations)) for n, d in m.decmems.items()}
        self.util = {n: m.productions[n]["utility"] for n in m.productions}
        self.focus = tuple(env.current_focus) if env else None
    def memory(self, n, rng):
        d = D.DecMem()
        l, acts = self.dms[n]
        for c, ts in l: d.add(c, ts)
        for c, a in acts.items(): d.add_activation(c, a)
        return d
    def back(self, rng):
        m = self.m
        for n, b in list(m.goals.items()) + list(m.retrievals.items()) + list(m.visbuffers.items()):
            for c in list(b): b.discard(c)
            if hasattr(b, "recent"): b.recent.clear()
        for n, l in self.goals.items():
            for c in l: m.goals[n].add(c)
        if rng.random() < .5 and len(m.decmems) == 1:
            d = self.memory("decmem", rng); m.decmems = {}
            m.set_decmem(d); m.decmem.activations = d.activations
        else: m.decmems = {n: self.memory(n, rng) for n in self.dms}
        for n in list(m.productions):
            if n not in self.util: del m.productions[n]
            else: m.productions[n]["utility"] = self.util[n]
        if self.env:
            self.env.current_focus = self.focus
            for b in m.visbuffers.values():
                if hasattr(b, "current_focus"): b.current_focus = self.env.current_focus; b.attend_automatic = True

class Again(drive.Drive):
    """one more simulation of the model of another Drive"""
    def __init__(self, first, nseed):
        self.kind, self.sp, self.model, self.env = first.kind, first.sp, first.model, first.env
        args = genvis.envargs(self.sp, self.env) if self.env else {}
        numpy.random.seed(nseed)
        self.start(args)
    def start(self, args):
        import io
        self.sim = self.model.simulation(gui=False, trace=False, **args)
        self.kernel = boot.MonEnv.last
        self.buffers = obs.find_buffers(self.sim, self.model)
        self.learning = self.sp["params"].get("utility_learning"); self.util = {}
        self.events = []; self.crash = None; self.out = io.StringIO()
        self.sim.__class__ = obs.MonSim
        self.sim.__dict__["_mon_log"] = self

class Fresh(Again):
    def __init__(self, kind, sp, nseed, own):
        self.kind, self.sp = kind, sp
        self.model, self.env, args = drive.build(kind, sp)
        if own: self.model.visualBuffer("visual", "visual_location", self.model.decmem)
        self.keeper = Keeper(self.model, self.env)
        numpy.random.seed(nseed)
        self.start(args)

def case(rng, idx, rec, tier):
    kind, sp = drive.make(rng, idx=idx)
    P = sp["params"]
    if kind in ("chain", "model") and rng.random() < .5: P["production_compilation"] = True; sp["until"] = min(sp["until"], 8.5 * P.get("rule_firing", .05))     # every compiled rule runs both its parents: the time needed doubles with each
    if kind == "keys" and rng.random() < .5: P["motor_prepared"] = True
    own = kind == "vis" and rng.random() < .4
    nseed = rng.getrandbits(32)
    rec.witness = drive.show(kind, sp)
    ref = Fresh(kind, sp, nseed, own).run(sp["until"])
    d = Fresh(kind, sp, nseed + 1 if rng.random() < .5 else nseed, own)
    keeper = d.keeper
    for k in range(rng.choice([1, 1, 2])):
        ts = sorted({float(e[0]) for e in ref.events})
        r = rng.random()
        cut = sp["until"] if r < .2 or not ts else rng.choice(ts) if r < .5 else rng.uniform(0, min(ts[-1] * 1.05, sp["until"])) if r < .9 else (ts[0] + ts[1]) / 2 if len(ts) > 1 else ts[0]
        if cut > 0: d.run(cut)
        rec.count("cut_busy", any(b.state != "free" for b in d.buffers.values()))
        rec.count("learned", any(d.model.productions[n]["utility"] != u for n, u in keeper.util.items()))
        rec.count("compiled", len(d.model.productions) > len(keeper.util))
        keeper.back(rng)
        before = dict(d.model.model_parameters)
        d = Again(d, nseed); d.keeper = keeper
    d.run(sp["until"])
    rec.count("again"); rec.count("own_vision", own); rec.count("prepared", bool(P.get("motor_prepared")))
    a, b = ref.trace(), d.trace()
    rec.count("events", len(a)); rec.count("presses", sum("KEY PRESSED" in e[2] for e in a)); rec.count("encoded", sum("ENCODED VIS" in e[2] for e in a))
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    sh = rec.witness
    rec.check(a == b, "trace", lambda: f"fresh {a[max(0, i-3):i+3]}, again (after a run until {cut}) {b[max(0, i-3):i+3]}", sh)
    rec.check(type(ref.crash) is type(d.crash), "crash", lambda: f"fresh {ref.crash!r}, again {d.crash!r}", sh)
    if a == b:
        rec.check(ref.util == d.util, "utilities", lambda: f"fresh {ref.util}, again {d.util}", sh)
        rec.check(drive.canon(ref.final()) == drive.canon(d.final()), "final", lambda: f"fresh {drive.canon(ref.final())}, again {drive.canon(d.final())}", sh)
    rec.check(all(d.model.model_parameters[k] == v for k, v in {**P, **sp.get('vdecoy', {})}.items()), "parameters", lambda: f"given {P}, after the simulations {d.model.model_parameters}", sh)
    rec.seen((a[:40], round(cut, 4)))
    if idx < 16: rec.sample(sh)

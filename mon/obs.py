"""Monitored simulations: the visible event stream plus a snapshot of all buffers after every atomic kernel step."""
import io, contextlib
from collections import namedtuple
import boot
from boot import pyactr, MonEnv
import ref
from pyactr.simulation import Simulation
from pyactr.buffers import Buffer

Rec = namedtuple("Rec", "kind time proc action snap")      # kind: 'event' | 'step'
Snap = namedtuple("Snap", "bufs states dms env")

class StepLimit(Exception):
    pass

class MonSim(Simulation):
    def __setattr__(self, name, value):
        object.__setattr__(self, name, value)
        if name == "current_event":
            m = self.__dict__.get("_mon_log")
            if m is not None and value is not None:
                m.on_event(value)

STATE_ATTRS = ("state", "preparation", "processor", "execution")

def find_buffers(sim, model):
    out = {}
    seen = []
    for o in [sim] + list(vars(sim).values()):
        try:
            d = vars(o)
        except TypeError:
            continue
        for v in d.values():
            if isinstance(v, dict) and v and all(isinstance(x, Buffer) for x in v.values()):
                seen.append(v)
    for v in sorted(seen, key=len):
        out.update(v)
    for d in (model.goals, model.retrievals, model.visbuffers):
        for k, v in d.items():
            out.setdefault(k, v)
    assert "g" in out and "manual" in out, "monitor cannot find the buffers"
    return out

def content(buf, cache=None):
    l = []
    for c in buf:
        if cache is not None:
            k = cache.get(id(c))
            if k is None:
                k = cache[id(c)] = (c, ref.nchunk(c))
            l.append(k[1])
        else:
            l.append(ref.nchunk(c))
    if len(l) > 1:
        return ("MULTI", tuple(l))
    return l[0] if l else None

def dm_norm(dm, cache=None):
    out = {}
    for c in dm:
        if cache is None: k = ref.nchunk(c)
        else:
            k = cache.get(id(c))
            if k is None: k = cache[id(c)] = (c, ref.nchunk(c))
            k = k[1]
        t = tuple(float(x) for x in dm[c])
        out[k] = out.get(k, ()) + t
    return out

class Monitor:
    def __init__(self, model, want_dm=False, env=None, snap_steps=True, **simargs):
        self.model, self.want_dm, self.env = model, want_dm, env
        self.log = []
        self.limit = 200000
        self.cache = {}
        simargs.setdefault("gui", False)
        simargs.setdefault("trace", False)
        self.sim = model.simulation(**simargs)
        self.kernel = MonEnv.last
        self.buffers = find_buffers(self.sim, model)
        dms = {}
        for n, d in model.decmems.items():
            dms[n] = d
        for n, b in self.buffers.items():
            if b.dm is not None and not any(b.dm is d for d in dms.values()):
                dms["of:" + n] = b.dm
        self.dms = dms
        self.attrs = {n: [a for a in STATE_ATTRS if hasattr(b, a)] for n, b in self.buffers.items()}
        self.sim.__class__ = MonSim
        self.sim.__dict__["_mon_log"] = self
        if snap_steps:
            self.kernel.hook = self.on_step
        self.first = self.snap()

    def snap(self):
        bufs = {}; states = {}
        for n, b in self.buffers.items():
            bufs[n] = content(b, self.cache)
            states[n] = {a: getattr(b, a) for a in self.attrs[n]}
        dms = {n: dm_norm(d, self.cache) for n, d in self.dms.items()} if self.want_dm else None
        env = None
        if self.env is not None:
            env = (repr(self.env.stimulus), tuple(sorted(self.env.trigger)) if self.env.trigger else (), tuple(self.env.current_focus))
        return Snap(bufs, states, dms, env)

    def on_event(self, e):
        self.log.append(Rec("event", e.time, e.proc, e.action, self.snap()))

    def on_step(self, kernel):
        s = self.snap()
        self.limit -= 1
        if self.limit < 0:
            raise StepLimit()
        if self.log and self.log[-1].snap == s and self.log[-1].kind == "step" and self.log[-1].time == kernel.now:
            return
        self.log.append(Rec("step", kernel.now, None, None, s))

    def run(self, until):
        """silences pyactr's prints"""
        with contextlib.redirect_stdout(io.StringIO()) as out:
            self.sim.run(until)
        self.out = out.getvalue()
        return self

    def events(self):
        return [r for r in self.log if r.kind == "event"]

    def idle(self):
        """no event is scheduled any more (run() leaves a spent stop event in the queue)"""
        return not any(q[-1].callbacks for q in self.kernel._queue)

    def mutated(self):
        """chunks seen in buffers whose value has changed since"""
        return [(n, ref.nchunk(c)) for c, n in self.cache.values() if ref.nchunk(c) != n]

def trace(log):
    return [(round(r.time, 4), r.proc, r.action) for r in log if r.kind == "event"]

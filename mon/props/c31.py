"""C31: a simulation shown in a window."""
import tkstub
tkstub.install()
import threading, random, sys, time, types, contextlib
import boot, drive, genvis, ref, obs
from boot import MonEnv
from ref import con
import numpy
PROPERTY = "C31"
N = {"quick": 1200, "thorough": 40000}
TECHNIQUE = "recorded interleavings: the simulation thread and the window's loop run with injected delays against a recording stand-in of tkinter; the log of kernel steps, window callbacks and canvas operations is checked offline (order, completeness, thread confinement), the events against the windowless run"
RULE = ("a case is a random vision or key-press model on a changing screen run without and with a window (the recording stand-in of tkinter), with random delays in both threads, in real time (time.sleep replaced) or not, from time 0 or another start time, "
        "some with attributes the canvas does not know, with empty screens and with an error at some stage; distinct: (trace, order of steps and callbacks)")
REQUIRE = {"windows": 1000, "screens": 1500, "screens_due": 1200, "foci": 1500, "foci_due": 1000, "blank": 60, "attributes": 200, "errors": 30, "realtime": 150, "ticks_between_steps": 3000, "shifted": 150}
ASSUMPTIONS = ["tkinter is not installed; a recording stand-in with Tk's option names for canvas items takes its place"]

def texts(stim):
    return tuple(sorted((str(o["text"]), tuple(float(x) for x in o["position"])) for o in stim.values()))

class FakeTime(types.ModuleType):
    """the time module for pyactr.simulation, with a sleep a thousand times faster"""
    def __init__(self):
        super().__init__("time"); self.slept = 0.0
    def __getattr__(self, n): return getattr(time, n)
    def sleep(self, s):
        if s < 0: raise ValueError("sleep length must be non-negative")
        self.slept += s; time.sleep(min(s / 1000, .005))

def window(kind, sp, ns, rng, T, realtime):
    """a run in a window -> (Drive, world)"""
    w = tkstub.world = tkstub.World(random.Random(rng.getrandbits(32)))
    before = set(threading.enumerate())
    tkstub.alive = lambda: any(t.is_alive() for t in threading.enumerate() if t not in before)
    failed = []
    old = threading.excepthook, sys.getswitchinterval(), boot.pyactr.simulation.__dict__.get("time")
    threading.excepthook = lambda a: failed.append(a.exc_value)
    fake = FakeTime()
    d = drive.Drive.__new__(drive.Drive)
    orig = drive.build
    def build(k, s, shift):
        m, env, args = orig(k, s, shift)
        sim = m.simulation
        m.simulation = lambda gui=False, trace=False, realtime=False, **a: sim(gui=True, trace=True, realtime=w.realtime, **a)
        return m, env, args
    w.realtime = realtime
    drive.build = build
    lag = rng.choice([0, 0, .0003, .002])
    hr = random.Random(rng.getrandbits(32))
    try:
        drive.Drive.__init__(d, kind, sp, ns, initial_time=T or None, shift=T)
        d.fake = fake
        boot.pyactr.simulation.__dict__["time"] = fake
        sys.setswitchinterval(rng.choice([1e-5, 1e-4, .005]))
        env = d.env; lim = [100000]
        def hook(kernel):
            w.log.append(("step", None if env.stimulus is None else texts(env.stimulus), tuple(map(float, env.current_focus))))
            lim[0] -= 1
            if lim[0] < 0: raise obs.StepLimit()
            if lag and hr.random() < .15: time.sleep(hr.random() * lag)
        d.kernel.hook = hook
        with contextlib.redirect_stdout(d.out):
            try: d.sim.run(T + 2000)
            except SystemExit: pass
            except Exception as e: d.crash = e
            t0 = time.time()
            while tkstub.alive() and time.time() - t0 < 20: time.sleep(.001)
        w.running = tkstub.alive()
        if failed and d.crash is None: d.crash = failed[0]
    finally:
        drive.build = orig
        threading.excepthook = old[0]; sys.setswitchinterval(old[1]); d.__dict__.get("kernel").__dict__["hook"] = None
        if old[2] is not None: boot.pyactr.simulation.__dict__["time"] = old[2]
    return d, w

def judge(w, rec, sh, crashed):
    log = w.log
    ticks = [i for i, x in enumerate(log) if x[0] == "tick"]; steps = [i for i, x in enumerate(log) if x[0] == "step"]
    rec.count("ticks_between_steps", sum(1 for i, x in enumerate(log) if x[0] == "tick" and i + 1 < len(log) and steps and steps[0] < i < steps[-1]))
    nxt = {a: b for a, b in zip(steps, steps[1:])}
    # canvas at the start of every callback and at the end
    cur = ((), ()); at = []
    for i, x in enumerate(log):
        if x[0] == "op": cur = x[1]
        elif x[0] == "tick": at.append((i, cur))
    at.append((len(log), cur))
    for what, j, pos in (("screen", 0, 1), ("focus", 1, 2)):
        seq = []                                 # (log index, what has to be seen)
        last = None
        for i in steps:
            v = log[i][pos]
            if v is None: continue
            if pos == 2: v = (v,)
            if v != last: seq.append((i, v)); last = v
        rec.count("screens" if pos == 1 else "foci", len(seq))
        if pos == 1: rec.count("blank", sum(not v for _, v in seq))
        # every one is drawn, in order
        due = [k for k, (i, v) in enumerate(seq) if ticks and i in nxt and nxt[i] < ticks[-1]]
        rec.count("screens_due" if pos == 1 else "foci_due", len(due))
        ops = [x[1][j] for x in log if x[0] == "op"]; p = 0
        for k in due:
            v = seq[k][1]; q = p
            while q < len(ops) and ops[q] != v: q += 1
            if not rec.check(q < len(ops) or not v, what + "-not-drawn", lambda: f"{what} {v} (number {k} of {len(seq)}: {[x for _, x in seq]}) was not drawn after the ones before it; drawn {ops[:30]}", sh): return
            p = min(q, len(ops) - 1) if ops else 0
        # what is on display between callbacks is one of them, not older than what was reported before the last callback
        k = -1; prevtick = -1
        for i, c in at:
            need = max([n for n, (a, v) in enumerate(seq) if a in nxt and nxt[a] < prevtick], default=-1)
            lo = max(k, need)
            have = c[j]
            ok = [n for n in range(max(lo, 0), len(seq)) if seq[n][1] == have and seq[n][0] < i]
            if not ok:
                if lo == -1 and not have: prevtick = i; continue
                if crashed: return
                rec.violation(what + "-displayed", f"{what} on display {have}; expected number {lo} or later of {[x for _, x in seq]}", sh); return
            rec.count("checks")
            k = ok[0]; prevtick = i

def case(rng, idx, rec, tier):
    ns = rng.getrandbits(31)
    kind = "vis"
    sp = genvis.waiting(rng) if idx % 2 else genvis.spec(rng, emma_noise=rng.random() < .2)
    genvis.separate(sp)
    sts = sp["envargs"]["stimuli"]
    if rng.random() < .3 and len(sts) > 1:
        k = rng.randrange(1, len(sts)); sts[k] = {}
    if rng.random() < .4: sp["envargs"]["times"] = [rng.choice([.05, .2]) for _ in sts]
    if rng.random() < .3:                        # options of the canvas
        for s in sts:
            for o in s.values():
                if rng.random() < .5: o["fill"] = rng.choice(["red", "blue"])
    rec.count("attributes", any(set(o) & {"color", "shape", "externally_visible", "visual_typename"} for s in sts for o in s.values()))
    bad = rng.random() < .12 and len(sp["rules"]) > 1
    if bad:
        r = rng.choice(sp["rules"][1:])
        r["rhs"] = [x for x in r["rhs"] if x[1] != "g"] + [("=", "g", ("tg", {"txt": con(var="unbound_v")}))]
    T = rng.choice([0, 0, 0, 10, 2.5, -3]); realtime = rng.random() < .25
    rec.witness = sh = drive.show(kind, sp) + f"\nstart {T} realtime {realtime}"
    d0 = drive.Drive(kind, sp, ns, initial_time=T, shift=T).run(T + 2000)
    if d0.crash is None and d0.peek() < float("inf"): rec.count("endless"); return
    r0 = drive.result(d0); ev = r0["trace"]
    d, w = window(kind, sp, ns, rng, T, realtime)
    rec.count("windows"); rec.count("events", len(ev)); rec.count("realtime", realtime); rec.count("shifted", T != 0)
    rec.seen((tuple(ev), "".join(x[0][0] for x in w.log)))
    if not rec.check(not w.stalled and not w.running, "not-ended", lambda: f"the run in the window does not end after {d.events[-1:]} ({d.crash!r})", sh): return
    rec.count("errors", d0.crash is not None)
    if not rec.check(type(d.crash) == type(d0.crash), "exception", lambda: f"in a window {d.crash!r}, without {d0.crash!r}", sh): return
    r = drive.result(d)
    for i, (x, y) in enumerate(zip(ev, r["trace"])):
        if not rec.check(x == y, "trace", lambda: f"event {i} in a window {y} instead of {x}; before {ev[max(0, i-4):i]}", sh): return
    if not rec.check(len(ev) == len(r["trace"]), "trace-length", lambda: f"{len(r['trace'])} events in a window, {len(ev)} without; then {(ev[len(r['trace']):] or r['trace'][len(ev):])[:2]}", sh): return
    if not rec.check(r0["final"] == r["final"], "final", lambda: f"final state in a window {r['final']} instead of {r0['final']}", sh): return
    out = d.out.getvalue().splitlines()
    want = [str(tuple(e)) for e in d.events if e[1] != "ENVIRONMENT"]; have = [l for l in out if l.startswith("(")]
    if d.crash is None: rec.check(dedup(want) == dedup(have), "printed-trace", lambda: f"printed {[(x, y) for x, y in zip(want, have) if x != y][:1] or (len(want), len(have), want[-2:], have[-2:])}", sh)
    if realtime and d.events: rec.check(d.fake.slept <= float(d.events[-1][0]) - T + 1e-3, "realtime", lambda: f"{d.fake.slept} s waited for events from {T} to {d.events[-1][0]}", sh)
    rec.check(w.threads == {w.owner}, "thread", lambda: f"tkinter was called from {len(w.threads)} threads", sh)
    judge(w, rec, sh, d.crash is not None)
    if idx < 16: rec.sample("".join(x[0][0] for x in w.log)[:200])

def dedup(l): return [x for i, x in enumerate(l) if i == 0 or l[i - 1] != x]

"""C24: isolation of models."""
import copy, os, pickle, struct, sys
import boot
import drive
PROPERTY = "C24"
N = {"quick": 480, "thorough": 16000}
TECHNIQUE = "differential monitoring: recorded events, final buffers, memories, utilities and parameters of a model simulated alone in a pristine process, compared with those when other models are created, configured and stepped before and in between"
RULE = ("a case is two or three random models (retrieval with similarities and spreading, utility learning, key presses, vision); each is run alone in a process forked before any other model existed, and then together: "
        "created in random order, their simulations opened in random order, stepped in random interleavings, settings of one changed on the way; the results have to be the same; distinct: traces")
REQUIRE = {"models": 800, "events": 20000, "switches": 5000, "with_similarities": 100, "with_spreading": 100, "rewarded": 100, "vision": 80}

def rd(fd, n):
    b = b""
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x: raise EOFError
        b += x
    return b
def wr(fd, obj):
    b = pickle.dumps(obj); b = struct.pack("<I", len(b)) + b
    while b: b = b[os.write(fd, b):]
def get(fd): return pickle.loads(rd(fd, struct.unpack("<I", rd(fd, 4))[0]))

class Zygote:
    """a process in which no model was ever created; forks a child for every job"""
    def __init__(self):
        r1, w1 = os.pipe(); r2, w2 = os.pipe()
        if os.fork() == 0:
            try:
                os.close(w1); os.close(r2)
                while True:
                    job = get(r1)
                    if os.fork() == 0:
                        try:
                            try: out = alone(*job)
                            except BaseException as e: out = repr(e)
                            wr(w2, out)
                        finally: os._exit(0)
                    os.wait()
            finally: os._exit(0)
        os.close(r1); os.close(w2); self.w, self.r = w1, r2
    def __call__(self, *job):
        wr(self.w, job); return get(self.r)
zygote = None

def outcome(d):
    r = drive.result(d)
    p = d.model.productions
    r["util"] = {n: (round(float(p[n]["utility"]), 9), p[n]["reward"]) for n in p}
    r["params"] = drive.canon({k: v for k, v in d.model.model_parameters.items()})
    r["finst"] = {n: [drive.canon(drive.ref.nchunk(c)) for c in b.recent] for n, b in d.model.retrievals.items()}
    r["focus"] = str(d.env.current_focus) if d.env else None
    return r

def alone(kind, sp, nseed):
    return outcome(drive.Drive(kind, sp, nseed).run(sp["until"]))

def case(rng, idx, rec, tier):
    global zygote
    if zygote is None: zygote = Zygote()
    jobs = []
    for i in range(rng.choice([2, 2, 3])):
        k = rng.choice(["ret", "ret", "ret", "vis", "keys", "chain", "model"])
        f = dict(pm=.7, spread=.6, nested=.5, subsymbolic=True) if k == "ret" and rng.random() < .8 else {}
        kind, sp = drive.make(rng, noise=0, kinds=(k,)) if not f else ("ret", drive.genret.spec(rng, recall=.3, until=rng.choice([20.0, 500.0]), nreq=rng.choice([2, 3, 5]), **f))
        sp["until"] = min(sp["until"], 5000.0)
        jobs.append((kind, sp, rng.getrandbits(31)))
    rec.witness = sh = "\n-----\n".join(drive.show(k, s) for k, s, n in jobs)
    want = [zygote(*j) for j in jobs]
    if any(isinstance(w, str) for w in want): raise RuntimeError([w for w in want if isinstance(w, str)][0])
    # together: build all, open all simulations, step in a random interleaving
    D = [None] * len(jobs)
    order = list(range(len(jobs))); rng.shuffle(order)
    late = rng.random() < .4                # some models are created when others are under way
    for j in order:
        if not (late and j == order[-1]): D[j] = drive.Drive(*jobs[j])
    mode = rng.choice(["steps", "steps", "blocks", "whole"])
    live = set(range(len(jobs)))
    n = 0
    while live:
        j = rng.choice(sorted(live)); n += 1
        if D[j] is None:
            if n < 5 and len(live) > 1: continue
            D[j] = drive.Drive(*jobs[j])
        d, until = D[j], jobs[j][1]["until"]
        rec.count("switches")
        if rng.random() < .05:              # settings of a model that nobody runs
            other = drive.build(jobs[j][0], copy.deepcopy(jobs[j][1]))[0]
            for p, v in rng.sample([("decay", .9), ("latency_factor", 3), ("rule_firing", .2), ("utility_alpha", .9), ("subsymbolic", True)], 2): other.model_parameters[p] = v
            other.model_parameters["buffer_spreading_activation"]["g"] = 3
            other.set_similarities("x", "y", -.123); other.set_similarities("y", "z", -.9)
            for g in other.goals.values(): g.delay = .3
            for r in other.retrievals.values(): r.finst = 7
            if rng.random() < .5: other.simulation(gui=False, trace=False, **({} if jobs[j][0] != "vis" else drive.genvis.envargs(jobs[j][1], drive.genvis.env_of(jobs[j][1]))))
        if mode == "whole": t = until
        else:
            t = d.peek()
            if mode == "blocks": t += rng.choice([.01, .06, .2, 1])
            t = min(until, t + 1e-7)
        if t <= d.kernel.now: t = until
        d.run(t)
        if d.crash is not None or t >= until: live.discard(j)
    got = [outcome(d) for d in D]
    for (k, s, _), a, b in zip(jobs, want, got):
        rec.count("models"); rec.count("events", len(a["trace"])); rec.seen(tuple(a["trace"]))
        rec.count("with_similarities", bool(s.get("sims"))); rec.count("with_spreading", bool(s["params"].get("buffer_spreading_activation")))
        rec.count("rewarded", bool(s["params"].get("utility_learning"))); rec.count("vision", k == "vis")
        from props import c17
        m = c17.diff(a, b)
        if not rec.check(m is None, "differs", lambda: f"{k} model alone vs together ({mode}): {m}", sh): return
        for x in ("util", "params", "finst", "focus"):
            if not rec.check(a[x] == b[x], x, lambda: f"{k} model: {x} alone {a[x]}, together {b[x]}", sh): return
    if idx < 16: rec.sample(str([w["trace"][:3] for w in want]))

"""C25: noise."""
import math
import boot
from boot import pyactr
import ref, gen, genmodel, drive, vis
from ref import con
from pyactr import chunks as C
PROPERTY = "C25"
N = {"quick": 100, "thorough": 3000}
CASE_CPU = 240
TECHNIQUE = "goodness-of-fit oracles (Kolmogorov-Smirnov, choice and failure frequencies, serial independence, all at 6.5 sigma) over the durations, retrieved chunks and selected rules recorded in long noisy runs; identity of runs with different seeds when noise is off"
RULE = ("a case is one long run (hundreds of noisy events) of a model retrieving one of 1-4 chunks again and again (noise set in the model or in the buffer, threshold or not), choosing one of 2-4 rules again and again, or shifting attention between two objects with EMMA noise and noise of the landing site or without them, "
        "or two runs of a noise-free model with different seeds; distinct: configuration")
REQUIRE = {"samples_activation": 20000, "samples_utility": 30000, "samples_duration": 20000, "failures": 1000, "off_runs": 30, "samples_landing": 3000, "exact_landings": 3000, "nosub_choices": 3000}
Z = 6.5

def lcdf(x): return 1 / (1 + math.exp(-x)) if x > -700 else 0.0
def erlang9(x):
    """CDF of the gamma distribution with shape 9 and scale 1"""
    if x <= 0: return 0.0
    t = s = math.exp(-x)
    for k in range(1, 9): t *= x / k; s += t
    return max(0.0, 1 - s)
def ks(xs, cdf):
    xs = sorted(xs); n = len(xs)
    return max(max(abs(cdf(x) - i / n), abs(cdf(x) - (i + 1) / n)) for i, x in enumerate(xs))
def kslimit(n): return math.sqrt(-math.log(1e-9 / 2) / (2 * n)) + .003
def winners(u, s):
    """probability that u_i + logistic noise of scale s is the greatest, by integration"""
    lo, hi = min(u) - 40 * s, max(u) + 40 * s; k = 40000; h = (hi - lo) / k
    p = [0.0] * len(u)
    for j in range(k + 1):
        x = lo + j * h
        F = [lcdf((x - a) / s) for a in u]
        for i, a in enumerate(u):
            d = F[i] * (1 - F[i]) / s
            if d < 1e-18: continue
            for m, f in enumerate(F):
                if m != i: d *= f
            p[i] += d * h
    return p
def corr(xs, ys):
    n = len(xs); mx, my = sum(xs) / n, sum(ys) / n
    sx, sy = sum((x - mx) ** 2 for x in xs), sum((y - my) ** 2 for y in ys)
    return sum((x - mx) * (y - my) for x, y in zip(xs, ys)) / math.sqrt(sx * sy) if sx and sy else 0.0
def ranks(xs):
    o = sorted(range(len(xs)), key=lambda i: xs[i]); r = [0] * len(xs)
    for k, i in enumerate(o): r[i] = k
    return r
def frequencies(rec, kind, counts, p, n, msg, sh):
    for i, q in enumerate(p):
        sd = math.sqrt(n * q * (1 - q)) + 1
        rec.check(abs(counts.get(i, 0) - n * q) <= Z * sd, kind, lambda: f"{msg}: option {i} taken {counts.get(i, 0)} times of {n}, expected probability {q:.4f}; all {counts}, {p}", sh)
def serial(rec, kind, xs, msg, sh):
    if len(xs) < 100: return
    r = ranks(xs); c = corr(r[:-1], r[1:])
    rec.check(abs(c) < Z / math.sqrt(len(xs)), kind, lambda: f"{msg}: rank correlation of successive samples {c:.3f} over {len(xs)}", sh)

def events(model, until, env=None, stop=None, **kw):
    """the events until the time given, or until stop, called with each event, is true"""
    d = drive.Drive.__new__(drive.Drive)
    import io, obs
    d.kind = None; d.sp = {"params": {}}; d.model, d.env = model, env; d.learning = None; d.util = {}
    d.sim = model.simulation(gui=False, trace=False, **kw); d.kernel = drive.MonEnv.last
    d.events = []; d.crash = None; d.out = io.StringIO()
    d.sim.__class__ = obs.MonSim; d.sim.__dict__["_mon_log"] = d
    if stop is None: d.run(until)
    else:
        i = 0; done = False
        while not done and d.crash is None and d.peek() < until:
            d.go(d.sim.step)
            while i < len(d.events): done = stop(d.events[i]) or done; i += 1
    if d.crash: raise d.crash
    return d.events

def activation(rng, rec, tier):
    m = rng.choice([1, 1, 2, 3, 4]); s = rng.choice([.1, .25, .5, 1.0, 2.0]); F = rng.choice([1000.0, 5000.0]); f = rng.choice([1, .5, 1.0])
    where = rng.choice(["model", "model", "buffer"])
    acts = [round(rng.uniform(-1, 1), 2) for _ in range(m)]; thr = rng.choice([-100.0, -100.0, round(rng.uniform(-.5, 1.5), 2)])
    P = dict(subsymbolic=True, baselevel_learning=False, latency_factor=F, latency_exponent=f, retrieval_threshold=thr)
    bp = {}
    if where == "model": P["instantaneous_noise"] = s
    else: bp["instantaneous_noise"] = s; P["instantaneous_noise"] = rng.choice([0, 0, s * 3])
    P["utility_noise"] = rng.choice([0, 0, 2.0])
    C.chunktype("tn", "k v"); C.chunktype("ts", "s")
    mod = pyactr.ACTRModel(**P)
    mod.goal.add(C.Chunk("ts", s="go"))
    for i, a in enumerate(acts):
        c = C.Chunk("tn", k="x", v=f"v{i}"); mod.decmem.add(c, -1.0); mod.decmem.add_activation(c, a)
    mod.decmem.add(C.Chunk("tn", k="y", v="other"), -1.0)
    if bp: mod.retrieval.model_parameters = bp
    mod.productionstring(name="ask", string="=g> isa ts s go ?retrieval> state free ==> =g> isa ts s go +retrieval> isa tn k x")
    mod.productionstring(name="again", string="=g> isa ts s go ?retrieval> state error ==> =g> isa ts s go +retrieval> isa tn k x")
    A = [math.log(1 + math.exp(a)) for a in acts]
    cfg = f"acts {acts} noise {s} in {where} {P} {bp}"; rec.witness = cfg; rec.seen(cfg); rec.sample(cfg)
    n = 900 if tier == "quick" else 4000; left = [n]
    def stop(e):
        if e[1] == "retrieval" and e[2].startswith("RETRIEVED: "): left[0] -= 1
        return left[0] <= 0
    ev = events(mod, 1e15, stop=stop)
    start = None; lat, win, fails = [], {}, 0
    for t, p, a in ev:
        if p != "retrieval": continue
        if a == "START RETRIEVAL": start = t
        elif a.startswith("RETRIEVED: "):
            if a.endswith("None"): fails += 1; rec.check(abs(t - start - F * math.exp(-f * thr)) < 2e-4 + t * 1e-12, "failure-time", lambda: f"{cfg}: failure after {t - start}", cfg)
            else:
                i = int(a[a.index("v= v") + 4:].split(",")[0].rstrip(")")); lat.append(t - start); win[i] = win.get(i, 0) + 1
            start = None
        if len(lat) + fails >= n: break
    xs = [-math.log(max(t, 1e-4) / F) / f for t in lat]; tot = len(xs) + fails
    rec.count("samples_activation", tot); rec.count("failures", fails)
    cdf = lambda x: math.prod(lcdf((x - a) / s) for a in A)
    pf = cdf(thr)
    if tot == n:          # the number of requests is fixed in advance, so that short latencies are not preferred
        frequencies(rec, "failure-frequency", {0: fails}, [pf], tot, cfg, cfg)
        g = (lambda x: (cdf(x) - pf) / (1 - pf)) if pf < 1 else cdf
        if len(xs) > 100:
            D = ks(xs, g); rec.check(D < kslimit(len(xs)), "activation-noise", lambda: f"{cfg}: KS distance {D:.3f} of {len(xs)} activations from the expected distribution (limit {kslimit(len(xs)):.3f})", cfg)
            if m == 1 and pf < .01:
                mad = sum(abs(x - A[0]) for x in xs) / len(xs); e = 2 * math.log(2) * s
                rec.check(abs(mad - e) < Z * 1.17 * s / math.sqrt(len(xs)) + .02 * e * (pf > 1e-9), "activation-spread", lambda: f"{cfg}: mean absolute noise {mad}, expected {e}", cfg)
                mn = sum(xs) / len(xs); rec.check(abs(mn - A[0]) < Z * 1.82 * s / math.sqrt(len(xs)) + .05 * s * (pf > 1e-9), "activation-mean", lambda: f"{cfg}: mean activation {mn}, expected {A[0]}", cfg)
            if m > 1 and thr == -100.0: frequencies(rec, "activation-choice", win, winners(A, s), tot, cfg, cfg)
            serial(rec, "activation-serial", xs, cfg, cfg)
    else: rec.count("short_runs")

def utility(rng, rec, tier):
    k = rng.choice([2, 3, 4]); s = rng.choice([.25, .5, 1.0, 2.0]); u = [rng.choice([0, .5, 1, 1.5, 2.25]) for _ in range(k)]
    sub = rng.random() < .8
    P = dict(subsymbolic=sub, utility_noise=s, instantaneous_noise=rng.choice([0, 0, 3.0]), rule_firing=.01)
    learn = rng.random() < .2
    if learn: P["utility_learning"] = True
    C.chunktype("ts", "s")
    mod = pyactr.ACTRModel(**P); mod.goal.add(C.Chunk("ts", s="go"))
    for i, x in enumerate(u): mod.productionstring(name=f"r{i}", string="=g> isa ts s go ==> =g> isa ts s go", utility=x)
    mod.productionstring(name="never", string="=g> isa ts s stop ==> =g> isa ts s go", utility=50)
    cfg = f"utilities {u} {P}"; rec.witness = cfg; rec.seen(cfg); rec.sample(cfg)
    n = 2400 if tier == "quick" else 10000
    seq = [int(a[15:]) if 0 else int(a.split(" r")[-1]) for t, p, a in events(mod, n * .01) if a.startswith("RULE SELECTED: r")]
    c = {}
    for i in seq: c[i] = c.get(i, 0) + 1
    if sub:
        rec.count("samples_utility", len(seq))
        p = winners(u, s); frequencies(rec, "utility-choice", c, p, len(seq), cfg, cfg)
        rep = sum(x == y for x, y in zip(seq, seq[1:])); q = sum(x * x for x in p)
        rec.check(abs(rep - (len(seq) - 1) * q) < Z * 2 * math.sqrt(len(seq) * q * (1 - q)) + 2, "utility-serial", lambda: f"{cfg}: same rule twice in a row {rep} times of {len(seq) - 1}, expected {q:.4f}", cfg)
    else:
        rec.count("nosub_choices", len(seq))
        rec.check(all(u[i] == max(u) for i in c) and len(c) == 1, "utility-nosub", lambda: f"{cfg}: without the subsymbolic system rules were selected {c}", cfg)
    rec.check(all(mod.productions[f"r{i}"]["utility"] == x for i, x in enumerate(u)), "utility-drift", lambda: f"{cfg}: utilities afterwards {[mod.productions[f'r{i}']['utility'] for i in range(k)]}", cfg)

def emma(rng, rec, tier):
    size, ss, vd = (1366, 768), (50, 28), rng.choice([40, 50, 80])
    w = rng.randint(50, 1300); a, b = (20, 300), (20 + w, 300 + rng.randint(0, 200)); delay = rng.choice([1, 2, 3]); K = rng.choice([.01, .02]); ka = rng.choice([1, .5])
    noise = rng.random() < .85; land = rng.random() < .5
    env = pyactr.Environment(size=size, simulated_screen_size=ss, viewing_distance=vd, focus_position=a)
    C.chunktype("ts", "s")
    mod = pyactr.ACTRModel(environment=env, automatic_visual_search=False, emma_noise=noise, emma_landing_site_noise=land, eye_mvt_scaling_parameter=K, eye_mvt_angle_parameter=ka)
    mod.goal.add(C.Chunk("ts", s="l0"))
    for i in (0, 1):
        mod.productionstring(name=f"look{i}", string=f"=g> isa ts s l{i} ?visual> state free ==> =g> isa ts s m{i} +visual_location> isa _visuallocation screen_x {'highest' if i == 0 else 'lowest'}")
        mod.productionstring(name=f"move{i}", string=f"=g> isa ts s m{i} =visual_location> isa _visuallocation ==> =g> isa ts s w{i} +visual> isa _visual cmd move_attention screen_pos =visual_location")
        mod.productionstring(name=f"wait{i}", string=f"=g> isa ts s w{i} ?visual> state free execution free preparation free ==> =g> isa ts s l{1 - i}")
    mod.visualBuffer("visual", "visual_location", mod.decmem, finst=0)
    cfg = f"objects {a} {b} delay {delay} K {K} k {ka} distance {vd} noise {noise} landing noise {land}"; rec.witness = cfg; rec.seen(cfg); rec.sample(cfg)
    n = 700 if tier == "quick" else 3000
    st = {"A": {"text": "A", "position": a, "vis_delay": delay}, "B": {"text": "B", "position": b, "vis_delay": delay}}
    ev = events(mod, n * .42, env=env, environment_process=env.environment_process, stimuli=[st], triggers="x", times=1e6)
    pre, exe, enc, pos = [], [], [], []; t0 = t1 = None; f0 = at = a; goal = b; geo = {"env": {"size": size, "simulated_screen_size": ss, "viewing_distance": vd}}
    for t, p, x in ev:
        if p != "visual": continue
        if x.startswith("PREPARATION TO SHIFT VISUAL ATTENTION STARTED"): t0 = t; t1 = None; f0 = at; ang = vis.angle(geo, f0, goal)
        elif x.startswith("PREPARATION TO SHIFT VISUAL ATTENTION COMPLETED"): t1 = t; pre.append((t - t0, .135))
        elif x.startswith("ENCODED VIS"): enc.append((t - t0, K * delay * math.exp(ka * ang)))
        elif x.startswith("SHIFT COMPLETE"):
            exe.append((t - t1, .07 + .002 * math.degrees(ang)))
            at = tuple(int(i) for i in x[x.index("[") + 1:x.index("]")].split(",")); pos.append((at, goal, math.sqrt(.1 * math.degrees(ang)))); goal = a if goal == b else b
    for kind, xs in (("preparation", pre), ("execution", exe), ("encoding", enc)):
        if not noise:
            rec.count("off_durations", len(xs))
            bad = [x for x in xs if abs(x[0] - x[1]) >= 2.1e-4]
            rec.check(not bad, "duration-off", lambda: f"{cfg}: {kind} without noise took {[x for x, _ in bad[:6]]}, expected {[y for _, y in bad[:6]]}", cfg); continue
        rec.count("samples_duration", len(xs))
        if len(xs) < 100: continue
        mean = sum(y for _, y in xs) / len(xs); xs = [x / y for x, y in xs]
        D = ks(xs, lambda x: erlang9(9 * x)); lim = kslimit(len(xs)) + 1.4e-4 / mean
        rec.check(D < lim, "duration-" + kind, lambda: f"{cfg}: KS distance {D:.3f} of {len(xs)} {kind} times (mean {sum(xs)/len(xs):.5f} of what it should be) from gamma(9) with mean {mean:.5f} (limit {lim:.3f})", cfg)
        mn = sum(xs) / len(xs); rec.check(abs(mn - 1) < Z / 3 / math.sqrt(len(xs)) + 1e-4 / mean, "duration-mean-" + kind, lambda: f"{cfg}: mean {kind} time {mn:.5f} of the expected one, {mean:.5f}", cfg)
        serial(rec, "duration-serial", xs, cfg + " " + kind, cfg)
    if not land:
        rec.count("exact_landings", len(pos))
        bad = [x for x in pos if x[0] != x[1]]
        rec.check(not bad, "landing-off", lambda: f"{cfg}: without noise the eyes landed at {[x[0] for x in bad[:4]]} instead of {[x[1] for x in bad[:4]]}", cfg)
    elif len(pos) >= 100:
        # the eyes land in whole pixels, below the normally distributed site
        rec.count("samples_landing", len(pos)); phi = lambda x: .5 * math.erfc(-x / math.sqrt(2)); lim = kslimit(len(pos)) + .005
        for ax in (0, 1):
            ds = [(p[ax] - g[ax], sd) for p, g, sd in pos]
            for k in range(min(d for d, _ in ds) - 1, max(d for d, _ in ds) + 1):
                F = sum(d <= k for d, _ in ds) / len(ds); G = sum(phi((k + 1) / sd) for _, sd in ds) / len(ds)
                rec.check(abs(F - G) < lim, "landing", lambda: f"{cfg}: {F:.3f} of {len(ds)} landings are not more than {k} {'below' if ax else 'right of'} the object, expected {G:.3f} (sd {ds[-1][1]:.3f} pixels)", cfg)
        xs = [p[0] - g[0] for p, g, _ in pos]; ys = [p[1] - g[1] for p, g, _ in pos]; c = corr(xs, ys); d = corr(xs[1:], xs[:-1])
        rec.check(abs(c) < Z / math.sqrt(len(xs)) and abs(d) < Z / math.sqrt(len(xs)), "landing-dependence", lambda: f"{cfg}: correlation of the landing errors of both directions {c:.3f}, of successive ones {d:.3f}", cfg)
    if noise:
        n = min(len(pre), len(exe), len(enc)); R = lambda l: ranks([x / y for x, y in l[:n]]); c = corr(R(pre), R(exe)); d = corr(R(pre), R(enc))
        rec.check(abs(c) < Z / math.sqrt(n) and abs(d) < Z / math.sqrt(n), "duration-dependence", lambda: f"{cfg}: rank correlation of preparation with execution {c:.3f}, with encoding {d:.3f}", cfg)

def off(rng, rec, tier):
    from props import c17
    for i in range(3):
        kind, sp = drive.make(rng, noise=0, idx=rng.randrange(5))
        P = sp["params"]
        if not P.get("subsymbolic"): P["utility_noise"] = 2.0; P["instantaneous_noise"] = 1.0       # no subsymbolic system, no noise
        elif rng.random() < .5: P["utility_noise"] = 0; P["instantaneous_noise"] = 0
        for b in sp.get("bufparams", {}).values(): b.pop("subsymbolic", None)
        rec.witness = sh = drive.show(kind, sp); rec.count("off_runs")
        a, b = (drive.result(drive.Drive(kind, sp, rng.getrandbits(31)).run(sp["until"])) for _ in range(2))
        m = c17.diff(a, b); rec.seen(tuple(a["trace"][:50]))
        rec.check(m is None, "off-differs", lambda: f"no noise, but two runs with different seeds differ: {m}", sh)

def case(rng, idx, rec, tier):
    (activation, utility, emma, off)[idx % 4](rng, rec, tier)

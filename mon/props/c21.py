"""C21: the default environment process."""
import genmodel, monitors, obs, ref
import boot
from boot import pyactr
from props import c20
from pyactr import utilities as U
PROPERTY = "C21"
N = {"quick": 5000, "thorough": 60000}
RULE = ("a case is a model pressing keys (see C20) in an environment with 1-6 stimuli, trigger sets (single keys, several keys, space, keys never pressed) and times, given as lists or as single values to be repeated, "
        "run past the end of the last stimulus; the screen and trigger set recorded after every kernel step are compared with a timeline computed from the observed key presses; one case in five checks "
        "inconsistent argument lengths; distinct: (triggers, times, presses)")
REQUIRE = {"triggered": 1500, "timeouts": 1500, "ignored_presses": 1500, "presses_after_end": 300, "rejected": 150, "repeated_args": 300}
TECHNIQUE = "recorded screens after every kernel step compared with a timeline computed from the recorded key presses"

def args(rng, keys):
    n = rng.choice([1, 2, 3, 4, 6])
    def stim(i):
        if rng.random() < .15: return f"word{i}"
        return {f"s{i}_{j}": {"text": rng.choice(["A", "B", f"t{i}"]), "position": (rng.randint(0, 640), rng.randint(0, 360))} for j in range(rng.choice([1, 1, 2]))}
    def trig():
        r = rng.random()
        case = lambda k: rng.choice([k, k.upper(), k.lower(), k.capitalize()])
        if r < .45: return case(rng.choice(keys)) if rng.random() < .8 else "x"
        if r < .55: return case("space")
        if r < .85: return [case(rng.choice(keys + ["x", "space"])) for _ in range(rng.choice([1, 2, 3]))]
        return []
    def tset(t):
        if isinstance(t, str): return {"SPACE"} if t.upper() == "SPACE" else set(t.upper()) if t.upper() != "SPACE" else {"SPACE"}
        return {x.upper() for x in t}
    ns = n if rng.random() < .85 else 1
    nt = n if rng.random() < .75 or ns == 1 else 1
    nm = n if rng.random() < .6 else 1
    S = [stim(i) for i in range(ns)]; T = [trig() for _ in range(nt)]
    M = [rng.choice([.3, .7, 1, 2, .5, 3, .85, .1234, 1.2345, .0019, .4567]) for _ in range(nm)]
    def expand(l): return l * n if len(l) == 1 else l
    mean = [x if isinstance(x, dict) else {x: {"text": x, "position": (320, 180)}} for x in expand(S)], [tset(t) for t in expand(T)], expand(M)
    a = {"stimuli": [dict(x) if isinstance(x, dict) else x for x in S], "triggers": list(T), "times": list(M)}
    rep = n > 1 and (ns == 1 or nt == 1 or nm == 1)
    if ns == 1 and rng.random() < .4: a["stimuli"] = a["stimuli"][0]
    if nt == 1 and isinstance(T[0], str) and rng.random() < .4: a["triggers"] = T[0]
    if nm == 1 and rng.random() < .4: a["times"] = M[0]
    return a, mean, rep

def case(rng, idx, rec, tier):
    if idx % 5 == 4: return reject(rng, rec)
    sp = c20.spec(rng)
    env = pyactr.Environment(size=(640, 360), focus_position=rng.choice([None, (320, 180), (10, 10)]))
    a, (S, T, M), rep = args(rng, [k for k in sp["keys"] if len(k) == 1] or ["a"])
    start = rng.choice([0, 0, 0, 0, .2, .35]) 
    if start: a["start_time"] = start
    sp["params"].update(automatic_visual_search=rng.random() < .5, emma_noise=False)
    rec.witness = (a, genmodel.show(sp))
    if rep: rec.count("repeated_args")
    until = 9.0
    h = monitors.run(sp, until, environment=env, env_kw=dict(environment_process=env.environment_process, **a))
    presses = [(r.time, r.action.split()[-1]) for r in h.log if r.kind == "event" and r.proc == "manual" and r.action.startswith("KEY PRESSED")]
    # timeline
    t, cum, over, changes, ends = start, start, False, [(start, 0)], []
    for m in M:
        cum = round(cum + m, 6); ends.append(cum)
    bytime = True
    for k in range(len(S)):
        nxt = next((p for p in presses if p[1] in T[k] and p[0] > t + 1e-9), None)
        if nxt and abs(nxt[0] - ends[k]) < 3e-4 or bytime and any(abs(p[0] - t) < 3e-4 for p in presses): return rec.count("ambiguous")
        if nxt and nxt[0] < ends[k]:
            rec.count("triggered"); t = nxt[0]; bytime = False
        elif ends[k] < until:
            rec.count("timeouts"); t = ends[k]; bytime = True
        else: break
        if k + 1 < len(S): changes.append((t, k + 1))
        else: over = True
    lastchange = changes[-1][0]
    rec.count("ignored_presses", max(0, len(presses) - len(changes) + 1))
    if over: rec.count("presses_after_end", sum(1 for p in presses if p[0] > t))
    rec.seen((repr(T), repr(M), repr(presses), start))
    for i, r in enumerate(h.log):
        if r.time < start - 1e-6:
            continue
        nt = h.log[i + 1].time if i + 1 < len(h.log) else until + 1
        if nt < r.time + 3e-4: continue          # only the last record of an instant
        if any(abs(r.time - c) < 2e-4 and r.time < c for c, _ in changes): continue
        k = max(j for c, j in changes if c < r.time + 2e-4)
        want = repr(S[k]); have = r.snap.env[0]
        if not rec.check(want == have, "screen", lambda: f"at {r.time} the screen shows {have}, expected stimulus {k}: {want}; triggers {T} times {M} start {start} presses {presses}", rec.witness): return
        if not rec.check(r.snap.env[1] == tuple(sorted(T[k])), "trigger", lambda: f"at {r.time} the trigger set is {r.snap.env[1]}, expected {sorted(T[k])}; presses {presses} times {M}", rec.witness): return
    if idx < 16: rec.sample(rec.witness)

def reject(rng, rec):
    env = pyactr.Environment()
    ns, nt, nm = [rng.choice([1, 2, 3, 4]) for _ in range(3)]
    n = max(ns, nt)
    if nm not in (1, n) and ns == nt == 1: return rec.count("unspecified")
    ok = (ns in (1, n) and nt in (1, n)) and nm in (1, n)
    S = [{f"s{i}": {"text": "x", "position": (i, i)}} for i in range(ns)]
    rec.witness = (ns, nt, nm)
    try:
        list(env.environment_process(stimuli=S, triggers=["a"] * nt, times=[1] * nm))
        res = True
    except U.ACTRError:
        res = False
    rec.count("rejected" if not ok else "accepted")
    rec.check(res == ok, "lengths", lambda: f"stimuli/triggers/times of lengths {ns}/{nt}/{nm}: {'accepted' if res else 'rejected'}")

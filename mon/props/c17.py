"""C17: reproducibility."""
import pickle, subprocess, sys, os, random
import drive
PROPERTY = "C17"
N = {"quick": 280, "thorough": 8000}
TECHNIQUE = "differential monitoring: the visible events, the printed trace and the final state of one model driven in several ways are compared event by event; online checks of the clock"
RULE = ("a case is a random model (delayed goals, noisy subsymbolic retrieval, utility learning and noise, key presses, vision and a changing screen) run in one piece, and again: repeated, in several pieces cut at random moments and at moments of events, "
        "step by step, with the trace printed, in scaled real time, and in child processes with other hash seeds; distinct: trace")
REQUIRE = {"events": 10000, "runs_repeat": 300, "runs_split": 300, "runs_step": 300, "runs_print": 300, "runs_realtime": 80, "runs_child": 300, "noisy": 60, "clocks": 10000, "cuts_at_events": 300, "compiled": 200, "compiled_at_end": 10}
MINE = int(os.environ.get("VERIF_CHILD", "24"))

def diff(a, b):
    for i, (x, y) in enumerate(zip(a["trace"], b["trace"])):
        if x != y: return f"event {i}: {x} vs {y}; before {a['trace'][max(0, i-3):i]}"
    if len(a["trace"]) != len(b["trace"]): return f"{len(a['trace'])} vs {len(b['trace'])} events; next {(a['trace'] + b['trace'])[min(len(a['trace']), len(b['trace'])):][:1]}" if False else f"{len(a['trace'])} vs {len(b['trace'])} events, last common {a['trace'][:len(b['trace'])][-1:]}, then {(a['trace'][len(b['trace']):] or b['trace'][len(a['trace']):])[:1]}"
    if a["crash"] != b["crash"]: return f"exception {a['crash']} vs {b['crash']}"
    if a["final"] != b["final"]: return f"final state {a['final']} vs {b['final']}"

def case(rng, idx, rec, tier):
    if idx % 40 == 39: return children(rng, rec)
    kind, sp = drive.make(rng, idx=idx, compilation=True) if idx % 6 != 5 else drive.make(rng, noise=.2, kinds=('comp',))
    rec.witness = drive.show(kind, sp); sh = rec.witness
    until = sp["until"]; ns = rng.getrandbits(31)
    d0 = drive.Drive(kind, sp, ns).run(until); r0 = drive.result(d0); ev = r0["trace"]
    rec.count("events", len(ev)); rec.seen(tuple(ev)); rec.count("noisy", bool(sp["params"].get("emma_noise") or sp["params"].get("instantaneous_noise") or sp["params"].get("utility_noise")))
    rec.count("compiled", sum(" and " in n for n in d0.model.productions)); rec.count("compiled_at_end", d0.peek() == float("inf") and any(" and " in n and not any(a.endswith("CREATED: " + n) for _, _, a in ev) for n in d0.model.productions))
    prev = 0.0
    for t, p, a in d0.events:
        if not rec.check(float(t) >= prev - 1e-9, "time-decreases", lambda: f"event {(t, p, a)} after an event at {prev}", sh): return
        if not rec.check(abs(float(t) * 1e4 - round(float(t) * 1e4)) < 1e-4 * max(1, abs(t)), "rounding", lambda: f"event {(t, p, a)} not rounded to 0.1 ms", sh): return
        if not rec.check(float(t) < until + 1e-9, "limit", lambda: f"event {(t, p, a)} at or after the limit {until}", sh): return
        prev = float(t)
    if d0.crash is None: rec.check(abs(d0.sim.now - until) < 1e-9, "clock", lambda: f"now {d0.sim.now} after run({until})", sh)
    if d0.crash is None: rec.check(abs(d0.sim.show_time() - until) < 1e-9, "clock", lambda: f"show_time() {d0.sim.show_time()} after run({until})", sh)
    def compare(how, d):
        rec.count("runs_" + how)
        m = diff(r0, drive.result(d))
        return rec.check(m is None, "differs:" + how, lambda: f"{how}: {m}", sh)
    compare("repeat", drive.Drive(kind, sp, ns).run(until))
    last = ev[-1][0] if ev else 0
    cuts = {round(rng.uniform(1e-4, max(.01, min(until, last * 1.2))), rng.choice([1, 2, 3, 4, 7])) for _ in range(rng.choice([1, 2, 5, 12]))}
    at = {rng.choice(ev)[0] for _ in range(rng.choice([0, 1, 3, 8]))} if ev else set()
    rec.count("cuts_at_events", len(at))
    d = drive.Drive(kind, sp, ns).split(sorted(t for t in cuts | at if 0 < t < until) + [until])
    compare("split", d)
    d = drive.Drive(kind, sp, ns); d.cap = len(ev); d.step(until, rng if idx % 2 else None)
    if any(float(t) >= until for t, _, _ in d.events):       # the last step went beyond the limit of the runs it is compared with
        r = drive.result(d); r["trace"] = [e for e in r["trace"] if e[0] < until]; r["final"] = r0["final"]; rec.count("runs_step")
        m = diff(r0, r); rec.check(m is None, "differs:step", lambda: f"step: {m}", sh)
    else: compare("step", d)
    for a, b, cur in d.seen:
        if not rec.check(b > a or d.crash is not None, "empty-step", lambda: f"a step made no event at event {a}", sh): break
        if not rec.check(d.crash is not None or cur == d.events[-1] or cur == d.events[b - 1], "current_event", lambda: f"after a step current_event is {cur}, last event {d.events[b-1]}", sh): break
    bad = [c for c in d.clocks if not c[0] == c[1] == c[2]]; rec.count("clocks", len(d.clocks))
    rec.check(not bad, "clock", lambda: f"simulated time, show_time() and now after a step: {bad[:2]}", sh)
    if idx % 2 == 0: rec.check(all(b == a + 1 for a, b, c in d.seen) or d.crash is not None or len(set(ev)) < len(ev), "step-size", lambda: f"step() passed several events at once: {[(a, b) for a, b, c in d.seen if b != a + 1][:3]}", sh)
    d = drive.Drive(kind, sp, ns, trace=True).run(until)
    compare("print", d)
    want = [str(tuple(e)) for e in d.events if e[1] != "ENVIRONMENT"]
    have = [l for l in d.out.getvalue().splitlines() if not l.startswith("****Environment:")]
    rec.check("\n".join(want) == "\n".join(have), "printed-trace", lambda: f"printed {[(x, y) for x, y in zip(want, have) if x != y][:1] or (len(want), len(have))}", sh)
    if idx % 3 == 0 and until <= 8 and not any(t < 0 for t, _, _ in ev):
        compare("realtime", drive.Drive(kind, sp, ns, realtime=True).run(until))
    if idx < 16: rec.sample(str(ev[:6]))

def children(rng, rec):
    """the same models here and in child processes with other hash seeds"""
    jobs = []
    for i in range(MINE):
        kind, sp = drive.make(rng, idx=i, compilation=True)
        jobs.append((kind, sp, rng.getrandbits(31)))
    here = [drive.result(drive.Drive(k, s, n).run(s["until"])) for k, s, n in jobs]
    for _ in range(2):
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 10 ** 6)))
        p = subprocess.run([sys.executable, "-B", drive.__file__], input=pickle.dumps(jobs), capture_output=True, env=env, timeout=300)
        if p.returncode: raise RuntimeError("child failed: " + p.stderr.decode()[-2000:])
        for (k, s, n), a, b in zip(jobs, here, pickle.loads(p.stdout)):
            rec.count("runs_child"); m = diff(a, b)
            rec.check(m is None, "differs:hashseed", lambda: f"other process, PYTHONHASHSEED={env['PYTHONHASHSEED']}: {m}", drive.show(k, s))

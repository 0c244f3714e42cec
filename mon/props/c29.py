"""C29: shift of the start time."""
import drive
PROPERTY = "C29"
N = {"quick": 700, "thorough": 40000}
TECHNIQUE = "differential monitoring: recorded events and final buffers, memories and presentation times of a run started at 0 and of one started at T, with the memory's presentations shifted by T, compared one by one"
RULE = ("a case is a random model (delayed goals, noisy subsymbolic retrieval, utility learning, key presses, vision and a changing screen) run from time 0 and from two other start times (small, large, fractional, negative), also in scaled real time; "
        "events have to be the same, shifted, up to the rounding of times; distinct: trace")
REQUIRE = {"events": 30000, "shifted_runs": 2000, "retrievals": 1500, "presses": 500, "encoded": 150, "screens": 600, "noisy": 200, "dm_entries": 5000}
TS = [1, -5, 10, 100, 7.5, 1000.25, 3.3, .05, 86400, 12345.6789, -71.3, .0001, 500]

def case(rng, idx, rec, tier):
    kind, sp = drive.make(rng, idx=idx)
    rec.witness = sh = drive.show(kind, sp); until = sp["until"]; ns = rng.getrandbits(31)
    d0 = drive.Drive(kind, sp, ns).run(until); ev = d0.trace()
    rec.count("events", len(ev)); rec.seen(tuple(ev))
    rec.count("noisy", bool(sp["params"].get("emma_noise") or sp["params"].get("instantaneous_noise") or sp["params"].get("utility_noise")))
    for _, p, a in ev:
        if a.startswith("RETRIEVED: ") and not a.endswith("None"): rec.count("retrievals")
        elif a.startswith("KEY PRESSED"): rec.count("presses")
        elif a.startswith("ENCODED VIS"): rec.count("encoded")
        elif p == "ENVIRONMENT": rec.count("screens")
    for T in rng.sample(TS, 2):
        rt = rng.random() < .15 and until <= 8
        d = drive.Drive(kind, sp, ns, initial_time=T, shift=T, realtime=rt).run(until + T)
        rec.count("shifted_runs")
        how = f"started at {T}{' in real time' if rt else ''}"
        for i, (x, y) in enumerate(zip(ev, d.trace())):
            if x[1:] != y[1:] and (near_tie(ev, i) or swapped(ev, d.trace(), i, T) or equal_utilities(sp, d0, d, x, y, i)): rec.count("ties_of_rounding"); break
            if not rec.check(x[1:] == y[1:] and abs(y[0] - T - x[0]) < 2.5e-4, "trace", lambda: f"{how}: event {i} {y} instead of {x} (shifted); before {ev[max(0, i-4):i]}", sh): return
        else:
            n, m = len(ev), len(d.trace())
            if n != m and abs((ev + [(until, 0, 0)])[min(n, m)][0] - until) < 2.5e-4: continue
            if not rec.check(n == m and type(d0.crash) == type(d.crash), "trace-length", lambda: f"{how}: {m} instead of {n} events ({d0.crash!r}, {d.crash!r}); then {(ev[m:] or d.trace()[n:])[:2]}", sh): return
            if d0.crash is None: rec.check(abs(d.sim.show_time() - until - T) < 1e-6, "clock", lambda: f"{how}: show_time() {d.sim.show_time()} after run({until + T})", sh)
            f0, f1 = state(d0), state(d)
            if not rec.check(f0["bufs"] == f1["bufs"], "buffers", lambda: f"{how}: buffers {f1['bufs']} instead of {f0['bufs']}", sh): return
            for n in f0["dm"]:
                a, b = f0["dm"][n], f1["dm"][n]
                if not rec.check(set(a) == set(b), "memory", lambda: f"{how}: memory {n} differs: {[drive.canon(x) for x in set(a) ^ set(b)]}", sh): return
                for c in a:
                    rec.count("dm_entries")
                    if not rec.check(len(a[c]) == len(b[c]) and all(abs(y - T - x) < 2.5e-4 for x, y in zip(a[c], b[c])), "presentations", lambda: f"{how}: presentations of {drive.canon(c)} {b[c]} instead of {a[c]} (shifted)", sh): return
    if idx < 16: rec.sample(str(ev[:6]))

def near_tie(ev, i):
    """the events around are so close in time that rounding decides their order"""
    t = ev[i][0]
    return any(j != i and abs(ev[j][0] - t) < 2.5e-4 and ev[j][0] != t for j in range(max(0, i - 3), min(len(ev), i + 4)))

def swapped(a, b, i, T):
    """simultaneous events in a different order (a matter of floating-point noise): both took place in both, or one of them (of a module or the environment) made the other one impossible"""
    x, y = a[i], b[i]
    early = any(z[1:] == y[1:] and abs(z[0] + T - y[0]) < 2.5e-4 for z in a[i:i + 12]); late = any(z[1:] == x[1:] and abs(z[0] - T - x[0]) < 2.5e-4 for z in b[i:i + 12])
    return early and late or x[1] != y[1] and "PROCEDURAL" not in (x[1], y[1]) and (early or late)

def equal_utilities(sp, d0, d, x, y, i):
    """two rules whose learned utilities differ by floating-point noise only"""
    if not (x[2].startswith("RULE SELECTED: ") and y[2].startswith("RULE SELECTED: ")): return False
    a, b = x[2][15:], y[2][15:]
    if sp["params"].get("utility_noise") and i in d0.util and i in d.util and any(abs(d0.util[i][n] - d.util[i].get(n, 0)) > 0 for n in d0.util[i]): return True     # the noise of both is the same, their utilities are not quite
    return all(i in z.util and abs(z.util[i][a] - z.util[i][b]) < 5e-4 for z in (d0, d))

def state(d):
    import obs
    return {"bufs": drive.canon({n: obs.content(b) for n, b in d.buffers.items()}), "dm": {n: obs.dm_norm(x) for n, x in d.model.decmems.items()}}

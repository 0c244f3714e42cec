"""C15: utility learning."""
import genmodel, monitors, obs, ref
PROPERTY = "C15"
N = {"quick": 5000, "thorough": 60000}
RULE = ("a case is a random model with several rules, rewards (0 and negative included) on some of them, random rate and initial utilities, utility learning on (or, one in eight, off), run for 0.5-2 s;"
        " one case in six compiles rules as well, one in six goes round a loop several times before the reward;"
        " utilities of all rules are read at every event; distinct: (selections since the last reward, reward, utilities before)")
REQUIRE = {"rewards": 5000, "contributions": 30000, "several_selections": 500, "selections_far_apart": 100, "with_stopped": 20, "events": 50000, "off": 300, "compiled": 500, "recompiled": 300, "recompiled_moves": 100}
TECHNIQUE = "online trace of all utilities at every event checked against an independent fold of selections and rewards"

class UMon(obs.Monitor):
    def __init__(self, *a, **k):
        self.utils = {}
        super().__init__(*a, **k)
    def on_event(self, e):
        super().on_event(e)
        self.utils[len(self.log) - 1] = self.now()
    def now(self):
        p = self.model.productions
        return {n: p[n]["utility"] for n in p}

def run(m, sp, until, **kw):
    mon = UMon(m, **kw)
    mon.start = mon.now()
    mon.run(until)
    h = monitors.Hist(mon, sp); h.until = until
    return h

def check(h, rec, state):
    """state: (current utilities, selections since last reward)"""
    U, sel = state
    on = h.spec["params"].get("utility_learning", False)
    alpha = h.spec["params"].get("utility_alpha", .2)
    stopped = False; done = set(); fired = []
    P = [i for i, r in enumerate(h.log) if r.kind == "event" and r.proc == "PROCEDURAL"]
    nextp = {}
    for i in reversed(range(len(h.log))):
        nextp[i] = i if h.log[i].kind == "event" and h.log[i].proc == "PROCEDURAL" else nextp.get(i + 1)
    def reward(k):
        """(utilities after procedural event k, given those before; tolerance) or None if k is no rewarding firing"""
        if k is None: return None
        kind, name = h.parse(h.log[k].action)
        if kind != "RULE FIRED" or not on or name not in h.rules or h.rules[name]["reward"] is None or k in done: return None
        R = h.rules[name]["reward"]; want = dict(U)
        for n, t in sel:
            want[n] = round(want[n] + alpha * (R - (h.log[k].time - t) - want[n]), 4)
        return want, 1.1e-4 * (1 + len(sel)), R
    def creation(k, kind, name):
        """(index of the firing that comes next, its reward, utilities after procedural event k that reports a compiled rule; tolerance)"""
        nx = nextp.get(k + 1); rew = reward(nx); want, tol = (dict(rew[0]), rew[1]) if rew else (dict(U), 1e-9)
        if kind == "RULE CREATED": want[name] = 0
        elif on: want[name] = round(want[name] + alpha * (want[fired[-2]] - want[name]), 4); tol += 1.1e-4
        return nx, rew, want, tol
    def differs(want, have, tol):
        return {n: (U[n], want[n], have.get(n)) for n in want if n not in have or abs(want[n] - have[n]) > tol}
    for i, r in enumerate(h.log):
        if r.kind != "event": continue
        have = h.mon.utils[i]
        rec.count("events")
        proc = r.proc == "PROCEDURAL"
        kind, name = h.parse(r.action) if proc else (None, None)
        if kind in ("RULE CREATED", "RULE RE-CREATED"):      # when the next rule is about to fire, whose reward is in force already
            nx, rew, want, tol = creation(i, kind, name)
            if kind == "RULE CREATED": rec.count("compiled")
            elif on: rec.count("recompiled"); rec.count("recompiled_moves", abs(want[name] - U[name]) > 2 * tol)
            bad = {n: (U.get(n), want[n], have.get(n)) for n in want if n not in have or abs(want[n] - have[n]) > tol}
            if not rec.check(not bad, "utility", lambda: f"at {r.time} {r.action!r}: (before, expected, observed) utilities {bad}; rewarded selections {sel if rew else []}; alpha {alpha}", monitors.show(h)): return None
            U = have
            if rew: done.add(nx); sel = []; rec.count("rewards")
            continue
        rew = reward(i) if proc else None
        bad = differs(rew[0], have, rew[1]) if rew else differs(U, have, 1e-9)
        if bad and not proc:      # the reward of this instant may already be in force
            nx = nextp.get(i)
            early = reward(nx) if nx is not None and abs(h.log[nx].time - r.time) < 1e-6 else None
            if nx is not None and abs(h.log[nx].time - r.time) < 1e-6 and h.parse(h.log[nx].action)[0] in ("RULE CREATED", "RULE RE-CREATED"): early = creation(nx, *h.parse(h.log[nx].action))[2:]
            if early and not {n for n in early[0] if n in have if abs(early[0][n] - have[n]) > early[1]}: bad = {}
        if not rec.check(not bad, "utility", lambda: f"at {r.time} {r.action!r}: (before, expected, observed) utilities {bad}; rewarded selections {sel}; alpha {alpha}", monitors.show(h)): return None
        if kind == "RULE STOPPED FROM FIRING": stopped = True
        if kind == "RULE FIRED": fired.append(name)
        if rew:
            rec.count("rewards"); rec.count("contributions", len(sel))
            if len(sel) > len({n for n, _ in sel}): rec.count("several_selections")
            if any(n == k and abs(t - u) > 1 for n, t in sel for k, u in sel): rec.count("selections_far_apart")
            if stopped: rec.count("with_stopped")
            rec.seen((tuple(n for n, _ in sel), rew[2], sorted(U.items()), alpha))
            stopped = False; U = have; sel = []
        if kind == "RULE SELECTED": sel = sel + [(name, r.time)]
    return U, sel

def case(rng, idx, rec, tier):
    if idx % 6 == 5: return compiling(rng, idx, rec)
    if idx % 6 == 2: return looping(rng, idx, rec)
    sp = spec(rng)
    if rng.random() < .12: sp["params"]["utility_learning"] = False; rec.count("off")
    rec.witness = genmodel.show(sp)
    m = genmodel.build(sp)
    h = run(m, sp, rng.choice([.5, 1.0, 2.0]) * (1 if sp["params"]["rule_firing"] < .2 else 4))
    st = check(h, rec, ({r["name"]: r["utility"] for r in sp["rules"]}, []))
    if idx < 16: rec.sample(rec.witness)

def compiling(rng, idx, rec):
    """a model that goes through its steps several times while rules are compiled"""
    from props import c16
    while True:
        sp = c16.spec(rng)
        if sp.get("loop"): break
    alpha = rng.choice([.2, .5, 1, .05]); sp["params"].update(utility_learning=rng.random() < .9, utility_alpha=alpha)
    for r in sp["rules"]:
        r["utility"] = rng.choice([-5, 0, 1, 2, 5, 5, 8]); r["reward"] = rng.choice([None, None, None, 3, 10, -2])
    rec.witness = sh = c16.show(sp)
    h = run(c16.build(sp), sp, sp["until"] + rng.choice([0, .5, 1]))
    h.showspec = lambda: sh
    check(h, rec, ({r["name"]: r["utility"] for r in sp["rules"]}, []))

def looping(rng, idx, rec):
    """rules that are selected again and again before a reward comes"""
    from props import c16
    con = ref.con; k = rng.choice([1, 2, 3, 4]); rounds = rng.choice([2, 3, 5, 8]); noise = rng.random() < .5
    dt = rng.choice([.05, .05, .1, .0123, .4, 1, .25]); P = {"utility_learning": True, "utility_alpha": rng.choice([.2, .5, 1, .05]), "rule_firing": dt}
    if noise: P.update(subsymbolic=True, utility_noise=rng.choice([.3, 1, 3]), retrieval_threshold=-5.0)
    us = rng.choice([[0], [0, 1, 5, -3], [2, 2, 3]]); R = lambda p: rng.choice([5, 10, 0, -3, 1.5]) if rng.random() < p else None
    rules = []
    def rule(n, L, Rh, p, u=None):
        rules.append({"name": n, "lhs": [("=", "g", ("ts", {x: con(val=v) for x, v in L.items()}))], "rhs": [("=", "g", ("ts", {x: con(val=v) for x, v in Rh.items()}))] if Rh else [("~", "g", None)], "utility": rng.choice(us) if u is None else u, "reward": R(p)})
    for i in range(k):
        for j in range(rng.choice([1, 1, 2]) if noise else 1): rule(f"do{i}{'ab'[j]}", {"s": f"s{i}"}, {"s": f"s{i+1}"}, .06)
    if noise and rng.random() < .5:
        rule("again", {"s": f"s{k}"}, {"s": "s0"}, .1); rule("out", {"s": f"s{k}"}, {"s": "s0"}, 1)
        if rng.random() < .5: rule("end", {"s": f"s{k}"}, None, .8)
    else:
        for j in range(rounds - 1): rule(f"again{j}", {"s": f"s{k}", "a": f"n{j}"}, {"s": "s0", "a": f"n{j+1}"}, .05)
        rule("out", {"s": f"s{k}", "a": f"n{rounds-1}"}, {"s": "s0", "a": "n0"}, 1)
    rng.shuffle(rules)
    sp = {"params": P, "goals": ["g"], "init": {"g": ref.chunk_of({"s": "s0", "a": "n0"})}, "dm": [], "rules": rules}
    rec.witness = sh = c16.show(sp); rec.count("looping")
    h = run(c16.build(sp), sp, dt * (k + 1) * rounds * rng.choice([1.2, 2.3, 3.4]) + .3)
    h.showspec = lambda: sh
    check(h, rec, ({r["name"]: r["utility"] for r in sp["rules"]}, []))

def spec(rng):
    sp = genmodel.random_spec(rng, g2=.7, retrieval=.4, params={"utility_learning": True, "utility_alpha": rng.choice([.2, .5, 1, .05])})
    sp["params"]["rule_firing"] = rng.choice([.05, .05, .1, .03, .0123, .05, .4, 1])
    pr = rng.choice([.1, .2, .4])
    for r in sp["rules"]:
        if rng.random() < pr: r["reward"] = rng.choice([5, 10, 0, -3, 1.5])
        r["utility"] = rng.choice([0, 0, 1, 2, 5, -1, .5])
    return sp

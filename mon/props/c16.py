"""C16: production compilation."""
import contextlib, io
import boot
from boot import pyactr
import ref, gen, genmodel, obs
from ref import con
from pyactr import chunks as C
from pyactr.buffers import Buffer
from pyactr.declarative import DecMemBuffer
PROPERTY = "C16"
N = {"quick": 900, "thorough": 30000}
TECHNIQUE = "differential replay: every rule created by production compilation during a monitored run is run alone from the recorded state in which its parents fired, and its effects are compared with the recorded ones; parents alone and compiled rule alone are also compared from states near the recorded one"
RULE = ("a case is a model that goes through 3-8 steps with compilation on (tests with values, variables, negations over two or three goals and retrieval, modifications, replacements, clearings, retrieval and motor requests; some start over and compile again), run as well with compilation off; "
        "distinct: rule text of a compiled pair")
REQUIRE = {"created": 1500, "with_retrieval": 200, "requests": 150, "recreated": 50, "off_runs": 300, "negations": 300, "shared_variables": 300, "of_compiled": 60, "created_at_end": 200, "several_of_a_pair": 40, "near_fired": 400, "same_traces": 300, "retrievals": 200}
VALS = ["one", "two", "three", "four"]
VARS = ["x", "y", "z", "xy", "x1"]
SL = "abc"

def spec(rng):
    f = {"neg": rng.choice([0, .15, .3]), "goals": rng.choice([1, 2, 2, 3]), "retr": rng.random() < .55, "manual": rng.random() < .3, "acts": rng.choice(["=", "=", "=@", "=@+", "=@+~", "=@+~*"])}
    goals = ["g", "g2", "gthree"][:f["goals"]]
    vals = rng.sample(VALS, rng.choice([2, 3, 4])); vars = rng.sample(VARS, rng.choice([2, 3, 4]))
    bufs = {n: ref.chunk_of({s: rng.choice(vals) for s in SL if rng.random() < .8}) or ref.chunk_of({"a": vals[0]}) for n in goals}
    bufs["g"] = ref.chunk_of({**dict(bufs["g"]), "s": "s0"})
    for n in goals[1:]:
        if rng.random() < .15: bufs[n] = None
    dm = {}
    if f["retr"]:
        for v in vals: dm[v] = ref.chunk_of({"k": v, **{s: rng.choice(vals) for s in SL if rng.random() < .8}})
    sp = {"params": {"production_compilation": True, "subsymbolic": rng.random() < .3, "utility_learning": rng.random() < .3}, "goals": goals, "init": dict(bufs), "dm": list(dm.values()), "rules": [], "vals": vals, "f": f}
    if sp["params"]["subsymbolic"]: sp["params"].update(baselevel_learning=False, latency_factor=.001, retrieval_threshold=-5.0)
    bufs["retrieval"] = None
    us = [0, 0, 1, 5] if rng.random() < .6 else [-1, -1, -3]          # compiled rules start with the utility 0
    n = rng.choice([3, 4, 6, 8]); loop = rng.random() < .3; pending = None; used_manual = -20
    for i in range(n):
        b, excl = {}, {}; L = []; tested = []
        names = list(vars)
        def cons(v, b=b):
            """a constraint the value v satisfies, given the bindings made so far"""
            r = rng.random(); c = con()
            if r < .35 and v is not None: c = con(val=v)
            elif r < .85:
                x = rng.choice(names)
                if x in b and b[x] != v: c = con(negvars=[x]) if f["neg"] and rng.random() < .5 else con(val=v) if v is not None else None
                elif v is not None or rng.random() < .5: b[x] = v; c = con(var=x)
                else: c = None
            else: c = None
            if rng.random() < f["neg"]:
                o = rng.choice([w for w in vals if w != v])
                c = (c or con())._replace(negvals=(o,))
            return c
        def test(buf, slots, must={}):
            p = dict(must); order = list(slots); rng.shuffle(order)
            for s in order:
                if rng.random() < .6:
                    c = cons(ref.get(bufs[buf], s))
                    if c is not None: p[s] = c
            items = list(p.items()); rng.shuffle(items)
            L.append(("=", buf, (rng.choice(["ts", "ts", ""]) if buf != "retrieval" else rng.choice(["tm", ""]), dict(items)))); tested.append(buf)
        order = goals + (["retrieval"] if f["retr"] else []); rng.shuffle(order)
        for buf in order:
            if buf == "g": test("g", SL, {"s": con(val=f"s{i}")})
            elif buf == "retrieval":
                if bufs[buf] is not None:
                    if rng.random() < .8: test(buf, "kabc")
                    elif rng.random() < .3: L.append(("?", buf, {"buffer": "full"}))
                elif rng.random() < .15: L.append(("?", buf, {"buffer": "empty"}) if pending is None else ("?", buf, {"state": "free"}))
            elif bufs[buf] is not None:
                r = rng.random()
                if r < .6: test(buf, SL)
                elif r < .7: L.append(("?", buf, {"buffer": "full"}))
            elif rng.random() < .3: L.append(("?", buf, {"buffer": "empty"}))
        bound = sorted(v for v in b if b[v] is not None)
        def settings(slots, pm=.5, least=0):
            p = {}
            while True:
                for s in slots:
                    if rng.random() < pm: p[s] = con(var=rng.choice(bound)) if bound and rng.random() < .5 else con(val=rng.choice(vals))
                if len(p) >= least: return p
        R = []; nxt = f"s{i+1}" if i + 1 < n or not loop else "s0"
        acts = f["acts"]
        a = "=" if len(acts) == 1 or rng.random() < .75 else rng.choice([x for x in acts if x != "~"])
        p = settings(SL); p["s"] = con(val=nxt); items = list(p.items()); rng.shuffle(items); p = dict(items)
        R.append((a, "g", ("ts", p))); new = {}
        new["g"] = ref.modified(bufs["g"], ref.subst(p, b)) if a in "=*" else ref.chunk_of(ref.subst(p, b))
        for buf in goals[1:]:
            r = rng.random(); q = settings(SL, least=1); full = bufs[buf] is not None
            if r < .35 and full and buf in tested: R.append(("=", buf, ("ts", q))); new[buf] = ref.modified(bufs[buf], ref.subst(q, b))
            elif r < .42 and "*" in acts and full and buf in tested: R.append(("*", buf, ("ts", q))); new[buf] = ref.modified(bufs[buf], ref.subst(q, b))
            elif r < .5 and "@" in acts: R.append(("@", buf, ("ts", q))); new[buf] = ref.chunk_of(ref.subst(q, b))
            elif r < .62 and "+" in acts: R.append(("+", buf, ("ts", q))); new[buf] = ref.chunk_of(ref.subst(q, b))
            elif r < .7 and "~" in acts and full: R.append(("~", buf, None)); new[buf] = None
        if f["retr"]:
            r = rng.random()
            if r < .5:
                ks = [x for x in bound if b[x] in dm]
                if ks and rng.random() < .6: x = rng.choice(ks); k = b[x]; q = {"k": con(var=x)}
                else: k = rng.choice(sorted(dm)); q = {"k": con(val=k)}
                if rng.random() < .1: q = {"k": con(val="nokey")}; k = None
                if k:
                    for s in SL:
                        v = ref.get(dm[k], s)
                        if rng.random() < .25 and v is not None:
                            xs = [x for x in bound if b[x] == v]; ns = [x for x in bound if b[x] != v]
                            q[s] = con(var=rng.choice(xs)) if xs and rng.random() < .5 else con(negvars=[rng.choice(ns)]) if ns and f["neg"] and rng.random() < .4 else con(val=v) if rng.random() < .7 else con(negvals=[rng.choice([w for w in vals if w != v])])
                items = list(q.items()); rng.shuffle(items)
                R.append(("+", "retrieval", ("tm", dict(items)))); new["retrieval"] = dm[k] if k else None; pending = k or "fail"
            elif bufs["retrieval"] is not None and (r < .8 or "retrieval" in tested and r < .97): R.append(("~", "retrieval", None)); new["retrieval"] = None; pending = None
        if f["manual"] and i - used_manual > 12 and rng.random() < .5:
            if rng.random() < .6: L.append(("?", "manual", {"state": "free"}))
            R.append(("+", "manual", ("_manual", {"cmd": con(val="press_key"), "key": con(val=rng.choice("ABJK"))}))); used_manual = i
        rng.shuffle(L); rng.shuffle(R)
        sp["rules"].append({"name": f"r{i}" if rng.random() < .8 else f"rule number {i}", "lhs": L, "rhs": R, "utility": rng.choice(us), "reward": rng.choice([None, None, 3]) if sp["params"]["utility_learning"] else None})
        bufs = {**bufs, **new}
    if loop and f["retr"] and rng.random() < .6:          # which of two chunks is retrieved differs from time to time
        sp["twins"] = True; sp["dm"] += [ref.chunk_of({**dict(c), **{s: rng.choice(vals) for s in SL if rng.random() < .7}}) for c in dm.values()]; sp["dm"] = list(dict.fromkeys(sp["dm"]))
        sp["params"].update(subsymbolic=True, baselevel_learning=False, latency_factor=.001, retrieval_threshold=-5.0, instantaneous_noise=.3)
    if loop:          # a rule that restores the first state
        sp["loop"] = True
    sp["until"] = .05 * n * (3 if loop else 1) + .2
    return sp

def twins(rng):
    """two rules in a loop: what is asked for is the same every time, what is remembered is not"""
    vals = rng.sample(VALS, 3); x, y = rng.sample(VARS, 2); t = lambda: rng.choice(["ts", ""])
    n = rng.choice([2, 3]); dm = []
    for i in range(n): dm.append(ref.chunk_of({"k": "one", "a": VALS[i], **({"b": rng.choice(vals)} if rng.random() < .6 else {})}))
    keep = rng.choice("bc"); other = "c" if keep == "b" else "b"
    init = ref.chunk_of({"s": "s0", "a": rng.choice(vals), keep: rng.choice(vals)})
    k = ref.get(init, keep)
    def side():
        r = rng.random()
        return {} if r < .3 else {keep: con(val=k)} if r < .5 else {keep: con(var=y)} if r < .8 else {keep: con(negvals=[v for v in vals if v != k][:1])}
    a = side(); b = side()
    L1 = [("=", "g", ("ts", {"s": con(val="s0"), **a}))]; L2 = [("=", "g", (t(), {"s": con(val="s1"), **b})), ("=", "retrieval", (rng.choice(["tm", ""]), {**({"k": con(val="one")} if rng.random() < .5 else {}), "a": con(var=x)}))]
    R1 = [("=", "g", ("ts", {"s": con(val="s1"), **({other: con(val=rng.choice(vals))} if rng.random() < .3 else {})})), ("+", "retrieval", ("tm", {"k": con(val="one")}))]
    R2 = [("=", "g", ("ts", {"s": con(val="s0"), "a": con(var=x)}))] + ([("~", "retrieval", None)] if rng.random() < .8 else [])
    for l in (L2, R1, R2): rng.shuffle(l)
    return {"params": {"production_compilation": True, "subsymbolic": True, "utility_learning": False, "baselevel_learning": False, "latency_factor": .001, "retrieval_threshold": -5.0, "instantaneous_noise": .3, "strict_harvesting": False},
            "goals": ["g"], "init": {"g": init}, "dm": dm, "vals": vals, "twins": True, "loop": True, "until": rng.choice([.6, 1.0]), "f": {"retr": True},
            "rules": [{"name": "ask", "lhs": L1, "rhs": R1, "utility": 5, "reward": None}, {"name": "use", "lhs": L2, "rhs": R2, "utility": 5, "reward": None}]}

def ch(c, typ="ts"): return C.Chunk(typ, **dict(sorted(c))) if c is not None else None

def build(sp, off=False):
    C.chunktype("ts", "s a b c"); C.chunktype("tm", "k a b c")
    m = pyactr.ACTRModel(**{**sp["params"], **({"production_compilation": False} if off else {})})
    for n in sp["goals"][1:]: m.set_goal(n)
    for n, c in sp["init"].items():
        if c is not None: m.goals[n].add(ch(c))
    for c in sp["dm"]: m.decmem.add(ch(c, "tm"), -3.0)
    for r in sp["rules"]: m.productionstring(name=r["name"], string=ref.rule_text(r), utility=r["utility"], reward=r["reward"])
    return m

def show(sp):
    return "\n".join([f"params={sp['params']} goals={ {k: sorted(v) if v is not None else None for k, v in sp['init'].items()} } dm={[sorted(c) for c in sp['dm']]}"] + [f"[{r['name']} u={r['utility']} rew={r['reward']}]\n{ref.rule_text(r)}" for r in sp["rules"]])

def text(production):
    """what a rule says, as data"""
    g = production["rule"](); out = []
    for side in g:
        d = {}
        for k, v in side.items():
            d[k] = sorted((s, repr(x)) for s, x in v) if isinstance(v, C.Chunk) else repr(v)
        out.append(d)
    return out

def keys(recs):
    """what the hands were asked to do and what they did"""
    return [r.action for r in recs if r.kind == "event" and r.proc == "manual" and (r.action.startswith("COMMAND") or r.action.startswith("KEY PRESSED"))]

def alone(sp, productions, start, states):
    """a monitored simulation with nothing but the given rules, started in the recorded state"""
    m = pyactr.ACTRModel(**{**sp["params"], "production_compilation": False, "utility_learning": False})
    for n in sp["goals"][1:]: m.set_goal(n)
    for c in sp["dm"]: m.decmem.add(ch(c, "tm"), -3.0)
    for n in sp["goals"]:
        if start[n] is not None: m.goals[n].add(ch(start[n]))
    for name, p in productions: m.productions.update({name: {"rule": p["rule"], "utility": 0, "reward": None}})
    mon = obs.Monitor(m)
    if start.get("retrieval") is not None: Buffer.add(mon.buffers["retrieval"], ch(start["retrieval"], "tm"))
    mon.buffers["retrieval"].state = states["retrieval"]["state"]
    mon.run(3.0)
    return mon, [r.action[12:] for r in mon.log if r.kind == "event" and r.proc == "PROCEDURAL" and r.action.startswith("RULE FIRED: ")]

NONES = [0]
def watched(retrieve):
    """counts requests in which a variable stands for an empty slot (what they ask for is not specified)"""
    def wrapper(self, *args, **kwargs):
        args_ = list(args) + list(kwargs.values())
        bound = next((a for a in args_ if isinstance(a, dict) and any(str(k).startswith("=") for k in a)), {})
        for c in args_:
            if isinstance(c, C.Chunk):
                for s, v in c.removeunused():
                    for x in [v.variables] * bool(v.variables) + list(v.negvariables):
                        if "=" + x in bound and bound["=" + x] == None or bound.get("=" + x) == "None": NONES[0] += 1
        return retrieve(self, *args, **kwargs)
    return wrapper
DecMemBuffer.retrieve = watched(DecMemBuffer.retrieve)

def sides(production):
    g = production["rule"](); return dict(next(g)), dict(next(g))

def settled(log, i):
    """the last snapshot before rules are chosen after the rule that fired at event i"""
    end = next((j for j in range(i + 1, len(log)) if log[j].kind == "event" and log[j].action == "CONFLICT RESOLUTION"), len(log)) - 1
    return log[end].snap

def case(rng, idx, rec, tier):
    sp = spec(rng) if idx % 15 != 7 else twins(rng); rec.witness = sh = show(sp)
    m = build(sp); rules = {r["name"]: r for r in sp["rules"]}
    before = {n: text(m.productions[n]) for n in m.productions}
    mon = obs.Monitor(m)
    try: mon.run(sp["until"])
    except Exception as e:
        rec.check(False, "crash:" + type(e).__name__, lambda: f"run with compilation failed: {type(e).__name__}: {e}", sh); return
    for n in before: rec.check(text(m.productions[n]) == before[n], "parent-changed", lambda: f"rule {n} was {before[n]}, is {text(m.productions[n])}", sh)
    log = mon.log; fired = []; names = set()
    for i, r in enumerate(log):
        if r.kind != "event" or r.proc != "PROCEDURAL": continue
        if r.action.startswith("RULE FIRED: "): fired.append((i, r.action[12:]))
        elif r.action.startswith("RULE CREATED: ") or r.action.startswith("RULE RE-CREATED: "):
            name = r.action.split(": ", 1)[1]; re = r.action.startswith("RULE RE"); rec.count("recreated", re)
            rec.check(re == (name in names), "re-created", lambda: f"{r.action}, but rules created before are {names}", sh); names.add(name)
            prev = log[i - 1].snap
            rec.check(r.snap.bufs == prev.bufs, "buffers-changed", lambda: f"buffers {prev.bufs} before, {r.snap.bufs} after compilation", sh)
            prod = m.productions[name]
            if not rec.check(prod is not None, "created-missing", lambda: f"{name} was created but is not among the rules", sh): continue
            if not rec.check(len(fired) >= 2, "created-early", lambda: f"{name} created after {fired}", sh): continue
            (i1, n1), (i2, n2) = fired[-2:]
            rec.count("several_of_a_pair", not re and name != f"{n1} and {n2}")
            rec.check(name.startswith(f"{n1} and {n2}"), "created-name", lambda: f"{name} created after {n1}, {n2} fired", sh)
            one(sp, rng, rec, log, i1, n1, i2, n2, name, prod, m.productions, rules, sh)
    extra = sorted(set(m.productions) - set(before) - names)
    if mon.idle() and len(extra) == 1 and len(fired) >= 2 and extra[0].startswith(f"{fired[-2][1]} and {fired[-1][1]}"):      # the last two rules are compiled at the end of the simulation
        rec.count("created_at_end"); names.add(extra[0]); (i1, n1), (i2, n2) = fired[-2:]
        one(sp, rng, rec, log, i1, n1, i2, n2, extra[0], m.productions[extra[0]], m.productions, rules, sh)
    rec.check(set(m.productions) == set(before) | names, "created-silently", lambda: f"rules {set(m.productions)} but before {set(before)} and reported {names}", sh)
    m2 = build(sp, off=True); rec.count("off_runs")
    mon2 = obs.Monitor(m2)
    mon2.run(sp["until"])
    rec.check(set(m2.productions) == set(before) and not any("CREATED: " in str(r.action) and r.proc == "PROCEDURAL" for r in mon2.log), "created-off", lambda: "rules created with compilation off", sh)
    # until a compiled rule takes part, everything goes as without compilation (unless a request meets the end of the previous one: what comes first at one time is not settled)
    def asks(n): return n in rules and any(b == "retrieval" and c == "+" for c, b, p in rules[n]["rhs"])
    if not sp.get("twins") and not any(r.kind == "event" and r.proc == "PROCEDURAL" and r.action in {"RULE SELECTED: " + n for n in names} for r in log) and not any(asks(x) and asks(y) for (i, x), (j, y) in zip(fired, fired[1:])):
        rec.count("same_traces")
        t1, t2 = ([(round(r.time, 4), r.action, show_bufs({g: r.snap.bufs[g] for g in sp["goals"]})) for r in l if r.kind == "event" and r.proc == "PROCEDURAL" and not "CREATED: " in r.action] for l in (log, mon2.log))
        k = next((k for k, (x, y) in enumerate(zip(t1, t2)) if x != y), min(len(t1), len(t2)))
        rec.check(t1 == t2, "trace-differs", lambda: f"with compilation {t1[k:k+3]}, without {t2[k:k+3]}", sh)

def show_bufs(bufs): return {n: sorted(c) if c is not None else None for n, c in bufs.items()}

def one(sp, rng, rec, log, i1, n1, i2, n2, name, prod, productions, rules, sh):
    s0 = log[i1].snap; s2 = settled(log, i2)
    goals = sp["goals"]
    p1, p2 = productions[n1], productions[n2]
    (L1, R1), (L2, R2) = sides(p1), sides(p2)
    rec.count("created"); rec.seen((str(text(p1)), str(text(p2)))); rec.sample({"parents": [str(text(p1)), str(text(p2))]}); rec.count("of_compiled", n1 not in rules or n2 not in rules)
    def parts(d): return [v for c in d.values() if isinstance(c, C.Chunk) for s, v in c.removeunused()]
    rec.count("negations", any(v.negvalues or v.negvariables for v in parts(L1) + parts(L2)))
    rec.count("with_retrieval", "+retrieval" in R1 and "=retrieval" in L2)
    rec.count("shared_variables", bool({v.variables for v in parts(L1)} & {v.variables for v in parts(L2)} - {None}))
    # the recorded history: from where the first one fired, the compiled rule leads to where the second one led
    what = f"{n1} and {n2}, compiled:\n{prod}\nfrom {show_bufs(s0.bufs)}"
    try: cmon, cfired = alone(sp, [(name, prod)], s0.bufs, s0.states)
    except Exception as e:
        rec.check(False, "compiled-crash", lambda: f"{what}: {type(e).__name__}: {e}", sh); return
    if not rec.check(cfired[:1] == [name], "not-applicable", lambda: f"{what}\ndoes not fire", sh): return
    k = next(j for j, r in enumerate(cmon.log) if r.kind == "event" and r.action == "RULE FIRED: " + name)
    got = settled(cmon.log, k)
    for g in goals:
        rec.check(got.bufs[g] == s2.bufs[g], "goal-differs", lambda: f"{what}\n{g}: after the parents {show_bufs(s2.bufs)[g]}, after the compiled rule {show_bufs(got.bufs)[g]}", sh)
    # other histories: the parents alone and the compiled rule alone, from the recorded state and from states near it
    none = any(x.values == "None" for x in [v for d in (sides(prod)[1],) if "+retrieval" in d for s, v in d["+retrieval"].removeunused()])
    for v in range(1 + (2 if rng.random() < .5 else 0)):
        start = dict(s0.bufs); NONES[0] = 0
        if v:
            for n in goals:
                d = dict(start[n] or ()); r = rng.random()
                for s in SL:
                    if s in d and rng.random() < .3: d[s] = rng.choice(sp["vals"])
                if start[n] is None and r < .7: continue
                start[n] = ref.chunk_of(d) if r > .05 or n == "g" else None
            if start == s0.bufs: continue
            try: cmon, cfired = alone(sp, [(name, prod)], start, s0.states)
            except Exception as e:
                rec.check(False, "compiled-crash", lambda: f"{what}\nfrom {show_bufs(start)}: {type(e).__name__}: {e}", sh); return
            rec.count("near_states")
            if cfired[:1] != [name]: continue
            rec.count("near_fired")
        try: pmon, pfired = alone(sp, [(n1, p1), (n2, p2)], start, s0.states)
        except Exception as e:
            rec.check(False, "parents-crash", lambda: f"{what}\nfrom {show_bufs(start)}: {type(e).__name__}: {e}", sh); return
        if sp.get("twins"): rec.count("twins"); break          # the retrievals of another run are others
        if pfired[:2] != [n1, n2] and v == 0: rec.count("timing"); break          # what else was going on made a difference
        if none or NONES[0]: rec.count("request_for_none"); continue
        if not rec.check(pfired[:2] == [n1, n2], "too-general", lambda: f"{what}\nfires from {show_bufs(start)}, where the parents fire {pfired}", sh): continue
        if pfired[2:] or cfired[1:]: rec.count("repeated"); continue
        e1, e2 = pmon.log[-1].snap, cmon.log[-1].snap
        for g in goals: rec.check(e1.bufs[g] == e2.bufs[g], "result-differs", lambda: f"{what}\nfrom {show_bufs(start)}, {g}: after the parents {show_bufs(e1.bufs)[g]}, after the compiled rule {show_bufs(e2.bufs)[g]}", sh)
        k1, k2 = keys(pmon.log), keys(cmon.log)
        rec.check(k1 == k2, "keys-differ", lambda: f"{what}\nfrom {show_bufs(start)}: the parents {k1}, the compiled rule {k2}", sh); rec.count("requests", bool(k1))
        rec.check(e1.bufs["retrieval"] == e2.bufs["retrieval"], "retrieval-differs", lambda: f"{what}\nfrom {show_bufs(start)}: retrieval after the parents {show_bufs(e1.bufs)['retrieval']}, after the compiled rule {show_bufs(e2.bufs)['retrieval']}", sh); rec.count("retrievals", e1.bufs["retrieval"] is not None and e1.bufs["retrieval"] != start["retrieval"])

"""C33: execute actions."""
import contextlib, io
import boot, gen, obs, drive
from boot import pyactr
from pyactr import chunks as C
import simpy
PROPERTY = "C33"
N = {"quick": 6000, "thorough": 100000}
TECHNIQUE = "monitoring of the trace, the printed output and the buffers and memory of rule chains with execute actions, step by step against an interpreter of the chain"
RULE = ("a case is a chain of 1-6 rules over two goal buffers and an unused retrieval buffer, written as strings or as functions, whose actions execute one to three methods of buffers (show with any slot; clear, add, modify with arguments) next to ordinary actions; "
        "distinct: rules")
REQUIRE = {"shown": 8000, "shown_empty": 800, "commands": 3000, "pairs": 500, "rules_string": 4000, "rules_function": 4000}
SL = ["a", "b", "step", "longer_name"]
TYPE = "t33"
NUM = .05

def mk(d): return C.Chunk(TYPE, **d)

def spec(rng):
    vals = rng.sample(["x", "y", "z", "val_1", "10", "Word"], 3)
    chunk = lambda: {s: rng.choice(vals) for s in ("a", "b", "longer_name") if rng.random() < .6}
    sp = {"g": {"step": "s0", **chunk()}, "g2": {"step": "t", **chunk()} if rng.random() < .7 else None, "rules": [], "rf": rng.choice([.05, .05, .1, .003])}
    for i in range(rng.randint(1, 6)):
        fn = rng.random() < .5; R = []
        lhs = rng.choice(["", "", "a", "b"])                       # binds the value of a slot if it has one
        def commands(b):
            out = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                r = rng.random()
                if not fn or r < .5 or b == "retrieval": out.append(("show", rng.choice(SL + ["nothing"]) if rng.random() < .9 else "a", rng.choice(["str", "tuple"]) if fn else "str"))
                elif r < .65: out.append(("clear", rng.choice([0, 1.5, .12345, 3]), "tuple"))
                elif r < .85: out.append(("modify", {s: rng.choice(vals) for s in rng.sample(["a", "b", "longer_name"], rng.choice([1, 2]))}, "tuple"))
                else: out.append(("add", {"step": "t", **chunk()}, "tuple"))
            if b == "g": out = [c for c in out if c[0] in ("show", "modify")]      # the chain goes on
            if len(out) > 1 and not fn and len({c[1] for c in out}) < len(out): out = out[:1]
            return out
        for b in rng.sample(["g", "g2", "retrieval"], rng.choice([1, 1, 1, 2, 3])):
            cs = commands(b)
            if cs: R.append(("!", b, cs, fn and len(cs) == 1 and rng.random() < .6))
        nxt = {"step": f"s{i+1}", **{s: rng.choice(vals + ["=v"] * bool(lhs)) for s in ("a", "b", "longer_name") if rng.random() < .3}}
        R.append((rng.choice(["=", "=", "=", "@", "+"]), "g", nxt))
        r = rng.random()
        if r < .15: R.append(("~", "g2", None))
        elif r < .3: R.append((rng.choice("@+"), "g2", {"step": "t", **chunk()}))
        rng.shuffle(R)
        sp["rules"].append({"lhs": lhs, "rhs": R, "fn": fn})
    return sp

def show(sp):
    out = [f"g {sp['g']} g2 {sp['g2']}"]
    for i, r in enumerate(sp["rules"]): out.append(f"rule{i} ({'function' if r['fn'] else 'string'}) =g> step s{i}" + (f" {r['lhs']} =v" if r["lhs"] else "") + " ==> " + "; ".join(f"{x[0]}{x[1]}> {x[2]}" + (" (one pair)" if len(x) > 3 and x[3] else "") for x in r["rhs"]))
    return "\n".join(out)

def build(sp):
    C.chunktype(TYPE, "step a b longer_name")
    m = pyactr.ACTRModel(rule_firing=sp["rf"])
    m.set_goal("g"); m.set_goal("g2"); m.set_retrieval("retrieval")
    m.goals["g"].add(mk(sp["g"]))
    if sp["g2"] is not None: m.goals["g2"].add(mk(sp["g2"]))
    dm = m.decmem
    for i, r in enumerate(sp["rules"]):
        if r["fn"]:
            def arg(c):
                if c[0] == "show": return c[0], (c[1] if c[2] == "str" else (c[1],))
                if c[0] == "clear": return c[0], (c[1], dm)
                return c[0], (mk(c[1]),)
            def func(i=i, r=r):
                yield {"=g": C.Chunk(TYPE, step=f"s{i}", **({r["lhs"]: "=v"} if r["lhs"] else {}))}
                out = {}
                for x in r["rhs"]:
                    if x[0] == "!": cs = [arg(c) for c in x[2]]; out["!" + x[1]] = cs[0] if x[3] else cs
                    else: out[x[0] + x[1]] = None if x[0] == "~" else mk(x[2])
                yield out
            m.productions.update({f"rule{i}": {"rule": func, "utility": 0, "reward": None}})
        else:
            t = f"=g> isa {TYPE} step s{i}" + (f" {r['lhs']} =v" if r["lhs"] else "") + " ==> "
            for x in r["rhs"]:
                if x[0] == "!": t += f" !{x[1]}> " + " ".join(f"show {c[1]}" for c in x[2])
                else: t += f" {x[0]}{x[1]}> " + ("" if x[0] == "~" else f"isa {TYPE} " + " ".join(f"{s} {v}" for s, v in x[2].items()))
            m.productionstring(name=f"rule{i}", string=t)
    return m

def expected(sp, rec):
    """-> events [(time, module, action, lines printed)], final g and g2, memory"""
    B = {"g": dict(sp["g"]), "g2": None if sp["g2"] is None else dict(sp["g2"]), "retrieval": None}
    dm = []; ev = []; t = 0.0
    store = lambda b, t: (dm.append((frozenset((k, v) for k, v in B[b].items() if v), round(t, 4))) if B[b] is not None else None, B.__setitem__(b, None))
    for i, r in enumerate(sp["rules"]):
        if r["lhs"] and not B["g"].get(r["lhs"]):        # variables that stand for nothing are another matter
            x = next(x for x in r["rhs"] if x[1] == "g" and x[0] != "!")
            for s in [s for s, y in x[2].items() if y == "=v"]: del x[2][s]
            r["lhs"] = ""
        v = B["g"].get(r["lhs"]); t = round(t + sp["rf"], 4)
        ev.append((t, "PROCEDURAL", f"RULE FIRED: rule{i}", []))
        rec.count("rules_function" if r["fn"] else "rules_string")
        for x in sorted(r["rhs"], key=lambda x: "!=@*+~".index(x[0])):
            b = x[1]
            if x[0] == "!":
                lines = []; rec.count("pairs", bool(x[3]))
                for k, c in enumerate(x[2]):
                    if c[0] == "modify" and B[b] is None: c = x[2][k] = ("show", "a", "tuple")
                    if c[0] == "show":
                        rec.count("shown"); rec.count("shown_empty", B[b] is None or c[1] == "nothing")
                        lines.append(c[1] if B[b] is None or c[1] == "nothing" else f"{c[1]} {B[b].get(c[1])}")
                        continue
                    rec.count("commands")
                    if c[0] == "clear": store(b, c[1])
                    elif c[0] == "add": B[b] = dict(c[1])
                    elif B[b] is not None: B[b].update(c[1])
                ev.append((t, b, "EXECUTED", lines))
            else:
                new = {s: v if y == "=v" else y for s, y in (x[2] or {}).items()}
                if x[0] == "=": B[b].update(new); ev.append((t, b, "MODIFIED", []))
                elif x[0] == "~": store(b, t); ev.append((t, b, "CLEARED", []))
                elif x[0] == "@": B[b] = new; ev.append((t, b, "WROTE A CHUNK", []))
                else: store(b, t); B[b] = new; ev.append((t, b, "CLEARED", [])); ev.append((t, b, "CREATED A CHUNK", []))
    return ev, B, dm

def content(c): return None if c is None else frozenset((k, str(v)) for k, v in c.items() if v)

def case(rng, idx, rec, tier):
    sp = spec(rng)
    want, B, dm = expected(sp, rec)
    rec.witness = sh = show(sp); rec.seen(sh)
    m = build(sp)
    sim = m.simulation(gui=False, trace=False)
    out = io.StringIO(); got = []; at = [0]
    class Log:
        def on_event(self, e):
            text = out.getvalue(); new = text[at[0]:]; at[0] = len(text)
            got.append((round(float(e.time), 4), e.proc, e.action, new.splitlines()))
    sim.__class__ = obs.MonSim; sim.__dict__["_mon_log"] = Log()
    try:
        with contextlib.redirect_stdout(out): sim.run(3.0)
    except Exception as e: rec.check(False, "crash", lambda: f"{type(e).__name__}: {e}; events {got[-4:]}", sh); return
    rest = out.getvalue()[at[0]:]
    stray = [e for e in got if e[3] and e[2] != "EXECUTED"]
    rec.check(not stray and not rest, "stray-output", lambda: f"printed outside execute actions: {stray[:3]} {rest!r}", sh)
    g = [(t, p, a.split(":")[0] if not a.startswith("RULE") else a, l) for t, p, a, l in got if a not in ("CONFLICT RESOLUTION", "NO RULE FOUND") and not a.startswith("RULE SELECTED")]
    # actions of a rule that concern different buffers may come in any order, executing comes first
    order = lambda l: [x for t in sorted({x[0] for x in l}) for x in (lambda m: [y for y in m if y[2].startswith("RULE FIRED")] + [y for y in m if y[2] == "EXECUTED"] + sorted((y for y in m if y[2] != "EXECUTED" and not y[2].startswith("RULE FIRED")), key=lambda y: y[1]))([y for y in l if y[0] == t])]
    first = [y[2] == "EXECUTED" for y in g]
    rec.check(all(not b or i and (first[i - 1] or g[i - 1][2].startswith("RULE FIRED")) for i, b in enumerate(first)), "late", lambda: f"executed after other actions of the rule: {g}", sh)
    g, want = order(g), order(want)
    k = next((k for k, (x, y) in enumerate(zip(g, want)) if (abs(x[0] - y[0]) > 1e-6 or x[1:] != y[1:])), min(len(g), len(want)))
    rec.check(k == len(g) == len(want), "events", lambda: f"event {k}: got {g[k:k+3]}, expected {want[k:k+3]}", sh)
    for n in ("g", "g2"):
        c = obs.content(m.goals[n])
        rec.check(c == content(B[n]), "buffer", lambda: f"{n} holds {c}, expected {content(B[n])}", sh)
    exp = {}
    for c, t in dm: exp.setdefault(c, []).append(t)
    have = {c: sorted(round(float(x), 4) for x in ts) for c, ts in obs.dm_norm(m.decmem).items()}
    rec.check(have == {c: sorted(ts) for c, ts in exp.items()}, "memory", lambda: f"memory {have}, expected {exp}", sh)
    if idx < 8: rec.sample(sh)


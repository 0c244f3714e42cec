"""C26: illegal definitions and requests."""
import string
import numpy as np
import boot
from boot import pyactr
import ref, gen, genmodel, genvis, obs, drive
from pyactr import chunks as C, utilities as U, goals, declarative, buffers, motor, vision
PROPERTY = "C26"
N = {"quick": 2000, "thorough": 60000}
TECHNIQUE = "fault injection at the API: randomised illegal calls on populated models, each with a legal neighbour as control; exception monitor plus comparison of the complete observable state before and after, and of the rest of a running simulation with an undisturbed twin"
RULE = ("a case is either a populated model that receives 12 illegal calls (some 35 kinds) with its state compared before and after each, or a running simulation that receives illegal calls at random moments and has to go on as its undisturbed twin, "
        "or a model whose k-th rule makes an illegal request or has an illegal action, and its legal twin; distinct: kind of call with its arguments")
REQUIRE = {"direct": 6000, "rejected": 9000, "legal": 5000, "during_run": 1500, "twin_runs": 500, "bad_rules": 800, "legal_rules": 800}

class Odd:
    """iterable"""
    def __init__(self): pass
    def __iter__(self): return iter("ab")
class Unhashable:
    __hash__ = None

def iterables(rng):
    return rng.choice([[1, 2], [], (1,), (), {"a": 1}, {1}, frozenset("ab"), b"ab", bytearray(b"x"), range(3), np.array([1.0, 2.0]), Odd(), Unhashable(), iter([1]), (x for x in "a"), ["one"], {}, set()])
def nonchunk(rng):
    return rng.choice([None, "one", "", 5, 0, 2.5, True, ("a", "b"), [1], {"a": "one"}, object(), int, "isa ta a one", set(), [], (), U.VarvalClass(variables=None, values="a", negvariables=(), negvalues=()), C.Chunk, C.Chunk.EmptyValue(), [("a", "one")]])

class World:
    def __init__(self, rng):
        gen.types()
        C.chunktype("ts", "s a b"); C.chunktype("tp", "p q")
        self.env = pyactr.Environment(focus_position=(rng.randint(0, 300), rng.randint(0, 300)))
        P = {"subsymbolic": rng.random() < .5, "strict_harvesting": rng.random() < .3, "rule_firing": rng.choice([.05, .1])}
        m = self.m = pyactr.ACTRModel(environment=self.env, **P)
        m.set_goal("g2", rng.choice([0, .2])); m.set_retrieval("retr2")
        m.visualBuffer("visual", "visual_location", m.decmem, finst=rng.choice([0, 1, 4]))
        self.chunks = []
        for _ in range(rng.choice([2, 4])):
            t, rc = gen.chunk(rng)
            self.chunks.append(gen.make(rng, rc, t))
        for c in self.chunks:
            for _ in range(rng.choice([0, 1, 2])): m.decmem.add(c, -rng.random() * 5)
        for c in list(m.decmem):
            if rng.random() < .3: m.decmem.add_activation(c, rng.random())
        if rng.random() < .4:               # as after retrievals with spreading activation
            m.decmem.unrestricted_number_chunks.update(["one", "two"])
            m.decmem.restricted_number_chunks.update([("a", "one")])
        self.bufs = {"g": m.goals["g"], "g2": m.goals["g2"], "retrieval": m.retrievals["retrieval"], "retr2": m.retrievals["retr2"], "visual": m.visbuffers["visual"], "visual_location": m.visbuffers["visual_location"]}
        for n, b in self.bufs.items(): b.dm = m.decmem
        for n, b in self.bufs.items():
            if rng.random() < .75: b.add(rng.choice(self.chunks), *([None] if n == "visual_location" else []))
        self.bufs["retrieval"].finst = rng.choice([0, 2])
        if rng.random() < .5: m.set_similarities("one", "two", -rng.random())
        for i in range(2): m.productionstring(name=f"r{i}", string="=g> isa ts s one ==> =g> isa ts s two", utility=i)
        self.types = ["ta", "tb", "ts", "_manual", "_visual", "_visuallocation"]
    def state(self, names=()):
        m = self.m; p = m.productions
        sims = getattr(m, "_ACTRModel__similarities", None)
        return {"buffers": {n: (obs.content(b), len(b)) for n, b in self.bufs.items()},
                "dm": drive.canon(obs.dm_norm(m.decmem)), "act": sorted(map(str, m.decmem.activations.items())),
                "counters": (dict(m.decmem.restricted_number_chunks), dict(m.decmem.unrestricted_number_chunks)),
                "params": drive.canon(dict(m.model_parameters)), "defaults": drive.canon(dict(pyactr.ACTRModel.MODEL_PARAMETERS)),
                "sims": drive.canon({str(k): v for k, v in sims.items()}) if sims is not None else None,
                "goals": sorted(m.goals), "retrievals": sorted(m.retrievals), "decmems": sorted(m.decmems), "visbuffers": sorted(m.visbuffers),
                "delays": [m.goals[n].delay for n in ("g", "g2")], "finst": [self.bufs[n].finst for n in ("retrieval", "retr2", "visual_location")],
                "focus": list(self.env.current_focus), "rules": [(n, p[n]["utility"], p[n]["reward"]) for n in p],
                "types": [sorted(s for s, _ in C.Chunk(t)) for t in self.types], "memories": [b.dm is m.decmem for b in self.bufs.values()],
                "states": [{a: getattr(b, a) for a in obs.STATE_ATTRS if hasattr(b, a)} for b in self.bufs.values()],
                "named": [repr(C.Chunk._chunks.get(n)) for n in names], "recent": [len(self.bufs[n].recent) for n in ("retrieval", "visual_location")]}

def pat(rng, kind):
    """slots of a request with something illegal in one of them; bound: =x is "one" """
    bad = {"unbound": ["=q", "=xx", "=X", "=y", "=x1", "=_x", "=g"], "negvalue": ["~!one", "~!two"], "negvar": ["~=x", "~=q"], "twovalues": ["=x!two"], }[kind]
    ok = ["one", "=x", "two", "7", "=x!one"]
    d = {s: rng.choice(ok) for s in "abc" if rng.random() < .6}
    d[rng.choice("abc")] = rng.choice(bad)
    items = list(d.items()); rng.shuffle(items)
    return dict(items)

def direct(rng, w):
    """-> kind, description, illegal call, legal neighbour or None"""
    m = w.m; K = rng.choice(DIRECT); ch = rng.choice(w.chunks)
    legal_params = sorted(m.MODEL_PARAMETERS)
    neg = rng.choice([-1, -.001, -5, -1e9, -.5])
    if K == "param":
        p = rng.choice(legal_params); bad = rng.choice([p.upper(), p.capitalize(), p + "s", p[:-1], "_" + p, p.replace("_", "") if "_" in p else p + "_", "foo", p + " "])
        kw = {k: m.MODEL_PARAMETERS[k] for k in rng.sample(legal_params, rng.randint(0, 4))}
        return K, bad, lambda: pyactr.ACTRModel(**{**kw, bad: 1}) if rng.random() < .5 else pyactr.ACTRModel(w.env, **{**kw, bad: 1}), lambda: pyactr.ACTRModel(**kw)
    if K == "special":
        t = rng.choice(sorted(U.SPECIALCHUNKTYPES)); f = U.SPECIALCHUNKTYPES[t]
        bad = rng.choice([f + ", extra", f.split(",")[0], "a b", f.split(", ")[:-1], "", f.replace("o", "0") + "x"])
        if rng.random() < .25: return "special-include", t, lambda: C.chunktype(t, f, include=rng.choice(["ta", ["ta"]])), lambda: C.chunktype(t, f)
        return K, f"{t} {bad!r}", lambda: rng.choice([C.chunktype, m.chunktype])(t, bad), lambda: C.chunktype(t, f)
    if K == "special-extend":
        t = rng.choice(sorted(U.SPECIALCHUNKTYPES)); n = rng.choice(["foo", "isa_", "Cmd"])
        return K, f"{t} {n}", lambda: rng.choice([lambda: C.Chunk(t, **{n: "x"}), lambda: C.makechunk("nm1", t, **{n: "x"}), lambda: C.chunkstring("nm1", f"isa {t} {n} x")])(), lambda: C.Chunk(t, **{U.SPECIALCHUNKTYPES[t].split(", ")[1]: "x"})
    if K == "isa-slot":
        t = rng.choice(["ta", gen.fresh("ty")]); bad = rng.choice(["isa", "a isa", "a, isa, b", ["a", "isa"], ("isa",), "ISA b"])
        return K, f"{t} {bad}", lambda: C.chunktype(t, bad), lambda: C.chunktype(gen.fresh("ty"), "a isab")
    if K == "parent":
        t = rng.choice(["ta", gen.fresh("ty")]); bad = rng.choice(["nope", "TA", "ta ", ["ta", "nope"], ["nope", "ta"], ("ta", "tb", "Tb")])
        return K, f"{t} {bad}", lambda: C.chunktype(t, "a", include=bad), lambda: C.chunktype(gen.fresh("ty"), "a", include=rng.choice(["ta", ["ta", "tb"]]))
    if K == "value":
        v = iterables(rng); f = rng.choice(["Chunk", "makechunk"]); d = {s: rng.choice(["one", 5, None, ch]) for s in "abc" if rng.random() < .5}; s = rng.choice("abc"); d[s] = v
        items = list(d.items()); rng.shuffle(items); d = dict(items); ty = rng.choice(["ta", "ta", "tb"])
        g = dict(d); g[s] = rng.choice([1, 2.5, "one", None, ch, True])
        mk = (lambda dd: C.Chunk(ty, **dd)) if f == "Chunk" else (lambda dd: C.makechunk("nm1", ty, **dd))
        if ty == "tb":
            d.pop("a", None); g.pop("a", None); d["c"] = v; g["c"] = "one"
        return K, f"{f} {v!r}", lambda: mk(d), (lambda: mk(g)) if f == "Chunk" else None
    if K == "varval":
        V = lambda **k: U.VarvalClass(**{**dict(variables=None, values=None, negvariables=(), negvalues=()), **k})
        bad = rng.choice([V(values=5), V(variables=3), V(values=("a",)), V(negvalues=["a"]), V(negvariables={"a"}), V(negvalues=5), V(values=["a"])])
        return K, repr((bad.values, bad.variables, bad.negvalues, bad.negvariables)), lambda: C.Chunk("ta", a=bad, b="one"), lambda: C.Chunk("ta", a=V(values="one", negvalues=("x",)))
    if K == "twice":
        bad = rng.choice(["!a!b", "=x=y", "=x!a!b", "=x=y!a", "~!c=x=y"])
        core = rng.choice([["=x", "=y"], ["=x", "=y", "=x"], ["!a", "!b"], ["=x", "=yy"], ["!one", "!two"]]); more = [x for x in ["~=z", "~!c", "~=w", "~=x", "!a" if core[0] == "=x" else "=x"] if rng.random() < .3]
        parts = core + more; rng.shuffle(parts)
        if rng.random() < .5: bad = "".join(parts)
        if rng.random() < .5: return K, bad, lambda: rng.choice([lambda: C.Chunk("ta", a=bad), lambda: C.makechunk("nm1", "ta", b="one", a=bad)])(), lambda: C.Chunk("ta", a=rng.choice(["=x!a", "~!a~!b", "~=x~=y", "=x~=y!a"]))
        bad = rng.choice(["a one a two", "a =x a =y", "a one b two a three", "a =x a one a two", 'a "one" a two', "a one a 'two'", "a one a 1"])
        if rng.random() < .5: bad = " ".join("a " + x.replace("!", "") + (" b one" if rng.random() < .2 else "") for x in parts)
        return K, bad, lambda: C.chunkstring("nm1", "isa ta " + bad), lambda: C.chunkstring("", "isa ta a one a =x a ~two a ~three")
    if K == "grammar":
        bad = rng.choice(["isa ta a", "isa", "a", "", "isa ta a ==", "isa ta a one ==> b", "isa ta 1a one", "isa ta a one b ?x", "isa ta a ~ ~ one", "isa ta a (one)", "isa ta a 'one", "isa ta a one two"])
        return K, bad, lambda: C.chunkstring("nm1", bad), lambda: C.chunkstring("", "isa ta a one b '(two)'")
    if K == "buffer-add":
        n = rng.choice(sorted(w.bufs)); x = nonchunk(rng); b = w.bufs[n]
        ex = [None] if n == "visual_location" else []
        if ex == [] and rng.random() < .3: ex = [1.5]
        return K, f"{n} {x!r}", lambda: b.add(x, *ex), None
    if K == "motor-add": return K, "", lambda: motor.Motor().add(rng.choice([ch, "x"])), None
    if K == "buffer-new":
        x = nonchunk(rng); cls = rng.choice([goals.Goal, declarative.DecMemBuffer, buffers.Buffer])
        return K, f"{cls.__name__} {x!r}", lambda: cls(data=[x]), lambda: cls(data=set([ch]))
    if K == "buffer-two":
        other = C.Chunk("ta", a="other1"); cls = rng.choice([goals.Goal, declarative.DecMemBuffer, buffers.Buffer])
        return K, cls.__name__, lambda: cls(data={ch, other}), lambda: cls()
    if K == "dm-add":
        x = nonchunk(rng)
        while isinstance(x, (set, list, tuple)) and len(x) == 0: x = nonchunk(rng)       # nothing to add
        t = rng.choice([0, 1.5, [1, 2]]); dm = m.decmem; r = rng.random()
        bad = (lambda: dm.add(x, t)) if r < .3 else (lambda: dm.add([ch, x] if rng.random() < .5 else [x, ch], t)) if r < .55 else (lambda: dm.update({ch: 3, "x": 4}) if 0 else dm.__setitem__(x, 3.5)) if r < .8 else (lambda: declarative.DecMem([x])) if r < .9 else (lambda: declarative.DecMem({"x": 1.0}))
        return K, f"{x!r} {r:.2f}", bad, None
    if K == "activation":
        x = rng.choice([C.Chunk("ta", a="notthere"), "one", None]); return K, repr(x), lambda: m.decmem.add_activation(x, 1.0), (lambda: m.decmem.add_activation(list(m.decmem)[0], m.decmem.activations.get(list(m.decmem)[0], 1.0)) or None) if 0 else None
    if K == "delay":
        r = rng.random(); n = rng.choice(["g2", "new1"])
        return K, f"{neg} {r:.2f}", (lambda: m.set_goal(n, neg)) if r < .3 else (lambda: m.set_goal(name=n, delay=neg)) if r < .4 else (lambda: goals.Goal(delay=neg)) if r < .6 else (lambda: setattr(w.bufs[rng.choice(["g", "g2"])], "delay", neg)), lambda: goals.Goal(delay=rng.choice([0, .2, 3]))
    if K == "finst":
        r = rng.random()
        return K, f"{neg} {r:.2f}", (lambda: setattr(w.bufs[rng.choice(["retrieval", "retr2"])], "finst", neg)) if r < .4 else (lambda: setattr(w.bufs["visual_location"], "finst", neg)) if r < .6 else (lambda: declarative.DecMemBuffer(finst=neg)) if r < .7 else (lambda: m.visualBuffer("v1", "v2", m.decmem, finst=neg)) if r < .85 else (lambda: vision.VisualLocation(w.env, finst=neg)), lambda: declarative.DecMemBuffer(finst=rng.choice([0, 3]))
    if K == "similarity":
        v = rng.choice([.001, 1, 5, 1e-9, .5]); a, b = rng.choice([("one", "two"), (ch, "x"), ("one", "one")])
        return K, f"{a} {b} {v}", lambda: m.set_similarities(a, b, v), lambda: pyactr.ACTRModel().set_similarities("p", "q", rng.choice([0, -1, -.5]))
    if K == "focus-new":
        v = rng.choice([(1,), (1, 2, 3), [5], 7, 2.5, "abc", {1}]); return K, repr(v), lambda: pyactr.Environment(focus_position=v), lambda: pyactr.Environment(focus_position=rng.choice([(1, 2), [3, 4], None]))
    if K == "focus":
        v = rng.choice([(1,), (1, 2, 3), [], 7, 0, None, 2.5, "abc", ""]); return K, repr(v), lambda: setattr(w.env, "current_focus", v), lambda: setattr(pyactr.Environment(), "current_focus", rng.choice([(1, 2), [3, 4]]))
    if K == "memory":
        n = rng.choice(sorted(w.bufs)); b = w.bufs[n]; at = rng.choice(["dm", "dm", "decmem" if n.startswith("ret") else "default_harvest"]); v = rng.choice(["one", 5, [1], (1, 2), {1}, object(), ch])
        return K, f"{n}.{at} {v!r}", lambda: setattr(b, at, v), lambda: setattr(b, at, m.decmem)
    if K == "buffer-name":
        v = rng.choice([5, None, ("a",), ["b"], 2.5, b"x"]); r = rng.random()
        return K, repr(v), (lambda: m.set_goal(v)) if r < .3 else (lambda: m.set_retrieval(v)) if r < .6 else (lambda: setattr(m, "goal", v)) if r < .8 else (lambda: setattr(m, "retrieval", v)), None
    if K == "rule":
        bad = rng.choice(["=g> isa ts s one", "==> =g> isa ts s one", "=g> isa ts s one ==>", "=g isa ts s one ==> =g> isa ts", "%g> isa ts s one ==> =g> isa ts s two", "=g> isa ts s one ==> %g> isa ts s two", "+g> isa ts ==> =g> isa ts", "~g> ==> =g> isa ts s a", "",
                          "=g> isa ts s ==> =g> isa ts s two", "=g> isa ts s one => =g> isa ts s two", "!g> isa ts s one ==> =g> isa ts", "@g> isa ts s one ==> =g> isa ts", "*g> isa ts s one ==> ~g>", "=g> isa ts s one ==> =g> isa ts s two ==> ~g>", "=1g> isa ts ==> ~g>", "=g> isa ts s ?one ==> ~g>"])
        n = rng.choice(["r0", "new"])
        return K, bad, lambda: m.productionstring(name=n, string=bad, utility=9), None
    if K == "rule-key":
        p = m.productions["r0"]; n = rng.choice(["utilit", "Reward", "rule ", "name"])
        return K, n, lambda: p.__setitem__(n, 5), None
    if K == "goal-retrieve": return K, "", lambda: w.bufs["g"].retrieve(C.Chunk("ta", a="one")), None
    if K in ("create", "modify"):
        kd = rng.choice(["unbound", "negvalue", "negvar", "twovalues"]); d = pat(rng, kd); bound = {"=x": "one"}
        c = C.Chunk("ta", **d); ok = C.Chunk("ta", a="=x", b="two")
        if K == "create": b = w.bufs[rng.choice(["g", "g2"])]; f = lambda: b.create(c, m.decmem, bound); g = lambda: goals.Goal().create(ok, m.decmem, bound)
        else:
            n = rng.choice(sorted(n for n in w.bufs)); b = w.bufs[n]
            f = lambda: b.modify(c, bound)
            def g():
                x = goals.Goal(); x.add(ch); x.modify(ok, bound)
        return f"{K}-{kd}", f"{c}", f, g
    if K == "manual":
        M = motor.Motor()
        r = rng.random()
        if r < .3: d = {"cmd": rng.choice(["press", "Press_key", "punch", "press_keys", "move_attention", "clear"]), "key": "a"}
        elif r < .4: d = {"key": "a"}
        elif r < .5: d = {"cmd": "press_key"}
        elif r < .8: d = {"cmd": "press_key", "key": rng.choice(["F1", "enter", "ab", "é", "spacebar", "left", "10", "-", "shift", "ß", "_", "None", ",", "tab"])}
        elif r < .9: d = {"cmd": "press_key", "key": rng.choice(["=q", "~!a", "~=x"])}
        else: d = {"cmd": rng.choice(["=q", "~!press_key"]), "key": "a"}
        return K, str(d), lambda: M.create(C.Chunk("_manual", **d), {"=x": "a"}), lambda: M.create(C.Chunk("_manual", cmd="press_key", key=rng.choice("aA5zQ0") if rng.random() < .8 else "space"), {})
    if K == "find":
        b = w.bufs["visual_location"]; c = C.Chunk("_visuallocation", **{rng.choice(["screen_x", "screen_y", "value", "color"]): rng.choice(["=q", "~=q", "=xx"])})
        def f():
            w.env.stimulus = {"A": {"text": "A", "position": (10, 20)}}
            try: return b.find(c, {"=x": "one"})
            finally: w.env.stimulus = None
        return K, str(c), f, None
    if K == "request":
        b = w.bufs["retrieval"]; c = C.Chunk("ta", **{rng.choice("abc"): rng.choice(["=q", "=xx", "~=q", "=x!two"])})
        return K, str(c), lambda: b.retrieve(1.0, c, {"=x": "one"}, {}, {}, m.model_parameters), lambda: b.copy().retrieve(1.0, C.Chunk("ta", a="=x", b="~=x"), {"=x": "one"}, {}, {}, {**m.MODEL_PARAMETERS})
DIRECT = ["param", "special", "special-extend", "isa-slot", "parent", "value", "value", "varval", "twice", "grammar", "buffer-add", "buffer-add", "buffer-add", "motor-add", "buffer-new", "buffer-two", "dm-add", "dm-add", "activation", "delay", "finst",
          "similarity", "focus-new", "focus", "memory", "buffer-name", "rule", "rule-key", "goal-retrieve", "create", "create", "modify", "modify", "manual", "manual", "find", "request"]

def attempt(f):
    try: return f(), None
    except Exception as e: return None, e

def static(rng, rec):
    w = World(rng)
    for _ in range(12):
        K, what, f, g = direct(rng, w)
        rec.witness = f"{K}: {what}"; rec.seen((K, what)); rec.count("direct")
        if rng.random() < .1: rec.sample(rec.witness)
        names = ["nm1"]; a = w.state(names)
        r, e = attempt(f)
        rec.check(e is not None, "accepted:" + K, lambda: f"illegal {K} accepted: {what} -> {r!r}", rec.witness)
        rec.count("rejected", e is not None)
        b = w.state(names)
        for k in a: rec.check(a[k] == b[k], "state:" + K, lambda: f"after rejected {K} ({what}): {k} was {a[k]}, is {b[k]}", rec.witness)
        if g is not None:
            r, e = attempt(g); rec.count("legal")
            rec.check(e is None, "legal:" + K, lambda: f"legal neighbour of {K} ({what}) rejected: {type(e).__name__}: {e}", rec.witness)

class RunWorld:
    """the surface of World over a model that is being simulated"""
    def __init__(self, d):
        self.m = d.model; self.env = d.env or pyactr.Environment(); m = d.model
        self.bufs = {n: d.buffers[n] for n in d.buffers if n != "manual"}
        C.chunktype("tp", "p q")
        self.chunks = [C.Chunk("ta", a="one", b="two")]
RUNKINDS = ["param", "special", "isa-slot", "parent", "value", "grammar", "buffer-add", "buffer-add", "buffer-add", "dm-add", "dm-add", "activation", "delay", "finst", "similarity", "focus", "memory", "rule", "goal-retrieve", "create", "create", "modify", "modify", "modify", "request"]

def during(rng, rec):
    kind, sp = drive.make(rng, noise=0, idx=rng.randrange(5))
    if sp["params"].get("emma_noise"): sp["params"]["emma_noise"] = False
    until = sp["until"]
    seed = rng.getrandbits(31)
    rec.witness = sh = drive.show(kind, sp)
    times = sorted({round(rng.uniform(0, until), 3) for _ in range(rng.choice([2, 5, 10]))} - {0.0}) + [until]
    cs = [until * 1.0 for _ in ()]
    a = drive.result(drive.Drive(kind, sp, seed).split(times))
    d = drive.Drive(kind, sp, seed); log = []
    d.model.MODEL_PARAMETERS     # (class defaults: compared in the other mode)
    for t in times:
        w = RunWorld(d)
        for _ in range(rng.choice([1, 3])):
            for _ in range(50):
                global DIRECT
                K = rng.choice(RUNKINDS); keep = DIRECT; DIRECT = [K]
                try: got = attempt(lambda: direct(rng, w))
                finally: DIRECT = keep
                if got[1] is None: break
            else: continue
            K, what, f, g = got[0]
            if "new" in what and K == "rule": continue
            r, e = attempt(f); log.append((t, K, what)); rec.count("during_run"); rec.count("rejected", e is not None)
            rec.check(e is not None, "accepted:" + K, lambda: f"illegal {K} accepted during a run: {what} -> {r!r}", sh)
            if e is None: return
        d.run(t)
    b = drive.result(d); rec.count("twin_runs"); rec.seen(tuple(log))
    from props import c17
    diff = c17.diff(a, b)
    rec.check(diff is None, "disturbed", lambda: f"a simulation differs from its twin after rejected calls {log}: {diff}", sh)

VARS = ["x", "y", "long_name", "g1"]
def badrule(rng):
    """-> spec of a chain s0..sk whose k-th rule is illegal, in a legal and an illegal version"""
    k = rng.choice([0, 1, 1, 2, 3]); v = rng.choice(VARS); un = rng.choice([v + "x", v[:-1] + "q", v.upper() + "_", "q", "z", v + v])
    if un == v: un = "zz"
    extra = rng.random() < .3
    lhs = [f"=g> isa ts s s{k} a ={v}"] + (["=g2> isa ts b =w"] if extra else []); rng.shuffle(lhs)
    kind = rng.choice(["unbound", "unbound", "neg", "neg", "twovalues", "manual", "manual", "visual", "visual", "lhs-prefix", "rhs-prefix", "parse", "retrieval", "location"])
    step = f"=g> isa ts s s{k+1}"; good = bad = None; func = None
    if kind in ("unbound", "neg", "twovalues"):
        act = rng.choice(["=g", "@g", "+g", "*g", "=g2", "@g2", "+g2", "*g2"])
        val = {"unbound": f"={un}", "neg": rng.choice(["~one", "~two", f"~={v}", f"~={un}"]), "twovalues": f"={v} {{}} two"}[kind]
        ok = {"unbound": f"={v}", "neg": rng.choice(["one", f"={v}"]), "twovalues": f"={v} {{}} one"}[kind]
        slot = rng.choice("ab"); fill = [f"{x} {rng.choice(['one', '=' + v])}" for x in "ab" if x != slot and rng.random() < .5] + [f"s s{k+1}"]
        mk = lambda x: (lambda p: f"{act}> isa ts " + p)(" ".join(rng2(rng, fill + [f"{slot} {x.format(slot)}"])))
        st = rng.getstate(); good = mk(ok); rng.setstate(st); bad = mk(val)
        rest = [] if act.endswith("g") else [step]
        if rng.random() < .3 and not act.endswith("g2"): rest.append(rng.choice(["=g2> isa ts b three", "~g2>"]))
    elif kind == "manual":
        good = f"+manual> isa _manual cmd press_key key {rng.choice(['a', 'Z', '5', 'space'])}"
        bad = "+manual> isa _manual " + rng.choice(["cmd press key a", "cmd Press_key key a", "key a", "cmd press_key key F1", "cmd press_key key enter", "cmd press_key key ab", "cmd press_key key '?'", "cmd press_key", f"cmd press_key key ={un}", "cmd press_key key ~a", f"cmd ={v} key a", "cmd press_key key spaces", "cmd None key a"])
        rest = [step]
    elif kind == "visual":
        good = "+visual> isa _visual cmd clear"
        bad = "+visual> isa _visual " + rng.choice(["cmd move", "cmd Clear", "value A", "cmd press_key", f"cmd ={un}", "cmd ~clear", "cmd move_attention", "cmd move_attention screen_pos one", f"cmd move_attention screen_pos ={un}", f"cmd ={v}", "cmd None", f"cmd clear value ={un}", "cmd clear value ~A"])
        rest = [step]
    elif kind == "retrieval":
        good = f"+retrieval> isa ts " + rng.choice([f"a ={v}", "a ~one", f"b ~={v}", f"a ={v} b ~={v}"]); bad = "+retrieval> isa ts " + rng.choice([f"a ={un}", f"a ={v} b ={un}", f"a ~={un}", f"a ={v} a two"]); rest = [step]
    elif kind == "location":
        good = "+visual_location> isa _visuallocation " + rng.choice(["value A", "value ~B", f"value ~={v}"]); bad = "+visual_location> isa _visuallocation " + rng.choice([f"value ={un}", f"screen_x ={un}", f"value A screen_y ={un}", f"value ~={un}"]); rest = [step]
    elif kind == "parse":
        good = "=g> isa ts " + f"s s{k+1} b one"; bad = rng.choice([f"=g> isa ts s s{k+1} b one b two", f"@g> isa ts s s{k+1} b ={v} b =w", f"+g> isa ts s s{k+1} a one a three"]); rest = []
    else: good = bad = step; rest = []; func = (kind, rng.choice("%$^#-_.<g"))
    def rule(x):
        parts = [x] + rest; rng.shuffle(parts); return " ".join(lhs) + " ==> " + " ".join(parts)
    st = rng.getstate(); G = rule(good); rng.setstate(st); B = rule(bad)
    return {"k": k, "kind": kind, "good": G, "bad": B, "func": func, "extra": extra, "v": v, "delay": rng.choice([0, .3]), "step": rng.random() < .3, "sub": rng.random() < .3}

def rng2(rng, l):
    rng.shuffle(l); return l

def runrule(s, bad):
    C.chunktype("ts", "s a b")
    env = pyactr.Environment(focus_position=(100, 100))
    m = pyactr.ACTRModel(environment=env, subsymbolic=s["sub"], automatic_visual_search=False, emma_noise=False)
    m.set_goal("g2", s["delay"])
    m.goals["g"].add(C.Chunk("ts", s="s0", a="one")); m.goals["g2"].add(C.Chunk("ts", b="other"))
    m.decmem.add(C.Chunk("ts", s="old", a="one", b="three"), -5.0)
    for i in range(s["k"]): m.productionstring(name=f"step{i}", string=f"=g> isa ts s s{i} ==> =g> isa ts s s{i+1}")
    if s["func"]:
        kind, p = s["func"]; k = s["k"]
        def last():
            yield {"=g": C.Chunk("ts", s=f"s{k}"), **({p + "g": C.Chunk("ts", a="one")} if bad and kind == "lhs-prefix" else {})}
            yield {"=g": C.Chunk("ts", s=f"s{k+1}"), **({p + "g2": C.Chunk("ts", a="one")} if bad and kind == "rhs-prefix" else {})}
        m.productions.update({"last": {"rule": last, "utility": 0, "reward": None}})
    else: m.productionstring(name="last", string=s["bad" if bad else "good"])
    ev = []; e = None
    class Log:
        def on_event(self, x): ev.append((round(float(x.time), 4), x.proc, x.action))
    try:
        sim = m.simulation(gui=False, trace=False, environment_process=env.environment_process, stimuli=[{"A": {"text": "A", "position": (120, 120)}}], triggers="x", times=100)
        sim.__class__ = obs.MonSim; sim.__dict__["_mon_log"] = Log()
        import contextlib, io
        with contextlib.redirect_stdout(io.StringIO()):
            if s["step"]:
                for _ in range(60): sim.step()
            else: sim.run(2.0)
    except Exception as x: e = x
    return ev, e, m

def rules(rng, rec):
    import simpy
    for _ in range(4):
        s = badrule(rng)
        rec.witness = sh = f"{s}"; rec.seen(sh)
        if rng.random() < .05: rec.sample(sh)
        ev, e, m = runrule(s, False); rec.count("legal_rules")
        if isinstance(e, simpy.core.EmptySchedule): e = None
        rec.check(e is None, "legal-rule", lambda: f"legal rule stops the simulation with {type(e).__name__}: {e}", sh)
        rec.check(any(a == "RULE FIRED: last" for _, _, a in ev), "legal-rule-not-fired", lambda: f"legal rule did not fire: {ev[-8:]}", sh)
        ev, e, m = runrule(s, True); rec.count("bad_rules")
        ok = e is not None and not isinstance(e, simpy.core.EmptySchedule)
        rec.count("rejected", ok)
        if ok and s["kind"] in ("unbound", "neg", "retrieval", "location") and not isinstance(e, U.ACTRError):
            rec.check(False, "crash-rule:" + s["kind"], lambda: f"illegal rule {s['bad']} not rejected with ACTRError but crashed: {type(e).__name__}: {e}", sh)
        rec.check(ok, "accepted-rule:" + s["kind"], lambda: f"illegal rule accepted: {s['bad']} {s['func'] or ''}; events {ev[-8:]}", sh)
        rec.check(not any(a.startswith("RULE FIRED: last") for _, _, a in ev) or s["kind"] != "lhs-prefix", "illegal-fired", lambda: f"a rule with an illegal condition fired: {ev[-8:]}", sh)

def case(rng, idx, rec, tier):
    (static, during, rules)[idx % 3](rng, rec)

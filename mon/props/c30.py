"""C30: a model means the same however it is assembled."""
import random, re
import boot, drive, gen, genmodel, genret, genvis, ref, obs
from boot import pyactr
from pyactr import chunks as C, declarative as D, utilities as U, environment as E
import numpy
PROPERTY = "C30"
N = {"quick": 1600, "thorough": 40000}
TECHNIQUE = "differential monitoring: recorded events, rules, utilities, parameters, memories and final state of one model assembled in two ways (strings against functions, settings given against assigned against documented defaults, ...) compared one by one"
RULE = ("a case is a random model (rule sets, chains, retrieval, vision, key presses; noise, utility learning) assembled the plain way and twice at random from the equivalent routes: rules as strings with random layout or as generator functions, "
        "chunks by makechunk/chunkstring/Chunk, memory by constructor, assignment, add or update, settings at creation, later or spelled-out defaults, buffers by method or attribute, explicit or automatic vision buffers, arguments of the environment "
        "single or repeated; distinct: trace")
REQUIRE = {"events": 60000, "variants": 2000, "functions": 3000, "strings": 3000, "dm_routes": 1500, "defaults_given": 5000, "params_later": 1500, "retrievals": 1500, "presses": 500, "encoded": 300, "own_vision": 150, "attr_goals": 300}

# the documented defaults
DEFAULTS = {"subsymbolic": False, "rule_firing": 0.05, "latency_factor": 0.1, "latency_exponent": 1.0, "decay": 0.5, "baselevel_learning": True, "optimized_learning": False, "instantaneous_noise": 0, "retrieval_threshold": 0,
            "buffer_spreading_activation": {}, "spreading_activation_restricted": False, "strength_of_association": 0, "association_only_from_chunks": True, "partial_matching": False, "mismatch_penalty": 1, "activation_trace": False,
            "utility_noise": 0, "utility_learning": False, "utility_alpha": 0.2, "motor_prepared": False, "strict_harvesting": False, "production_compilation": False, "automatic_visual_search": True, "emma": True, "emma_noise": True,
            "emma_landing_site_noise": False, "eye_mvt_angle_parameter": 1, "eye_mvt_scaling_parameter": 0.01}
ENVDEF = {"size": (640, 360), "simulated_screen_size": (50, 28), "viewing_distance": 50}

EMPTY = re.compile(r"\w+= (None)?(, |(?=\)))")
def norm(e): return e[:2] + (EMPTY.sub("", e[2]).replace(", )", ")"),)   # empty slots, listed or not

class Assembler:
    def __init__(self, kind, sp, rng, rec):
        self.kind, self.sp, self.rng, self.rec = kind, sp, rng, rec
        self.routes = []
    def flip(self, p=.5): return self.rng.random() < p
    def note(self, k): self.routes.append(k)

    # ---- chunks
    def chunk(self, c, typ=None):
        """a reference chunk by a random route, of the type the plain route gives it"""
        plain = C.Chunk("tg", **dict(c)) if typ == "tg" else genmodel.mk(c)
        typ = plain.typename; rng = self.rng
        items = sorted(c, key=str); rng.shuffle(items)
        r = rng.choice(["make", "string", "Chunk", "vv", "plain"])
        if r == "plain": return plain
        if r == "string":
            parts = [f"isa {typ}"]
            for s, v in items:
                if isinstance(v, frozenset):
                    n = gen.fresh(); C.makechunk(nameofchunk=n, typename=self.chunk(v).typename, **{a: b for a, b in sorted(v)}); v = n
                    parts.append(f"{s} {v}")
                else: parts.append(f"{s} {gen.quote(rng, v)}")
            if self.flip(.3): rng.shuffle(parts)
            return C.chunkstring(string=rng.choice([" ", "\n", "  "]).join(parts))
        kw = {s: self.chunk(v) if isinstance(v, frozenset) else v for s, v in items}
        if r == "vv": kw = {s: U.VarvalClass(values=v, variables=None, negvalues=(), negvariables=()) for s, v in kw.items()}
        if r == "make": return C.makechunk(gen.fresh() if self.flip(.3) else "", typ, **kw)
        return C.Chunk(typ, **kw)

    def goal_add(self, b, c):
        b.add(c) if self.flip() else b.add(c, 0)

    # ---- parameters
    def params(self, env):
        sp, rng = self.sp, self.rng
        P = dict(sp["params"]); given = {}; later = {}
        for k, v in P.items(): (given if self.flip(.6) else later)[k] = v
        import copy
        for k, v in DEFAULTS.items():
            if k not in P and self.flip(.4):
                (given if self.flip(.7) else later)[k] = copy.deepcopy(v); self.rec.count("defaults_given")
        keys = list(given); rng.shuffle(keys)
        given = {k: given[k] for k in keys}
        m = pyactr.ACTRModel(environment=env, **given) if self.flip() else pyactr.ACTRModel(env, **given)
        self.rec.count("params_later", len(later)); self.later = later
        if self.flip(): self.assign(m)
        return m
    def assign(self, m):
        if not self.later: return
        if self.flip(): m.model_parameters.update(self.later)
        else:
            for k, v in self.later.items(): m.model_parameters[k] = v
        self.later = {}

    # ---- rules
    def rule_string(self, r):
        rng = self.rng
        def pat(p):
            parts = [f"isa {p[0]}"] if p[0] else []
            for slot in p[1]: parts += ref.cons_text(slot, p[1][slot], self.sp.get("names"))
            return rng.choice([" ", "\n", "\n   ", "  \t"]).join(parts)
        out = []
        sep = rng.choice(["\n", " ", "\n\n  "])
        for side in ("lhs", "rhs"):
            if side == "rhs": out.append("==>")
            for code, buf, pl in r[side]:
                if code == "~": out.append(f"~{buf}>")
                elif code == "?": out.append(f"?{buf}> " + sep.join(f"{k} {v}" for k, v in pl.items()))
                else: out.append(f"{code}{buf}>{sep}" + pat(pl))
        return sep.join(out)
    def pattern(self, p):
        """a pattern of a rule as Chunk"""
        typ, pat = p; rng = self.rng
        r = rng.choice(["string", "vv", "vv", "make"])
        nm = lambda v: C.makechunk("", **gen._mk(random.Random(1), v)) if isinstance(v, frozenset) else v
        rel = any(c.val in ("<", ">") for c in pat.values())
        if (r == "string" or rel) and (typ or pat):
            return C.chunkstring(string=ref.pattern_text(typ, pat, self.sp.get("names")))
        kw = {}
        for s, c in pat.items():
            if r == "make" and c.var is None and not c.negvals and not c.negvars: kw[s] = nm(c.val)
            elif r == "make" and c.val is None and not c.negvals and not c.negvars: kw[s] = "=" + c.var
            else: kw[s] = U.VarvalClass(values=nm(c.val), variables=c.var, negvalues=tuple(nm(v) for v in c.negvals), negvariables=tuple(c.negvars))
        if typ and r == "vv": return C.Chunk(typ, **kw)
        return C.makechunk("", typ, **kw)
    def function(self, r):
        """a rule as a generator function"""
        sides = []
        for side in ("lhs", "rhs"):
            d = {}
            for code, buf, pl in r[side]:
                d[code + buf] = None if code == "~" else dict(pl) if code == "?" else self.pattern(pl)
            sides.append(d)
        u, w = r["utility"], r["reward"]
        body = lambda: iter([dict(sides[0]), dict(sides[1])])
        if u == 0 and w is None and self.flip():
            def f():
                yield dict(sides[0]); yield dict(sides[1])
        elif w is None and self.flip():
            def f(utility=u):
                yield dict(sides[0]); yield dict(sides[1])
        elif u == 0 and self.flip():
            def f(reward=w):
                yield dict(sides[0]); yield dict(sides[1])
        elif self.flip():
            def f(utility=u, reward=w):
                yield dict(sides[0]); yield dict(sides[1])
        else:
            def f(reward=w, utility=u):
                yield dict(sides[0]); yield dict(sides[1])
        f.__name__ = r["name"]
        return f
    def rules(self, m):
        rng = self.rng; rules = self.sp["rules"]
        mode = rng.choice(["strings", "functions", "functions", "mixed"])
        k = {"strings": 0, "functions": len(rules), "mixed": rng.randint(1, len(rules))}[mode] if rules else 0
        if k:
            m.set_productions(*[self.function(r) for r in rules[:k]])
            self.rec.count("functions", k); self.note(f"{k} rules as functions")
        for r in rules[k:]:
            self.rec.count("strings")
            x = rng.random(); s = self.rule_string(r); u, w = r["utility"], r["reward"]
            if x < .3: m.productionstring(r["name"], s, u, w)
            elif x < .6: m.productionstring(name=r["name"], string=s, **({"utility": u} if u or self.flip() else {}), **({"reward": w} if w is not None or self.flip() else {}))
            elif x < .8:
                m.productionstring(name=r["name"], string=s)
                m.productions[r["name"]]["utility"] = u; m.productions[r["name"]]["reward"] = w; self.note("utility assigned")
            else:
                f = self.function(r); m.productions.update({r["name"]: {"rule": f, "utility": u, "reward": w}}); self.note("rule by update")

    # ---- buffers and memory
    def goals(self, m):
        for n, d in self.sp["goals"].items():
            if n == "g" and not d and self.flip(.7): continue
            x = self.rng.random()
            if x < .3: m.set_goal(n, d)
            elif x < .5: m.set_goal(name=n, delay=d)
            elif x < .7: m.set_goal(n).delay = d
            else: m.goal = n; m.goals[n].delay = d; self.rec.count("attr_goals")
    def retrievals(self, m):
        for n in self.sp["retrievals"]:
            if n != "retrieval":
                if self.flip(): m.set_retrieval(n)
                else: m.retrieval = n
        for n, k in self.sp.get("finst", {}).items():
            if n in m.retrievals: m.retrievals[n].finst = k
    def dm(self, m):
        l = {}
        for c, ts in self.sp["dm"]: l.setdefault(c, []).extend(ts)          # several entries of one chunk: its presentations
        items = list(l.items()); rng = self.rng
        r = rng.choice(["dict", "decmem=", "array", "add", "addlist", "update", "item", "setdefault", "grouped", "pairs"])
        self.rec.count("dm_routes"); self.note("memory by " + r)
        if not items: return
        mk = self.chunk
        if r == "dict": m.set_decmem({mk(c): list(ts) if len(ts) > 1 or self.flip() else ts[0] for c, ts in items})
        elif r == "decmem=": m.decmem = {mk(c): list(ts) if len(ts) > 1 or self.flip() else ts[0] for c, ts in items}
        elif r == "pairs": m.set_decmem([(mk(c), list(ts)) for c, ts in items])
        elif r == "array": m.set_decmem({mk(c): numpy.array([float(t) for t in ts]) for c, ts in items})
        elif r == "add":
            for c, ts in items:
                for t in ts: m.decmem.add(mk(c), t)
        elif r == "addlist":
            for c, ts in items: m.decmem.add(mk(c), time=list(ts) if self.flip() else tuple(ts))
        elif r == "update": m.decmem.update({mk(c): list(ts) for c, ts in items})
        elif r == "item":
            for c, ts in items: m.decmem[mk(c)] = list(ts)
        elif r == "setdefault":
            for c, ts in items: m.decmem.setdefault(mk(c), list(ts))
        else:
            i = 0
            while i < len(items):                                            # neighbours with the same presentations are added together
                j = i
                while j < len(items) and items[j][1] == items[i][1]: j += 1
                group = [mk(c) for c, _ in items[i:j]]
                m.decmem.add(group if self.flip() else iter(group), list(items[i][1])); i = j

    def ownmemory(self, m):
        for n, l in self.sp["owndm"].items():
            d = {}
            for c, ts in l: d.setdefault(c, []).extend(ts)
            m.retrievals[n].decmem = D.DecMem({self.chunk(c): list(ts) for c, ts in d.items()})

    # ---- the whole
    def env(self):
        e = dict(self.sp["env"])
        for k, v in ENVDEF.items():
            if e.get(k) == v and self.flip(): del e[k]
        if "focus_position" in e and self.flip():
            f = e.pop("focus_position")
            x = pyactr.Environment(**e); x.current_focus = f if self.flip() else list(f)
            return x
        return pyactr.Environment(**e)
    def envargs(self, env):
        import copy
        a = copy.deepcopy(self.sp["envargs"])
        if len(a["stimuli"]) > 1:
            if len(set(map(str, a["triggers"]))) == 1 and self.flip(): a["triggers"] = a["triggers"][0] if self.flip() else a["triggers"][:1]
            if len(set(a["times"])) == 1 and self.flip(): a["times"] = a["times"][0] if self.flip() else a["times"][:1]
        else:
            if self.flip(.3): a["triggers"] = a["triggers"][0]
            if self.flip(.3): a["times"] = a["times"][0]
            if self.flip(.2): a["stimuli"] = a["stimuli"][0]
        if a.get("times") in (1, [1]) and self.flip(): del a["times"]
        if self.flip(.3): a["start_time"] = 0
        return dict(environment_process=env.environment_process, **a)
    def build(self):
        sp = self.sp; vis = self.kind == "vis"; rng = self.rng
        genvis.types() if vis else gen.types()
        if not vis:
            for t in ("tx_g", "tx_g2", "tx_r"): C.chunktype(t, "step a b c d")
        for c, n in sp.get("names", {}).items(): C.makechunk(n, **gen._mk(random.Random(1), c))
        env = self.env() if vis else None
        m = self.params(env)
        self.goals(m)
        if not vis: self.retrievals(m)
        def init():
            for n, c in sp["init"].items(): self.goal_add(m.goals[n], self.chunk(c, "tg" if vis else None))
        def sims():
            q = lambda v: self.chunk(v) if isinstance(v, frozenset) else v
            for a, b, v in sp.get("sims", []):
                a, b = (a, b) if self.flip() else (b, a)
                m.set_similarities(q(a), q(b), v)
        def memory():
            if vis: return
            self.dm(m)
            for c, a in sp.get("acts", []): m.decmem.add_activation(self.chunk(c), a)
            if "owndm" in sp: self.ownmemory(m)
            for n, d in sp.get("bufparams", {}).items():
                if self.flip(): m.retrievals[n].model_parameters = dict(d)
                else: m.retrievals[n].model_parameters.update(d)
        todo = [init, sims, memory, lambda: self.rules(m), lambda: self.assign(m)]
        rng.shuffle(todo)
        for f in todo: f()
        if vis:
            if "visual_location" in sp["finst"] or sp.get("ownvis") or self.flip():
                k = sp["finst"].get("visual_location", 4); self.rec.count("own_vision")
                if k == 4 and self.flip(): m.visualBuffer("visual", "visual_location", m.decmem)
                else: m.visualBuffer(name_visual="visual", name_visual_location="visual_location", default_harvest=m.decmem, finst=k)
        return m, env, self.envargs(env) if vis else {}

class Variant(drive.Drive):
    def __init__(self, kind, sp, nseed, rng, rec):
        self.asm = Assembler(kind, sp, rng, rec)
        orig = drive.build
        drive.build = lambda *a, **k: self.asm.build()
        try: super().__init__(kind, sp, nseed)
        finally: drive.build = orig

def facts(d):
    """what can be read off a model before it runs"""
    m = d.model
    return {"rules": [(n, m.productions[n]["utility"], m.productions[n]["reward"]) for n in m.productions], "parameters": {k: m.model_parameters[k] for k in sorted(m.model_parameters) if k not in (d.sp.get("vdecoy") or ())},
            "memory": sorted(map(drive.canon, obs.dm_norm(m.decmem).items())), "goals": {n: (g.delay, drive.canon(obs.content(g))) for n, g in m.goals.items()}, "finst": {n: r.finst for n, r in m.retrievals.items()}}

def case(rng, idx, rec, tier):
    kind, sp = drive.make(rng, idx=idx)
    if rng.random() < .5:
        for k in list(sp["params"]):
            if sp["params"][k] != DEFAULTS.get(k) and rng.random() < .3 and k in ("rule_firing", "latency_factor", "latency_exponent", "decay", "mismatch_penalty", "retrieval_threshold", "utility_alpha", "eye_mvt_scaling_parameter",
                    "eye_mvt_angle_parameter", "baselevel_learning", "association_only_from_chunks", "automatic_visual_search", "emma"): sp["params"][k] = DEFAULTS[k]
    for r in sp["rules"]: r["name"] = r["name"].replace(" ", "_")
    rec.witness = sh = drive.show(kind, sp); until = sp["until"]; ns = rng.getrandbits(31)
    d0 = drive.Drive(kind, sp, ns); f0 = facts(d0); d0.run(until); r0 = drive.result(d0); ev = r0["trace"]
    rec.count("events", len(ev)); rec.seen(tuple(ev))
    for _, p, a in ev:
        if a.startswith("RETRIEVED: ") and not a.endswith("None"): rec.count("retrievals")
        elif a.startswith("KEY PRESSED"): rec.count("presses")
        elif a.startswith("ENCODED VIS"): rec.count("encoded")
    for _ in range(2):
        d = Variant(kind, sp, ns, rng, rec); f = facts(d); rec.count("variants")
        how = "assembled otherwise (" + ", ".join(d.asm.routes) + ")"
        for k in f0:
            if not rec.check(f0[k] == f[k], "assembled:" + k, lambda: f"{how}: {k} {f[k]} instead of {f0[k]}", sh): return
        d.run(until); r = drive.result(d)
        for i, (x, y) in enumerate(zip(ev, r["trace"])):
            if not rec.check(x == y or norm(x) == norm(y), "trace", lambda: f"{how}: event {i} {y} instead of {x}; before {ev[max(0, i-4):i]}", sh): return
        if not rec.check(len(ev) == len(r["trace"]) and r0["crash"] == r["crash"], "trace-length", lambda: f"{how}: {len(r['trace'])} instead of {len(ev)} events ({d0.crash!r}, {d.crash!r}); then {(ev[len(r['trace']):] or r['trace'][len(ev):])[:2]}", sh): return
        if not rec.check(r0["final"] == r["final"], "final", lambda: f"{how}: final state {r['final']} instead of {r0['final']}", sh): return
    if idx < 16: rec.sample(str(ev[:6]))

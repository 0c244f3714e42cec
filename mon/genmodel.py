"""Random models (symbolic and subsymbolic) as plain data, and their construction in pyactr."""
import boot
from boot import pyactr
import ref, gen
from ref import con
from pyactr import chunks as C, utilities as U, declarative

GSLOTS = ["a", "b", "c"]
KEYS = ["A", "S", "D", "F", "J", "K", "L", "SPACE", "Q", "B", "5", "6", "1", "0", "N", "M"]
BOOLQ = {"state": ["free", "busy", "error"], "buffer": ["full", "empty"]}

def ty(rng):
    """type named in a rule: the common one, none, or one not declaring all slots"""
    return "ta" if rng.random() < .8 else ""

def small_chunk(rng, vals, p=.85, slots=GSLOTS):
    return ref.chunk_of({s: rng.choice(vals) for s in slots if rng.random() < p})

def test_pattern(rng, vals, vars, pm=.5, slots=GSLOTS, neg=.15):
    pat = {}
    for s in slots:
        if rng.random() > pm: continue
        r = rng.random()
        if r < .45: pat[s] = con(val=rng.choice(vals + (["None"] if rng.random() < .2 else [])))
        elif r < .75: pat[s] = con(var=rng.choice(vars))
        elif r < .75 + neg: pat[s] = con(negvals=[rng.choice(vals)] + ([rng.choice(vals)] if rng.random() < .2 else []))
        else: pat[s] = con(negvars=[rng.choice(vars)], var=None)
        if rng.random() < .1 and not pat[s].negvals: pat[s] = pat[s]._replace(negvals=(rng.choice(vals),))
    for s, c in pat.items():
        pat[s] = c._replace(negvals=tuple(dict.fromkeys(c.negvals)))
    return pat

def set_pattern(rng, vals, bound, pm=.6, slots=GSLOTS, atleast=1, none=.05):
    pat = {}
    while len(pat) < atleast:
        for s in slots:
            if rng.random() > pm: continue
            if bound and rng.random() < .4: pat[s] = con(var=rng.choice(bound))
            else: pat[s] = con(val="None" if rng.random() < none else rng.choice(vals))
        if not slots: break
    return pat

def req_pattern(rng, vals, bound, pm=.5, slots=GSLOTS):
    pat = {}
    for s in slots:
        if rng.random() > pm: continue
        r = rng.random()
        if bound and r < .25: pat[s] = con(var=rng.choice(bound))
        elif r < .7: pat[s] = con(val=rng.choice(vals))
        elif bound and r < .8: pat[s] = con(negvars=[rng.choice(bound)])
        else: pat[s] = con(negvals=[rng.choice(vals)])
    return pat

def random_spec(rng, **f):
    """f: feature flags (probabilities or fixed values)"""
    def flag(name, p):
        v = f.get(name, p)
        return v if isinstance(v, (bool, str)) or v is None else rng.random() < v
    vals = rng.sample(["x", "y", "z", "w", "10", "v_1"], f.get("nvals", rng.choice([2, 3, 3, 4])))
    vars = rng.sample(["p", "q", "pq", "qq", "r1"], 3)
    sp = {"params": dict(f.get("params", {})), "goals": {"g": 0}, "retrievals": [], "manual": False, "rules": [], "init": {}, "dm": [], "vals": vals,
          "two_dm": False}
    if flag("g2", .5): sp["goals"]["g2"] = rng.choice(f.get("delays", [0, .1, .05, .03, .2]))
    if flag("g3", .15): sp["goals"]["gthree"] = rng.choice(f.get("delays", [0, .1, .05]))
    if flag("retrieval", .5): sp["retrievals"].append("retrieval")
    if flag("retr2", .0): sp["retrievals"].append("ret2")
    sp["manual"] = bool(flag("manual", .25))
    if flag("strict", .2): sp["params"]["strict_harvesting"] = True
    if "rule_firing" not in sp["params"] and flag("varfiring", .3):
        sp["params"]["rule_firing"] = rng.choice([.05, .1, .03, .001, .2])
    for n in sp["goals"]:
        if n == "g" or rng.random() < .7: sp["init"][n] = small_chunk(rng, vals)
    if not sp["init"]["g"]: sp["init"]["g"] = frozenset([("a", vals[0])])
    for _ in range(rng.choice([0, 1, 3, 6]) if not sp["retrievals"] else rng.choice([1, 2, 4, 7])):
        c = small_chunk(rng, vals)
        if c: sp["dm"].append((c, sorted(round(-rng.random() * 20, rng.choice([0, 2])) - .01 for _ in range(rng.choice([1, 1, 2, 4])))))
    if flag("bufvars", 0.0):
        sp["goals"].setdefault("g2", rng.choice([0, 0, .05]))
        sp["bufvars"] = [b for b in list(sp["goals"]) + ["retrieval"] if b != "g"]
        if sp["init"].get("g2") and rng.random() < .7: sp["init"]["g"] = ref.chunk_of({**dict(sp["init"]["g"]), "b": sp["init"]["g2"]})
    sp["star"] = {n: d == 0 or rng.random() < f.get("starp", .5) for n, d in sp["goals"].items()}
    nr = f.get("nrules") or rng.choice([2, 3, 4, 6, 9])
    for i in range(nr):
        sp["rules"].append(random_rule(rng, sp, f"rule {i}" if rng.random() < .1 else f"rule{i}", vals, vars, f))
    if sp.get("bufvars") and rng.random() < .6:        # a rule for the moments when the goal has (has not) the chunk of g2, and one that makes them differ
        L = [("=", "g", ("ta", {"b": con(var="g2") if rng.random() < .7 else con(negvars=["g2"])})), ("=", "g2", (ty(rng), {"a": con(val=rng.choice(vals))} if rng.random() < .3 else {}))]
        rng.shuffle(L)
        for k, R in enumerate([[("=", "g", ("ta", {"c": con(val=rng.choice(vals))}))], [("=", "g", ("ta", {"b": con(var="g2")}))]]):
            if rng.random() < .5: R.append(("=", "g2", ("ta", {rng.choice("abc"): con(val=rng.choice(vals))})))
            sp["rules"].append({"name": f"named{k}", "lhs": list(L) if not k else [("=", "g", ("ta", {"c": con(val=rng.choice(vals))})), ("=", "g2", ("ta", {}))], "rhs": R, "utility": rng.choice([0, 2, 5, 6]), "reward": None, "bufvars": True})
    return sp

def random_rule(rng, sp, name, vals, vars, f):
    L = []; bound = []; tested = []
    neg = f.get("neg", .15)
    bufvars = sp.get("bufvars")         # some variables have the names of buffers
    def addtest(buf):
        pat = test_pattern(rng, vals, vars[:1] + [x for x in bufvars if x != buf] * 2 if bufvars else vars, rng.choice([.3, .5, .7]), neg=neg)
        L.append(("=", buf, (ty(rng), pat)))
        tested.append(buf)
        for c in pat.values():
            if c.var: bound.append(c.var)
        if bufvars and buf != "g": bound.extend([buf] * 3)
    if rng.random() < .92: addtest("g")
    for b in list(sp["goals"])[1:]:
        if rng.random() < .4: addtest(b)
        elif rng.random() < f.get("gquery", .3): L.append(("?", b, rquery(rng, False)))
    if bufvars and "g" in tested and rng.random() < .5:        # the chunk in a buffer is (or is not) the value of a slot of the goal
        p = L[0][2][1]
        slot = "b" if rng.random() < .8 else rng.choice(GSLOTS)
        for s in GSLOTS:
            if s in p and p[s].var is None and rng.random() < .6: del p[s]
        if slot not in p or p[slot].var is None:
            p[slot] = con(var="g2") if rng.random() < .7 else con(negvars=["g2"])
            if p[slot].negvars and rng.random() < .6:         # the chunk in the buffer is none of several values
                for s in GSLOTS:
                    if s not in p and rng.random() < .7: p[s] = con(negvars=["g2"])
        if "g2" not in tested and "g2" in sp["goals"]: L.append(("=", "g2", ("ta", {}))); tested.append("g2")
    for b in sp["retrievals"]:
        if rng.random() < .35: addtest(b)
        elif rng.random() < .45: L.append(("?", b, rquery(rng, True)))
    if sp["manual"] and rng.random() < .5:
        q = rng.choice(["state", "state", "preparation", "processor", "execution"])
        L.append(("?", "manual", {q: rng.choice(["free", "free", "busy"])}))
    if not L: addtest("g")
    rng.shuffle(L)
    R = []
    acts = f.get("acts", "=~@+*")
    strict = sp["params"].get("strict_harvesting")
    for b, delay in sp["goals"].items():
        r = rng.random(); allbound = bound
        if bufvars and b != "g": bound = []     # chunks are not put into each other endlessly
        if strict: r = r * .85 if b == "g" else 1.0 if b in tested and rng.random() < .4 else r * .5 if b not in tested else r
        if f.get("star_bias") and delay and sp["star"][b] and b in tested and rng.random() < f["star_bias"]: r = .65
        if b in tested:
            if r < .55 and "=" in acts:
                R.append(("=", b, (ty(rng), set_pattern(rng, vals, bound))))
                if rng.random() < .08 and "~" in acts: R.append(("~", b, None))
                elif rng.random() < .08 and "+" in acts: R.append(("+", b, (ty(rng), set_pattern(rng, vals, bound))))
            elif r < .62 and "~" in acts and b != "g": R.append(("~", b, None))
            elif r < .7 and "*" in acts and sp["star"][b]: R.append(("*", b, (ty(rng), set_pattern(rng, vals, bound))))
            elif r < .77 and "@" in acts and delay == 0: R.append(("@", b, (ty(rng), set_pattern(rng, vals, bound))))
            elif r < .87 and "+" in acts: R.append(("+", b, (ty(rng), set_pattern(rng, vals, bound))))
        else:
            if r < .3 and "+" in acts: R.append(("+", b, (ty(rng), set_pattern(rng, vals, bound))))
            elif r < .38 and "@" in acts and delay == 0: R.append(("@", b, (ty(rng), set_pattern(rng, vals, bound))))
            elif r < .42 and "~" in acts and b != "g": R.append(("~", b, None))
        bound = allbound
    for b in sp["retrievals"]:
        r = rng.random()
        if b in tested and f.get("extra") and rng.random() < .4: r = .65
        if r < .4:
            R.append(("+", b, (ty(rng), req_pattern(rng, vals, bound))))
            if f.get("finst") and rng.random() < .6:
                R.append(("?", b, {"recently_retrieved": rng.choice(["False", "False", "True"])}))
        elif r < .5 and "~" in acts and f.get("clear_retrieval", True): R.append(("~", b, None))
        elif r < .6 and b in tested and "=" in acts: R.append(("=", b, (ty(rng), set_pattern(rng, vals, bound if not bufvars else []))))
        elif r < .68 and b in tested and f.get("extra"): R.append(("?", b, {"recently_retrieved": rng.choice(["False", "True"])}))
    if sp["manual"] and rng.random() < .45 and any(c == "?" and b == "manual" for c, b, _ in L):
        R.append(("+", "manual", ("_manual", {"cmd": con(val="press_key"), "key": con(val=rng.choice(KEYS))})))
    if not R:
        if "g" in tested: R.append(("=", "g", (ty(rng), set_pattern(rng, vals, bound))))
        else: R.append(("+", "g", (ty(rng), set_pattern(rng, vals, bound))))
    if bufvars and "g2" in tested and rng.random() < .4:      # the goal gets the chunk of the buffer
        for c, b, p in R:
            if b == "g" and c in "=@+*": p[1][rng.choice("bbc")] = con(var="g2")
    rng.shuffle(R)
    rule = {"name": name, "lhs": L, "rhs": R, "utility": rng.choice([0, 0, 1, 2, 5, -1]), "reward": None}
    if bufvars: rule["bufvars"] = True
    return rule

def rquery(rng, retr):
    out = {}
    if rng.random() < .7: out["state"] = rng.choice(["free", "free", "busy", "error"] if retr else ["free", "free", "busy"])
    if rng.random() < .5 or not out: out["buffer"] = rng.choice(["full", "empty"])
    return out

def build(sp, rng=None, environment=None, shift=0.0):
    """spec -> ACTRModel"""
    import random
    rng = rng or random.Random(0)
    gen.types()
    m = pyactr.ACTRModel(environment=environment, **sp["params"])
    for n, d in sp["goals"].items():
        if n != "g" or d: m.set_goal(n, d)
    for n in sp["retrievals"]:
        if n != "retrieval": m.set_retrieval(n)
    for n, c in sp["init"].items():
        m.goals[n].add(mk(c))
    dms = [m.decmem]
    for i, (c, ts) in enumerate(sp["dm"]):
        for t in ts:
            dms[0].add(mk(c), t + shift)
    memories(m, sp, shift)
    for n, k in sp.get("finst", {}).items():
        m.retrievals[n].finst = k
    for r in sp["rules"]:
        m.productionstring(name=r["name"], string=ref.rule_text(r, sp.get("names")), utility=r["utility"], reward=r["reward"])
    return m

def more_memories(rng, sp):
    """a second memory; every buffer gets one of the two, or none if only one of them has content"""
    sp["dm2"] = [(small_chunk(rng, sp["vals"]) or frozenset([("a", sp["vals"][0])]), [round(-rng.random() * 5 - .01, 2)]) for _ in range(rng.choice([1, 2, 4]))]
    if rng.random() < .35: sp["dm"] = []
    own_memories(rng, sp)

def own_memories(rng, sp):
    ks = ["decmem", "second"] if sp["dm"] else ["decmem", "second", None, None]
    sp["dmof"] = {n: rng.choice(ks) for n in list(sp["goals"]) + ["retrieval"] + sp["retrievals"]}

def memories(m, sp, shift=0.0):
    if not sp.get("dm2"): return
    d = m.decmems["second"] = declarative.DecMem()
    for c, ts in sp["dm2"]:
        for t in ts: d.add(mk(c), t + shift)
    for n, k in sp["dmof"].items():
        if k is None: continue
        if n in m.goals: m.goals[n].default_harvest = m.decmems[k]
        else: m.retrievals[n].decmem = m.decmems[k]

def memories_right(h, rec):
    """every buffer is associated with the memory it was given; without one, with the only one that has content"""
    of = h.spec.get("dmof")
    if not of: return True
    rec.count("two_memories")
    for n, k in of.items():
        if not rec.check(h.mon.buffers[n].dm is h.mon.model.decmems[k or "second"], "memory-of-buffer", lambda: f"buffer {n} was given {k}, it has another memory", h.showspec() if hasattr(h, "showspec") else show(h.spec)): return False
    return True

def mk(c, typ=None):
    """reference chunk -> Chunk, canonical route"""
    gen.types()
    narrow = sum(map(ord, "".join(sorted(s + str(v) for s, v in c if isinstance(v, str))))) % 3 == 0
    typ = typ or ("ta" if {s for s, _ in c} <= set(GSLOTS) and not narrow else "tx_" + "_".join(sorted(s for s, _ in c)))
    return C.Chunk(typ, **{s: mk(v) if isinstance(v, frozenset) else v for s, v in sorted(c, key=lambda x: x[0])})

def show(sp):
    return "\n".join([f"params={sp['params']} goals={sp['goals']} init={ {k: sorted(map(str, v)) for k, v in sp['init'].items()} } dm={[(sorted(map(str, c)), t) for c, t in sp['dm']]} finst={sp.get('finst')}" + (f" second memory {[(sorted(map(str, c)), t) for c, t in sp['dm2']]} memories of buffers {sp['dmof']}" if sp.get('dm2') else '')] +
                     [f"[{r['name']} u={r['utility']} rew={r['reward']}]\n{ref.rule_text(r, sp.get('names'))}" for r in sp["rules"]])

def chain_spec(rng, **f):
    """a model that goes through steps s0, s1, ... (kept in slot a of g), at each step doing random things to its other buffers"""
    sp = random_spec(rng, **{**dict(g2=.85, g3=.5, retrieval=.7, retr2=.3, manual=.3, strict=.3), **f})
    n = rng.choice([3, 5, 8, 12])
    vals = sp["vals"]; rules = []
    sp["init"]["g"] = ref.chunk_of({**dict(sp["init"]["g"]), "a": "s0"})
    strict = sp["params"].get("strict_harvesting")
    others = [b for b in sp["goals"] if b != "g"] + sp["retrievals"]
    for i in range(n):
        for k in range(rng.choice([3, 4, 5])):
            bound = []
            pat = {"a": con(val=f"s{i}")}
            for s in "bc":
                if rng.random() < .4: pat[s] = con(var="v" + s); bound.append("v" + s)
            L = [("=", "g", (ty(rng), pat))]; R = []
            for b in others:
                tested = rng.random() < (.5, .35, .35, 0, 0)[k]
                if tested:
                    p = {}
                    for s in GSLOTS:
                        r = rng.random()
                        if r < .3: p[s] = con(var="u" + b[-1] + s); bound.append("u" + b[-1] + s)
                        elif r < .38: p[s] = con(negvals=[rng.choice(vals)])
                    L.append(("=", b, (ty(rng), p)))
                elif rng.random() < .3 * (k < 2): L.append(("?", b, rquery(rng, b in sp["retrievals"])))
                r = rng.random() * (1 if not strict else 1.5 if tested else .6); retr = b in sp["retrievals"]
                delay = sp["goals"].get(b, 0)
                if retr:
                    if r < .3: R.append(("+", b, (ty(rng), req_pattern(rng, vals, bound, .35))))
                    elif r < .36: R.append(("~", b, None))
                    elif r < .5 and tested: R.append(("=", b, (ty(rng), set_pattern(rng, vals, bound))))
                    elif r < .7 and tested and f.get("extra"): R.append(("?", b, {"recently_retrieved": rng.choice(["False", "True"])}))
                else:
                    if r < .3: R.append(("+", b, (ty(rng), set_pattern(rng, vals, bound))))
                    elif r < .38: R.append(("~", b, None))
                    elif r < .55 and tested: R.append(("=", b, (ty(rng), set_pattern(rng, vals, bound))))
                    elif r < .62 and tested and sp["star"][b]: R.append(("*", b, (ty(rng), set_pattern(rng, vals, bound))))
                    elif r < .68 and delay == 0: R.append(("@", b, (ty(rng), set_pattern(rng, vals, bound))))
            g = {"a": con(val=f"s{(i + 1) % n}" if rng.random() < .9 else f"s{rng.randrange(n)}")}
            for s in "bc":
                if rng.random() < .3: g[s] = con(var=rng.choice(bound)) if bound and rng.random() < .5 else con(val=rng.choice(vals))
            R.append(("=" if rng.random() < .8 else "+" if rng.random() < .6 or sp["goals"]["g"] else "@", "g", (ty(rng), g)))
            if sp["manual"] and rng.random() < .3:
                L.append(("?", "manual", {"state": "free"}))
                R.append(("+", "manual", ("_manual", {"cmd": con(val="press_key"), "key": con(val=rng.choice(KEYS))})))
            rng.shuffle(L); rng.shuffle(R)
            rules.append({"name": f"s{i}r{k}", "lhs": L, "rhs": R, "utility": 5 - k + (rng.random() < .3) * 2 * (k < 3), "reward": None})
    sp["rules"] = rules; sp.pop("bufvars", None)
    return sp

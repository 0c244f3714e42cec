"""Models that retrieve again and again (as plain data) and their construction in pyactr."""
import math, random
import boot
from boot import pyactr
import ref, gen, genmodel
from ref import con
from pyactr import chunks as C, declarative as D

SL = ["a", "b", "c", "d"]

def rchunk(rng, vals, p=.75, slots=SL):
    while True:
        c = ref.chunk_of({s: rng.choice(vals) for s in slots if rng.random() < p})
        if c: return c

def spec(rng, **f):
    """f: subsymbolic (default False), nested, nreq, recall ('finst' tests), spread, pm, base, shift..."""
    sub = f.get("subsymbolic", False)
    atoms = rng.sample(["x", "y", "z", "w", "10", "v_1"], rng.choice([2, 3, 4]))
    nest = [ref.chunk_of({"a": a}) for a in atoms[:2]] + [ref.chunk_of({"a": atoms[0], "b": atoms[-1]})] if rng.random() < f.get("nested", .5) else []
    vals = atoms + nest
    P = {"rule_firing": rng.choice([.05, .05, .1, .0123])}
    sp = {"params": P, "goals": {"g": 0}, "retrievals": ["retrieval"], "manual": False, "rules": [], "init": {}, "dm": [], "names": {}, "bufparams": {}, "finst": {}, "acts": [], "sims": [], "owndm": {}}
    for n in nest: sp["names"][n] = gen.fresh("nest")
    if rng.random() < f.get("g2", .6): sp["goals"]["g2"] = 0
    if rng.random() < f.get("two", .15): sp["retrievals"].append("ret2")
    nreq = f.get("nreq") or rng.choice([1, 1, 2, 3, 5])
    sp["init"]["g"] = ref.chunk_of(dict([("step", "s0")] + [(s, rng.choice(vals)) for s in SL if rng.random() < .8]))
    if "g2" in sp["goals"] and rng.random() < .9: sp["init"]["g2"] = rchunk(rng, vals)
    pool = [rchunk(rng, vals) for _ in range(f.get("npool") or rng.choice([1, 2, 4, 8]))] + nest
    for c in pool:
        if rng.random() < .85:
            k = rng.choice([1, 1, 2, 3, 6])
            ts = sorted(rng.choice([round(-rng.random() * 10 ** rng.choice([-1, 0, 1, 2]) - .001, rng.choice([1, 3, 4])) - (.1 if not rng.randrange(4) else .001) for _ in range(1)]) for _ in range(k))
            sp["dm"].append((c, [round(t, 4) for t in ts]))
    if rng.random() < .5: sp["dm"].append((rchunk(rng, vals), [0]))
    if not sp["dm"]: sp["dm"].append((pool[0], [-1.0]))
    if not sub and "g2" in sp["goals"] and rng.random() < .6: sp["init"]["g2"] = rng.choice(sp["dm"])[0]
    if "ret2" in sp["retrievals"] and rng.random() < .6:
        sp["owndm"]["ret2"] = [(rchunk(rng, vals), [round(-rng.random() * 5 - .01, 3) for _ in range(rng.choice([1, 3]))]) for _ in range(rng.choice([1, 3, 5]))]
    if rng.random() < f.get("memories", 0):
        sp["dm2"] = [(rchunk(rng, vals), [round(-rng.random() * 5 - .01, 3) for _ in range(rng.choice([1, 3]))]) for _ in range(rng.choice([1, 3, 5]))]; sp["owndm"] = {}
        genmodel.own_memories(rng, sp)
    # ---- parameters
    if sub:
        P["subsymbolic"] = True
        P["retrieval_threshold"] = rng.choice([0, -2, 1.5, -100.0, -100.0, -.5])
        P["latency_factor"] = rng.choice([.1, 1, 50, 1000.0])
        P["latency_exponent"] = rng.choice([1, .5, 1.7, 1])
        if rng.random() < .75 or f.get("bll"):
            P["baselevel_learning"] = True
            P["decay"] = rng.choice([.5, .5, .2, .9, .37])
            if rng.random() < f.get("opt", .35): P["optimized_learning"] = True
        else: P["baselevel_learning"] = False
        if rng.random() < f.get("acts", .25):
            for c, _ in sp["dm"]:
                if rng.random() < .5: sp["acts"].append((c, round(rng.uniform(-3, 3), 2)))
        if rng.random() < f.get("spread", .5):
            P["buffer_spreading_activation"] = {b: rng.choice([1, .5, 2, .3]) for b in sp["goals"] if rng.random() < .8} or {"g": 1}
            if rng.random() < .2: P["buffer_spreading_activation"]["retrieval"] = 1
            P["strength_of_association"] = rng.choice([1, 2, 3.5, .5])
            P["association_only_from_chunks"] = rng.random() < .5 if nest else False
            P["spreading_activation_restricted"] = rng.random() < .4
        if rng.random() < f.get("pm", .3):
            P["partial_matching"] = True
            P["mismatch_penalty"] = rng.choice([1, .5, 2.25, 0])
            if rng.random() < .7:
                for _ in range(rng.choice([1, 2, 4])):
                    v, w = rng.choice(vals), rng.choice(vals)
                    if v != w: sp["sims"].append((v, w, -round(rng.random() * 3, 2)))
                if rng.random() < .4:
                    v = rng.choice(vals); sp["sims"].append((v, v, -round(rng.random() * 3, 2)))
        if rng.random() < f.get("bufp", .25):
            b = rng.choice(sp["retrievals"])
            bp = sp["bufparams"][b] = {}
            for k, v in (("retrieval_threshold", rng.choice([-3, .5, -50])), ("latency_factor", rng.choice([.2, 7.0])), ("latency_exponent", .8), ("decay", .3), ("baselevel_learning", rng.random() < .5),
                         ("subsymbolic", rng.random() < .5), ("partial_matching", rng.random() < .5), ("mismatch_penalty", 3), ("strength_of_association", 1.25)):
                if rng.random() < .25: bp[k] = v
    else:
        if rng.random() < f.get("bufp", .1): sp["bufparams"]["retrieval"] = {"subsymbolic": True, "baselevel_learning": False, "latency_factor": .2}
    if rng.random() < f.get("recall", 0):
        for b in sp["retrievals"]:
            if rng.random() < .85: sp["finst"][b] = rng.choice([1, 1, 2, 3, 4, 10])
    # ---- rules
    for i in range(nreq):
        bound = []
        pat = {"step": con(val=f"s{i}")}
        for s in SL:
            if rng.random() < .5:
                pat[s] = con(var="v" + s); bound.append("v" + s)
        L0 = [("=", "g", ("tx_g", pat))]
        if "g2" in sp["goals"] and rng.random() < .3:
            p2 = {s: con(var="w" + s) for s in SL if rng.random() < .4}
            bound += ["w" + s for s in p2]
            L0.append(("=", "g2", ("tx_g2", p2)))
        buf = rng.choice(sp["retrievals"])
        target = rng.choice(sp["owndm"].get(buf, sp["dm"]))[0] if rng.random() < .75 else None
        clr = not sub and "g2" in sp["init"] and rng.random() < .25
        if clr: target = sp["init"]["g2"]
        req = request(rng, vals, bound, target, sp["init"]["g"], f)
        g = {"step": con(val=f"s{i+1}")}
        if rng.random() < .35: g[rng.choice(SL)] = con(val=rng.choice(vals))
        R0 = [("=", "g", ("tx_g", g)), ("+", buf, ("", req))]
        if clr: R0.append(("~", "g2", None))
        elif rng.random() < .2 and "g2" in sp["goals"]:
            if any(b == "g2" for _, b, _ in L0) and rng.random() < .5: R0.append(("=", "g2", ("tx_g2", {rng.choice(SL): con(val=rng.choice(vals))})))
            else: R0.append(("~", "g2", None))
        elif rng.random() < .15 and "g2" in sp["goals"]:
            R0.append(("+", "g2", ("tx_g2", {s: con(val=rng.choice(vals)) for s in rng.sample(SL, 2)})))
        if f.get("recall") and rng.random() < .65:
            R0.append(("?", buf, {"recently_retrieved": rng.choice(["False", "False", "True"])}))
        if rng.random() < .15: R0.append(("!", buf, "show a"))
        R0 = [r for r in R0 if r[0] != "!"]
        for st in (["free"] if i == 0 else ["free", "error"]):
            L = L0 + [("?", b, {"state": "free" if b != prevbuf else st}) for b in sp["retrievals"] for prevbuf in [sp["rules"][-1]["buf"] if sp["rules"] else None] if i and b == prevbuf]
            if i and rng.random() < .25 and st == "free":
                pb = sp["rules"][-1]["buf"]; s = rng.choice(SL)
                L = L + [("=", pb, ("tx_r", {s: con(var="rr" + s)}))]
                R = [(c, b, (p[0], {**p[1], s: con(var="rr" + s)}) if c == "=" and b == "g" else p) for c, b, p in R0]
                sp["rules"].append(dict(name=f"req{i}{st}r", lhs=L, rhs=R, utility=1, reward=None, buf=buf))
                continue
            sp["rules"].append(dict(name=f"req{i}{st}", lhs=L, rhs=list(R0), utility=0, reward=None, buf=buf))
            if i == 0: break
    sp["until"] = f.get("until", 10 ** 9 if sub else 20)
    return sp

def request(rng, vals, bound, target, goal, f):
    req = {}
    for s in SL:
        if rng.random() > f.get("pslot", .5): continue
        have = ref.get(target, s) if target is not None else None
        r = rng.random()
        if r < .45: req[s] = con(val=have if have is not None and rng.random() < .8 else rng.choice(vals + (["None"] if have is None and rng.random() < .3 else [])))
        elif r < .65 and bound: req[s] = con(var=rng.choice([b for b in bound if ref.get(goal, b[1]) == have] or bound) if rng.random() < .8 else rng.choice(bound))
        elif r < .8:
            n = [v for v in vals if v != have or rng.random() < .2]
            req[s] = con(negvals=rng.sample(n, min(len(n), rng.choice([1, 1, 2]))) or [vals[0]])
            if rng.random() < .2: req[s] = req[s]._replace(negvals=req[s].negvals + ("None",))
        elif bound: req[s] = con(negvars=[rng.choice(bound)])
    if not req: req[rng.choice(SL)] = con(negvals=["unheard_of"])
    return req

def build(sp, environment=None, shift=0.0, rng=None):
    gen.types()
    for c, n in sp["names"].items():
        C.makechunk(n, **gen._mk(random.Random(1), c))
    m = pyactr.ACTRModel(**sp["params"])
    for n in sp["goals"]:
        if n != "g": m.set_goal(n)
    for n in sp["retrievals"]:
        if n != "retrieval": m.set_retrieval(n)
    for n, c in sp["init"].items(): m.goals[n].add(genmodel.mk(c))
    for c, ts in sp["dm"]:
        m.decmem.add(genmodel.mk(c), [t + shift for t in ts] if len(ts) > 1 else ts[0] + shift)
    for c, a in sp["acts"]: m.decmem.add_activation(genmodel.mk(c), a)
    for n, l in sp["owndm"].items():
        d = D.DecMem()
        for c, ts in l:
            for t in ts: d.add(genmodel.mk(c), t + shift)
        m.retrievals[n].decmem = d
    genmodel.memories(m, sp, shift)
    for n, d in sp["bufparams"].items():      # a buffer's own parameters: a new dictionary, or the one it has extended
        if len(sp["rules"]) % 2: m.retrievals[n].model_parameters.update(d)
        else: m.retrievals[n].model_parameters = dict(d)
    for n, k in sp["finst"].items(): m.retrievals[n].finst = k
    q = lambda v: genmodel.mk(v) if isinstance(v, frozenset) else v
    for a, b, v in sp["sims"]: m.set_similarities(q(a), q(b), v)
    for r in sp["rules"]:
        m.productionstring(name=r["name"], string=ref.rule_text(r, sp["names"]), utility=r["utility"], reward=r["reward"])
    return m

def show(sp):
    return genmodel.show(sp) + f"\nbufparams={sp['bufparams']} acts={sp['acts']} sims={sp['sims']} owndm={sp['owndm']}"

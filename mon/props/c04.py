"""C04: conflict resolution against the reference condition evaluator."""
import genmodel, genvis, monitors, ref
from props.c22 import stale
from props import c15
PROPERTY = "C04"
N = {"quick": 2200, "thorough": 40000}
RULE = ("a case is a random rule set (2-9 rules over 1-3 goal buffers, retrieval, manual; variables, negations, queries, utilities; in one case of three utilities are learned) or a vision model whose rules race with its eye, run for 1 s of simulated time; "
        "at every CONFLICT RESOLUTION all rules are evaluated by the reference on the buffers of that moment; non-trivial/distinct: (set of applicable rules, buffers) at a conflict resolution")
REQUIRE = {"buffer_variables": 8000, "buffer_variables_hold": 1500, "named": 300, "vision_models": 200, "conflict_resolutions": 10000, "with_several_applicable": 1000, "utility_decides": 500, "learned_order_differs": 300}
def named(rng):
    """the chunk of a buffer is, or is none of, the values of several slots"""
    con = ref.con; chunks = [ref.chunk_of({rng.choice("ab"): v}) for v in "xyz"]; vals = chunks[:rng.choice([1, 2])] + ["x", "y"]
    sp = {"params": {}, "goals": {"g": 0, "g2": 0}, "retrievals": [], "manual": False, "dm": [], "rules": [], "names": {}, "init": {"g2": chunks[0], "g": ref.chunk_of({s: rng.choice(vals) for s in "abc"})}}
    key = {c: (s, v) for c in chunks for s, v in c}
    for i in range(rng.choice([3, 4, 6])):
        g = {}
        for s in "abc":
            r = rng.random()
            if r < .45: g[s] = con(negvars=["g2"])
            elif r < .6: g[s] = con(var="g2")
            elif r < .8: g[s] = con(val=rng.choice("xy")) if rng.random() < .3 else con(negvals=[rng.choice("xy")])
            elif r < .9: g[s] = con(var="x") if rng.random() < .5 else con(negvars=["g2", "x"])
        bound = {"g2"} | {c.var for c in g.values() if c.var}
        L = [("=", "g", ("ta", g)), ("=", "g2", (rng.choice(["ta", ""]), {} if rng.random() < .6 else {rng.choice("ab"): con(val=rng.choice("xyz"))}))]; rng.shuffle(L)
        R = [("=", "g", ("ta", {s: con(var="g2") if rng.random() < .5 else con(val=rng.choice("xy")) for s in rng.sample("abc", rng.choice([1, 1, 2]))}))] if rng.random() < .7 else []
        if not R or rng.random() < .4:
            s, v = key[rng.choice(chunks)]; R.append(("@", "g2", ("ta", {s: con(val=v)})))
        sp["rules"].append({"name": f"r{i}", "lhs": L, "rhs": R, "utility": rng.choice([0, 1, 2, 3, 4, 5]), "reward": None, "bufvars": True})
    return sp

def case(rng, idx, rec, tier):
    if idx % 6 == 1:
        sp = named(rng); rec.witness = genmodel.show(sp); rec.count("named")
        h = monitors.run(sp, 1.0)
        monitors.conflict_resolution(h, rec)
        return
    if idx % 6 == 5:
        sp = genvis.waiting(rng, vqs=genvis.VQS) if rng.random() < .7 else genvis.waiting(rng, noq=1)
        rec.witness = genvis.show(sp)
        h = genvis.run(sp)
        if h.crash is not None and not stale(h): raise h.crash
        monitors.conflict_resolution(h, rec); rec.count("vision_models")
        return
    if idx % 3 == 0:
        sp = c15.spec(rng)
        for r in sp["rules"]: r["utility"] = rng.choice([0, 0, 1, 2])
        rec.witness = genmodel.show(sp)
        h = c15.run(genmodel.build(sp), sp, rng.choice([.3, .5, 1.0]))
        init = {r["name"]: r["utility"] for r in sp["rules"]}
        def util(i, n):
            u = h.mon.utils[i]
            if any((init[a] - init[b]) * (u[a] - u[b]) < 0 for a in u for b in u): rec.count("learned_order_differs")
            return u[n]
        monitors.conflict_resolution(h, rec, util)
    else:
        sp = (genmodel.chain_spec if idx % 3 == 1 else genmodel.random_spec)(rng, neg=rng.choice([.1, .3]), bufvars=.5)
        rec.witness = genmodel.show(sp)
        h = monitors.run(sp, rng.choice([.3, .5, 1.0]))
        monitors.conflict_resolution(h, rec)
    if idx < 16: rec.sample(rec.witness)

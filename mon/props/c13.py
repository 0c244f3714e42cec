"""C13: partial matching"""
import genret, retr, gen, ref
from boot import pyactr
from ref import con
PROPERTY = "C13"
N = {"quick": 4000, "thorough": 50000}
RULE = ("a case is a subsymbolic model with partial matching, random similarity tables (chunk and string values, symmetric, empty values) and penalties, making 1-5 requests; mismatches of all kinds of constraints; distinct: (request, bindings, memory, result)")
REQUIRE = {"successes": 2000, "with_mismatch": 1500, "direct": 900, "direct_variables": 200}
TECHNIQUE = "recorded retrievals: chunk, latency and failure compared with activations recomputed from the recorded memory by independent equations"
def case(rng, idx, rec, tier):
    if idx % 4 == 3: return direct(rng, rec)
    sp = genret.spec(rng, subsymbolic=True, pm=rng.random() < .9, spread=.2, bufp=.2)
    rec.witness = genret.show(sp)
    h = retr.run(sp)
    retr.check(h, rec)
    if idx < 16: rec.sample(rec.witness)

def direct(rng, rec):
    """Chunk.match(..., partialmatching=True) of patterns and chunks, with all kinds of constraints and bound variables"""
    gen.types()
    strs = rng.sample(gen.STR, rng.choice([2, 3, 4])); pen = rng.choice([1, 1, 2, .5, 7, 0])
    m = pyactr.ACTRModel(subsymbolic=True, partial_matching=True, mismatch_penalty=pen)
    sims = {}
    for _ in range(rng.choice([0, 2, 6])):
        a, b = rng.choice(strs), rng.choice(strs); v = rng.choice([0, -.25, -.5, -1, -3])
        m.set_similarities(a, b, v); sims[a, b] = sims[b, a] = v
    m.simulation(gui=False, trace=False)
    slots = gen.TYPES["tc"]
    for _ in range(4):
        rc = ref.chunk_of({s: rng.choice(strs) for s in slots if rng.random() < .8})
        b = {x: rng.choice(strs) for x in rng.sample(gen.VARS, 3)}
        pat = {}
        for s in slots:
            if rng.random() < .6:
                c = con(val=rng.choice(strs)) if rng.random() < .35 else con(var=rng.choice(sorted(b))) if rng.random() < .6 else con()
                if rng.random() < .3: c = c._replace(negvals=tuple(rng.sample(strs, rng.choice([1, 2]))))
                if rng.random() < .3: c = c._replace(negvars=tuple(rng.sample(sorted(b), rng.choice([1, 2]))))
                if c != con() and c.val not in c.negvals: pat[s] = c
        pos = {c.var for c in pat.values()}          # a variable that is both required and excluded is not specified under partial matching
        pat = {s: c._replace(negvars=tuple(x for x in c.negvars if x not in pos)) for s, c in pat.items()}; pat = {s: c for s, c in pat.items() if c != con()}
        if not pat: continue
        ch = gen.make(rng, rc, typ="tc"); p = gen.make_pattern(rng, "tc", pat); p.boundvars = {"=" + x: v for x, v in b.items()}
        want = 0; kinds = set()
        for s, c in pat.items():
            v = ref.get(rc, s)
            S = lambda x: sims.get((x, v), -pen)
            if c.val is not None and c.val != v: want += S(c.val); kinds.add("value")
            if c.var is not None and b[c.var] != v: want += S(b[c.var]); kinds.add("variable")
            for n in c.negvals:
                if n == v: want += S(n); kinds.add("negvalue")
            for n in c.negvars:
                if b[n] == v: want += S(v); kinds.add("negvariable")
        wit = (str(p), str(ch), b, {str(k): v for k, v in sims.items()}, pen)
        rec.witness = wit
        got = p.match(ch, partialmatching=True, mismatch_penalty=pen)
        rec.count("direct"); rec.count("direct_variables", "variable" in kinds); rec.seen(wit)
        if not rec.check(abs(got - want) < 1e-9, "direct", lambda: f"pattern {p}, bindings {b}, chunk {ch}, similarities {sims}, penalty {pen}: {got}, expected {want} (violated: {sorted(kinds)})", wit): return
        p.boundvars = {"=" + x: v for x, v in b.items()}
        full = p.match(ch, partialmatching=False)
        rec.check((full is not False) == (not kinds), "direct-full", lambda: f"pattern {p}, bindings {b}, chunk {ch}: full match gives {full}, violated: {sorted(kinds)}", wit)

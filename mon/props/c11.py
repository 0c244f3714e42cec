"""C11: base-level learning"""
import genret, retr
PROPERTY = "C11"
N = {"quick": 4000, "thorough": 50000}
RULE = ("a case is a subsymbolic model with random presentation histories (up to 6 presentations, 1 ms to 100 s old, some stamped with the current moment), decay, manual activations and both forms of the equation; latencies scaled so that they resolve activations to about 1e-6; distinct: (request, bindings, memory, result)")
REQUIRE = {"successes": 2000}
TECHNIQUE = "recorded retrievals: chunk, latency and failure compared with activations recomputed from the recorded memory by independent equations"
def case(rng, idx, rec, tier):
    sp = genret.spec(rng, subsymbolic=True, bll=True, opt=.5, acts=.5, spread=.1, pm=.1, bufp=.1)
    rec.witness = genret.show(sp)
    h = retr.run(sp)
    retr.check(h, rec)
    if idx < 16: rec.sample(rec.witness)

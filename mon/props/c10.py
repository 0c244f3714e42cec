"""C10: subsymbolic retrieval: winner, threshold, latency, buffer settings"""
import genmodel, genret, retr
PROPERTY = "C10"
N = {"quick": 4000, "thorough": 50000}
RULE = ("a case is a subsymbolic model (base-level, spreading, partial matching, thresholds, latency parameters and settings of single buffers at random) making 1-5 requests; the winner and the latency of each are recomputed from the memory and buffers recorded when it starts; distinct: (request, bindings, memory, result)")
REQUIRE = {"successes": 2000, "failures": 500, "several_candidates": 1000, "two_memories": 200}
TECHNIQUE = "recorded retrievals: chunk, latency and failure compared with activations recomputed from the recorded memory by independent equations"
def case(rng, idx, rec, tier):
    sp = genret.spec(rng, subsymbolic=True, bufp=.5, memories=.15)
    rec.witness = genret.show(sp)
    h = retr.run(sp)
    if not genmodel.memories_right(h, rec): return
    retr.check(h, rec)
    if idx < 16: rec.sample(rec.witness)

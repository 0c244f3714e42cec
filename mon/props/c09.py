"""C09: symbolic retrieval."""
import genmodel, genret, retr
PROPERTY = "C09"
N = {"quick": 5000, "thorough": 60000}
RULE = ("a case is a model with a random memory (nested chunk values included) and 1-5 successive retrieval requests (values, negated values, variables bound in the rule, negated bound variables) from one or two "
        "retrieval buffers while goals are cleared into memory in between; each request is judged against the memory recorded when it starts; distinct: (request, bindings, memory)")
REQUIRE = {"successes": 2500, "failures": 800, "two_memories": 400}
TECHNIQUE = "recorded histories: each request judged against the memory content recorded at its start by an independent matcher"
def case(rng, idx, rec, tier):
    sp = genret.spec(rng, bufp=0, memories=.2)
    rec.witness = genret.show(sp)
    h = retr.run(sp)
    if not genmodel.memories_right(h, rec): return
    retr.check(h, rec)
    if idx < 16: rec.sample(rec.witness)

"""C14: finsts of declarative memory."""
import genret, retr
PROPERTY = "C14"
N = {"quick": 4000, "thorough": 50000}
RULE = ("a case is a model (symbolic or subsymbolic) with finst 0-10 on its retrieval buffers, making 3-9 successive requests with broad patterns and a recency test (required, excluded or none), failing ones included; "
        "the monitor keeps its own list of successful retrievals; distinct: (request, bindings, memory, result)")
REQUIRE = {"successes": 3000, "failures": 1500, "excluded_by_finst": 1500, "recent_required": 1000}
TECHNIQUE = "recorded sequences of retrievals checked against an independent list of the last finst retrieved chunks"
def case(rng, idx, rec, tier):
    sp = genret.spec(rng, recall=.9, subsymbolic=rng.random() < .4, nreq=rng.choice([3, 4, 6, 9]), pslot=rng.choice([.15, .3, .5]), npool=rng.choice([2, 3, 5]), bufp=0, pm=.1, spread=.1, two=.25)
    for b in list(sp["finst"]):
        if rng.random() < .1: sp["finst"][b] = 0
    rec.witness = genret.show(sp)
    h = retr.run(sp)
    retr.check(h, rec)
    if idx < 16: rec.sample(rec.witness)

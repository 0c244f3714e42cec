"""C05: firing discipline."""
import genmodel, genvis, monitors
from props.c22 import stale
PROPERTY = "C05"
N = {"quick": 2500, "thorough": 40000}
RULE = ("a case is a random model whose modules (delayed goals, retrieval, manual; in part of the cases vision on a changing screen) interfere with pending rules, run for 0.5-2 s; the procedural events are checked against the "
        "cycle automaton with exact times, and the condition of every pending rule is re-evaluated on the buffers at its firing time; distinct: (event kinds, buffers) when a rule fired or was stopped")
REQUIRE = {"vision_models": 300, "selected": 10000, "fired": 10000, "stopped": 200, "no_rule_found": 300, "recheck_unambiguous": 5000}
def case(rng, idx, rec, tier):
    if idx % 4 == 3:
        sp = genvis.waiting(rng, vqs=genvis.VQS) if rng.random() < .7 else genvis.waiting(rng, noq=1)
        rec.witness = genvis.show(sp)
        h = genvis.run(sp)
        if h.crash is not None and not stale(h): raise h.crash
        if h.crash is None: monitors.firing_discipline(h, rec); rec.count("vision_models")
        return
    sp = (genmodel.chain_spec if idx % 3 == 1 else genmodel.random_spec)(rng, g2=.8, delays=[.05, .1, .03, .02, .2, .07], retrieval=.6, manual=.35, star_bias=.6, starp=.8, gquery=.6, bufvars=.2)
    if rng.random() < .5 and sp["retrievals"]:
        sp["params"].update(subsymbolic=True, retrieval_threshold=-10.0, latency_factor=rng.choice([.01, .05, .2]), instantaneous_noise=0)
    rec.witness = genmodel.show(sp)
    h = monitors.run(sp, rng.choice([.3, .5, 1.0]))
    monitors.firing_discipline(h, rec)
    for i in h.proc:
        k, n = h.parse(h.log[i].action)
        if k in ("RULE FIRED", "RULE STOPPED FROM FIRING"): rec.seen((k, n, repr(sorted(h.log[i].snap.bufs.items(), key=str))))
    if idx < 16: rec.sample(rec.witness)

"""C18: no idling while a rule is applicable."""
import genmodel, genvis, monitors
from props.c22 import stale
PROPERTY = "C18"
N = {"quick": 3500, "thorough": 40000}
RULE = ("a case is a random model with delayed goals, retrievals and key presses (or a vision model) whose ends coincide with each other and with conflict resolution (delays are multiples of the rule firing time), run for "
        "0.5-2 s; at the end of every instant at which no rule is pending all rules are evaluated by the reference; distinct: buffers and states at such an instant")
REQUIRE = {"vision_models": 400, "vision_waiting": 1000, "waiting_instants": 1500, "waiting_after_module_event": 500}
def case(rng, idx, rec, tier):
    if idx % 4 == 3:
        sp = genvis.waiting(rng, vqs=genvis.VQS) if rng.random() < .7 else genvis.waiting(rng, noq=1)
        rec.witness = genvis.show(sp)
        h = genvis.run(sp)
        if h.crash is not None and not stale(h): raise h.crash
        n = rec.counts.get("waiting_after_module_event", 0)
        if h.crash is None: monitors.no_idle_with_applicable(h, rec); rec.count("vision_models"); rec.count("vision_waiting", rec.counts.get("waiting_after_module_event", 0) - n)
        return
    sp = (genmodel.chain_spec if idx % 3 == 1 else genmodel.random_spec)(rng, g2=.85, g3=.5, delays=[.05, .1, .15, .2, .25, .05, .1, .03], retrieval=.6, manual=.4, varfiring=.1, nrules=rng.choice([1, 2, 3, 4, 6]))
    if rng.random() < .5 and sp["retrievals"]:
        sp["params"].update(subsymbolic=True, retrieval_threshold=rng.choice([0, -10.0]), latency_factor=rng.choice([.05, .1, .2]), latency_exponent=rng.choice([0, 1]), baselevel_learning=False)
    rec.witness = genmodel.show(sp)
    h = monitors.run(sp, rng.choice([.5, 1.0, 2.0]))
    monitors.no_idle_with_applicable(h, rec)
    if idx < 16: rec.sample(rec.witness)

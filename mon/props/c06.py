"""C06: buffer effects of fired rules, with frame conditions."""
import genmodel, monitors
PROPERTY = "C06"
N = {"quick": 4500, "thorough": 40000}
RULE = ("a case is a random model with all kinds of actions on 1-3 goal buffers (with and without delay), retrieval and manual, run for 0.5-2 s; every change of every buffer between two kernel "
        "steps must be a pending operation of a fired rule (computed from the reference bindings) and every operation must take place in time; distinct: (rule actions, buffers) at a firing")
REQUIRE = {"transitions": 20000, "firings": 10000, "interrupting": 200}
def case(rng, idx, rec, tier):
    sp = (genmodel.chain_spec if idx % 3 == 1 else genmodel.random_spec)(rng, g2=.7, g3=.3, strict=.15, bufvars=.3)
    rec.witness = genmodel.show(sp)
    h = monitors.run(sp, rng.choice([.3, .5, 1.0]))
    monitors.effects(h, rec)
    if idx < 16: rec.sample(rec.witness)

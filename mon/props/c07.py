"""C07: clearing stores exactly once, nothing else changes memory."""
import genmodel, monitors, genvis, vis
from props.c22 import stale
PROPERTY = "C07"
N = {"quick": 1400, "thorough": 40000}
RULE = ("a case is a random model that clears buffers in all ways, run for 0.5-1 s with the memory recorded at every kernel step; every presentation gained must be the clearing of a buffer in the "
        "same step, stamped with that time, and every clearing must be stored; some have two memories; a quarter of the cases are models with vision, where what leaves the visual, location and goal buffers by clearing is compared with what the memory gains; distinct: (rule actions, buffers) at a firing")
REQUIRE = {"transitions": 15000, "presentations": 3000, "vis_clearings": 400, "two_memories": 150, "retrieved_over": 300, "retrieved_over_equal": 40, "replaced_by_equal": 20}
def case(rng, idx, rec, tier):
    if idx % 4 == 3:
        sp = genvis.spec(rng, kinds=["find"] * 4 + ["move"] * 5 + ["press", "wait", "clearvis", "~visual", "~visual", "~loc", "~loc", "read", "modloc"], pmove=.8, easy=.7)
        if rng.random() < .4: sp["params"]["strict_harvesting"] = True
        rec.witness = genvis.show(sp)
        h = genvis.run(sp, want_dm=True)
        if h.crash is not None and not stale(h): raise h.crash
        vis.stores(h, rec)
        return
    sp = (genmodel.chain_spec if idx % 2 else genmodel.random_spec)(rng, g2=.6, g3=.2, retrieval=.6, strict=.35)
    if rng.random() < .3 and sp["retrievals"]:
        sp["params"].update(subsymbolic=True, retrieval_threshold=-10.0, latency_factor=rng.choice([.01, .05, .2]))
    if rng.random() < .25: genmodel.more_memories(rng, sp)
    rec.witness = genmodel.show(sp)
    h = monitors.run(sp, rng.choice([.5, 1.0]), want_dm=True)
    if not genmodel.memories_right(h, rec): return
    monitors.effects(h, rec)
    replaced(h, rec)
    if idx < 16: rec.sample(rec.witness)

def replaced(h, rec):
    """the chunk that a retrieved one replaces is stored even if the two are equal"""
    log = h.log
    for i, r in enumerate(log):
        if r.kind != "event" or r.proc not in h.spec["retrievals"] or not r.action.startswith("RETRIEVED: ") or r.action == "RETRIEVED: None": continue
        n = r.proc; a, b, snaps = vis.instant(h, i); was = snaps[0].bufs[n]
        d = next((d for d, o in h.mon.dms.items() if o is h.mon.buffers[n].dm), None)
        if was is None or isinstance(was, tuple) or d is None or any(s.dms is None for s in (snaps[0], snaps[-1])): continue
        fired = [h.rules[x.action[len("RULE FIRED: "):]] for x in log[a:b + 1] if x.kind == "event" and x.action.startswith("RULE FIRED: ")]
        if any(k in "=*@!" and m == n for f in fired for k, m, _ in f["rhs"]): continue
        x, y = (len(s.dms[d].get(was, ())) for s in (snaps[0], snaps[-1]))
        equal = snaps[-1].bufs[n] == was
        rec.count("retrieved_over"); rec.count("retrieved_over_equal", equal)
        if not rec.check(y > x, "replaced-lost", lambda: f"at {r.time} {n} holds {vis.ref_show(was)} when {r.action}, but the memory does not gain it ({x} presentations before, {y} after)", monitors.show(h)): return

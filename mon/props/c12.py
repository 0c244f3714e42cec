"""C12: spreading activation"""
import genret, retr, genmodel, obs
from monitors import Hist
PROPERTY = "C12"
N = {"quick": 4000, "thorough": 50000}
RULE = ("a case is a subsymbolic model with spreading from 1-3 buffers (free/slot-restricted, chunks only or all values) and repeated requests while clearings, retrievals and goal changes alter memory and sources in between; in one case of three the same model is then simulated again after chunks were popped, deleted, overwritten, added, or the memory was copied, up to three times and with restricted or free spreading; distinct: (request, bindings, memory, result)")
REQUIRE = {"successes": 2000, "with_spreading": 1500, "second_runs": 500, "removals": 300, "copies": 100, "toggled": 300}
TECHNIQUE = "recorded retrievals: chunk, latency and failure compared with activations recomputed from the recorded memory by independent equations"
def again(m, sp, mon, rng, rec):
    """changes the memory directly and simulates the model once more"""
    t0 = round(max([r.time for r in mon.log] + [0]) + 1)
    dm = m.decmem
    if rng.random() < .4:
        d2 = dm.copy(); rec.count("copies")
        if rng.random() < .5: mutate(dm, sp, rng, rec, t0)     # the original must not influence the copy
        m.retrieval.decmem = dm = d2
    mutate(dm, sp, rng, rec, t0)
    if not len(dm): dm.add(genmodel.mk(sp["dm"][0][0]), t0 - .5)
    for n, b in list(m.goals.items()) + list(m.retrievals.items()):
        while len(b): b.pop()
        b.state = b._FREE
    for n, c in sp["init"].items(): m.goals[n].add(genmodel.mk(c))
    mon2 = obs.Monitor(m, want_dm=True, initial_time=t0)
    mon2.run(2 * 10 ** 9)
    h = Hist(mon2, dict(sp, acts=[])); h.until = 2 * 10 ** 9
    h.showspec = lambda: "SECOND RUN, from %s, of %s" % (t0, genret.show(sp))
    rec.count("second_runs")
    return h

def mutate(dm, sp, rng, rec, t0):
    for _ in range(rng.choice([1, 2, 4])):
        l = list(dm); k = rng.random()
        if k < .4 and l:
            c = rng.choice(l); rec.count("removals")
            if rng.random() < .5: dm.pop(c)
            else: del dm[c]
        elif k < .5 and l: dm[rng.choice(l)] = t0 - 2
        elif k < .6 and l: dm.add(rng.choice(l), t0 - rng.random())
        else: dm.add(genmodel.mk(genret.rchunk(rng, list({v for c, _ in sp["dm"] for _, v in c}))), t0 - round(rng.random() * 5 + .01, 3))

def case(rng, idx, rec, tier):
    sp = genret.spec(rng, subsymbolic=True, spread=1, nested=.9, g2=.9, pm=.1, bufp=.1, nreq=rng.choice([2, 3, 5, 7]), **({"two": 0, "acts": 0} if idx % 3 == 0 else {}))
    rec.witness = genret.show(sp)
    m = genret.build(sp)
    h = retr.run(sp, build=lambda s: m)
    retr.check(h, rec)
    if idx % 3 == 0:
        for k in range(rng.choice([1, 2, 3])):
            if rng.random() < .5:          # restricted and free spreading over the same memory
                P = dict(sp["params"], spreading_activation_restricted=not sp["params"].get("spreading_activation_restricted", False)); sp = dict(sp, params=P)
                m.model_parameters["spreading_activation_restricted"] = P["spreading_activation_restricted"]; rec.count("toggled")
            h = again(m, sp, h.mon, rng, rec)
            retr.check(h, rec)
    if idx < 16: rec.sample(rec.witness)

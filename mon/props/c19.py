"""C19: queries."""
import genmodel, genret, genvis, monitors, queries, vis
from props import c20
from props.c22 import stale
PROPERTY = "C19"
N = {"quick": 900, "thorough": 40000}
TECHNIQUE = "timeline of every module's condition computed from the recorded events and firings, compared with the states and contents recorded after every step, and with the outcome of every conflict resolution"
RULE = ("a case is a random model with delayed goals, slow and failing retrievals superseded by new requests, key presses prepared during other movements, or attention shifts (also overlapping) on screens that change; "
        "at the end of every instant, and at every step strictly inside a busy period, each queried state is compared with the expected one, and rule selection with the outcome of the queries; distinct: (buffer, query, states, content)")
REQUIRE = {"instants_busy": 2400, "instants_free": 6000, "instants_error": 300, "goal_busy": 300, "retrieval_busy": 300, "presses": 450, "overlapping_presses": 60, "shifts": 120, "conflict_resolutions": 3000}

def case(rng, idx, rec, tier):
    k = idx % 4
    if k == 0 or k == 1:
        f = dict(g2=.9, g3=.4, retrieval=.7, retr2=.2, manual=.3, delays=[.05, .1, .03, .02, .2, .07, .0123], gquery=.7)
        sp = (genmodel.chain_spec if k else genmodel.random_spec)(rng, **f)
        if rng.random() < .6 and sp["retrievals"]:
            sp["params"].update(subsymbolic=True, retrieval_threshold=rng.choice([-10.0, 0, 1.0]), latency_factor=rng.choice([.01, .05, .2]), instantaneous_noise=0)
        rec.witness = genmodel.show(sp); sh = lambda: genmodel.show(sp)
        h = monitors.run(sp, rng.choice([.5, 1.0]))
    elif k == 2:
        sp = c20.spec(rng); rec.witness = genmodel.show(sp); sh = lambda: genmodel.show(sp)
        h = monitors.run(sp, 8.0)
    else:
        sp = genvis.spec(rng, kinds=["find"] * 4 + ["move"] * 5 + ["press", "wait", "wait", "clearvis", "~visual", "read"], pmove=.7, noq=rng.choice([1, 3]), nstages=rng.choice([4, 6, 9, 14]), easy=.6)
        for st in sp["envargs"]["stimuli"]:
            for o in st.values():
                if rng.random() < .5: o["vis_delay"] = rng.choice([1, 3, 10, 18, 22, 40])
        if rng.random() < .5: sp["until"] = 20.0
        genvis.separate(sp); rec.witness = genvis.show(sp); sh = lambda: genvis.show(sp)
        h = genvis.run(sp)
        if h.crash is not None and not stale(h): raise h.crash
    tls = {}
    for n in sp["retrievals"]:
        tls[(n, "state")] = queries.retrieval(h, n); rec.count("retrieval_busy", len(tls[(n, "state")].busy))
    for n in sp["goals"]:
        tls[(n, "state")] = queries.goal(h, n)
        if sp["goals"][n]: rec.count("goal_busy", len(tls[(n, "state")].busy))
    m = queries.manual(h)
    if rec.check(m is not None, "manual-phases", "phases of the manual module out of order", sh()):
        m, np = m
        rec.count("presses", np)
        b = [x for x in m["state"].busy]
        rec.count("overlapping_presses", sum(1 for x, y in zip(b, b[1:]) if y[0] < x[1]))
        for a, tl in m.items(): tls[("manual", a)] = tl
    if k == 3:
        tl, n = queries.visual(h, vis.screen_changes(h))
        tls[("visual", "state")] = tl; rec.count("shifts", n)
        tls[("visual_location", "state")] = queries.location(h)
    queries.check(h, rec, tls, sh)
    monitors.conflict_resolution(h, rec)
    queries.answers(h, rec, sh); queries.quiescent(h, rec, sh)
    if idx < 16: rec.sample(rec.witness)

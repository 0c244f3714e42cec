"""C22: visual search."""
import genvis, vis
PROPERTY = "C22"
N = {"quick": 4000, "thorough": 60000}
RULE = ("a case is a model that searches a changing screen (1-4 screens of 0-6 objects with coordinates that often coincide, colours and shapes visible or not) with requests combining text, exact and relative "
        "positions (numbers and bindings, negations), lowest/highest/closest/onewayclosest, features and the attended test, with finst 0-4; each result is judged against the recorded screen, focus and the objects found before; "
        "distinct: (request, screen, focus, attended objects)")
REQUIRE = {"searches": 4000, "failed": 300, "extreme_decides": 500, "selective": 1500, "attended_matters": 400}
TECHNIQUE = "recorded results of searches compared with a declarative definition of the satisfying objects on the recorded screen"
def case(rng, idx, rec, tier):
    sp = genvis.spec(rng, kinds=["find"] * 9 + ["move"] * 2 + ["press", "wait", "modloc", "~loc", "read"], pmove=.2)
    rec.witness = genvis.show(sp)
    h = genvis.run(sp)
    if h.crash is not None and not stale(h): raise h.crash
    try: vis.locations(h, rec, ("search",))
    except vis.Stop: rec.count("stopped")
    if idx < 16: rec.sample(rec.witness)

def stale(h):
    """the crash comes from a request to attend to a location that is not on the screen any more: unspecified"""
    if not isinstance(h.crash, (UnboundLocalError, h_err)): return False
    last = next((r for r in reversed(h.log) if r.kind == "event" and r.proc == "PROCEDURAL"), None)
    for r in reversed(h.log):
        if r.kind == "event" and r.action.startswith("RULE FIRED: "):
            rule = h.rules[r.action[len("RULE FIRED: "):]]
            if rule["kind"] != "move": return False
            loc = r.snap.bufs["visual_location"]
            a, b, snaps = vis.instant(h, h.log.index(r))
            locs = {w.bufs["visual_location"] for w in snaps}
            return any(not any(vis.location(o) == l or vis.pos(o) == (int(vis.get(l, "screen_x") or -1), int(vis.get(l, "screen_y") or -1)) for o in vis.scr(w).values()) for w in snaps for l in locs if l)
    return False
from pyactr.utilities import ACTRError as h_err

"""C28: automatic vision."""
import genvis, vis
from props.c22 import stale
PROPERTY = "C28"
N = {"quick": 4000, "thorough": 60000}
RULE = ("a case is a model before a screen that changes 1-8 times (by time-outs and key presses), with objects in, at and outside the foveal region, equal and different texts, finst 0-4, with and without automatic search, while "
        "searches, shifts and clear commands move the focus, stop and resume automatic buffering; after every change the visual-location and visual buffers are compared with the definition; distinct: (focus, objects, buffer or attended objects)")
REQUIRE = {"screen_changes": 3000, "auto_found": 2000, "changes": 5000, "foveal": 800, "foveal_same": 200, "not_foveal": 1500, "stopped": 60, "focus_differs_from_eye": 1}
TECHNIQUE = "buffers recorded after every screen change compared with a declarative definition of the nearest unattended and the foveal object"
def case(rng, idx, rec, tier):
    ns = rng.choice([1, 2, 3, 4, 6, 8])
    sp = genvis.spec(rng, kinds=["find"] * 3 + ["move"] * 4 + ["press"] * 3 + ["wait"] * 3 + ["clearvis", "~visual"], pmove=.7, auto=.6, near=.75, ns=ns, easy=.7)
    fx, fy = sp["focus"]
    p, d = vis.px(sp)
    fov = p * vis.math.tan(vis.math.radians(1)) * d
    spots = [(int(fx), int(fy))] + [o["position"] for s in sp["envargs"]["stimuli"] for o in s.values()]
    for st in sp["envargs"]["stimuli"]:
        used = {o["position"] for o in st.values()}
        for o in st.values():
            if rng.random() < .5:      # near a place that may be the focus, inside, at the border or outside
                c = rng.choice(spots)
                e = lambda: rng.choice([0, 0, 1, 3, int(fov * .7), int(fov) - 1, int(fov), int(fov) + 1, int(fov * 1.3) + 1]) * rng.choice([1, -1])
                q = (max(0, c[0] + e()), max(0, c[1] + e()))
                if q not in used: used.add(q); o["position"] = q
            if rng.random() < .4: o["vis_delay"] = rng.choice([1, 3, 10])
    genvis.separate(sp)
    rec.witness = genvis.show(sp)
    h = genvis.run(sp)
    if h.crash is not None and not stale(h): raise h.crash
    try: vis.locations(h, rec, ("auto",))
    except vis.Stop: rec.count("stopped_comparing")
    vis.buffering(h, rec)
    if idx < 16: rec.sample(rec.witness)

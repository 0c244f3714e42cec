"""C23: attention shifts."""
import genvis, vis
from props.c22 import stale
PROPERTY = "C23"
N = {"quick": 4000, "thorough": 60000}
RULE = ("a case is a model that attends to objects on changing screens (EMMA on and off, angle and scaling parameters, visual delays from none to very long, screens of several sizes and distances) with requests made while earlier "
        "shifts are being prepared, executed or still encoding; all events of the visual module, the encoded chunks and the eye positions are compared with a timeline computed from the requests; distinct: (delay, angle, parameters, object, overlap)")
REQUIRE = {"shifts": 3000, "encoding_continued": 400, "encoded_during_movement": 100, "encoded_during_preparation": 400, "waited_for_movement": 40, "cancelled": 100}
TECHNIQUE = "recorded events, eye positions and chunks of the visual module compared with an independent EMMA timeline"
def case(rng, idx, rec, tier):
    kw = dict(screen=((640, 360), (60, 28), 8), rf=[.0123, .03], vq={"preparation": "free"}) if rng.random() < .3 else {}
    sp = genvis.spec(rng, kinds=["find"] * 3 + ["move"] * 6 + ["press", "wait", "wait", "wait", "clearvis", "~visual", "read"], pmove=.8, noq=rng.choice([1, 6]), nstages=rng.choice([2, 4, 6, 9, 14]), easy=.7, **kw)
    if kw:
        sp["focus"] = sp["env"]["focus_position"] = rng.choice([(0, 0), (640, 360), (640, 0)])
        for st in sp["envargs"]["stimuli"]:
            for o in st.values():
                if rng.random() < .5: o["vis_delay"] = rng.choice([1, 2, 3])
                else: o.pop("vis_delay", None)
                o["position"] = (o["position"][0] // 60 if rng.random() < .5 else 640 - o["position"][0] // 60, o["position"][1])
    elif rng.random() < .5:
        for st in sp["envargs"]["stimuli"]:
            for o in st.values(): o["vis_delay"] = rng.choice([1, 3, 10, 15, 18, 20, 22, 25, 40])
    genvis.separate(sp)
    rec.witness = genvis.show(sp)
    h = genvis.run(sp)
    if h.crash is not None and not stale(h): raise h.crash
    vis.shifts(h, rec)
    if idx < 16: rec.sample(rec.witness)

"""Models that search, attend and read a changing screen (as plain data), and their construction in pyactr."""
import random
import boot
from boot import pyactr
import ref, gen, genmodel
from ref import con
from pyactr import chunks as C

SIZES = [((640, 360), (50, 28), 50), ((1366, 768), (50, 28), 50), ((400, 400), (30, 30), 60), ((640, 360), (50, 28), 80), ((640, 360), (60, 28), 12)]

def screen(rng, sp, n, prev=None):
    """one stimulus: name -> description; positions differ"""
    w, h = sp["env"]["size"]
    out = {}; used = set()
    xs = [rng.randint(0, w) for _ in range(3)]; ys = [rng.randint(0, h) for _ in range(3)]
    if rng.random() < .3: xs[0] = 0
    if rng.random() < .3: ys[0] = 0
    for j in range(n):
        if prev and rng.random() < .3:
            k, o = rng.choice(sorted(prev.items(), key=str))
            if (o["position"]) in used or k in out: continue
            out[k] = dict(o); used.add(o["position"]); continue
        for _ in range(20):
            r = rng.random()
            if sp["near"] and r < .55:
                fx, fy = sp["focus"]
                p = (max(0, int(fx) + rng.randint(-25, 25)), max(0, int(fy) + rng.randint(-25, 25)))
            else: p = (rng.choice(xs) if rng.random() < .4 else rng.randint(0, w), rng.choice(ys) if rng.random() < .4 else rng.randint(0, h))
            if p not in used: break
        used.add(p)
        o = {"text": rng.choice(sp["texts"]), "position": p}
        if rng.random() < sp["pdelay"]: o["vis_delay"] = rng.choice(sp["delays"])
        r = rng.random()
        if r < sp["pfeat"]:
            o["color"] = rng.choice(["red", "blue"])
            if rng.random() < .75: o["externally_visible"] = ["color"]
        elif r < sp["pfeat"] * 1.6:
            o["shape"] = rng.choice(["round", "square"]); o["visual_typename"] = "vx"; o["visual_location_typename"] = "vlx"
            if rng.random() < .6: o["externally_visible"] = ["shape"]
            if rng.random() < .3: o["color"] = "red"; o["externally_visible"] = o.get("externally_visible", []) + ["color"]
        name = f"o{j}" if rng.random() < .7 else f"o{j}_{rng.randint(0,9)}"
        out[name] = o
    return out

def search(rng, sp, bound):
    """a visual_location request"""
    pat = {}
    allobj = [o for s in sp["envargs"]["stimuli"] for o in s.values()]
    o = rng.choice(allobj)
    if rng.random() < .35: pat["value"] = con(val=o["text"]) if rng.random() < .8 or "txt" not in bound else con(var="txt")
    elif rng.random() < .12: pat["value"] = con(negvals=[o["text"]]) if rng.random() < .6 or "txt" not in bound else con(negvars=["txt"])
    for s, k in (("screen_x", 0), ("screen_y", 1)):
        r = rng.random()
        if r < .15: pat[s] = con(val=str(o["position"][k]))
        elif r < .3: pat[s] = con(val=rng.choice("<>") + str(rng.choice(allobj)["position"][k] + rng.choice([0, 0, 1, -1, 40, -40])))
        elif r < .42: pat[s] = con(val="lowest")
        elif r < .54: pat[s] = con(val="highest")
        elif r < .57 and "n" in bound: pat[s] = con(val=rng.choice("<>"), var="n") if rng.random() < .7 else con(var="n")
        elif r < .62: pat[s] = con(val="closest")
        elif r < .7: pat[s] = con(val="onewayclosest")
        elif r < .76: pat[s] = con(negvals=[str(o["position"][k])])
        if rng.random() < .08:          # several excluded values, also next to a value
            c = pat.get(s) or con(); ex = list(dict.fromkeys([str(x["position"][k]) for x in rng.sample(allobj, min(len(allobj), rng.choice([1, 2, 3])))]))
            if c.val not in ex and c.var is None: pat[s] = c._replace(negvals=tuple(ex))
    if rng.random() < .06 and len(sp["texts"]) > 2 and "value" not in pat: pat["value"] = con(negvals=rng.sample(sp["texts"], 2))
    ev = o.get("externally_visible", [])
    for f in ev:
        if rng.random() < .8: pat[f] = con(val=o[f] if rng.random() < .8 else rng.choice({"color": ["red", "blue"], "shape": ["round", "square"]}[f]))
    if not ev and rng.random() < sp["pfeat"] * .5: pat["color"] = con(val=rng.choice(["red", "blue"]))
    pat = {s: c for s, c in pat.items() if not (c.val is not None and c.val.startswith(("<-", ">-")))}
    typ = "vlx" if "shape" in pat else rng.choice(["_visuallocation", "_visuallocation", "vlx"])
    if rng.random() < sp["easy"]:
        s = rng.choice(["screen_x", "screen_y"]); pat = {k: v for k, v in pat.items() if k in ev}; pat[s] = con(val=rng.choice(["lowest", "highest", "closest", "onewayclosest"]))
        typ = "vlx" if "shape" in pat else "_visuallocation"
    if not pat: pat = {rng.choice(["screen_x", "screen_y"]): con(val=rng.choice(["lowest", "highest", "closest", "onewayclosest"]))}
    return typ, pat

def spec(rng, **f):
    P = {"rule_firing": rng.choice(f.get("rf", [.05, .05, .03, .0123])), "emma_noise": f.get("emma_noise", False)}
    P["emma"] = rng.random() < f.get("emma", .75)
    P["automatic_visual_search"] = rng.random() < f.get("auto", .4)
    if rng.random() < .3: P["eye_mvt_scaling_parameter"] = rng.choice([.01, .05, .2, .02])
    if rng.random() < .3: P["eye_mvt_angle_parameter"] = rng.choice([1, .5, 3])
    size, ss, vd = f.get("screen") or rng.choice(SIZES)
    sp = {"params": P, "goals": {"g": 0}, "retrievals": [], "manual": True, "rules": [], "init": {}, "dm": [], "env": {"size": size, "simulated_screen_size": ss, "viewing_distance": vd}, "visual": True}
    sp["focus"] = rng.choice([(0, 0), (160, 180), (size[0] // 2, size[1] // 2), (rng.randint(1, size[0]), rng.randint(1, size[1]))])
    sp["env"]["focus_position"] = sp["focus"]
    sp["texts"] = rng.sample(["A", "B", "cat", "x1", "it", "Z9"], rng.choice([1, 2, 3, 4]))
    sp["easy"] = f.get("easy", 0); sp["pfeat"] = rng.choice([0, 0, .3, .5]); sp["pdelay"] = rng.choice([0, .3, .8]); sp["delays"] = rng.choice([[10], [1, 5, 20], [30, 60, 3]])
    sp["near"] = rng.random() < f.get("near", .3)
    keys = rng.sample(["A", "F", "5", "SPACE"], 2)
    ns = f.get("ns") or rng.choice([1, 1, 2, 3, 4])
    st = []
    for i in range(ns):
        st.append(screen(rng, sp, rng.choice([1, 2, 3, 4, 6]) if rng.random() < .93 else 0, st[-1] if st else None))
    for i in range(1, ns):
        if st[i] == st[i - 1]: st[i] = dict(st[i], extra={"text": "Z9", "position": (7, 7 + i)})
    if not any(st): st[0] = screen(rng, sp, 2) or {"o": {"text": "A", "position": (5, 5)}}
    sp["envargs"] = {"stimuli": st, "triggers": [rng.choice(keys + ["x"]) for _ in range(ns)], "times": [rng.choice([.05, .2, .3, .5, 1, 2, .1234]) for _ in range(ns)]}
    sp["finst"] = {"visual_location": rng.choice([0, 1, 2, 4, 4, 4, 3])} if rng.random() < .6 else {}
    # rules
    n = f.get("nstages") or rng.choice([1, 2, 4, 6, 9])
    sp["init"]["g"] = ref.chunk_of({"stage": "s0", "txt": rng.choice(sp["texts"]), "n": str(rng.choice([20, 100, 200, 320, 180]))})
    last = None
    kinds = f.get("kinds") or ["find"] * 4 + ["move"] * 4 + ["press", "wait", "clearvis", "~visual", "~loc", "read", "modloc"]
    for i in range(n):
        k = rng.choice(kinds)
        if last == "find" and rng.random() < f.get("pmove", .6): k = "move"
        if i == 0 and k in ("move", "read", "modloc"): k = "find"
        kk = k
        g = lambda **x: ("=", "g", ("tg", {"stage": con(val=f"s{i}"), **x}))
        adv = lambda **x: ("=", "g", ("tg", {"stage": con(val=f"s{i+1}"), **x}))
        rule = lambda nm, L, R, u=1, **kw: sp["rules"].append(dict(name=nm, lhs=L, rhs=R, utility=u, reward=None, kind=k, **kw))
        skip = True
        vq = rng.choice([None] * f.get("noq", 1) + [{"state": "free"}, {"state": "free"}, {"state": "free"}, {"preparation": "free"}, {"processor": "free"}])
        if "vq" in f: vq = f["vq"]
        if "vqs" in f: vq = rng.choice(f["vqs"])
        Q = [("?", "visual", vq)] if vq else []
        if k == "find":
            typ, pat = search(rng, sp, ["txt", "n"])
            ex = rng.choice([None, None, "False", "False", "True"])
            R = [adv()] + ([("?", "visual_location", {"attended": ex})] if ex else []) + [("+", "visual_location", (typ, pat))]
            used = {v for c in pat.values() for v in (c.var,) + c.negvars if v}
            L = [g(**{v: con(var=v) for v in sorted(used)})]
            if "n" in used and last == "find" and rng.random() < .5:
                L = [g(**{v: con(var=v) for v in sorted(used - {"n"})}), ("=", "visual_location", ("_visuallocation", {rng.choice(["screen_x", "screen_x", "screen_y"]): con(var="n")}))]
            if last == "find" and rng.random() < .3: L.append(("?", "visual_location", {"state": rng.choice(["free", "error"])}))
            else: skip = False
            if "vqs" in f: L += Q
            rule(f"find{i}", L, R, pat=pat, attended=ex)
        elif k == "move":
            typ = rng.choice(["_visuallocation", "vlx"])
            L = [g(), ("=", "visual_location", (typ, {}))] + Q
            R = [adv(), ("+", "visual", ("_visual", {"cmd": con(val="move_attention"), "screen_pos": con(var="visual_location")}))]
            if rng.random() < .5: R.append(("=", "visual_location", (typ, {})))
            elif rng.random() < .15: R.append(("~", "visual_location", None))
            rng.shuffle(R)
            rule(f"move{i}", L, R)
        elif k == "press": rule(f"press{i}", [g(), ("?", "manual", {"state": "free"})], [adv(), ("+", "manual", ("_manual", {"cmd": con(val="press_key"), "key": con(val=rng.choice(keys))}))])
        elif k == "wait": rule(f"wait{i}", [g()] + Q, [adv()])
        elif k == "clearvis": rule(f"clearvis{i}", [g()] + (Q if "vqs" in f else []), [adv(), ("+", "visual", ("_visual", {"cmd": con(val="clear")}))]); skip = False
        elif k == "~visual": rule(f"delvis{i}", [g()] + Q, [adv(), ("~", "visual", None)])
        elif k == "~loc": rule(f"delloc{i}", [g()], [adv(), ("~", "visual_location", None)]); skip = False
        elif k == "read": rule(f"read{i}", [g(), ("=", "visual", ("_visual", {"value": con(var="v")}))] + Q, [adv(txt=con(var="v"))] + ([("=", "visual", ("_visual", {}))] if rng.random() < .3 else []))
        elif k == "modloc": rule(f"look{i}", [g(), ("=", "visual_location", ("_visuallocation", {"screen_x": con(var="x")}))], [adv(txt=con(var="x"))])
        if skip and rng.random() < .6:
            k = "skip"; rule(f"skip{i}", [g()], [adv()], 0)
        elif skip and k == "move" or skip and rng.random() < .6:
            k = "skip"; rule(f"err{i}", [g(), ("?", "visual_location", {"state": "error"})], [adv()], 0)
        last = kk
    sp["until"] = f.get("until", 3.0)
    if f.get("own", True) and rng.random() < .25:      # parameters given to the visual buffer take precedence over those of the model
        sp["vdecoy"] = {k: v for k, v in (("emma", not P["emma"]), ("eye_mvt_scaling_parameter", rng.choice([.3, .001])), ("eye_mvt_angle_parameter", rng.choice([2, .1]))) if rng.random() < .6}
    return sp

OWN = {"emma": True, "eye_mvt_scaling_parameter": .01, "eye_mvt_angle_parameter": 1}

VQS = [None, None, {"state": "free"}, {"state": "busy"}, {"preparation": "free"}, {"preparation": "busy"}, {"processor": "busy"}, {"processor": "free"}, {"execution": "free"}, {"execution": "busy"}, {"buffer": "empty"}, {"buffer": "full"}, {"buffer": "full", "state": "free"}]
def waiting(rng, **f):
    """a model whose rules wait for the visual module, and wait in vain sometimes"""
    sp = spec(rng, kinds=["find"] * 4 + ["move"] * 5 + ["press", "press", "wait", "wait", "clearvis", "~visual", "read"], pmove=.7, nstages=rng.choice([4, 6, 9, 14]), easy=.6, **f)
    if rng.random() < .5:
        for st in sp["envargs"]["stimuli"]:
            for o in st.values():
                if rng.random() < .5: o["vis_delay"] = rng.choice([1, 3, 10, 18, 22, 40])
    separate(sp)
    return sp

def separate(sp):
    """objects of one screen have different positions"""
    for st in sp["envargs"]["stimuli"]:
        used = set()
        for o in st.values():
            x, y = o["position"]
            while (x, y) in used: x += 1
            used.add((x, y)); o["position"] = (x, y)

def env_of(sp):
    return pyactr.Environment(**sp["env"])

def types():
    gen.types()
    C.chunktype("tg", "stage txt n")
    C.chunktype("vlx", "shape", include="_visuallocation")
    C.chunktype("vx", "shape", include="_visual")
    C.chunktype("_visual", "cmd, value, color, screen_pos"); C.chunktype("_visuallocation", "screen_x, screen_y, color, value")

def build(sp, environment=None, shift=0.0):
    types()
    env = environment or env_of(sp)
    own = {k: sp["params"].get(k, OWN[k]) for k in sp.get("vdecoy", ())}
    m = pyactr.ACTRModel(environment=env, **{**sp["params"], **sp.get("vdecoy", {})})
    for n, c in sp["init"].items(): m.goals[n].add(C.Chunk("tg", **dict(c)))
    for r in sp["rules"]:
        m.productionstring(name=r["name"], string=ref.rule_text(r), utility=r["utility"], reward=r["reward"])
    if "visual_location" in sp["finst"] or sp.get("ownvis") or own:
        v, _ = m.visualBuffer("visual", "visual_location", m.decmem, finst=sp["finst"].get("visual_location", 4))
        if len(sp["rules"]) % 2: v.model_parameters.update(own)
        elif own: v.model_parameters = own
    return m

def envargs(sp, env):
    import copy
    a = copy.deepcopy(sp["envargs"])
    return dict(environment_process=env.environment_process, **a)

def show(sp):
    return genmodel.show(sp) + f"\nenv={sp['env']} args={sp['envargs']} parameters of the model overridden in the visual buffer: {sp.get('vdecoy')}"

def run(sp, until=None, want_dm=False, **kw):
    import obs, monitors
    env = env_of(sp)
    m = build(sp, env)
    mon = obs.Monitor(m, want_dm=want_dm, env=env, **envargs(sp, env), **kw)
    h = monitors.Hist(mon, sp); h.log = mon.log
    h.until = until or sp["until"]
    h.showspec = lambda: show(sp)
    h.crash = None
    try:
        mon.run(h.until)
    except Exception as e:
        h.crash = e
    h.proc = [i for i, r in enumerate(h.log) if r.kind == "event" and r.proc == "PROCEDURAL"]
    return h

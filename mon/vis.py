"""Monitors of vision in a recorded history: searches, automatic search, attention shifts, automatic buffering."""
import ast, math
import ref, obs
from ref import get
from monitors import ref_show, EPS

_cache = {}
def scr(s):
    """the recorded screen of a snapshot: {} or name -> description"""
    r = s.env[0]
    if r not in _cache: _cache[r] = ast.literal_eval(r) or {}
    return _cache[r]
def focus(s): return s.env[2]
def pos(o): return (int(o["position"][0]), int(o["position"][1]))
def dist(a, b): return math.hypot(float(a[0]) - float(b[0]), float(a[1]) - float(b[1]))

CONTROL = {"text", "position", "vis_delay", "visual_location_typename", "visual_typename", "externally_visible"}
def visible(o): return {k: str(o[k]) for k in o.get("externally_visible", []) if k in o}
def location(o):
    return ref.chunk_of({"screen_x": str(pos(o)[0]), "screen_y": str(pos(o)[1]), **visible(o)})
def encoded(o, cmd=None):
    d = {k: str(v) for k, v in o.items() if k not in CONTROL}
    d.update(value=o["text"], screen_pos=location(o))
    if cmd: d["cmd"] = cmd
    return ref.chunk_of(d)

REL = ("lowest", "highest", "closest", "onewayclosest")
def resolve(pat, b):
    """slot -> (wanted value or None, negated values)"""
    out = {}
    for s, c in pat.items():
        v = c.val
        if v in ("<", ">"): v = v + b[c.var]
        elif c.var: v = b[c.var]
        out[s] = (v, list(c.negvals) + [b[n] for n in c.negvars])
    return out

def satisfies(o, rq):
    """True/False/None (features of the request that the object does not show: unspecified)"""
    may = True
    vis = visible(o)
    for k, v in vis.items():
        if rq.get(k, (None,))[0] != v: return False
    for s, (v, neg) in rq.items():
        if s == "value":
            if v is not None and o["text"] != v: return False
            if o["text"] in neg: return False
        elif s in ("screen_x", "screen_y"):
            p = pos(o)[s == "screen_y"]
            if str(p) in neg: return False
            if v is None or v in REL: continue
            if v[0] == "<":
                if not p < int(v[1:]): return False
            elif v[0] == ">":
                if not p > int(v[1:]): return False
            elif p != int(v): return False
        elif s not in vis: may = None
    return may

def keys(o, rq, foc):
    """quantities that the found object should minimise"""
    out = []
    for s, i in (("screen_x", 0), ("screen_y", 1)):
        v = rq.get(s, (None,))[0]
        if v == "lowest": out.append(pos(o)[i])
        elif v == "highest": out.append(-pos(o)[i])
        elif v == "closest": out.append(dist(foc, pos(o)))
        elif v == "onewayclosest": out.append(abs(foc[i] - pos(o)[i]))
    return out

def instant(h, i):
    """records of the instant of record i, and the snapshot in force before it"""
    t = h.log[i].time; a = i
    while a > 0 and abs(h.log[a - 1].time - t) < EPS: a -= 1
    b = i
    while b + 1 < len(h.log) and abs(h.log[b + 1].time - t) < EPS: b += 1
    snaps = ([h.log[a - 1].snap] if a else [h.mon.first]) + [h.log[k].snap for k in range(a, b + 1)]
    return a, b, snaps

class Stop(Exception): pass

def locations(h, rec, want=("search", "auto")):
    """C22 and the first half of C28"""
    sp = h.spec; log = h.log
    finst = sp["finst"].get("visual_location", 4)
    auto = sp["params"].get("automatic_visual_search", True)
    recent = []
    fired = None; done = set()
    changes = {}          # record index of the first record with a new screen -> True
    prev = h.mon.first
    pending = None
    lastt = max((r.time for r in log), default=0)
    for i, r in enumerate(log):
        s = r.snap
        if s.env[0] != prev.env[0] and "auto" in want and auto:
            a, b, snaps = instant(h, i)
            free = [o for o in scr(s).values() if o not in recent]
            got = [k for k in range(i, b + 1) if log[k].kind == "event" and log[k].proc == "visual_location" and log[k].action.startswith("ENCODED LOCATION: ")]
            other = any(log[k].kind == "event" and log[k].proc == "visual_location" and not log[k].action.startswith("ENCODED LOCATION: ") for k in range(a, b + 1))
            if not other:
                rec.count("screen_changes")
                if not rec.check(len(got) == (1 if free else 0), "auto-search", lambda: f"the screen changes at {r.time} to {scr(s)}, unattended {free} (attended {recent}): {len(got)} automatic location(s)", h.showspec()): return
        if s.bufs["visual_location"] != prev.bufs["visual_location"]:
            a, b, _ = instant(h, i)
            ok = any(x.kind == "event" and x.proc == "visual_location" and x.action.startswith(("ENCODED LOCATION", "CLEARED", "MODIFIED")) for x in log[a:b + 1]) or b == len(log) - 1
            if not rec.check(ok, "location-changed", lambda: f"at {r.time} the visual_location buffer changes from {ref_show(prev.bufs['visual_location'])} to {ref_show(s.bufs['visual_location'])} without an event", h.showspec()): return
        prev = s
        if r.kind != "event": continue
        if r.proc == "PROCEDURAL" and r.action.startswith("RULE FIRED: "):
            rule = h.rules.get(r.action[len("RULE FIRED: "):])
            if rule and rule.get("kind") == "find":
                a, b, snaps = instant(h, i)
                bs = []
                for w in [s] + h.window(i):
                    x = ref.lhs(rule, w.bufs, w.states)
                    if x is not None and x not in bs: bs.append(x)
                if len(bs) != 1: raise Stop("bindings")
                fired = (i, rule, bs[0])
                if any(w.env[0] != snaps[0].env[0] for w in snaps): raise Stop("the screen changes at the moment of the request")
                if pending is not None and abs(log[pending[0]].time - r.time) > EPS:
                    rec.check(False, "no-search-result", lambda: f"the request of {log[pending[0]][1:4]} has no result", h.showspec()); return
                pending = fired
            continue
        if r.proc != "visual_location" or not r.action.startswith("ENCODED LOCATION"): continue
        a, b, snaps = instant(h, i)
        sits = []
        for w in snaps:
            if (w.env[0], w.env[2]) not in sits: sits.append((w.env[0], w.env[2]))
        have = s.bufs["visual_location"]
        isauto = r.action.startswith("ENCODED LOCATION: ")
        if isauto:
            rec.check(auto, "auto-off", lambda: f"automatic search at {r.time} although it is switched off", h.showspec())
            scs = [(scr(w), focus(w)) for w in snaps[1:]]
            msgs = []
            good = None
            for screen, foc in scs:
                obj = [o for o in screen.values() if location(o) == have]
                un = [o for o in screen.values() if o not in recent]
                if not obj: msgs.append(f"no object at {ref_show(have)} on {screen}"); continue
                o = obj[0]
                if o not in un: msgs.append(f"{o} was attended: {recent}"); continue
                if any(dist(foc, x["position"]) < dist(foc, o["position"]) - 1e-9 for x in un): msgs.append(f"{o} is not the nearest to {foc} among {un}"); continue
                if good is not None and good != o: raise Stop("either of two objects")
                good = o
            rec.count("auto_found")
            if "auto" in want and not rec.check(good is not None, "auto-search-object", lambda: f"automatic search at {r.time}: {msgs[:3]}", h.showspec()): return
            if good is None: raise Stop("unknown")
            if len(scs) and any(o not in recent for o in scs[-1][0].values()): rec.count("auto_distinct")
            rec.seen(("auto", repr(scs[-1]), repr(recent)))
            mark(recent, good, finst)
            continue
        if fired is None or abs(log[fired[0]].time - r.time) > EPS:
            rec.check(False, "search-unasked", lambda: f"{r[1:4]} without a request", h.showspec()); return
        _, rule, bnd = fired
        pending = None
        if any(c.var and bnd[c.var] is None for c in rule["pat"].values()): raise Stop("empty binding")
        if any(bnd[n] is None for c in rule["pat"].values() for n in c.negvars): raise Stop("empty binding")
        if auto and any(w.env[0] != snaps[0].env[0] for w in snaps): raise Stop("order of the automatic and the requested search")
        rq = resolve(rule["pat"], bnd)
        failed = r.action == "ENCODED LOCATION:'None'"
        msgs = []; good = False; found = None
        rec.count("searches")
        for e, foc in sits:
            screen = scr_(e)
            pool = [o for o in screen.values()]
            att = rule["attended"]
            if att and finst: pool = [o for o in pool if (o in recent) == (att == "True")]
            must = [o for o in pool if satisfies(o, rq) is True]
            may = [o for o in pool if satisfies(o, rq) is not False]
            if failed:
                if must: msgs.append(f"fails, but {must[:2]} satisfies {rq} attended={att} (attended: {recent})"); continue
                if not may: found = None; good = True; break
                good = True; break
            obj = [o for o in may if location(o) == have]
            if not obj:
                msgs.append(f"finds {ref_show(have)}, but the satisfying objects are {may} (request {rq}, attended={att}, attended objects {recent}, screen {screen})"); continue
            o = obj[0]; ko = keys(o, rq, foc)
            better = [x for x in must if all(a <= b + 1e-9 for a, b in zip(keys(x, rq, foc), ko)) and any(a < b - 1e-9 for a, b in zip(keys(x, rq, foc), ko))]
            if better: msgs.append(f"finds {o}, but {better[:2]} is better for {rq} (focus {foc})"); continue
            if len(must) > 1 and ko: rec.count("extreme_decides")
            if len(must) < len(screen): rec.count("selective")
            if att and finst and len(pool) < len(screen): rec.count("attended_matters")
            good = True; found = o; break
        rec.count("found" if not failed else "failed")
        rec.seen(("search", repr(rq), rule["attended"], repr(sits[-1]), repr(recent)))
        if "search" in want:
            if not rec.check(good, "wrong-object" if not failed else "wrong-failure", lambda: f"search at {r.time}: {msgs[:2]}", h.showspec()): return
            st = s.states["visual_location"]["state"]
            if not rec.check(st == ("error" if failed else "free"), "search-state", lambda: f"state after the search at {r.time} is {st} ({r.action})", h.showspec()): return
        elif not good: raise Stop("search")
        if not failed: mark(recent, found, finst)
    if pending is not None and "search" in want and log[pending[0]].time < h.until - 1e-3 and log[pending[0]].time < lastt - EPS and h.crash is None:
        rec.check(False, "no-search-result", lambda: f"the request of {log[pending[0]][1:4]} has no result", h.showspec())

def scr_(r):
    if r not in _cache: _cache[r] = ast.literal_eval(r) or {}
    return _cache[r]

def mark(recent, o, finst):
    if finst:
        recent.append(o)
        if len(recent) > finst: recent.pop(0)

# ------------------------------------------------------------------ C23
def px(sp):
    e = sp["env"]
    return e["size"][0] / e["simulated_screen_size"][0], e["viewing_distance"]

def angle(sp, a, b):
    p, d = px(sp)
    return math.atan2(dist(a, b) / p, d)

def durations(sp, o, eye):
    """encoding, preparation and execution time of a shift from eye to object o"""
    P = sp["params"]
    if not P.get("emma", True): return .085, 0.0, .085
    a = angle(sp, eye, o["position"])
    enc = P.get("eye_mvt_scaling_parameter", .01) * float(o.get("vis_delay") or 0) * math.exp(P.get("eye_mvt_angle_parameter", 1) * a)
    return enc, .135, .07 + .002 * math.degrees(a)

def screen_changes(h):
    out = []; prev = h.mon.first
    for r in h.log:
        if r.snap.env[0] != prev.env[0]: out.append(r.time)
        prev = r.snap
    return out

def shifts(h, rec):
    """C23: the events of the visual module against the timeline computed from the requests"""
    sp = h.spec; log = h.log
    rq = []
    cut = h.until
    for i, r in enumerate(log):
        if r.kind != "event" or r.proc != "PROCEDURAL" or not r.action.startswith("RULE FIRED: "): continue
        rule = h.rules[r.action[len("RULE FIRED: "):]]
        if rule["kind"] not in ("move", "clearvis"): continue
        a, b, snaps = instant(h, i)
        rq.append((r.time, rule["kind"], i, snaps, any(abs(x.env[2][0] - y.env[2][0]) + abs(x.env[2][1] - y.env[2][1]) > 0 for x in snaps for y in snaps[:1])))
    changes = screen_changes(h)
    want = []
    last = -1.0
    attend = [(-1.0, True)]        # (time, automatic buffering on)
    TOL = 1.5e-4                   # times are rounded to 0.1 ms
    def cancels(t, end):
        """(time of the first thing that cancels a shift prepared from t to end, certain)"""
        best = None
        for c in changes:
            if c <= t + EPS or c > end + TOL: continue
            st = [v for u, v in sorted(attend, key=lambda x: x[0]) if u < c - EPS]
            near = [v for u, v in attend if abs(u - c) <= EPS]
            if near and any(v != st[-1] for v in near): return c, False
            if st[-1]: best = (c, True); break
        for q in rq:
            if t + EPS < q[0] <= end + TOL and (best is None or q[0] < best[0] + EPS): best = (q[0], True); break
        return best
    n = 0
    for k, (t, kind, i, snaps, moved) in enumerate(rq):
        if t > cut - EPS: break
        auto_now = any(abs(c - t) <= EPS for c in changes)
        if auto_now: cut = min(cut, t); break
        if k and abs(rq[k - 1][0] - t) <= EPS: cut = min(cut, t); break
        if kind == "clearvis":
            attend.append((t, False)); continue
        if moved: cut = min(cut, t); rec.count("cut_eye"); break
        loc = {s.bufs["visual_location"] for s in snaps}
        sc = scr(snaps[0]); eye = focus(snaps[0])
        objs = [o for o in sc.values() if any(l and location(o) == l for l in loc)]
        if len(loc) != 1 or len(objs) != 1: cut = min(cut, t); rec.count("cut_stale"); break
        o = objs[0]
        enc, prep, ex = durations(sp, o, eye)
        p1 = t + (max(prep, enc) if enc <= prep + ex else prep)
        c = cancels(t, p1)
        evs = [(t, "start", None), (t + prep, "prepared", None)]
        if enc <= prep + ex: evs.append((t + enc, "encoded", o))
        n += 1
        rec.count("shifts")
        rec.seen((o.get("vis_delay"), round(angle(sp, eye, o["position"]), 3), round(t - last, 2) if last > t else 0, repr(sp["params"]), repr(o), bool(c)))
        if c:
            if not c[1] or abs(c[0] - p1) <= TOL or any(abs(e[0] - c[0]) <= TOL for e in evs): cut = min(cut, c[0])
            rec.count("cancelled")
            want += [e for e in evs if e[0] < c[0]]
            continue
        want += evs
        start = max(t + prep, last)
        if last > t + prep + EPS: rec.count("waited_for_movement")
        done = start + ex
        last = done
        want.append((done, "shift", pos(o)))
        if enc > prep + ex:
            rec.count("encoding_continued")
            enc2 = durations(sp, o, pos(o))[0]
            done = done + (1 - (prep + ex) / enc) * enc2
            want.append((done, "encoded", o))
        elif enc > prep: rec.count("encoded_during_movement")
        elif sp["params"].get("emma", True) and enc > 0: rec.count("encoded_during_preparation")
        if last - ex > t + prep + EPS and any(last - ex > q[0] for q in rq[k + 1:]): pass
        attend.append((done, True))
    have = []
    for r in log:
        if r.kind != "event" or r.proc != "visual": continue
        if r.action == "PREPARATION TO SHIFT VISUAL ATTENTION STARTED": have.append((r.time, "start", None))
        elif r.action == "PREPARATION TO SHIFT VISUAL ATTENTION COMPLETED": have.append((r.time, "prepared", None))
        elif r.action.startswith("SHIFT COMPLETE"): have.append((r.time, "shift", tuple(int(x) for x in focus(r.snap))))
        elif r.action.startswith("ENCODED VIS OBJECT"): have.append((r.time, "encoded", r.snap.bufs["visual"]))
    lim = cut - 3e-4
    while any(abs(e[0] - lim) <= 3e-4 for e in want + have):       # no event so near to the end of the comparison that rounding decides whether it counts
        lim = min(e[0] for e in want + have if abs(e[0] - lim) <= 3e-4) - 4e-4
    w = sorted([e for e in want if e[0] < lim], key=lambda e: (e[1], e[0])); v = sorted([e for e in have if e[0] < lim], key=lambda e: (e[1], e[0]))
    def eq(a, b):
        if a[1] != b[1] or abs(a[0] - b[0]) > 2.5e-4: return False
        if a[1] == "encoded" and b[2] is None and any(r.kind == "event" and r.action.startswith("RULE FIRED") and abs(r.time - b[0]) < 3e-4 for r in log): return True
        if a[1] == "encoded": return b[2] == encoded(a[2], "move_attention")
        return a[2] == b[2]
    for j in range(min(len(w), len(v)) - 1):       # two objects encoded at one moment come in either order
        if not eq(w[j], v[j]) and w[j][1] == "encoded" and abs(w[j][0] - w[j + 1][0]) <= EPS and w[j + 1][1] == "encoded" and eq(w[j + 1], v[j]): w[j], w[j + 1] = w[j + 1], w[j]
    ok = len(w) == len(v) and all(eq(a, b) for a, b in zip(w, v))
    if ok: rec.count("timeline_events", len(v))
    def msg():
        bad = next(((a, b) for a, b in zip(w, v) if not eq(a, b)), (len(w), len(v)))
        f = lambda e: (round(e[0], 4), e[1], ref_show(e[2]) if isinstance(e[2], frozenset) else e[2]) if isinstance(e, tuple) else e
        return f"requests {[(q[0], q[1]) for q in rq]}, screen changes {changes}, compared until {cut}: expected {f(bad[0])}, observed {f(bad[1])}; all expected {[f(e) for e in w]}; all observed {[f(e) for e in v]}"
    rec.check(ok, "timeline", msg, h.showspec())
    # every change of the visual buffer has an event
    prev = h.mon.first
    for i, r in enumerate(log):
        if r.snap.bufs["visual"] != prev.bufs["visual"] and r.snap.bufs["visual"] is not None:
            a, b, _ = instant(h, i)
            good = any(x.kind == "event" and (x.proc == "visual" and x.action.startswith(("ENCODED VIS", "AUTOMATIC BUFFERING", "MODIFIED")) or x.action.startswith("RULE FIRED")) for x in log[a:b + 1]) or b == len(log) - 1 or any(abs(c - r.time) < EPS for c in changes)
            rec.check(good, "visual-changed", lambda: f"at {r.time} the visual buffer changes to {ref_show(r.snap.bufs['visual'])} without an event", h.showspec())
        if r.snap.env[2] != prev.env[2]:
            a, b, _ = instant(h, i)
            good = any(x.kind == "event" and x.proc == "visual" and x.action.startswith("SHIFT COMPLETE") for x in log[a:b + 1]) or b == len(log) - 1
            rec.check(good, "eye-moved", lambda: f"at {r.time} the eye moves to {r.snap.env[2]} without a shift", h.showspec())
        prev = r.snap

# ------------------------------------------------------------------ C28, second half
def buffering(h, rec):
    """after a screen change the visual buffer gets a foveal object with a new text, unless stopped"""
    sp = h.spec; log = h.log; P = sp["params"]
    p, d = px(sp)
    fov = p * math.tan(math.radians(1)) * d
    changes = screen_changes(h)
    acts = [(r.time, h.rules[r.action[12:]]["kind"]) for r in log if r.kind == "event" and r.action.startswith("RULE FIRED: ")]
    acts = [t for t, k in acts if k in ("move", "clearvis", "~visual", "read")]
    autos = [(r.time, r.snap.bufs["visual"]) for r in log if r.kind == "event" and r.proc == "visual" and r.action.startswith("AUTOMATIC BUFFERING")]
    foc = tuple(sp["env"]["focus_position"]); attend = True
    opened = 0; enc_since = False; late = False
    claimed = []           # (from, to): automatic buffering there is accounted for
    i = 0; dues = []
    while i < len(log):
        t = log[i].time
        a, b, snaps = instant(h, i)
        ev = [r for r in log[a:b + 1] if r.kind == "event" and r.proc == "visual"]
        if any(abs(c - t) < EPS for c in changes):
            rec.count("changes")
            foci = {f for f in (foc, ) if f}
            nxt = min([c for c in changes if c > t + EPS] + [h.until])
            clean = foc is not None and attend is not None and not any(abs(x - t) < EPS for x in acts) and not any(not r.action.startswith("AUTOMATIC") for r in ev) and t < h.until - EPS and not any(abs(x - t) < 4e-4 for x in dues)
            dues = []
            if not clean:
                rec.count("uncertain"); claimed.append((t, nxt))
            else:
                new = next(w for w in snaps if w.env[0] != snaps[0].env[0])
                have = snaps[0].bufs["visual"]; eye = focus(snaps[0])
                objs = list(scr(new).values())
                near = [o for o in objs if all(foc[k] - fov < o["position"][k] < foc[k] + fov for k in (0, 1))]
                edge = any(abs(abs(o["position"][k] - foc[k]) - fov) < 1e-6 for o in objs for k in (0, 1))
                cand = [o for o in near if have is None or get(have, "value") != o["text"]] if attend else []
                outs = []
                for o in cand:
                    dt = 0.0
                    if o.get("vis_delay"): dt = P.get("eye_mvt_scaling_parameter", .01) * float(o["vis_delay"]) * math.exp(P.get("eye_mvt_angle_parameter", 1) * 2 * angle(sp, eye, o["position"]))
                    outs.append((t + dt, encoded(o)))
                end = max((x for x, _ in outs), default=t)
                dues = [x for x, _ in outs]
                rec.count("foveal" if cand else "stopped" if near and not attend else "foveal_same" if near else "not_foveal")
                if attend and tuple(int(x) for x in eye) != tuple(int(x) for x in foc): rec.count("focus_differs_from_eye")
                rec.seen((foc, tuple(eye), repr(objs), ref_show(have), attend))
                if edge or any(t + EPS < x <= end + 3e-4 for x in acts + changes) or end > h.until - 3e-4:
                    rec.count("cancelled_or_late"); claimed.append((t, max(end, nxt)))
                else:
                    got = [x for x in autos if t - EPS < x[0] < nxt - EPS]
                    ok = any(abs(g[0] - x) < 2.5e-4 and g[1] == ch for g in got for x, ch in outs) if cand else True
                    rec.check(ok and len(got) == (1 if cand else 0), "auto-buffering", lambda: f"screen change at {t}, focus {foc}, eye {eye}, buffer {ref_show(have)}, objects {objs}, automatic buffering {'on' if attend else 'stopped'}: expected {[(round(x, 4), ref_show(ch)) for x, ch in outs]}, observed {[(x, ref_show(c)) for x, c in got]}", h.showspec())
                    claimed.append((t, nxt))
        pos_e, pos_s = [], []
        clr = False
        for r in ev:
            if r.action.startswith("PREPARATION TO SHIFT VISUAL ATTENTION STARTED"): opened += 1; enc_since = False
            elif r.action.startswith("ENCODED VIS"):
                loc = get(r.snap.bufs["visual"], "screen_pos") if r.snap.bufs["visual"] else None
                pos_e.append((int(get(loc, "screen_x")), int(get(loc, "screen_y"))) if loc else None); enc_since = True
                if late and attend is not True: attend = True if opened == 0 else None
                late = False
            elif r.action.startswith("SHIFT COMPLETE"):
                pos_s.append(tuple(int(x) for x in focus(r.snap)))
                late = late or not enc_since or opened != 1
                if attend is not True: attend = True if opened == 1 and enc_since else None
                opened = 0
            elif r.action.startswith("VISUAL STOPPED"): clr = True
        if clr: attend = False if not pos_e and not pos_s else None
        if any(abs(c - t) < EPS for c in changes) and any(abs(x - t) < EPS for x in acts): attend = None
        if pos_e or pos_s:
            s_ = set(pos_e + pos_s)
            foc = s_.pop() if len(s_) == 1 else None
        i = b + 1
    for x, ch in autos:
        rec.check(any(u - EPS < x <= v + 3e-4 for u, v in claimed), "auto-unasked", lambda: f"automatic buffering at {x} without a screen change", h.showspec())

# ------------------------------------------------------------------ C07 in models with vision
def stores(h, rec):
    """what leaves a buffer by clearing is added to the memory at that moment, and nothing else is"""
    log = h.log; i = 0
    names = [n for n in h.mon.first.bufs if n != "manual"]
    while i < len(log):
        t = log[i].time
        a, b, snaps = instant(h, i)
        add = []
        for d in snaps[0].dms:
            for u, v in zip(snaps, snaps[1:]):
                if u.dms[d] == v.dms[d]: continue
                for c, ts in v.dms[d].items():
                    old = u.dms[d].get(c, ())
                    if not rec.check(ts[:len(old)] == old, "memory-lost", lambda: f"at {t} the memory loses a presentation of {ref_show(c)}: {old} -> {ts}", h.showspec()): return
                    add += [(c, x) for x in ts[len(old):]]
                for c in u.dms[d]:
                    if not rec.check(c in v.dms[d], "memory-lost", lambda: f"at {t} the memory loses {ref_show(c)}", h.showspec()): return
        must, may = [], []
        for n in names:
            cleared = any(r.kind == "event" and r.proc == n and r.action == "CLEARED" for r in log[a:b + 1])
            for u, v in zip(snaps, snaps[1:]):
                c, e = u.bufs[n], v.bufs[n]
                if c is None or c == e: continue
                if e is None: must.append(c)
                elif cleared: may.append(c)
            held = [s.bufs[n] for s in snaps]
            new = [r.action for r in log[a:b + 1] if r.kind == "event" and r.proc == n and (r.action.startswith("ENCODED VIS OBJECT") or r.action.startswith("ENCODED LOCATION:'") and r.action != "ENCODED LOCATION:'None'")]
            other = any(r.kind == "event" and r.proc == n and r.action.startswith(("MODIFIED", "ENCODED LOCATION: ", "AUTOMATIC", "EXECUTED")) for r in log[a:b + 1])
            if new and not other and None not in held and len(set(held)) <= 2:      # what was replaced at once, by an equal chunk possibly
                if held[0] in may: may.remove(held[0])
                must.append(held[0]); rec.count("replaced_at_once")
                continue
            if new and held[0] is not None and held[0] == held[-1]: rec.count("replaced_by_equal")
            if cleared and not any(u.bufs[n] != v.bufs[n] for u, v in zip(snaps, snaps[1:])) and snaps[0].bufs[n] is not None: may.append(snaps[0].bufs[n])
        rec.count("vis_presentations", len(add)); rec.count("vis_clearings", len(must))
        if must: rec.seen(("vis", repr([ref_show(c) for c in must])))
        rest = [c for c, _ in add]; ok = True
        for c in must:
            if c in rest: rest.remove(c)
            else: ok = False
        for c in list(may):
            if c in rest: rest.remove(c)
        if must or add:
            if not rec.check(ok and not rest, "vis-memory", lambda: f"at {t} {[ref_show(c) for c in must]} left a buffer by clearing, and the memory gains {[(ref_show(c), x) for c, x in add]}", h.showspec()): return
            for c, x in add: rec.check(abs(x - t) < 1.5e-4, "memory-time", lambda: f"{ref_show(c)} stored with time {x} at {t}", h.showspec())
        i = b + 1

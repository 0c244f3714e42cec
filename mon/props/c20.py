"""C20: key presses."""
import random
import genmodel, monitors, obs, ref, gen
from ref import con
import boot
from boot import pyactr
PROPERTY = "C20"
N = {"quick": 4000, "thorough": 50000}
RULE = ("a case is a model pressing 1-7 keys (all classes and hands, upper and lower case, keys given in the rule or by a variable) at moments controlled by queries of the manual module (state, preparation, processor, "
        "execution or none) and by random pauses; the whole manual event stream is compared with a reference timeline computed from the firing times; a request during an unfinished preparation ends the comparison; "
        "distinct: sequence of (key, moment relative to the previous movement)")
REQUIRE = {"presses": 5000, "waiting_for_movement": 800, "repeated_key": 300, "same_class_same_hand": 300, "same_class_other_hand": 300, "other_class": 300, "prepared": 100}
TECHNIQUE = "recorded manual events compared with an independent timeline of the motor module"
LEFT = set("12345QWERTASDFGZXCVB") | {"SPACE"}
RIGHT = set("67890YUIOPHJKLNM") | {"SPACE"}
HOME = set("ASDFJKL") | {"SPACE"}
SLOW = {"5", "6"}

def times(k):
    return (.15, .05, .01, .09) if k in HOME else (.25, .05, .11, .16) if k in SLOW else (.25, .05, .1, .15)

def prep(k, last, prepared, rec=None):
    """possible preparation times"""
    p = times(k)[0]
    if prepared or k == last: return {0.0}
    if last is None or (k in HOME) != (last in HOME): return {p}
    same = []
    for a in ([True, False] if k == "SPACE" else [k in LEFT]):
        for b in ([True, False] if last == "SPACE" else [last in LEFT]): same.append(a == b)
    return {p - (.1 if s else .05) for s in same}

def spec(rng):
    n = rng.choice([1, 2, 3, 4, 5, 7])
    pool = rng.sample(sorted(LEFT | RIGHT), rng.choice([2, 3, 5]))
    if rng.random() < .3: pool = rng.sample(sorted(HOME), 3)
    keys = [rng.choice(pool) for _ in range(n)]
    keys = [k.lower() if rng.random() < .4 else k for k in keys]
    sp = {"params": {"rule_firing": rng.choice([.05, .05, .03, .0123, .1])}, "goals": {"g": 0}, "retrievals": [], "manual": True, "rules": [], "init": {"g": ref.chunk_of({"a": "p0", "b": keys[0]})}, "dm": [], "keys": keys}
    if rng.random() < .25: sp["params"]["motor_prepared"] = True
    for i, k in enumerate(keys):
        npause = rng.choice([0, 0, 0, 1, 2, 3, 5])
        for j in range(npause):
            sp["rules"].append(dict(name=f"w{i}_{j}", lhs=[("=", "g", ("ta", {"a": con(val=f"p{i}" if j == 0 else f"p{i}_{j}")}))], rhs=[("=", "g", ("ta", {"a": con(val=f"p{i}_{j+1}" if j + 1 < npause else f"q{i}")}))], utility=0, reward=None))
        q = rng.choice([None, {"state": "free"}, {"state": "free"}, {"preparation": "free"}, {"preparation": "free"}, {"processor": "free"}, {"execution": "free"}, {"preparation": "free", "execution": "busy"}]) if i else rng.choice([None, {"state": "free"}])
        var = rng.random() < .4
        L = [("=", "g", ("ta", {"a": con(val=f"q{i}" if npause else f"p{i}"), **({"b": con(var="k")} if var else {})}))]
        if q: L.append(("?", "manual", q))
        R = [("=", "g", ("ta", {"a": con(val=f"p{i+1}"), **({"b": con(val=keys[i + 1])} if i + 1 < n else {})})),
             ("+", "manual", (rng.choice(["_manual", "manual_cmd"]) if False else "_manual", {"cmd": con(val="press_key"), "key": con(var="k") if var else con(val=k)}))]
        rng.shuffle(R)
        sp["rules"].append(dict(name=f"press{i}", lhs=L, rhs=R, utility=0, reward=None, key=k.upper()))
    return sp

def check(h, rec, until):
    sp = h.spec
    rq = []
    for r in h.log:
        if r.kind == "event" and r.proc == "PROCEDURAL" and r.action.startswith("RULE FIRED: press"):
            rq.append((r.time, h.rules[r.action[len("RULE FIRED: "):]]["key"]))
    have = [(r.time, r.action) for r in h.log if r.kind == "event" and r.proc == "manual"]
    want = []          # alternatives because of SPACE: list of (events, last, prep_end, move_end)
    alts = [([], None, -1.0, -1.0, True, None)]
    cut = until
    sig = []
    for t, k in rq:
        new = []
        for ev, last, pe, me, first, _ in alts:
            if pe > t + 1e-6: cut = min(cut, t); rec.count("jams"); continue
            if abs(pe - t) < 1e-6 and not first and ev and ev[-1][0] > t - 1e-6 and pe > 0 and abs(ev[-5][0] - pe) > 1e-6: cut = min(cut, t); continue
            T = times(k)
            for p in prep(k, last, first and sp["params"].get("motor_prepared", False)):
                start = max(t + p, me)
                f = start + T[1] + T[2] + T[3]
                if me > t + p + 1e-9: rec.count("waiting_for_movement")
                new.append((ev + [(t, "COMMAND: press_key"), (t + p, "PREPARATION COMPLETE"), (start + T[1], "INITIATION COMPLETE"), (start + T[1] + T[2], "KEY PRESSED: " + k), (f, "MOVEMENT FINISHED")], k, t + p, f, False, None))
        if cut <= t: break
        last = alts[0][1]
        rec.count("presses")
        rec.count("first" if last is None else "repeated_key" if k == last else "other_class" if (k in HOME) != (last in HOME) else "same_class_same_hand" if (k in LEFT) == (last in LEFT) else "same_class_other_hand")
        if last is None and sp["params"].get("motor_prepared"): rec.count("prepared")
        sig.append((k, round(t - alts[0][3], 3) if last else None))
        alts = new
    rec.seen((tuple(sig), sp["params"].get("motor_prepared")))
    lim = cut - 2e-4
    def ok(ev):
        a = sorted([e for e in ev if e[0] < lim], key=lambda e: (round(e[0], 3), e[1]))
        b = sorted([e for e in have if e[0] < lim], key=lambda e: (round(e[0], 3), e[1]))
        # match by action, in order of time
        if sorted(x[1] for x in a) != sorted(x[1] for x in b): return False
        for act in {x[1] for x in a}:
            for (t1, _), (t2, _) in zip(sorted(x for x in a if x[1] == act), sorted(x for x in b if x[1] == act)):
                if abs(t1 - t2) > 2.5e-4: return False
        return True
    rec.check(any(ok(x[0]) for x in alts), "timeline", lambda: f"requests {rq}: manual events {[e for e in have if e[0] < lim]}, expected {[(round(t, 4), a) for t, a in sorted(alts[0][0]) if t < lim]}", monitors.show(h))

def case(rng, idx, rec, tier):
    sp = spec(rng)
    rec.witness = genmodel.show(sp)
    h = monitors.run(sp, 8.0)
    check(h, rec, 8.0)
    if idx < 16: rec.sample(rec.witness)

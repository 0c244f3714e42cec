"""Monitor of retrievals in a recorded history: expected candidates, activations, latencies from the reference equations."""
import math
import ref, obs
from monitors import Hist, ref_show, EPS

DEFAULTS = {"subsymbolic": False, "rule_firing": .05, "baselevel_learning": True, "decay": .5, "optimized_learning": False, "instantaneous_noise": 0, "retrieval_threshold": 0,
            "latency_factor": .1, "latency_exponent": 1.0, "mismatch_penalty": 1, "partial_matching": False, "buffer_spreading_activation": {}, "strength_of_association": 0,
            "spreading_activation_restricted": False, "association_only_from_chunks": True}

class Retrieval:
    """one request: where it starts (i), its result (j or None), the firing (k), request pattern, bindings"""
    pass

def retrievals(h):
    sp = h.spec; log = h.log
    out = []
    fired = None
    pend = {}
    for i, r in enumerate(log):
        if r.kind != "event": continue
        if r.proc == "PROCEDURAL" and r.action.startswith("RULE FIRED: "):
            fired = (i, r.action[len("RULE FIRED: "):])
        elif r.proc in sp["retrievals"]:
            if r.action == "START RETRIEVAL":
                x = Retrieval(); x.i, x.j, x.buf = i, None, r.proc
                x.fire, x.rule = fired
                x.cut = False
                if r.proc in pend: pend[r.proc].cut = True
                pend[r.proc] = x
                rule = h.rules[x.rule]
                x.req = next(p[1] for c, b, p in rule["rhs"] if c == "+" and b == r.proc)
                x.extra = next((p for c, b, p in rule["rhs"] if c == "?" and b == r.proc), {})
                fs = log[x.fire].snap
                x.b = ref.lhs(rule, fs.bufs, fs.states)
                out.append(x)
            elif r.action.startswith("RETRIEVED: ") and r.proc in pend:
                pend.pop(r.proc).j = i
    return out

def params_of(sp, buf):
    p = dict(DEFAULTS); p.update(sp["params"]); p.update(sp["bufparams"].get(buf, {}))
    return p

def expected(h, x, snap, now):
    """[(chunk, activation or None)] of the candidates, in the situation 'snap'"""
    sp = h.spec; p = params_of(sp, x.buf)
    dmn = next(n for n, o in h.mon.dms.items() if o is h.mon.buffers[x.buf].dm)
    dm = snap.dms[dmn]
    acts = dict((c, a) for c, a in sp["acts"]) if dmn == "decmem" else {}
    sims = {}
    for a, b, v in sp["sims"]:
        a, b = ref.lit(a), ref.lit(b)
        sims[(a, b)] = sims[(b, a)] = v
    out = []
    for c, times in dm.items():
        viol = ref.violated(x.req, c, x.b)
        if not p["subsymbolic"]:
            if viol or not any(t < now - 5e-5 for t in times): continue
            out.append((c, None)); continue
        pm = 0
        if viol:
            if not p["partial_matching"]: continue
            pm = sum(sims.get((w, v), -p["mismatch_penalty"]) for _, _, w, v in viol)
        B = ref.baselevel(now, [t for t in times if t < now - 5e-5], p["baselevel_learning"], p["decay"], acts.get(c), p["optimized_learning"])
        if B is None: continue
        sa = ref.spreading(c, snap.bufs, dm, p["buffer_spreading_activation"], p["strength_of_association"], p["spreading_activation_restricted"], p["association_only_from_chunks"])
        out.append((c, B + sa + pm, B, sa, pm))
    return out, p

def window_from(h, i):
    """snapshots of the instant of event i, from it on"""
    t = h.log[i].time; out = []
    for r in h.log[i:]:
        if abs(r.time - t) > EPS: break
        if r.snap not in out: out.append(r.snap)
    return out

def check(h, rec, recency=None, kinds=None):
    """recency(x) -> (allowed, forbidden) chunk sets or None"""
    sp = h.spec; log = h.log
    hist = {}
    for x in retrievals(h):
        rec.count("requests")
        now = log[x.i].time
        if x.b is None: rec.count("no_bindings"); continue
        if any(c.var is not None and x.b[c.var] is None for c in x.req.values()):
            rec.count("empty_binding_skipped")      # a variable bound to an empty slot: not specified
            if x.j is not None: hist.setdefault(x.buf, []).append(None if log[x.j].action.endswith("RETRIEVED: None") else log[x.j].snap.bufs[x.buf])
            continue
        snaps = window_from(h, x.i)
        fails = []
        for s in snaps[:6]:
            msg = verdict(h, x, s, now, rec, hist.get(x.buf, ()))
            if msg is None: break
            fails.append(msg)
        else:
            kind, m = fails[0]
            rec.check(False, kind, lambda: m + f"\nrequest {x.req} with {x.b} on {x.buf} at {now}; dm { [(ref_show(c), t) for c, t in snaps[0].dms.get('decmem', {}).items()] }; bufs { {n: ref_show(c) for n, c in snaps[0].bufs.items()} }", h.showspec())
            return
        rec.count("checks")
        if x.j is not None:
            c = log[x.j].snap.bufs[x.buf] if not log[x.j].action.endswith("RETRIEVED: None") else None
            hist.setdefault(x.buf, []).append(c)
            rec.seen((sorted(map(repr, x.req.items())), repr(x.b), repr(snaps[0].dms), c))

def verdict(h, x, s, now, rec, past):
    """None if the retrieval x is right in situation s, else (kind, message)"""
    sp = h.spec; log = h.log
    cand, p = expected(h, x, s, now)
    finst = sp["finst"].get(x.buf, 0)
    rr = x.extra.get("recently_retrieved")
    if finst and rr is not None:
        recent = [c for c in past if c is not None][-finst:]
        # the set of remembered chunks: the last finst retrievals
        if rr == "False":
            n = len(cand); cand = [c for c in cand if c[0] not in recent]
            if len(cand) < n: rec.count("excluded_by_finst", n - len(cand))
        else:
            cand = [c for c in cand if c[0] in recent]; rec.count("recent_required")
    if not p["subsymbolic"]:
        due = 0 if cand else p["rule_firing"]
        best = [c[0] for c in cand]
        good = bool(cand)
        amb = False
        why = f"satisfying chunks {[ref_show(c) for c in best]}"
    else:
        top = max((c[1] for c in cand), default=-math.inf)
        th = p["retrieval_threshold"]
        good = top >= th
        amb = abs(top - th) < 1e-9
        best = [c[0] for c in cand if c[1] > top - 1e-9]
        due = ref.latency(top if good else th, p["latency_factor"], p["latency_exponent"])
        why = f"activations {[(ref_show(c[0]), c[1:]) for c in cand]}, threshold {th}"
        if len(cand) > 1: rec.count("several_candidates")
        if cand and any(c[3] for c in cand): rec.count("with_spreading")
        if cand and any(c[4] for c in cand): rec.count("with_mismatch")
    if x.j is None:
        if x.cut or x is not None and h.until < now + due + 1e-3: return None
        nxt = [r for r in log[x.i + 1:] if r.kind == "event" and r.proc == x.buf][:2]
        if any(r.action == "CLEARED" for r in nxt): return None
        return "no-result", f"request at {now} has no result by {h.until}, expected after {due}; {why}"
    r = log[x.j]
    got = None if r.action == "RETRIEVED: None" else r.snap.bufs[x.buf]
    took = r.time - now
    tol = 2.1e-4 + 1e-9 * due + 2 ** -40 * r.time
    if got is None:
        rec.count("failures")
        if good and not amb: return "wrong-failure", f"retrieval fails at {r.time}, but: {why}"
    else:
        rec.count("successes")
        if not good and not amb: return "wrong-success", f"retrieval gives {ref_show(got)}, but: {why}"
        if got not in best and not amb: return "wrong-chunk", f"retrieval gives {ref_show(got)}, but: {why}"
        if not p["subsymbolic"] and isinstance(got, tuple): return "multi", f"{got}"
    if abs(took - due) > tol and not amb: return "wrong-time", f"retrieval took {took}, expected {due}; {why}"
    # state and content afterwards
    st = r.snap.states[x.buf].get("state")
    if st != ("free" if got is not None else "error"): return "wrong-state", f"state after the retrieval is {st}"
    if got is None:
        prev = log[x.j - 1].snap.bufs[x.buf]
        if r.snap.bufs[x.buf] != prev: return "content-changed", f"failed retrieval changes the buffer from {ref_show(prev)} to {ref_show(r.snap.bufs[x.buf])}"
    return None

def run(sp, until=None, build=None, **kw):
    import genret
    m = (build or genret.build)(sp)
    mon = obs.Monitor(m, want_dm=True, **kw)
    mon.run(until or sp["until"])
    h = Hist(mon, sp)
    h.until = until or sp["until"]
    h.showspec = lambda: genret.show(sp)
    return h

"""C19: the condition of every module (free/busy/error, phases, full/empty) reconstructed from the recorded events and compared with what a query would see."""
import ref
from monitors import EPS, show as gshow
INF = float("inf")
TOL = 2.5e-4

class TL:
    """timeline of one query of one buffer: busy intervals (start, end, exact end?), results (time, possible states), blind intervals"""
    def __init__(self):
        self.busy, self.after, self.blind = [], [], []
    def want(self, t, end_of_instant):
        """set of possible states at t, None if unspecified"""
        if self.blind and t >= self.blind[-1][0] and self.blind[-1][1] == INF: return None
        for s, e, exact in self.busy:
            if e - s < EPS: continue
            if not exact and abs(t - e) < TOL: return None
            if s + EPS < t < e - EPS or abs(t - s) < EPS and end_of_instant and t < e - EPS: return {"busy"}
        for a, b in self.blind:
            if a - EPS <= t <= b + EPS: return None
        if not end_of_instant: return None
        out = {"free"}
        for u, st in self.after:
            if u <= t + EPS: out = st
        return out

def retrieval(h, n):
    tl = TL(); start = None; touched = False
    for r in h.log:
        if r.kind != "event": continue
        if r.proc == n and r.action == "START RETRIEVAL":
            if start is None: start = r.time
        elif r.proc == n and r.action.startswith("RETRIEVED: ") and start is not None:
            tl.busy.append((start, r.time, True)); start = None
            tl.after.append((r.time, {"error"} if r.action == "RETRIEVED: None" else {"free"}))
        elif r.proc == "PROCEDURAL" and r.action.startswith("RULE FIRED: "):
            rule = h.rules.get(r.action[12:])
            if rule and (any(b == n for c, b, _ in rule["rhs"] if c != "+") or any(b == n and c == "=" for c, b, _ in rule["lhs"])):
                tl.after.append((r.time, (tl.after[-1][1] if tl.after else {"free"}) | {"free"}))     # an action on the buffer may end the error
    if start is not None: tl.busy.append((start, INF, True))
    return tl

def goal(h, n):
    tl = TL(); d = h.spec["goals"][n]
    cur = None
    for r in h.log:
        if r.kind != "event" or r.proc != "PROCEDURAL" or not r.action.startswith("RULE FIRED: "): continue
        rule = h.rules.get(r.action[12:])
        if rule and any(b == n and c in "+*" for c, b, _ in rule["rhs"]):
            if cur and abs(cur[1] - r.time) < TOL: tl.blind.append((r.time, r.time))
            if cur: tl.busy.append((cur[0], min(cur[1], r.time), cur[1] > r.time + TOL))
            cur = (r.time, ref.rt(r.time + d))
    if cur: tl.busy.append((cur[0], cur[1], False))
    return tl

def manual(h):
    """phases of the presses: command .. prepared .. initiated .. finished; a command during a preparation supersedes it"""
    P = []; prepared = []; initiated = []
    cur = None
    out = {a: TL() for a in ("state", "preparation", "processor", "execution")}
    for r in h.log:
        if r.kind != "event" or r.proc != "manual": continue
        if r.action.startswith("COMMAND"):
            if cur is not None and cur["p"] is None:       # superseded: its phases go on in the new one
                P.remove(cur)
                for k in ("s",): pass
                cur = dict(c=cur["c"], p=None, i=None, f=None)
            else: cur = dict(c=r.time, p=None, i=None, f=None)
            P.append(cur)
        elif r.action == "PREPARATION COMPLETE":
            if cur is None: return None
            cur["p"] = r.time; prepared.append(cur)
        elif r.action == "INITIATION COMPLETE":
            x = [y for y in prepared if y["i"] is None]
            if not x: return None
            x[0]["i"] = r.time
        elif r.action == "MOVEMENT FINISHED":
            x = [y for y in prepared if y["i"] is not None and y["f"] is None]
            if not x: return None
            x[0]["f"] = r.time
    v = lambda t: INF if t is None else t
    for x in P:
        out["state"].busy.append((x["c"], v(x["f"]), True))
        out["preparation"].busy.append((x["c"], v(x["p"]), True))
        out["processor"].busy.append((x["c"], v(x["i"]), True))
        if x["p"] is not None: out["execution"].busy.append((x["p"], v(x["f"]), True))
    for a in ("state", "execution"):      # a press that starts when another one finishes: the end of the one is not the end of the other
        pass
    return out, len(P)

def visual(h, changes):
    """busy from a request to attend an object until the object is encoded; free when movement and encoding are done.
    Judged until a request comes while an earlier object is moved to but not encoded, or the screen changes or vision is told something else in between."""
    tl = TL(); n = 0
    cur = []                  # shifts under way: [start, prepared, encoded, done]
    told = [r.time for r in h.log if r.kind == "event" and r.action.startswith("RULE FIRED: ") and h.rules[r.action[12:]].get("kind") in ("clearvis", "~visual", "read")]
    stop = INF; blind_from = None
    ev = [(r.time, 0, r.action) for r in h.log if r.kind == "event" and r.proc == "visual"] + [(t, 1, "") for t in told + list(changes)]
    ev.sort(key=lambda x: x[0])
    for t, other, act in ev:
        if other or act.startswith(("AUTOMATIC", "VISUAL STOPPED")):
            if cur or any(abs(x[0] - t) < 1e-4 and x[2].startswith("PREPARATION TO SHIFT VISUAL ATTENTION S") for x in ev): stop = t - 1e-4; break
            if t in changes: blind_from = t if blind_from is None else blind_from
            elif act.startswith("AUTOMATIC") and blind_from is not None: tl.blind.append((blind_from, t - 2 * EPS)); blind_from = None
            continue
        if act.startswith("PREPARATION TO SHIFT VISUAL ATTENTION S") and blind_from is not None: tl.blind.append((blind_from, t - 2 * EPS)); blind_from = None
        if act.startswith("PREPARATION TO SHIFT VISUAL ATTENTION STARTED"):
            if cur and cur[-1][1] is None and cur[-1][3] is None:          # superseded
                s0 = cur.pop(); n += 1
                tl.busy.append((s0[0], s0[2] if s0[2] is not None else t, True))
                if s0[2] is not None: tl.blind.append((s0[2], t - 2 * EPS))
                cur.append([t, None, None, None])
            elif any(x[2] is None for x in cur): stop = t - 1e-4; break
            else: cur.append([t, None, None, None])
        elif act.startswith("PREPARATION TO SHIFT VISUAL ATTENTION COMPLETED"): cur[-1][1] = t
        elif act.startswith("ENCODED VIS"): cur[-1][2] = t
        elif act.startswith("SHIFT COMPLETE"):
            x = next((y for y in cur if y[3] is None), None)
            if x is None: stop = t - 1e-4; break
            x[3] = t
        else: continue
        for x in list(cur):
            if x[2] is not None and x[3] is not None:
                tl.busy.append((x[0], x[2], True)); n += 1
                tl.blind.append((x[2], x[3] - 2 * EPS)); cur.remove(x)
    for x in cur:
        e = x[2] if x[2] is not None else min(stop, INF)
        if e > x[0]: tl.busy.append((x[0], e, x[2] is not None))
        if x[2] is not None: tl.blind.append((x[2], INF))
    if blind_from is not None: stop = min(stop, blind_from)
    tl.blind.append((stop, INF))
    return tl, n

def check(h, rec, tls, showspec, content=True):
    """tls: {(buffer, query): TL}; content: full/empty are checked against the recorded content by the buffers' own test"""
    log = h.log
    for i, r in enumerate(log):
        t = r.time
        if getattr(h, "crash", None) is not None and t > log[-1].time - EPS: break      # the run broke off within this instant
        nxt = log[i + 1].time if i + 1 < len(log) else None
        end = nxt > t + EPS if nxt is not None else h.until > t + EPS
        for (n, a), tl in tls.items():
            want = tl.want(t, end)
            if want is None: continue
            have = r.snap.states[n].get(a)
            if end:
                rec.count("instants_" + ("busy" if want == {"busy"} else "error" if want == {"error"} else "free"))
                rec.seen((n, a, have, repr(sorted(r.snap.states[n].items())), r.snap.bufs[n] is None, repr(r.snap.bufs[n])))
            if not rec.check(have in want, f"{a}-{'/'.join(sorted(want))}", lambda: f"at {t} ({'end of the instant' if end else 'in between'}) {n} has {a} {have}, should be {sorted(want)}; busy intervals {tl.busy[-6:]}", showspec()): return

def truth(h, tls, i, n, a):
    return tls[(n, a)].want(h.log[i].time, False) if (n, a) in tls else None

def answers(h, rec, showspec):
    """a query is answered by the module itself: yes exactly for its condition and for what is in the buffer"""
    for n, b in h.mon.buffers.items():
        s = h.mon.snap()
        for v in ("full", "empty", "requested"):
            got = b.test_buffer(v)
            rec.check(bool(got) == (v == ("full" if s.bufs[n] is not None else "empty")), "buffer-query", lambda: f"{n} holds {s.bufs[n]}, query buffer {v}: {got}", showspec())
        for a, have in s.states[n].items():
            for v in ("free", "busy", "error", "idle"):
                rec.check(bool(b.test(a, v)) == (v == have), "state-query", lambda: f"{n} has {a} {have}, query {a} {v}: {b.test(a, v)}", showspec())

def location(h):
    """visual_location: free, after a failed search in error until the next search"""
    tl = TL()
    for r in h.log:
        if r.kind != "event": continue
        if r.proc == "visual_location" and r.action.startswith("ENCODED LOCATION"):
            tl.after.append((r.time, {"error"} if r.action == "ENCODED LOCATION:'None'" else {"free"}))
        elif r.proc == "PROCEDURAL" and r.action.startswith("RULE FIRED: "):
            rule = h.rules.get(r.action[12:])
            if rule and any(b == "visual_location" and c != "+" for c, b, _ in rule["rhs"]): tl.after.append((r.time, (tl.after[-1][1] if tl.after else {"free"}) | {"free"}))
    prev = h.mon.first
    for r in h.log:
        if r.snap.env is not None and r.snap.env[0] != prev.env[0]:
            tl.after.append((r.time, ([s for u, s in sorted(tl.after, key=lambda x: x[0]) if u <= r.time + EPS] or [{"free"}])[-1] | {"free"}))
        prev = r.snap
    tl.after.sort(key=lambda x: x[0])
    return tl

def quiescent(h, rec, showspec):
    """when nothing is scheduled any more, no module does anything"""
    if not h.mon.idle(): return
    rec.count("quiescent_ends")
    s = h.mon.snap()
    for n, q in s.states.items():
        for a, v in q.items():
            rec.check(v != "busy", "busy-forever", lambda: f"nothing is scheduled any more, but {n} has {a} busy (last event {next((r[1:4] for r in reversed(h.log) if r.kind == 'event'), None)})", showspec())

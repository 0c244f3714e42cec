"""Offline checkers of recorded histories (obs.Monitor.log) against the reference semantics (ref)."""
import itertools
import ref

EPS = 1e-6
def same(a, b): return abs(a - b) < EPS

class Hist:
    """the history of one monitored run of a model built from a spec"""
    def __init__(self, mon, spec, utilities=None):
        self.mon, self.spec = mon, spec
        self.rules = {r["name"]: r for r in spec["rules"]}
        self.rf = spec["params"].get("rule_firing", 0.05)
        log = mon.log
        self.log = log
        self.proc = [i for i, r in enumerate(log) if r.kind == "event" and r.proc == "PROCEDURAL"]

    def parse(self, action):
        for p in ("CONFLICT RESOLUTION", "NO RULE FOUND"):
            if action == p: return p, None
        for p in ("RULE SELECTED", "RULE FIRED", "RULE STOPPED FROM FIRING", "RULE CREATED", "RULE RE-CREATED"):
            if action.startswith(p + ": "): return p, action[len(p) + 2:]
        return action, None

    def window(self, i):
        """snapshots possibly in force when the process of event i decided: those of the instant of event i before it, and the last before the instant"""
        t = self.log[i].time
        out = [self.log[i].snap]
        j = i - 1
        while j >= 0 and same(self.log[j].time, t):
            out.append(self.log[j].snap); j -= 1
        if j >= 0: out.append(self.log[j].snap)
        return out

# ------------------------------------------------------------------ C04
def conflict_resolution(h, rec, util_at=None):
    """util_at(i, name): current utility when the CONFLICT RESOLUTION at log index i took place"""
    P = h.proc
    for k, i in enumerate(P):
        r = h.log[i]
        kind, _ = h.parse(r.action)
        if kind != "CONFLICT RESOLUTION" or k + 1 >= len(P): continue
        nk, name = h.parse(h.log[P[k + 1]].action)
        app = {n: b for n, b in ((n, ref.lhs(x, r.snap.bufs, r.snap.states)) for n, x in h.rules.items()) if b is not None}
        rec.count("conflict_resolutions")
        if len(app) > 1: rec.count("with_several_applicable")
        for n, x in h.rules.items():
            if x.get("bufvars"):
                named = [(v, q) for c, q, p in x["lhs"] if c == "=" for s in p[1].values() for v in (s.var,) + s.negvars if v in r.snap.bufs and any(c2 == "=" and b2 == v for c2, b2, _ in x["lhs"])]
                if named: rec.count("buffer_variables"); rec.count("buffer_variables_hold", n in app)
        rec.seen((sorted(app), repr(sorted(r.snap.bufs.items(), key=str))))
        where = lambda: f"at {r.time}: buffers { {n: ref_show(c) for n, c in r.snap.bufs.items()} } states {r.snap.states}; applicable {sorted(app)}"
        if nk == "NO RULE FOUND":
            rec.check(not app, "missed-rule", lambda: "NO RULE FOUND although a rule is applicable " + where(), show(h))
        elif nk == "RULE SELECTED":
            if not rec.check(name in h.rules and name in app, "inapplicable-selected", lambda: f"rule {name} selected but not applicable " + where(), show(h)):
                continue
            u = (lambda n: util_at(i, n)) if util_at else (lambda n: h.rules[n]["utility"])
            best = max(u(n) for n in app)
            if len({u(n) for n in app}) > 1: rec.count("utility_decides")
            rec.check(u(name) >= best - 1e-9, "utility-order", lambda: f"rule {name} (utility {u(name)}) selected, but applicable rules have utilities { {n: u(n) for n in app} } " + where(), show(h))
        else:
            rec.check(False, "order", lambda: f"CONFLICT RESOLUTION followed by {h.log[P[k+1]].action}", show(h))

# ------------------------------------------------------------------ C05
def firing_discipline(h, rec):
    P = h.proc; log = h.log
    delayed_overwrite = lambda name: False
    for k, i in enumerate(P):
        r = log[i]
        kind, name = h.parse(r.action)
        nxt = log[P[k + 1]] if k + 1 < len(P) else None
        nk, nname = h.parse(nxt.action) if nxt else (None, None)
        if kind in ("RULE CREATED", "RULE RE-CREATED"): continue
        j = k + 1
        while nk in ("RULE CREATED", "RULE RE-CREATED"):
            j += 1
            nxt = log[P[j]] if j < len(P) else None
            nk, nname = h.parse(nxt.action) if nxt else (None, None)
        if kind == "CONFLICT RESOLUTION":
            if nxt is not None:
                rec.check(nk in ("RULE SELECTED", "NO RULE FOUND") and same(nxt.time, r.time), "sequence", lambda: f"{r[:4]} followed by {nxt[:4]}", show(h))
        elif kind == "RULE SELECTED":
            rec.count("selected")
            due = ref.rt(r.time + h.rf)
            if nxt is None:
                rec.check(due >= h.until - 1e-9, "lost-firing", lambda: f"{r[1:4]} was never followed by firing or stopping (until {h.until})", show(h))
                continue
            if not rec.check(nk in ("RULE FIRED", "RULE STOPPED FROM FIRING") and nname == name and abs(nxt.time - due) < 1.5e-4, "sequence",
                             lambda: f"{r[1:4]} (rule_firing {h.rf}) followed by {nxt[1:4]}", show(h)): continue
            if name not in h.rules: continue
            win = h.window(P[j])
            holds = [ref.lhs(h.rules[name], s.bufs, s.states) is not None for s in win]
            if nk == "RULE FIRED":
                rec.count("fired")
                rec.check(any(holds), "fired-inapplicable", lambda: f"{nxt[1:4]} although its condition does not hold then: {[ {n: ref_show(c) for n, c in s.bufs.items()} for s in win[:2]]}", show(h))
            else:
                rec.count("stopped")
                rec.check(not all(holds), "stopped-applicable", lambda: f"{nxt[1:4]} although its condition holds then: {[ {n: ref_show(c) for n, c in s.bufs.items()} for s in win[:2]]}", show(h))
            if len(set(holds)) == 1: rec.count("recheck_unambiguous")
        elif kind in ("RULE FIRED", "RULE STOPPED FROM FIRING"):
            prev = h.parse(log[P[k - 1]].action)[0] if k else None
            rec.check(prev in ("RULE SELECTED", "RULE CREATED", "RULE RE-CREATED"), "sequence", lambda: f"{r[1:4]} preceded by {log[P[k-1]][1:4]}", show(h))
            if nxt is None:
                rec.check(r.time >= h.until - 1e-9, "no-further-resolution", lambda: f"{r[1:4]} followed by no conflict resolution", show(h))
            else:
                rec.check(nk == "CONFLICT RESOLUTION" and same(nxt.time, r.time), "sequence", lambda: f"{r[1:4]} followed by {nxt[1:4]}", show(h))
        elif kind == "NO RULE FOUND":
            rec.count("no_rule_found")
            if nxt is not None:
                between = [e for e in log[P[max(0, k - 1)] + 1:P[k + 1]] if e.kind == "event" and e.proc != "PROCEDURAL" and same(e.time, nxt.time)]
                rec.check(nk == "CONFLICT RESOLUTION" and bool(between), "spurious-resolution", lambda: f"{r[1:4]} followed by {nxt[1:4]} without an event of another module", show(h))
        else:
            rec.check(False, "unknown-event", lambda: f"unexpected procedural event {r[1:4]}", show(h))

# ------------------------------------------------------------------ C18
def no_idle_with_applicable(h, rec):
    """at the end of every instant after which no rule is pending, no rule's condition holds"""
    log = h.log
    last = None
    for i, r in enumerate(log):
        if r.kind == "event" and r.proc == "PROCEDURAL": last = r
        endofinstant = i + 1 == len(log) or log[i + 1].time > r.time + EPS
        if not endofinstant or last is None or r.time < 0: continue
        if last.action != "NO RULE FOUND": continue
        if i + 1 == len(log) and not (h.mon.idle() or h.until > r.time + EPS): continue
        rec.count("waiting_instants")
        if any(e.kind == "event" and e.proc != "PROCEDURAL" and same(e.time, r.time) for e in log[max(0, i - 40):i + 1]): rec.count("waiting_after_module_event")
        app = [n for n, x in h.rules.items() if ref.lhs(x, r.snap.bufs, r.snap.states) is not None]
        rec.seen((repr(sorted(r.snap.bufs.items(), key=str)), repr(r.snap.states)))
        rec.check(not app, "idle-applicable", lambda: f"at the end of instant {r.time} no rule is pending, but {app} are applicable: { {n: ref_show(c) for n, c in r.snap.bufs.items()} } {r.snap.states}", show(h))

# ------------------------------------------------------------------ C06 / C07 / C08: what may change buffers and memories
class Track:
    """nondeterministic tracker of one buffer: a state is (ops,) with ops a tuple of pending operations
       op = (kind, arg, t0, due)   kind in '=', '@', '~', '+clear', '+set', '*', 'h' (harvest), 'ret' (retrieval, may bring any chunk of the memory)"""
    def __init__(self, content):
        self.content = content
        self.states = {()}

def op_apply(op, content, now, mem):
    """possible (new content, cleared chunk or None) of an op at time now; [] if it cannot happen now"""
    kind, arg, t0, due = op
    if kind in ("=",):
        return [(ref.modified(content, arg), None)] if content is not None else []
    if kind == "@": return [(arg, None)]
    if kind in ("~", "h", "+clear"): return [(None, content)]
    if kind == "+set": return [(arg, None)] if same(now, due) else []
    if kind == "*": return [(ref.modified(content, arg) if content is not None else None, None)] if same(now, due) else []
    if kind == "ret": return [(c, content) for c in mem] if now >= t0 - EPS else []
    raise ValueError(kind)

INLINE = ("=", "@", "~")

def enabled(ops):
    """indices of the operations that may come next: the first inline one, the first deferred one, a harvest"""
    out, inl, dfr = [], False, False
    for j, op in enumerate(ops):
        if op[0] in INLINE:
            if not inl: out.append(j); inl = True
        elif op[0] == "h": out.append(j)
        else:
            if not dfr: out.append(j); dfr = True
    return out

def closure(states, content, target, now, mem, maxmoves=4):
    """{outputs: states}: ways to get from content to target; outputs = sorted tuple of cleared chunks"""
    res = {}
    todo = [(s, content, (), 0) for s in states]
    seen = set()
    while todo:
        s, c, out, n = todo.pop()
        key = (s, c, out)
        if key in seen: continue
        seen.add(key)
        if c == target:
            res.setdefault(tuple(sorted(out, key=lambda x: sorted(map(repr, x)))), set()).add(s)
        if n >= maxmoves: continue
        for j in enabled(s):
            op = s[j]
            m = mem
            if op[0] == "ret": m = [target] if target in mem else []
            for c2, cleared in op_apply(op, c, now, m):
                todo.append((s[:j] + s[j + 1:], c2, out + ((cleared,) if cleared is not None else ()), n + 1))
    return res

def effects(h, rec, check_dm=True, until=None):
    """every change of a buffer/memory is licensed by a fired action, and every fired action has its effect in time"""
    spec = h.spec
    strict = spec["params"].get("strict_harvesting", False)
    names = [n for n in h.mon.buffers if n in spec["goals"] or n in spec["retrievals"]]
    other = [n for n in h.mon.buffers if n not in names]
    first = h.mon.first
    tr = {n: Track(first.bufs[n]) for n in names}
    prev = first
    dmname = {n: next((d for d, o in h.mon.dms.items() if o is h.mon.buffers[n].dm), None) for n in names}
    for i, r in enumerate(h.log):
        now = r.time; s = r.snap
        # memory delta of this step
        delta = None
        if s.dms is not None:
            delta = {}
            for d in s.dms:
                a, b = prev.dms.get(d, {}), s.dms[d]
                if a is b or a == b: continue
                for c in a:
                    if c not in b or b[c][:len(a[c])] != a[c]:
                        rec.check(False, "memory-lost", lambda: f"at {now} memory {d} lost a chunk or presentation of {ref_show(c)}: {a[c]} -> {b.get(c)}", show(h)); return
                for c in b:
                    for t in b[c][len(a.get(c, ())):]:
                        delta.setdefault(d, []).append((c, t))
        changed = [n for n in names if s.bufs[n] != tr[n].content]
        for n in changed:
            if isinstance(s.bufs[n], tuple):
                rec.check(False, "multi", lambda: f"buffer {n} holds several chunks {s.bufs[n]}", show(h)); return
        if changed or delta:
            rec.count("transitions", len(changed))
            alts = {}
            for n in names:
                mem = []
                d = dmname[n]
                if prev.dms is not None and d: mem = prev.dms[d]
                elif s.bufs[n] is not None: mem = [s.bufs[n]]
                alts[n] = closure(tr[n].states, tr[n].content, s.bufs[n], now, mem)
                if not alts[n]:
                    rec.check(False, "unlicensed-change", lambda: f"at {now} buffer {n} changes from {ref_show(tr[n].content)} to {ref_show(s.bufs[n])}; pending operations: {fmt(tr[n].states)}", show(h)); return
            if delta is None:
                for n in names:
                    tr[n].states = set().union(*alts[n].values()); tr[n].content = s.bufs[n]
            else:
                # choose per buffer the outputs so that together they are exactly the memory delta
                want = sorted(((d, c) for d, l in delta.items() for c, t in l), key=repr_)
                okst = {n: set() for n in names}; found = False
                for combo in itertools.product(*[list(alts[n].items()) for n in names]):
                    got = sorted(((dmname[n], c) for n, (outs, _) in zip(names, combo) for c in outs), key=repr_)
                    if got == want:
                        found = True
                        for n, (_, st) in zip(names, combo): okst[n] |= st
                if not found:
                    rec.check(False, "memory-mismatch", lambda: f"at {now} memory gains {[(d, ref_show(c)) for d, c in want]} while buffers change { {n: (ref_show(tr[n].content), ref_show(s.bufs[n])) for n in changed} }; possible clearings { {n: [[ref_show(x) for x in o] for o in alts[n]] for n in names} }", show(h)); return
                for n in names:
                    tr[n].states = okst[n]; tr[n].content = s.bufs[n]
                for d, l in delta.items():
                    for c, t in l:
                        rec.count("presentations")
                        rec.check(abs(t - now) < 1.5e-4, "memory-time", lambda: f"{ref_show(c)} stored with time {t} at {now}", show(h))
        for n in other:
            if n in ("manual",) and s.bufs[n] is not None:
                rec.check(False, "unlicensed-change", lambda: f"buffer {n} holds {ref_show(s.bufs[n])}", show(h)); return
        prev = s
        # deadlines
        nxt_time = h.log[i + 1].time if i + 1 < len(h.log) else None
        isCR = r.kind == "event" and r.proc == "PROCEDURAL" and r.action == "CONFLICT RESOLUTION"
        endinstant = nxt_time is not None and nxt_time > now + EPS or nxt_time is None and h.until > now + EPS
        if isCR or endinstant:
            for n in names:
                # silent operations (no visible change, nothing cleared) may be consumed now
                st = set()
                for outs, ss in closure(tr[n].states, tr[n].content, tr[n].content, now, []).items():
                    if not outs: st |= ss
                def late(op, x=()):
                    if op[0] in INLINE or op[0] == "h": return True
                    if op[0] == "ret": return endinstant and [o for o in x if o[0] == "ret"][-1] is not op
                    return endinstant and op[3] <= now + EPS
                ok = {x for x in st | tr[n].states if not any(late(op, x) for op in x)}
                if not ok:
                    kinds = sorted({op[0] for x in tr[n].states for op in x if late(op)})
                    rec.check(False, "missing-harvest" if kinds == ["h"] else "missing-effect", lambda: f"by {now} ({'next conflict resolution' if isCR else 'end of the instant'}) buffer {n} = {ref_show(tr[n].content)}: operations did not take place: {fmt(tr[n].states)}", show(h)); return
                tr[n].states = ok
        # a firing adds operations
        if r.kind == "event" and r.proc == "PROCEDURAL":
            kind, name = h.parse(r.action)
            if kind == "RULE FIRED" and name in h.rules:
                rule = h.rules[name]
                bs = []
                for w in [s] + h.window(i):
                    b = ref.lhs(rule, w.bufs, w.states)
                    if b is not None and b not in bs: bs.append(b)
                if not bs: continue      # C05 reports it
                rec.count("firings")
                rec.seen((name, repr(rule["rhs"]), repr(sorted(s.bufs.items(), key=str))))
                if len(bs) > 1: rec.count("ambiguous_bindings")
                t = now
                acted = {b for _, b, _ in rule["rhs"]}
                for n in names:
                    new = set()
                    for b in bs:
                        add = []
                        for code in ("=", "@", "~"):
                            for c, buf, p in rule["rhs"]:
                                if buf == n and c == code:
                                    add.append((code, None if c == "~" else (freeze(ref.subst(p[1], b)) if c == "=" else ref.chunk_of(ref.subst(p[1], b))), t, t))
                        dfr = []
                        for code in ("*", "+"):
                            for c, buf, p in rule["rhs"]:
                                if buf != n or c != code: continue
                                due = t + spec["goals"].get(n, 0)
                                if n in spec["retrievals"]: dfr.append(("ret", None, t, t))
                                elif c == "+": dfr += [("+clear", None, t, t), ("+set", ref.chunk_of(ref.subst(p[1], b)), t, due)]
                                else: dfr.append(("*", freeze(ref.subst(p[1], b)), t, due))
                        har = []
                        if strict and acted >= {n} and all(c == "?" for c, b, _ in rule["rhs"] if b == n) and any(c == "=" and buf == n for c, buf, _ in rule["lhs"]): rec.count("kept_for_extra_test")
                        if strict and n not in acted and any(c == "=" and buf == n for c, buf, _ in rule["lhs"]):
                            har = [("h", None, t, t)]
                            rec.count("harvests")
                        for st in tr[n].states:
                            inl = tuple(o for o in st if o[0] in INLINE or o[0] == "h")
                            old = tuple(o for o in st if o[0] not in INLINE and o[0] != "h")
                            if dfr:
                                rec.count("interrupting", 1 if old and old[0][0] != "ret" else 0)
                                new.add(inl + tuple(add) + tuple(har) + tuple(dfr))
                                if old and (old[-1][3] <= now + EPS):
                                    new.add(inl + tuple(add) + tuple(har) + old + tuple(dfr))
                            else:
                                new.add(inl + tuple(add) + tuple(har) + old)
                    tr[n].states = new
    m = h.mon.mutated()
    rec.check(not m, "mutated", lambda: f"chunks changed their value after they were in a buffer: {[(ref_show(a), ref_show(b)) for a, b in m[:3]]}", show(h))

class freeze(dict):
    def __hash__(self): return hash(frozenset(self.items()))

def repr_(x): return (str(x[0]), sorted(map(repr, x[1])))
def fmt(states):
    return [[(o[0], ref_show(o[1]) if not isinstance(o[1], dict) else dict(o[1]), o[2], o[3]) for o in s] for s in list(states)[:3]]
def ref_show(v):
    return sorted((s, ref_show(x)) for s, x in v) if isinstance(v, frozenset) else v
def show(h):
    import genmodel
    return h.showspec() if hasattr(h, "showspec") else genmodel.show(h.spec)

def run(spec, until=1.0, want_dm=False, environment=None, env_kw=None, build=None):
    import genmodel, obs
    m = (build or genmodel.build)(spec) if environment is None else (build or genmodel.build)(spec, environment=environment)
    mon = obs.Monitor(m, want_dm=want_dm, env=environment, **(env_kw or {}))
    mon.run(until)
    h = Hist(mon, spec)
    h.until = until
    return h

"""C34: the activation trace."""
import contextlib, io, math, re
import numpy
import boot, genret, retr, ref, obs
from monitors import Hist
PROPERTY = "C34"
N = {"quick": 2500, "thorough": 40000}
TECHNIQUE = "monitoring of the printed activation trace of recorded retrievals against activations recomputed from the recorded memory and buffers, and against the retrieval that follows; differential comparison with a run without it"
RULE = ("a case is a subsymbolic model (base level, spreading, partial matching, noise, settings at random) making 1-5 requests with activation_trace on, and the same model with it off; distinct: printed blocks of a retrieval")
REQUIRE = {"blocks": 2500, "retrieved": 1500, "failed": 300, "noisy_blocks": 500, "spreading_blocks": 400, "mismatch_blocks": 150, "several": 500}

HEAD = ["(Partially) matching chunk:", "Base level learning:", "Spreading activation", "Partial matching", "Noise:", "Total activation", "Time to retrieve"]

class Mon(obs.Monitor):
    def on_event(self, e):
        super().on_event(e)
        self.at[len(self.log) - 1] = len(self.buf.getvalue())
        b = self.model.retrievals["retrieval"]
        self.act[len(self.log) - 1] = getattr(b, "activation", None)
        if e.action == "START RETRIEVAL": self.names[len(self.log) - 1] = {str(c): ref.nchunk(c) for c in b.dm}
    def run(self, until):
        self.buf = io.StringIO(); self.at, self.act, self.names = {}, {}, {}
        with contextlib.redirect_stdout(self.buf): self.sim.run(until)
        return self

def run(sp, seed, on):
    if on: sp = {**sp, "params": {**sp["params"], "activation_trace": True}}
    m = genret.build(sp)
    numpy.random.seed(seed)
    mon = Mon(m, want_dm=True); mon.run(sp["until"])
    h = Hist(mon, sp); h.until = sp["until"]
    return h

def blocks(text):
    """-> [(chunk text, base, spreading, partial, noise, total, time)] or None"""
    out = []; L = text.splitlines()
    if len(L) % 7: return None
    for i in range(0, len(L), 7):
        if any(not l.startswith(p) for l, p in zip(L[i:i+7], HEAD)): return None
        out.append((L[i][len(HEAD[0]):].strip(),) + tuple(float(l[len(p):]) for l, p in zip(L[i+1:i+7], HEAD[1:])))
    return out

def plain(log):
    """the events, chunks without empty slots (which of them are printed depends on what else the process has declared)"""
    return [(t, p, re.sub(r"\w+= (?=[,)]),? ?", "", a)) for t, p, a in obs.trace(log)]

def case(rng, idx, rec, tier):
    sp = genret.spec(rng, subsymbolic=True, bufp=.4, two=0, recall=rng.choice([0, 0, .6]))
    noise = rng.random() < .4
    if noise: sp["params"]["instantaneous_noise"] = rng.choice([.1, .5, 1.5])
    for bp in sp["bufparams"].values(): bp.pop("instantaneous_noise", None)
    rec.witness = sh = genret.show(sp); seed = rng.getrandbits(31)
    h = run(sp, seed, True); off = run(sp, seed, False); mon = h.mon; log = h.log
    rec.check(not off.mon.buf.getvalue(), "printed-off", lambda: f"activations printed with activation_trace off: {off.mon.buf.getvalue()[:200]}", sh)
    a, b = plain(log), plain(off.log)
    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    rec.check(a == b, "trace-changes", lambda: f"event {k} with the activation trace {a[k:k+2]}, without {b[k:k+2]}", sh)
    rs = retr.retrievals(h); used = 0
    for x in rs:
        if x.j is None and x.i + 1 >= len(log): continue
        nxt = next((i for i in sorted(mon.at) if i > x.i), None)
        end = mon.at[nxt] if nxt is not None else len(mon.buf.getvalue())
        text = mon.buf.getvalue()[mon.at[x.i]:end]; used += len(text)
        B = blocks(text)
        if not rec.check(B is not None, "format", lambda: f"printed at the retrieval at {log[x.i].time}: {text}", sh): return
        rec.seen(text); rec.count("blocks", len(B)); rec.count("several", len(B) > 1)
        p = retr.params_of(sp, x.buf); names = mon.names[x.i]
        if B:
            for o in B:
                rec.count("noisy_blocks", o[4] != 0); rec.count("spreading_blocks", o[2] != 0); rec.count("mismatch_blocks", o[3] != 0)
                rec.check(abs(sum(o[1:5]) - o[5]) < 1e-6, "sum", lambda: f"parts do not add up to the total: {o}", sh)
                rec.check(noise or o[4] == 0, "noise", lambda: f"noise reported in a model without noise: {o}", sh)
                due = ref.latency(o[5], p["latency_factor"], p["latency_exponent"])
                rec.check(abs(o[6] - due) < 1e-6 * max(1, due), "time", lambda: f"time to retrieve reported {o}, activation {o[5]} takes {due}", sh)
                rec.check(o[5] >= p["retrieval_threshold"] - 1e-9, "threshold", lambda: f"{o} below the threshold {p['retrieval_threshold']}", sh)
                rec.check(o[0] in names, "chunk", lambda: f"{o[0]} is not in memory: {sorted(names)}", sh)
            rec.check(all(u[5] < v[5] for u, v in zip(B, B[1:])), "ascending", lambda: f"reported activations {B}", sh)
            if x.b is None or any(c.var is not None and x.b[c.var] is None for c in x.req.values()): rec.count("empty_binding_skipped")
            else:
                for s in retr.window_from(h, x.i)[:6]:
                    cand, _ = retr.expected(h, x, s, log[x.i].time)
                    cand = {c[0]: c[2:] for c in cand}
                    bad = [o for o in B if names.get(o[0]) not in cand or any(abs(u - v) > 1e-6 * max(1, abs(v)) for u, v in zip(o[1:4], cand[names[o[0]]]))]
                    if not bad: break
                rec.check(not bad, "parts", lambda: f"reported {bad[0]}, expected base level, spreading, mismatch {cand.get(names.get(bad[0][0]))}", sh)
        if x.j is None: continue
        got = log[x.j].action[len("RETRIEVED: "):]
        if got == "None":
            rec.count("failed"); rec.check(not B, "failed", lambda: f"retrieval failed, but reported {B}", sh)
        else:
            rec.count("retrieved")
            if not p["subsymbolic"]: rec.count("symbolic"); rec.check(not B, "symbolic", lambda: f"symbolic retrieval, but reported {B}", sh)
            elif rec.check(bool(B) and B[-1][0] == got, "winner", lambda: f"retrieved {got}, last reported {B[-1:]}", sh):
                took = log[x.j].time - log[x.i].time
                rec.check(abs(took - B[-1][6]) < 2.1e-4 + 2 ** -40 * log[x.j].time, "took", lambda: f"took {took}, reported {B[-1]}", sh)
                v = mon.act[x.j]
                rec.check(v is not None and abs(float(v) - B[-1][5]) < 1e-9 * max(1, abs(B[-1][5])), "activation", lambda: f"activation of the buffer {v}, reported {B[-1]}", sh)
    rec.check(used == len(mon.buf.getvalue()), "stray", lambda: f"printed outside retrievals: {mon.buf.getvalue()[:300]}", sh)
    if idx < 12: rec.sample(sh + "\n" + mon.buf.getvalue()[:400])

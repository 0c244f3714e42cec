"""C02: equality/hash of chunks, and immutability of chunks under buffer histories."""
import ref, gen
from boot import pyactr
from pyactr import goals, declarative, chunks as C
PROPERTY = "C02"
TECHNIQUE = "pairs of chunks built by different routes compared with reference equality; shadow-state checker over histories of buffer operations"
N = {"quick": 16000, "thorough": 300000}
RULE = ("even cases: pairs/triples of chunks (same content by another route, slot order and listing of empty slots; one slot changed; independent), compared by ==, hash, dict and DecMem lookup; "
        "odd cases: histories of add/modify/create/clear over two goal buffers, a retrieval buffer and a memory with chunks shared between holders, all holders compared with a shadow after each "
        "operation; non-trivial: at least one non-empty slot; distinct by content of the pair / the history")
REQUIRE = {"equal_pairs": 2000, "unequal_pairs": 2000, "nested": 1000, "history_ops": 20000}

def change(rng, rc, strs):
    d = dict(rc)
    k = rng.random()
    if d and k < .35:
        s = rng.choice(sorted(d)); v = d[s]
        if isinstance(v, frozenset) and rng.random() < .7: d[s] = change(rng, v, strs)
        else: d[s] = rng.choice(strs)
    elif d and k < .6: del d[rng.choice(sorted(d))]
    elif d and len(d) > 1 and k < .75:
        a, b = rng.sample(sorted(d), 2); d[a], d[b] = d[b], d[a]
    else: d[rng.choice(gen.SLOTS[:5])] = rng.choice(strs)
    return ref.chunk_of(d)

def case(rng, idx, rec, tier):
    gen.types()
    strs = rng.sample(gen.STR, rng.choice([2, 3, 5]))
    nested = rng.choice([0, .3, .5])
    if idx % 2 == 0: pairs(rng, rec, strs, nested)
    else: history(rng, rec, strs, nested)

def pairs(rng, rec, strs, nested):
    t, rc = gen.chunk(rng, nested=nested, strs=strs)
    if rng.random() < .05: rc = frozenset()
    other = rng.choice(["same", "same", "change", "change", "indep"])
    rc2 = rc if other == "same" else change(rng, rc, strs) if other == "change" else gen.chunk(rng, nested=nested, strs=strs)[1]
    a, b = gen.make(rng, rc), gen.make(rng, rc2)
    rec.witness = (str(a), str(b))
    eq = rc == rc2
    if any(isinstance(v, frozenset) for _, v in rc): rec.count("nested")
    rec.count("equal_pairs" if eq else "unequal_pairs")
    if rc or rc2: rec.seen((sorted(map(repr, rc)), sorted(map(repr, rc2))))
    w = lambda: f"{a!r} vs {b!r}: reference {'equal' if eq else 'different'} ({sorted(map(repr, rc))} / {sorted(map(repr, rc2))})"
    rec.check(ref.nchunk(a) == rc and ref.nchunk(b) == rc2, "content", lambda: "a constructed chunk does not hold what it was given: " + w())
    rec.check((a == b) == eq and (b == a) == eq and (a != b) == (not eq), "equality", lambda: "==/!= wrong: " + w())
    rec.check((hash(a) == hash(b)) == eq, "hash", lambda: "hash wrong: " + w())
    rec.check(a == a and hash(a) == hash(a), "self", lambda: "not equal to itself: " + w())
    rec.check((b in {a: 1}) == eq, "dict", lambda: "dict lookup wrong: " + w())
    dm = declarative.DecMem(); dm.add(a, 1); dm.add(b, 2)
    rec.check(len(dm) == (1 if eq else 2) and a in dm and b in dm and list(dm[b]) == ([1, 2] if eq else [2]), "memory-key", lambda: f"memory {dm}: " + w())
    rec.sample(rec.witness) if rng.random() < .01 else None

def history(rng, rec, strs, nested):
    dm = declarative.DecMem()
    g1, g2 = goals.Goal(), goals.Goal()
    r = declarative.DecMemBuffer(dm)
    g1.dm = g2.dm = dm
    bufs = {"g1": g1, "g2": g2, "r": r}
    sh = {"g1": None, "g2": None, "r": None}; shdm = {}
    pool = []
    log = []
    rec.witness = log
    def new():
        if pool and rng.random() < .5: return rng.choice(pool)
        t, rc = gen.chunk(rng, nested=nested, strs=strs)
        if not rc: rc = frozenset([("a", strs[0])])
        inner = [p for p in pool if p[1] and not any(isinstance(v, frozenset) for _, v in p[1])]
        c = None
        if inner and rng.random() < .4:      # a chunk holding another chunk object
            p = rng.choice(inner)
            d = dict(rc); d["b"] = p[1]; rc = ref.chunk_of(d)
            kw = {s: (p[0] if s == "b" else gen.pyval(rng, v)) for s, v in rc}
            c = C.Chunk("tc", **{k: v for k, v in kw.items() if k in gen.TYPES["tc"]})
            rc = frozenset((s, v) for s, v in rc if s in gen.TYPES["tc"])
        else:
            c = gen.make(rng, rc)
        pool.append((c, rc)); return pool[-1]
    def store(rc, t): shdm.setdefault(rc, []).append(t)
    for k in range(rng.choice([4, 8, 12])):
        t = float(k + 1)
        op = rng.choice(["add", "add", "modify", "modify", "modify", "create", "clear", "dmadd", "copybuf"])
        n = rng.choice(["g1", "g2", "r"])
        b = bufs[n]
        if op == "add":
            c, rc = new(); log.append((op, n, str(c)))
            if n == "r":
                if sh[n] is not None: store(sh[n], t)
                b.add(c, t)
            else: b.add(c)
            sh[n] = rc
        elif op in ("modify", "create"):
            if op == "modify" and sh[n] is None or op == "create" and n == "r": continue
            bind = {"p": rng.choice(strs)}
            pat = {}
            slots = [s for s, _ in sh[n]] if sh[n] and rng.random() < .6 else ["a", "b", "c", "d"]
            for s in slots:
                if rng.random() < .5:
                    if rng.random() < .3: pat[s] = ref.con(var="p")
                    else: pat[s] = ref.con(val="None" if rng.random() < .15 else gen.value(rng, 1, strs, nested))
            if not pat: continue
            pc = gen.make_pattern(rng, "tc" if set(pat) <= set(gen.TYPES["tc"]) else "tx_" + "_".join(sorted(pat)), pat, route=rng.choice(["string", "vv"]))
            log.append((op, n, str(pc), bind))
            av = {"=" + x: v for x, v in bind.items()}
            if op == "modify":
                b.modify(pc, av); sh[n] = ref.modified(sh[n], ref.subst(pat, bind))
            else:
                b.create(pc, None, av); sh[n] = ref.chunk_of(ref.subst(pat, bind))
        elif op == "clear":
            log.append((op, n))
            if sh[n] is not None: store(sh[n], t); sh[n] = None
            b.clear(t)
        elif op == "dmadd":
            c, rc = new(); log.append((op, str(c)))
            dm.add(c, t); store(rc, t)
        else:
            if sh["g1"] is None: continue
            g = list(g1)[0]; log.append((op, str(g)))      # the same chunk object in two buffers
            g2.add(g); sh["g2"] = sh["g1"]
        rec.count("history_ops")
        for m, bb in bufs.items():
            have = [ref.nchunk(x) for x in bb]
            if not rec.check(have == ([sh[m]] if sh[m] is not None else []), "holder", lambda: f"after {log[-1]}: buffer {m} holds {have}, expected {sh[m]}", log): return
        import obs
        have = {c: list(ts) for c, ts in obs.dm_norm(dm).items()}
        if not rec.check(have == shdm, "holder-dm", lambda: f"after {log[-1]}: memory {have}, expected {shdm}", log): return
        for c, rc in pool:
            if not rec.check(ref.nchunk(c) == rc, "mutated", lambda: f"after {log[-1]}: chunk created as {rc} is now {ref.nchunk(c)}", log): return
    rec.seen(log)

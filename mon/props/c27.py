"""C27: declarative memory against a reference multimap, over operation histories."""
import numpy as np
import ref, gen, obs
from boot import pyactr
from pyactr import declarative, goals, vision
PROPERTY = "C27"
TECHNIQUE = "operation histories on declarative memories replayed on a reference multimap"
N = {"quick": 12000, "thorough": 200000}
RULE = ("a case is a history of 3-25 operations (construction from a list/set/dict, assignment of a time/array/list, add of one chunk or a collection with one or several times, update, pop, del, "
        "setdefault, copy) over 1-3 memories, in two cases of five with retrieval, goal and visual buffers on them (put, clear, also into another memory, modify, discard, copy with or without the memory), all compared with reference multimaps after each operation; non-trivial: at least three operations; distinct by history")
REQUIRE = {"ops": 50000, "merged": 5000, "copies": 1000, "removals": 2000, "buffer_stores": 2000, "buffer_copies": 1200, "equal_replaced": 300}

def case(rng, idx, rec, tier):
    gen.types()
    strs = rng.sample(gen.STR, rng.choice([1, 2, 3]))
    nested = rng.choice([0, 0, .3])
    log = []
    rec.witness = log
    univ = []
    for _ in range(rng.choice([2, 3, 5])):
        _, rc = gen.chunk(rng, nested=nested, strs=strs)
        if rc: univ.append(rc)
    univ = univ or [frozenset([("a", "one")])]
    def pick():
        rc = rng.choice(univ); narrow = "tx_" + "_".join(sorted(s for s, _ in rc))      # a type with the slots of the chunk and no others
        return gen.make(rng, rc, typ=narrow if rng.random() < .4 else None), rc
    def time():
        return rng.choice([0, 0.0, rng.randint(0, 9), round(rng.random() * 10, 3), rng.random() * 100, -rng.random() * 5, 1.23456789])
    def r4(t): return round(float(t), 4)
    def fresh():
        k = rng.choice(["empty", "list", "set", "tuple", "iter", "dict", "dict"])
        cs = [pick() for _ in range(rng.choice([1, 2, 4]))]
        if k == "empty": return declarative.DecMem(), {}, k
        if k in ("list", "set", "tuple", "iter"):
            data = [c for c, _ in cs]
            return declarative.DecMem({"set": set, "list": list, "tuple": tuple, "iter": iter}[k](data)), {rc: [0.0] for _, rc in cs}, (k, [str(c) for c, _ in cs])
        d = {}; sh = {}
        for c, rc in cs:
            t = time()
            if rng.random() < .3: t = [r4(time()) for _ in range(2)]
            d[c] = np.array(t) if isinstance(t, list) and rng.random() < .5 else t
            sh[rc] = list(t) if isinstance(t, list) else [r4(t)]
        return declarative.DecMem(d), sh, (k, {str(c): str(t) for c, t in d.items()})
    mems = []; buffers = rng.random() < .4; env = pyactr.Environment()
    dm, sh, what = fresh()
    mems.append((dm, sh)); log.append(("new", what))
    bufs = []           # (buffer, content, memory, finst or delay, parameters, recent)
    def newbuf():
        """a buffer on one of the memories"""
        m = rng.randrange(len(mems)); c, rc = pick(); data = {c} if rng.random() < .4 else None
        n = rng.choice([0, 1, 3]); kind = rng.choice(["retrieval", "retrieval", "goal", "goal", "visual", "location"])
        if kind in ("visual", "location"):
            data = None; b = vision.Visual(env, mems[m][0]) if kind == "visual" else vision.VisualLocation(env, mems[m][0], n)
            bufs.append([b, None, m, n, None, [], kind]); log.append(("buffer", kind, m, n)); return
        if kind == "retrieval":
            b = declarative.DecMemBuffer(mems[m][0], data, n); p = {"decay": .3} if rng.random() < .3 else {}
            b.model_parameters.update(p)
            for _ in range(rng.choice([0, 0, 1]) if n else 0): b.recent.append(pick()[0])
            bufs.append([b, rc if data else None, m, n, p, [ref.nchunk(x) for x in b.recent], kind])
        else: bufs.append([goals.Goal(data, mems[m][0], delay=n / 10), rc if data else None, m, n / 10, None, None, kind])
        log.append(("buffer", kind, str(c) if data else None, m, n))
    check(rec, mems, log)
    for _ in range(rng.choice([3, 6, 12, 25])):
        m = rng.randrange(len(mems)); dm, sh = mems[m]
        op = rng.choice(["add", "add", "add", "addtimes", "addmany", "set", "setlist", "update", "pop", "del", "copy", "setdefault", "read"] + ["newbuf", "put", "put", "clear", "copybuf", "copybuf", "modbuf", "discard"] * buffers)
        c, rc = pick(); t = time()
        if op == "add":
            dm.add(c, t); rec.count("merged", rc in sh); sh.setdefault(rc, []).append(r4(t)); log.append((m, op, str(c), t))
        elif op == "addtimes":
            ts = [r4(time()) for _ in range(rng.choice([1, 2, 3]))]
            dm.add(c, ts if rng.random() < .5 else np.array(ts)); rec.count("merged", rc in sh); sh.setdefault(rc, []).extend(ts); log.append((m, op, str(c), ts))
        elif op == "addmany":
            cs = [pick() for _ in range(rng.choice([1, 2, 3]))]
            ts = [r4(time()) for _ in range(2)] if rng.random() < .3 else None
            col = rng.choice([list, list, tuple, iter, frozenset, set])
            if col in (set, frozenset): cs = list({r: (x, r) for x, r in cs}.values())
            dm.add(col([x for x, _ in cs]), ts or t)
            for x, r in cs: sh.setdefault(r, []).extend(ts or [r4(t)])
            log.append((m, op, [str(x) for x, _ in cs], ts or t))
        elif op == "set":
            dm[c] = t; sh[rc] = [r4(t)]; log.append((m, op, str(c), t))
        elif op == "setlist":
            ts = [r4(time()) for _ in range(rng.choice([1, 2]))]
            dm[c] = np.array(ts) if rng.random() < .5 else ts; sh[rc] = list(ts); log.append((m, op, str(c), ts))
        elif op == "update":
            cs = [pick() for _ in range(2)]
            dm.update({x: t for x, _ in cs})
            for x, r in cs: sh[r] = [r4(t)]
            log.append((m, op, [str(x) for x, _ in cs], t))
        elif op == "setdefault":
            dm.setdefault(c, t); sh.setdefault(rc, [r4(t)]); log.append((m, op, str(c), t))
        elif op in ("pop", "del"):
            log.append((m, op, str(c)))
            try:
                if op == "pop": v = [float(x) for x in dm.pop(c)]
                else:
                    del dm[c]; v = sh.get(rc)
                got = ("ok", v)
            except KeyError: got = ("KeyError", None)
            want = ("ok", sh.pop(rc)) if rc in sh else ("KeyError", None)
            rec.count("removals", want[0] == "ok")
            if not rec.check(got == want, "pop", lambda: f"{log[-1]}: {got}, expected {want}", log): return
        elif op == "copy":
            if len(mems) < 3:
                mems.append((dm.copy(), {k: list(v) for k, v in sh.items()})); log.append((m, op)); rec.count("copies")
        elif op == "newbuf" or op in ("put", "clear", "copybuf", "modbuf", "discard") and not bufs: newbuf()
        elif op in ("put", "clear"):
            b = rng.choice(bufs); kind = b[6]; x = rng.randrange(len(mems)) if kind != "retrieval" and rng.random() < .3 else None     # another memory to clear into
            old, msh = b[1], mems[b[2] if x is None else x][1]; kw = {} if x is None else {"harvest": mems[x][0]}
            log.append((op, bufs.index(b), str(c), t, x))
            if op == "clear" or kind == "goal": b[0].clear(t, **kw)       # a full goal is cleared first
            if op == "put" and kind == "location":
                stim = {"text": rng.choice("xyz")} if rng.random() < .7 else None
                b[0].add(c, stim, t, **kw)
                if stim and b[3]: b[5].append(stim); b[5][:] = b[5][-b[3]:]
            elif op == "put": b[0].add(c, t, **(kw if kind != "goal" else {}))
            b[1] = rc if op == "put" else None
            if old is not None: msh.setdefault(old, []).append(r4(t)); rec.count("buffer_stores"); rec.count("equal_replaced", op == "put" and old == rc)
        elif op == "modbuf":
            full = [b for b in bufs if b[1] is not None]
            if full:
                b = rng.choice(full); log.append((op, bufs.index(b), str(c))); b[0].modify(c)
                emptied = {s for s, v in c.removeunused()} - {s for s, _ in rc}        # slots given as None are emptied
                b[1] = frozenset((s, v) for s, v in {**dict(b[1]), **dict(rc)}.items() if s not in emptied)
        elif op == "discard":
            b = rng.choice(bufs); log.append((op, bufs.index(b), str(c))); b[0].discard(c)
            if b[1] == rc: b[1] = None
        elif op == "copybuf":
            b = rng.choice([b for b in bufs if b[6] in ("goal", "retrieval")] or [None])
            if b is None: newbuf(); continue
            m2 = rng.randrange(len(mems)) if rng.random() < .4 or len(mems) >= 4 else None
            log.append((op, bufs.index(b), m2)); rec.count("buffer_copies")
            new = b[0].copy() if m2 is None else b[0].copy(mems[m2][0])
            if m2 is None and b[4] is not None:
                m2 = len(mems)
                if not rec.check(new.dm is not None and all(new.dm is not d for d, _ in mems), "copy-memory", lambda: f"{log[-1]}: the memory of a retrieval buffer is not copied", log): return
                mems.append((new.dm, {k: list(v) for k, v in mems[b[2]][1].items()}))
            elif m2 is None: m2 = b[2]
            bufs.append([new, b[1], m2, b[3], dict(b[4]) if b[4] is not None else None, list(b[5]) if b[5] is not None else None, b[6]])
            if rng.random() < .3 and b[4] is not None: new.model_parameters["noise"] = 1; bufs[-1][4]["noise"] = 1
            if rng.random() < .3 and b[3] and b[4] is not None: new.recent.append(c); bufs[-1][5].append(rc)
        else:
            rec.check((c in dm) == (rc in sh) and (rc not in sh or [float(x) for x in dm[c]] == sh[rc]), "read", lambda: f"reading {c} from {dm}: expected {sh.get(rc)}", log)
        rec.count("ops")
        if not check(rec, mems, log): return
        for k, (b, have, m, n, p, recent, kind) in enumerate(bufs):
            got = [ref.nchunk(x) for x in b]
            if not rec.check(got == ([] if have is None else [have]), "buffer", lambda: f"after {log[-1]}: buffer {k} holds {got}, expected {have}", log): return
            if not rec.check(b.dm is mems[m][0], "buffer-memory", lambda: f"after {log[-1]}: buffer {k} has another memory", log): return
            st = (b.delay, None, None) if kind == "goal" else (n, None, []) if kind == "visual" else (b.finst, None, list(b.recent)) if kind == "location" else (b.finst, b.model_parameters, [ref.nchunk(x) for x in b.recent])
            if not rec.check(st == (n, p, recent), "buffer-settings", lambda: f"after {log[-1]}: buffer {k} has {st}, expected {(n, p, recent)}", log): return
    if len(log) >= 3: rec.seen(log)
    if idx < 16: rec.sample(log[:4])

def check(rec, mems, log):
    for k, (dm, sh) in enumerate(mems):
        keys = [ref.nchunk(c) for c in dm]
        have = {ref.nchunk(c): [float(x) for x in dm[c]] for c in dm}
        if not rec.check(len(dm) == len(sh) and len(keys) == len(set(keys)) and have == sh, "content", lambda: f"after {log[-1]}: memory {k} is {have}, expected {sh}", log): return False
    return True

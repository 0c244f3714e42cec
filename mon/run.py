#!/usr/bin/env python3
"""Driver: run.py Cxx [--replay FILE]. Seed and tier come from VERIF_SEED and VERIF_TIER."""
import os, sys, json, time, random, traceback, importlib, multiprocessing as mp, hashlib, signal, resource
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CASE_CPU = 60          # CPU seconds of one case before it counts as not terminating
WALL = {"quick": 420, "thorough": 780}

class CaseTimeout(BaseException):
    pass

class Rec:
    """what one case observed"""
    def __init__(self):
        self.counts = {}; self.keys = set(); self.samples = []; self.viol = []; self.inconcl = []
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n
    def seen(self, key):
        """a distinct non-trivial case"""
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())
    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s if isinstance(s, str) else repr(s))
    def violation(self, kind, msg, witness=None):
        self.viol.append((kind, msg, witness))
    def check(self, cond, kind, msg, witness=None):
        self.count("checks")
        if not cond:
            self.violation(kind, msg if isinstance(msg, str) else msg(), witness)
        return cond

def onalarm(sig, frame):
    raise CaseTimeout()

def repo_frames(e, repo):
    while e.__cause__ is not None:
        e = e.__cause__
    return [f"{os.path.basename(f.filename)}:{f.name}" for f in traceback.extract_tb(e.__traceback__) if os.path.abspath(f.filename).startswith(repo + "/pyactr")]

def one(mod, seed, idx, tier):
    """runs one case -> Rec"""
    import boot, obs, numpy
    rng = random.Random(f"{mod.PROPERTY}:{seed}:{idx}")
    numpy.random.seed(rng.getrandbits(32))
    rec = Rec()
    signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, "CASE_CPU", CASE_CPU))
    try:
        mod.case(rng, idx, rec, tier)
    except CaseTimeout:
        rec.violation("no-termination", f"the case did not finish within {CASE_CPU} s of CPU time")
    except obs.StepLimit:
        rec.violation("step-limit", "the simulation made more than 200000 kernel steps")
    except Exception as e:
        fr = repo_frames(e, boot.REPO)
        if fr:
            rec.violation(f"crash:{type(e).__name__}:{fr[-1].split(':')[-1]}", f"{type(e).__name__}: {e} in {' > '.join(fr[-4:])}", getattr(rec, "witness", None))
        elif isinstance(e, (TypeError, ValueError, KeyError, IndexError, AttributeError)):
            # what was observed does not have the form (kinds of values, buffers, events) that it has when the property holds: the monitor cannot read it
            f = traceback.extract_tb(e.__traceback__)[-1]
            rec.violation(f"unreadable:{type(e).__name__}:{f.name}", f"the monitor cannot read what it observed: {traceback.format_exc()[-1200:]}", getattr(rec, "witness", None))
        else:
            rec.error = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return rec

def worker(modname, seed, tier, w, nw, n, deadline, q):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        mod = importlib.import_module("props." + modname)
        agg = Rec(); done = 0; viols = []; stop = None; wall_cut = False
        for i in range(w, n, nw):
            if time.time() > deadline:
                wall_cut = True; break
            r = one(mod, seed, i, tier)
            done += 1
            for k, v in r.counts.items():
                agg.count(k, v)
            agg.keys |= r.keys
            if r.samples and len(agg.samples) < 2:
                agg.samples += r.samples[:1]
            if getattr(r, "error", None):
                stop = f"case {i}: {r.error}"; break
            for v in r.viol:
                viols.append((i,) + v)
            if len(viols) >= 400:
                break
        q.put((w, done, agg.counts, agg.keys, agg.samples, viols, stop, wall_cut))
    except BaseException:
        q.put((w, 0, {}, set(), [], [], traceback.format_exc(), False))

def load_known():
    known = {}
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p))["findings"]:
            known[(k["property"], k["kind"])] = k["what"]
    return known

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
    t0 = time.time()
    modname = prop.lower()
    if "--replay" in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        mod = importlib.import_module("props." + modname)
        r = one(mod, rp["seed"], rp["case"], rp["tier"])
        for v in r.viol: print(v[0], "|", v[1], "|", v[2] if len(v) > 2 else "")
        if getattr(r, "error", None): print(r.error)
        print("counts", r.counts)
        sys.exit(1 if r.viol else 0)
    try:
        mod = importlib.import_module("props." + modname)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    n = int(os.environ.get("VERIF_N") or mod.N[tier])
    deadline = t0 + WALL[tier]
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    ps = [ctx.Process(target=worker, args=(modname, seed, tier, w, WORKERS, n, deadline, q)) for w in range(WORKERS)]
    for p in ps: p.start()
    res = []
    while len(res) < len(ps):
        try:
            res.append(q.get(timeout=5))
        except Exception:
            if time.time() > deadline + 120 or all(not p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        p.join(5)
        if p.is_alive(): p.kill()
    counts, keys, samples, viols, errors, done, cut = {}, set(), [], [], [], 0, False
    for w, d, c, k, s, v, e, wc in sorted(res, key=lambda r: r[0]):
        done += d; keys |= k; samples += s; viols += v; cut |= wc
        for a, b in c.items(): counts[a] = counts.get(a, 0) + b
        if e: errors.append(e)
    if len(res) < len(ps):
        errors.append("a worker process died without reporting")
    known = load_known()
    new, old = [], {}
    for v in sorted(viols, key=lambda v: v[0]):
        if (prop, v[1]) in known: old.setdefault(v[1], []).append(v)
        else: new.append(v)
    missing = {k: (counts.get(k, 0), m) for k, m in getattr(mod, "REQUIRE", {}).items() if counts.get(k, 0) < m / 4}
    if os.environ.get("VERIF_N"): missing = {}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": done, "distinct_nontrivial": len(keys), "rule": mod.RULE, "samples": samples[:6] or ["-"],
                       "observed": dict(sorted(counts.items())), "cut_by_wall_clock": cut,
                       "known_findings_seen": {k: len(v) for k, v in old.items()}},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier} seed={seed}: {done} cases, {len(keys)} distinct non-trivial, {time.time()-t0:.1f} s, {dict(sorted(counts.items()))}")
    for k, vs in sorted(old.items()):
        print(f"KNOWN-FINDING: property={prop} {known[(prop, k)]} [{k}; seen {len(vs)} times]")
    if new:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        kinds = {}
        for v in new: kinds.setdefault(v[1], []).append(v)
        for k, vs in kinds.items():
            i, kind, msg, wit = vs[0]
            path = os.path.join(ROOT, "replays", f"{prop}-{seed}-{i}.json")
            json.dump({"property": prop, "seed": seed, "case": i, "tier": tier, "kind": kind, "message": str(msg), "witness": repr(wit)}, open(path, "w"), indent=1)
            print(f"  [{kind}] x{len(vs)} (case {i}): {str(msg)[:1500]}")
        print(f"VIOLATION property={prop} replay={os.path.join('replays', os.path.basename(path))}")
        sys.exit(1)
    if errors:
        print("ERROR (no verdict):", errors[0]); sys.exit(2)
    if missing:
        print("INCONCLUSIVE: the monitors observed too little:", missing); sys.exit(3)
    print("HELD on what was observed")
    sys.exit(0)

if __name__ == "__main__":
    main()

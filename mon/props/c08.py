"""C08: strict harvesting."""
import genmodel, monitors, ref
PROPERTY = "C08"
N = {"quick": 1000, "thorough": 40000}
RULE = ("a case is a random model (half of them going through a chain of steps so that buffers are filled, tested and left again and again; half with slow retrievals; every sixth a loop of steps whose variables have the names of buffers that other steps test) over 2-4 buffers with strict_harvesting on (3 of 4 cases) or off, run for 0.5-1 s; the tracker of C06/C07 requires a harvest of exactly the tested and unused "
        "buffers before the next conflict resolution and forbids any other clearing; distinct: (rule actions, buffers) at a firing")
REQUIRE = {"kept_for_extra_test": 100, "transitions": 10000, "harvests": 300, "firings": 10000, "firings_off": 1000, "named_tested_before": 100}
def named(rng):
    """steps that use variables with the names of buffers which other steps test"""
    con = ref.con; others = ["g2", "gthree"][:rng.choice([1, 2, 2])]; n = rng.choice([3, 4, 6, 8]); vals = ["x", "y", "z"]
    sp = {"params": {"strict_harvesting": rng.random() < .9}, "goals": {"g": 0, **{b: rng.choice([0, 0, 0, .02]) for b in others}}, "retrievals": [], "manual": False, "dm": [], "rules": [], "names": {},
          "init": {"g": ref.chunk_of({"a": "s0", "b": rng.choice(vals), "c": rng.choice(vals)}), **{b: ref.chunk_of({"a": rng.choice(vals)}) for b in others if rng.random() < .8}}}
    for i in range(n):
        g = {"a": con(val=f"s{i}")}; L = []; R = [("=", "g", ("ta", {"a": con(val=f"s{(i + 1) % n}"), **({rng.choice("bc"): con(val=rng.choice(vals))} if rng.random() < .3 else {})}))]
        for b in others:
            r = rng.random()
            if r < .35: g[rng.choice("bc")] = con(var=b)
            elif r < .75:
                L.append(("=", b, ("ta", {})))
                q = rng.random()
                if q < .5: R.append(("=", b, ("ta", {rng.choice("abc"): con(val=rng.choice(vals))})))
                elif q < .65: R.append(("+", b, ("ta", {rng.choice("abc"): con(val=rng.choice(vals))})))
            elif r < .9: R.append(("+", b, ("ta", {"a": con(val=rng.choice(vals))})))
        L.insert(rng.randrange(len(L) + 1), ("=", "g", ("ta", g))); rng.shuffle(R)
        sp["rules"].append({"name": f"s{i}", "lhs": L, "rhs": R, "utility": 5, "reward": None})
        sp["rules"].append({"name": f"on{i}", "lhs": [("=", "g", ("ta", {"a": con(val=f"s{i}")}))], "rhs": [("=", "g", ("ta", {"a": con(val=f"s{(i + 1) % n}")}))] + [("+", b, ("ta", {"a": con(val=rng.choice(vals))})) for b in others if rng.random() < .5], "utility": 0, "reward": None})
    return sp

def case(rng, idx, rec, tier):
    if idx % 6 == 4:
        sp = named(rng); rec.witness = genmodel.show(sp); rec.count("named")
        h = monitors.run(sp, 1.0, want_dm=True)
        tested = set()
        for r in h.log:
            if r.kind == "event" and r.action.startswith("RULE FIRED: "):
                f = h.rules[r.action[len("RULE FIRED: "):]]; now = {b for k, b, _ in f["lhs"] if k == "="}
                used = {v for k, _, x in f["lhs"] if k == "=" for c in x[1].values() for v in (c.var,) if v}
                rec.count("named_tested_before", sum(1 for v in used - now if v in tested and r.snap.bufs.get(v) is not None and not any(b == v for _, b, _ in f["rhs"])))
                tested |= now
        monitors.effects(h, rec)
        return
    sp = (genmodel.chain_spec if idx % 2 else genmodel.random_spec)(rng, g2=.9, g3=.5, retrieval=.8, retr2=.3, strict=.75, bufvars=.3, extra=True)
    if sp["retrievals"] and rng.random() < .5:
        sp["params"].update(subsymbolic=True, retrieval_threshold=-10.0, baselevel_learning=False, latency_factor=rng.choice([.05, .12, .3]))
    rec.witness = genmodel.show(sp)
    h = monitors.run(sp, rng.choice([.5, 1.0]), want_dm=True)
    monitors.effects(h, rec)
    if not sp["params"].get("strict_harvesting"): rec.count("firings_off", rec.counts.get("firings", 0))
    if idx < 16: rec.sample(rec.witness)

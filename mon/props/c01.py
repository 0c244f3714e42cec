"""C01: pattern acceptance and binding against the reference matcher, over chains of patterns and chunks."""
import ref, gen
from boot import pyactr
PROPERTY = "C01"
N = {"quick": 24000, "thorough": 400000}
RULE = ("a case is a chain of 1-4 random (pattern, chunk) pairs sharing bindings the way rule tests do (values, negated values, variables, "
        "negated variables, nested chunks, empty slots, multi-letter variable names, patterns written as strings or built directly), each decided by the "
        "reference matcher; non-trivial: the pattern has at least one constraint; distinct by pattern, chunk and prior bindings")
REQUIRE = {"accepted": 5000, "rejected": 5000, "bound": 2000, "rejected_by_binding": 500}

def case(rng, idx, rec, tier):
    gen.types()
    vars = rng.sample(gen.VARS, rng.choice([2, 3, 4]))
    strs = rng.sample(gen.STR, rng.choice([2, 3, 5]))
    nested = rng.choice([0, 0, .3])
    b, excl, pb = {}, {}, {}
    wit = []
    for k in range(rng.choice([1, 1, 2, 3, 4])):
        t, rc = gen.chunk(rng, nested=nested, strs=strs)
        if rng.random() < .1: rc = frozenset()
        pt = rng.choice([t, t, rng.choice(list(gen.TYPES))])
        slots = rng.choice([gen.TYPES[pt], gen.TYPES[pt], gen.SLOTS[:5]])
        if pt == "te" and slots is not gen.TYPES[pt]: pt = "tc"
        if not set(slots) <= set(gen.TYPES[pt]): pt = "tc"
        pat = gen.pattern(rng, slots, rc, vars, strs, nested, bias=rng.choice([.5, .9, .97]), pneg=rng.choice([0, .1, .3]))
        ptyp = rng.choice([pt, pt, ""]) if pat else pt
        ch = gen.make(rng, rc, typ=t)
        pp = gen.make_pattern(rng, ptyp or pt, pat)
        direct = ref.match(pat, rc, {}, {})
        want = ref.match(pat, rc, b, excl)
        before = ref.nchunk(ch)
        pp.boundvars = dict(pb)
        wit.append((sorted(pat.items(), key=repr), ref_show(rc), {x: ref_show(v) for x, v in b.items()}))
        rec.witness = wit
        got = pp <= ch
        if pat:
            rec.seen((sorted(map(repr, pat.items())), sorted(map(repr, rc)), sorted(map(repr, b.items()))))
        rec.count("accepted" if want else "rejected")
        if not want and direct: rec.count("rejected_by_binding")
        if not rec.check(bool(got) == (want is not None), "accept" if got else "reject",
                         lambda: f"pattern {pp} (bindings {b}) {'accepts' if got else 'rejects'} chunk {ch}, reference says {'accept' if want else 'reject'}", wit):
            return
        rec.check(ref.nchunk(ch) == before, "mutated", "matching changed the chunk", wit)
        if want is None:
            return
        nb = {}
        for key, v in pp.boundvars.items():
            if key.startswith("="):
                nb[key[1:]] = ref.norm(v)
        rec.count("bound", len([x for x in want[0] if x not in b]))
        if not rec.check(nb == want[0], "bindings", lambda: f"after matching {pp} with {ch}: bindings {nb}, reference {want[0]} (before: {b})", wit):
            return
        # matching once more with the bindings found gives the same answer
        again = pp <= ch
        nb2 = {key[1:]: ref.norm(v) for key, v in pp.boundvars.items() if key.startswith("=")}
        rec.check(bool(again) and nb2 == nb, "unstable", lambda: f"matching {pp} with {ch} again gives {again}, {nb2}", wit)
        b, excl = want
        pb = dict(pp.boundvars)
    if len(rec.samples) == 0 and idx < 16:
        rec.sample(wit)

def ref_show(v):
    return sorted(map(repr, v)) if isinstance(v, frozenset) else v

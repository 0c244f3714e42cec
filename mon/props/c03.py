"""C03: chunk and rule strings mean what they say."""
import pyparsing
import ref, gen, genmodel
from ref import con
from boot import pyactr
from pyactr import chunks as C, utilities as U
PROPERTY = "C03"
TECHNIQUE = "random texts with known meaning parsed by the real reader and compared with the meaning; corrupted texts must be rejected"
N = {"quick": 8000, "thorough": 150000}
RULE = ("a case is a random chunk description or rule (known meaning as plain data) printed with random layout, quoting, order of slots and of constraints, parsed by chunkstring/productionstring and "
        "compared part by part; one case in three is a text corrupted so that it leaves the grammar or gives a slot two values or variables, which must raise; distinct by text")
REQUIRE = {"chunks": 2000, "rules": 1000, "rejected": 1500, "named_chunks": 300, "quoted": 500, "relative": 300}
SLOTS = ["a", "b", "c", "d_1", "Zslot", "x9", "isb", "value", "slot_long_name", "u_"]
WORDS = ["one", "two", "3", "10", "a_b", "A", "x", "None1", "free", "isa2", "zz9"]
PUNCT = ["1.5", "a-b", "x:y", "50%", "a,b", "*", "p|q", "$5", "a&b", "`q", "-3", "..", "x.y.z"]
QUOTED = ["two words", "a = b", "~x", "=y", "==>", "it>", "a  b", "x!y", "50 %", "(paren)", "ünï", "+g>", " edge", "edge ", "  both ", "it's", 'say "hi"', "'in'", '"']

def rnd_value(rng, rec, names):
    """(reference value, text)"""
    k = rng.random()
    if k < .5:
        v = rng.choice(WORDS); return v, v
    if k < .65:
        v = rng.choice(PUNCT); return v, v
    if k < .8:
        v = rng.choice(QUOTED + WORDS); q = rng.choice([x for x in ['"', "'"] if x not in v]); rec.count("quoted")
        return v, q + v + q
    if k < .92:
        rc = ref.chunk_of({"a": rng.choice(WORDS), "b": rng.choice(WORDS)}); n = gen.fresh("Ch")
        C.makechunk(n, "ta", **dict(rc)); rec.count("named_chunks"); return rc, n
    return "None", "None"

def rnd_con(rng, rec, lhs=True):
    """(Con, list of texts)"""
    val = var = None; nv, nvar, txt = [], [], []
    if rng.random() < .06:          # relative values, used in visual search
        val = rng.choice("<>"); rec.count("relative")
        if rng.random() < .5:
            var = rng.choice(["x", "y", "long_var"]); txt.append(val + "=" + var)
        else:
            t = rng.choice(["120", "5", "x1"]); txt.append(val + t); val += t
    elif rng.random() < .6:
        val, t = rnd_value(rng, rec, None); txt.append(t)
    if not (isinstance(val, str) and val[0] in "<>") and rng.random() < (.35 if val else .8) and lhs:
        var = rng.choice(["x", "y", "long_var", "x1", "A"]); txt.append("=" + var)
    while rng.random() < .2 and lhs:
        n = rng.choice(WORDS + ["q" + w for w in WORDS])
        if n in nv or n == val: continue
        nv.append(n); txt.append("~" + (rng.choice(['"%s"', "'%s'"]) % n if rng.random() < .2 else n))
    while rng.random() < .2 and lhs:
        n = rng.choice(["x", "y", "z1", "long_var"])
        if n not in nvar: nvar.append(n); txt.append("~=" + n)
    if not txt:
        val, t = rnd_value(rng, rec, None); txt.append(t)
    return con(val, var, nv, nvar), txt

def rnd_desc(rng, rec, lhs=True, maxslots=4):
    """(type, {slot: Con}, [tokens]) ; tokens = list of (slot, text)"""
    typ = rng.choice(["", "sometype", "t_2", "other3"])
    pat, toks = {}, []
    for s in rng.sample(SLOTS, rng.randint(1 if not typ else 0, maxslots)):
        pat[s], t = rnd_con(rng, rec, lhs)
        toks += [(s, x) for x in t]
    if typ: toks.append(("isa", typ))
    rng.shuffle(toks)
    return typ, pat, toks

def ws(rng):
    return rng.choice([" ", " ", "\n", "  ", "\t", "\n    ", " \n\n "])

def text(rng, toks):
    return "".join(s + ws(rng) + t + ws(rng) for s, t in toks)

def vv(x):
    """slot value of a parsed chunk -> comparable"""
    if hasattr(x, "_fields") and "negvalues" in x._fields:
        n = lambda v: ref.nchunk(v) if isinstance(v, C.Chunk) else v
        v = n(x.values)
        return (None if v is None else v, x.variables, frozenset(n(y) for y in x.negvalues), frozenset(x.negvariables))
    return None

def meaning(pat):
    return {s: (c.val, c.var, frozenset(c.negvals), frozenset(c.negvars)) for s, c in pat.items()}

def cmp_chunk(rec, ch, typ, pat, txt):
    have = {s: vv(v) for s, v in ch}
    have = {s: v for s, v in have.items() if v is not None}
    ok = have == meaning(pat) and (ch.typename == typ if typ else ch.typename.startswith("undefined"))
    rec.check(ok, "meaning", lambda: f"text {txt!r} is read as type {ch.typename!r} {have}, but says type {typ!r} {meaning(pat)}", txt)

def rejected(rec, f, txt, what):
    rec.count("rejected")
    try:
        r = f()
    except (U.ACTRError, pyparsing.ParseBaseException):
        return
    rec.check(False, "accepted-illegal", f"{what}: {txt!r} was accepted as {r!r}", txt)

def case(rng, idx, rec, tier):
    gen.types()
    k = idx % 6
    if k in (0, 1):
        typ, pat, toks = rnd_desc(rng, rec)
        txt = ws(rng) * rng.choice([0, 1]) + text(rng, toks).rstrip() + ws(rng) * rng.choice([0, 1])
        rec.witness = txt; rec.seen(txt); rec.count("chunks")
        name = gen.fresh("N") if rng.random() < .3 else ""
        ch = C.chunkstring(name=name, string=txt) if rng.random() < .5 else pyactr.chunkstring(name=name, string=txt)
        cmp_chunk(rec, ch, typ, pat, txt)
        if name and pat and all(c.var is None and not c.negvals and not c.negvars for c in pat.values()):
            outer = C.chunkstring(string=f"isa holder inner {name}")
            rec.check(outer.inner.values is ch or outer.inner.values == ch, "named", lambda: f"bare word {name} does not denote the chunk {ch}: {outer!r}", txt)
            q = C.chunkstring(string=f"isa holder inner '{name}'")
            rec.check(q.inner.values == name, "named", lambda: f"quoted word {name} is not the string: {q!r}", txt)
        if idx < 12: rec.sample(txt)
    elif k in (2, 3):
        rule(rng, rec, idx)
    elif k == 4:
        typ, pat, toks = rnd_desc(rng, rec)
        how = rng.choice(["twovalues", "twovars", "dangling", "badchar", "unbalanced", "empty", "novalue"])
        if how == "twovalues":
            s = rng.choice(SLOTS); toks = [t for t in toks if t[0] != s] + [(s, "w1"), (s, rng.choice(["w2", "'w 2'", ">5", "<5", ">=v3", "<=v3"]))]; rng.shuffle(toks); txt = text(rng, toks)
        elif how == "twovars":
            s = rng.choice(SLOTS); toks = [t for t in toks if t[0] != s] + [(s, x) for x in rng.sample(["=v1", "=v2", ">=v3", "<=v4", "=v5"], 2)]; rng.shuffle(toks); txt = text(rng, toks)
        elif how == "dangling": txt = text(rng, toks) + rng.choice(SLOTS)
        elif how == "novalue": txt = text(rng, toks) + "a" + rng.choice([" =", " ~", " ~=", ' "open'])
        elif how == "badchar": txt = text(rng, toks) + "a " + rng.choice(["(x", "x;y z", "x?y z", "x z#", "[x]", "@x", "!x", "x)"])
        elif how == "unbalanced": txt = text(rng, toks) + "a " + rng.choice(['"open', "'open", '"mixed\'']) 
        else: txt = rng.choice(["", "   ", "\n"])
        rec.witness = (how, txt); rec.seen((how, txt))
        rejected(rec, lambda: C.chunkstring(string=txt), txt, how)
    else:
        m = pyactr.ACTRModel()
        how = rng.choice(["noarrow", "norhs", "nolhs", "badprefixL", "badprefixR", "twovalues", "twovars", "nobracket", "dangling", "twovaluesR", "garbage"])
        good = "=g> isa ta a x"
        txt = {"noarrow": good + " =g> isa ta a y", "norhs": good + " ==>", "nolhs": "==> =g> isa ta a y", "badprefixL": f"{rng.choice('+~!@*')}g> isa ta a x ==> =g> isa ta a y",
               "badprefixR": good + " ==> %g> isa ta a y", "twovalues": "=g> isa ta a x a y ==> =g> isa ta a z", "twovars": "=g> isa ta a =x a =y ==> =g> isa ta a z",
               "nobracket": "=g isa ta a x ==> =g> isa ta a y", "dangling": good + " b ==> =g> isa ta a y", "twovaluesR": good + " ==> =g> isa ta b u b v",
               "garbage": good + " ==> =g> isa ta a y " + rng.choice(["==>", "; x", ") y", "a", "=> x"])}[how]
        def go():
            r = m.productionstring(name=rng.choice(["r", "other"]), string=txt)
            g = m.productions[list(m.productions)[0]]["rule"]()
            return next(g), next(g)
        rec.witness = (how, txt); rec.seen((how, txt))
        rejected(rec, go, txt, how)

def rule(rng, rec, idx):
    m = pyactr.ACTRModel()
    L, R, txt = {}, {}, []
    def section(codes, keep, lhs):
        parts = []
        bufs = ["g", "g2", "retrieval", "manual", "visual_location", "imaginal"]
        n = rng.choice([1, 1, 2, 3, 4])
        while len(keep) < n:
            code, b = rng.choice(codes), rng.choice(bufs)
            if code + b in keep: continue
            sp = rng.choice(["", "", " "])
            head = code + b + ">" + ws(rng)
            if code == "?":
                d = {rng.choice(["state", "buffer", "preparation", "recently_retrieved"]): rng.choice(["free", "busy", "full", "False"]) for _ in range(rng.choice([1, 2]))}
                keep[code + b] = ("query", d); parts.append(head + text(rng, list(d.items())))
            elif code == "~":
                keep[code + b] = ("clear", None); parts.append(head)
            elif code == "!":
                keep[code + b] = ("exec", [["show", "a"]]); parts.append(head + "show" + ws(rng) + "a" + ws(rng))
            else:
                typ, pat, toks = rnd_desc(rng, rec, lhs=True, maxslots=3)
                keep[code + b] = ("chunk", typ, pat); parts.append(head + text(rng, toks))
        return "".join(parts)
    t = section(["=", "=", "?"], L, True) + "==>" + ws(rng) + section(["=", "+", "~", "@", "*", "?", "!"], R, False)
    t = ws(rng) * rng.choice([0, 1]) + t
    name = rng.choice(["r1", "some rule", "rule-x", ""])
    util, rew = rng.choice([0, 3, -1.5]), rng.choice([None, 5, 0])
    rec.witness = t; rec.seen(t); rec.count("rules")
    pr = m.productionstring(name=name, string=t, utility=util, reward=rew)
    if not rec.check(len(m.productions) == 1, "registered", lambda: f"rules {list(m.productions)} after defining {name!r}", t): return
    key = list(m.productions)[0]
    if name: rec.check(key == name, "name", lambda: f"rule {name!r} is registered as {key!r}", t)
    p = m.productions[key]
    rec.check(p["utility"] == util and p["reward"] == rew, "utility", lambda: f"utility/reward {p['utility']}/{p['reward']} given {util}/{rew}", t)
    for round_ in range(2):      # a rule is read anew every time it is tried
        g = p["rule"]()
        for side, want in (("condition", L), ("action", R)):
            got = next(g)
            if not rec.check(set(got) == set(want), "parts", lambda: f"{side} of {t!r} has parts {list(got)}, written {list(want)}", t): return
            for k, w in want.items():
                if w[0] == "query": rec.check(dict(got[k]) == w[1], "query", lambda: f"{side} {k} of {t!r} is {got[k]}, written {w[1]}", t)
                elif w[0] == "clear": rec.check(got[k] is None, "clear", lambda: f"{side} {k} is {got[k]}", t)
                elif w[0] == "exec": rec.check([list(x) for x in got[k]] == w[1], "execute", lambda: f"{side} {k} is {got[k]}", t)
                else: cmp_chunk(rec, got[k], w[1], w[2], f"{side} {k} of: {t}")
    if idx < 12: rec.sample(t)

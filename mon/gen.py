"""Random chunks, patterns and their construction in pyactr (from reference data)."""
import boot
from boot import pyactr
import ref
from ref import con, Con
from pyactr import chunks as C, utilities as U

SLOTS = ["a", "b", "c", "d", "e", "long_slot", "a1"]
TYPES = {"ta": ["a", "b", "c"], "tb": ["b", "c", "d"], "tc": ["a", "b", "c", "d", "e"], "td": ["a1", "a", "long_slot"], "te": ["e"]}
STR = ["one", "two", "three", "x", "y", "v_4", "10", "7", "0", "1.5"]
VARS = ["x", "y", "z", "xy", "xx", "yx", "long_name", "x1", "x2"]
_done = set()
def types():
    if not _done:
        for t, s in TYPES.items():
            C.chunktype(t, s)
        _done.add(1)

def value(rng, depth=0, strs=STR, nested=0.25):
    if depth < 2 and rng.random() < nested:
        return chunk(rng, depth + 1, slots=SLOTS[:4], nested=nested)[1]
    return rng.choice(strs)

def chunk(rng, depth=0, slots=None, p=0.75, nested=0.25, strs=STR):
    """(type, reference chunk)"""
    t = rng.choice(list(TYPES))
    m = {}
    for s in TYPES[t]:
        if rng.random() < p:
            m[s] = value(rng, depth, strs, nested)
    if depth and not m:
        m[TYPES[t][0]] = rng.choice(strs)
    return t, ref.chunk_of(m)

def tofit(rng, rc):
    """a type declaring all slots of a reference chunk"""
    names = {s for s, _ in rc}
    fit = [t for t, s in TYPES.items() if names <= set(s)]
    return rng.choice(fit) if fit else None

_cnt = [0]
def fresh(p="ck"):
    _cnt[0] += 1
    return f"{p}{_cnt[0]}nm"

def pyval(rng, v, route=None):
    """a reference value -> something pyactr accepts in a slot"""
    if v is None:
        return rng.choice([None, "None"])
    if isinstance(v, frozenset):
        return make(rng, v)
    return v

def make(rng, rc, typ=None, route=None, empties=None):
    """a reference chunk -> pyactr chunk, by a random construction route"""
    types()
    typ = typ or tofit(rng, rc) or "tx_" + "_".join(sorted(s for s, _ in rc))
    d = dict(rc)
    items = list(d.items())
    rng.shuffle(items)
    route = route or rng.choice(["makechunk", "Chunk", "string", "Chunk_vv", "makechunk"])
    if empties is None:
        empties = rng.random() < 0.4
    extra = [s for s in TYPES.get(typ, []) if s not in d] if empties else []
    if route == "string":
        parts = []
        for s, v in items:
            if isinstance(v, frozenset):
                n = fresh()
                C.makechunk(n, **_mk(rng, v))
                parts.append(f"{s} {n}")
            else:
                parts.append(f"{s} {quote(rng, v)}")
        for s in extra:
            if rng.random() < .5: parts.append(f"{s} None")
        parts.append(f"isa {typ}")
        rng.shuffle(parts)
        if parts:
            return C.chunkstring(string=rng.choice([" ", "\n", "  \t "]).join(parts))
    kw = {}
    for s, v in items:
        kw[s] = pyval(rng, v)
        if route == "Chunk_vv":
            kw[s] = U.VarvalClass(values=kw[s], variables=None, negvalues=(), negvariables=())
    for s in extra:
        if rng.random() < .5 and route != "Chunk_vv": kw[s] = rng.choice([None, "None"])
    if route == "makechunk":
        return C.makechunk(fresh() if rng.random() < .3 else "", typ, **kw)
    return C.Chunk(typ, **kw)

def _mk(rng, rc):
    typ = tofit(rng, rc) or "tx_" + "_".join(sorted(s for s, _ in rc))
    return dict(typename=typ, **{s: pyval(rng, v) for s, v in sorted(rc, key=lambda x: x[0])})

def quote(rng, v):
    if rng.random() < .25:
        q = rng.choice(['"', "'"])
        return q + v + q
    return v

# ------------------------------------------------------------------ patterns
def pattern(rng, slots, chunk=None, vars=VARS, strs=STR, nested=0.2, pmention=0.6, ppos=0.5, pneg=0.25, bias=0.7):
    """a random pattern; with 'chunk', values are biased towards making it hold"""
    pat = {}
    for s in slots:
        if rng.random() > pmention:
            continue
        have = ref.get(chunk, s) if chunk is not None else None
        def val(hit):
            if hit and chunk is not None:
                return have if have is not None else "None"
            if rng.random() < .12:
                return "None"
            return value(rng, 1, strs, nested)
        v = var = None
        r = rng.random()
        if r < .4:
            v = val(rng.random() < bias)
        elif r < .4 + ppos:
            var = rng.choice(vars)
            if rng.random() < .08:
                v = val(rng.random() < bias)
        nv, nvar = [], []
        while rng.random() < pneg and len(nv) < 3:
            nv.append(val(rng.random() < (1 - bias) * .5))
        while rng.random() < pneg and len(nvar) < 3:
            nvar.append(rng.choice(vars))
        if v is None and var is None and not nv and not nvar:
            continue
        pat[s] = con(v, var, tuple(dict.fromkeys(nv)), tuple(dict.fromkeys(nvar)))
    return pat

def names_for(rng, pat, names):
    """creates named chunks for the nested values of a pattern; names: ref chunk -> name"""
    for c in pat.values():
        for v in [c.val] + list(c.negvals):
            if isinstance(v, frozenset) and v not in names:
                n = fresh()
                C.makechunk(n, **_mk(rng, v))
                names[v] = n
    return names

def make_pattern(rng, typ, pat, route=None):
    """reference pattern -> pyactr Chunk"""
    types()
    route = route or rng.choice(["string", "vv", "bang"])
    if any(isinstance(v, frozenset) for c in pat.values() for v in (c.val,) + c.negvals) and route == "bang":
        route = "vv"
    if route == "string" and any(not isinstance(v, frozenset) and not v.replace("_", "").isalnum() for c in pat.values() for v in c.negvals):
        route = "vv"
    if route == "string" and (pat or typ):
        names = names_for(rng, pat, {})
        order = list(pat); rng.shuffle(order)
        parts = []
        for s in order:
            parts += ref.cons_text(s, pat[s], names)
        if typ: parts.append("isa " + typ)
        rng.shuffle(parts)
        return C.chunkstring(string=" ".join(parts))
    kw = {}
    for s, c in pat.items():
        if route == "bang":
            t = ""
            if c.var is not None: t += "=" + c.var
            if c.val is not None: t += "!" + c.val
            for n in c.negvals: t += "~!" + n
            for n in c.negvars: t += "~=" + n
            kw[s] = t
        else:
            kw[s] = U.VarvalClass(values=pyval(rng, c.val) if c.val is not None else None, variables=c.var,
                                  negvalues=tuple(pyval(rng, n) if n != "None" else "None" for n in c.negvals), negvariables=tuple(c.negvars))
    return C.Chunk(typ or "tc", **kw)

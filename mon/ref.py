"""Independent reference semantics, written from the documentation. Works on plain data:
a chunk is a frozenset of (slot, value) for its non-empty slots; a value is a str or (nested chunk) a frozenset;
an empty value is None. A pattern is {slot: Con}."""
import math
from collections import namedtuple

Con = namedtuple("Con", "val var negvals negvars")
def con(val=None, var=None, negvals=(), negvars=()):
    return Con(val, var, tuple(negvals), tuple(negvars))

NONE = "None"     # the way an empty value is written

def norm(v):
    """the value of a pyactr slot -> reference value"""
    if v is None:
        return None
    if isinstance(v, frozenset):
        return v
    if isinstance(v, str):
        return None if v == NONE else v
    if hasattr(v, "_fields") and "negvalues" in v._fields:
        return norm(v.values)
    if hasattr(v, "actrchunk") or (hasattr(v, "typename") and hasattr(v, "boundvars")):
        return nchunk(v)
    if v == None:       # EmptyValue
        return None
    return str(v)

def nchunk(c):
    """a pyactr chunk -> reference chunk"""
    out = []
    for slot, v in c:
        n = norm(v)
        if n is not None:
            out.append((slot, n))
    return frozenset(out)

def lit(v):
    return None if v == NONE else v

def get(chunk, slot):
    for s, v in chunk:
        if s == slot:
            return v
    return None

def match(pattern, chunk, b=None, excl=None):
    """None, or (bindings, exclusions): the pattern accepts the chunk. Order-independent."""
    b = dict(b or {}); excl = {k: set(v) for k, v in (excl or {}).items()}
    for slot, c in pattern.items():
        v = get(chunk, slot)
        if c.val is not None and lit(c.val) != v:
            return None
        for n in c.negvals:
            if lit(n) == v:
                return None
        if c.var is not None:
            if c.var in b:
                if b[c.var] != v:
                    return None
            else:
                b[c.var] = v
    for slot, c in pattern.items():
        v = get(chunk, slot)
        for n in c.negvars:
            excl.setdefault(n, set()).add(v)
    for x, vs in excl.items():
        if x in b and b[x] in vs:
            return None
    return b, excl

def violated(pattern, chunk, b):
    """constraints of a request (all variables bound in b) that chunk violates, as (kind, slot, wanted, actual)"""
    out = []
    for slot, c in pattern.items():
        v = get(chunk, slot)
        if c.val is not None and lit(c.val) != v:
            out.append(("value", slot, lit(c.val), v))
        if c.var is not None and b[c.var] != v:
            out.append(("var", slot, b[c.var], v))
        for n in c.negvals:
            if lit(n) == v:
                out.append(("negvalue", slot, lit(n), v))
        for n in c.negvars:
            if b[n] == v:
                out.append(("negvar", slot, b[n], v))
    return out

def subst(pattern, b):
    """the slot->value mapping an action describes (None = empty)"""
    out = {}
    for slot, c in pattern.items():
        if c.val is not None:
            out[slot] = lit(c.val)
        elif c.var is not None:
            out[slot] = b[c.var]
    return out

def chunk_of(mapping):
    return frozenset((s, v) for s, v in mapping.items() if v is not None)

def modified(chunk, mapping):
    d = dict(chunk)
    d.update(mapping)
    return chunk_of(d)

# ---------------------------------------------------------------- rules
def lhs(rule, bufs, states, names=None):
    """None, or the bindings under which the rule's whole condition holds.
    bufs: name -> chunk or None; states: name -> {query: value}"""
    b, excl = {}, {}
    for code, buf, payload in rule["lhs"]:
        if code == "=":
            c = bufs.get(buf)
            if c is None:
                return None
            if rule.get("bufvars") and (b.get(buf, c) != c or c in excl.get(buf, ())):
                return None
            r = match(payload[1], c, b, excl)
            if r is None:
                return None
            b, excl = r
            if rule.get("bufvars"): b[buf] = c       # a variable with the name of a tested buffer stands for the chunk in it
        else:
            for q, want in payload.items():
                if q == "buffer":
                    if want == "full":
                        if bufs.get(buf) is None: return None
                    elif want == "empty":
                        if bufs.get(buf) is not None: return None
                    else:
                        return None
                elif states[buf].get(q) != want:
                    return None
    return b

# ---------------------------------------------------------------- equations
def rt(t):
    return round(t, 4)

def baselevel(now, times, bll, decay, activation=None, optimized=False):
    """documented base-level equation; presentations at 'now' do not contribute. None if there is nothing to compute"""
    B = None
    if not bll:
        B = 0.0
    else:
        past = [float(t) for t in times if float(t) < now]
        if past:
            if optimized:
                B = math.log(len(past) / (1 - decay)) - decay * math.log(now - max(past))
            else:
                B = math.log(sum((now - t) ** (-decay) for t in past))
    if activation is not None:
        B = activation if B is None else math.log(math.exp(B) + math.exp(activation))
    return B

def sources(chunk, only_chunks):
    return [(s, v) for s, v in sorted(chunk, key=lambda x: x[0]) if v is not None and (not only_chunks or isinstance(v, frozenset))]

def strength(j, jslot, i, dm, S, restricted, only_chunks):
    """S - ln((1 + occurrences of j in dm)/max(1, occurrences of j in i)) or 0"""
    si = sources(i, only_chunks)
    if restricted:
        if (jslot, j) not in si:
            return 0.0
        occ = sum(1 for c in dm for s, v in c if s == jslot and v == j)
    else:
        if j != i and j not in [v for _, v in si]:
            return 0.0
        occ = sum(1 for c in dm for s, v in c if v == j)
    fij = sum(1 for _, v in si if v == j)
    return S - math.log((1 + occ) / max(1, fij))

def spreading(i, bufs, dm, weights, S, restricted, only_chunks):
    tot = 0.0
    for name, W in weights.items():
        c = bufs.get(name)
        if c is None:
            continue
        src = sources(c, only_chunks)
        if not src:
            continue
        tot += W / len(src) * sum(strength(v, s, i, dm, S, restricted, only_chunks) for s, v in src)
    return tot

def latency(A, F, f):
    return F * math.exp(-A * f)

# ---------------------------------------------------------------- printing
def pval(v, names=None):
    return v

def cons_text(slot, c, names=None):
    out = []
    nm = lambda v: (names or {}).get(v, v)
    if c.val in ("<", ">"): return [f"{slot} {c.val}={c.var}"]
    if c.val is not None: out.append(f"{slot} {nm(c.val)}")
    if c.var is not None: out.append(f"{slot} ={c.var}")
    for n in c.negvals: out.append(f"{slot} ~{nm(n)}")
    for n in c.negvars: out.append(f"{slot} ~={n}")
    return out

def pattern_text(typ, pattern, names=None, order=None, sep=" "):
    parts = [f"isa {typ}"] if typ else []
    for slot in (order or pattern):
        parts += cons_text(slot, pattern[slot], names)
    return sep.join(parts)

def rule_text(rule, names=None):
    out = []
    for code, buf, payload in rule["lhs"]:
        if code == "=":
            out.append(f"={buf}> " + pattern_text(payload[0], payload[1], names))
        else:
            out.append(f"?{buf}> " + " ".join(f"{k} {v}" for k, v in payload.items()))
    out.append("==>")
    for code, buf, payload in rule["rhs"]:
        if code == "~":
            out.append(f"~{buf}>")
        elif code == "?":
            out.append(f"?{buf}> " + " ".join(f"{k} {v}" for k, v in payload.items()))
        elif code == "!":
            out.append(f"!{buf}> " + payload)
        else:
            out.append(f"{code}{buf}> " + pattern_text(payload[0], payload[1], names))
    return "\n".join(out)

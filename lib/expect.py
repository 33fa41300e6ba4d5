"""Reading abstract results: named fields, expected linear forms, expected slices of the input."""
from absint import L, ladd, lconst, lneg
from probe import eq0
from models import val


def payload(key, v):
    """the decoded value of an Ok exit: results of *_ber/_der are pairs (rest, value)"""
    if v is not None and v[0] == 'agg' and v[1] == '()' and len(v[3]) == 2:
        return v[3][1]
    return None


def field(o, v, name, variant=None):
    """named field of a struct (or of an enum variant) value, None when not known"""
    if v is None:
        return None
    v = val(o.E, None, v) if v[0] == 'rv' else v
    if v[0] != 'agg':
        return None
    ad = o.E.F.adts.get(v[1])
    if ad is None:
        return None
    vs = ad['variants'][v[2]]
    if variant is not None and vs['name'] != variant:
        return None
    for i, f in enumerate(vs['fields']):
        if (f['name'] if isinstance(f, dict) else f) == name:
            return v[3][i] if i < len(v[3]) else None
    return None


def variant(o, v):
    if v is None:
        return None
    while v[0] == 'rv':
        v = v[1]
    if v[0] != 'agg':
        return None
    ad = o.E.F.adts.get(v[1])
    if ad is None:
        return {('std::option::Option', 0): 'None', ('std::option::Option', 1): 'Some'}.get((v[1], v[2]))
    return ad['variants'][v[2]]['name']


def leaf(v):
    """through references and aggregates with one field"""
    while v is not None:
        if v[0] == 'rv':
            v = v[1]
        elif v[0] == 'agg' and len(v[3]) == 1 and v[1] != '[]':
            v = v[3][0]
        else:
            break
    return v


def byte(o, s, i):
    """linear form of input byte i"""
    from models import u8ty
    return o.E.vint(o.E.elem(o.inp, L(i), u8ty(o.E)))


def number(o, v, s=None):
    v = leaf(v)
    if v is not None and v[0] == 'b' and s is not None:
        h = o.E.holds(s, o.E.vbool(v))
        if h is not None:
            return L(int(h))
    if v is None or v[0] not in ('i', 'b'):
        return None
    return o.E.vint(v)


def is_lin(o, s, v, lin):
    n = number(o, v, s)
    return n is not None and eq0(o.E, s, o.E.folded(s, ladd(n, o.E.folded(s, lin), -1)))


def be(o, s, a, b):
    """big endian number made of input bytes a..b-1"""
    r = L(0)
    for i in range(a, b):
        r = ladd((r[0] * 256, tuple((t, c * 256) for t, c in r[1])), byte(o, s, i))
    return r


def is_slice(o, s, v, a, b):
    """v is exactly the input bytes [a, b)"""
    E = o.E
    v = leaf(v)
    sl = E.as_slice(v) if v is not None else None
    if sl is None and v is not None and v[0] == 'agg' and v[1] == 'input::Input':
        sl = leaf(v[3][0])
        sl = E.as_slice(sl) if sl is not None else None
    if sl is None:
        return False
    if eq0(E, s, E.folded(s, ladd(sl[3], sl[2], -1))) and eq0(E, s, E.folded(s, ladd(b, a, -1))):
        return True
    if sl[1] != o.inp[1]:
        return False
    return eq0(E, s, E.folded(s, ladd(ladd(sl[2], o.inp[2], -1), a, -1))) and \
        eq0(E, s, E.folded(s, ladd(ladd(sl[3], o.inp[2], -1), b, -1)))


def text(v, n=160):
    return str(v)[:n]

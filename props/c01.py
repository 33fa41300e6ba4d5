"""C01: a collection decodes to exactly its elements, each by the rules asked for, or not at all."""
import itertools
import base, witness
import run as drv
from models import val, sl_of
from absint import L, ladd, lconst
from witness import U, A, C, P, LEAF
from g01 import El, CONTENT, agrees
from matrix import *
from expect import *


def good(kind, n=0):
    """an element of the kind, the expectation of its value"""
    if kind == 'any':
        e = [El(U, 0, 2, [ALL]), El(C, 1, 5, [El(U, 0, 4, [ALL, ALL])]), El(A, 0, 40, [ALL, ALL, ALL]), El(U, 0, 4, [])][n % 4]
        return e, ('any', e)
    if kind == 'oct':
        e = El(U, 0, 4, [ALL] * [2, 0, 130][n % 3])
        return e, ('slice', e, len(e.content))
    e = El(U, 0, LEAF[kind][1], CONTENT[kind](n % 2 == 0))
    return e, ('bool', n % 2 == 0) if kind == 'bool' else ('num', e, len(e.content))


class Raw(El):
    """octets in place of an element"""
    def __init__(self, octets):
        El.__init__(self, U, 0, 0, [])
        self.octets = octets

    def full(self):
        return len(self.octets)

    def masks(self, out, at):
        out += self.octets


class Open(El):
    """an element of indefinite length"""
    def full(self):
        return len(self.ident()) + 1 + self.size() + 2

    def masks(self, out, at):
        out += self.ident() + [bits(0x80)]
        at[id(self)] = len(out)
        for x in self.content:
            x.masks(out, at) if isinstance(x, El) else out.append(x)
        out += [bits(0), bits(0)]


def bad(kind, rules):
    """(name, element, is an object all the same): elements that are none of the kind"""
    e = good(kind)[0]
    if kind != 'any':
        yield 'of another type', e.but(num=12), True
        if kind != 'oct' or rules == 'der':
            yield 'constructed', e.but(con=1, content=[e]), True
        if kind != 'oct':
            yield 'empty', e.but(content=[]), True
        if kind == 'u8':
            yield 'too large', e.but(content=[rng(1, 127), ALL]), True
            yield 'negative', e.but(content=[rng(128, 255)]), True
        if kind == 'bool' and rules == 'der':
            yield 'a BOOLEAN DER forbids', e.but(content=[rng(1, 254)]), True
    if rules == 'der':
        yield 'of indefinite length', Open(U, 1, 16 if kind == 'any' else e.num, [good('u8')[0]]), False


def broken():
    """what ends within an object"""
    yield 'only an identifier', Raw([bits(2)])
    yield 'an object cut short', Raw([bits(4), bits(3), ALL])
    yield 'a reserved length', Raw([bits(2), bits(255), ALL])


def cases(c):
    """(name, elements, values or None if it must be rejected, what each `next` says)"""
    kinds = c.elem if isinstance(c.elem, tuple) else None
    if kinds:
        full = [good(k, n) for n, k in enumerate(kinds)]
        els = [e for e, _ in full]
        yield 'all elements', els, [w for _, w in full], None
        for p, k in enumerate(kinds):
            yield 'without element %d' % p, els[:p] + els[p + 1:], None, None
            for name, e, _ in bad(k, c.rules):
                yield 'element %d %s' % (p, name), els[:p] + [e] + els[p + 1:], None, None
        for name, e in broken():
            yield 'then ' + name, els[:-1] + [e], None, None
        return
    for n in range(4):
        full = [good(c.elem, k) for k in range(n)]
        ok = n == 2 or c.shape != 'two'
        yield '%d elements' % n, [e for e, _ in full], [w for _, w in full] if ok else None, [True] * n
    if c.elem in ('u8', 'bool') and c.rules == 'ber' and c.elem == 'bool':
        e = El(U, 0, 1, [rng(1, 255)])
        yield 'a BOOLEAN only BER has', [e, good('bool', 1)[0]], [('bool', True), ('bool', False)], [True, True]
    if c.elem == 'any' and c.rules == 'ber':
        e, f, g = Open(C, 1, 3, [good('oct')[0], good('any', 1)[0]]), good('any')[0], good('any', 2)[0]
        yield 'an element of indefinite length', [f, e, g], [('any', f), ('any', e), ('any', g)], [True] * 3
    n = 2 if c.shape == 'two' else 3
    full = [good(c.elem, k) for k in range(n)]
    els = [e for e, _ in full]
    for p in range(n):
        for name, e, obj in bad(c.elem, c.rules):
            yield 'element %d %s' % (p, name), els[:p] + [e] + els[p + 1:], None, [True] * p + [False] if not obj or c.elem != 'any' else None
        for name, e in broken():
            yield 'element %d %s' % (p, name), els[:p] + [e], None, [True] * p + [False]


def same_any(o, s, v, e, at):
    v = leaf1(v)
    h, d = field(o, v, 'header'), field(o, v, 'data')
    out = []
    if h is None or d is None:
        return ['is not known']
    for name, want in (('class', e.cls), ('constructed', e.con), ('tag', e.num)):
        x = field(o, h, name)
        if name == 'class':
            x = x if x is None or x[0] != 'rv' else x[1]
            if x is None or x[0] != 'agg' or x[2] != want:
                out.append('has another class')
        elif not is_lin(o, s, x, L(want)):
            out.append('has another ' + ('form' if name == 'constructed' else 'tag number'))
    if not is_slice(o, s, d, L(at[id(e)]), L(at[id(e)] + e.size())):
        out.append('holds other octets')
    return out


def leaf1(v):
    while v[0] == 'rv':
        v = v[1]
    return v


def elements(o, s, v):
    """the elements of a collection value, in order, or None"""
    E = o.E
    v = leaf1(v)
    for _ in range(4):
        if v[0] == 'agg' and v[1] not in ('std::vec::Vec', 'std::collections::BTreeSet', 'std::collections::HashSet', '[]', '()'):
            if len(v[3]) != 1:
                return None
            v = leaf1(v[3][0])
    if v[0] == 'agg' and v[1] in ('[]', '()'):
        return list(v[3])
    sl = v[3][0] if v[0] == 'agg' and v[1].startswith('std::collections::') else sl_of(E, s, v)
    if sl is None or sl[0] != 'sl':
        return None
    n, a = lconst(E.folded(s, ladd(sl[3], sl[2], -1))), lconst(sl[2])
    if n is None or a is None or n > 64:
        return None
    if n and sl[1][0] not in ('arrv', 'const'):
        return None
    return list(sl[1][1][a:a + n]) if sl[1][0] == 'arrv' else []


def compare(o, s, xs, want, at, shape):
    if len(xs) != len(want):
        return ['%d elements for %d' % (len(xs), len(want))]

    def one(x, w):
        return same_any(o, s, x, w[1], at) if w[0] == 'any' else agrees(o, s, x, w, at)
    best = None
    for perm in (itertools.permutations(range(len(xs))) if shape == 'set' else [range(len(xs))]):
        b = ['element %d %s' % (k, t) for k, p in enumerate(perm) for t in one(xs[p], want[k])]
        if not b:
            return []
        best = best or b
    return best


def decide_case(F, iid, c, els, want, nexts, outer):
    out, at = [], {}
    if outer is None:
        for e in els:
            e.masks(out, at)
    else:
        outer.masks(out, at)
    rules = MRules()
    rules.peel, rules.loopstates, rules.collects = 16, 16, True
    o = probe(F, iid, dict(enumerate(out)), exactlen=len(out) if outer is None else None, rules=rules)
    if o.err:
        return ['undecided: ' + o.err]
    if not o.exits:
        return ['no exit']
    res = set()
    for s, v in o.exits:
        v = leaf1(v)
        if c.shape == 'steps':
            xs = elements(o, s, v)
            if xs is None:
                return ['what it yields is not known']
            seq = []
            for x in xs:
                x = leaf1(x)
                if x[0] != 'agg' or x[1] != 'std::option::Option':
                    return ['what it yields is not known']
                h = o.E.holds(s, o.E.vbool(x[3][0])) if x[2] == 1 else 'end'
                if h is None:
                    return ['it is not known whether it yields an error']
                seq.append(h)
            w = (nexts + ['end'] * 5)[:5]
            if seq != w:
                res.add('yields %s for %s' % (seq, w))
            continue
        if v[0] != 'agg' or v[1] != 'std::option::Option':
            return ['the result is not known']
        if v[2] == 0:
            if want is not None:
                res.add('is rejected')
            continue
        if want is None:
            res.add('is accepted')
        elif c.shape != 'check':
            xs = elements(o, s, v[3][0])
            res |= set(['the elements are not known'] if xs is None else compare(o, s, xs, want, at, c.shape))
    return sorted(res)


def run():
    F = base.facts('derive')
    rep = base.Report('C01', 'proof')
    fns = {f['path'].split('::')[-1]: f['inst'] for f in F.fns.values() if witness.MOD in f['path'] and drv.has_body(F, f.get('inst'))}
    items = []
    for n, c in enumerate(witness.collections()):
        iid = fns['coll_%d' % n]
        for name, els, want, nexts in cases(c):
            if c.shape == 'steps' and nexts is None:
                continue
            if c.shape in ('check', 'untyped') and 'another type' in name or c.shape == 'check' and name.endswith(('negative', 'too large')):
                continue            # these look at the contents of the elements only
            if c.tag is None:
                items.append((c, iid, name, els, want, nexts, None))
                continue
            outer = El(U, 1, c.tag or 16, els)
            items.append((c, iid, name, els, want, nexts, outer))
            if c.rules == 'ber' and not isinstance(c.elem, tuple) and want is not None:
                items.append((c, iid, name + ', indefinite length', els, want, nexts, Open(U, 1, c.tag or 16, els)))
            if want is not None and len(els) == 2 and c.tag:
                items.append((c, iid, 'tag of another type', els, None, nexts, outer.but(num=33 - c.tag)))
                items.append((c, iid, 'primitive', els, None, nexts, outer.but(con=0)))

    def work(k):
        c, iid, name, els, want, nexts, outer = items[k]
        return decide_case(F, iid, c, els, want, nexts, outer)
    for k, r, exc in base.pmap(work, range(len(items))):
        c, iid, name = items[k][:3]
        rep.obligations += 1
        where = '%s %s|%s' % (c.name, '(%s)' % ', '.join(c.elem) if isinstance(c.elem, tuple) else c.elem, name)
        if exc:
            rep.violate(where + '|undecided', '%s: %s' % (c.name, exc.strip().splitlines()[-1]))
            continue
        rep.discharged += not r
        for t in r:
            rep.violate(where, '%s, reached through <%s>, input <%s>: %s' % (c.name, c.body, name, t))
    rep.floor('input classes', len(items), 1500)
    rep.rules = ['each way to decode a collection yields exactly the elements of the input, in order, or rejects it; oracle: cases() in props/c01.py']
    return rep

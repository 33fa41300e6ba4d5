"""S01: an input that ends before the object does is answered with Incomplete."""
import base
from matrix import *
from tagtab import *

METHODS = ('from_ber', 'from_der', 'parse_ber', 'parse_der')
OTHERS = ('Any', 'Header', 'Input', 'Tag')


def octets(o, n):
    return [o.E.vint(o.E.elem(o.inp, L(i), u8ty(o.E))) for i in range(n)]


def shorter(length):
    """the input ends before header + length (a function of the octets)"""
    def setup(E, inst, args, st, sl):
        b = lambda i: E.vint(E.elem(sl, L(i), u8ty(E)))
        if not E.add_le(st, ladd(ladd(slen(sl), L(1)), length(b), -1)):
            raise base.CheckError('contradictory input class')
    return setup


def incomplete(o):
    if not o.exits:
        return ['no exit']
    bad = []
    if o.ok():
        bad.append('accepted: %d successful exit(s) remain possible' % len(o.ok()))
    for v, s in o.errs():
        if v is None:
            continue
        if not (v[0] == 'agg' and v[1] == 'nom::Err' and v[2] == 0):
            bad.append('answered with an error' + why(o))
            break
    return bad


def whole(length):
    def setup(E, inst, args, st, sl):
        b = lambda i: E.vint(E.elem(sl, L(i), u8ty(E)))
        if not E.add_le(st, ladd(length(b), slen(sl), -1)):
            raise base.CheckError('contradictory input class')
    return setup


def never(o):
    if not o.exits:
        return ['no exit']
    for v, s in o.errs():
        if v is None or v[0] != 'agg' or v[1] != 'nom::Err' or v[2] == 0:
            return ['may be answered with Incomplete although the object is complete']
    return []


def classes(t, form):
    b0 = bits(t | form)
    yield 'nothing', {}, 0, None
    yield 'identifier only', {0: b0}, 1, None
    yield 'short length', {0: b0, 1: rng(1, 127)}, None, lambda b: ladd(L(2), b(1))
    for n in (1, 2, 3, 4):
        f = lambda b, n=n: __import__('functools').reduce(lambda a, i: ladd(a, b(2 + i), 256 ** (n - 1 - i)), range(n), L(2 + n))
        c = {0: b0, 1: bits(0x80 + n), 2: rng(128 if n == 1 else 1, 255)}
        c.update({2 + i: ALL for i in range(1, n)})
        yield '%d length octets' % n, c, None, f
        for k in range(n):
            yield '%d of %d length octets' % (k, n), {0: b0, 1: bits(0x80 + n), **{2 + i: rng(128 if n == 1 else 1, 255) for i in range(k)}}, 2 + k, None


LOW = bits(*[x for x in range(256) if x & 31 != 31])
HIGH = bits(*[x for x in range(256) if x & 31 == 31])
MORE = rng(129, 255)


def others(k, items):
    for name, cls, exact, length in classes(0, 0):
        if 0 in cls:
            cls = dict(cls)
            cls[0] = LOW
        if k[0] == 'Option<T>' and not cls:
            continue
        if k[0] == 'Header' and exact is None:
            continue
        if k[0] == 'Option<T>' and exact is None:
            continue
        kw = dict(exactlen=exact) if exact is not None else dict(setup=shorter(length))
        items.append(Item(k, name, cls, incomplete, opaque=PDV, **kw))
    for n in range(5):
        items.append(Item(k, '%d octets of a long identifier' % (n + 1), {0: HIGH, **{i + 1: MORE for i in range(n)}}, 'reject', exactlen=n + 1))
    items.append(Item(k, 'long identifier, no length', {0: HIGH, 1: rng(31, 127)}, incomplete, exactlen=2))
    items.append(Item(k, 'long identifier, length cut', {0: HIGH, 1: rng(31, 127), 2: bits(0x82), 3: ALL}, incomplete, exactlen=4))
    if k[0] == 'Any':
        items.append(Item(k, 'complete', {0: LOW, 1: rng(0, 127)}, never, setup=whole(lambda b: ladd(L(2), b(1)))))


def run():
    F = base.facts('nd')
    rep = base.Report('S01', 'proof')
    ep = entry_points(F, METHODS)
    items = []
    for k in sorted(ep):
        t = tag_of(k)
        if t is None:
            if k[0] in ('Any', 'Header') or k[0].startswith('TaggedParser') or k == ('Option<T>', 'parse_ber') or k == ('Option<T>', 'parse_der'):
                others(k, items)
            continue
        if k[0] not in CONSTRUCTED:
            items.append(Item(k, 'complete', {0: bits(t), 1: rng(0, 127)}, never, opaque=PDV, setup=whole(lambda b: ladd(L(2), b(1)))))
            if k[0] in STRINGS:
                items.append(Item(k, 'complete, constructed, segment cut', {0: bits(t | 32), 1: bits(3), 2: bits(4), 3: rng(2, 127)}, never, peel=16, minlen=5))
        for name, cls, exact, length in classes(t, 32 * (k[0] in CONSTRUCTED)):
            kw = dict(exactlen=exact) if exact is not None else dict(setup=shorter(length))
            items.append(Item(k, name, cls, incomplete, opaque=PDV, **kw))
    run_items(F, rep, ep, items)
    rep.coverage['counts']['decoders'] = len({i.key for i in items})
    rep.floor('input classes', len(items), 3000)
    rep.floor('types', len({i.key[0] for i in items}), 55)
    rep.rules = ['every exit for an input shorter than header + length is Err(Incomplete)']
    return rep

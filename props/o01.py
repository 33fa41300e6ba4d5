"""O01: the arcs of an object identifier are those its octets encode (X.690 8.19, 8.20), in both directions."""
import base, witness
import run as drv
from models import sl_of
from absint import L, ladd, lconst
from objs import digit, compose
from matrix import *
from expect import *

HI, CONT, LAST = rng(0x81, 0xff), rng(0x80, 0xff), rng(0, 0x7f)


class ORules(MRules):
    peel = loopstates = 24
    collects = True

    def focus(self, *a):
        return True

    def use_summary(self, *a):
        return False


def leaf1(v):
    while v[0] == 'rv':
        v = v[1]
    return v


def sub(n, top=None):
    """masks of a sub-identifier of n octets"""
    if n == 1:
        return [top or LAST]
    return [top or HI] + [CONT] * (n - 2) + [LAST]


def value(E, sl, masks, at, n):
    """the number the n octets of a sub-identifier stand for"""
    v = L(0)
    for j in range(at, at + n):
        b = E.vint(E.elem(sl, L(j), u8ty(E)))
        v = ladd(v, ladd(b, L(-128 if j < at + n - 1 else 0)), 128 ** (at + n - 1 - j))
    return v


def options(v, n):
    """[value or None] of an array of n options"""
    v = leaf1(v)
    if v[0] != 'agg' or v[1] != '[]' or len(v[3]) != n:
        return None
    out = []
    for x in v[3]:
        x = leaf1(x)
        if x[0] != 'agg' or x[1] != 'std::option::Option':
            return None
        out.append(x[3][0] if x[2] == 1 else None)
    return out


def match(E, s, got, want):
    if got is None:
        return ['what it yields is not known']
    n = next((k for k, x in enumerate(got) if x is None), len(got))
    if any(x is not None for x in got[n:]):
        return ['yields arcs after the end']
    if n != len(want):
        return ['yields %d arcs for %d' % (n, len(want))]
    return ['arc %d is wrong' % k for k, (x, w) in enumerate(zip(got, want)) if x[0] != 'i' or not eq0(E, s, ladd(E.vint(x), w, -1))]


FIRST = [('0.y', [rng(0, 39)], 0), ('1.y', [rng(40, 79)], 1), ('2.y, one octet', [rng(80, 127)], 2), ('2.y, two octets', sub(2), 2),
         ('2.y, three octets', sub(3), 2), ('2.y, nine octets', sub(9), 2), ('2.y, 64 bits', sub(10, bits(0x81)), 2)]
TAILS = [[], [1], [2], [1, 1], [3, 1, 2], [9], [1, 10]]
WIDE = [('66 bits in the middle', [1, 10, 1], 1), ('of 11 octets', [11], 0), ('of 10 octets at the end', [2, 10], 1)]


def read_cases():
    """(name, kind, masks, sub-identifiers [(offset, octets)], first arc)"""
    for name, first, x in FIRST:
        for t in TAILS:
            ms, subs = list(first), [(0, len(first))]
            for n in t:
                subs.append((len(ms), n))
                ms += sub(n, bits(0x81) if n == 10 else None)
            if len(first) + len(ms) > 24 and t:
                continue
            if x == 0 and not t:
                ms = [rng(1, 39)]           # 0 alone is how the crate writes the single arc 0
            yield '%s, then %s' % (name, t), 'abs', ms, subs, x
    for t in TAILS[1:] + [[1] * 4, [2, 1, 2, 1]]:
        ms, subs = [], []
        for n in t:
            subs.append((len(ms), n))
            ms += sub(n, bits(0x81) if n == 10 else None)
        yield 'sub-identifiers of %s octets' % t, 'rel', ms, subs, None


def arcs(E, sl, ms, subs, x):
    vs = [value(E, sl, ms, a, n) for a, n in subs]
    return vs if x is None else [L(x), ladd(vs[0], L(-40 * x))] + vs[1:]


ARC = [('one octet', 1), ('two octets', 2), ('three octets', 3), ('five octets', 5), ('nine octets', 9), ('64 bits', 10)]


def arc_digits(E, key, n):
    """digits base 128 of an arc whose sub-identifier takes n octets"""
    if n == 1:
        return [digit(E, (key, 0), 0, 127)]
    if n == 10:
        return [L(1)] + [digit(E, (key, k), 0, 127) for k in range(1, 10)]
    return [digit(E, (key, 0), 1, 127)] + [digit(E, (key, k), 0, 127) for k in range(1, n)]


def build_cases():
    """(name, kind, number of arcs, setup(E) -> ([arcs], [octets] or None if it must be refused))"""
    def seq(E, ns, off=0):
        ds = [arc_digits(E, 'a%d' % (k + off), n) for k, n in enumerate(ns)]
        return [compose(d, 128) for d in ds], [o for d in ds for o in [ladd(x, L(128)) for x in d[:-1]] + d[-1:]]
    lists = [[n] for _, n in ARC] + [[1, 1], [2, 1], [1, 3], [2, 2], [1, 10], [1, 2, 1]]
    for ns in lists:
        yield 'arcs of %s octets' % ns, 'rel', len(ns), (lambda E, ns=ns: seq(E, ns))
    for x in (0, 1):
        for ns in [[]] + lists:
            def mk(E, ns=ns, x=x):
                y = digit(E, ('y',), 0 if x or ns else 1, 39)     # 0.0 is the octet of the single arc 0
                a, o = seq(E, ns)
                return [L(x), y] + a, [ladd(y, L(40 * x))] + o
            yield '%d.y, then arcs of %s octets' % (x, ns), 'abs', 2 + len(ns), mk

        def refuse(E, x=x):
            return [L(x), E.alin(('y',), 40, (1 << 64) - 1)], None
        yield '%d.y, y from 40' % x, 'abs', 2, refuse
        yield '%d.y, y from 40, then one' % x, 'abs', 3, lambda E, f=refuse: (f(E)[0] + [digit(E, ('z',), 0, 127)], None)

    for ns in [[], [1], [3]]:
        def low(E, ns=ns):
            y = digit(E, ('y',), 0, 47)
            a, o = seq(E, ns)
            return [L(2), y] + a, [ladd(y, L(80))] + o
        yield '2.y, y below 48, then arcs of %s octets' % ns, 'abs', 2 + len(ns), low
        for n in (2, 3, 9, 10):
            def high(E, ns=ns, n=n):
                a, o = seq(E, [n] + ns)
                return [L(2), ladd(a[0], L(-80))] + a[1:], o
            yield '2.y, 80 + y of %d octets, then arcs of %s octets' % (n, ns), 'abs', 2 + len(ns), high
    yield '2.y, 80 + y above 64 bits', 'abs', 2, lambda E: ([L(2), E.alin(('y',), (1 << 64) - 80, (1 << 64) - 1)], None)
    for n in (2, 3):
        yield 'first arc above 2, %d arcs' % n, 'abs', n, lambda E, n=n: (
            [E.alin(('x',), 3, (1 << 64) - 1)] + [E.alin(('y', k), 0, (1 << 64) - 1) for k in range(n - 1)], None)
    yield 'a single arc', 'abs', 1, lambda E: ([E.alin(('x',), 1, (1 << 64) - 1)], None)


def decide_read(F, fns, case, what):
    name, kind, ms, subs, x = case
    out = []
    fn = 'oid_iter_' + kind if what == 'iter' else 'oid_fits_' + kind if what == 'fits' else 'oid_len_%s_%d' % (kind, what)
    o = probe(F, fns[fn], dict(enumerate(ms)), fixed=len(ms), rules=ORules())
    if o.err:
        return ['undecided: ' + o.err]
    if not o.exits:
        return ['no exit']
    E = o.E
    res = set()
    sl = o.inp
    total = len(subs) + (x is not None)
    for s, v in o.exits:
        v = leaf1(v)
        if what == 'fits':
            if E.holds(s, E.vbool(v)) is not False:
                res.add('yields arcs although one of them needs more than 64 bits')
            continue
        if v[0] != 'agg' or v[1] != 'std::option::Option':
            return ['the result is not known']
        if v[2] == 0:
            res.add('yields nothing although every arc fits in 64 bits')
        elif what == 'iter':
            want = arcs(E, sl, ms, subs, x)
            res |= set(match(E, s, options(v[3][0], 5), want[:5]) if len(want) <= 5 else ['case too long'])
        else:
            n, lo, hi = leaf1(v[3][0])[3]
            want = L(max(total - what, 0))
            for t, g in (('len', n), ('lower bound of size_hint', lo), ('upper bound of size_hint', hi[3][0] if hi[0] == 'agg' and hi[2] == 1 else None)):
                if t[0] == 'u' and g is None or g[0] == 'i' and eq0(E, s, ladd(E.vint(g), want, -1)) or t[0] == 'l' and t[1] == 'o' and g[0] == 'i' and eq0(E, s, E.vint(g)):
                    continue
                res.add('after %d calls of next, %s is not %d' % (what, t, max(total - what, 0)))
    return sorted(res)


def dec_cases():
    """(decoder, name, octets, relative or None if it must be rejected)"""
    for name in witness.OID_DECODERS:
        loose = not name.startswith(('from', 'parse', 'try'))      # take the content of any object
        kinds = [13] if 'relative' in name else [6] if name in ('oid', 'as_oid') else [6, 13]
        for tag in kinds if loose else (6, 13):
            for t in ([1], [3], [2, 1], [1, 1, 10]):
                body = [m for n in t for m in sub(n)]
                yield name, 'tag %d, sub-identifiers of %s octets' % (tag, t), [bits(tag), bits(len(body))] + body, tag == 13 if tag in kinds else None
        if loose:
            continue
        yield name, 'constructed', [bits(kinds[0] | 32), bits(3), bits(kinds[0]), bits(1), LAST], None
        yield name, 'of another type', [bits(4), bits(1), LAST], None


def same_octets(E, s, v, sl, a, n, rel):
    v = leaf1(v)
    if v[0] != 'agg' or v[1].rsplit('::', 1)[-1] != 'Oid':
        return ['the result is not known']
    out = []
    if E.holds(s, E.vbool(leaf1(v[3][1]))) is not rel:
        out.append('is not known to be %s' % ('relative' if rel else 'absolute'))
    got = sl_of(E, s, v[3][0])
    if got is None or not eq0(E, s, ladd(ladd(got[3], got[2], -1), L(-n))):
        return out + ['has not the number of octets it was made of']
    if any(not eq0(E, s, ladd(E.vint(E.elem(got, L(k), u8ty(E))), E.vint(E.elem(sl, L(a + k), u8ty(E))), -1)) for k in range(n)):
        out.append('has other octets')
    return out


def decide_dec(F, fns, case, what):
    fn, name, ms, rel = case
    o = probe(F, fns['oid_dec_' + fn], dict(enumerate(ms)), fixed=len(ms), rules=ORules())
    if o.err:
        return ['undecided: ' + o.err]
    res = set() if o.exits else {'no exit'}
    for s, v in o.exits:
        v = leaf1(v)
        if v[0] != 'agg' or v[1] != 'std::option::Option':
            return ['the result is not known']
        if v[2] == 0 or rel is None:
            if (v[2] == 0) != (rel is None):
                res.add('is accepted' if v[2] else 'is rejected')
            continue
        res |= set(same_octets(o.E, s, v[3][0], o.inp, 2, len(ms) - 2, rel))
    return sorted(res)


def decide_owned(F, fns, case, what):
    kind, n = case[1], case[2]
    o = probe(F, fns['oid_owned_' + kind], {}, fixed=n, rules=ORules())
    if o.err or not o.exits:
        return ['undecided: %s' % o.err]
    return sorted({t for s, v in o.exits for t in same_octets(o.E, s, v, o.inp, 0, n, kind == 'rel')})


def prefix_cases():
    a, b = [5, 0x81, 7], [9, 0x82, 3, 1]
    for n in range(4):
        for long in (a, b):
            yield 'prefix of %d octets' % n, n, long[:n] + long, True
            yield 'itself, %d octets' % n, n, long[:n] + long[:n], True
            for k in range(n):
                yield 'octet %d of %d differs' % (k, n), n, long[:k] + [long[k] ^ 1] + long[k + 1:n] + long, False
            if n:
                yield 'longer by one than the identifier', n, long[:n] + long[:n - 1], False


def decide_prefix(F, fns, case, what):
    name, n, octs, want = case[0], case[2], case[3], case[4]
    o = probe(F, fns['oid_prefix_%s_%d' % (case[1], n)], dict(enumerate(bits(x) for x in octs)), fixed=len(octs), rules=ORules())
    if o.err or not o.exits:
        return ['undecided: %s' % o.err]
    return sorted({'is not %s' % want for s, v in o.exits if o.E.holds(s, o.E.vbool(leaf1(v))) is not want})


def decide_build(F, fns, case, what):
    name, kind, n, mk = case
    got = {}

    def prep(E, inst, args, st):
        a, octs = mk(E)
        got['want'] = (a, octs)
        return [('i', x) for x in a], st
    E, rs, args, err = drv.run_root(F, fns['oid_%s_%s_%d' % (what, kind, n)], ORules(), 200000, prep)
    if err:
        return ['undecided: ' + err]
    if not rs:
        return ['no exit']
    a, octs = got['want']
    res = set()
    for s, v in rs:
        v = leaf1(v)
        if v[0] != 'agg' or v[1] != 'std::option::Option':
            return ['the result is not known']
        if v[2] == 0:
            if octs is not None:
                res.add('is refused')
            continue
        if octs is None:
            res.add('is not refused')
            continue
        v = leaf1(v[3][0])
        if what == 'round':
            if v[0] != 'agg' or v[1] != 'std::option::Option' or v[2] != 1:
                res.add('its arcs are not read back')
                continue
            res |= set('read back: ' + t for t in match(E, s, options(v[3][0], 6), a))
            continue
        rel = leaf1(v[3][1])
        if v[1].rsplit('::', 1)[-1] != 'Oid' or E.holds(s, E.vbool(rel)) is not (kind == 'rel'):
            res.add('is not known to be %s' % ('relative' if kind == 'rel' else 'absolute'))
        sl = sl_of(E, s, v[3][0])
        ln = lconst(E.folded(s, ladd(sl[3], sl[2], -1))) if sl is not None else None
        if ln != len(octs):
            res.add('%s octets for %d' % (ln, len(octs)))
            continue
        res |= set('octet %d is wrong' % k for k, w in enumerate(octs)
                   if not eq0(E, s, ladd(E.vint(E.elem(sl, L(k), u8ty(E))), w, -1)))
    return sorted(res)


def run():
    F = base.facts('derive')
    rep = base.Report('O01', 'proof')
    fns = {f['path'].split('::')[-1]: f['inst'] for f in F.fns.values() if witness.MOD in f['path'] and drv.has_body(F, f.get('inst'))}
    items = []
    for c in read_cases():
        if len(c[3]) + (c[4] is not None) <= 5:
            items.append((decide_read, c, 'iter'))
        items += [(decide_read, c, k) for k in range(4)]
    for name, t, _ in WIDE:
        ms = [m for n in t for m in sub(n, rng(0x84, 0xff) if n == 10 else None)]
        for kind in ('abs', 'rel'):
            m = ([rng(1, 79)] if kind == 'abs' else []) + ms
            items.append((decide_read, (name, kind, m, [], None), 'fits'))
    items.append((decide_read, ('first sub-identifier of 70 bits', 'abs', sub(10, HI & ~rng(0, 0x83)) + [LAST], [], None), 'fits'))
    for fn, name, ms, rel in dec_cases():
        items.append((decide_dec, (fn, name, ms, rel), 'dec'))
    for kind in ('abs', 'rel'):
        items += [(decide_owned, ('%d octets' % n, kind, n), 'owned') for n in (0, 1, 2, 5)]
        items += [(decide_prefix, (name, kind, n, ms, w), 'prefix') for name, n, ms, w in prefix_cases()]
    for c in build_cases():
        items += [(decide_build, c, w) for w in ('from', 'round')]

    def work(k):
        f, c, what = items[k]
        return f(F, fns, c, what)
    for k, r, exc in base.pmap(work, range(len(items))):
        f, c, what = items[k]
        rep.obligations += 1
        call = {'iter': 'Oid::iter', 'fits': 'Oid::iter', 'from': 'Oid::from%s', 'round': 'Oid::from%s, then Oid::iter'}.get(what, 'the iterator of Oid::iter')
        call = call.replace('%s', '_relative' if c[1] == 'rel' else '')
        call = {'dec': c[0], 'owned': 'Oid::to_owned', 'prefix': 'Oid::starts_with'}.get(what, call)
        if what == 'dec':
            c = (c[1], 'rel' if 'relative' in c[0] else 'abs')
        where = '%s|%s, %s|%s' % (call, c[1], c[0], what)
        if exc:
            rep.violate(where + '|undecided', '%s: %s' % (call, exc.strip().splitlines()[-1]))
            continue
        rep.discharged += not r
        for t in r:
            rep.violate(where, 'src/asn1_types/oid.rs, %s, %s object identifier <%s>: %s' % (
                call, 'relative' if c[1] == 'rel' else 'absolute', c[0], t))
    rep.floor('input classes', len(items), 250)
    rep.rules = ['the arcs yielded are the numbers X.690 8.19 reads from the octets, and building from arcs gives those octets back, for every input of a class']
    return rep

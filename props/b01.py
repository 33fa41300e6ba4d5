"""B01: a decoded object occupies exactly the bytes its header declares; the rest is handed back untouched."""
import os, re
import base
from probe import *

# content decoders too large to follow for every header class; framing does not depend on what they return
OPAQUE = re.compile(r'embedded_pdv::EmbeddedPdv.*::from_(ber|der)_content$')


class Rules(ProbeRules):
    def on_call(self, E, fd, path, args, atys, rty, s, fr, tag, t):
        if OPAQUE.search(path):
            return E.opaque(path, fd, args, rty, s, fr, tag)


METHODS = ('from_ber', 'from_der', 'parse_ber', 'parse_der')
LOW = bits(*[x for x in range(256) if x & 31 != 31])
# header classes with the number of bytes the object then takes: (name, bytes, length as a linear form of the bytes)
CLASSES = [
    ('short form', {0: LOW, 1: rng(0, 127)}, lambda b: ladd(L(2), b(1))),
    ('one length byte', {0: LOW, 1: bits(0x81), 2: ALL}, lambda b: ladd(L(3), b(2))),
    ('two length bytes', {0: LOW, 1: bits(0x82), 2: ALL, 3: ALL},
     lambda b: ladd(ladd(L(4), b(3)), b(2), 256)),
    ('two tag bytes', {0: bits(*[x for x in range(256) if x & 31 == 31]), 1: rng(0, 127), 2: rng(0, 127)},
     lambda b: ladd(L(3), b(2))),
]


def rem_slice(E, s, v):
    if v is None or v[0] != 'agg' or len(v[3]) != 2:
        return None
    r = val(E, s, v[3][0])
    if r[0] == 'agg' and r[1] == 'input::Input':
        return sl_of(E, s, r[3][0])
    return E.as_slice(r)


def proj_of_call(base):
    return base[0] == 's' and 'proj' in str(base)


def span_ok(E, s, v, inp, args):
    """for `Input` remainders: the position moves with the data"""
    r = val(E, s, v[3][0])
    if r[0] != 'agg' or r[1] != 'input::Input':
        return True
    i = next(val(E, s, a) for a in args if val(E, s, a)[0] == 'agg' and val(E, s, a)[1] == 'input::Input')

    def parts(x):
        sp = x[3][1]
        return sl_of(E, s, x[3][0]), E.vint(sp[3][0]), E.vint(sp[3][1])
    d0, s0, e0 = parts(i)
    d1, s1, e1 = parts(r)
    return eq0(E, s, ladd(ladd(s1, s0, -1), ladd(d1[2], d0[2], -1), -1)) and eq0(E, s, ladd(e1, e0, -1))


def job(F, key, iid, name, cls, want):
    bad = []
    o = probe(F, iid, cls, rules=Rules())
    E = o.E
    if o.err:
        return [(name, 'undecided: ' + o.err)], 0
    n = 0
    for v, s in o.ok():
        sl = rem_slice(E, s, v)
        if sl is None:
            bad.append((name, 'the remainder returned is not a slice of the input'))
            continue
        b = lambda i: E.vint(E.elem(o.inp, L(i), u8ty(E)))
        w = want(b) if key[0] != 'Header' else L(0)
        n += 1
        if key[0] == 'Option<T>' and key[1].startswith('from_') and v[3][1][2:3] == (1,) and proj_of_call(sl[1]):
            continue        # handed on from the decoder of T
        if sl[1] != o.inp[1] or not eq0(E, s, ladd(sl[3], o.inp[3], -1)):
            bad.append((name, 'the remainder does not end where the input ends'))
            continue
        d = ladd(sl[2], o.inp[2], -1)
        x = v[3][1]
        if key[0] == 'Option<T>' and x[0] == 'agg' and x[2] == 0:
            w = L(0)
        if key[0] == 'Header':
            w = {'short form': L(2), 'one length byte': L(3), 'two length bytes': L(4), 'two tag bytes': L(3)}[name]
        if not eq0(E, s, ladd(d, w, -1)):
            if key[0] == 'Option<T>' and x[0] != 'agg' and eq0(E, s, d):
                continue
            bad.append((name, 'the remainder does not start right after the declared contents (starts at input+%s)'
                        % show(E, d)))
            continue
        if not span_ok(E, s, v, o.inp, o.args):
            bad.append((name, 'position of the remainder is not consistent with its data'))
    return bad, n


def show(E, l):
    return ' + '.join([str(l[0])] + ['%d*%s' % (c, str(E.atoms[a][0])[:60]) for a, c in l[1]])


# indefinite form: (name, bytes, where the object ends)
LOWTAG = bits(*[x for x in range(1, 256) if x & 31 != 31])
CONS = bits(*[x for x in range(256) if x & 31 != 31 and x & 0x20])
I0 = {0: CONS, 1: bits(0x80)}
INDEF = [
    ('empty', {**I0, 2: bits(0), 3: bits(0)}, 4),
    ('one empty object', {**I0, 2: LOWTAG, 3: bits(0), 4: bits(0), 5: bits(0)}, 6),
    ('one object with one byte', {**I0, 2: LOWTAG, 3: bits(1), 4: ALL, 5: bits(0), 6: bits(0)}, 7),
    ('two objects', {**I0, 2: LOWTAG, 3: bits(0), 4: LOWTAG, 5: bits(1), 6: ALL, 7: bits(0), 8: bits(0)}, 9),
    ('nested', {**I0, 2: CONS, 3: bits(0x80), 4: bits(0), 5: bits(0), 6: bits(0), 7: bits(0)}, 8),
    ('end of contents in long form', {**I0, 2: bits(0), 3: bits(0x81), 4: bits(0)}, None),
    ('any', I0, 'any'),
]


def job_indef(F, key, iid, name, cls, end):
    o = probe(F, iid, cls, rules=Rules())
    E = o.E
    if o.err:
        return [(name, 'undecided: ' + o.err)], 0
    bad = []
    ok = o.ok()
    if end is None:
        return ([(name, 'accepted as the end of contents')] if ok else []), 1
    if not ok:
        bad.append((name, 'never accepted'))
    if end != 'any' and o.errs():
        bad.append((name, 'a well-formed object may be rejected'))
    for v, s in ok:
        r = rem_slice(E, s, v)
        c = val(E, s, v[3][1])
        c = sl_of(E, s, val(E, s, c[3][1])[3][0]) if c[0] == 'agg' else None
        if r is None or c is None:
            bad.append((name, 'the remainder or the content is not a slice of the input'))
            continue
        if c[1] != o.inp[1] or not eq0(E, s, ladd(ladd(c[2], o.inp[2], -1), L(-2))):
            bad.append((name, 'the content does not start after the header'))
        elif end == 'any':
            # the object ends two bytes after its content; span of what follows says where it starts
            a = span_start(E, s, v, o) if key[1].startswith('parse') else None
            if a is not None and not eq0(E, s, ladd(ladd(c[3], L(2)), ladd(a, o.inp[2]), -1)):
                bad.append((name, 'the content does not end two bytes before the remainder'))
        elif r[1] != o.inp[1] or not eq0(E, s, ladd(ladd(r[2], o.inp[2], -1), L(-end))):
            bad.append((name, 'the object does not end after its end-of-contents octets'))
        elif not eq0(E, s, ladd(ladd(c[3], r[2], -1), L(2))):
            bad.append((name, 'the content is not what lies between the header and the end-of-contents octets'))
    return bad, len(ok)


def span_start(E, s, v, o):
    r = val(E, s, v[3][0])
    i = next(val(E, s, a) for a in o.args if val(E, s, a)[0] == 'agg' and val(E, s, a)[1] == 'input::Input')
    return ladd(E.vint(r[3][1][3][0]), E.vint(i[3][1][3][0]), -1)


QUICK = re.compile(r'^(Any|Header|OctetString|Integer|Sequence|Option<T>|u32|bool|\(\)|BitString)$')


def run():
    F = base.facts('nd')
    rep = base.Report('B01', 'proof')
    ep = entry_points(F, METHODS)
    deep = os.environ.get('VERIF_TIER', 'quick') == 'thorough'
    items = [(k, n) for k in sorted(ep) for n in range(len(CLASSES)) if n == 0 or deep or QUICK.search(k[0])]
    items += [(('Any', m), -1 - n) for m in ('parse_ber', 'from_ber') for n in range(len(INDEF))]

    def work(it):
        k, n = it
        if n < 0:
            return job_indef(F, k, ep[k], *INDEF[-1 - n])
        name, cls, want = CLASSES[n]
        return job(F, k, ep[k], name, cls, want)
    exits = 0
    for (k, n), r, exc in base.pmap(work, items):
        where = '%s::%s' % k
        what = CLASSES[n][0] if n >= 0 else 'indefinite form, ' + INDEF[-1 - n][0]
        rep.obligations += 1
        if exc:
            rep.violate('%s|%s|undecided' % (where, what), exc.strip().splitlines()[-1])
            continue
        bad, m = r
        exits += m
        rep.discharged += not bad
        for name, t in bad:
            rep.violate('%s|%s' % (where, what), '%s in %s, %s: %s' % (
                F.insts[ep[k]].get('sp'), F.insts[ep[k]]['full'], what, t))
    rep.floor('decoders', len(ep), 220)
    rep.floor('classes analysed', len(items), 300)
    rep.floor('successful exits', exits, 400)
    rep.rules = ['on every abstract path of a decoder that returns Ok for a definite length header, the remainder is the '
                 'suffix of the input starting at header length + declared length',
                 'an object of indefinite length ends after the first top-level octets 00 00, which are not part of its '
                 'content, and nothing else ends it']
    return rep

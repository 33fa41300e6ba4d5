"""T04: the decoded header says what the header octets say: class, form, tag number, length, raw tag."""
import os
import base
from matrix import *
from expect import *
from tagtab import is_der

CLASSES = ['Universal', 'Application', 'ContextSpecific', 'Private']


def length_classes(at):
    """(name, bytes, length as function of the bytes or None for indefinite, header length)"""
    out = [('short length', {at: rng(0, 127)}, (at, at + 1), at + 1)]
    for n in range(1, 9):
        b = {at: bits(0x80 | n)}
        b.update({at + i: ALL for i in range(1, n + 1)})
        if n == 8:
            b[at + 1] = rng(0, 127)
        out.append(('length in %d bytes' % n, b, (at + 1, at + 1 + n), at + 1 + n))
    out.append(('length in 9 bytes, leading 00', {at: bits(0x89), at + 1: bits(0), at + 2: rng(0, 127),
                                                  **{at + i: ALL for i in range(3, 10)}}, (at + 1, at + 10), at + 10))
    for n in (10, 12, 16):
        out.append(('length in %d bytes, leading 00' % n,
                    {at: bits(0x80 | n), **{at + i: bits(0) for i in range(1, n - 7)}, at + n - 7: rng(0, 127),
                     **{at + i: ALL for i in range(n - 6, n + 1)}}, (at + 1, at + 1 + n), at + 1 + n))
    out.append(('indefinite', {at: bits(0x80)}, None, at + 1))
    return out


def overflow_classes(at, deep):
    """lengths that do not fit: an octet before the last eight is not zero"""
    for n in (9, 10, 11, 12, 16, 24) + ((32, 64, 126) if deep else ()):
        for i in sorted({1, 2, n - 8} if n - 8 >= 2 else {1}):
            yield ('length in %d bytes, octet %d of them not zero' % (n, i),
                   {at: bits(0x80 | n), **{at + j: ALL for j in range(1, n + 1)},
                    **{at + j: bits(0) for j in range(1, i)}, at + i: rng(1, 255)})


def rejected(o):
    return ['accepted'] if o.ok() else []


def tag_classes(cls, cons):
    f = 64 * cls + 32 * cons
    yield 'low tag', {0: rng(f, f + 30)}, lambda o, s: ladd(byte(o, s, 0), L(-f)), 1
    yield 'two tag bytes', {0: bits(f + 31), 1: rng(1, 127)}, lambda o, s: byte(o, s, 1), 2
    for n in (2, 3, 4):
        b = {0: bits(f + 31), 1: rng(129, 255), n: rng(0, 127)}
        b.update({i: rng(128, 255) for i in range(2, n)})

        def num(o, s, n=n):
            r = L(0)
            for i in range(1, n + 1):
                x = ladd(byte(o, s, i), L(-128 if i < n else 0))
                r = ladd((r[0] * 128, tuple((t, c * 128) for t, c in r[1])), x)
            return r
        yield '%d tag bytes' % (n + 1), b, num, n + 1


def expect(cls, cons, num, tlen, ln, hlen, any_, key):
    def f(o):
        out = []
        oks = o.ok()
        if not oks:
            return ['never accepted']
        for v, s in oks:
            p = payload(key, v)
            h = field(o, p, 'header') if any_ else p
            if variant(o, field(o, h, 'class')) != CLASSES[cls]:
                out.append('class is not %s' % CLASSES[cls])
            if not is_lin(o, s, field(o, h, 'constructed'), L(int(cons))):
                out.append('constructed is not %s' % bool(cons))
            if not is_lin(o, s, field(o, h, 'tag'), num(o, s)):
                out.append('tag number is not that of the tag octets')
            n = field(o, h, 'length')
            if ln is None:
                if variant(o, n) != 'Indefinite':
                    out.append('length is not Indefinite')
            elif variant(o, n) != 'Definite' or not is_lin(o, s, n, be(o, s, *ln)):
                out.append('length is not that of the length octets')
            r = field(o, h, 'raw_tag')
            if variant(o, r) == 'Some' and not is_slice(o, s, r, L(0), L(tlen)):
                out.append('raw tag is not the tag octets')
        return sorted(set(out))
    return f


def run():
    F = base.facts('nd')
    rep = base.Report('T04', 'proof')
    ep = entry_points(F, ('from_ber', 'from_der', 'parse_ber', 'parse_der'))
    deep = os.environ.get('VERIF_TIER', 'quick') == 'thorough'
    items = []
    for k in sorted(ep):
        if k[0] not in ('Header', 'Any'):
            continue
        der = is_der(k)
        for cls in range(4):
            for cons in (0, 1):
                for tn, tb, num, tlen in tag_classes(cls, cons):
                    for ln, lb, lx, hlen in length_classes(tlen):
                        if lx is None and (k[0] == 'Any' or not cons or der):
                            continue
                        # every tag form with the short length, every length form with the low tag
                        if not deep and tlen > 1 and hlen > tlen + 1:
                            continue
                        if not deep and hlen - tlen > 4 and (cls, cons) not in ((0, 0), (2, 1)):
                            continue
                        items.append(Item(k, '%s, %s, %s, %s' % (CLASSES[cls], 'constructed' if cons else 'primitive', tn, ln),
                                          {**tb, **lb}, expect(cls, cons, num, tlen, lx, hlen, k[0] == 'Any', k),
                                          peel=max(11, len(lb) + 2)))
                if (cons, cls) != (0, 0) and not deep:
                    continue
                for ln, lb in overflow_classes(1, deep):
                    items.append(Item(k, '%s, %s, %s' % (CLASSES[cls], 'constructed' if cons else 'primitive', ln),
                                      {0: rng(64 * cls + 32 * cons, 64 * cls + 32 * cons + 30), **lb}, rejected, peel=len(lb) + 2))
    run_items(F, rep, ep, items)
    rep.coverage['counts']['input classes'] = len(items)
    rep.floor('input classes', len(items), 300)
    rep.rules = ['on every abstract path returning Ok, class, constructed, tag, length and raw_tag equal, as linear forms of '
                 'the input bytes, what X.690 8.1.2 and 8.1.3 define']
    return rep

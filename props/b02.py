"""B02: a decoded value carries exactly the content octets of its object, no more, no fewer, not shifted."""
import os
import base
from matrix import *
from tagtab import *
from expect import *

WHOLE = ['&[u8]', '&str', 'String', 'OctetString', 'Integer', 'ObjectDescriptor', 'Oid', 'Sequence', 'Set', 'Utf8String',
         'NumericString', 'PrintableString', 'TeletexString', 'VideotexString', 'Ia5String', 'GraphicString',
         'VisibleString', 'GeneralString']
LENGTHS = [('short length', {1: rng(0, 127)}, (1, 2)), ('one length byte', {1: bits(0x81), 2: ALL}, (2, 3)),
           ('two length bytes', {1: bits(0x82), 2: ALL, 3: ALL}, (2, 4)),
           ('four length bytes', {1: bits(0x84), **{i: ALL for i in range(2, 6)}}, (2, 6))]


def whole(key, ln):
    def f(o):
        oks = o.ok()
        if not oks:
            return ['never accepted']
        bad = 0
        for v, s in oks:
            p = payload(key, v)
            if key[0] == 'Any':
                p = field(o, p, 'data')
            if key[0] == 'Oid':
                p = field(o, p, 'asn1')
            bad += not is_slice(o, s, p, L(ln[1]), ladd(L(ln[1]), be(o, s, *ln)))
        return ['value is not exactly the content octets on %d path(s)' % bad] if bad else []
    return f


def bitstr(key, ln):
    def f(o):
        oks = o.ok()
        if not oks:
            return ['never accepted']
        for v, s in oks:
            p = leaf(payload(key, v))
            h, n = ln[1], be(o, s, *ln)
            if p is None or p[0] != 'agg' or len(p[3]) != 2 or not is_slice(o, s, p[3][0], L(h + 1), ladd(L(h), n)):
                return ['bits are not those after the first content octet']
            want = ladd(ladd((n[0] * 8, tuple((t, c * 8) for t, c in n[1])), L(-8)), byte(o, s, h), -1)
            if not is_lin(o, s, p[3][1], want):
                return ['number of bits is not 8 * (length - 1) - unused']
        return []
    return f


def run():
    F = base.facts('nd')
    rep = base.Report('B02', 'proof')
    ep = entry_points(F, ('from_ber', 'from_der', 'parse_ber', 'parse_der'))
    items = []
    for k in sorted(ep):
        n, t = k[0], tag_of(k)
        T = {0: bits(t | 32 * (n in CONSTRUCTED))} if t is not None else {0: bits(*[x for x in range(256) if x & 31 != 31])}
        for ln, lb, lx in LENGTHS:
            if n in WHOLE or n == 'Any':
                items.append(Item(k, ln, {**T, **lb}, whole(k, lx)))
            if n == 'BitString':
                items.append(Item(k, ln, {**T, **lb}, bitstr(k, lx)))
        if n == 'Any':
            items.append(Item(k, 'long tag', {0: bits(*[x for x in range(256) if x & 31 == 31]), 1: rng(1, 127), 2: rng(0, 127)},
                              whole(k, (2, 3))))
    run_items(F, rep, ep, items)
    rep.coverage['counts']['input classes'] = len(items)
    rep.coverage['counts']['types'] = len({i.key[0] for i in items})
    rep.floor('types', len({i.key[0] for i in items}), 18)
    rep.floor('input classes', len(items), 200)
    rep.rules = ['on every abstract path returning Ok, the slice held by the decoded value is the input from the end of the '
                 'header to the end of the object',
                 'BIT STRING: the bits start after the first content octet and number 8 * (length - 1) - unused']
    return rep

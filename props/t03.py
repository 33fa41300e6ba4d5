"""T03: DER decoders reject encodings DER forbids, wherever the crate claims to check."""
import os
import base
from matrix import *
from tagtab import *


def run():
    F = base.facts('nd')
    rep = base.Report('T03', 'proof')
    ep = entry_points(F, ('from_der', 'parse_der'))
    deep = os.environ.get('VERIF_TIER', 'quick') == 'thorough'
    items = []

    def add(k, name, cls, **kw):
        items.append(Item(k, name, cls, 'reject', **kw))
    for k in sorted(ep):
        n, t = k[0], tag_of(k)
        if n in ('Any', 'Header') and k[1] == 'parse_der' or n == 'Any':
            if n == 'Any':
                add(k, 'indefinite length', {0: bits(*[x for x in range(256) if x & 31 != 31]), 1: bits(0x80)})
        if t is None:
            continue
        T = {0: bits(t)}
        add(k, 'indefinite length', {0: bits(t, t | 32), 1: bits(0x80)}, opaque=PDV)
        add(k, 'reserved length ff', {0: bits(t, t | 32), 1: bits(0xff)}, opaque=PDV)
        if n in STRINGS:
            add(k, 'constructed string', {0: bits(t | 32)})
        if n in ('bool', 'Boolean'):
            add(k, 'BOOLEAN other than 00 and ff', {**T, 1: bits(1), 2: rng(1, 254)})
        if n in INTS + ['Integer', 'Enumerated']:
            add(k, 'redundant leading 00', {**T, 1: rng(2, 127), 2: bits(0), 3: rng(0, 127)})
            add(k, 'redundant leading ff', {**T, 1: rng(2, 127), 2: bits(255), 3: rng(128, 255)})
        if n == 'BitString':
            for u in range(1, 8):
                for ln in (2, 3, 4) if deep else (2, 3):
                    b = {**T, 1: bits(ln), 2: bits(u)}
                    b.update({i: ALL for i in range(3, 1 + ln)})
                    b[1 + ln] = bits(*[x for x in range(256) if x & ((1 << u) - 1)])
                    add(k, 'BIT STRING of %d bytes with non-zero padding, %d unused bits' % (ln - 1, u), b)
    run_items(F, rep, ep, items)
    rep.coverage['counts']['decoders'] = len({i.key for i in items})
    rep.floor('input classes', len(items), 280)
    rep.rules = ['no abstract path of a DER decoder returns Ok on: indefinite length; constructed string types; BOOLEAN '
                 'contents other than 00/ff; INTEGER/ENUMERATED with a redundant leading octet; BIT STRING with non-zero padding']
    rep.assumptions = ['lengths in long form that would fit the short form are tolerated by design (the repository tests '
                       'rely on it) and are not part of the property']
    return rep

"""T01: a decoder of a universal type takes only objects with the tag and the form (primitive or constructed) of its type."""
import os
import base
from matrix import *
from tagtab import *

METHODS = ('from_ber', 'from_der', 'parse_ber', 'parse_der')
LONG = bits(*[x for x in range(256) if x & 31 == 31])


def possible(o):
    return [] if o.ok() else ['never accepted']


def run():
    F = base.facts('nd')
    rep = base.Report('T01', 'proof')
    ep = entry_points(F, METHODS)
    deep = os.environ.get('VERIF_TIER', 'quick') == 'thorough'
    items = []
    for k in sorted(ep):
        t = tag_of(k)
        if t is None:
            continue
        ok = (t,) + ALSO.get(k[0], ())
        low = bits(*[x for x in range(256) if x & 31 != 31 and (x & 31) not in ok])
        lens = [('', rng(0, 127))] + ([(', long length', bits(0x81, 0x82, 0x84)), (', indefinite', bits(0x80))] if deep else [])
        for n, l in lens:
            items.append(Item(k, 'other tag' + n, {0: low, 1: l}, 'reject', opaque=PDV))
        items.append(Item(k, 'tag in long form', {0: LONG, 1: rng(31, 127), 2: rng(0, 127)}, 'reject', opaque=PDV))
        if k[0] in CONSTRUCTED:
            items.append(Item(k, 'primitive', {0: bits(t)}, 'reject'))
        if k[0] in PRIMITIVE:
            items.append(Item(k, 'constructed', {0: bits(t | 32)}, 'reject'))
        items.append(Item(k, 'its tag', {0: bits(t | 32 * (k[0] in CONSTRUCTED)), 1: rng(0, 127)}, possible, opaque=PDV))
    run_items(F, rep, ep, items)
    rep.coverage['counts']['decoders'] = len({i.key for i in items})
    rep.floor('types', len({i.key[0] for i in items}), 55)
    rep.floor('input classes', len(items), 600)
    rep.rules = ['no abstract path of a decoder given an object with another tag, or of the wrong form, returns Ok',
                 'tags of each type are those of X.680 (table in lib/tagtab.py), independent of the source']
    return rep

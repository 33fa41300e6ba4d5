"""Rejection and acceptance tables: (decoder, input class) pairs that must have no Ok exit, or no Err exit."""
import base
from probe import *


class MRules(ProbeRules):
    opaque_fns = None
    ints = True

    def on_call(self, E, fd, path, args, atys, rty, s, fr, tag, t):
        if self.opaque_fns is not None and self.opaque_fns.search(path):
            return E.opaque(path, fd, args, rty, s, fr, tag)


PDV = re.compile(r'embedded_pdv::EmbeddedPdv.*::from_(ber|der)_content$')


class Item:
    """expect: 'reject' (no Ok exit), 'accept' (no Err exit), or a function (outcome) -> [texts]"""
    __slots__ = ('key', 'name', 'cls', 'expect', 'kw', 'opaque', 'peel', 'keep')

    def __init__(self, key, name, cls, expect, opaque=None, peel=None, **kw):
        self.peel = peel
        self.key, self.name, self.cls, self.expect, self.kw, self.opaque = key, name, cls, expect, kw, opaque


def decide(F, ep, it):
    rules = MRules()
    rules.opaque_fns = it.opaque
    rules.peel = it.peel or rules.peel
    o = probe(F, ep[it.key], it.cls, rules=rules, **it.kw)
    if o.err:
        return ['undecided: ' + o.err]
    if it.expect == 'reject':
        n = len(o.ok())
        return ['accepted: %d successful exit(s) remain possible' % n] if n else []
    if it.expect == 'accept':
        if not o.exits:
            return ['no exit']
        return ['may be rejected' + why(o)] if o.errs() else []
    return it.expect(o)


def why(o):
    out = set()
    for v, s in o.errs():
        def walk(v, d=0):
            if v is None or d > 6:
                return
            if v[0] == 'agg':
                if 'rror' in str(v[1]) and not v[1].endswith('BerError') and v[1] != 'nom::Err':
                    vs = o.E.F.adts.get(v[1], {}).get('variants')
                    out.add(vs[v[2]]['name'] if vs and v[2] < len(vs) else '%s#%s' % (v[1], v[2]))
                for x in v[3]:
                    walk(x, d + 1)
        walk(v)
    return ' (%s)' % ', '.join(sorted(map(str, out))) if out else ''


def run_items(F, rep, ep, items):
    for it, r, exc in base.pmap(lambda i: decide(F, ep, items[i]), range(len(items))):
        it = items[it]
        rep.obligations += 1
        where = '%s::%s|%s' % (it.key[0], it.key[1], it.name)
        i = F.insts[ep[it.key]]
        if exc:
            rep.violate(where + '|undecided', '%s in %s: %s' % (i.get('sp'), i['full'], exc.strip().splitlines()[-1]))
            continue
        rep.discharged += not r
        for t in r:
            rep.violate(where, '%s in %s, input class <%s>: %s' % (i.get('sp'), i['full'], it.name, t))
    rep.floor('decoders', len({it.key for it in items}), 1)

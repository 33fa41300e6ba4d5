"""T02: tagged and optional values are recognised by exactly their class and tag, and hand exactly their content on."""
import base
from matrix import *

INNER = re.compile(r'^(from_ber::BerParser|from_der::DerParser|from_ber::FromBer|from_der::FromDer)::'
                   r'(parse|from)_(ber|der)(_content)?$|^std::convert::TryFrom::try_from$')


class Rules(MRules):
    accept = None           # what T::accept_tag answers
    hdr = None              # header length: the value inside is given what follows, exactly
    calls = 0

    def __init__(self):
        self.bad = set()

    def content(self, E, path, args, s):
        """what the decoder of the value inside is given"""
        found = []

        def walk(v, d=0):
            v = val(E, s, v)
            if v[0] == 'agg' and v[1] == 'input::Input':
                found.append(sl_of(E, s, v[3][0]))
            elif v[0] == 'agg' and v[1] == 'header::Header':
                return
            elif v[0] == 'agg' and d < 4:
                for x in v[3]:
                    walk(x, d + 1)
            else:
                sl = E.as_slice(v)
                if sl is not None:
                    found.append(sl)
        for a in args:
            walk(a)
        self.calls += 1
        n = E.vint(E.elem(self.inp, L(self.hdr - 1), u8ty(E)))
        ok = [x for x in found if x[1] == self.inp[1] and eq0(E, s, ladd(ladd(x[2], self.inp[2], -1), L(-self.hdr)))
              and eq0(E, s, ladd(ladd(x[3], x[2], -1), n, -1))]
        if len(found) != 1 or not ok:
            self.bad.add('%s is not given exactly the content' % path)

    def on_call(self, E, fd, path, args, atys, rty, s, fr, tag, t):
        if self.hdr is not None and (INNER.search(path) or path.startswith('std::ops::Fn') and 'inst' not in fd):
            self.content(E, path, args, s)
        if self.accept is not None and path.endswith('DynTagged::accept_tag'):
            return [(s, ('b', ('c', self.accept)))]
        return MRules.on_call(self, E, fd, path, args, atys, rty, s, fr, tag, t)


def first(c, t):
    """(bytes of the identifier for class c, tag t, constructed)"""
    def enc(con):
        lead = c << 6 | con << 5
        if t < 31:
            return (lead | t,)
        if t < 128:
            return (lead | 31, t)
        return (lead | 31, 0x80 | t >> 7, t & 127)
    return enc


def low_except(c, t, pc=None):
    """identifier octets of low tags, except the one of class c and tag t (and form pc)"""
    return bits(*[x for x in range(256) if x & 31 != 31 and not (
        x >> 6 == c and x & 31 == t and (pc is None or x >> 5 & 1 == pc))])


PAIRS_Q = [(2, 0), (0, 16), (1, 5), (3, 30), (2, 100)]
PAIRS_T = [(c, t) for c in range(4) for t in (0, 1, 5, 16, 30, 31, 100, 127, 128, 300)]


def hdr(r, n):
    r.hdr = n
    return r


def pin(c, t, **kw):
    r = Rules()
    r.tyconsts = {'CLASS': c, 'TAG': t}
    return r


def job(F, iid, cls, expect, rules, setup=None):
    o = probe(F, iid, cls, rules=rules, setup=setup)
    if o.err:
        return ['undecided: ' + o.err], o
    if expect == 'reject':
        return (['accepted: %d successful exit(s)' % len(o.ok())] if o.ok() else []), o
    if rules.hdr is not None:
        bad = sorted(rules.bad)
        if not rules.calls:
            bad.append('the value inside is not decoded')
        if expect != 'possible':
            bad += expect(o)
        return bad + ([] if o.ok() else ['never accepted']), o
    if expect in ('any', 'possible'):
        return ([] if o.ok() or expect == 'any' else ['never accepted']), o
    return expect(o), o


def none_untouched(o):
    """every successful exit is None and returns the input as it came"""
    bad = []
    for v, s in o.ok():
        x = v[3][1] if v is not None and v[0] == 'agg' else None
        if x is None or x[0] != 'agg' or x[2] != 0:
            bad.append('another tag may be taken as a value')
            continue
        r = val(o.E, s, v[3][0])
        r = sl_of(o.E, s, r[3][0]) if r[0] == 'agg' else o.E.as_slice(r)
        if r is None or r[1] != o.inp[1] or not eq0(o.E, s, ladd(r[2], o.inp[2], -1)) \
                or not eq0(o.E, s, ladd(r[3], o.inp[3], -1)):
            bad.append('an absent value consumes input')
    if not o.ok():
        bad.append('absence is never reported')
    return bad


def never_none(o):
    bad = []
    for v, s in o.ok():
        x = v[3][1] if v is not None and v[0] == 'agg' else None
        if x is None or x[0] != 'agg' or x[2] != 1:
            bad.append('a value with the expected tag may be reported absent')
    if not o.ok():
        bad.append('never accepted')
    return bad


def run():
    F = base.facts('nd')
    rep = base.Report('T02', 'proof')
    ep = entry_points(F, ('from_ber', 'from_der', 'parse_ber', 'parse_der'))
    deep = os.environ.get('VERIF_TIER', 'quick') == 'thorough'
    pairs = PAIRS_T if deep else PAIRS_Q
    items = []      # (key, instance, name, classes, expect, rules maker, setup)

    def add(key, iid, name, cls, expect, rules, setup=None):
        items.append((key, iid, name, cls, expect, rules, setup))

    def both_ways(key, iid, c, t, con, rules, setup, mismatch='reject', clsmis='reject', match='possible'):
        """con: the forms accepted, a tuple"""
        n = 'class %d tag %d' % (c, t)
        sh = rng(0, 127)
        if t < 31:
            add(key, iid, n + ': other tag or class', {0: low_except(c, t, con[0] if len(con) == 1 else None), 1: sh},
                mismatch, rules, setup) if mismatch == clsmis else None
            add(key, iid, n + ': other tag', {0: bits(*[x for x in range(256) if x & 31 not in (t, 31) and x >> 6 == c]), 1: sh},
                mismatch, rules, setup)
            add(key, iid, n + ': other class', {0: bits(*[x for x in range(256) if x & 31 == t and x >> 6 != c]), 1: sh},
                clsmis, rules, setup)
            add(key, iid, n + ': long form of another tag',
                {0: bits(*[x for x in range(256) if x & 31 == 31]), 1: rng(31, 127), 2: sh}, mismatch, rules, setup)
        else:
            add(key, iid, n + ': low tag', {0: bits(*[x for x in range(256) if x & 31 != 31]), 1: sh}, mismatch, rules, setup)
            if t < 128:
                add(key, iid, n + ': other tag',
                    {0: bits(*[x for x in range(256) if x & 31 == 31]), 1: rng(31, 127) & ~bits(t), 2: sh},
                    mismatch, rules, setup)
        for f in (0, 1):
            b = dict(enumerate([1 << x for x in first(c, t)(f)]))
            b[len(b)] = sh
            add(key, iid, n + (': constructed' if f else ': primitive'), b, match if f in con else 'reject',
                lambda h=len(b): hdr(rules(), h), setup)

    for kind in ('Explicit', 'Implicit'):
        k = 'TaggedValue<T, E, %s, CLASS, TAG>' % kind
        for m in ('from_der', 'parse_ber', 'parse_der'):
            for c, t in pairs:
                both_ways('%s::%s' % (k, m), ep[k, m], c, t, (1,) if kind == 'Explicit' else (0, 1),
                          lambda c=c, t=t: pin(c, t), None)

    def fn(pat):
        r = [f['inst'] for p, f in F.fns.items() if re.search(pat, p) and run_.has_body(F, f.get('inst'))]
        if len(r) != 1:
            raise base.CheckError('%d functions match %s' % (len(r), pat))
        return r[0]

    def klass(c):
        return ('agg', 'class::Class', c, ())

    def tag(t):
        return ('agg', 'tag::Tag', 0, (('i', L(t)),))

    for m in ('parse_ber', 'parse_der'):
        # TaggedParser::parse_xxx(class, tag, bytes): generic over the kind, which decodes opaquely; the
        # decoded header is what is compared
        for c, t in pairs:
            def setup(E, inst, args, st, inp, c=c, t=t):
                a = val(E, st, args[0])
                fs = [x['name'] for x in F.adts['asn1_types::tagged::optional::OptTaggedParser']['variants'][0]['fields']]
                v = {'class': klass(c), 'tag': tag(t)}
                args[0] = ('rv', ('agg', 'asn1_types::tagged::optional::OptTaggedParser', 0, tuple(v[f] for f in fs)))
            both_ways('OptTaggedParser::' + m, fn('OptTaggedParser::%s$' % m), c, t, (0, 1), Rules, setup,
                      none_untouched, 'reject', never_none)
    for m in ('from_ber', 'from_der', 'parse_ber', 'parse_der'):
        k = ('Option<T>', m)
        cls = {0: bits(*[x for x in range(256) if x & 31 != 31]), 1: rng(0, 127)}

        def no():
            r = Rules()
            r.accept = False
            return r

        def yes():
            r = Rules()
            r.accept = True
            return r
        add('Option<T>::' + m, ep[k], 'tag of another type', cls, none_untouched, no)
        add('Option<T>::' + m, ep[k], 'tag of the type', cls, never_none, yes)

    # the helpers return parsers (closures); those decode through from_der of the tagged type
    def fresh(E, v, n=0):
        if v[0] == 'sym':
            return ('sym', E.symid(('captured', v[1])), ())
        if v[0] == 'agg':
            return v[:3] + (tuple(fresh(E, x) for x in v[3]),)
        return v

    def struct(E, path, **kw):
        fs = [x['name'] for x in F.adts[path]['variants'][0]['fields']]
        return ('agg', path, 0, tuple(kw[f] if f in kw else ('sym', E.symid(('field', path, f)), ()) for f in fs))

    class Helper(Rules):
        found = None

        def on_call(self, E, fd, path, args, atys, rty, s, fr, tg, t):
            if path == 'std::convert::Into::into' and E.types[rty].get('path') == 'tag::Tag':
                return [(s, tag(self.tag))]
            if path == 'from_der::FromDer::from_der' and self.found is not None:
                h = struct(E, 'header::Header', tag=tag(self.found), **{'class': klass(2)})
                tp = struct(E, 'asn1_types::tagged::parser::TaggedParser', header=h)
                sl = E.as_slice(val(E, s, args[0]))
                return [(s, ('agg', RES, 0, (('agg', '()', 0, (('rv', sl), tp)),)))]
            return Rules.on_call(self, E, fd, path, args, atys, rty, s, fr, tg, t)
    for n in ('explicit', 'implicit'):
        for g in ('', '_g'):
            f = 'parse_der_tagged_%s%s' % (n, g)
            for t in ((5, 100) if not deep else (0, 5, 16, 30, 31, 100, 127)):
                r = Helper()
                r.tag = t
                clos = [v for _, v in run_.run_root(F, fn('helpers::%s$' % f), r)[1]]
                if len(clos) != 1 or clos[0][:2] != ('agg', 'closure'):
                    raise base.CheckError('%s does not return a parser' % f)

                def setup(E, inst, args, st, inp, clo=clos[0]):
                    clo = fresh(E, clo)
                    args[0] = ('rv', clo) if F.types[inst['body']['locals'][1]]['k'] == 'ref' else clo
                for found in ((t, t ^ 1, 31) if not g else (t,)):
                    def mk(t=t, found=found, g=g):
                        r = Helper()
                        r.tag, r.found = t, found if not g else None
                        return r
                    if not g:
                        add('helpers::' + f, clos[0][2], 'tag %d: decoded tag %d' % (t, found), {},
                            'possible' if t == found else 'reject', mk, setup)
                    else:
                        both_ways('helpers::' + f, clos[0][2], 2, t, (0, 1), mk, setup, clsmis='any')

    def work(n):
        key, iid, name, cls, expect, rules, setup = items[n]
        return job(F, iid, cls, expect, rules(), setup)[0]
    for n, bad, exc in base.pmap(work, range(len(items))):
        key, iid, name = items[n][:3]
        rep.obligations += 1
        where = '%s|%s' % (key, name)
        i = F.insts[iid]
        if exc:
            rep.violate(where + '|undecided', '%s in %s: %s' % (i.get('sp'), i['full'], exc))
            continue
        rep.discharged += not bad
        for t in bad:
            rep.violate(where, '%s in %s, %s: %s' % (i.get('sp'), i['full'], name, t))
    rep.floor('input classes', len(items), 150)
    rep.floor('decoders', len({x[0] for x in items}), 10)
    rep.rules = ['a tagged value is accepted only with its class and tag (explicit: constructed)',
                 'an optional value is absent exactly when the tag is not that of the value, and then nothing is consumed']
    return rep


import os
import run as run_

"""E01: identifier and length octets are written as X.690 8.1.2 and 8.1.3 say, in the shortest form, and the length
functions return the number of octets the writers write."""
import os
import base, run as run_
from encode import *

CLASSES = ('UNIVERSAL', 'APPLICATION', 'CONTEXT-SPECIFIC', 'PRIVATE')


def tag_classes(deep):
    """(name, [digit ranges], number of identifier octets)"""
    out = [('low tag number', [(0, 30)], 1), ('tag number 31..127', [(31, 127)], 2)]
    for n in (2, 3, 4):
        out.append(('tag number of %d base 128 digits' % n, [(1, 127)] + [(0, 127)] * (n - 1), n + 1))
    out.append(('tag number of 5 base 128 digits', [(1, 15)] + [(0, 127)] * 4, 6))
    return out


def len_classes():
    out = [('length 0..127', [(0, 127)], 1), ('length 128..255', [(128, 255)], 2)]
    for n in range(2, 9):
        out.append(('length of %d octets' % n, [(1, 255)] + [(0, 255)] * (n - 1), n + 1))
    return out


def identifier(c, p, ds, n):
    if n == 1:
        return [ladd(L(c << 6 | p << 5), ds[0])]
    return [L(c << 6 | p << 5 | 31)] + [ladd(d, L(128 if i + 1 < len(ds) else 0)) for i, d in enumerate(ds)]


def length_octets(ds, n):
    return [ds[0]] if n == 1 else [L(0x80 + n - 1)] + ds


class Item:
    def __init__(self, key, iid, name, prep, check, rules=EncRules):
        self.key, self.iid, self.name, self.prep, self.check, self.rules = key, iid, name, prep, check, rules


def length_val(F, lin):
    vs = [v['name'] for v in F.adts['length::Length']['variants']]
    if lin is None:
        return ('agg', 'length::Length', vs.index('Indefinite'), ())
    return ('agg', 'length::Length', vs.index('Definite'), (('i', lin),))


def class_val(F, c):
    return ('agg', 'class::Class', c, ())


def run():
    F = base.facts('nd')
    deep = os.environ.get('VERIF_TIER') == 'thorough'
    rep = base.Report('E01', 'proof')
    items = []

    def arg(inst, what):
        b = inst['body']
        for k in range(b['argc']):
            if what(F.types[b['locals'][k + 1]]['s']):
                return k
        raise base.CheckError('no such argument of ' + inst['full'])

    def written(want, ds=None):
        def f(E, o):
            n = bad = 0
            for s, v in o.exits:
                fail = FAIL in s.cells
                if okv(v) is None:
                    if not fail and not is_err(v):
                        return ['undetermined outcome']
                    if not fail:
                        return ['fails although nothing failed to be written']
                    continue
                if fail:
                    return ['a failed write is not reported']
                n += 1
                got = log_bytes(E, o.rules.log(s))
                if not same_bytes(E, s, got, want(E)):
                    bad += 1
                if not eq0(E, s, ladd(E.vint(okv(v)), L(len(want(E))), -1)):
                    return ['reports another number of octets than the %d it should write' % len(want(E))]
            if bad:
                return ['does not write the octets required by X.690 on %d path(s)' % bad]
            return [] if n else ['never succeeds']
        return f

    def returned(want):
        def f(E, o):
            n = 0
            for s, v in o.exits:
                if v[0] == 'agg' and v[1] == RES:
                    if okv(v) is None:
                        return ['fails']
                    v = okv(v)
                if v[0] == 'agg' and v[1] == 'length::Length':
                    w = want(E)
                    if w is None:
                        if v[2] != length_val(F, None)[2]:
                            return ['not indefinite']
                        n += 1
                        continue
                    if v[2] != length_val(F, L(0))[2]:
                        return ['not definite']
                    v = v[3][0]
                if want(E) is None:
                    return ['not indefinite']
                if v[0] != 'i' or not eq0(E, s, ladd(E.vint(v), want(E), -1)):
                    return ['another number than the %s octets that are written' % (lconst(want(E)) if lconst(want(E)) is not None else '')]
                n += 1
            return [] if n else ['never returns']
        return f

    def digits(E, name, rs):
        return [digit(E, (name, i), a, b) for i, (a, b) in enumerate(rs)]

    roots = [(r['self'], r['method'], r['inst'], r['trait']) for r in F.roots if run_.has_body(F, r['inst'])]
    for self_, m, iid, trait in roots:
        if m not in ('write_tag_generic', 'write_tag_info', 'write_length') or 'BerEncoder' not in trait:
            continue
        inst = F.insts[iid]
        ty = F.types[self_]['s'].split('::')[-1].split('<')[0]
        key = '%s::%s' % (ty, m)
        if m == 'write_length':
            k = arg(inst, lambda s: s.endswith('Length'))
            for name, rs, n in len_classes():
                def prep(E, inst, args, st, k=k, rs=rs):
                    args[k] = length_val(F, compose(digits(E, 'len', rs), 256))
                    return args, st
                items.append(Item(key, iid, name, prep, written(lambda E, rs=rs, n=n: length_octets(digits(E, 'len', rs), n))))

            def prep(E, inst, args, st, k=k):
                args[k] = length_val(F, None)
                return args, st
            items.append(Item(key, iid, 'indefinite', prep, written(lambda E: [L(0x80)])))
            continue
        fp = 1 if m == 'write_tag_info' and ty in ('Constructed', 'ConstructedIndefinite') else None
        kt = arg(inst, lambda s: s == 'tag::Tag')
        kc = arg(inst, lambda s: s.endswith('Class'))
        kp = arg(inst, lambda s: s == 'bool')
        if ty == 'Primitive' and m == 'write_tag_info':
            # writes the tag number of the type
            for t in list(range(31)) + [31, 100, 127, 128, 16383, 16384, (1 << 21) - 1, 1 << 21, 1 << 28, (1 << 32) - 1]:
                ds = []
                while t >> 7 * len(ds) or not ds:
                    ds.insert(0, L(t >> 7 * len(ds) & 127))
                n = 1 if t < 31 else len(ds) + 1

                def rules(t=t):
                    r = EncRules()
                    r.tyconsts = {'TAG': t}
                    return r
                items.append(Item(key, iid, 'TAG = %d' % t, None, written(lambda E, ds=ds, n=n: identifier(0, 0, ds, n)), rules))
            continue
        for name, rs, n in tag_classes(deep):
            for c in range(4):
                for p in (0, 1):
                    if not deep and n > 3 and (c, p) not in ((0, 0), (2, 1), (3, 0)):
                        continue

                    def prep(E, inst, args, st, rs=rs, c=c, p=p, kt=kt, kc=kc, kp=kp):
                        args[kt] = newtype('tag::Tag', compose(digits(E, 'tag', rs), 128))
                        args[kc], args[kp] = class_val(F, c), ('i', L(p))
                        return args, st

                    def want(E, rs=rs, n=n, c=c, p=p if fp is None else fp):
                        return identifier(c, p, digits(E, 'tag', rs), n)
                    items.append(Item(key, iid, '%s, class %s, %s' % (name, CLASSES[c], 'constructed' if p else 'primitive'),
                                      prep, written(want)))
    fns = {f['path']: f['inst'] for f in F.fns.values() if run_.has_body(F, f.get('inst'))}
    for fn, kinds in (('to_ber::ber_tag_length', 't'), ('to_ber::ber_length_length', 'l'),
                      ('to_ber::ber_header_length', 'tl'), ('to_ber::ber_total_length', 'tlc')):
        iid = fns.get(fn)
        if iid is None:
            continue
        for tn, trs, tlen in (tag_classes(deep) if 't' in kinds else [('', None, 0)]):
            for ln, lrs, llen in (len_classes() + [('indefinite', None, 1)] if 'l' in kinds else [('', None, 0)]):
                def prep(E, inst, args, st, trs=trs, lrs=lrs):
                    for k in range(inst['body']['argc']):
                        s = F.types[inst['body']['locals'][k + 1]]['s']
                        if s == 'tag::Tag':
                            args[k] = newtype('tag::Tag', compose(digits(E, 'tag', trs), 128))
                        elif s == 'length::Length':
                            args[k] = length_val(F, compose(digits(E, 'len', lrs), 256) if lrs else None)
                    return args, st

                def want(E, lrs=lrs, n=tlen + llen, kinds=kinds):
                    if 'c' in kinds:
                        return ladd(compose(digits(E, 'len', lrs), 256), L(n)) if lrs else None
                    return L(n)
                if 'c' in kinds and llen == 9:
                    continue            # the total may exceed usize: unspecified
                items.append(Item(fn.split('::')[-1], iid, (tn + ' ' + ln).strip(), prep, returned(want)))

    def work(n):
        it = items[n]
        o = encode(F, it.iid, it.rules(), prep=it.prep)
        return [o.err] if o.err else it.check(o.E, o)
    for n, bad, exc in base.pmap(work, range(len(items))):
        it = items[n]
        rep.obligations += 1
        where = '%s|%s' % (it.key, it.name)
        i = F.insts[it.iid]
        if exc:
            rep.violate(where + '|undecided', '%s in %s: %s' % (i.get('sp'), i['full'], exc))
            continue
        rep.discharged += not bad
        for t in bad:
            rep.violate(where, '%s in %s, %s: %s' % (i.get('sp'), i['full'], it.name, t))
    rep.floor('input classes', len(items), 250)
    rep.floor('functions', len({x.key for x in items}), 10)
    rep.rules = ['every path that returns Ok wrote exactly the identifier or length octets of X.690 8.1.2 / 8.1.3 in their '
                 'shortest form and returns their number',
                 'ber_tag_length, ber_length_length, ber_header_length, ber_total_length return those numbers']
    return rep

"""G02: encoders derived by the macros write the fields of the definition, in order, under their tags, octet for octet."""
import itertools, os, re
import base, run as run_
from witness import alternatives, octets, fields_of, FIELDS, STYLES, LEAF, CHOICES, ENUMS, ALIASES, STYLE_ALIAS, U, A, C, P, MOD, ident_octets, length_octets
from encode import *
from absint import lscale

# ---- values: their abstract form and their encoding, octet by octet, as linear forms of the same digits
LEAVES = {'u8': (2, lambda E, k: [digit(E, k, 16, 127)]), 'u16': (2, lambda E, k: [digit(E, (k, 0), 1, 127), digit(E, (k, 1), 0, 255)])}


def leaf_value(E, kind, key, b, text):
    """(value, content octets); text: name of the slice -> octets"""
    if kind == 'bool':
        return ('i', L(int(b))), [L(255 * b)]
    if octets(kind):
        n = LEAF[kind][2]
        sl = ('sl', ('s', ('text', key)), L(0), L(n))
        return ('rv', sl), [E.vint(E.elem(sl, L(j), u8ty(E))) for j in range(n)]
    ds = LEAVES[kind][1](E, key)
    return ('i', compose(ds, 256)), ds


def tlv(cls, con, num, content):
    return [L(b) for b in ident_octets(cls, con, num) + length_octets(len(content))] + content


OPTION = 'std::option::Option'


class Val:
    """a value of a witness type: which optional fields are present, which are equal to their default"""
    def __init__(self, E, F, prefix, style):
        self.E, self.F, self.prefix, self.style = E, F, prefix, style

    def struct(self, name, key, absent=(), default=(), b=True, der=False):
        path = '%s::%s%s' % (MOD, self.prefix, name)
        vals, octets = {}, []
        for f in FIELDS[name]:
            k = (key, f.name)
            if f.name in absent:
                vals[f.name] = ('agg', OPTION, 0, ())
                continue
            if f.kind in LEAF:
                v, c = leaf_value(self.E, f.kind, k, b, None)
                if f.name in default:
                    v, c = ('i', L(f.presence)), [L(f.presence)]
                u = LEAF[f.kind][1], 0
            elif f.kind in CHOICES:
                alts = alternatives(f.kind)
                v, e, _ = choice_value(self.E, self.F, f.kind, 0 if b else len(alts) - 1, k, b)
                vals[f.name] = ('agg', OPTION, 1, (v,)) if f.presence == 'opt' else v
                octets += tlv(f.tag[1], 1, f.tag[2], e) if f.tag else e       # tags of a CHOICE are explicit
                continue
            else:
                v, c = self.struct(f.kind, k, b=b)
                u = (17 if self.style == 'set' else 16), 1
            if not f.tag:
                e = tlv(U, u[1], u[0], c)
            elif f.tag[0]:
                e = tlv(f.tag[1], 1, f.tag[2], tlv(U, u[1], u[0], c))
            else:
                e = tlv(f.tag[1], u[1], f.tag[2], c)
            vals[f.name] = ('agg', OPTION, 1, (v,)) if f.presence == 'opt' else v
            if not (der and f.name in default):
                octets += e
        order = [x['name'] for x in self.F.adts[path]['variants'][0]['fields']]
        return ('agg', path, 0, tuple(vals[n] for n in order)), octets


def choice_value(E, F, name, i, key, b=True):
    """value, encoding and content of a variant"""
    v, k, num = alternatives(name)[i]
    if k in LEAF:
        x, c = leaf_value(E, k, key, b, None)
        con, tag = 0, LEAF[k][1]
    else:
        x, c = Val(E, F, 'Seq', 'seq').struct(k[3:], key, b=b)
        con, tag = 1, 16
    inner = tlv(U, con, tag, c)
    kind = CHOICES[name][0]
    e, c = {'': (inner, c), 'explicit': (tlv(C, 1, num, inner), inner), 'implicit': (tlv(C, con, num, c), c)}[kind]
    return ('agg', '%s::%s' % (MOD, name), i, (x,)), e, c


class Case:
    always = None           # the value with fields equal to their default written all the same

    def __init__(self, ty, pre, name, make, info=None):
        self.ty, self.pre, self.name, self.make = ty, pre, name, make


def outer(style, content):
    return tlv(U, 1, 17 if style == 'set' else 16, content)


def cases():
    out = []
    for prefix, _, style, _, enc in STYLES:
        for n, fs in fields_of(prefix).items():
            opts = [f.name for f in fs if f.presence == 'opt']
            defs = [f.name for f in fs if f.presence not in ('opt', 'req')]
            variants = [('all fields', {}), ('all fields, false', {'b': False})]
            for k in range(1, len(opts) + 1):
                variants += [('without ' + ' and '.join(c), {'absent': c}) for c in itertools.combinations(opts, k)]
            variants += [('%s equal to its default' % d, {'default': (d,)}) for d in defs]
            for pre in enc:
                for name, kw in variants:
                    def make(E, F, prefix=prefix, n=n, kw=kw, pre=pre, style=style):
                        v, c = Val(E, F, prefix, style).struct(n, 'v', der=pre == 'der', **kw)
                        return v, outer(style, c), c

                    def always(E, F, prefix=prefix, n=n, kw=kw, style=style):
                        v, c = Val(E, F, prefix, style).struct(n, 'v', **kw)
                        return v, outer(style, c), c
                    c = Case(prefix + n, pre, name, make)
                    c.always = always if kw.get('default') and pre == 'der' else None
                    out.append(c)
    for n in CHOICES:
        for i, (v, k, _) in enumerate(alternatives(n)):
            for b in ((True, False) if k == 'bool' else (True,)):
                def make(E, F, n=n, i=i, b=b):
                    return choice_value(E, F, n, i, 'v', b)
                for pre in ('ber', 'der'):
                    out.append(Case(n, pre, 'variant %s%s' % (v, '' if b else ' false'), make))
    for n, vs in ENUMS.items():
        for i, (v, x, _) in enumerate(vs):
            def make(E, F, n=n, i=i, x=x):
                c = [L(y) for y in x.to_bytes((x.bit_length() + 8) // 8, 'big')]
                return ('agg', '%s::%s' % (MOD, n), i, ()), tlv(U, 0, 10, c), c
            for pre in ('ber', 'der'):
                out.append(Case(n, pre, 'value %d' % x, make))
    for prefix, _, _, enc in STYLE_ALIAS:
        for n, k in ALIASES.items():
            def make(E, F, t=prefix + n, k=k):
                x, c = leaf_value(E, k, 'v', True, None)
                return ('agg', '%s::%s' % (MOD, t), 0, (x,)), tlv(U, 0, LEAF[k][1], c), c
            for pre in enc:
                out.append(Case(prefix + n, pre, 'value', make))
    return out


METHODS = ('encode', 'write_content', 'total_len', 'content_len', 'encode_tagged_explicit', 'encode_tagged_implicit')


def judge(F, c, m, iid, make=None):
    want = {}

    def prep(E, inst, args, st):
        v, e, content = (make or c.make)(E, F)
        args[0] = ('rv', v)
        want['e'], want['c'] = e, content
        if m.startswith('encode_tagged'):
            args[1] = ('agg', 'class::Class', variant_ix(F, 'class::Class', 'ContextSpecific'), ())
            args[2] = ('i', L(9))
        return args, st

    class R(EncRules):
        failing = True
    o = encode(F, iid, R(), prep=prep)
    if o.err:
        return [o.err]
    E = o.E
    bad = set()
    e = want['e']
    if m == 'write_content':
        e = want['c']
    elif m == 'encode_tagged_explicit':
        e = tlv(C, 1, 9, e)
    elif m == 'encode_tagged_implicit':
        con = lconst(want['e'][0]) >> 5 & 1
        e = tlv(C, con, 9, want['c'])
    good = 0
    for s, v in o.exits:
        if m.endswith('_len'):
            n = L(len(want['e' if m == 'total_len' else 'c']))
            if v[0] != 'agg' or v[1] != LENGTH or len(v[3]) != 1 or not eq0(E, s, ladd(E.vint(v[3][0]), n, -1)):
                bad.add('is not the number of octets written, %d' % lconst(n))
            good += 1
            continue
        failed = FAIL in s.cells
        n = okv(v)
        if n is None:
            if not failed:
                bad.add('fails although nothing failed to be written')
            continue
        if failed:
            bad.add('a failing writer is not reported')
            continue
        good += 1
        r = R()
        got = log_bytes(E, r.log(s))
        if not same_bytes(E, s, got, e):
            k = None
            if got is not None:
                k = next((i for i, (a, b) in enumerate(zip(got, e)) if not eq0(E, s, E.folded(s, ladd(a, b, -1)))), min(len(got), len(e)))
            bad.add('does not write the octets of the value' + (' (octet %d)' % k if k is not None else ''))
        elif n[0] != 'i' or not eq0(E, s, ladd(E.vint(n), L(len(e)), -1)):
            bad.add('does not return the number of octets written')
    if not good:
        bad.add('never succeeds')
    return sorted(bad)


def run():
    F = base.facts('derive')
    rep = base.Report('G02', 'proof')
    ms = {}
    for r in F.roots:
        if run_.has_body(F, r['inst']) and re.search(r'(^|::)To(Ber|Der)$', r['trait']):
            t = F.types[r['self']]['s']
            if MOD in t:
                ms[re.sub(r'<.*|.*::', '', t), r['method']] = r['inst']
    items = []
    for c in cases():
        for m in METHODS:
            iid = ms.get((c.ty, '%s_%s' % (c.pre, m)))
            if iid is None:
                raise base.CheckError('no %s::%s_%s' % (c.ty, c.pre, m))
            if m.startswith('encode_tagged') and c.name not in ('all fields', 'variant A', 'variant D', 'value', 'value 5', 'value 1000'):
                continue
            items.append((c, m, iid))

    def work(n):
        bad = judge(F, *items[n])
        if bad and items[n][0].always and not judge(F, *items[n], make=items[n][0].always):
            return ['DEFAULT']
        return bad
    res = base.pmap(work, range(len(items)))
    ways = {}
    for n, bad, exc in res:
        if items[n][0].always:
            ways.setdefault((items[n][0].ty, items[n][0].name), set()).add(str(bad))
    for n, bad, exc in res:
        c, m, iid = items[n]
        if bad == ['DEFAULT'] and len(ways[c.ty, c.name]) > 1:
            bad = ['a field that has its default value is written by some methods and left out by others']
        rep.obligations += 1
        where = '%s::%s_%s|%s' % (c.ty, c.pre, m, c.name)
        i = F.insts[iid]
        if exc:
            rep.violate(where + '|undecided', '%s in %s: %s' % (i.get('sp'), i['full'], exc.strip().splitlines()[-1]))
            continue
        rep.discharged += not bad
        for t in bad:
            if t == 'DEFAULT':
                rep.violate('%s::der|%s is written' % (c.ty, c.name), '%s in %s: the field is written although it has its '
                            'default value (X.690 11.5)' % (i.get('sp'), i['full']))
                continue
            rep.violate(where, '%s in %s, %s: %s' % (i.get('sp'), i['full'], c.name, t))
    rep.floor('encoders and values', len(items), 400)
    rep.rules = ['every path of a derived encoder writes exactly the octets of the definition, returns and predicts their number']
    return rep

"""Encoders of objects: every type, every encoding method, on arbitrary values (or classes of values), path by path.

structure: what is written is identifier octets, length octets, content; the length announced, the number of octets
reported and the length functions agree with what is written; the identifier is that of the type.
content: the content octets are those X.690 prescribes for the value."""
import os, re
import base, run as run_
from encode import *
from probe import short
from tagtab import *
from expect import field, leaf, payload

OPTION, CLASS, TAGT = 'std::option::Option', 'class::Class', 'tag::Tag'
SLICES = {'&[u8]', '&str', 'String', 'OctetString', 'Integer', 'ObjectDescriptor', 'Oid', 'Sequence', 'Set', 'Utf8String',
          'NumericString', 'PrintableString', 'TeletexString', 'VideotexString', 'Ia5String', 'GraphicString',
          'VisibleString', 'GeneralString', 'Any'}
LISTS = {'Vec<T>', 'SequenceOf<T>', '[T; N]', 'SetOf<T>', 'BTreeSet<T>', 'HashSet<T, S>', 'AnySequence', 'AnySet', 'AnySet<S>',
         'IndefiniteVec<T>'}
FLOATS = {'Real', 'f32', 'f64'}
TIMES = {'UtcTime': (0, 99), 'GeneralizedTime': (0, 9999)}    # year: UtcTime writes the lower two digits
METHODS = ('encode', 'encode_tagged_explicit', 'encode_tagged_implicit', 'write_header', 'write_content')
VECS = {'ber': 'to_ber_vec', 'der': 'to_der_vec'}
WRITES = {'ber': 'write_ber', 'der': 'write_der'}


def name_of(s):
    s = short(s)
    return s.replace('Explicit, CLASS, TAG', 'Explicit').replace('Implicit, CLASS, TAG', 'Implicit')


class Case:
    """a type, an encoding method, a class of values"""

    def __init__(self, ty, pre, method, iid, lens, name, setup, want, rules):
        self.ty, self.pre, self.method, self.iid, self.lens = ty, pre, method, iid, lens
        self.name, self.setup, self.want, self.rules = name, setup, want, rules


def with_slice(E, ti, sl):
    """a value of the type whose (only) list or string is the slice"""
    t = E.types[ti]
    if t['k'] == 'ref':
        v = with_slice(E, t['e'], sl)
        return ('rv', v) if v is not None else None
    if t['k'] in ('slice', 'str', 'array'):
        return sl
    if t['k'] == 'adt':
        if t['path'] in ('std::vec::Vec', 'std::string::String'):
            return ('agg', t['path'], 0, (sl,))
        if t['path'] == 'std::borrow::Cow':
            return ('agg', t['path'], 0, (('rv', sl),))
        if t['path'].startswith('std::collections::'):
            return sl
        a = E.F.adts.get(t['path'])
        if a is None or a['enum']:
            return None
        out, hit = [], False
        for i, f in enumerate(a['variants'][0]['fields']):
            v = with_slice(E, f['t'], sl) if not hit else None
            hit = hit or v is not None
            out.append(v if v is not None else E.sym(('field', ti, i), f['t']))
        return ('agg', t['path'], 0, tuple(out)) if hit else None
    return None


def reify(E, ti, key, pick):
    """an arbitrary value of the type, its structures made explicit; enumerations named in pick are in that variant"""
    t = E.types[ti]
    if t['k'] == 'adt':
        a = E.F.adts.get(t['path'])
        if a is not None and t['path'] in pick:
            i = pick[t['path']]
            return ('agg', t['path'], i, tuple(reify(E, f['t'], (key, i, k), pick) for k, f in enumerate(a['variants'][i]['fields'])))
        if a is not None and not a['enum'] and t['path'] not in ('std::vec::Vec', 'std::string::String'):
            return ('agg', t['path'], 0, tuple(reify(E, f['t'], (key, k), pick) for k, f in enumerate(a['variants'][0]['fields'])))
    return E.sym(key, ti)


class Run:
    """one executed case"""

    def __init__(self, F, c):
        self.c = c
        self.rules = (c.rules or ObjRules)()
        self.rules.pre = c.pre
        self.o = encode(F, c.iid, self.rules, prep=self.prep, steps=200000)
        self.E, self.err = self.o.E, self.o.err
        self.F = F
        self.args = self.o.args
        self.value = self.args[0]
        self.ok, self.bad = [], []
        if self.err:
            return
        for s, v in self.o.exits:
            fail = FAIL in s.cells
            if okv(v) is not None:
                if fail:
                    self.bad.append('a failed write is not reported')
                else:
                    self.ok.append((s, okv(v), self.rules.log(s)))
            elif is_err(v):
                if not fail:
                    self.bad.append('fails although every write succeeds')
            else:
                self.bad.append('undetermined outcome')
        if not self.ok and not self.bad:
            self.bad.append('never succeeds')

    def prep(self, E, inst, args, st):
        if self.c.setup:
            r = self.c.setup(E, inst, args, st)
            if r is not None:
                return r
        return args, st

    def inp(self):
        return self.value

    def strip(self, s, v):
        return self.rules.strip(self.E, s, v)

    def measure(self, s, iid):
        """the value another method returns for the same object on the same path -> [(state, value)]"""
        E = self.E
        return E.run_inst(iid, [self.value], s.copy(), E.newfid(0, ('measure', iid)))


def lin_of(v):
    return None if v is None else v


def eqv(E, s, a, b):
    """two values are the same"""
    if a == b:
        return True
    if a[0] in ('i', 'b') and b[0] in ('i', 'b'):
        return eq0(E, s, E.folded(s, ladd(E.vint(a), E.vint(b), -1)))
    if a[0] == 'agg' and b[0] == 'agg' and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
        return all(eqv(E, s, x, y) for x, y in zip(a[3], b[3]))
    if a[0] == 'sym' and b[0] == 'agg' or a[0] == 'agg' and b[0] == 'sym':
        if b[0] == 'sym':
            a, b = b, a
        # a symbol of an enumeration or a wrapper: compare what it is known to hold
        if b[1] == CLASS:
            d = E.discr_of(s, a, E.F.adts[CLASS], None) if False else None
            return False
        if len(b[3]) == 1:
            x = E.project(a, None, 0, None)
            return eqv(E, s, x, b[3][0])
    return False


def split(pieces):
    """[(kind, header pieces, content pieces)] -> identifier, length, content"""
    if len(pieces) >= 2 and pieces[0][1] == 'tag' and pieces[1][1] == 'len':
        return pieces[0], pieces[1], pieces[2:]
    return None


def length_problem(E, s, ln, body):
    l = ln[3][1]
    n = log_len(E, body, s)
    if l[1] != LENGTH:
        return 'unknown length'
    if not l[3]:
        b = log_bytes(E, body[-1:])
        if not same_bytes(E, s, b[-2:] if b else None, [L(0), L(0)]):
            return 'indefinite length, but the content is not followed by end-of-contents octets'
        return None
    if n is None:
        return 'cannot tell how many content octets are written'
    if not eq0(E, s, E.folded(s, ladd(n, E.vint(l[3][0]), -1))):
        return 'the length octets announce another number of octets than the content written'
    return None


def ident_problem(E, s, tg, want):
    cls, con, num = want
    _, c, p, t = tg[3]
    for got, w, what in ((c, cls, 'class'), (p, con, 'form'), (t, num, 'tag number')):
        if w is not None and not eqv(E, s, got, w):
            return 'identifier octets with the wrong ' + what
    return None


def klass(i):
    return ('agg', CLASS, i, ())


def tagv(n):
    return ('agg', TAGT, 0, (('i', L(n)),))


def tag_info(r, x):
    """what the type parameter says of its value: (class, constructed, tag)"""
    ti = [i for i, t in enumerate(r.F.types) if t['k'] == 'tuple' and [r.F.types[e]['s'] for e in t['es']] == [CLASS, 'bool', TAGT]]
    return [r.E.sym((r.c.pre, 'tag_info', x), t)[3] for t in ti]


def inner_form(r, s, v):
    """IMPLICIT tagging keeps the form of the value inside (X.690 8.14.3)"""
    return tag_info(r, r.strip(s, field(r, v, 'inner')))[0][1]


def own_ident(r, s):
    """(class, constructed, tag) the object has, as values; None where any will do"""
    ty = r.c.ty
    if ty in TAG:
        con = ty in CONSTRUCTED
        n = TAG[ty]
        if ty == 'Oid':
            rel = r.E.vint(field(r, r.strip(s, r.value), 'relative'))
            h = eq0(r.E, s, ladd(rel, L(-1)))
            n = 13 if h else 6
            if not h and not eq0(r.E, s, rel):
                return None
        return klass(0), ('b', ('c', con)), tagv(n)
    if ty == 'IndefiniteVec<T>':
        return klass(0), ('b', ('c', True)), tagv(16)
    if ty in ('Any', 'Header') or ty.startswith('TaggedParser'):
        v = r.strip(s, r.value)
        h = v if ty == 'Header' else field(r, v, 'header')
        con = field(r, h, 'constructed')
        if ty.startswith('TaggedParser<Explicit'):
            con = ('b', ('c', True))
        if ty.startswith('TaggedParser<Implicit'):
            con = inner_form(r, s, v)
        return r.strip(s, field(r, h, 'class')), con, r.strip(s, field(r, h, 'tag'))
    if ty.startswith('TaggedValue'):
        return klass(r.rules.tyconsts['CLASS']), ('b', ('c', True)) if 'Explicit' in ty else \
            inner_form(r, s, r.strip(s, r.value)), tagv(r.rules.tyconsts['TAG'])
    return None


def object_problem(r, s, ps, ident):
    """the pieces are one object with the identifier (None: of a type parameter)"""
    E = r.E
    if len(ps) == 2 and ps[0][1] == 'hdr' and ps[1][1] == 'sub' and eqv(E, s, ps[0][3][1], ps[1][3][1]):
        return None if ident is None else 'no header of its own'
    sp = split(ps)
    if sp is None:
        return 'does not write identifier and length octets followed by the content'
    if ident is None:
        return 'writes a header of its own'
    return ident_problem(E, s, sp[0], ident) or length_problem(E, s, sp[1], sp[2])


def header_of_param(r, s, ps):
    """identifier and length octets made of the tag information and the content length of the type parameter"""
    sp = split(ps)
    if sp is None or sp[2]:
        return False
    if r.c.name == 'absent':
        return True
    E = r.E
    x = r.strip(s, r.value)
    if x[0] == 'agg' and x[1] == OPTION:
        x = r.strip(s, x[3][0])
    c, l, n = r.rules.measures(E, s, r.c.pre, x)
    return any(not ident_problem(E, s, sp[0], t) for t in tag_info(r, x)) and \
        sp[1][3][1][3] and eq0(E, s, ladd(E.vint(sp[1][3][1][3][0]), c, -1))


DELEGATES = {'&T', 'Option<T>'}


def structure(r):
    """problems of one case"""
    c, E = r.c, r.E
    out = list(dict.fromkeys(r.bad))
    for s, n, ps in r.ok:
        p = one(r, s, n, ps)
        if p and p not in out:
            out.append(p)
    return out


def one(r, s, n, ps):
    c, E = r.c, r.E
    m = c.method
    none = c.name == 'absent'
    if c.ty == 'Header':
        if m == 'encode' or m == 'write_header':
            sp = split(ps)
            if sp is None or sp[2]:
                return 'does not write exactly identifier and length octets'
            p = ident_problem(E, s, sp[0], own_ident(r, s))
            l = r.strip(s, field(r, r.strip(s, r.value), 'length'))
            if not p and not eqv(E, s, r.strip(s, sp[1][3][1]), l):
                p = 'another length than that of the header'
            if p:
                return p
        elif m == 'write_content':
            if ps:
                return 'a header has no content'
        else:
            return None
        if n[0] == 'i' and not eq0(E, s, ladd(E.vint(n), log_len(E, ps, s) or L(-1), -1)) and ps:
            return 'reports another number of octets than it writes'
        return None
    if none:
        if ps and m != 'write_header':
            return 'an absent value is encoded'
    elif m in ('encode_tagged_explicit', 'encode_tagged_implicit'):
        cls, num = r.strip(s, r.args[1]), r.args[2]
        num = ('agg', TAGT, 0, (num,)) if num[0] == 'i' else num
        if len(ps) == 1 and ps[0][1] == m:
            t = ps[0][3][3]
            if not eqv(E, s, ps[0][3][2], cls) or not eqv(E, s, t, r.args[2]):
                return 'another class or number handed to the encoder of the value'
        else:
            sp = split(ps)
            if sp is None:
                return 'does not write identifier and length octets followed by the content'
            own = own_ident(r, s) if c.ty not in DELEGATES else None
            con = ('b', ('c', True)) if m.endswith('explicit') else own[1] if own else None
            p = ident_problem(E, s, sp[0], (cls, con, num)) or length_problem(E, s, sp[1], sp[2])
            if not p and m.endswith('explicit'):
                p = object_problem(r, s, list(sp[2]), own)
                p = p and 'inner object: ' + p
            if p:
                return p
    elif m == 'write_header':
        if c.ty in DELEGATES:
            if [x[1] for x in ps] != ['hdr'] and not header_of_param(r, s, ps):
                return 'does not write the header of the value'
        else:
            sp = split(ps)
            if sp is None or sp[2]:
                return 'does not write exactly identifier and length octets'
            p = ident_problem(E, s, sp[0], own_ident(r, s) or (None,) * 3)
            if p:
                return p
    elif m == 'write_content':
        pass
    else:
        p = object_problem(r, s, list(ps), own_ident(r, s) if c.ty not in DELEGATES else None)
        if p:
            return p
        if c.ty.startswith('TaggedValue') or c.ty.startswith('TaggedParser'):
            inner = split(ps)[2]
            kinds = [x[1] for x in inner]
            if kinds != (['hdr', 'sub'] if 'Explicit' in c.ty else ['sub']):
                return 'the content is not that of the inner value'
    if n[0] == 'i':
        total = log_len(E, ps, s)
        if total is None:
            return 'cannot tell how many octets are written'
        if not eq0(E, s, E.folded(s, ladd(E.vint(n), total, -1))):
            return 'reports another number of octets than it writes'
    if m in ('encode', 'write_content'):
        for what, iid in c.lens.items():
            if m == 'encode' and what != 'total_len' or m == 'write_content' and what != 'content_len':
                continue
            for s2, v in r.measure(s, iid):
                if v[0] != 'agg' or v[1] != LENGTH:
                    return '%s_%s: undetermined' % (c.pre, what)
                if not v[3]:
                    if c.ty != 'IndefiniteVec<T>':
                        return '%s_%s is indefinite' % (c.pre, what)
                    continue
                if c.ty == 'IndefiniteVec<T>':
                    return '%s_%s is definite' % (c.pre, what)
                if not eq0(E, s2, E.folded(s2, ladd(E.vint(v[3][0]), log_len(E, ps, s2), -1))):
                    return '%s_%s is not the number of octets %s_%s writes' % (c.pre, what, c.pre, m)
    return None


# ---------------------------------------------------------------- content octets
def content_of(r, s, ps):
    """the pieces that are content octets of the value itself"""
    m = r.c.method
    if m == 'write_content':
        return list(ps)
    sp = split(ps)
    if sp is None:
        return None
    if m == 'encode_tagged_explicit':
        sp = split(sp[2])
        if sp is None:
            return None
    return list(sp[2])


def want_bytes(ds):
    def f(r, s, ps):
        got = log_bytes(r.E, ps)
        if not same_bytes(r.E, s, got, ds(r)):
            return 'the content octets are not those of the value'
    return f


def want_slice(r, s, ps):
    E = r.E
    if len(ps) != 1 or ps[0][1] != 'bytes':
        return 'the content is not written as it is held' if ps else 'no content is written'
    sl = ps[0][3][0]
    if sl[0] != 'sl':
        return 'the content is not written as it is held'
    full = E.fullsl(sl[1])
    if not (eq0(E, s, ladd(sl[2], full[2], -1)) and eq0(E, s, ladd(sl[3], full[3], -1))):
        return 'not all of the content is written'
    v = r.strip(s, r.value)
    want = v
    for f in ('data', 'asn1', 'content'):
        x = field(r, v, f)
        if x is not None:
            want = x
            break
    w = E.as_slice(want) if want[0] != 'sym' or not want[2] else None
    if w is not None and w[1] != sl[1]:
        return 'other octets than those of the value'
    return None


def want_bits(r, s, ps):
    """the number of unused bits, the octets of the bit string, the last one with zeros for the unused bits"""
    E = r.E
    ps = list(ps)
    u = log_bytes(E, ps[:1]) if ps and ps[0][1] == 'bytes' else None
    if u is None or len(u) != 1 or not eq0(E, s, ladd(u[0], L(-r.rules.unused))):
        return 'the first content octet is not the number of unused bits'
    at, full = L(0), None
    for p in ps[1:]:
        sl = p[3][0] if p[1] == 'bytes' else None
        if sl is None:
            return 'the content is not the number of unused bits followed by the octets of the bit string'
        if sl[1][0] == 'bits':
            if not eq0(E, s, ladd(sl[2], at, -1)):
                return 'not all octets of the bit string are written in order'
            full, at = E.fullsl(sl[1]), sl[3]
            if r.rules.unused and r.c.pre == 'der' and not E.holds(s, ('le', ladd(ladd(at, L(1)), full[3], -1))):
                return 'unused bits are written as they are held'
            continue
        b = log_bytes(E, [p])
        base = r.bits_base(s)
        full = E.fullsl(base)
        if b is None or len(b) != 1 or not eq0(E, s, ladd(ladd(at, full[3], -1), L(1))):
            return 'other octets than those of the bit string are written'
        last = E.vint(E.elem(full, ladd(full[3], L(-1)), None))
        if not eq0(E, s, ladd(b[0], last, -1)) and not eq0(E, s, ladd(ladd(b[0], last, -1), E.alin(('unused', base), 0, 255))):
            return 'the last octet is not that of the bit string with zeros for the unused bits'
        if r.c.pre == 'der' and r.rules.unused and eq0(E, s, ladd(b[0], last, -1)):
            return 'unused bits are written as they are held'
        at = full[3]
    if full is not None and not eq0(E, s, ladd(at, full[3], -1)):
        return 'not all octets of the bit string are written'
    if full is None and not eq0(E, s, E.fullsl(r.bits_base(s))[3]):
        return 'no octets of the bit string are written'
    return None


def want_list(n):
    def f(r, s, ps):
        E = r.E
        if r.c.ty == 'IndefiniteVec<T>' and ps:
            ps = ps[:-1]
        if r.c.ty.startswith('Any'):
            objs = []
            ps = list(ps)
            while ps:
                if len(ps) < 3 or split(ps[:2]) is None:
                    return 'the content is not a sequence of objects'
                if ps[2][1] != 'bytes' or length_problem(E, s, ps[1], ps[2:3]):
                    return 'the objects contained are not well-formed'
                objs.append(ps[2][3][0])
                ps = ps[3:]
        else:
            objs = []
            if len(ps) % 2:
                return 'the content is not the sequence of the elements'
            for a, b in zip(ps[::2], ps[1::2]):
                if a[1] != 'hdr' or b[1] != 'sub' or not eqv(E, s, a[3][1], b[3][1]):
                    return 'the content is not the sequence of the elements'
                objs.append(b[3][1])
        if len(objs) != n:
            return '%d elements written instead of %d' % (len(objs), n)
        if not r.c.ty.startswith('Any'):
            for i, x in enumerate(objs):
                if not eqv(E, s, x, E.elem(('sl', ('elems',), L(0), L(n)), L(i), r.elty())):
                    return 'the elements are not written one after the other'
        elif len({str(x) for x in objs}) != n:
            return 'an element is written twice'
        return None
    return f


def want_time(digs):
    def f(r, s, ps):
        E = r.E
        if len(ps) != 1 or ps[0][1] != 'text' or ps[0][3][0][:2] != ('agg', 'fmt'):
            return 'cannot tell what is written'
        t = field(r, r.strip(s, r.value), '0') if False else r.dt(s)
        want = [(digs, ('i', digit(E, 'year', *TIMES[r.c.ty]))), (2, field(r, t, 'month')), (2, field(r, t, 'day')), (2, field(r, t, 'hour')),
                (2, field(r, t, 'minute')), (2, field(r, t, 'second'))]
        items = list(ps[0][3][0][3])
        for w, v in want:
            if not items or items[0][1] != 'put':
                return 'date and time are not YYMMDDhhmmss'
            x = items.pop(0)[3]
            if lconst(E.vint(x[1])) != w or lconst(E.vint(x[2])) != 1 or not eqv(E, s, x[0], v):
                return 'date and time are not YYMMDDhhmmss'
        rest = b''
        for x in items:
            b = const_text(E, s, ('agg', 'fmt', 0, (x,)))
            if b is None:
                return 'cannot tell what follows the seconds'
            rest += b
        if rest != r.c.rest:
            return 'the seconds are followed by %r instead of %r' % (rest.decode('latin1'), r.c.rest.decode())
        return None
    return f


def _elty(self):
    ti = self.F.insts[self.c.iid]['body']['locals'][1]
    return None


def _dt(self, s):
    v = self.strip(s, self.value)
    return self.strip(s, self.E.project(v, None, 0, self.F.adts[self.c.path]['variants'][0]['fields'][0]['t']))


def _bits_base(self, s):
    f = self.F.adts[self.c.path]['variants'][0]['fields'][0]['t']
    return ('bits', self.strip(s, self.E.project(self.strip(s, self.value), None, 0, f)), self.rules.unused)


Run.bits_base = _bits_base
Run.elty, Run.dt = _elty, _dt


def int_classes(ty):
    w = WIDTH[ty] if ty in WIDTH else 4
    signed = ty.startswith('i')
    out = [('0', [(0, 0)], 0, [])]
    for j in range(1, w + 1):
        tail = [(0, 255)] * (j - 1)
        out.append(('positive, %d octets, first below 80' % j, [(1, 127)] + tail, 0, []))
        if not signed or j < w:
            out.append(('positive, %d octets, first from 80' % j, [(128, 255)] + tail, 0, [L(0)]))
        if signed:
            if j == 1:
                out.append(('negative, 1 octet', [(128, 255)], 1, []))
            else:
                out.append(('negative, %d octets, first below ff' % j, [(128, 254)] + tail, 1, []))
                out.append(('negative, %d octets, first ff' % j, [(255, 255), (0, 127)] + tail[1:], 1, []))
    return out


def int_digits(E, rs):
    return [L(a) if a == b else digit(E, ('int', i), a, b) for i, (a, b) in enumerate(rs)]


def int_value(E, rs, neg):
    v = compose(int_digits(E, rs), 256)
    return ladd(v, L(-(256 ** len(rs)))) if neg else v


def cases_of(F, ty, ti, pre, deep):
    """[(name, setup, expected content or None, rules, extra)]"""
    def setval(mk):
        def setup(E, inst, args, st):
            t = E.types[inst['body']['locals'][1]]
            args[0] = ('rv', mk(E, t['e']))
            return args, st
        return setup
    out = []
    if ty == 'bool':
        for b in (0, 1):
            out.append(('TRUE' if b else 'FALSE', setval(lambda E, t, b=b: ('b', ('c', bool(b)))), want_bytes(lambda r, b=b: [L(255 * b)])))
    elif ty == 'Boolean':
        path = F.types[ti]['path']
        out.append(('FALSE', setval(lambda E, t: ('agg', path, 0, (('i', L(0)),))), want_bytes(lambda r: [L(0)])))
        out.append(('TRUE', setval(lambda E, t: ('agg', path, 0, (('i', L(255)),))), want_bytes(lambda r: [L(255)])))
        mk = setval(lambda E, t: ('agg', path, 0, (('i', digit(E, 'bool', 1, 254)),)))
        out.append(('TRUE, not FF', mk, want_bytes(lambda r: [L(255)] if pre == 'der' else [digit(r.E, 'bool', 1, 254)])))
    elif ty in ('Null', '()'):
        out.append(('', None, want_bytes(lambda r: [])))
    elif ty in ('Any', 'Header', 'Oid') or ty.startswith('TaggedParser'):
        for name, i in (('definite', 0), ('indefinite', 1)):
            if ty == 'Oid' and i:
                continue
            pick = {LENGTH: i}
            mk = setval(lambda E, t, pick=pick: reify(E, t, ('self',), pick))
            out.append(('' if ty == 'Oid' else name, mk, want_slice if ty in SLICES else None))
    elif ty in SLICES:
        out.append(('', None, want_slice))
    elif ty == 'BitString':
        for u in range(8):
            class R(ObjRules):
                unused = u
            out.append(('%d unused bits' % u, None, want_bits, {'rules': R, 'path': F.types[ti]['path']}))
    elif ty in WIDTH or ty == 'Enumerated':
        path = F.types[ti].get('path')
        for name, rs, neg, lead in int_classes('u32' if ty == 'Enumerated' else ty):
            def mk(E, t, rs=rs, neg=neg):
                v = ('i', int_value(E, rs, neg))
                return v if path is None else ('agg', path, 0, (v,))
            out.append((name, setval(mk), want_bytes(lambda r, rs=rs, lead=lead: lead + int_digits(r.E, rs))))
    elif ty in TIMES:
        path = F.types[ti]['path']
        lo, hi = TIMES[ty]
        dt = F.types[F.adts[path]['variants'][0]['fields'][0]['t']]['path']
        for ms, rest in ([(None, b'Z')] if ty == 'UtcTime' else
                         [(None, b'Z'), (0, b'Z'), (1, b'.001Z'), (10, b'.01Z'), (100, b'.1Z'), (120, b'.12Z'), (999, b'.999Z'),
                          (500, b'.5Z'), (50, b'.05Z'), (505, b'.505Z'), (7, b'.007Z'), (990, b'.99Z')]):
            def mk(E, t, ms=ms):
                fs = []
                for f in F.adts[dt]['variants'][0]['fields']:
                    n = f['name']
                    if n == 'millisecond':
                        fs.append(('agg', OPTION, 0, ()) if ms is None else ('agg', OPTION, 1, (('i', L(ms)),)))
                    elif n == 'tz':
                        a = F.types[f['t']]['path']
                        fs.append(('agg', a, variant_ix(F, a, 'Z'), ()))
                    elif n == 'year' and ty == 'UtcTime':
                        fs.append(('i', ladd(lscale(digit(E, 'century', 0, 99), 100), digit(E, n, lo, hi))))
                    else:
                        fs.append(('i', digit(E, n, *{'year': (lo, hi), 'month': (1, 12), 'day': (1, 31), 'hour': (0, 23),
                                                      'minute': (0, 59), 'second': (0, 59)}[n])))
                return ('agg', path, 0, (('agg', dt, 0, tuple(fs)),))
            out.append(('milliseconds %s' % ms, setval(mk), want_time(2 if ty == 'UtcTime' else 4), {'rest': rest, 'path': path}))
    elif ty in ('BmpString', 'UniversalString'):
        k = 2 if ty == 'BmpString' else 3
        for n in range(3 if not deep else 5):
            for bits in range(1 << n):
                wide = tuple(i for i in range(n) if bits >> i & 1)

                class R(ObjRules):
                    astral = wide
                    nchars = n

                def ds(r, n=n, k=k, wide=wide):
                    return [d for ds in char_digits(r.E, n, k, wide) for d in ([L(0)] if k == 3 else []) + ds]
                name = '%d characters%s' % (n, ', beyond ffff: %s' % (wide,) if wide else '')
                def mk(E, t, n=n, k=len(wide)):
                    u = E.alin(('utf8', n, k), n + 3 * k, 3 * n + k) if n else L(0)
                    return with_slice(E, t, ('sl', ('elems',), L(0), u))
                out.append((name, setval(mk), want_bytes(ds), {'rules': R}))
    elif ty in LISTS:
        for n in range(4 if deep else 3):
            out.append(('%d elements' % n, setval(lambda E, t, n=n: with_slice(E, t, ('sl', ('elems',), L(0), L(n)))), want_list(n)))
    elif ty == 'Option<T>':
        def setup(E, inst, args, st):
            t = E.types[inst['body']['locals'][1]]
            x = [a['t'] for a in E.types[t['e']]['args'] if 't' in a][0]
            args[0] = ('rv', ('agg', OPTION, 1, (E.sym(('present',), x),)))
            return args, st
        out.append(('present', setup, None))
        out.append(('absent', setval(lambda E, t: ('agg', OPTION, 0, ())), None))
    elif ty == 'Real':
        path = F.types[ti]['path']
        for v, b in (('Infinity', [0x40]), ('NegInfinity', [0x41]), ('NaN', [0x42]), ('Zero', [])):
            i = variant_ix(F, path, v)
            out.append((v, setval(lambda E, t, i=i: ('agg', path, i, ())), want_bytes(lambda r, b=b: [L(x) for x in b])))
    elif ty.startswith('TaggedValue'):
        for c, t in ((1, 5), (2, 0), (3, 31)) if not deep else [(a, b) for a in range(4) for b in (0, 5, 30, 31, 127, 128, 16384)]:
            class R(ObjRules):
                tyconsts = {'CLASS': c, 'TAG': t}
            mk = setval(lambda E, t: reify(E, t, ('self',), {}))
            out.append(('class %d, tag %d' % (c, t), mk, None, {'rules': R}))
    elif ty == '&T':
        out.append(('', None, None))
    return out


def build(F, deep, want_content):
    """all cases"""
    found = {}
    for r in F.roots:
        if run_.has_body(F, r['inst']) and re.search(r'(^|::)To(Ber|Der)$', r['trait']):
            found.setdefault((name_of(F.types[r['self']]['s']), r['self']), {}).setdefault(r['method'], r['inst'])
    out, types = [], set()
    seen = set()
    for (ty, ti), ms in sorted(found.items(), key=str):
        for pre in ('ber', 'der'):
            lens = {k: ms[pre + '_' + k] for k in ('total_len', 'content_len') if pre + '_' + k in ms}
            for m in METHODS + (VECS[pre], WRITES[pre]):
                iid = ms.get(pre + '_' + m, ms.get(m))
                if iid is None or (ty, m, pre) in seen:
                    continue
                if want_content and m not in ('encode', 'write_content', 'encode_tagged_explicit', 'encode_tagged_implicit'):
                    continue
                for x in cases_of(F, ty, ti, pre, deep):
                    name, setup, want = x[:3]
                    ex = x[3] if len(x) > 3 else {}
                    if want_content and want is None:
                        continue
                    if not want_content and ty in WIDTH and not (name == '0' or '1 octet' in name or '%d octets' % WIDTH[ty] in name):
                        continue
                    c = Case(ty, pre, m, iid, lens, name, setup, want, ex.get('rules'))
                    c.rest, c.path = ex.get('rest'), ex.get('path')
                    out.append(c)
                    types.add(ty)
            for m in METHODS + (VECS[pre], WRITES[pre]):
                seen.add((ty, m, pre))
    return out, types


def content(r):
    out = list(dict.fromkeys(r.bad))
    for s, n, ps in r.ok:
        cs = content_of(r, s, ps)
        p = 'no content octets to be told apart' if cs is None else r.c.want(r, s, cs)
        if p and p not in out:
            out.append(p)
    return out


def run_cases(F, rep, cases, judge):
    def work(n):
        r = Run(F, cases[n])
        return [r.err] if r.err else judge(r)
    for n, bad, exc in base.pmap(work, range(len(cases))):
        c = cases[n]
        rep.obligations += 1
        what = c.method if c.method.startswith(('to_', 'write_ber', 'write_der')) else c.pre + '_' + c.method
        where = '%s::%s|%s' % (c.ty, what, c.name)
        i = F.insts[c.iid]
        if exc:
            rep.violate(where + '|undecided', '%s in %s: %s' % (i.get('sp'), i['full'], exc))
            continue
        rep.discharged += not bad
        for t in bad:
            rep.violate(where, '%s in %s%s: %s' % (i.get('sp'), i['full'], ', ' + c.name if c.name else '', t))


# ---------------------------------------------------------------- bit vectors
BITSTRING = 'asn1_types::bitstring::BitString'
FRONT = {'from_slice', 'from_vec', 'from_element', 'new', 'with_capacity', 'repeat', 'default', 'try_from_slice', 'try_from_vec'}


def alignment(F, rep):
    """the octets of a bit string are those of its bit vector only if that begins at the front of an octet: every bit vector
    put into a BitString comes from a constructor that begins there, from another BitString, or is aligned by force_align"""
    n = 0
    for i in F.insts:
        b = i.get('body')
        if not b or BITSTRING not in str(b.get('locals') and [F.types[t]['s'] for t in b['locals']]):
            continue
        defs, aligned, refs = {}, set(), {}
        for bb in b['blocks']:
            for pl, rv, sp in bb['s']:
                if not pl['p']:
                    defs.setdefault(pl['l'], []).append(rv)
            t = bb['t']
            if t['k'] == 'call' and not t['dest']['p']:
                defs.setdefault(t['dest']['l'], []).append(('call', t))

        def root(op, k=0):
            """the local behind moves and borrows"""
            p = op.get('mv') or op.get('cp')
            if p is None or k > 20:
                return None
            for d in defs.get(p['l'], []):
                if d[0] == 'use' and not p['p']:
                    return root(d[1], k + 1) if (d[1].get('mv') or d[1].get('cp') or {'p': 1})['p'] == [] else p['l']
                if d[0] == 'ref' and not d[2]['p']:
                    return root({'cp': d[2]}, k + 1)
            return p['l']
        for bb in b['blocks']:
            t = bb['t']
            fd = (t.get('f') or {}).get('c', {}).get('fn') if t['k'] == 'call' else None
            if fd and fd['name'] == 'force_align' and t['args']:
                aligned.add(root(t['args'][0]))
        for bb in b['blocks']:
            for pl, rv, sp in bb['s']:
                if rv[0] != 'agg' or rv[1].get('path') != BITSTRING:
                    continue
                n += 1
                rep.obligations += 1
                x = root(rv[2][0])
                good = x in aligned
                for d in defs.get(x, []) if not good else []:
                    if d[0] != 'call':
                        continue
                    fd = (d[1].get('f') or {}).get('c', {}).get('fn') or {}
                    src = d[1]['args'] and d[1]['args'][0]
                    st = F.types[b['locals'][1]]['s'] if len(b['locals']) > 1 else ''
                    if fd.get('name') in FRONT or fd.get('name') == 'clone' and 'BitString' in st:
                        good = True
                if good:
                    rep.discharged += 1
                else:
                    rep.violate('%s|bit vector' % i['full'].split('<')[0] + i['full'],
                                '%s in %s: a bit vector that may begin inside an octet becomes a BitString' % (sp, i['full']))
    return n

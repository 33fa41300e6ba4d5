"""Types that use the derive macros in every supported way, and what each of them means in ASN.1.

The macros' output is what is analysed: a copy of the crate is compiled with these types as one more module (the
output names the crate by its external name, so the copy gets that name as an alias of itself)."""
import os, re, shutil

U, A, C, P = range(4)
CLASS = ['UNIVERSAL', 'APPLICATION', '', 'PRIVATE']


class Fd:
    """field: kind is a leaf kind or the name of another witness; tag = (explicit?, class, number);
    presence: 'req', 'opt' or a default value"""
    def __init__(self, name, kind, tag=None, presence='req'):
        self.name, self.kind, self.tag, self.presence = name, kind, tag, presence


# kind -> (Rust type, universal tag, content length)
LEAF = {'u8': ('u8', 2, 1), 'u16': ('u16', 2, 2), 'bool': ('bool', 1, 1), 'oct': ("&'a [u8]", 4, 2),
        **{'o%d' % n: ("&'a [u8]", 4, n) for n in (126, 127, 128, 254)}}       # lengths where the form of a length changes


def ident_octets(cls, con, num):
    lead = cls << 6 | con << 5
    if num < 31:
        return [lead | num]
    groups = [num & 127]
    while num > 127:
        num >>= 7
        groups.insert(0, num & 127 | 128)
    return [lead | 31] + groups


def length_octets(n):
    if n < 128:
        return [n]
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return [128 | len(b)] + list(b)


def ex(c, n):
    return (True, c, n)


def im(c, n):
    return (False, c, n)


# name -> fields
FIELDS = {
    'Plain': [Fd('a', 'u8'), Fd('b', 'bool'), Fd('c', 'u16')],
    'Life': [Fd('a', 'oct'), Fd('b', 'u8')],
    'Opt': [Fd('a', 'u8'), Fd('b', 'bool', presence='opt'), Fd('c', 'u16')],
    'Tag': [Fd('a', 'u8', ex(C, 0)), Fd('b', 'bool', im(C, 1)), Fd('c', 'u8', ex(A, 2)), Fd('d', 'u16', im(P, 40))],
    'TagOpt': [Fd('a', 'u8', ex(C, 2), 'opt'), Fd('b', 'bool', im(C, 1), 'opt'), Fd('c', 'u16'), Fd('d', 'u8', ex(C, 40), 'opt')],
    'Def': [Fd('a', 'u8', None, 7), Fd('b', 'bool'), Fd('c', 'u8', ex(C, 3), 9), Fd('d', 'u8', im(C, 4), 11)],
    'BigTag': [Fd('a', 'u8', ex(C, 300)), Fd('b', 'bool', im(A, 127)), Fd('c', 'u8', im(C, 128), 'opt'), Fd('d', 'u8', ex(P, 16500), 'opt'),
               Fd('e', 'u16', im(U, 31))],
    'Long': [Fd('a', 'o127'), Fd('b', 'o126', ex(C, 0)), Fd('c', 'o128', im(C, 31))],
    'Edge': [Fd('a', 'o128'), Fd('b', 'o254', ex(C, 31)), Fd('c', 'o127', im(A, 31))],
    'OptNest': [Fd('a', 'Plain', presence='opt'), Fd('b', 'Plain', im(C, 1), 'opt'), Fd('c', 'Plain', ex(A, 2), 'opt'), Fd('d', 'u8', presence='opt')],
    'HasCh': [Fd('a', 'ChExplicit'), Fd('b', 'ChImplicit'), Fd('c', 'ChNest', ex(C, 7)), Fd('d', 'u8')],
    'OptCh': [Fd('a', 'ChNest', presence='opt'), Fd('b', 'u8')],
    'Nest': [Fd('a', 'Plain'), Fd('b', 'u8'), Fd('c', 'Plain', ex(C, 0)), Fd('d', 'Plain', im(C, 5))],
}
# (prefix of the type, derives, container, decoders, encoders); the fields are those above
STYLES = [
    ('Seq', ['Sequence'], 'seq', ('parse_ber', 'parse_der'), ('ber', 'der')),
    ('Set', ['Set'], 'set', ('parse_ber', 'parse_der'), ('ber', 'der')),
    ('OldSeq', ['BerParserSequence', 'DerParserSequence', 'ToBerSequence', 'ToDerSequence'], 'seq',
     ('parse_ber', 'parse_der'), ('ber', 'der')),
    ('OldSet', ['BerParserSet', 'DerParserSet', 'ToBerSet', 'ToDerSet'], 'set', ('parse_ber', 'parse_der'), ('ber', 'der')),
    ('BerSeq', ['BerSequence'], 'seq', ('from_ber',), ()),
    ('DerSeq', ['DerSequence'], 'seq', ('from_ber', 'from_der'), ()),
    ('BerSet', ['BerSet'], 'set', ('from_ber',), ()),
    ('DerSet', ['DerSet'], 'set', ('from_ber', 'from_der'), ()),
]
# name -> (kind of tagging, [(variant, leaf, tag attribute or None)]); '' for untagged
CHOICES = {
    'ChMix': ('implicit', [('A', 'u8', 9), ('B', 'bool', 4), ('C', 'u16', None)]),
    'ChMixEx': ('explicit', [('A', 'u8', 9), ('B', 'bool', 4), ('C', 'u16', None)]),
    'ChUntagged': ('', [('A', 'u8', None), ('B', 'bool', None), ('C', 'oct', None)]),
    'ChExplicit': ('explicit', [('A', 'u8', None), ('B', 'bool', 4), ('C', 'oct', None), ('D', 'u16', 40)]),
    'ChBig': ('implicit', [('A', 'u8', 127), ('B', 'bool', None), ('C', 'o127', 16384), ('D', 'u16', None)]),
    'ChBigEx': ('explicit', [('A', 'u8', 30), ('B', 'bool', None), ('C', 'o126', 300), ('D', 'u16', None)]),
    'ChNest': ('implicit', [('A', 'u8', 50), ('B', 'SeqPlain', None)]),
    'ChNestEx': ('explicit', [('A', 'SeqPlain', None), ('B', 'bool', None)]),
    'ChNestUn': ('', [('A', 'SeqPlain', None), ('B', 'bool', None)]),
    'ChImplicit': ('implicit', [('A', 'u8', None), ('B', 'bool', 4), ('C', 'oct', None), ('D', 'u16', 40)]),
}
ENUMS = {'Enu': [('Zero', 0, False), ('Four', 4, True), ('Five', 5, False), ('Big', 1000, True), ('Next', 1001, False),
                ('Huge', 70000, True), ('Top', 0x80000000, True), ('Last', 0xfffffffe, True)]}
ALIASES = {'AlU8': 'u8', 'AlOct': 'oct'}
STYLE_ALIAS = [('New', ['Alias'], ('parse_ber', 'parse_der'), ('ber', 'der')),
               ('OldP', ['BerParserAlias', 'DerParserAlias'], ('parse_ber', 'parse_der'), ()),
               ('OldB', ['BerAlias'], ('from_ber',), ()), ('OldD', ['DerAlias'], ('from_ber', 'from_der'), ())]


def fields_of(prefix):
    """the definitions of a style; a CHOICE has no decoders of the old kind"""
    return {n: fs for n, fs in FIELDS.items() if prefix in ('Seq', 'Set', 'OldSeq', 'OldSet') or not any(f.kind in CHOICES for f in fs)}


def octets(kind):
    return kind in LEAF and LEAF[kind][1] == 4


def alternatives(name):
    """[(variant, kind, number)] of a CHOICE"""
    num, out = -1, []
    for v, k, t in CHOICES[name][1]:
        num = t if t is not None else num + 1
        out.append((v, k, num))
    return out


# types with a fixed tag: (type, class, constructed, number); the traits Tagged and DynTagged
PRIM = [('bool', 1), ('Boolean', 1), ('Integer', 2), ('BitString', 3), ("&'static [u8]", 4), ('OctetString', 4), ('()', 5), ('Null', 5),
        ('ObjectDescriptor', 7), ('f32', 9), ('f64', 9), ('Real', 9), ('Enumerated', 10), ('Utf8String', 12), ("&'static str", 12),
        ('String', 12), ('NumericString', 18), ('PrintableString', 19), ('TeletexString', 20), ('VideotexString', 21), ('Ia5String', 22),
        ('UtcTime', 23), ('GeneralizedTime', 24), ('GraphicString', 25), ('VisibleString', 26), ('GeneralString', 27),
        ('UniversalString', 28), ('BmpString', 30), ('EndOfContent', 0)] + \
       [(t, 2) for t in 'i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize'.split()]
CONS = [('EmbeddedPdv', 11), ('Sequence', 16), ('SequenceOf<u8>', 16), ('Vec<u8>', 16), ('AnySequence', 16), ('[u8; 2]', 16), ('Set', 17),
        ('SetOf<u8>', 17), ('std::collections::BTreeSet<u8>', 17), ('std::collections::HashSet<u8>', 17), ('AnySet', 17)] + \
       [('(%s)' % ('u8,' * n), 16) for n in range(1, 13)]
TAGGED = [(t, U, 0, n) for t, n in PRIM] + [(t, U, 1, n) for t, n in CONS]
TAGGED += [('TaggedValue<u8, Error, Explicit, %d, %d>' % (c, n), c, 1, n) for c in range(4) for n in (0, 5, 300)]
TAGGED += [('SeqPlain', U, 1, 16), ('SetPlain', U, 1, 17), ('DerSeqPlain', U, 1, 16), ('BerSetPlain', U, 1, 17),
           ('OldDAlU8', U, 0, 2)]
REFS = [("&'static " + t, c, k, n) for t, c, k, n in TAGGED if not t.startswith('&')]
ACCEPT = TAGGED + [('TaggedValue<%s, Error, Implicit, %d, %d>' % (t, c, n), c, None, n) for c in range(4) for n in (1, 77) for t in ('u8', 'Vec<u8>')]
ACCEPT += [('Enu', U, 0, 10), ('NewAlU8', U, 0, 2)]
ACCEPT += [('Option<%s>' % t, c, k, n) for t, c, k, n in ACCEPT if not t.startswith('&')] + REFS
SEVERAL = {'Oid': [6, 13], 'Option<Oid>': [6, 13]}


def tag_functions():
    for i, (t, c, k, n) in enumerate(TAGGED + REFS):
        yield 'tagged_%d() -> (Class, bool, Tag)' % i, '(<%s as Tagged>::CLASS, <%s as Tagged>::CONSTRUCTED, <%s as Tagged>::TAG)' % (t, t, t)
    for i, t in enumerate([x[0] for x in ACCEPT] + list(SEVERAL) + list(CHOICES)):
        yield 'accepts_%d(tag: Tag) -> bool' % i, '<%s as DynTagged>::accept_tag(tag)' % t


def rust_type(prefix, f):
    t = LEAF[f.kind][0] if f.kind in LEAF else f.kind + lt_ch(f.kind) if f.kind in CHOICES else prefix + f.kind
    return 'Option<%s>' % t if f.presence == 'opt' else t


def lt_ch(name):
    return "<'a>" if any(octets(k) for _, k, _ in CHOICES[name][1]) else ''


def lifetime(fields):
    return "<'a>" if any(octets(f.kind) or f.kind in CHOICES and lt_ch(f.kind) for f in fields) else ''


class Coll:
    """a way to decode a collection: kinds of its elements (None: any number of `elem`), rules, tag of the container"""
    def __init__(self, name, elem, rules, tag, ret, body, shape='list'):
        self.name, self.elem, self.rules, self.tag, self.ret, self.body, self.shape = name, elem, rules, tag, ret, body, shape

    def source(self):
        return ('Option<%s>' % self.ret if self.shape != 'steps' else self.ret), self.body


def collections():
    std = 'std::collections::'
    for k in ('u8', 'bool', 'oct'):
        t = LEAF[k][0]
        for ty, tag, shape in (('Vec<%s>', 16, 'list'), ('SequenceOf<%s>', 16, 'list'), ('SetOf<%s>', 17, 'list'),
                               (std + 'BTreeSet<%s>', 17, 'set'), (std + 'HashSet<%s>', 17, 'set'), ('[%s; 2]', 16, 'two')):
            ty %= t
            for m in ('from_ber', 'from_der', 'parse_ber', 'parse_der'):
                if ty[0] == '[' and m[0] == 'f':
                    continue
                arg = 'Input::from_slice(b)' if m[0] == 'p' else 'b'
                call = '<%s>::%s(%s)' % (ty, m, arg) if m[0] == 'p' else '<%s as From%s>::%s(b)' % (ty, m[5:].capitalize(), m)
                yield Coll('%s::%s' % (ty, m), k, m[-3:], tag, ty, 'let r: IResult<_, %s, %s> = %s; let (_, v) = r.ok()?; Some(v)' % (
                    ty, '_' if m[0] == 'p' else 'Error', call), shape)
            if ty[0] != '[':
                yield Coll('%s::try_from(Any)' % ty, k, 'ber', tag, ty,
                           'let (_, a) = Any::from_ber(b).ok()?; <%s as core::convert::TryFrom<Any>>::try_from(a).ok()' % ty, shape)
                yield Coll('%s::check_constraints' % ty, k, 'der', tag, '()',
                           'let (_, a) = Any::from_ber(b).ok()?; <%s as CheckDerConstraints>::check_constraints(&a).ok()' % ty, 'check')
        for c, tag, w in (('Sequence', 16, 'sequence'), ('Set', 17, 'set')):
            for r in ('ber', 'der'):
                get = 'let (_, s) = %s::from_%s(b).ok()?; ' % (c, r)
                v = 'Vec<%s>' % t
                if k != 'oct':
                    yield Coll('%s::%s_%s_of' % (c, r, w), k, r, tag, v, get + 's.%s_%s_of::<%s, Error>().ok()' % (r, w, t))
                    x = 's.into_%s_%s_of::<%s, %sError>().ok()' % (r, w, t, t + ', ' if c == 'Sequence' else '')
                    yield Coll('%s::into_%s_%s_of' % (c, r, w), k, r, tag, v, get + x)
                    yield Coll('%s::into_%s_%s_of, owned' % (c, r, w), k, r, tag, v, get + 'let s = s.to_static(); ' + x)
                    yield Coll('%s::%s_iter' % (c, r), k, r, tag, v,
                               get + 'let mut v = Vec::new(); for x in s.%s_iter::<%s, Error>() { v.push(x.ok()?); } Some(v)' % (r, t))
                if r == 'der':
                    yield Coll('%s::into_der_%s_of_ref' % (c, w), k, r, tag, v, get + 's.into_der_%s_of_ref::<%s, Error>().ok()' % (w, t))
        for r in ('ber', 'der'):
            m = r.capitalize() + 'Mode'
            v = 'Vec<%s>' % t
            yield Coll('AnyIterator<%s>::try_parse_collect' % m, k, r, None, v,
                       'let (_, v) = AnyIterator::<%s>::new(Input::from_slice(b)).try_parse_collect::<%s, %s>().ok()?; Some(v)' % (m, v, t))
            for it, a, e in (('SequenceIterator', 'b', 'Error'), ('SetIterator', 'b', 'Error'), ('SequenceIteratorInput', 'Input::from_slice(b)', 'BerError<Input>')):
                n = '%s::<%s, %s, %s>::new(%s)' % (it, t, m, e, a)
                yield Coll('%s<%s>' % (it, m), k, r, None, v, 'let mut v = Vec::new(); for x in %s { v.push(x.ok()?); } Some(v)' % n)
                yield Coll('%s<%s>, collected' % (it, m), k, r, None, v, '%s.collect::<core::result::Result<Vec<_>, _>>().ok()' % n)
                if it != 'SequenceIteratorInput':
                    yield Coll('%s<%s>, step by step' % (it, m), k, r, None, '[Option<bool>; 5]',
                               'let mut i = %s; [%s]' % (n, ', '.join(['i.next().map(|x| x.is_ok())'] * 5)), 'steps')
            if k != 'oct':
                yield Coll('Any::iter_elements<%s>' % m, k, r, 0, v, 'let (_, a) = Any::from_%s(b).ok()?; let mut v = Vec::new(); '
                           'for x in a.iter_elements::<%s>() { let (_, e) = x.ok()?; v.push(<%s as %sParser>::from_%s_content(&e.header, e.data.clone()).ok()?.1); } Some(v)' % (r, m, t, r.capitalize(), r), 'untyped')
    for r in ('ber', 'der'):
        m = r.capitalize() + 'Mode'
        yield Coll('Any::iter_elements<%s>, step by step' % m, 'any', r, 0, '[Option<bool>; 5]', 'let a = match Any::from_%s(b) { Ok((_, a)) => a, _ => '
                   'return [Some(false), None, None, None, None] }; let mut i = a.iter_elements::<%s>(); [%s]' % (
                       r, m, ', '.join(['i.next().map(|x| x.is_ok())'] * 5)), 'steps')
        for ks in (('u8', 'bool'), ('bool', 'oct', 'u8'), ('oct', 'u16', 'bool', 'u8')):
            ty = '(%s)' % ', '.join(LEAF[k][0] for k in ks)
            yield Coll('%s::parse_%s' % (ty, r), ks, r, 16, ty, 'let (_, v) = <%s>::parse_%s(Input::from_slice(b)).ok()?; Some(v)' % (ty, r), 'tuple')
        for c, tag in (('AnySequence', 16), ('AnySet', 17)):
            yield Coll('%s::parse_%s' % (c, r), 'any', r, tag, "%s<'a>" % c,
                       'let (_, v) = %s::parse_%s(Input::from_slice(b)).ok()?; Some(v)' % (c, r))
        yield Coll('AnyIterator<%s>::try_collect' % m, 'any', r, None, "Vec<Any<'a>>",
                   "let (_, v) = AnyIterator::<%s>::new(Input::from_slice(b)).try_collect::<Vec<Any<'a>>>().ok()?; Some(v)" % m)
        yield Coll('AnyIterator<%s>' % m, 'any', r, None, "Vec<Any<'a>>",
                   'let mut v = Vec::new(); for x in AnyIterator::<%s>::new(Input::from_slice(b)) { v.push(x.ok()?.1); } Some(v)' % m)
        yield Coll('AnyIterator<%s>, step by step' % m, 'any', r, None, '[Option<bool>; 5]',
                   'let mut i = AnyIterator::<%s>::new(Input::from_slice(b)); [%s]' % (m, ', '.join(['i.next().map(|x| x.is_ok())'] * 5)), 'steps')


def source():
    o = ['use crate::*;', '']
    for prefix, derives, _, _, _ in STYLES:
        for name, fs in fields_of(prefix).items():
            o += ['#[derive(%s)]' % d for d in derives]     # one attribute each: the macros look at the last one
            o.append('pub struct %s%s%s {' % (prefix, name, lifetime(fs)))
            for f in fs:
                if f.tag:
                    e, c, n = f.tag
                    o.append('    #[tag_%s(%s %d)]' % ('explicit' if e else 'implicit', CLASS[c], n))
                if f.presence == 'opt':
                    o.append('    #[optional]')
                elif f.presence != 'req':
                    o.append('    #[default(%d)]' % f.presence)
                o.append('    pub %s: %s,' % (f.name, rust_type(prefix, f)))
            o.append('}')
    for name, (kind, vs) in CHOICES.items():
        o.append('#[derive(Choice)]')
        if kind:
            o.append('#[tagged_%s]' % kind)
        o.append('pub enum %s%s {' % (name, lt_ch(name)))
        for v, k, t in vs:
            if t is not None:
                o.append('    #[tag(%d)]' % t)
            o.append('    %s(%s),' % (v, LEAF[k][0] if k in LEAF else k))
        o.append('}')
    for name, vs in ENUMS.items():
        o.append('#[derive(Clone, Copy, Enumerated)]\n#[repr(u32)]')
        o.append('pub enum %s {' % name)
        o += ['    %s%s,' % (v, ' = %d' % n if lit else '') for v, n, lit in vs]
        o.append('}')
    for prefix, derives, _, _ in STYLE_ALIAS:
        for name, k in ALIASES.items():
            o += ['#[derive(%s)]' % d for d in derives]
            o.append('pub struct %s%s%s(pub %s);' % (prefix, name, "<'a>" if k == 'oct' else '', LEAF[k][0]))
    o += ['pub fn %s { %s }' % x for x in tag_functions()]
    o += ['pub fn coll_%d<\'a>(b: &\'a [u8]) -> %s { %s }' % ((i,) + c.source()) for i, c in enumerate(collections())]
    o += oid_functions()
    return '\n'.join(o) + '\n'


OID_DECODERS = {
    'from_ber': 'Oid::from_ber(b).ok().map(|x| x.1)', 'from_der': 'Oid::from_der(b).ok().map(|x| x.1)',
    'parse_ber': 'let (_, o) = Oid::parse_ber(Input::from_slice(b)).ok()?; Some(o)',
    'parse_der': 'let (_, o) = Oid::parse_der(Input::from_slice(b)).ok()?; Some(o)',
    'from_ber_relative': 'Oid::from_ber_relative(b).ok().map(|x| x.1)', 'from_der_relative': 'Oid::from_der_relative(b).ok().map(|x| x.1)',
    'try_from': 'let (_, a) = Any::from_ber(b).ok()?; <Oid as core::convert::TryFrom<Any>>::try_from(a).ok()',
    'as_oid': 'let (_, a) = Any::from_ber(b).ok()?; let r = a.as_oid().ok().map(|o| o.to_owned()); r',
    'oid': 'let (_, a) = Any::from_ber(b).ok()?; a.oid().ok()',
    'as_relative_oid': 'let (_, a) = Any::from_ber(b).ok()?; let r = a.as_relative_oid().ok().map(|o| o.to_owned()); r',
    'relative_oid': 'let (_, a) = Any::from_ber(b).ok()?; a.relative_oid().ok()'}


def oid_functions():
    nxt = lambda n: '[%s]' % ', '.join(['i.next()'] * n)
    for k, new in (('abs', 'new'), ('rel', 'new_relative')):
        get = 'let o = Oid::%s(std::borrow::Cow::Borrowed(b)); ' % new
        yield 'pub fn oid_iter_%s(b: &[u8]) -> Option<[Option<u64>; 5]> { %slet mut i = o.iter()?; let r = %s; Some(r) }' % (k, get, nxt(5))
        yield 'pub fn oid_big_%s(b: &[u8]) -> [Option<BigUint>; 5] { %slet mut i = o.iter_bigint(); let r = %s; r }' % (k, get, nxt(5))
        yield 'pub fn oid_fits_%s(b: &[u8]) -> bool { %slet r = o.iter().is_some(); r }' % (k, get)
        for n in range(4):
            yield 'pub fn oid_len_%s_%d(b: &[u8]) -> Option<(usize, usize, Option<usize>)> { %slet mut i = o.iter()?; %s; let h = i.size_hint(); let r = (i.len(), h.0, h.1); Some(r) }' % (
                k, n, get, '; '.join(['i.next()'] * n) or '()')
        yield "pub fn oid_owned_%s(b: &[u8]) -> Oid<'static> { %so.to_owned() }" % (k, get)
        for n in range(4):
            yield 'pub fn oid_prefix_%s_%d(b: &[u8]) -> bool { let (x, y) = b.split_at(%d); let o = Oid::%s(std::borrow::Cow::Borrowed(x)); ' \
                'let p = Oid::%s(std::borrow::Cow::Borrowed(y)); p.starts_with(&o) }' % (k, n, n, new, new)
    for name, call in OID_DECODERS.items():
        yield "pub fn oid_dec_%s<'a>(b: &'a [u8]) -> Option<Oid<'a>> { %s }" % (name, call)
    for n in range(1, 6):
        a = ', '.join('a%d' % k for k in range(n))
        p = ', '.join('a%d: u64' % k for k in range(n))
        for k, f in (('abs', 'from'), ('rel', 'from_relative')):
            yield "pub fn oid_from_%s_%d(%s) -> Option<Oid<'static>> { Oid::%s(&[%s]).ok() }" % (k, n, p, f, a)
            yield 'pub fn oid_round_%s_%d(%s) -> Option<Option<[Option<u64>; 6]>> { let o = Oid::%s(&[%s]).ok()?; let r = match o.iter() { Some(mut i) => Some(%s), None => None }; Some(r) }' % (
                k, n, p, f, a, nxt(6))


MOD = 'verif_witness'


def scratch(repo, dst):
    """a copy of the crate with the witness module"""
    shutil.copytree(repo, dst, ignore=shutil.ignore_patterns('target', '.git', 'work', 'fuzz', 'tests', 'examples', 'benches'))
    for d in ('derive',):
        for r, _, fs in os.walk(os.path.join(dst, d)):
            for f in fs:
                if f.endswith('.rs'):
                    p = os.path.join(r, f)
                    with open(p) as h:
                        s = h.read()
                    s2 = re.sub(r'extern\s+crate\s+asn1_rs\s*;', '', s)
                    s2 = re.sub(r'extern\s+crate\s+asn1_rs\s+as\s+(\w+)\s*;', r'use ::asn1_rs as \1;', s2)
                    if s2 != s:
                        with open(p, 'w') as h:
                            h.write(s2)
    with open(os.path.join(dst, 'src', 'lib.rs'), 'a') as h:
        h.write('\nextern crate self as asn1_rs;\n#[allow(missing_docs)]\npub mod %s;\n' % MOD)
    with open(os.path.join(dst, 'src', MOD + '.rs'), 'w') as h:
        h.write(source())

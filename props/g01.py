"""G01: decoders derived by the macros take the fields of the definition, in order, with their tags, and nothing else."""
import itertools, os
import base, witness
from witness import alternatives, octets, fields_of, FIELDS, STYLES, LEAF, CHOICES, ENUMS, ALIASES, STYLE_ALIAS, U, A, C, P
from matrix import *
from expect import *


# ---- elements: (class, form, number, content) with content a list of masks or of elements, and a label
class El:
    def __init__(self, cls, con, num, content, what=None):
        self.cls, self.con, self.num, self.content, self.what = cls, con, num, content, what

    def ident(self):
        return [bits(b) for b in witness.ident_octets(self.cls, self.con, self.num)]

    def size(self):
        return sum(x.full() if isinstance(x, El) else 1 for x in self.content)

    def full(self):
        return len(self.ident()) + len(witness.length_octets(self.size())) + self.size()

    def but(self, **kw):
        e = El(self.cls, self.con, self.num, self.content, self.what)
        for k, v in kw.items():
            setattr(e, k, v)
        return e

    def masks(self, out, at):
        """appends the masks of the octets; notes the offset of the content of each element"""
        out += self.ident() + [bits(b) for b in witness.length_octets(self.size())]
        at[id(self)] = len(out)
        for x in self.content:
            if isinstance(x, El):
                x.masks(out, at)
            else:
                out.append(x)


CONTENT = {'u8': lambda b: [rng(0, 127)], 'u16': lambda b: [rng(1, 127), ALL], 'bool': lambda b: [bits(0xff if b else 0)],
           **{k: lambda b, n=LEAF[k][2]: [ALL] * n for k in LEAF if octets(k)}}
INSIDE = {}     # inner element of an explicitly tagged one


def plain(kind, style, b=True, what=None):
    """the element of a type without a tag of its own"""
    if kind in LEAF:
        return El(U, 0, LEAF[kind][1], CONTENT[kind](b), what)
    return El(U, 1, 17 if style == 'set' else 16, [element(g, style, b) for g in FIELDS[kind]], what)


def alt_element(name, i, b=True, what=None):
    """the element of a variant of a CHOICE"""
    v, k, num = alternatives(name)[i]
    e = plain(k if k in LEAF else k[3:], 'seq', b, what)
    kind = CHOICES[name][0]
    return El(C, 1, num, [e], what) if kind == 'explicit' else e.but(cls=C, num=num) if kind else e


def alt_value(name, e):
    """what an element is as a CHOICE: None if nothing"""
    kind = CHOICES[name][0]
    for v, k, num in alternatives(name):
        f = witness.Fd(v, k if k in LEAF else k[3:], (kind == 'explicit', C, num) if kind else None)
        try:
            if matches(f, e, 'seq'):
                w = value(f, e, 'seq')
                return w and ('variant', v, w)
        except Skip:
            raise
    if kind and e.num in [n for _, _, n in alternatives(name)]:
        raise Skip
    return None


def element(f, style, b=True):
    """the element of a field of the definition"""
    if f.kind in CHOICES:
        e = alt_element(f.kind, 0 if b else len(alternatives(f.kind)) - 1, b, f)
        return El(f.tag[1], 1, f.tag[2], [e], f) if f.tag else e
    if f.kind in LEAF:
        e = El(U, 0, LEAF[f.kind][1], CONTENT[f.kind](b), f)
    else:
        e = El(U, 1, 17 if style == 'set' else 16, [element(g, style, b) for g in FIELDS[f.kind]], f)
    if f.tag:
        x, c, n = f.tag
        e = El(c, 1, n, [e], f) if x else e.but(cls=c, num=n)
    return e


class Skip(Exception):
    pass


def matches(f, e, style):
    """does the element have the tag of the field? (the class of universal tags is not looked at: not claimed)"""
    if f.tag:
        return (e.cls, e.num) == f.tag[1:]
    if f.kind in CHOICES:
        tags = [(C, n) for _, _, n in alternatives(f.kind)]
        if (e.cls, e.num) not in tags and e.num in [n for _, n in tags]:
            raise Skip
        return (e.cls, e.num) in tags
    num = LEAF[f.kind][1] if f.kind in LEAF else 17 if style == 'set' else 16
    if e.num == num and e.cls != U:
        raise Skip
    return e.num == num


def value(f, e, style):
    """what a field is decoded to from an element with its tag: an expectation, or None if that is an error"""
    if f.tag and f.tag[0]:
        if not e.con or len(e.content) != 1 or not isinstance(e.content[0], El):
            return None
        e = e.content[0]
        if f.kind in CHOICES:
            return alt_value(f.kind, e)
        if e.cls != U or e.num != (LEAF[f.kind][1] if f.kind in LEAF else 17 if style == 'set' else 16):
            return None
    if f.kind in CHOICES:
        return alt_value(f.kind, e)
    if f.kind in LEAF:
        if e.con or any(isinstance(x, El) for x in e.content):
            return None
        if octets(f.kind):
            return ('slice', e, len(e.content))
        if not 0 < len(e.content) <= LEAF[f.kind][2]:
            return None
        return ('bool', e.content[0] != 1) if f.kind == 'bool' else ('num', e, len(e.content))
    if not e.con:
        return None
    return fields(FIELDS[f.kind], e.content, style)


def fields(fs, els, style):
    els = list(els)
    out = {}
    for f in fs:
        if els and matches(f, els[0], style):
            v = value(f, els.pop(0), style)
            if v is None:
                return None
            out[f.name] = ('some', v) if f.presence == 'opt' else v
        elif f.presence == 'req':
            return None
        else:
            out[f.name] = ('none',) if f.presence == 'opt' else ('const', f.presence)
    if els:
        raise Skip          # what follows the known fields is not looked at: not claimed
    return ('struct', out)


def agrees(o, s, v, want, at):
    """[differences] of an abstract value and an expectation"""
    k = want[0]
    if v is None:
        return ['no value']
    if k == 'struct':
        bad = []
        for n, w in want[1].items():
            bad += ['%s: %s' % (n, x) for x in agrees(o, s, field(o, v, n), w, at)]
        return bad
    if k in ('none', 'some'):
        if variant(o, v) != k.capitalize():
            return ['is not %s' % k.capitalize()]
        return [] if k == 'none' else agrees(o, s, v[3][0], want[1], at)
    if k == 'variant':
        if variant(o, v) != want[1]:
            return ['is not variant %s' % want[1]]
        return [] if want[2] is None else agrees(o, s, v[3][0], want[2], at)
    if k == 'const':
        ok_ = is_lin(o, s, v, L(want[1]))
    elif k == 'bool':
        ok_ = is_lin(o, s, v, L(int(want[1])))
    elif k == 'num':
        ok_ = is_lin(o, s, v, be(o, s, at[id(want[1])], at[id(want[1])] + want[2]))
    else:
        ok_ = is_slice(o, s, v, L(at[id(want[1])]), L(at[id(want[1])] + want[2]))
    return [] if ok_ else ['is not what the encoding says' if k != 'const' else 'is not the default value']


def accept(want, outer, at, total, key):
    def f(o):
        bad = set()
        if o.errs():
            bad.add('a valid encoding may be rejected' + why(o))
        if not o.ok():
            bad.add('never accepted')
        for v, s in o.ok():
            if v is None:
                bad.add('result not known')
                continue
            bad |= set(agrees(o, s, payload(key, v), want, at))
            r = val(o.E, s, v[3][0])
            r = sl_of(o.E, s, r[3][0]) if r[0] == 'agg' else o.E.as_slice(r)
            if r is None or r[1] != o.inp[1] or not eq0(o.E, s, ladd(ladd(r[2], o.inp[2], -1), L(-total))) or \
                    not eq0(o.E, s, ladd(r[3], o.inp[3], -1)):
                bad.add('what follows the object is not handed back whole')
        return sorted(bad)
    return f


def item(key, name, e, want):
    out, at = [], {}
    e.masks(out, at)
    it = Item(key, name, dict(enumerate(out)), 'reject' if want is None else accept(want, e, at, len(out), key))
    it.keep = (e, want)
    return it


def variations(fs, style):
    """(name, elements): the elements of a value and small departures from it"""
    full = [element(f, style) for f in fs]
    yield 'all fields', full
    yield 'all fields, false', [element(f, style, False) for f in fs]
    opt = [i for i, f in enumerate(fs) if f.presence != 'req']
    for k in range(1, len(opt) + 1):
        for c in itertools.combinations(opt, k):
            yield 'without ' + ' and '.join(fs[i].name for i in c), [e for i, e in enumerate(full) if i not in c]
    for i, f in enumerate(fs):
        if f.presence == 'req':
            yield 'missing ' + f.name, full[:i] + full[i + 1:]

        def put(e, i=i):
            return full[:i] + [e] + full[i + 1:]
        e = full[i]
        yield f.name + ' with another tag', put(e.but(num=e.num ^ 8))
        if e.num > 127:
            yield f.name + ' with a tag that agrees modulo 128', put(e.but(num=e.num ^ 128))
            yield f.name + ' with the low groups of its tag', put(e.but(num=e.num & 127))
        if e.num > 30:
            yield f.name + ' with a tag that agrees modulo 65536', put(e.but(num=e.num + 65536))
        yield f.name + ' in the other form', put(e.but(con=1 - e.con))
        if f.tag:
            for c in range(4):
                if c != e.cls:
                    yield f.name + ' with class %d' % c, put(e.but(cls=c))
            if f.tag[0]:
                x = e.content[0]
                yield f.name + ' around another type', put(e.but(content=[x.but(num=12)]))
                yield f.name + ' without its explicit tag', put(x)
        if i + 1 < len(fs):
            yield f.name + ' after the next field', full[:i] + [full[i + 1], e] + full[i + 2:]
    # an absent optional field followed by one whose universal tag number equals its own tag number
    if fs is FIELDS['TagOpt']:
        yield 'number of an absent field', full[1:]
    yield 'nothing', []


def run():
    F = base.facts('derive')
    rep = base.Report('G01', 'proof')
    ep = entry_points(F, ('from_ber', 'from_der', 'parse_ber', 'parse_der'))
    items = []

    def add(key, name, e, want):
        if key not in ep:
            raise base.CheckError('no %s::%s' % key)
        items.append(item(key, name, e, want))
    for prefix, _, style, methods, _ in STYLES:
        num = 16 if style == 'seq' else 17
        for n, fs in fields_of(prefix).items():
            for m in methods:
                key = (prefix + n, m)
                for name, els in variations(fs, style):
                    e = El(U, 1, num, els)
                    try:
                        want = fields(fs, els, style)
                    except Skip:
                        continue
                    add(key, name, e, want)
                full = El(U, 1, num, [element(f, style) for f in fs])
                add(key, 'tag of another type', full.but(num=33 - num), None)
                add(key, 'primitive', full.but(con=0), None)
    for n, (kind, vs) in CHOICES.items():
        alts = [(v, k, alt_element(n, i)) for i, (v, k, _) in enumerate(alternatives(n))]
        nums = {e.num for _, _, e in alts}
        for m in ('parse_ber', 'parse_der'):
            key = (n, m)
            for v, k, e in alts:
                add(key, 'variant %s' % v, e, alt_value(n, e))
                if not octets(k) or kind == 'explicit' or m == 'parse_der':
                    add(key, 'variant %s in the other form' % v, e.but(con=1 - e.con), None)
                if kind:
                    for c in (U, A, P):
                        add(key, 'variant %s with class %d' % (v, c), e.but(cls=c), None)
                for x in (2, 6, 9, 12, 33, 39, 41, 255, 428, 16512):
                    if x not in nums:
                        add(key, 'variant %s with tag %d' % (v, x), e.but(num=x), None)
                if kind == 'explicit':
                    add(key, 'variant %s around another type' % v, e.but(content=[e.content[0].but(num=12)]), None)
    for n, vs in ENUMS.items():
        for m in ('parse_ber', 'parse_der'):
            key = (n, m)
            for v, x, _ in vs:
                e = El(U, 0, 10, [bits(b) for b in x.to_bytes(x.bit_length() // 8 + 1, 'big')])
                add(key, 'value %d' % x, e, ('variant', v, None))
                add(key, 'value %d constructed' % x, e.but(con=1), None)
                add(key, 'value %d with another tag' % x, e.but(num=2), None)
            low = [x for _, x, _ in vs if x < 128]
            add(key, 'other value', El(U, 0, 10, [rng(0, 127) & ~bits(*low)]), None)
            for x in (70000, 0x80000000, 0xfffffffe):
                c = [bits(b) for b in x.to_bytes(x.bit_length() // 8 + 1, 'big')]
                add(key, 'other value that differs from %d in its last octet' % x, El(U, 0, 10, c[:-1] + [ALL & ~bits(x & 255)]), None)
                add(key, 'other value that differs from %d in its first octets' % x,
                    El(U, 0, 10, ([bits(0), rng(1, 127)] if len(c) == 5 else [bits(2)]) + c[-len(c) + (2 if len(c) == 5 else 1):]), None)
            for x in (1000, 1001):
                hi, lo = x >> 8, x & 255
                los = [y & 255 for _, y, _ in vs if y >> 8 == hi]
                add(key, 'other value of %d..%d' % (hi << 8, hi << 8 | 255),
                    El(U, 0, 10, [bits(hi), ALL & ~bits(*los)]), None)
            add(key, 'other value of two octets, below', El(U, 0, 10, [rng(1, 2), ALL]), None)
            add(key, 'other value of two octets, above', El(U, 0, 10, [rng(4, 127), ALL]), None)
    for prefix, _, methods, _ in STYLE_ALIAS:
        for n, k in ALIASES.items():
            e = El(U, 0, LEAF[k][1], CONTENT[k](True))
            for m in methods:
                key = (prefix + n, m)
                add(key, 'value', e, ('slice' if octets(k) else 'num', e, len(e.content)))
                add(key, 'another tag', e.but(num=12), None)
                if m.endswith('der') or k != 'oct':
                    add(key, 'constructed', e.but(con=1), None)
    run_items(F, rep, ep, items)
    rep.floor('input classes', len(items), 1000)
    rep.rules = ['each definition decodes exactly the element lists its fields describe; oracle: fields() in props/g01.py']
    return rep

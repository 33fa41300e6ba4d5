"""T07: UTCTime and GeneralizedTime decode to the fields their digits spell, and only from well-formed, in-range strings."""
import os
import base
from matrix import *
from tagtab import *
from expect import *

D = rng(48, 57)
NOTD = ALL & ~D
FIELDS = {'UtcTime': [('year', 2), ('month', 2), ('day', 2), ('hour', 2), ('minute', 2), ('second', 2)],
          'GeneralizedTime': [('year', 4), ('month', 2), ('day', 2), ('hour', 2), ('minute', 2), ('second', 2)]}
LIMIT = {'month': (1, 12), 'day': (1, 31), 'hour': (0, 23), 'minute': (0, 59), 'second': (0, 59)}


def ranges(lo, hi):
    """two-digit numbers lo..hi as pairs of digit masks"""
    out = []
    for t in range(10):
        u = [x % 10 for x in range(lo, hi + 1) if x // 10 == t]
        if u:
            out.append((bits(48 + t), rng(48 + u[0], 48 + u[-1])))
    m = []
    for t, u in out:            # merge tens with the same units
        if m and m[-1][1] == u:
            m[-1] = (m[-1][0] | t, u)
        else:
            m.append((t, u))
    return m


def dec(o, s, at, n):
    r = L(0)
    for i in range(at, at + n):
        r = ladd((r[0] * 10, tuple((t, c * 10) for t, c in r[1])), ladd(byte(o, s, i), L(-48)))
    return r


def scale(lin, k):
    return (lin[0] * k, tuple((t, c * k) for t, c in lin[1]))


class Form:
    """a shape of time string: contents with field positions"""

    def __init__(self, n, second=True, frac=0, zone='Z', pick=0, sep='.'):
        self.n, self.second, self.frac, self.zone = n, second, frac, zone
        self.b, self.at = {}, {}
        i = 2
        for f, w in FIELDS[n]:
            if f == 'second' and not second:
                continue
            self.at[f] = (i, w)
            for j in range(w):
                self.b[i + j] = D
            if f in LIMIT:
                r = ranges(*LIMIT[f])
                self.b[i], self.b[i + 1] = r[pick % len(r)]
            i += w
        if frac:
            self.b[i] = bits(*[ord(c) for c in sep])
            for j in range(frac):
                self.b[i + 1 + j] = D
            self.at['frac'] = (i + 1, frac)
            i += 1 + frac
        if zone == 'Z':
            self.b[i] = bits(90)
            i += 1
        elif zone:
            self.b[i] = bits(ord(zone[0]))
            h = {'0': [(bits(48), bits(48))], '': [(bits(48), rng(49, 57)), (bits(49), D), (bits(50), rng(48, 51))]}[zone[1:]]
            self.b[i + 1], self.b[i + 2] = h[pick % len(h)]
            self.b[i + 3], self.b[i + 4] = rng(48, 53), D
            self.at['zone'] = (i + 1, 4)
            i += 5
        self.end = i
        self.b[0], self.b[1] = bits(TAG[n]), bits(i - 2)

    def name(self):
        return '%s%s%s' % ('seconds' if self.second else 'no seconds', ', %d fraction digits' % self.frac if self.frac else '',
                           ', zone %s' % self.zone if self.zone else ', no zone')


def expect(key, form):
    def f(o):
        out = []
        if not o.ok():
            out.append('never accepted')
        if o.errs():
            out.append('may be rejected' + why(o))
        for v, s in o.ok():
            p = payload(key, v)
            p = p[3][0] if p is not None and p[0] == 'agg' and len(p[3]) == 1 else p
            for fn, _ in FIELDS[form.n]:
                x = field(o, p, fn)
                if not is_lin(o, s, x, dec(o, s, *form.at[fn]) if fn in form.at else L(0)):
                    out.append('%s is not that of the digits' % fn)
            ms = field(o, p, 'millisecond')
            if form.frac:
                at, n = form.at['frac']
                if variant(o, ms) != 'Some' or not is_lin(o, s, ms, scale(dec(o, s, at, n), 10 ** (3 - n))):
                    out.append('millisecond is not the fraction')
            elif variant(o, ms) != 'None':
                out.append('millisecond is not None')
            tz = field(o, p, 'tz')
            if not form.zone or form.zone == 'Z':
                if variant(o, tz) != ('Z' if form.zone else 'Undefined'):
                    out.append('time zone is not %s' % (form.zone or 'undefined'))
            else:
                at, _ = form.at['zone']
                hh, mm = dec(o, s, at, 2), dec(o, s, at + 2, 2)
                if form.zone[0] == '-':
                    hh, mm = scale(hh, -1), scale(mm, -1) if form.zone == '-0' else mm
                if variant(o, tz) != 'Offset' or not is_lin(o, s, field(o, tz, '0'), hh) or not is_lin(o, s, field(o, tz, '1'), mm):
                    out.append('time zone is not the offset of the digits')
        return sorted(set(out))
    return f


def forms(n, der):
    zones = ['Z'] if der and n == 'GeneralizedTime' else ['Z', '+', '-', '+0', '-0'] + ([''] if n == 'GeneralizedTime' else [])
    for z in zones:
        for pick in range(3):
            yield Form(n, zone=z, pick=pick)
        if n == 'GeneralizedTime':
            for fr in (1, 2, 3):
                yield Form(n, frac=fr, zone=z, pick=0, sep='.' if der else '.,')
        if z:
            yield Form(n, second=False, zone=z, pick=1)


def run():
    F = base.facts('nd')
    rep = base.Report('T07', 'proof')
    ep = entry_points(F, ('from_ber', 'from_der', 'parse_ber', 'parse_der'))
    items = []
    for k in sorted(ep):
        n = k[0]
        if n not in FIELDS:
            continue
        der = is_der(k)
        for i, f in enumerate(forms(n, der)):
            items.append(Item(k, '%s (%d)' % (f.name(), i), f.b, expect(k, f), minlen=f.end))
        # each field out of range, each digit not a digit; the rest arbitrary
        for second, zone in ((True, 'Z'), (True, '+'), (True, '-'), (False, 'Z'), (False, '+')):
            if der and n == 'GeneralizedTime' and zone != 'Z':
                continue
            f = Form(n, second=second, zone=zone)
            shape = f.name()
            for fn, (at, w) in f.at.items():
                if fn in LIMIT:
                    lo, hi = LIMIT[fn]
                    for r in ranges(hi + 1, 99) + (ranges(0, lo - 1) if lo else []):
                        items.append(Item(k, '%s: %s out of range %s' % (shape, fn, 'above' if r[0] & D != bits(48) or lo == 0 else 'zero'),
                                          {**f.b, at: r[0], at + 1: r[1]}, 'reject', minlen=f.end))
                if fn == 'zone':
                    for r in ranges(24, 99):
                        items.append(Item(k, shape + ': zone hours out of range', {**f.b, at: r[0], at + 1: r[1]}, 'reject'))
                    items.append(Item(k, shape + ': zone minutes out of range', {**f.b, at + 2: rng(54, 57)}, 'reject'))
                for i in range(at, at + w):
                    if fn == 'second' and i == at:      # then it is a string without seconds
                        continue
                    items.append(Item(k, '%s: byte %d of %s is not a digit' % (shape, i - at, fn), {**f.b, i: NOTD}, 'reject'))
            # a byte more, a byte less
            items.append(Item(k, shape + ': one byte more', {**f.b, 1: bits(f.end - 1), f.end: ALL}, 'reject'))
            if zone != '' and not (n == 'GeneralizedTime' and second and zone == 'Z'):
                items.append(Item(k, shape + ': one byte less', {**f.b, 1: bits(f.end - 3)}, 'reject'))
            if zone == 'Z':
                items.append(Item(k, shape + ': other zone letter', {**f.b, f.end - 1: ALL & ~bits(90) & ~(D if not second else 0)}, 'reject'))
        if n == 'GeneralizedTime':
            for fr in (1, 2, 3):
                f = Form(n, frac=fr, zone='Z')
                for i in range(fr):
                    items.append(Item(k, 'fraction digit %d of %d is not a digit' % (i, fr), {**f.b, f.at['frac'][0] + i: NOTD}, 'reject'))
            f = Form(n, frac=1, zone='Z')
            items.append(Item(k, 'decimal mark without digits', {**{i: m for i, m in f.b.items() if i < f.end - 2},
                                                                 1: bits(f.end - 3), f.end - 2: bits(90)}, 'reject'))
            if der:
                for z in ('+', '-', ''):
                    f = Form(n, zone=z)
                    items.append(Item(k, 'DER: zone %s' % (z or 'missing'), f.b, 'reject'))
                for fr in (1, 2, 3):
                    f = Form(n, frac=fr, zone='Z', sep=',')
                    items.append(Item(k, 'DER: comma, %d digits' % fr, f.b, 'reject'))
        # too short for a date and time
        for ln in range(0, 11 if n == 'UtcTime' else 13):
            items.append(Item(k, 'contents of %d bytes' % ln, {0: bits(TAG[n]), 1: bits(ln), **{2 + i: ALL for i in range(ln)}}, 'reject'))
    run_items(F, rep, ep, items)
    rep.coverage['counts']['input classes'] = len(items)
    rep.floor('types', len({i.key[0] for i in items}), 2)
    rep.floor('input classes', len(items), 450)
    rep.rules = ['well-formed strings are accepted and every field of the value equals the decimal number of its digits '
                 '(linear form of the content octets)',
                 'no abstract path returns Ok on a string with a component out of range, a non-digit, or of the wrong shape']
    return rep

"""T06: BOOLEAN, INTEGER, ENUMERATED and the parts of a REAL decode to the number their octets denote."""
import os
import base
from matrix import *
from tagtab import *
from expect import *


def numeric(key, lin, what):
    """every exit is Ok and carries the number"""
    def f(o):
        out = []
        if not o.ok():
            out.append('never accepted')
        if o.errs():
            out.append('may be rejected' + why(o))
        for v, s in o.ok():
            p = payload(key, v)
            if not is_lin(o, s, p, lin(o, s)):
                n = number(o, p)
                out.append('value is not %s' % what)
        return sorted(set(out))
    return f


def neg(k, ln):
    return lambda o, s: ladd(be(o, s, k, k + ln), L(-(1 << (8 * ln))))


def pos(k, ln):
    return lambda o, s: be(o, s, k, k + ln)


def real(key, base_, mul, ebytes, sign, eat):
    """exponent, base and sign of a binary REAL"""
    def f(o):
        out = []
        if not o.ok():
            out.append('never accepted')
        if o.errs():
            out.append('may be rejected' + why(o))
        for v, s in o.ok():
            p = payload(key, v)
            if variant(o, p) != 'Binary':
                out.append('not a binary number')
                continue
            if not is_lin(o, s, field(o, p, 'base'), L(2)):
                out.append('base is not 2')
            if not is_lin(o, s, field(o, p, 'enc_base'), L(base_)):
                out.append('encoded base is not %d' % base_)
            e = be(o, s, eat, eat + ebytes)
            if sign:
                e = ladd(e, L(-(1 << (8 * ebytes))))
            if not is_lin(o, s, field(o, p, 'exponent'), (e[0] * mul, tuple((a, c * mul) for a, c in e[1]))):
                out.append('exponent is not that of the octets')
        return sorted(set(out))
    return f


def special(key, name):
    def f(o):
        out = [] if o.ok() else ['never accepted']
        if o.errs():
            out.append('may be rejected' + why(o))
        for v, s in o.ok():
            if variant(o, payload(key, v)) != name:
                out.append('not ' + name)
        return sorted(set(out))
    return f


def run():
    F = base.facts('nd')
    rep = base.Report('T06', 'proof')
    ep = entry_points(F, ('from_ber', 'from_der', 'parse_ber', 'parse_der'))
    items = []

    def add(k, name, cls, exp, n):
        items.append(Item(k, name, cls, exp, minlen=n))
    for k in sorted(ep):
        n, t = k[0], tag_of(k)
        if t is None:
            continue
        T = {0: bits(t)}
        if n in ('bool', 'Boolean'):
            add(k, 'FALSE', {**T, 1: bits(1), 2: bits(0)}, numeric(k, lambda o, s: L(0), 'false'), 3)
            one = L(1) if n == 'bool' else None
            add(k, 'TRUE', {**T, 1: bits(1), 2: bits(255)}, numeric(k, lambda o, s, one=one: one or L(255), 'true'), 3)
            if not is_der(k):
                add(k, 'TRUE, other values', {**T, 1: bits(1), 2: rng(1, 255)},
                    numeric(k, lambda o, s, one=one: one or byte(o, s, 2), 'true'), 3)
        w = WIDTH.get(n, 4 if n == 'Enumerated' else None)
        if w:
            signed = n[0] == 'i'
            for ln in range(1, w + 1 + (not signed)):
                for h, H in [(2, {1: bits(ln)})] + ([(3, {1: bits(0x81), 2: bits(ln)})] if ln <= 2 else []):
                    long = ', long length' if h == 3 else ''
                    c = {**T, **H, **{h + i: ALL for i in range(ln)}}
                    if ln <= w:
                        add(k, '%d bytes, positive%s' % (ln, long), {**c, h: rng(1, 127)},
                            numeric(k, pos(h, ln), 'the number of the octets'), h + ln)
                        if signed:
                            add(k, '%d bytes, negative%s' % (ln, long), {**c, h: rng(128, 254)},
                                numeric(k, neg(h, ln), 'the two\'s complement of the octets'), h + ln)
                    if ln == 1:
                        add(k, 'zero' + long, {**c, h: bits(0)}, numeric(k, lambda o, s: L(0), '0'), h + 1)
                        if signed:
                            add(k, 'minus one' + long, {**c, h: bits(255)}, numeric(k, lambda o, s: L(-1), '-1'), h + 1)
                    elif not (signed and ln > w):
                        add(k, '%d bytes, 00 then high bit%s' % (ln, long), {**c, h: bits(0), h + 1: rng(128, 255)},
                            numeric(k, pos(h, ln), 'the number of the octets'), h + ln)
                        if signed:
                            add(k, '%d bytes, ff then low bit%s' % (ln, long), {**c, h: bits(255), h + 1: rng(0, 127)},
                                numeric(k, neg(h, ln), 'the two\'s complement of the octets'), h + ln)
        if n == 'Real':
            add(k, 'zero', {**T, 1: bits(0)}, special(k, 'Zero'), 2)
            for x, m in ((0x40, 'Infinity'), (0x41, 'NegInfinity'), (0x42, 'NaN')):
                add(k, m, {**T, 1: bits(1), 2: bits(x)}, special(k, m), 3)
            for bb, bn, mul in ((0, 2, 1), (1, 8, 3), (2, 16, 4)):
                for e in (1, 2, 3, 4):
                    lead = [0] if e < 4 else [1]
                    for sign in (0, 1):
                        first = bits(*[0x80 | sg | bb << 4 | sf << 2 | min(e - 1, 3) for sg in (0, 64) for sf in range(4)])
                        at = 3 if e < 4 else 4
                        c = {**T, 2: first, **{at + i: ALL for i in range(e)}}
                        # keep 3 * e and 4 * e in range
                        c[at] = rng(224, 255) if sign and e == 4 and bb else rng(0, 31) if e == 4 and bb else \
                            rng(128, 255) if sign else rng(0, 127)
                        if e == 4:
                            c[3] = bits(4)
                        for mant in (1, 2):
                            ln = at - 2 + e + mant
                            add(k, 'base %d, %d exponent bytes, %s, %d mantissa bytes' % (bn, e, 'negative' if sign else 'positive', mant),
                                {**c, 1: bits(ln)}, real(k, bn, mul, e, sign, at), 2 + ln)
    run_items(F, rep, ep, items)
    rep.coverage['counts']['input classes'] = len(items)
    rep.floor('types', len({i.key[0] for i in items}), 15)
    rep.floor('input classes', len(items), 800)
    rep.rules = ['on every abstract path of a decoder given a complete object in the class, the result is Ok and equals, as a '
                 'linear form of the content octets, the number X.690 8.2, 8.3, 8.4 and 8.5 define']
    return rep

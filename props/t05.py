"""T05: contents that are not a value of the type are rejected, in BER and in DER."""
import os
import base
from matrix import *
from tagtab import *


def run():
    F = base.facts('nd')
    rep = base.Report('T05', 'proof')
    ep = entry_points(F, ('from_ber', 'from_der', 'parse_ber', 'parse_der'))
    items = []

    def add(k, name, cls, **kw):
        items.append(Item(k, name, cls, 'reject', **kw))
    NOT1 = ((1 << 256) - 1) & ~bits(1)
    for k in sorted(ep):
        n, t = k[0], tag_of(k)
        if t is None:
            continue
        T = {0: bits(t)}
        if n in ('bool', 'Boolean'):
            add(k, 'BOOLEAN not of one byte', {**T, 1: rng(0, 127) & ~bits(1)})
            add(k, 'BOOLEAN not of one byte, long length', {**T, 1: bits(0x81), 2: NOT1})
        if n in ('()', 'Null'):
            add(k, 'NULL with contents', {**T, 1: rng(1, 127)})
            add(k, 'NULL with contents, long length', {**T, 1: bits(0x81), 2: rng(1, 255)})
        if n == 'EndOfContent':
            add(k, 'end-of-contents with contents', {**T, 1: rng(1, 127)})
        if n in INTS + ['Integer', 'Enumerated', 'Oid', 'BitString']:
            add(k, 'empty contents', {**T, 1: bits(0)})
            add(k, 'empty contents, long length', {**T, 1: bits(0x81), 2: bits(0)})
        if n == 'BitString':
            add(k, 'more than 7 unused bits', {**T, 1: rng(1, 127), 2: rng(8, 255)})
            add(k, 'unused bits without contents', {**T, 1: bits(1), 2: rng(1, 255)})
        if n == 'Oid':
            for ln in range(1, 5):
                for ends in range(1 << (ln - 1)):      # which of the bytes before the last end an arc
                    b = {**T, 1: bits(ln)}
                    b.update({2 + i: rng(0, 127) if ends >> i & 1 else rng(128, 255) for i in range(ln - 1)})
                    b[1 + ln] = rng(128, 255)
                    shape = ''.join('E' if ends >> i & 1 else 'C' for i in range(ln - 1)) + 'C'
                    add(k, 'OID of %d bytes, last arc not ended, %s' % (ln, shape), b)
                for i in range(1, ln):
                    b = {**T, 1: bits(ln), 2: rng(129, 255)}
                    b.update({2 + j: rng(128, 255) for j in range(1, i - 1)})
                    b[1 + i] = rng(0, 127)
                    b[2 + i] = bits(128)
                    if i == 1:
                        b[2] = rng(0, 127)
                    add(k, 'OID of %d bytes, second arc at %d begins with 80' % (ln, i), b)
            add(k, 'OID, first arc with a leading 80', {**T, 1: rng(1, 127), 2: bits(128)})
        if n in WIDTH:
            w = WIDTH[n]
            if n[0] == 'u':
                add(k, 'negative', {**T, 1: rng(1, 127), 2: rng(128, 255)})
                add(k, 'too large', {**T, 1: rng(w + 1, 127) , 2: rng(1, 127)})
                add(k, 'too large, leading 00', {**T, 1: rng(w + 2, 127), 2: bits(0), 3: rng(128, 255)})
            else:
                add(k, 'too large', {**T, 1: rng(w + 1, 127), 2: rng(1, 127)})
                add(k, 'too small', {**T, 1: rng(w + 1, 127), 2: rng(128, 254)})
                add(k, 'too large, leading 00', {**T, 1: bits(w + 1), 2: bits(0), 3: rng(128, 255)})
                add(k, 'too small, leading ff', {**T, 1: bits(w + 1), 2: bits(255), 3: rng(0, 127)})
        if n == 'Enumerated':
            add(k, 'too large', {**T, 1: rng(5, 127), 2: rng(1, 127)})
            add(k, 'negative', {**T, 1: rng(1, 127), 2: rng(128, 255)})
        if n in ('f32', 'f64', 'Real'):
            R = lambda p: bits(*[x for x in range(256) if p(x)])
            add(k, 'REAL, reserved base', {**T, 1: rng(1, 127), 2: R(lambda x: x & 0xb0 == 0xb0)})
            add(k, 'REAL, reserved special value', {**T, 1: rng(1, 127), 2: rng(0x43, 0x7f)})
            add(k, 'REAL, special value with more contents', {**T, 1: rng(2, 127), 2: rng(0x40, 0x43)})
            add(k, 'REAL, no exponent', {**T, 1: bits(1), 2: R(lambda x: x & 0x80)})
            for e in (1, 2, 3):
                add(k, 'REAL, exponent of %d bytes cut short' % e, {**T, 1: rng(1, e), 2: R(lambda x: x & 0x83 == 0x80 | e - 1)})
                add(k, 'REAL, no mantissa after %d bytes' % e, {**T, 1: bits(e + 1), 2: R(lambda x: x & 0x83 == 0x80 | e - 1)})
            add(k, 'REAL, exponent of no bytes', {**T, 1: rng(2, 127), 2: R(lambda x: x & 0x83 == 0x83), 3: bits(0)})
            add(k, 'REAL, exponent longer than the contents', {**T, 1: bits(4), 2: R(lambda x: x & 0x83 == 0x83), 3: rng(2, 255)})
            add(k, 'REAL, unknown decimal form', {**T, 1: rng(2, 127), 2: R(lambda x: x < 64 and x & 3 == 0)})
    run_items(F, rep, ep, items)
    rep.coverage['counts']['decoders'] = len({i.key for i in items})
    rep.floor('input classes', len(items), 400)
    rep.rules = ['no abstract path of a decoder returns Ok on contents that are not a value of its type: wrong number of '
                 'bytes, out of the range of the integer type, reserved or cut short forms']
    return rep

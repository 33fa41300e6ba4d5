"""T08: string decoders accept exactly the characters of their type."""
import base
from matrix import *
from tagtab import *

B = lambda t: bits(*t.encode())
ASCII = rng(0, 127)
LETTERS = B('abcdefghijklmnopqrstuvwxyz') | B('ABCDEFGHIJKLMNOPQRSTUVWXYZ') | B('0123456789')
# X.680 41.2 (Table 8, 9, 10), X.690; for the types whose repertoire has escape sequences the subset the crate supports
REPERTOIRE = {'NumericString': B('0123456789 '), 'PrintableString': LETTERS | B(" '()+,-./:=?"), 'Ia5String': ASCII,
              'VisibleString': rng(0x20, 0x7e), 'TeletexString': rng(0x20, 0x7f), 'VideotexString': rng(0x20, 0x7f),
              'GraphicString': ASCII, 'GeneralString': ASCII, 'ObjectDescriptor': ASCII}
UTF = ('Utf8String', '&str', 'String')
C = rng(0x80, 0xbf)
GOOD8 = {'ascii': [ASCII], 'two octets': [rng(0xc2, 0xdf), C], 'three octets, first': [bits(0xe0), rng(0xa0, 0xbf), C],
         'three octets': [rng(0xe1, 0xec) | rng(0xee, 0xef), C, C], 'three octets, before the surrogates': [bits(0xed), rng(0x80, 0x9f), C],
         'four octets, first': [bits(0xf0), rng(0x90, 0xbf), C, C], 'four octets': [rng(0xf1, 0xf3), C, C, C],
         'four octets, last': [bits(0xf4), rng(0x80, 0x8f), C, C]}
BAD8 = {'continuation alone': [C], 'overlong, two octets': [bits(0xc0, 0xc1), C], 'overlong, three octets': [bits(0xe0), rng(0x80, 0x9f), C],
        'surrogate': [bits(0xed), rng(0xa0, 0xbf), C], 'overlong, four octets': [bits(0xf0), rng(0x80, 0x8f), C, C],
        'above 10ffff': [bits(0xf4), rng(0x90, 0xbf), C, C], 'no such first octet': [rng(0xf5, 0xff), C, C, C],
        'two octets, second missing': [rng(0xc2, 0xdf)], 'two octets, second not a continuation': [rng(0xc2, 0xdf), ASCII | rng(0xc0, 0xff)],
        'three octets, third missing': [rng(0xe1, 0xec), C], 'four octets, fourth missing': [rng(0xf1, 0xf3), C, C],
        'four octets, third not a continuation': [rng(0xf1, 0xf3), C, ASCII | rng(0xc0, 0xff), C]}

HI, LO = rng(0xd8, 0xdb), rng(0xdc, 0xdf)
GOOD16 = {'nothing': [], 'below the surrogates': [rng(0, 0xd7), ALL], 'above the surrogates': [rng(0xe0, 0xff), ALL]}
BAD16 = {'low surrogate alone': [LO, ALL], 'high surrogate alone': [HI, ALL], 'low before high': [LO, ALL, HI, ALL],
         'odd number of octets': [rng(0, 0xd7), ALL, rng(0, 0xd7)], 'one octet': [ALL]}
Z = bits(0)
GOOD32 = {'nothing': [], 'below the surrogates': [Z, Z, rng(0, 0xd7), ALL], 'above the surrogates': [Z, Z, rng(0xe0, 0xff), ALL],
          'other planes': [Z, rng(1, 0x10), ALL, ALL]}
BAD32 = {'surrogate': [Z, Z, HI | LO, ALL], 'above 10ffff': [Z, rng(0x11, 0xff), ALL, ALL], 'above 24 bits': [rng(1, 255), ALL, ALL, ALL],
         'one octet': [Z], 'two octets': [Z, Z], 'three octets': [Z] * 3, 'five octets': [Z, Z, Z, ALL, Z]}


def run():
    F = base.facts('nd')
    rep = base.Report('T08', 'proof')
    ep = entry_points(F, ('from_ber', 'from_der', 'parse_ber', 'parse_der', 'test_valid_charset'))
    items = []

    def add(k, name, content, expect):
        """content: masks of the octets"""
        if k[1] == 'test_valid_charset':
            items.append(Item(k, name, dict(enumerate(content)), expect, fixed=len(content), peel=24))
            return
        cls = {0: bits(tag_of(k)), 1: bits(len(content))}
        cls.update({2 + i: m for i, m in enumerate(content)})
        items.append(Item(k, name, cls, expect, peel=24))
        if not is_der(k) and k[0] not in ('&str', 'String') and len(content) < 8 and len(content) > 0:
            cls = {0: bits(tag_of(k) | 32), 1: bits(len(content) + 2), 2: bits(4), 3: bits(len(content))}
            cls.update({4 + i: m for i, m in enumerate(content)})
            if expect == 'reject':
                items.append(Item(k, name + ', constructed', cls, expect, peel=24))
    for k in sorted(ep):
        n = k[0]
        if n in REPERTOIRE:
            R = REPERTOIRE[n]
            for ln in (0, 1, 2, 3, 4, 20):
                add(k, '%d characters of the repertoire' % ln, [R] * ln, 'accept')
                for at in sorted({0, 1, ln // 2, ln - 1} & set(range(ln))):
                    add(k, '%d characters, number %d outside' % (ln, at + 1), [R] * at + [ALL & ~R] + [R] * (ln - at - 1), 'reject')
        if n in UTF:
            for c, m in GOOD8.items():
                add(k, 'UTF-8, ' + c, m, 'accept')
                add(k, 'UTF-8, between others, ' + c, [ASCII] * 2 + m + [rng(0xc2, 0xdf), C], 'accept')
            for c, m in BAD8.items():
                add(k, 'not UTF-8, ' + c, m, 'reject')
                add(k, 'not UTF-8, between others, ' + c, [ASCII] * 2 + m + [ASCII] * 3, 'reject')
        if n == 'BmpString':
            for c, m in GOOD16.items():
                add(k, 'UTF-16, ' + c, m, 'accept')
                add(k, 'UTF-16, between others, ' + c, [rng(0, 0xd7), ALL] + m + [rng(0xe0, 0xff), ALL], 'accept')
            for c, m in BAD16.items():
                add(k, 'not UTF-16, ' + c, m, 'reject')
                add(k, 'not UTF-16, between others, ' + c, [rng(0, 0xd7), ALL] + m + [rng(0xe0, 0xff), ALL], 'reject')
        if n == 'UniversalString':
            for c, m in GOOD32.items():
                add(k, c, m, 'accept')
                add(k, 'between others, ' + c, GOOD32['below the surrogates'] + m + GOOD32['above the surrogates'], 'accept')
            for c, m in BAD32.items():
                add(k, c, m, 'reject')
                add(k, 'between others, ' + c, GOOD32['below the surrogates'] + m + GOOD32['above the surrogates'], 'reject')
    run_items(F, rep, ep, items)
    rep.floor('types', len({i.key[0] for i in items}), 10)
    rep.floor('input classes', len(items), 700)
    rep.rules = ['no successful path for an object with a character outside the repertoire; no failing path for one without']
    return rep

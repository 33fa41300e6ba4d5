"""What X.680/X.690 say about the universal types: the oracle of the tag, form and content checks.
Keyed by the short type names of probe.entry_points; independent of the source under analysis."""
import re
from probe import bits, rng, ALL

INTS = ['i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize']
WIDTH = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'i128': 16, 'isize': 8,
         'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16, 'usize': 8}

TAG = {'bool': 1, 'Boolean': 1, 'Integer': 2, 'BitString': 3, '&[u8]': 4, 'OctetString': 4, '()': 5, 'Null': 5,
       'Oid': 6, 'ObjectDescriptor': 7, 'f32': 9, 'f64': 9, 'Real': 9, 'Enumerated': 10, 'EmbeddedPdv': 11,
       'Utf8String': 12, '&str': 12, 'String': 12,
       'Sequence': 16, 'SequenceOf<T>': 16, 'Vec<T>': 16, 'AnySequence': 16, '[T; N]': 16,
       'Set': 17, 'SetOf<T>': 17, 'BTreeSet<T>': 17, 'HashSet<T, S>': 17, 'AnySet': 17, 'AnySet<S>': 17,
       'NumericString': 18, 'PrintableString': 19, 'TeletexString': 20, 'VideotexString': 21, 'Ia5String': 22,
       'UtcTime': 23, 'GeneralizedTime': 24, 'GraphicString': 25, 'VisibleString': 26, 'GeneralString': 27,
       'UniversalString': 28, 'BmpString': 30, 'EndOfContent': 0}
TAG.update({t: 2 for t in INTS})
TAG.update({'(%s)' % (', '.join('T%d' % i for i in range(1, n + 1)) + (',' if n == 1 else '')): 16 for n in range(1, 13)})
# further tags a type takes by design
ALSO = {'Oid': (13,)}
# always constructed / always primitive (X.690 8) / primitive in DER only (10.2)
CONSTRUCTED = {t for t, n in TAG.items() if n in (16, 17, 11)}
PRIMITIVE = {t for t, n in TAG.items() if n in (0, 1, 2, 5, 6, 9, 10)}
STRINGS = set(TAG) - CONSTRUCTED - PRIMITIVE


def tag_of(key):
    return TAG.get(key[0])


def is_der(key):
    return key[1] in ('from_der', 'parse_der')

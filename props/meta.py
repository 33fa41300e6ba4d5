"""The properties: what each says, where it is anchored, how it is decided."""

INPUTS = lambda t: {'over': ['inputs'], 'text': t}


def P(id, title, statement, quant, why, files, mech, technique='', level='other', note='', na=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=quant, why_tests_cant=why,
             anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]},
             technique=technique, level=level, level_note=note)
    if na:
        d['na'] = na
    return d


PROPS = [
P('A01', 'Decoding never panics',
  'No decoding entry point of the library panics, overflows an integer or indexes out of bounds, whatever bytes it is '
  'given: every input yields a value, an error or a request for more data. This covers the BER and DER decoders of '
  'every supported type, header parsing, conversions from a generic object, DER constraint checks, character set '
  'validation and the item iterators.',
  INPUTS('every byte string, every decodable type, BER and DER, and every header handed to a content decoder'),
  'Tests sample inputs; a panic hides in a length, sign or emptiness corner of one type.',
  ['src/header.rs', 'src/ber/parser.rs', 'src/asn1_types', 'src/from_ber.rs', 'src/from_der.rs', 'src/input.rs'],
  [('header parsing', 'src/header.rs parse_header'), ('content extraction', 'src/ber/parser.rs get_object_content'),
   ('content decoders', 'from_ber_content / from_der_content of each type'),
   ('constraint checks', 'check_constraints of each type')],
  'abstract interpretation of MIR (relational intervals, value sets, slices) discharging every panic edge',
  'proof',
  'Every panic edge reachable from the decoding entry points is an obligation; all are discharged in the abstract '
  'domain for all inputs except the exempted loop counters named in props/a01.py. Library functions are modelled or '
  'assumed total.'),
P('B01', 'An object occupies exactly the bytes its header declares',
  'Whatever the type, when from_ber, from_der, parse_ber or parse_der succeeds on an input that begins with a header of '
  'definite length, the remainder handed back is the input from header length + declared length to its end: nothing is '
  'consumed beyond the object and no part of it is handed back. In BER, an object of indefinite length ends after the '
  'first end-of-contents octets 00 00 that belong to it, which are not part of its content. A position tracking Input '
  'keeps the span of the remainder consistent with its bytes. An absent Option consumes nothing.',
  INPUTS('every input, every decodable type, all forms of the length field, nested contents of indefinite length'),
  'Off-by-one remainders show only for particular length forms, and tests mostly check values and empty remainders.',
  ['src/header.rs', 'src/ber/parser.rs', 'src/ber/traits.rs', 'src/from_ber.rs', 'src/from_der.rs', 'src/input.rs', 'src/asn1_types'],
  [('content extraction', 'src/ber/parser.rs ber_get_content, der_get_content'), ('header parsing', 'src/header.rs'),
   ('blanket decoders', 'src/from_ber.rs, src/from_der.rs'), ('spans', 'src/input.rs take, take_from, take_split')],
  'abstract interpretation of MIR per input class: remainder offset as a linear form of the header octets', 'proof',
  'Each successful abstract exit of each decoder carries the remainder as a slice with linear bounds, compared with the '
  'bounds X.690 defines. Containers of several elements are covered for the outer object; generic decoders through '
  'their identity instance.'),
P('B02', 'A decoded value carries exactly its content octets',
  'A decoder of a string type (including &str, String, &[u8]), of Integer, Oid, Sequence, Set, Any or BitString that '
  'succeeds on a primitive object of definite length (constructed for Sequence and Set) returns a value holding exactly '
  'the content octets: from the end of the header to the end of the object, not shifted, cut or extended. A BitString '
  'holds the octets after the first and 8 * (length - 1) - unused bits.',
  INPUTS('every accepted input of each of these types, every form of definite length'),
  'A value shifted or cut by one byte for one length form or one type escapes sampled round trips.',
  ['src/asn1_types', 'src/ber/parser.rs', 'src/header.rs'],
  [('content decoders', 'from_ber_content / from_der_content of each type'), ('content extraction', 'src/ber/parser.rs')],
  'abstract interpretation of MIR per input class: slice bounds of the returned value as linear forms', 'proof',
  'Constructed strings are outside (they are concatenated at run time). Characters are compared as octets: BmpString '
  'and UniversalString, which transcode, are outside.'),
P('S01', 'Truncated input is Incomplete, a complete object never is',
  'When the input ends before the object does, in the identifier (of low form), the length octets or the contents, every decoder '
  '(from_ber, from_der, parse_ber, parse_der of universal types, Any, Header, optional and tagged values) '
  'answers Err::Incomplete, so that a caller can read more and try again: it neither accepts the object nor reports it as malformed. '
  'An identifier of several octets that is cut is not accepted. '
  'For types without elements, an input holding the whole object is never answered with Incomplete, even when a segment '
  'of a constructed string is cut inside.',
  INPUTS('every input cut at any place; short and long form lengths of one to four octets, every declared length, every shorter input'),
  'Tests cut one or two objects in one place; a stream can be cut anywhere, and a wrong answer loses the connection or hangs.',
  ['src/header.rs', 'src/ber/parser.rs', 'src/from_ber.rs', 'src/from_der.rs', 'src/asn1_types'],
  [('header', 'src/header.rs parse_header'), ('contents', 'src/ber/parser.rs get_object_content'), ('generic decoders', 'src/from_ber.rs, src/from_der.rs')],
  'abstract interpretation of MIR per class of truncated inputs: every exit is Err(Incomplete)', 'proof',
  'The amount needed is not compared. Objects of indefinite length without end-of-contents are B01. Containers report a cut element their own way.'),
P('T01', 'Decoders take only their own tag and form',
  'A decoder (from_ber, from_der, parse_ber, parse_der) of a universal type succeeds only on an object with the '
  'universal tag number X.680 gives the type; Oid also takes RELATIVE-OID. Types that are always primitive (BOOLEAN, '
  'INTEGER, NULL, OBJECT IDENTIFIER, REAL, ENUMERATED, end-of-contents) reject constructed objects and types that are '
  'always constructed (SEQUENCE, SET and their collections, tuples, arrays, EMBEDDED PDV) reject primitive ones. The '
  'proper tag is not rejected outright.',
  INPUTS('every header, every supported universal type; the class bits are not part of the property'),
  'There are some sixty types times four entry points; tests try a wrong tag on few of them.',
  ['src/asn1_types', 'src/tag.rs', 'src/header.rs', 'src/from_ber.rs', 'src/from_der.rs', 'src/traits.rs'],
  [('tag tables', 'impl Tagged of each type'), ('tag assertions', 'DynTagged::accept_tag, Tag::assert_eq, Header::assert_tag'),
   ('form assertions', 'Header::assert_primitive, assert_constructed')],
  'abstract interpretation of MIR per header class: no Ok exit for a foreign tag or form', 'proof',
  'Oracle: the tag table of X.680 in lib/tagtab.py.'),
P('T02', 'Tagged and optional values are recognised by class and tag',
  'TaggedParser and TaggedValue (explicit and implicit) and the tagged parsing helpers accept only an object of exactly '
  'their class and tag number (explicit: constructed) and hand exactly its content to the decoder of the value inside. '
  'Optional forms answer None exactly when the class or tag differ, and then consume nothing; Option<T> is None only '
  'if T does not accept the tag, or the input is empty.',
  INPUTS('every header, every class, tag numbers in short and long form'),
  'A comparison that ignores the class, or an optional field that swallows input, shows only when fields are missing or foreign.',
  ['src/asn1_types/tagged', 'src/asn1_types/tagged.rs', 'src/asn1_types/optional.rs', 'src/asn1_types/choice.rs'],
  [('tagged parser', 'src/asn1_types/tagged/parser.rs'), ('explicit / implicit', 'src/asn1_types/tagged/explicit.rs, implicit.rs'),
   ('helpers', 'src/asn1_types/tagged/helpers.rs'), ('optional', 'src/asn1_types/optional.rs, tagged/optional.rs')],
  'abstract interpretation of MIR per header class, with the inner decoder as an observed hole', 'proof',
  'The inner decoder is abstract: the property is about what it is given and when it is called.'),
P('T03', 'DER decoders reject what DER forbids',
  'from_der and parse_der never accept: an indefinite length or the reserved length octet ff; a constructed encoding of '
  'a string type; a BOOLEAN other than 00 or ff; an INTEGER of any width (also Enumerated) with a redundant leading 00 or ff '
  'octet; a BIT STRING whose unused bits are not zero. (Long form lengths that would fit the short form are tolerated '
  'by design.)',
  INPUTS('every input of a DER decoder of each universal type'),
  'BER and DER share code; a dropped check is invisible to tests that decode valid DER.',
  ['src/asn1_types', 'src/ber/parser.rs', 'src/from_der.rs', 'src/traits.rs', 'src/header.rs'],
  [('DER constraints', 'impl CheckDerConstraints of each type'), ('DER content decoders', 'from_der_content of each type'),
   ('lengths', 'src/ber/parser.rs der_get_content')],
  'abstract interpretation of MIR per forbidden input class: no Ok exit', 'proof',
  'BIT STRING padding: contents of up to 3 octets (thorough: 4); the code looks at the last octet only.'),
P('T04', 'A decoded header says what its octets say',
  'Header and Any report exactly the class, the constructed bit, the tag number (low form, and high form of up to five '
  'octets), the length (short form, long form of any size that fits, indefinite) and the raw tag octets that are in '
  'the input.',
  INPUTS('every identifier and length octet combination'),
  'Bit fields and base-128 or base-256 accumulation go wrong for single combinations of class, form and length of length.',
  ['src/header.rs', 'src/class.rs', 'src/length.rs', 'src/tag.rs', 'src/asn1_types/any.rs'],
  [('header parsing', 'src/header.rs parse_header, parse_identifier, parse_ber_length_byte'),
   ('class', 'src/class.rs TryFrom<u8>')],
  'abstract interpretation of MIR per header class: fields as linear forms of the octets', 'proof',
  'Tag numbers of up to 28 bits and their octets; larger ones are covered for panics only.'),
P('T05', 'Contents that are no value of the type are rejected',
  'Decoders, BER and DER, reject: BOOLEAN not of one octet; NULL and end-of-contents with contents; empty INTEGER, '
  'ENUMERATED, OBJECT IDENTIFIER and BIT STRING; a BIT STRING with more than 7 unused bits or unused bits of nothing; '
  'an OBJECT IDENTIFIER whose last sub-identifier is cut short or one that begins with 80; an integer that does not '
  'fit the Rust type (negative for unsigned types, too large, too small); a REAL with a reserved base, special value or '
  'decimal form, or with exponent or mantissa missing.',
  INPUTS('every input of the malformed classes; OBJECT IDENTIFIERs of up to 4 octets (the last octet check: any)'),
  'Each class is a corner of one decoder; a silently truncating integer conversion passes every ordinary test.',
  ['src/asn1_types'],
  [('content decoders', 'from_ber_content / from_der_content of each type'), ('integer conversions', 'src/asn1_types/integer.rs')],
  'abstract interpretation of MIR per malformed input class: no Ok exit', 'proof', 'Oracle: X.690 clause 8.'),
P('T06', 'Numbers decode to what their octets denote',
  'BOOLEAN, the fixed width INTEGER types and ENUMERATED decode every well-formed encoding whose number fits the type, and the '
  'result is exactly the two\'s complement number of the content octets (BOOLEAN: false for 00, true otherwise, DER ff '
  'only). Binary REAL values carry exactly the base and exponent the octets spell and the special values are '
  'recognised.',
  INPUTS('every number of every width from 8 to 128 bits; every REAL exponent of 1 to 4 octets'),
  'Sign extension and leading zero handling fail at particular widths and sign bits.',
  ['src/asn1_types/integer.rs', 'src/asn1_types/boolean.rs', 'src/asn1_types/enumerated.rs', 'src/asn1_types/real.rs'],
  [('integer conversions', 'src/asn1_types/integer.rs'), ('REAL', 'src/asn1_types/real.rs from_ber_content')],
  'abstract interpretation of MIR per input class: value as a linear form of the content octets, no Err exit', 'proof',
  'Mantissas are floating point or shifted by amounts read from the input: not compared.'),
P('T07', 'Times decode to the fields their digits spell',
  'UTCTime and GeneralizedTime strings that are well-formed and in range (month 1-12, day 1-31, hour 0-23, minute and '
  'second 0-59, offset hours 0-23 and minutes 0-59; seconds optional as the crate supports it; GeneralizedTime with up '
  'to 3 fraction digits after a dot or comma) are accepted, and each field of the value equals the decimal number of '
  'its digits, milliseconds scaled to the number of digits, and time zone Z, undefined or the signed offset. Strings '
  'with a field out of range, a non-digit in a field, a byte too many or too few, another zone letter or a decimal '
  'mark without digits are rejected; in DER, GeneralizedTime must end in Z and must not use a comma.',
  INPUTS('every time string of the supported shapes'),
  'The field arithmetic and its limits are wrong for single digits or single shapes only.',
  ['src/asn1_types/utctime.rs', 'src/asn1_types/generalizedtime.rs', 'src/datetime.rs'],
  [('UTCTime', 'src/asn1_types/utctime.rs from_bytes'), ('GeneralizedTime', 'src/asn1_types/generalizedtime.rs from_bytes'),
   ('digits', 'src/datetime.rs decode_decimal')],
  'abstract interpretation of MIR per string shape: fields as linear forms of the octets, no Ok exit for malformed shapes', 'proof',
  'Days per month are not checked by the crate and not part of the property. Leap seconds (60) are not accepted by the crate.'),
P('T08', 'String decoders accept exactly the characters of their type',
  'A string decoder (BER, DER, and the character set test of each type) succeeds when every character of the content belongs to '
  'the repertoire of the type, and fails when any of them does not, wherever it stands: NumericString digits and space, '
  'PrintableString letters, digits, space and \'()+,-./:=?, IA5String 00-7f, VisibleString 20-7e, TeletexString and VideotexString '
  '20-7f, GraphicString, GeneralString and ObjectDescriptor 00-7f (the subsets the crate supports), UTF8String and native strings '
  'valid UTF-8, BMPString valid UTF-16, UniversalString UCS-4 without surrogates below 110000. BER constructed strings '
  'are judged by their assembled characters.',
  INPUTS('every character in every position of strings of 0 to 4 and 20 characters; every valid and invalid class of UTF-8, UTF-16 '
         'and UCS-4 sequences, alone and between valid neighbours; primitive and constructed forms'),
  'One wrong character in a table, or a check that stops early, passes every test that does not use that character there.',
  ['src/asn1_types/strings', 'src/asn1_types/object_descriptor.rs'],
  [('character sets', 'test_valid_charset of each type in src/asn1_types/strings'), ('declaration macro', 'src/asn1_types/strings.rs asn1_string!'),
   ('transcoded types', 'src/asn1_types/strings/bmpstring.rs, universalstring.rs')],
  'abstract interpretation of MIR per class of octets: no Ok exit with a character outside the repertoire, no Err exit without', 'proof',
  'Strings of other lengths are represented by these lengths. std UTF-8 and UTF-16 validation is modelled by its specification.'),
P('E01', 'Identifier and length octets are encoded correctly and minimally',
  'For every class, form and tag number of 32 bits, the encoders write the identifier octets X.690 8.1.2 prescribes (low '
  'form up to 30, otherwise base 128 without leading zero digits), and for every length the shortest length octets '
  '(short form up to 127; otherwise the number of octets and the big endian number without leading zeros; 80 for '
  'indefinite). The number of octets reported is the number written and equals what the length functions (of tags, '
  'lengths, headers and whole objects) predict, and a failing writer is reported.',
  INPUTS('every class, form, tag number, every length of up to 8 octets'),
  'The boundaries between the forms (30/31, 127/128, 2^7k, 2^8k) are many; tests encode a handful of small headers.',
  ['src/ber/encoder.rs', 'src/to_ber.rs', 'src/to_der.rs', 'src/header.rs', 'src/length.rs'],
  [('header writers', 'src/ber/encoder.rs BerEncoder'), ('length functions', 'src/to_ber.rs ber_header_length, ber_tag_length, '
   'ber_length_length, ber_total_length'), ('Header', 'impl ToBer / ToDer for Header')],
  'abstract interpretation of MIR per class of values with a recording writer: octets as linear forms of the digits', 'proof',
  'Each class of numbers is represented by its digits, so the equations hold for all members of the class.'),
P('E02', 'Encoders write one well-formed object',
  'Whatever the value, encode, write_header and the explicitly and implicitly tagged forms of every encodable type (BER '
  'and DER) write the identifier octets of the type (implicit: the given class and number, the form of the type; '
  'explicit: constructed, around the whole object), length octets announcing exactly the number of content octets '
  'that follow, and the content. The number of octets returned is the number written; content_len and total_len '
  'agree with it. An absent Option writes nothing, a failing writer is reported.',
  INPUTS('every value of every encodable type (UTCTime: years 0-99); elements are any encodable type; lists of up to 2 (thorough: 3) elements'),
  'A length that disagrees with the content corrupts everything after the object, for values with a particular size or sign only.',
  ['src/to_ber.rs', 'src/to_der.rs', 'src/asn1_types', 'src/ber/encoder.rs', 'src/header.rs'],
  [('generic encoding', 'src/to_ber.rs ToBer, src/to_der.rs ToDer'), ('content and its length',
   'ber_content_len / ber_write_content, der_content_len / der_write_content of each type'),
   ('tagged values', 'src/asn1_types/tagged')],
  'abstract interpretation of MIR with a recording writer; type parameters as objects of uninterpreted length', 'proof',
  'Identifier and length octets themselves: E01. Floating point REAL contents and f32, f64 are outside. Explicit '
  'tagging of an object of indefinite length is outside.'),
P('E03', 'Content octets are those of the value',
  'Encoders write the content X.690 clause 8 prescribes: BOOLEAN 00 or ff (a Boolean of another octet in BER: that octet; '
  'DER: ff); INTEGER of every width and ENUMERATED the shortest two\'s complement form; strings, OBJECT IDENTIFIER, '
  'Sequence, Set and Any exactly the octets they hold; BIT STRING the number of unused bits and the octets; '
  'BMPString and UniversalString 2 and 4 octets big endian per character; lists each element once in order; UTCTime and '
  'GeneralizedTime the digits of the fields, fractions without trailing zeros, and Z; special REAL values 40, 41 and nothing.',
  INPUTS('every value of these types, BER and DER, also inside tagging; strings of 2 characters (thorough: 4) for transcoded types; lists as E02'),
  'Sign octets, leading zeros and field widths differ for single ranges of values; tests encode few of them.',
  ['src/asn1_types'],
  [('content writers', 'ber_write_content / der_write_content of each type'), ('integers', 'src/asn1_types/integer.rs'),
   ('times', 'src/asn1_types/utctime.rs, generalizedtime.rs')],
  'abstract interpretation of MIR per class of values with a recording writer: octets as linear forms of the digits of the value', 'proof',
  'Sets are checked to hold each element once; DER ordering of SET OF is not done by the crate and not claimed. '
  'Finite REAL values are outside. Times with an offset are outside.'),
P('E04', 'Values report the class, form and number they are encoded with',
  'For every encodable type, ber_tag_info, der_tag_info and DynTagged (class, constructed, tag) of a value agree, and are the '
  'universal tag and form X.680 gives the type (tagged values: their class and number, EXPLICIT constructed, IMPLICIT in the form of '
  'the value inside), as are the Tagged constants and the tags accept_tag accepts. Implicit tagging and optional values take the form and the acceptance of tags from there.',
  INPUTS('every value of every encodable type'),
  'Wrong tag information shows only once a type is tagged implicitly or nested in a generic one.',
  ['src/asn1_types', 'src/tag.rs', 'src/to_ber.rs', 'src/to_der.rs'],
  [('static tags', 'impl Tagged of each type'), ('dynamic tags', 'impl DynTagged'), ('encoders', 'ber_tag_info / der_tag_info of each type')],
  'abstract interpretation of MIR: tag information compared between its sources and with the table of X.680', 'proof',
  'The form TaggedParser reports of itself is that of the decoded object and not compared.'),
P('C01', 'A collection decodes to exactly its elements',
  'Vec, SequenceOf, SetOf, BTreeSet, HashSet, arrays and tuples (from_ber, from_der, parse_ber, parse_der, try_from(Any)), '
  'AnySequence and AnySet, the collecting methods of Sequence and Set (ber_sequence_of, into_der_set_of and so on, of borrowed '
  'and of owned values), AnyIterator, SequenceIterator, SetIterator, SequenceIteratorInput and Any::iter_elements yield exactly '
  'the elements of the encoding, in order (sets: as a set), each decoded by the rules asked for (BER or DER), when every element '
  'is valid for the type of the elements and fills the object exactly. They fail when any element has another type, is not '
  'valid, is invalid in DER (DER forms) or is cut short; check_constraints of a collection does so when an element is not DER. An '
  'iterator ends after the octets are used up, and after an object that cannot be read. Arrays and tuples take exactly as many elements as they '
  'have, or (tuples) at least.',
  INPUTS('none to three elements (INTEGER, BOOLEAN, OCTET STRING, any) with every content, an invalid one at every position; '
         'definite and indefinite containers'),
  'One bad element at one position, in one of a dozen ways to decode a collection, is what samples do not meet.',
  ['src/asn1_types/sequence', 'src/asn1_types/set', 'src/asn1_types/sequence.rs', 'src/asn1_types/set.rs', 'src/asn1_types/iterator.rs'],
  [('iterators', 'src/asn1_types/iterator.rs, src/asn1_types/sequence/iterator.rs'), ('collections', 'src/asn1_types/sequence/*.rs, src/asn1_types/set/*.rs'),
   ('methods', 'src/asn1_types/sequence.rs ber_sequence_of, into_der_sequence_of; src/asn1_types/set.rs'), ('any', 'Any::iter_elements')],
  'abstract interpretation of the MIR of a witness per way to decode and element type, per input class, against the list of elements', 'proof',
  'Elements beyond those of a tuple are not looked at by the crate and not part of the property.'),
P('O01', 'The arcs of an object identifier are those its octets encode, in both directions',
  'Oid::iter yields exactly the arcs X.690 8.19 and 8.20 read from the content octets: of an absolute identifier the first '
  'sub-identifier (of any number of octets) stands for two arcs, the first 0, 1 or 2, each other sub-identifier (base 128) for '
  'one; it yields them all when every sub-identifier fits in 64 bits, and gives None otherwise. len and size_hint of the '
  'iterator are the number of arcs still to come, at every step. Oid::from and Oid::from_relative encode the arcs given (first '
  'arc up to 2; second below 40 unless the first is 2), so that the octets are those of X.690 and reading them gives the arcs '
  'back, and refuse any others, never truncating. Decoding an OBJECT IDENTIFIER or RELATIVE-OID (Oid::from_ber, from_der, '
  'parse_ber, parse_der, try_from(Any), from_ber_relative, from_der_relative, Any::oid and its relatives) keeps the octets and '
  'which of the two it is; to_owned keeps both; starts_with is true exactly when the octets begin with those of the other.',
  INPUTS('sub-identifiers of 1, 2, 3, 9, 10 and 11 octets in up to four places with every value of their octets; up to five '
         'arcs, each with every value of its number of octets; identifiers of up to 24 octets'),
  'Arithmetic on sub-identifiers fails at widths and leading values (2.40 and up, 64 bits, several octets) no sample has.',
  ['src/asn1_types/oid.rs', 'src/asn1_types/any.rs'],
  [('reading', 'src/asn1_types/oid.rs Oid::iter, SubIdentifierIterator::next, len'), ('building', 'Oid::from, Oid::from_relative, encode_relative'),
   ('decoding', 'Oid::from_ber_content, from_ber_relative, from_der_relative; Any::oid, relative_oid'), ('others', 'to_owned, starts_with')],
  'abstract interpretation of the MIR of witness functions per input class; arcs as linear forms of the octets, octets as digits of the arcs', 'proof',
  'The octet 0 alone is how the crate writes the single arc 0 and is not read as 0.0. iter_bigint shares the code of iter, its '
  'big-number arithmetic is not analysed; nor are the macro oid! (run at build time) and the text form.'),
P('G01', 'Derived decoders take the fields of the definition, in order, and nothing else',
  'A decoder generated by the derive macros (Sequence, Set, Choice, Enumerated, Alias and their Ber/Der/BerParser/DerParser '
  'forms) accepts an object exactly when its elements are those of the definition in order: each field with its own tag '
  '(EXPLICIT or IMPLICIT tags by class and number), OPTIONAL and DEFAULT fields present or absent, SEQUENCE and SET '
  'constructed, a CHOICE with the tag of one of its variants, an ENUMERATED with one of its numbers. Each field gets the value '
  'of its own element, absent ones None or their default, and what follows the object is handed back whole.',
  INPUTS('every content of the fields; every subset of optional fields; missing, swapped, retagged, reclassed and reformed '
         'fields; definitions of up to five fields of a dozen shapes, tag numbers up to 2^28, lengths around 127 and 255, nested CHOICE, in eight derive styles'),
  'The macros generate code per definition: tests cover a few definitions with well-formed input.',
  ['derive/src/container.rs', 'derive/src/sequence.rs', 'derive/src/choice.rs', 'derive/src/enumerated.rs', 'derive/src/alias.rs'],
  [('fields', 'derive/src/container.rs get_field_parser, get_field_berparser'), ('containers', 'gen_tryfrom, gen_fromder, gen_berparser'),
   ('choice', 'derive/src/choice.rs derive_choice_parser_tagged / _untagged'), ('enumerated', 'derive/src/enumerated.rs')],
  'abstract interpretation of the MIR of derived witness types per input class, against a reference decoder of element lists', 'proof',
  'The witnesses are the quantified definitions; elements after the known fields are not looked at by the crate and not part of '
  'the property, nor is the class of universal tags. The custom error and parse attributes are outside.'),
P('G02', 'Derived encoders write the fields of the definition under their tags',
  'An encoder generated by the derive macros writes exactly the DER encoding of the value: identifier and length of the '
  'container, each present field in order, wrapped or retagged as its attribute says, absent OPTIONAL fields left out, in DER '
  'also fields equal to their DEFAULT; a CHOICE as its variant, an ENUMERATED with the number of its variant. The lengths '
  'predicted and returned are those written, and a failing writer is reported.',
  INPUTS('every value of the fields (one and two octet numbers, booleans, two octet strings); every subset of optional fields; '
         'the definitions of G01'),
  'Content length and content are generated separately and must agree for every combination of present fields and tags.',
  ['derive/src/container.rs', 'derive/src/sequence.rs', 'derive/src/choice.rs', 'derive/src/enumerated.rs', 'derive/src/alias.rs'],
  [('lengths', 'derive/src/container.rs gen_tober_content_len'), ('contents', 'gen_tober_write_content, choice_gen_tober_write_content'),
   ('identifiers', 'gen_tober_tag_info, derive_choice_dyntagged')],
  'abstract interpretation of the MIR of derived witness types with a recording writer: octets as linear forms', 'proof',
  'Sizes of fields are fixed; lengths in general are E01 and E02. Fields equal to their default are written by the crate: listed findings.'),
]

"""Encoder analyses: run an encoder on an arbitrary value and look at what it hands to the writer, piece by
piece, on every abstract path.

The writer is a sink: every write either succeeds, and its bytes are appended to a log kept in the abstract
state, or fails. A path on which a write failed is marked, so that rules can require the error to surface."""
import re
import base, run
from absint import L, ladd, lneg, lconst, lscale, State, LEN_MAX
from models import RES, sl_of, slen, val, u8ty, ok, err
from probe import eq0

LOG = (('log',), 0)
FAIL = (('log',), 1)
WRITE = re.compile(r'(^|[ :])(io::)?Write(>)?::(write_all|write|write_fmt|write_vectored|flush)$')


class EncRules(run.InputRules):
    peel = 20
    maxstates = 40
    failing = True              # also follow the paths on which a write fails
    log_len = True              # record write_length / write_tag_info as pieces
    sublen = True               # encoders of parameters: uninterpreted lengths

    def focus(self, E, fr, args, s):
        return True

    def use_summary(self, E, inst, args, s, fr, tag):
        return False

    def push(self, s, *pieces):
        q = s.copy()
        q.cells[LOG] = ('agg', 'log', 0, self.log(s) + tuple(pieces))
        return q

    def log(self, s):
        v = s.cells.get(LOG)
        return v[3] if v is not None and v[0] == 'agg' else ()

    def io_fail(self, E, s, rty, key):
        q = s.copy()
        q.cells[FAIL] = ('i', L(1))
        return q, err(E.sym(('ioerr', key), E.types[rty]['args'][1]['t']))

    def to_log(self, E, s, a):
        """is this writer the one under observation?"""
        return 'Sink' not in self.tystr(E, a)

    def tystr(self, E, ti):
        return E.types[ti]['s'] if ti is not None else ''

    def on_call(self, E, fd, path, args, atys, rty, s, fr, tag, t):
        m = WRITE.search(path) or WRITE.search(fd['path'])
        if m and atys and atys[0] is not None:
            kind = m.group(4)
            if not self.to_log(E, s, atys[0]):
                return [(s, ok(('agg', '()', 0, ())))] if kind != 'write' else None
            if kind == 'flush':
                return [(s, ok(('agg', '()', 0, ())))]
            if kind == 'write_all':
                sl = E.as_slice(val(E, s, args[1]))
                piece = ('agg', 'bytes', 0, (sl if sl is not None else ('sym', E.symid(('piece', fr.fid, tag)), ()),))
                out = [(self.push(s, piece), ok(('agg', '()', 0, ())))]
            elif kind == 'write_fmt':
                out = [(self.push(s, ('agg', 'text', 0, (val(E, s, args[1]),))), ok(('agg', '()', 0, ())))]
            else:
                # a partial write: nothing is known about what was written
                n = E.alin(('written', fr.fid, tag), 0, LEN_MAX)
                out = [(self.push(s, ('agg', 'partial', 0, (('i', n),))), ok(('i', n)))]
            if self.failing:
                out.append(self.io_fail(E, s, rty, (fr.fid, tag)))
            return out
        r = self.call(E, fd, path, args, atys, rty, s, fr, tag, t)
        return r

    def call(self, E, fd, path, args, atys, rty, s, fr, tag, t):
        return self.texts(E, fd, path, args, atys, rty, s, fr, tag)

    def texts(self, E, fd, path, args, atys, rty, s, fr, tag):
        """formatting: what is formatted is kept, as literals and values"""
        if path.startswith('core::fmt::rt::Argument') and path.endswith('::new_display'):
            return [(s, ('agg', 'fmtarg', 0, (val(E, s, args[0]),)))]
        if path.startswith('std::fmt::Arguments') and path.endswith('::new'):
            x = template(E, s, val(E, s, args[0]), val(E, s, args[1]))
            return [(s, x)] if x is not None else None
        if path.startswith('std::fmt::Arguments') and '::from_str' in path:
            sl = sl_of(E, s, args[0])
            return [(s, ('agg', 'fmt', 0, (('agg', 'lit', 0, (sl,)),)))]
        if path in ('std::fmt::format', 'alloc::fmt::format'):
            b = const_text(E, s, args[0])
            if b is not None:
                sl = E.fullsl(('const', tuple(b)))
            else:
                n = text_len(E, s, args[0])
                base_ = ('s', ('fmt', args[0]))
                sl = E.fullsl(base_)
                if n is not None:
                    sl = ('sl', base_, L(0), n)
            return [(s, ('agg', 'std::string::String', 0, (sl,)))]
        if path == 'std::hint::must_use':
            return [(s, args[0])]
        if path.startswith('core::str::<impl str>::trim_') and path.endswith('_matches'):
            sl = sl_of(E, s, args[0])
            c = lconst(E.vint(args[1])) if len(args) > 1 and args[1][0] == 'i' else None
            b = const_bytes(E, sl)
            if b is not None and c is not None and c < 128:
                b = {'trim_end_matches': b.rstrip, 'trim_start_matches': b.lstrip, 'trim_matches': b.strip}[fd['name']](bytes([c]))
                return [(s, ('rv', E.fullsl(('const', tuple(b)))))]
            new = E.fullsl(('s', (fd['name'], sl, args[1])))
            q = s.copy()
            E.add_le(q, ladd(slen(new), slen(sl), -1))
            return [(q, ('rv', new))]
        if path == 'std::string::ToString::to_string' and re.search(r'^&*(str|std::string::String)$', re.sub(r"'\w+ ", '', self.tystr(E, atys[0]))):
            sl = sl_of(E, s, args[0])
            return [(s, ('agg', 'std::string::String', 0, (sl,)))]
        return None


def const_bytes(E, sl):
    if sl is None or sl[0] != 'sl' or sl[1][0] != 'const':
        return None
    a, b = lconst(sl[2]), lconst(sl[3])
    return None if a is None or b is None else bytes(sl[1][1][a:b])


def template(E, s, t, args):
    """the pieces of a format template (core::fmt::Arguments)"""
    sl = E.as_slice(t)
    b = const_bytes(E, sl)
    av = args[3] if args[0] == 'agg' and args[1] == '[]' else None
    if b is None or av is None:
        return None
    out, i, k = [], 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            return ('agg', 'fmt', 0, tuple(out))
        if n <= 0x80:
            if n == 0x80:
                n = b[i] | b[i + 1] << 8
                i += 2
            out.append(('agg', 'lit', 0, (E.fullsl(('const', tuple(b[i:i + n]))),)))
            i += n
            continue
        fl = w = p = 0
        if n & 1:
            fl = int.from_bytes(b[i:i + 4], 'little')
            i += 4
        if n & 2:
            w = int.from_bytes(b[i:i + 2], 'little')
            i += 2
        if n & 4:
            p = int.from_bytes(b[i:i + 2], 'little')
            i += 2
        if n & 8:
            k = int.from_bytes(b[i:i + 2], 'little')
            i += 2
        if n & 0x30 or n & 4 or k >= len(av) or av[k][:2] != ('agg', 'fmtarg'):
            return None
        v = av[k][3][0]
        while v[0] in ('rv', 'ref'):
            v = val(E, s, v)
        out.append(('agg', 'put', 0, (v, ('i', L(w)), ('i', L(fl >> 24 & 1)), ('i', L(fl >> 21 & 7)))))
        k += 1
    return None


def put_len(E, s, x):
    """number of characters a formatted value takes"""
    v, w, z, f = x[3]
    w = lconst(E.vint(w))
    sl = E.as_slice(v) if v[0] in ('sl', 'agg') else None
    if sl is not None:
        return slen(sl) if w == 0 else None
    if v[0] == 'i':
        n = E.vint(v)
        c = lconst(n)
        if c is not None:
            return L(max(w, len(str(c))))
        if lconst(E.vint(f)) == 0 and E.clampfits(s, n, 0, 10 ** w - 1):
            return L(max(w, 1)) if w else None
        for d in range(max(w, 1), 12):
            if E.clampfits(s, n, 10 ** (d - 1), 10 ** d - 1):
                return L(d)
    return None


def text_len(E, s, f):
    if f[:2] != ('agg', 'fmt'):
        return None
    n = L(0)
    for x in f[3]:
        y = slen(x[3][0]) if x[1] == 'lit' else put_len(E, s, x)
        if y is None:
            return None
        n = ladd(n, y)
    return n


def const_text(E, s, f):
    if f[:2] != ('agg', 'fmt'):
        return None
    out = b''
    for x in f[3]:
        if x[1] == 'lit':
            out += const_bytes(E, x[3][0])
            continue
        v, w, z, fl = x[3]
        sl = E.as_slice(v) if v[0] in ('sl', 'agg') else None
        w, z = lconst(E.vint(w)), lconst(E.vint(z))
        if sl is not None:
            c = const_bytes(E, sl)
            if c is None or w:
                return None
            out += c
        elif v[0] == 'i' and lconst(E.vint(v)) is not None:
            c = str(lconst(E.vint(v)))
            out += (c.zfill(w) if z else c.rjust(w)).encode()
        else:
            return None
    return out


class Enc:
    __slots__ = ('E', 'exits', 'err', 'args', 'rules')


def encode(F, iid, rules=None, steps=300000, prep=None):
    o = Enc()
    o.rules = rules or EncRules()
    o.E, o.exits, o.args, o.err = run.run_root(F, iid, o.rules, steps, prep)
    return o


def piece_len(E, p, S):
    if p[1] == 'bytes' and p[3][0][0] == 'sl':
        return slen(p[3][0])
    if p[1] == 'text':
        return text_len(E, S, p[3][0])
    if p[1] in ('sub', 'hdr', 'partial', 'len', 'tag', 'encode_tagged_explicit', 'encode_tagged_implicit'):
        return E.vint(p[3][0])
    return None


def log_len(E, ps, S):
    n = L(0)
    for p in ps:
        x = piece_len(E, p, S)
        if x is None:
            return None
        n = ladd(n, x)
    return n


def log_bytes(E, ps):
    """everything written, octet by octet (linear forms), when the number of octets is known"""
    out = []
    for p in ps:
        if p[1] != 'bytes' or p[3][0][0] != 'sl':
            return None
        sl = p[3][0]
        n = lconst(slen(sl))
        if n is None or n > 2000:
            return None
        out += [E.vint(E.elem(sl, L(j), u8ty(E))) for j in range(n)]
    return out


def same_bytes(E, s, got, want):
    """got, want: lists of linear forms"""
    return got is not None and len(got) == len(want) and \
        all(eq0(E, s, E.folded(s, ladd(a, b, -1))) for a, b in zip(got, want))


def digit(E, key, lo, hi):
    return E.alin(('digit', key), lo, hi)


def compose(ds, base):
    """most significant first"""
    r = L(0)
    for d in ds:
        r = ladd(lscale(r, base), d)
    return r


def okv(v):
    """payload of Ok, or None"""
    return v[3][0] if v[0] == 'agg' and v[1] == RES and v[2] == 0 else None


def is_err(v):
    return v[0] == 'agg' and v[1] == RES and v[2] == 1


def some(E, v):
    return v


def newtype(path, lin):
    return ('agg', path, 0, (('i', lin),))


LENGTH = 'length::Length'
ORDER = {}


def variant_ix(F, path, name):
    for i, v in enumerate(F.adts[path]['variants']):
        if v['name'] == name:
            return i
    raise base.CheckError('%s has no variant %s' % (path, name))


def definite(E, lin):
    return ('agg', LENGTH, variant_ix(E.F, LENGTH, 'Definite'), (('i', lin),))


def indefinite(E):
    return ('agg', LENGTH, variant_ix(E.F, LENGTH, 'Indefinite'), ())


TRAIT = re.compile(r'(^|::)To(Ber|Der)(>)?::(ber|der)_(content_len|total_len|tag_info|write_content|write_header|encode|'
                   r'encode_tagged_explicit|encode_tagged_implicit)$')
HEADER = re.compile(r'(^|::)(BerEncoder::write_length|BerEncoder::write_tag_generic|ber_tag_length|ber_length_length)$')


def char_digits(E, n, k, astral):
    """the digits base 256 of n arbitrary characters (k = 3) or of their UTF-16 units (k = 2), some beyond ffff"""
    out = []
    for i in range(n):
        wide = i in astral
        if k == 3:
            out.append([digit(E, (k, i, 0), 1, 0x10) if wide else L(0)] + [digit(E, (k, i, j), 0, 255) for j in (1, 2)])
        elif wide:
            out += [[digit(E, (k, i, j, 0), lo, lo + 3), digit(E, (k, i, j, 1), 0, 255)] for j, lo in ((0, 0xd8), (1, 0xdc))]
        else:
            out.append([digit(E, (k, i, j), 0, 255) for j in (0, 1)])
    return out


DYN = {'class': 0, 'constructed': 1, 'tag': 2}


class ObjRules(EncRules):
    """Header writers and length functions as E01 establishes them; encoders of type parameters write an object of
    uninterpreted length: total(x) octets of which content(x) are content."""
    pre = 'ber'
    astral = ()             # characters beyond ffff
    nchars = None           # number of characters of a string (its length is that of its UTF-8 form)
    unused = 0              # bits of the last octet of a bit string that are not part of it

    def strip(self, E, s, v):
        while v[0] in ('rv', 'ref'):
            v2 = val(E, s, v)
            if v2 == v:
                break
            v = v2
        return v

    def num(self, E, what, x, lo, hi=LEN_MAX):
        return E.alin((what, x), lo, hi)

    def measures(self, E, s, p, x):
        c = self.num(E, p + '_content', x, 0)
        h = self.num(E, p + '_header', x, 2, 15)
        return c, h, ladd(c, h)

    def call(self, E, fd, path, args, atys, rty, s, fr, tag, t):
        full = fd.get('trait_method') or fd['path']
        m = HEADER.search(full) or HEADER.search(path)
        if m:
            k = m.group(2).split('::')[-1]
            if k in ('write_length', 'ber_length_length'):
                l = self.strip(E, s, args[1] if k == 'write_length' else args[0])
                if l[0] != 'agg':
                    return None
                n = L(1) if not l[3] else self.num(E, 'll', l[3][0], 1, 9)
                if k == 'ber_length_length':
                    return [(s, ok(('i', n)))]
                piece = ('agg', 'len', 0, (('i', n), l))
                if not self.to_log(E, s, atys[2]):
                    return [(s, ok(('i', n)))]
            else:
                tg = self.strip(E, s, args[3] if k == 'write_tag_generic' else args[0])
                n = self.num(E, 'tl', tg, 1, 6)
                if k == 'ber_tag_length':
                    return [(s, ('i', n))]
                piece = ('agg', 'tag', 0, (('i', n), self.strip(E, s, args[1]), self.strip(E, s, args[2]), tg))
                if not self.to_log(E, s, atys[4]):
                    return [(s, ok(('i', n)))]
            out = [(self.push(s, piece), ok(('i', n)))]
            if self.failing:
                out.append(self.io_fail(E, s, rty, (fr.fid, tag)))
            return out
        if path.startswith('tag::DynTagged::') and fd['name'] in DYN and atys and self.param(E, atys[0]):
            # a type parameter: says what its encoder says (established for the types of the crate by E04)
            x = self.strip(E, s, args[0])
            ti = [i for i, t in enumerate(E.types) if t['k'] == 'tuple' and
                  [E.types[e]['s'] for e in t['es']] == ['class::Class', 'bool', 'tag::Tag']]
            return [(s, E.sym((self.pre, 'tag_info', x), ti[0])[3][DYN[fd['name']]])] if ti else None
        m = TRAIT.search(path)
        if m and self.param(E, atys[0]):
            p, k = m.group(4), m.group(5)
            x = self.strip(E, s, args[0])
            c, h, n = self.measures(E, s, p, x)
            if k == 'content_len':
                return [(s, definite(E, c))]
            if k == 'total_len':
                return [(s, definite(E, n))]
            if k == 'tag_info':
                return [(s, E.sym((p, 'tag_info', x), rty))]
            if k in ('write_content', 'write_header', 'encode'):
                w = {'write_content': c, 'write_header': h, 'encode': n}[k]
                ps = []
                if k != 'write_header':
                    ps = [('agg', 'sub', 0, (('i', c), x))]
                if k != 'write_content':
                    ps = [('agg', 'hdr', 0, (('i', h), x))] + ps
                out = [(self.push(s, *ps) if self.to_log(E, s, atys[1]) else s, ok(('i', w)))]
                if self.failing:
                    out.append(self.io_fail(E, s, rty, (fr.fid, tag)))
                return out
            # tagged forms of a parameter: an object with that class and number
            w = self.num(E, p + '_' + k, x, 2)
            out = [(self.push(s, ('agg', k, 0, (('i', w), x, self.strip(E, s, args[1]), self.strip(E, s, args[2])))), ok(('i', w)))]
            if self.failing:
                out.append(self.io_fail(E, s, rty, (fr.fid, tag)))
            return out
        return self.texts(E, fd, path, args, atys, rty, s, fr, tag) or self.more(E, fd, path, args, atys, rty, s, fr, tag)

    def more(self, E, fd, path, args, atys, rty, s, fr, tag):
        if path in ('core::str::<impl str>::chars', 'core::str::<impl str>::encode_utf16'):
            sl = sl_of(E, s, args[0])
            n = self.nchars
            if sl[1] == ('elems',) and n is not None:
                k = 2 if path.endswith('16') else 3     # characters as their digits base 256
                vs = [compose(ds, 256) for ds in char_digits(E, n, k, self.astral)]
                n = len(vs)
                return [(s, ('agg', 'it:vals', 0, (('sl', ('arrv', tuple(('i', v) for v in vs)), L(0), L(n)),)))]
        if path.startswith('bitvec::vec::') and fd['name'] in ('len', 'as_raw_slice'):
            x = self.strip(E, s, args[0])
            sl = E.fullsl(('bits', x, self.unused))
            u = L(self.unused)
            if fd['name'] == 'as_raw_slice':
                return [(s, ('rv', sl))]
            q = s.copy()
            bits = ladd(lscale(slen(sl), 8), u, -1)
            E.add_le(q, lneg(bits))
            return [(q, ('i', bits))]
        return None

    def param(self, E, ti):
        t = E.types[ti]
        while t['k'] == 'ref':
            t = E.types[t['e']]
        return t['k'] == 'param'

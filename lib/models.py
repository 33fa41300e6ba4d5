"""Meaning of the library functions the crate calls (core/alloc/std, nom): the trusted base."""
import re
from absint import L, ladd, lneg, lconst, lscale, UNIT, LEN_MAX, State, Cut

OPT = 'std::option::Option'
RES = 'std::result::Result'
NONE = ('agg', OPT, 0, ())


def some(v):
    return ('agg', OPT, 1, (v,))


def ok(v):
    return ('agg', RES, 0, (v,))


def err(v):
    return ('agg', RES, 1, (v,))


def val(E, st, v):
    """strip references"""
    while True:
        if v[0] == 'rv':
            v = v[1]
        elif v[0] == 'ref':
            v = E.read(st, ('cell', v[1]), v[2])
        else:
            return v


def sl_of(E, st, v):
    v = val(E, st, v)
    s = E.as_slice(v)
    if s is not None:
        return s
    if v[0] == 'sym':
        return E.fullsl(('s', ('content', v[1])))
    if v[0] == 'agg' and v[1] == 'std::borrow::Cow':
        return sl_of(E, st, v[3][0])
    return E.fullsl(('s', ('contentx', v)))


def slen(s):
    return ladd(s[3], s[2], -1)


def ety(E, rty, *path):
    """element type: dig through a return type"""
    t = rty
    for p in path:
        ty = E.types[t]
        if p == 'e':
            t = ty.get('e')
        elif p == 'o':
            t = ty['args'][0]['t'] if ty.get('args') else None
        if t is None:
            return None
    return t


def oblige(E, fr, tag, kind, c, st):
    ok_ = E.holds(st, c) is True
    b = tag if isinstance(tag, int) else (fr.cur if fr.cur is not None else 0)
    try:
        sp = fr.inst.body['blocks'][b]['t']['sp']
    except (IndexError, TypeError, KeyError):
        sp = ''
    E.oblige(fr, b, kind, ok_, sp, st, c)
    return E.assume(st, c)


def both(E, st, c, fthen, felse):
    """split on a condition"""
    out = []
    for s in E.assume(st, c):
        s = s if s is not st else s.copy()
        out += fthen(s)
    for s in E.assume(st, E.neg(c)):
        s = s if s is not st else s.copy()
        out += felse(s)
    return out


def le(a, b):
    return ('le', ladd(a, b, -1))


def lt(a, b):
    return ('le', ladd(ladd(a, b, -1), L(1)))


def iint(E, st, v):
    v = val(E, st, v)
    return E.vint(v)


# ------------------------------------------------------------------ table
M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def install(E):
    E.models = M
    rm = getattr(E.F, '_rootmap', None)
    if rm is None:
        rm = E.F._rootmap = {}
        for r in E.F.roots:
            rm.setdefault((r['trait'], E.types[r['self']]['s'], r['method']), r['inst'])
            rm.setdefault((r['trait'], E.types[r['self']].get('path'), r['method']), r['inst'])
    E.rootmap = rm


# -------- identity-like
@model('std::clone::Clone::clone', 'std::clone::impls::<impl std::clone::Clone for &T>::clone',
       '<std::vec::Vec<T, A> as std::clone::Clone>::clone', '<std::string::String as std::clone::Clone>::clone',
       'std::borrow::ToOwned::to_owned', 'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned',
       'std::str::<impl std::borrow::ToOwned for str>::to_owned', 'std::slice::<impl [T]>::to_vec',
       'std::slice::<impl [T]>::into_vec', '<std::boxed::Box<T> as std::clone::Clone>::clone',
       '<std::option::Option<T> as std::clone::Clone>::clone', '<std::borrow::Cow<\'_, B> as std::clone::Clone>::clone',
       '<std::ops::Range<Idx> as std::clone::Clone>::clone')
def m_clone(E, fd, args, atys, rty, s, fr, tag):
    v = val(E, s, args[0])
    t = E.types[rty]
    if t['k'] == 'ref':      # cloning a reference
        return [(s, args[0][1] if args[0][0] == 'rv' and args[0][1][0] in ('rv', 'ref') else ('rv', v))]
    if t['k'] == 'adt' and t['path'] in ('std::vec::Vec', 'std::string::String'):
        sl = E.as_slice(v)
        if sl is not None:
            return [(s, ('agg', t['path'], 0, (sl,)))]
    return [(s, v)]


for _t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'bool', 'char', 'f32', 'f64'):
    M['std::clone::impls::<impl std::clone::Clone for %s>::clone' % _t] = m_clone


@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::string::String as std::ops::Deref>::deref',
       'std::vec::Vec::<T, A>::as_slice', 'std::string::String::as_str', 'std::string::String::as_bytes',
       'core::str::<impl str>::as_bytes', 'std::array::<impl [T; N]>::as_slice',
       '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', 'std::slice::<impl std::borrow::Borrow<[T]> for std::vec::Vec<T, A>>::borrow',
       'std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow',
       '<std::string::String as std::convert::AsRef<str>>::as_ref', '<std::string::String as std::convert::AsRef<[u8]>>::as_ref',
       '<str as std::convert::AsRef<[u8]>>::as_ref', '<str as std::convert::AsRef<str>>::as_ref',
       '<[T] as std::convert::AsRef<[T]>>::as_ref', '<&\'a [u8] as nom::AsBytes>::as_bytes', '<[u8] as nom::AsBytes>::as_bytes',
       'core::str::<impl std::convert::AsRef<[u8]> for str>::as_ref')
def m_asslice(E, fd, args, atys, rty, s, fr, tag):
    return [(s, ('rv', sl_of(E, s, args[0])))]


@model('<std::boxed::Box<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref')
def m_boxderef(E, fd, args, atys, rty, s, fr, tag):
    v = val(E, s, args[0])
    if v[0] == 'agg' and v[1] == 'std::boxed::Box':
        return [(s, ('rv', v[3][0]))]
    return None


@model('std::boxed::Box::<T>::new')
def m_boxnew(E, fd, args, atys, rty, s, fr, tag):
    return [(s, ('agg', 'std::boxed::Box', 0, (args[0],)))]


@model('std::boxed::Box::<T>::new_uninit')
def m_boxuninit(E, fd, args, atys, rty, s, fr, tag):
    """the box of vec![..]: a cell, filled in through the pointer and then taken over by the vector"""
    s = s.copy()
    c = (fr.fid, 'box', tag)
    s.cells[c] = ('sym', E.symid(('undef', c)), ())
    return [(s, ('ref', c, ()))]


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(E, fd, args, atys, rty, s, fr, tag):
    if args[0][0] != 'ref':
        return None
    v = s.cells.get(args[0][1])
    for _ in range(3):
        if v is not None and v[0] == 'agg' and v[1] != '[]' and v[3]:
            v = v[3][-1]
        elif v is not None and v[0] == 'sym' and len(v[2]) == 1:
            v = v[2][0][1]
    sl = E.as_slice(v) if v is not None and v[0] == 'agg' and v[1] == '[]' else None
    if sl is None:
        return None
    return [(s, newvec(E, 'std::vec::Vec', sl))]


@model('std::mem::take', 'core::mem::take')
def m_take_mem(E, fd, args, atys, rty, s, fr, tag):
    r = args[0]
    if r[0] != 'ref':
        return None
    s = s.copy()
    old = E.read(s, ('cell', r[1]), r[2])
    t = E.types[rty]
    if t['k'] == 'adt' and t['path'] == OPT:
        new = NONE
    else:
        new = E.sym(('default', rty), rty)
    E.write(s, ('cell', r[1]), r[2], new)
    return [(s, old)]


@model('std::mem::replace', 'core::mem::replace', 'std::option::Option::<T>::replace')
def m_replace(E, fd, args, atys, rty, s, fr, tag):
    r = args[0]
    if r[0] != 'ref':
        return None
    s = s.copy()
    old = E.read(s, ('cell', r[1]), r[2])
    E.write(s, ('cell', r[1]), r[2], args[1] if 'Option' not in fd['path'] else some(args[1]))
    return [(s, old)]


@model('std::option::Option::<T>::take')
def m_opttake(E, fd, args, atys, rty, s, fr, tag):
    r = args[0]
    if r[0] != 'ref':
        return None
    s = s.copy()
    old = E.read(s, ('cell', r[1]), r[2])
    E.write(s, ('cell', r[1]), r[2], NONE)
    return [(s, old)]


# -------- lengths
@model('core::slice::<impl [T]>::len', 'std::vec::Vec::<T, A>::len', 'std::string::String::len', 'core::str::<impl str>::len',
       '<&\'a [u8] as nom::Input>::input_len')
def m_len(E, fd, args, atys, rty, s, fr, tag):
    return [(s, ('i', slen(sl_of(E, s, args[0]))))]


@model('core::slice::<impl [T]>::is_empty', 'std::vec::Vec::<T, A>::is_empty', 'core::str::<impl str>::is_empty',
       'std::string::String::is_empty')
def m_isempty(E, fd, args, atys, rty, s, fr, tag):
    return [(s, ('b', E.simp(le(slen(sl_of(E, s, args[0])), L(0)))))]


# -------- element access
def eref(E, s, sl, idx, et):
    return ('rv', E.elem(sl, idx, et))


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def m_first(E, fd, args, atys, rty, s, fr, tag):
    sl = sl_of(E, s, args[0])
    et = ety(E, rty, 'o', 'e')
    n = slen(sl)
    idx = L(0) if fd['name'] == 'first' else ladd(n, L(-1))
    return both(E, s, le(L(1), n), lambda q: [(q, some(eref(E, q, sl, idx, et)))], lambda q: [(q, NONE)])


@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def m_splitfirst(E, fd, args, atys, rty, s, fr, tag):
    sl = sl_of(E, s, args[0])
    n = slen(sl)
    tt = E.types[ety(E, rty, 'o')]
    et = E.types[tt['es'][0]].get('e') if tt['k'] == 'tuple' else None
    if fd['name'] == 'split_first':
        e, rest = L(0), ('sl', sl[1], ladd(sl[2], L(1)), sl[3])
    else:
        e, rest = ladd(n, L(-1)), ('sl', sl[1], sl[2], ladd(sl[3], L(-1)))
    return both(E, s, le(L(1), n),
                lambda q: [(q, some(('agg', '()', 0, (eref(E, q, sl, e, et), ('rv', rest)))))],
                lambda q: [(q, NONE)])


@model('core::slice::<impl [T]>::split_at')
def m_splitat(E, fd, args, atys, rty, s, fr, tag):
    sl = sl_of(E, s, args[0])
    m = E.vint(args[1])
    out = []
    for q in oblige(E, fr, tag, 'split_at', le(m, slen(sl)), s):
        mid = ladd(sl[2], m)
        out.append((q, ('agg', '()', 0, (('rv', ('sl', sl[1], sl[2], mid)), ('rv', ('sl', sl[1], mid, sl[3]))))))
    return out


@model('core::slice::<impl [T]>::split_at_checked')
def m_splitatc(E, fd, args, atys, rty, s, fr, tag):
    sl = sl_of(E, s, args[0])
    m = E.vint(args[1])
    mid = ladd(sl[2], m)
    return both(E, s, le(m, slen(sl)), lambda q: [(q, some(('agg', '()', 0, (
        ('rv', ('sl', sl[1], sl[2], mid)), ('rv', ('sl', sl[1], mid, sl[3]))))))], lambda q: [(q, NONE)])


def rng(E, s, sl, r):
    """(start, end, cond) of a range value over a slice"""
    n = slen(sl)
    if r[0] == 'agg':
        p = r[1]
        if p == 'std::ops::Range':
            a, b = E.vint(r[3][0]), E.vint(r[3][1])
            return a, b, ('and', le(a, b), le(b, n))
        if p == 'std::ops::RangeTo':
            b = E.vint(r[3][0])
            return L(0), b, le(b, n)
        if p == 'std::ops::RangeFrom':
            a = E.vint(r[3][0])
            return a, n, le(a, n)
        if p == 'std::ops::RangeFull':
            return L(0), n, ('c', True)
        if p == 'std::ops::RangeInclusive':
            a, b = E.vint(r[3][0]), ladd(E.vint(r[3][1]), L(1))
            return a, b, ('and', le(a, b), le(b, n))
        if p == 'std::ops::RangeToInclusive':
            b = ladd(E.vint(r[3][0]), L(1))
            return L(0), b, le(b, n)
    return None


@model('core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'std::array::<impl std::ops::Index<I> for [T; N]>::index',
       '<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::string::String as std::ops::Index<I>>::index',
       'core::str::traits::<impl std::ops::Index<I> for str>::index', 'std::str::traits::<impl std::ops::Index<I> for str>::index',
       'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
       'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut')
def m_index(E, fd, args, atys, rty, s, fr, tag):
    sl = sl_of(E, s, args[0])
    i = val(E, s, args[1])
    out = []
    isstr = 'str' in fd.get('res', fd['path']) and '[T]' not in fd.get('res', fd['path']) and 'array' not in fd.get('res', '')
    if i[0] == 'i':
        for q in oblige(E, fr, tag, 'index', ('and', le(L(0), i[1]), lt(i[1], slen(sl))), s):
            out.append((q, ('rv', E.elem(sl, i[1], ety(E, rty, 'e')))))
    else:
        r = rng(E, s, sl, i)
        if r is None:
            E.oblige(fr, tag, 'index', False, '', s)
            return [(s, ('rv', E.fullsl(('s', ('ix', sl, i)))))]
        a, b, c = r
        if isstr:
            c = ('and', c, ('ne', E.alin(('charboundary', sl, i), 0, 1)))
        for q in oblige(E, fr, tag, 'slice', c, s):
            out.append((q, ('rv', ('sl', sl[1], ladd(sl[2], a), ladd(sl[2], b)))))
    if fd['name'] == 'index_mut':
        res = []
        whole = val(E, s, args[0])
        for q, v in out:
            q = q.copy()
            if args[0][0] == 'ref' and whole[0] == 'agg' and whole[1] == '[]' and v[1][0] == 'sl':
                a, b = lconst(v[1][2]), lconst(v[1][3])
                if a is not None and b is not None and 0 <= a <= b <= len(whole[3]):
                    res.append((q, ('ref', args[0][1], args[0][2] + (('ss', a, b, False),))))
                    continue
            E.havoc_ref(q, args[0], fr.fid, (tag, 'im'))
            c = (fr.fid, 'im', tag)
            q.cells[c] = v[1]
            res.append((q, ('ref', c, ())))
        return res
    return out


@model('core::slice::<impl [T]>::get', 'core::str::<impl str>::get')
def m_get(E, fd, args, atys, rty, s, fr, tag):
    sl = sl_of(E, s, args[0])
    i = val(E, s, args[1])
    if i[0] == 'i':
        et = ety(E, rty, 'o', 'e')
        return both(E, s, lt(i[1], slen(sl)), lambda q: [(q, some(eref(E, q, sl, i[1], et)))], lambda q: [(q, NONE)])
    r = rng(E, s, sl, i)
    if r is None:
        return None
    a, b, c = r
    return both(E, s, c, lambda q: [(q, some(('rv', ('sl', sl[1], ladd(sl[2], a), ladd(sl[2], b)))))],
                lambda q: [(q, NONE)])


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def m_copyfrom(E, fd, args, atys, rty, s, fr, tag):
    d, r = sl_of(E, s, args[0]), sl_of(E, s, args[1])
    out = []
    for q in oblige(E, fr, tag, 'copy_from_slice', E.simp(('eq', ladd(slen(d), slen(r), -1))), s):
        q = q.copy()
        n = lconst(slen(d))
        if n is not None and n <= 64 and args[0][0] == 'ref':
            et = ety(E, atys[1], 'e', 'e') if atys and atys[1] is not None else None
            et = u8ty(E) if et is None else et
            if E.add_eq(q, ladd(slen(r), L(-n))):
                E.write(q, ('cell', args[0][1]), args[0][2], ('agg', '[]', 0, tuple(E.elem(r, L(i), et) for i in range(n))))
                out.append((q, UNIT))
            continue
        E.havoc_ref(q, args[0], fr.fid, tag)
        out.append((q, UNIT))
    return out


def m_frombytes(E, fd, args, atys, rty, s, fr, tag):
    v = val(E, s, args[0])
    sl = E.as_slice(v)
    n = lconst(slen(sl)) if sl is not None else None
    if n is None or n > 16:
        return [(s, E.sym((fd['name'], v), rty))]
    lin = L(0)
    for i in range(n) if '_be_' in fd['name'] else reversed(range(n)):
        lin = ladd(lscale(lin, 256), E.vint(E.elem(sl, L(i), u8ty(E))))
    if E.tyrange(rty)[0] < 0:
        return wrapped(E, s, lin, rty, ('be', sl))
    return [(s, ('i', lin))]


def wrapped(E, s, lin, ti, key):
    lo, hi = E.tyrange(ti)
    if E.clampfits(s, lin, lo, hi):
        return [(s, ('i', lin))]
    if E.clampfits(s, lin, hi + 1, 2 * hi + 1):
        return [(s, ('i', ladd(lin, L(2 * (hi + 1)), -1)))]
    return [(s, ('i', E.alin((key, lin), lo, hi)))]


@model('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::windows',
       'core::slice::<impl [T]>::rchunks', 'std::iter::Iterator::step_by')
def m_chunks(E, fd, args, atys, rty, s, fr, tag):
    out = []
    n = E.vint(args[1])
    for q in oblige(E, fr, tag, 'zero ' + fd['name'], ('le', ladd(L(1), n, -1)), s):
        if fd['name'] == 'step_by':
            out.append((q, E.sym(('step_by', args[0], n), rty)))
        else:
            out.append((q, ('agg', 'it:' + fd['name'], 0, (sl_of(E, q, args[0]), ('i', n)))))
    return out


@model("<std::slice::Chunks<'a, T> as std::iter::Iterator>::next", "<std::slice::ChunksExact<'a, T> as std::iter::Iterator>::next",
       "<std::slice::Windows<'a, T> as std::iter::Iterator>::next")
def m_chunks_next(E, fd, args, atys, rty, s, fr, tag):
    it = val(E, s, args[0])
    if it[0] != 'agg' or not it[1].startswith('it:'):
        return None
    sl, n = it[3][0], it[3][1][1]
    kind = it[1][3:]
    nn = slen(sl)

    def setit(q, ns):
        q = q.copy()
        E.write(q, ('cell', args[0][1]), args[0][2], ('agg', it[1], 0, (ns, ('i', n))))
        return q
    if args[0][0] != 'ref':
        return None

    def take(q, k):
        mid = ladd(sl[2], k)
        return [(setit(q, ('sl', sl[1], mid if kind != 'windows' else ladd(sl[2], L(1)), sl[3])),
                 some(('rv', ('sl', sl[1], sl[2], mid))))]
    if kind == 'chunks':
        return both(E, s, le(L(1), nn),
                    lambda q: both(E, q, le(n, nn), lambda q2: take(q2, n), lambda q2: take(q2, nn)),
                    lambda q: [(q, NONE)])
    return both(E, s, le(n, nn), lambda q: take(q, n), lambda q: [(q, NONE)])


@model('core::slice::<impl [T]>::starts_with', 'core::str::<impl str>::starts_with', 'core::slice::<impl [T]>::ends_with')
def m_startswith(E, fd, args, atys, rty, s, fr, tag):
    a, b = sl_of(E, s, args[0]), sl_of(E, s, args[1])
    n = lconst(slen(b))
    if b[1][0] != 'const' and not (E.rules.collects and lconst(slen(a)) is not None and bytes_only(E, atys[0] if atys else None)):
        return None
    if n is None or n > 8:
        return None
    c = le(L(n), slen(a))
    if c[0] == 'c' and not c[1] or lconst(slen(a)) is not None and lconst(slen(a)) < n:
        return [(s, ('b', ('c', False)))]
    off = ladd(slen(a), L(-n)) if fd['name'] == 'ends_with' else L(0)
    for i in range(n):
        c = ('and', c, ('eq', ladd(E.vint(E.elem(a, ladd(off, L(i)), u8ty(E))), E.vint(E.elem(b, L(i), u8ty(E))), -1)))
    return [(s, ('b', E.simp(c)))]


_u8 = {}


def u8ty(E):
    r = _u8.get(id(E.types))
    if r is None:
        r = next(i for i, t in enumerate(E.types) if t['s'] == 'u8')
        _u8[id(E.types)] = r
    return r


# -------- iterators over slices
@model('core::slice::<impl [T]>::iter', 'core::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter',
       '<&\'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', 'std::array::<impl std::iter::IntoIterator for &\'a [T; N]>::into_iter',
       'core::array::<impl std::iter::IntoIterator for &\'a [T; N]>::into_iter', "core::str::<impl str>::bytes",
       "std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter",
       "<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       'std::collections::BTreeSet::<T, A>::iter', 'std::collections::HashSet::<T, S, A>::iter')
def m_iter(E, fd, args, atys, rty, s, fr, tag):
    byval = 'bytes' == fd['name'] or 'for [T; N]' in fd.get('res', '') or fd.get('res', '').startswith('<std::vec::Vec')
    return [(s, ('agg', 'it:vals' if byval else 'it:slice', 0, (sl_of(E, s, args[0]),)))]


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::vec::IntoIter<T, A> as std::iter::Iterator>::next",
       "<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back",
       "<std::str::Bytes<'_> as std::iter::Iterator>::next", "<std::array::IntoIter<T, N> as std::iter::Iterator>::next",
       "<std::collections::btree_set::Iter<'a, T> as std::iter::Iterator>::next",
       "<std::collections::hash_set::Iter<'a, K> as std::iter::Iterator>::next",
       "<std::str::Chars<'a> as std::iter::Iterator>::next", "<std::str::EncodeUtf16<'a> as std::iter::Iterator>::next")
def m_iter_next(E, fd, args, atys, rty, s, fr, tag):
    it = val(E, s, args[0])
    if it[0] != 'agg' or not it[1].startswith('it:') or args[0][0] != 'ref':
        return None
    sl = it[3][0]
    byval = it[1] == 'it:vals'
    et = ety(E, rty, 'o') if byval else ety(E, rty, 'o', 'e')

    def nx(q):
        q = q.copy()
        if fd['name'] == 'next_back':
            e = E.elem(sl, ladd(slen(sl), L(-1)), et)
            ns = ('sl', sl[1], sl[2], ladd(sl[3], L(-1)))
        else:
            e = E.elem(sl, L(0), et)
            ns = ('sl', sl[1], ladd(sl[2], L(1)), sl[3])
        E.write(q, ('cell', args[0][1]), args[0][2], ('agg', it[1], 0, (ns,)))
        return [(q, some(e if byval else ('rv', e)))]
    return both(E, s, lt(sl[2], sl[3]), nx, lambda q: [(q, NONE)])


@model("<std::str::Chars<'a> as std::iter::Iterator>::count", "<std::str::EncodeUtf16<'a> as std::iter::Iterator>::count",
       "<std::slice::Iter<'a, T> as std::iter::Iterator>::count")
def m_count(E, fd, args, atys, rty, s, fr, tag):
    it = val(E, s, args[0])
    if it[0] != 'agg' or it[1] not in ('it:slice', 'it:vals'):
        return None
    return [(s, ('i', slen(it[3][0])))]


@model('std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back')
def m_range_back(E, fd, args, atys, rty, s, fr, tag):
    v = val(E, s, args[0])
    if args[0][0] != 'ref' or v[0] != 'agg' or v[1] != 'std::ops::Range' or any(x[0] != 'i' for x in v[3]):
        return None
    a, b = v[3][0][1], ladd(v[3][1][1], L(-1))

    def back(q):
        q = q.copy()
        E.write(q, ('cell', args[0][1]), args[0][2], ('agg', v[1], v[2], (('i', a), ('i', b))))
        return [(q, some(('i', b)))]
    return both(E, s, le(a, b), back, lambda q: [(q, NONE)])


@model('num_traits::Zero::zero', 'num_traits::One::one')
def m_zero(E, fd, args, atys, rty, s, fr, tag):
    t = E.types[rty]['k'] if rty is not None else None
    return [(s, ('i', L(int(fd['name'] == 'one'))))] if t in ('int', 'uint') else None


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint")
def m_sizehint(E, fd, args, atys, rty, s, fr, tag):
    it = val(E, s, args[0])
    if it[0] != 'agg' or not it[1].startswith('it:'):
        return None
    n = ('i', slen(it[3][0]))
    return [(s, ('agg', '()', 0, (n, some(n))))]


def elem_probe(E, fr, tag, sl, et):
    """an arbitrary element of the slice"""
    i = E.alin(('anyidx', fr.fid, tag), 0, LEN_MAX)
    return i, E.elem(sl, ladd(i, sl[2], -1), et)


def closure_on_elem(E, s, fr, tag, f, fty, sl, et, byval):
    i, e = elem_probe(E, fr, tag, sl, et)
    q = s.copy()
    E.add_le(q, ladd(sl[2], i, -1))
    if not E.add_le(q, ladd(ladd(i, sl[3], -1), L(1))):
        return e, []
    cell = (fr.fid, 'cl', tag)
    q.cells[cell] = f
    bt = E.types[fty] if fty is not None else None
    res = E.call_value(('ref', cell, ()) if f[0] == 'agg' and f[1] == 'closure' else f, [e if byval else ('rv', e)], [None], E.booltype(), q, fr, ('clo', tag))
    return e, res


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::all", "<std::slice::Iter<'a, T> as std::iter::Iterator>::any",
       "<std::str::Bytes<'_> as std::iter::Iterator>::all", "<std::str::Bytes<'_> as std::iter::Iterator>::any",
       'std::iter::Iterator::all', 'std::iter::Iterator::any')
def m_all(E, fd, args, atys, rty, s, fr, tag):
    it = val(E, s, args[0])
    vals = False
    while it[0] == 'agg' and it[1].rsplit('::', 1)[-1] in ('Copied', 'Cloned'):
        it, vals = val(E, s, it[3][0]), True
    if vals and it[0] == 'agg' and it[1] == 'it:slice':
        it = ('agg', 'it:vals') + tuple(it[2:])
    if it[0] != 'agg' or it[1] not in ('it:slice', 'it:vals') or it[3][0][0] != 'sl':
        return None
    sl = it[3][0]
    byval = it[1] == 'it:vals' or 'Bytes' in fd.get('res', '')
    et = None
    for a in fd.get('res_args') or fd['args']:
        if 't' in a:
            et = a['t']
            if E.types[et]['k'] == 'adt' and E.types[et].get('args'):
                x = [g['t'] for g in E.types[et]['args'] if 't' in g]
                et = x[0] if x else et
            break
    if byval:
        et = u8ty(E)
    r = m_all_of(E, fd['name'], sl, et, byval, args[1], atys[1], s, fr, tag)
    return r


def m_all_of(E, name, sl, et, byval, f, fty, s, fr, tag):
    e, res = closure_on_elem(E, s, fr, tag, f, fty, sl, et, byval)
    # which element values let the closure answer true (all) / false (any)?
    mask = 0
    known = E.types[et]['k'] == 'int' and E.types[et]['bits'] == 8 if et is not None else False
    ea = E.vint(e)[1][0][0] if known and e[0] == 'i' and E.vint(e)[1] else None
    for q, v in res:
        c = E.vbool(v)
        if name == 'any':
            c = E.neg(c)
        for q2 in E.assume(q, c):
            if ea is not None:
                mask |= E.bmask(q2, ea)
    key = ('range', sl[1], sl[2], sl[3])
    if ea is None:
        c = ('ne', E.alin(('allof', sl, f, fr.fid, tag), 0, 1))
    else:
        c = ('all', key, mask)
        n = lconst(slen(sl))
        if n is not None and n <= 64 and E.peel:
            ms = []
            for j in range(n):
                v = E.elem(sl, L(j), et)
                x = E.vint(v) if v[0] == 'i' else None
                if x is None:
                    ms.append(None)
                elif not x[1]:
                    ms.append(1 << x[0] if x[0] >= 0 else 0)
                elif x[0] == 0 and len(x[1]) == 1 and x[1][0][1] == 1:
                    ms.append(E.bmask(s, x[1][0][0]))
                else:
                    ms.append(None)
            if all(m is not None and not m & ~mask for m in ms):
                c = ('c', True)
            elif any(m is not None and not m & mask for m in ms):
                c = ('c', False)
    out = s
    if E.hasmut(f):
        out = s.copy()
        E.havoc_ref(out, f, fr.fid, (tag, 'h'))
    return [(out, ('b', c if name == 'all' else E.neg(c)))]


def position_prefix(E, s, it, n, f, fty, fr, tag):
    """`position` element by element while it is decided (or while splitting stays cheap):
    -> (results, state in which the first k elements do not match or None, k)"""
    out, cur, splits = [], s, 0
    sl, win = it[3][0], it[1] == 'it:windows'
    et = u8ty(E)
    base = f if f[0] == 'agg' and f[1] == 'closure' else None
    if base is None or (E.F.insts[base[2]].get('body') is None):
        return [], s, 0
    w = it[3][1][1] if win else None
    for i in range(20):
        more = E.assume(cur, ('le', ladd(L(i + 1), n, -1)))
        end = E.assume(cur, ('le', ladd(n, L(i), -1)))
        out += [(q, NONE) for q in end]
        if not more:
            return out, None, i
        if end:
            splits += 1
        if splits > 4:
            return out, more[0], i
        cur = more[0].copy()
        at = ladd(sl[2], L(i))
        arg = ('rv', ('sl', sl[1], at, ladd(at, w))) if win else E.elem(sl, L(i), et)
        cell = (fr.fid, 'clp', tag)
        cur.cells[cell] = f
        arg = arg if win or it[1] == 'it:vals' else ('rv', arg)
        res = E.call_value(('ref', cell, ()), [arg], [None], E.booltype(), cur, fr, ('clop', tag))
        nxt = []
        for q, v in res:
            c = E.vbool(v)
            yes, no = E.assume(q, c), E.assume(q, E.neg(c))
            out += [(y, some(('i', L(i)))) for y in yes]
            nxt += no
            splits += bool(yes and no)
        if not nxt:
            return out, None, i
        cur = nxt[0]
        for o in nxt[1:]:
            cur = E.join(cur, o, (fr.fid, tag, 'pos', i))
    return out, cur, 20


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::position", 'std::iter::Iterator::position', "<std::slice::Windows<'a, T> as std::iter::Iterator>::position", "<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len")
def m_position(E, fd, args, atys, rty, s, fr, tag):
    it = val(E, s, args[0])
    if it[0] != 'agg' or not it[1].startswith('it:'):
        return None
    sl = it[3][0]
    n = slen(sl) if it[1] in ('it:slice', 'it:vals') else None
    if it[1] == 'it:windows':   # one less than the window length fewer positions
        n = ladd(slen(sl), ladd(L(1), it[3][1][1], -1))
    if fd['name'] == 'len':
        return [(s, ('i', n))] if n is not None else None
    pre = []
    if E.peel and n is not None and lconst(sl[2]) is not None:
        pre, s, k = position_prefix(E, s, it, n, args[1], atys[1], fr, tag)
        if s is None:
            return pre
        x = ladd(E.alin(('position', it, args[1], fr.fid, tag), 0, LEN_MAX), L(k))
    else:
        x = E.alin(('position', it, args[1], fr.fid, tag), 0, LEN_MAX)
    q = s.copy()
    E.havoc_ref(q, args[1], fr.fid, (tag, 'h'))
    a, b = q, q.copy()
    out = pre + [(b, NONE)]
    if n is not None and not E.add_le(a, ladd(ladd(x, n, -1), L(1))):
        return out
    out.append((a, some(('i', x))))
    return out


def pyloop(E, fr, tag, s, cells, step):
    """fixpoint of step: state -> [states]; cells: initial values of loop cells"""
    key = (fr.fid, tag, 'pyloop')
    base = s.copy()
    for c, v in cells.items():
        base.cells[c] = v
    cur = base
    rec = E.record
    E.record = False
    first = True
    stable = False
    for _ in range(24):
        back = step(cur.copy())
        nxt = cur
        for b in back:
            nxt = E.join(nxt, b, key, widen=not first, loop=True)
        first = False
        if E.same(nxt, cur):
            stable = True
            break
        cur = nxt
    E.record = rec
    if not stable:
        n = State()
        for c, v in cur.cells.items():
            n.cells[c] = E.havoc_val(v, (key, c))
        cur = n
    if rec:
        step(cur.copy())
    return cur


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::fold", "<std::slice::Iter<'a, T> as std::iter::Iterator>::for_each",
       "<std::collections::hash_set::Iter<'a, K> as std::iter::Iterator>::fold",
       "<std::collections::btree_set::Iter<'a, T> as std::iter::Iterator>::fold")
def m_fold(E, fd, args, atys, rty, s, fr, tag):
    it = val(E, s, args[0])
    if it[0] != 'agg' or not it[1].startswith('it:') or fd['name'] != 'fold':
        return None
    sl = it[3][0]
    ft = E.types[atys[0]] if atys[0] is not None else None
    et = None
    if ft is not None and ft.get('args'):
        x = [g['t'] for g in ft['args'] if 't' in g]
        et = x[0] if x else None
    ci, ca, cf = (fr.fid, 'f_i', tag), (fr.fid, 'f_a', tag), (fr.fid, 'f_f', tag)

    def step(q):
        out = []
        i = E.vint(q.cells[ci])
        for q2 in E.assume(q, lt(i, sl[3])):
            q2 = q2.copy()
            e = E.elem(sl, ladd(i, sl[2], -1), et)
            for q3, v in E.call_value(('ref', cf, ()), [q2.cells[ca], e if it[1] == 'it:vals' else ('rv', e)],
                                      [None, None], rty, q2, fr, ('fold', tag)):
                q3 = q3.copy()
                q3.cells[ca] = v
                q3.cells[ci] = ('i', ladd(i, L(1)))
                out.append(q3)
        return out
    n = lconst(slen(sl))
    if n is not None and n <= (32 if getattr(E.rules, 'collects', False) else 8) and E.peel:     # one element after the other
        q = s.copy()
        q.cells.update({ci: ('i', sl[2]), ca: args[1], cf: args[2]})
        qs = [q]
        for _ in range(n):
            qs = [r for q in qs for r in step(q)]
        return [(q, q.cells[ca]) for q in qs]
    cur = pyloop(E, fr, tag, s, {ci: ('i', sl[2]), ca: args[1], cf: args[2]}, step)
    out = []
    for q in E.assume(cur, ('le', ladd(sl[3], E.vint(cur.cells[ci]), -1))):
        q = q.copy()
        v = q.cells.pop(ca)
        q.cells.pop(ci)
        q.cells.pop(cf, None)
        out.append((q, v))
    return out


# -------- integers
def ity(E, fd, atys):
    return atys[0]


def arith(name):
    return {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'shl': 'Shl', 'shr': 'Shr', 'neg': 'Neg', 'div': 'Div', 'rem': 'Rem',
            'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}[name]


def exact(E, st, op, a, b):
    if op == 'Add':
        return ladd(a, b)
    if op == 'Sub':
        return ladd(a, b, -1)
    if op == 'Mul':
        ca, cb = lconst(a), lconst(b)
        if cb is not None:
            return lscale(a, cb)
        if ca is not None:
            return lscale(b, ca)
        return E.mulatom(st, a, b)
    return None


INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def m_checked(E, fd, args, atys, rty, s, fr, tag):
    op = arith(fd['name'].split('_')[1])
    it = atys[0]
    r = E.tyrange(it)
    s = s.copy()
    a = E.vint(args[0], it)
    b = E.vint(args[1])
    lo, hi = r
    if op in ('Shl', 'Shr'):
        bits = E.types[it]['bits']
        c = ('and', le(L(0), b), le(b, L(bits - 1)))
        return both(E, s, c, lambda q: [(q, some(E.binop(q, op, args[0], args[1], it, fr.fid, tag)))], lambda q: [(q, NONE)])
    if op in ('Div', 'Rem'):
        return both(E, s, ('ne', b), lambda q: [(q, some(E.binop(q, op, args[0], args[1], it, fr.fid, tag)))], lambda q: [(q, NONE)])
    x = exact(E, s, op, a, b)
    if x is None:
        return None
    c = ('and', le(L(lo), x), le(x, L(hi)))
    return both(E, s, c, lambda q: [(q, some(('i', x)))], lambda q: [(q, NONE)])


def m_wrapping(E, fd, args, atys, rty, s, fr, tag):
    op = arith(fd['name'].split('_')[1])
    s = s.copy()
    if op == 'Neg':
        return None
    return [(s, E.binop(s, op, args[0], args[1], atys[0], fr.fid, tag))]


def m_saturating(E, fd, args, atys, rty, s, fr, tag):
    op = arith(fd['name'].split('_')[1])
    lo, hi = E.tyrange(atys[0])
    s = s.copy()
    x = exact(E, s, op, E.vint(args[0], atys[0]), E.vint(args[1], atys[0]))
    if x is None:
        return None
    out = both(E, s, le(x, L(hi)), lambda q: both(E, q, le(L(lo), x), lambda q2: [(q2, ('i', x))], lambda q2: [(q2, ('i', L(lo)))]),
               lambda q: [(q, ('i', L(hi)))])
    return out


def m_overflowing(E, fd, args, atys, rty, s, fr, tag):
    return None


for _t in INTS:
    for _o in ('add', 'sub', 'mul', 'shl', 'shr', 'div', 'rem'):
        M['core::num::<impl %s>::checked_%s' % (_t, _o)] = m_checked
        M['core::num::<impl %s>::wrapping_%s' % (_t, _o)] = m_wrapping
        if _o in ('add', 'sub', 'mul'):
            M['core::num::<impl %s>::saturating_%s' % (_t, _o)] = m_saturating


def m_bitcount(E, fd, args, atys, rty, s, fr, tag):
    it = atys[0]
    bits = E.types[it]['bits']
    v = E.vint(args[0], it)
    n = fd['name']

    def f(x):
        x &= (1 << bits) - 1
        if n == 'leading_zeros':
            return bits - x.bit_length()
        if n == 'trailing_zeros':
            return bits if x == 0 else (x & -x).bit_length() - 1
        if n == 'count_ones':
            return bin(x).count('1')
        if n == 'count_zeros':
            return bits - bin(x).count('1')
        if n == 'leading_ones':
            return bits - ((~x) & ((1 << bits) - 1)).bit_length()
        return 0
    c = lconst(v)
    if c is not None:
        return [(s, ('i', L(f(c))))]
    if E.fbase(v) is not None:
        return [(s, ('i', E.tab_of(v, f)))]
    s = s.copy()
    x = E.alin(('bits', n, v, it), 0, bits)
    sup, inf = E.sup(s, v), E.sup(s, lneg(v))
    if n == 'leading_zeros' and sup is not None and inf is not None and -inf >= 0:
        s.iv[x[1][0][0]] = (bits - sup.bit_length(), bits - (-inf).bit_length())
    return [(s, ('i', x))]


for _t in INTS:
    for _o in ('leading_zeros', 'trailing_zeros', 'count_ones', 'count_zeros', 'leading_ones'):
        M['core::num::<impl %s>::%s' % (_t, _o)] = m_bitcount


def m_abs(E, fd, args, atys, rty, s, fr, tag):
    it = atys[0]
    lo, hi = E.tyrange(it)
    v = E.vint(args[0], it)
    if fd['name'] == 'unsigned_abs':
        return both(E, s, le(L(0), v), lambda q: [(q, ('i', v))], lambda q: [(q, ('i', lneg(v)))])
    out = []
    for q in oblige(E, fr, tag, 'overflow:abs', ('le', ladd(L(lo + 1), v, -1)), s):
        out += both(E, q, le(L(0), v), lambda q: [(q, ('i', v))], lambda q: [(q, ('i', lneg(v)))])
    return out


def m_pow(E, fd, args, atys, rty, s, fr, tag):
    a, b = lconst(E.vint(args[0])), lconst(E.vint(args[1]))
    lo, hi = E.tyrange(atys[0])
    if a is not None and b is not None and lo <= a ** b <= hi:
        return [(s, ('i', L(a ** b)))]
    if a is not None:
        m = E.sup(s, E.vint(args[1]))
        if m is not None and m < 200 and lo <= a ** m <= hi:
            return [(s, E.sym(('pow', args[0], args[1]), rty))]
    b = tag if isinstance(tag, int) else fr.cur
    E.oblige(fr, b, 'overflow:pow', False, fr.inst.body['blocks'][b]['t']['sp'] if isinstance(b, int) else '', s)
    return [(s, E.sym(('pow', args[0], args[1]), rty))]


for _t in INTS:
    M['core::num::<impl %s>::abs' % _t] = m_abs
    M['core::num::<impl %s>::unsigned_abs' % _t] = m_abs
    M['core::num::<impl %s>::pow' % _t] = m_pow


def m_ispos(E, fd, args, atys, rty, s, fr, tag):
    v = E.vint(args[0], atys[0])
    return [(s, ('b', E.simp(le(L(1), v) if fd['name'] == 'is_positive' else le(v, L(-1)))))]


for _t in INTS:
    M['core::num::<impl %s>::is_positive' % _t] = m_ispos
    M['core::num::<impl %s>::is_negative' % _t] = m_ispos


def m_bebytes(E, fd, args, atys, rty, s, fr, tag):
    t = E.types[rty]
    n = t.get('len')
    if n is None:
        return None
    if n == 1:
        v = E.vint(args[0])
        if E.fbase(v) is not None or lconst(v) is not None:
            c = lconst(v)
            x = L(c & 255) if c is not None else E.tab_of(v, lambda x: x & 255)
            return [(s, ('agg', '[]', 0, (('i', x),)))]
    x = digits256(E, s, E.vint(args[0]), n)
    if x is not None:
        if fd['name'] != 'to_be_bytes':
            x = x[::-1]
        x.reverse()
        return [(s, ('agg', '[]', 0, tuple(('i', l) for l in x)))]
    return [(s, ('sl', ('arrn', (fd['name'], args[0], n), n), L(0), L(n)))]


def digits256(E, s, lin, n):
    """the n base-256 digits (least significant first) of a number written as a sum of bytes"""
    c = lin[0] % (1 << (8 * n))
    out = [L(c >> (8 * j) & 255) for j in range(n)]
    for a, k in lin[1]:
        j = (k.bit_length() - 1) // 8
        if k <= 0 or k != 1 << (8 * j) or j >= n or out[j] != L(0):
            return None
        lo, hi = E.interval(s, a)
        if lo is None or hi is None or lo < 0 or hi > 255:
            return None
        out[j] = (0, ((a, 1),))
    return out


def exact_bytes(E, s, sl, lim=64):
    """the elements of a slice whose length is known and small, or None"""
    n = lconst(slen(sl)) if sl is not None else None
    if n is None or n > lim or sl[1][0] not in ('arrv', 'const') or lconst(sl[2]) is None:
        return None
    return tuple(E.elem(sl, L(j), u8ty(E)) for j in range(n))


for _t in INTS:
    for _e in ('be', 'le', 'ne'):
        M['core::num::<impl %s>::to_%s_bytes' % (_t, _e)] = m_bebytes
        M['core::num::<impl %s>::from_%s_bytes' % (_t, _e)] = m_frombytes


def u8class(pred):
    def m(E, fd, args, atys, rty, s, fr, tag):
        v = E.vint(val(E, s, args[0]))
        if E.fbase(v) is None:
            c = lconst(v)
            if c is not None:
                return [(s, ('b', ('c', pred(c))))]
            return None
        return [(s, ('b', ('ne', E.tab_of(v, lambda x: 1 if pred(x) else 0))))]
    return m


def _b(f):
    return lambda x: x < 128 and f(chr(x))


for _ty in ('core::num::<impl u8>', 'std::char::methods::<impl char>', 'core::char::methods::<impl char>'):
    M[_ty + '::is_ascii'] = u8class(lambda x: x < 128)
    M[_ty + '::is_ascii_digit'] = u8class(_b(lambda c: c in '0123456789'))
    M[_ty + '::is_ascii_alphabetic'] = u8class(_b(lambda c: c.isalpha()))
    M[_ty + '::is_ascii_alphanumeric'] = u8class(_b(lambda c: c.isalnum()))
    M[_ty + '::is_ascii_uppercase'] = u8class(_b(lambda c: c.isupper()))
    M[_ty + '::is_ascii_lowercase'] = u8class(_b(lambda c: c.islower()))
    M[_ty + '::is_ascii_graphic'] = u8class(lambda x: 33 <= x <= 126)
    M[_ty + '::is_ascii_control'] = u8class(lambda x: x < 32 or x == 127)
    M[_ty + '::is_ascii_hexdigit'] = u8class(_b(lambda c: c in '0123456789abcdefABCDEF'))
    M[_ty + '::is_ascii_punctuation'] = u8class(_b(lambda c: 33 <= ord(c) <= 126 and not c.isalnum()))
    M[_ty + '::is_ascii_whitespace'] = u8class(lambda x: x in (32, 9, 10, 12, 13))


@model('core::slice::ascii::<impl [u8]>::is_ascii', 'core::str::<impl str>::is_ascii')
def m_slice_ascii(E, fd, args, atys, rty, s, fr, tag):
    sl = sl_of(E, s, args[0])
    ms = octet_masks(E, s, sl)
    if ms is not None and all(not m >> 128 for m in ms):
        return [(s, ('b', ('c', True)))]
    if ms is not None and any(not m & (1 << 128) - 1 for m in ms):
        return [(s, ('b', ('c', False)))]
    return [(s, ('b', ('all', ('range', sl[1], sl[2], sl[3]), (1 << 128) - 1)))]


# arithmetic through the operator traits on (references to) integers
def m_optrait(E, fd, args, atys, rty, s, fr, tag):
    name = fd['name']
    if name.endswith('_assign') or name not in ('add', 'sub', 'mul', 'shl', 'shr', 'bitand', 'bitor', 'bitxor', 'div', 'rem'):
        return None
    if E.tyrange(rty) is None or E.types[rty]['k'] != 'int':
        return None
    op = arith(name)
    a, b = val(E, s, args[0]), val(E, s, args[1])
    if a[0] not in ('i',) or b[0] not in ('i',):
        return None
    lo, hi = E.tyrange(rty)
    s = s.copy()
    if op in ('Add', 'Sub', 'Mul'):
        x = exact(E, s, op, a[1], b[1])
        return [(q, ('i', x)) for q in oblige(E, fr, tag, 'overflow:' + op, ('and', le(L(lo), x), le(x, L(hi))), s)]
    if op in ('Shl', 'Shr'):
        bits = E.types[rty]['bits']
        out = []
        for q in oblige(E, fr, tag, 'overflow:' + op, ('and', le(L(0), b[1]), le(b[1], L(bits - 1))), s):
            q = q.copy()
            out.append((q, E.binop(q, op, a, b, rty, fr.fid, tag)))
        return out
    if op in ('Div', 'Rem'):
        out = []
        for q in oblige(E, fr, tag, 'div0', ('ne', b[1]), s):
            q = q.copy()
            out.append((q, E.binop(q, op, a, b, rty, fr.fid, tag)))
        return out
    return [(s, E.binop(s, op, a, b, rty, fr.fid, tag))]


# -------- comparisons
@model('core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq', 'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T]>::eq',
       'core::str::traits::<impl std::cmp::PartialEq for str>::eq', 'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq',
       'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for &[T]>::eq', 'std::array::equality::<impl std::cmp::PartialEq<[U]> for [T; N]>::eq',
       'std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq',
       '<std::string::String as std::cmp::PartialEq>::eq', '<std::string::String as std::cmp::PartialEq<str>>::eq')
def m_sliceeq(E, fd, args, atys, rty, s, fr, tag):
    a, b = sl_of(E, s, args[0]), sl_of(E, s, args[1])
    if a == b:
        return [(s, ('b', ('c', True)))]
    if lconst(slen(a)) is not None and lconst(slen(b)) is None:
        a, b = b, a
    n = lconst(slen(b))
    leneq = E.simp(('eq', ladd(slen(a), slen(b), -1)))
    if n is not None and n <= 8 and (b[1][0] in ('const', 'arrv') or E.rules.collects and lconst(slen(a)) == n and bytes_only(E, atys[0] if atys else None)):
        c = leneq
        try:
            for i in range(n):
                c = ('and', c, ('eq', ladd(E.vint(E.elem(a, L(i), u8ty(E))), E.vint(E.elem(b, L(i), u8ty(E))), -1)))
            return [(s, ('b', E.simp(c)))]
        except Exception:
            pass
    if str(b) < str(a):
        a, b = b, a
    return [(s, ('b', E.simp(('and', leneq, ('ne', E.alin(('sleq', a, b), 0, 1))))))]


@model('core::slice::<impl [T]>::contains')
def m_contains(E, fd, args, atys, rty, s, fr, tag):
    a = sl_of(E, s, args[0])
    x = val(E, s, args[1])
    n = lconst(slen(a))
    if x[0] == 'i' and n is not None and n <= 64:
        c = ('c', False)
        for i in range(n):
            e = E.elem(a, L(i), u8ty(E))
            if e[0] != 'i':
                return None
            c = ('or', c, ('eq', ladd(x[1], e[1], -1)))
        return [(s, ('b', E.simp(c)))]
    return None


def m_intcmp(E, fd, args, atys, rty, s, fr, tag):
    a, b = val(E, s, args[0]), val(E, s, args[1])
    n = fd['name']
    if a[0] == 'i' and b[0] == 'i':
        op = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}.get(n)
        if op:
            return [(s, ('b', E.simp(E.cond_lin(op, a[1], b[1]))))]
        if n in ('cmp', 'partial_cmp'):
            out = []
            for i, c in ((0, lt(a[1], b[1])), (1, ('eq', ladd(a[1], b[1], -1))), (2, lt(b[1], a[1]))):
                for q in E.assume(s, c):
                    v = ('agg', 'std::cmp::Ordering', i, ())
                    out.append((q if q is not s else s.copy(), some(v) if n == 'partial_cmp' else v))
            return out
        if n in ('max', 'min'):
            c = le(a[1], b[1])
            x, y = (b, a) if n == 'max' else (a, b)
            return both(E, s, c, lambda q: [(q, x)], lambda q: [(q, y)])
    if a[0] == 'b' and b[0] == 'b' and n in ('eq', 'ne'):
        c = ('eq', ladd(E.vint(a), E.vint(b), -1))
        return [(s, ('b', E.simp(c if n == 'eq' else ('ne', c[1]))))]
    return None


for _t in INTS + ('char', 'bool'):
    for _n in ('eq', 'ne'):
        M['std::cmp::impls::<impl std::cmp::PartialEq for %s>::%s' % (_t, _n)] = m_intcmp
    for _n in ('lt', 'le', 'gt', 'ge', 'partial_cmp'):
        M['std::cmp::impls::<impl std::cmp::PartialOrd for %s>::%s' % (_t, _n)] = m_intcmp
    for _n in ('cmp', 'max', 'min'):
        M['std::cmp::impls::<impl std::cmp::Ord for %s>::%s' % (_t, _n)] = m_intcmp
M['std::cmp::Ord::max'] = m_intcmp
M['std::cmp::Ord::min'] = m_intcmp
M['std::cmp::max'] = m_intcmp
M['std::cmp::min'] = m_intcmp


@model('std::cmp::PartialEq::ne')
def m_ne(E, fd, args, atys, rty, s, fr, tag):
    iid = fd.get('inst')
    if iid is not None:
        return None
    d = dict(fd)
    d['path'] = d['path'].replace('::ne', '::eq')
    d['full'] = d['full'].replace('::ne', '::eq')
    d['name'] = 'eq'
    return [(q, ('b', E.neg(E.vbool(v)))) for q, v in E.opaque((d['path'], d['full']), d, args, rty, s, fr, tag)]


@model('<std::marker::PhantomData<T> as std::cmp::PartialEq>::eq')
def m_true(E, fd, args, atys, rty, s, fr, tag):
    return [(s, ('b', ('c', True)))]


@model('std::ops::RangeInclusive::<Idx>::new')
def m_rinew(E, fd, args, atys, rty, s, fr, tag):
    return [(s, ('agg', 'std::ops::RangeInclusive', 0, (args[0], args[1], ('b', ('c', False)))))]


@model('std::ops::RangeInclusive::<Idx>::contains', 'std::ops::Range::<Idx>::contains')
def m_ricontains(E, fd, args, atys, rty, s, fr, tag):
    r, x = val(E, s, args[0]), val(E, s, args[1])
    if r[0] == 'agg' and x[0] == 'i' and r[3][0][0] == 'i':
        up = le(x[1], r[3][1][1]) if 'Inclusive' in r[1] else lt(x[1], r[3][1][1])
        return [(s, ('b', E.simp(('and', le(r[3][0][1], x[1]), up))))]
    return None


@model('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next')
def m_rangenext(E, fd, args, atys, rty, s, fr, tag):
    r = val(E, s, args[0])
    if r[0] != 'agg' or args[0][0] != 'ref' or r[3][0][0] != 'i':
        return None
    a, b = r[3][0][1], r[3][1][1]

    def nx(q):
        q = q.copy()
        E.write(q, ('cell', args[0][1]), args[0][2], ('agg', r[1], 0, (('i', ladd(a, L(1))), r[3][1])))
        return [(q, some(('i', a)))]
    return both(E, s, lt(a, b), nx, lambda q: [(q, NONE)])


@model('std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next')
def m_rangeinext(E, fd, args, atys, rty, s, fr, tag):
    r = val(E, s, args[0])
    if r[0] != 'agg' or args[0][0] != 'ref' or r[3][0][0] != 'i' or len(r[3]) < 3:
        return None
    a, b, done = r[3][0][1], r[3][1][1], E.vbool(r[3][2])

    def setr(q, na, nd):
        q = q.copy()
        E.write(q, ('cell', args[0][1]), args[0][2], ('agg', r[1], 0, (('i', na), r[3][1], ('b', nd))))
        return q
    c = ('and', E.neg(done), le(a, b))
    return both(E, s, c, lambda q: both(E, q, lt(a, b),
                                        lambda q2: [(setr(q2, ladd(a, L(1)), ('c', False)), some(('i', a)))],
                                        lambda q2: [(setr(q2, a, ('c', True)), some(('i', a)))]),
                lambda q: [(q, NONE)])


# -------- vectors and strings
def newvec(E, path, sl):
    return ('agg', path, 0, (sl,))


@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::string::String::new',
       'std::string::String::with_capacity', '<std::vec::Vec<T> as std::default::Default>::default',
       '<std::string::String as std::default::Default>::default')
def m_vecnew(E, fd, args, atys, rty, s, fr, tag):
    p = E.types[rty]['path']
    return [(s, newvec(E, p, E.fullsl(('const', ()))))]


@model('std::vec::from_elem', 'alloc::vec::from_elem')
def m_fromelem(E, fd, args, atys, rty, s, fr, tag):
    b = ('s', ('from_elem', args[0], args[1]))
    return [(s, newvec(E, 'std::vec::Vec', ('sl', b, L(0), E.vint(args[1]))))]


@model('std::vec::Vec::<T, A>::push', 'std::string::String::push')
def m_push(E, fd, args, atys, rty, s, fr, tag):
    if args[0][0] != 'ref':
        return [(s, UNIT)]
    sl = sl_of(E, s, args[0])
    s = s.copy()
    b = ('s', ('pushed', E.symid(('pushed', sl, args[1]))))
    n = slen(sl)
    path = 'std::string::String' if 'String' in fd['path'] else 'std::vec::Vec'
    ex = exact_bytes(E, s, sl) if E.peel and path == 'std::vec::Vec' else None
    if ex is not None:
        new = ('sl', ('arrv', ex + (args[1],)), L(0), L(len(ex) + 1))
    elif path == 'std::vec::Vec':
        new = ('sl', b, L(0), ladd(n, L(1)))
    else:
        new = E.fullsl(b)
        E.add_le(s, ladd(ladd(n, L(1)), slen(new), -1))
    E.write(s, ('cell', args[0][1]), args[0][2], newvec(E, path, new))
    return [(s, UNIT)]


@model('std::vec::Vec::<T, A>::extend_from_slice', 'std::string::String::push_str')
def m_extend(E, fd, args, atys, rty, s, fr, tag):
    if args[0][0] != 'ref':
        return [(s, UNIT)]
    sl, x = sl_of(E, s, args[0]), sl_of(E, s, args[1])
    s = s.copy()
    path = 'std::string::String' if 'String' in fd['path'] else 'std::vec::Vec'
    ex, ey = (exact_bytes(E, s, sl), exact_bytes(E, s, x)) if E.peel else (None, None)
    if lconst(slen(sl)) == 0:
        new = x
    elif ex is not None and ey is not None:
        new = ('sl', ('arrv', ex + ey), L(0), L(len(ex) + len(ey)))
    else:
        b = ('s', ('ext', E.symid(('ext', sl, x))))
        new = ('sl', b, L(0), ladd(slen(sl), slen(x)))
    E.write(s, ('cell', args[0][1]), args[0][2], newvec(E, path, new))
    return [(s, UNIT)]


@model('std::vec::Vec::<T, A>::pop')
def m_pop(E, fd, args, atys, rty, s, fr, tag):
    if args[0][0] != 'ref':
        return None
    sl = sl_of(E, s, args[0])
    et = ety(E, rty, 'o')

    def p(q):
        q = q.copy()
        E.write(q, ('cell', args[0][1]), args[0][2], newvec(E, 'std::vec::Vec', ('sl', sl[1], sl[2], ladd(sl[3], L(-1)))))
        return [(q, some(E.elem(sl, ladd(slen(sl), L(-1)), et)))]
    return both(E, s, le(L(1), slen(sl)), p, lambda q: [(q, NONE)])


def octet_masks(E, s, sl, lim=64):
    """the possible values of each octet of a slice of known, small length, or None"""
    n = lconst(slen(sl)) if sl is not None else None
    if n is None or n > lim or not E.peel:
        return None
    out = []
    for j in range(n):
        v = E.elem(sl, L(j), u8ty(E))
        x = E.vint(v) if v[0] == 'i' else None
        if x is not None and not x[1]:
            out.append(1 << x[0])
        elif x is not None and x[0] == 0 and len(x[1]) == 1 and x[1][0][1] == 1:
            out.append(E.bmask(s, x[1][0][0]))
        else:
            out.append((1 << 256) - 1)
    return out


def _m(a, b):
    return (1 << b + 1) - (1 << a)


# UTF-8 (RFC 3629): state -> [(octets, next state)]
UTF8 = {0: [(_m(0, 0x7f), 0), (_m(0xc2, 0xdf), 1), (_m(0xe0, 0xe0), 2), (_m(0xe1, 0xec) | _m(0xee, 0xef), 3), (_m(0xed, 0xed), 4),
            (_m(0xf0, 0xf0), 5), (_m(0xf1, 0xf3), 6), (_m(0xf4, 0xf4), 7)],
        1: [(_m(0x80, 0xbf), 0)], 2: [(_m(0xa0, 0xbf), 1)], 3: [(_m(0x80, 0xbf), 1)], 4: [(_m(0x80, 0x9f), 1)],
        5: [(_m(0x90, 0xbf), 3)], 6: [(_m(0x80, 0xbf), 3)], 7: [(_m(0x80, 0x8f), 3)]}


def utf8_valid(ms):
    """True, False or None (depends) for octets with these possible values"""
    states, bad = {0}, False
    for m in ms:
        nxt = set()
        for q in states:
            seen = 0
            for o, r in UTF8[q]:
                seen |= o
                if m & o:
                    nxt.add(r)
            bad = bad or bool(m & ~seen)
        states = nxt
    good = 0 in states
    bad = bad or bool(states - {0})
    return None if good and bad else good


def utf8_result(E, s, sl, v):
    ms = octet_masks(E, s, sl)
    ok = utf8_valid(ms) if ms is not None else None
    f = s.forall.get(('range', sl[1], sl[2], sl[3])) if sl is not None else None
    if f is not None and not f >> 128:
        ok = True
    if ok is None:
        return None
    if ok:
        return [(s, ('agg', RES, 0, (v,)))]
    return [(s, ('agg', RES, 1, (('sym', E.symid(('utf8err', sl)), ()),)))]


@model('std::str::from_utf8', 'core::str::from_utf8')
def m_utf8(E, fd, args, atys, rty, s, fr, tag):
    sl = sl_of(E, s, args[0])
    r = utf8_result(E, s, sl, ('rv', sl))
    if r is not None:
        return r
    sid = E.symid(('utf8', sl))
    return [(s, ('sym', sid, (((0, 0), ('rv', sl)),)))]


@model('std::string::String::from_utf8')
def m_utf8s(E, fd, args, atys, rty, s, fr, tag):
    sl = sl_of(E, s, args[0])
    r = utf8_result(E, s, sl, newvec(E, 'std::string::String', sl))
    if r is not None:
        return r
    sid = E.symid(('utf8', sl))
    return [(s, ('sym', sid, (((0, 0), newvec(E, 'std::string::String', sl)),)))]


@model('std::string::String::from_utf8_lossy')
def m_lossy(E, fd, args, atys, rty, s, fr, tag):
    return None


@model('std::string::String::into_bytes')
def m_intobytes(E, fd, args, atys, rty, s, fr, tag):
    return [(s, newvec(E, 'std::vec::Vec', sl_of(E, s, args[0])))]


@model('<T as std::string::ToString>::to_string', '<str as std::string::SpecToString>::spec_to_string',
       '<std::string::String as std::convert::From<&str>>::from', "<std::vec::Vec<T> as std::convert::From<&[T]>>::from")
def m_tostring(E, fd, args, atys, rty, s, fr, tag):
    v = val(E, s, args[0])
    sl = E.as_slice(v)
    if sl is not None:
        p = E.types[rty]['path']
        return [(s, newvec(E, p, sl))]
    return None


@model("std::vec::cow::<impl std::convert::From<std::vec::Vec<T>> for std::borrow::Cow<'a, [T]>>::from")
def m_cowfrom(E, fd, args, atys, rty, s, fr, tag):
    return [(s, ('agg', 'std::borrow::Cow', 1, (args[0],)))]


@model("std::vec::cow::<impl std::convert::From<&'a [T]> for std::borrow::Cow<'a, [T]>>::from",
       "std::string::<impl std::convert::From<&'a str> for std::borrow::Cow<'a, str>>::from")
def m_cowfromref(E, fd, args, atys, rty, s, fr, tag):
    return [(s, ('agg', 'std::borrow::Cow', 0, (args[0],)))]


@model("std::borrow::Cow::<'_, B>::into_owned")
def m_cowowned(E, fd, args, atys, rty, s, fr, tag):
    v = args[0]
    t = E.types[rty]
    if t['k'] == 'adt' and t['path'] in ('std::vec::Vec', 'std::string::String'):
        if v[0] == 'agg':
            return [(s, newvec(E, t['path'], sl_of(E, s, v[3][0])))]
        return [(s, newvec(E, t['path'], E.fullsl(('s', ('cow', v)))))]
    return None


@model("<std::borrow::Cow<'_, B> as std::ops::Deref>::deref", "<std::borrow::Cow<'_, T> as std::convert::AsRef<T>>::as_ref")
def m_cowderef(E, fd, args, atys, rty, s, fr, tag):
    v = val(E, s, args[0])
    e = E.types[E.types[rty]['e']]['k']
    if e in ('slice', 'str'):
        if v[0] == 'agg':
            return [(s, ('rv', sl_of(E, s, v[3][0])))]
        if v[0] == 'sym' and v[2]:
            return None
        return [(s, ('rv', E.fullsl(('s', ('cow', v)))))]
    return None


@model('std::vec::<impl std::convert::TryFrom<std::vec::Vec<T, A>> for [T; N]>::try_from')
def m_vecarr(E, fd, args, atys, rty, s, fr, tag):
    sl = sl_of(E, s, args[0])
    at = E.types[rty]['args'][0]['t']
    n = E.types[at].get('len')
    if n is None:
        return None
    return both(E, s, ('eq', ladd(slen(sl), L(-n))), lambda q: [(q, ok(sl))], lambda q: [(q, err(args[0]))])


@model("std::array::<impl std::convert::TryFrom<&'a [T]> for &'a [T; N]>::try_from", "std::array::<impl std::convert::TryFrom<&[T]> for [T; N]>::try_from",
       "core::array::<impl std::convert::TryFrom<&[T]> for [T; N]>::try_from")
def m_slarr(E, fd, args, atys, rty, s, fr, tag):
    sl = sl_of(E, s, args[0])
    at = E.types[rty]['args'][0]['t']
    ref = E.types[at]['k'] == 'ref'
    n = E.types[E.types[at]['e'] if ref else at].get('len')
    if n is None:
        return None
    return both(E, s, ('eq', ladd(slen(sl), L(-n))), lambda q: [(q, ok(('rv', sl) if ref else sl))],
                lambda q: [(q, err(E.sym(('tryslice', sl))))])


# -------- nom
def input_of(E, st, v):
    v = val(E, st, v)
    return v


@model('nom::bytes::streaming::take', 'nom::bytes::complete::take')
def m_nomtake(E, fd, args, atys, rty, s, fr, tag):
    return [(s, ('agg', 'nomtake', int('complete' in fd['path']), (args[0],)))]


def input_split(E, s, fr, tag, i, n, ity):
    """[(state, rest, taken)] for an input value i of type ity, n <= len established"""
    if i[0] == 'rv':
        sl = E.as_slice(i[1])
        mid = ladd(sl[2], n)
        return [(s, ('rv', ('sl', sl[1], mid, sl[3])), ('rv', ('sl', sl[1], sl[2], mid)))]
    ts = E.types[ity]
    tf = E.rootmap.get(('nom::Input', ts.get('path'), 'take_from'))
    tk = E.rootmap.get(('nom::Input', ts.get('path'), 'take'))
    if tf is None or tk is None or tf < 0 or tk < 0:
        return None
    out = []
    for q, rest in E.run_inst(tf, [('rv', i), ('i', n)], s, E.newfid(fr.fid, (tag, 'tf'))):
        for q2, taken in E.run_inst(tk, [('rv', i), ('i', n)], q, E.newfid(fr.fid, (tag, 'tk'))):
            out.append((q2, rest, taken))
    return out


def input_len(E, s, i, ity):
    sl = inp_sl(E, i)
    return slen(sl) if sl is not None else None


def inp_sl(E, i):
    if i[0] == 'rv':
        return E.as_slice(i[1])
    if i[0] == 'agg':
        for f in i[3]:
            if f[0] == 'rv':
                sl = E.as_slice(f[1])
                if sl is not None:
                    return sl
    return None


def incomplete(E, n, complete=False):
    if complete:
        return err(('agg', 'nom::Err', 1, (E.sym(('nomerr', n)),)))
    return err(('agg', 'nom::Err', 0, (E.sym(('needed', n)),)))


@model('nom::bytes::streaming::take::{closure#0}', 'nom::bytes::complete::take::{closure#0}')
def m_nomtake_call(E, fd, args, atys, rty, s, fr, tag):
    c = val(E, s, args[0])
    if c[0] != 'agg' or c[1] != 'nomtake':
        return None
    tup = args[1]
    i = tup[3][0] if tup[0] == 'agg' and tup[1] == '()' else tup
    ity = E.types[atys[1]]['es'][0] if atys[1] is not None and E.types[atys[1]]['k'] == 'tuple' else atys[1]
    n = E.vint(c[3][0])
    ln = input_len(E, s, i, ity)
    if ln is None:
        return None
    out = []
    for q in E.assume(s, le(n, ln)):
        r = input_split(E, q, fr, tag, i, n, ity)
        if r is None:
            return None
        for q2, rest, taken in r:
            out.append((q2, ok(('agg', '()', 0, (rest, taken)))))
    for q in E.assume(s, E.neg(le(n, ln))):
        out.append((q if q is not s else s.copy(), incomplete(E, n, c[2] == 1)))
    return out


@model('nom::number::streaming::be_u8', 'nom::number::streaming::u8', 'nom::number::complete::be_u8')
def m_beu8(E, fd, args, atys, rty, s, fr, tag):
    i = args[0]
    ln = input_len(E, s, i, atys[0])
    if ln is None:
        return None
    out = []
    sl = inp_sl(E, i)
    for q in E.assume(s, le(L(1), ln)):
        r = input_split(E, q, fr, tag, i, L(1), atys[0])
        if r is None:
            return None
        for q2, rest, taken in r:
            out.append((q2, ok(('agg', '()', 0, (rest, E.elem(sl, L(0), u8ty(E)))))))
    for q in E.assume(s, E.neg(le(L(1), ln))):
        out.append((q if q is not s else s.copy(), incomplete(E, L(1), 'complete' in fd['path'])))
    return out


# -------- formatting and I/O: opaque, total
for _n in ('std::fmt::Arguments::<\'a>::new', 'std::fmt::Arguments::<\'a>::from_str', 'log::max_level', 'log::__private_api::loc',
           'log::__private_api::log', 'std::any::type_name', 'std::fmt::format'):
    def _op(E, fd, args, atys, rty, s, fr, tag):
        return [(s, E.sym(('fmt', fd['path'], fr.fid, tag), rty))]
    M[_n] = _op
del _op


# library entry points that can panic on some argument: reaching one is an obligation
PANICKING = re.compile(
    r'((\b(Vec|VecDeque|String)\b|\[T\]).*::(remove|insert|swap_remove|split_off|drain|rotate_left|rotate_right|swap)$|'
    r'::unwrap_unchecked$|RefCell.*::borrow(_mut)?$|::from_digit$|Duration.*::(from_secs_f|add|sub)|::unreachable_unchecked$|'
    r'::next_power_of_two$|num::.*::div_euclid$|num::.*::rem_euclid$|::ilog|::isqrt$)')


# ------------------------------------------------------------------ iterators consumed by library code
def divides(E, st, lin, n):
    """is lin known to be a multiple of n?"""
    if lconst(lin) is not None:
        return lconst(lin) % n == 0
    k = [a for a in E.akey if a[0] == 'op' and a[1] == 'Rem' and a[2] == lin and lconst(a[3]) == n]
    return any(E.sup(st, E.alin(a)) == 0 for a in k)


def iter_items(E, v, s, fr, tag, depth=0):
    """[(state, item)] any item the iterator value v may produce, or None when unknown"""
    if depth > 5:
        return None
    v = val(E, s, v)
    if v[0] != 'agg':
        return None
    if v[1] in ('it:slice', 'it:vals'):
        et = u8ty(E)
        i, e = elem_probe(E, fr, (tag, 'drive', depth), v[3][0], et)
        q = s.copy()
        sl = v[3][0]
        E.add_le(q, ladd(sl[2], i, -1))
        if not E.add_le(q, ladd(ladd(i, sl[3], -1), L(1))):
            return []
        return [(q, e if v[1] == 'it:vals' else ('rv', e))]
    if v[1] in ('it:chunks', 'it:chunks_exact', 'it:windows'):
        sl, n = v[3][0], v[3][1][1]
        i = E.alin(('anyidx', fr.fid, (tag, 'drive', depth)), 0, LEN_MAX)
        q = s.copy()
        E.add_le(q, ladd(sl[2], i, -1))
        if not E.add_le(q, ladd(ladd(i, sl[3], -1), L(1))):
            return []
        nc = lconst(n)
        if v[1] != 'it:chunks' or (nc is not None and divides(E, q, slen(sl), nc)):
            end = ladd(i, n)
        else:
            k = E.alin(('anylen', fr.fid, (tag, 'drive', depth)), 1, LEN_MAX)
            E.add_le(q, ladd(k, n, -1))
            end = ladd(i, k)
        if not E.add_le(q, ladd(end, sl[3], -1)):
            return []
        return [(q, ('rv', ('sl', sl[1], i, end)))]
    if v[1].startswith('std::iter::') or v[1].startswith('core::iter::') or v[1].startswith('std::iter::adapters::'):
        name = v[1].rsplit('::', 1)[-1]
        if name in ('Copied', 'Cloned'):
            r = iter_items(E, v[3][0], s, fr, tag, depth + 1)
            return None if r is None else [(q, x[1] if x[0] == 'rv' else x) for q, x in r]
        if name in ('Rev', 'Take', 'Skip', 'StepBy', 'Fuse', 'Peekable', 'Filter', 'TakeWhile', 'SkipWhile'):
            return iter_items(E, v[3][0], s, fr, tag, depth + 1)
        if name == 'Enumerate':
            r = iter_items(E, v[3][0], s, fr, tag, depth + 1)
            return None if r is None else [
                (q, ('agg', '()', 0, (('i', E.alin(('anyenum', fr.fid, (tag, depth)), 0, LEN_MAX)), x))) for q, x in r]
        if name == 'Map':
            f = next((x for x in v[3] if x[0] in ('fn', 'fnty') or (x[0] == 'agg' and x[1] == 'closure')), None)
            it = next((x for x in v[3] if x is not f), None)
            if f is None or it is None:
                return None
            r = iter_items(E, it, s, fr, tag, depth + 1)
            if r is None:
                return None
            out = []
            for n, (q, x) in enumerate(r):
                y = apply_closure(E, f, [x], q, fr, (tag, 'map', depth, n))
                if y is None:
                    return None
                out += y
            return out
    return None


def apply_closure(E, f, args, s, fr, tag):
    if f[0] == 'agg' and f[1] == 'closure':
        iid = f[2]
        if iid is None or iid < 0 or not E.insts[iid].get('body'):
            return None
        b = E.insts[iid]['body']
        aa = list(args)
        if len(aa) != b['argc'] - 1:
            if len(aa) == 1 and aa[0][0] == 'agg' and len(aa[0][3]) == b['argc'] - 1:
                aa = list(aa[0][3])
            else:
                aa = [E.sym(('drv', fr.fid, tag, k), b['locals'][k + 2]) for k in range(b['argc'] - 1)]
        s = s.copy()
        E.havoc_ref(s, f, fr.fid, (tag, 'h'))
        return E.call_closure(f, aa, s, fr, tag, b['locals'][0])
    return None


def closures_in(v, d=0, out=None):
    out = [] if out is None else out
    if v[0] == 'agg':
        if v[1] == 'closure':
            out.append(v)
        elif d < 6:
            for x in v[3]:
                closures_in(x, d + 1, out)
    elif v[0] == 'rv' and d < 6:
        closures_in(v[1], d + 1, out)
    return out


def drive(E, args, s, fr, tag):
    """library code that runs the closures it is handed: analyse them where they are handed over"""
    for n, a in enumerate(args):
        v = val(E, s, a) if a[0] in ('rv', 'ref') else a
        cl = closures_in(v)
        if not cl:
            continue
        r = iter_items(E, v, s, fr, (tag, 'drv', n))
        if r is not None:
            continue
        for k, c in enumerate(cl):
            # innermost adapters first: items known for them, unknown for the rest
            m = find_map(v, c)
            items = iter_items(E, m, s, fr, (tag, 'drv', n, k)) if m is not None else None
            if items is None:
                b = E.insts[c[2]]['body'] if c[2] is not None and c[2] >= 0 else None
                if not b:
                    continue
                aa = [E.sym(('drv', fr.fid, tag, n, k, j), b['locals'][j + 2]) for j in range(b['argc'] - 1)]
                apply_closure(E, c, aa, s, fr, (tag, 'drv', n, k))


def find_map(v, c, d=0):
    if v[0] == 'rv':
        return find_map(v[1], c, d + 1) if d < 6 else None
    if v[0] != 'agg' or v[1] == 'closure' or d > 6:
        return None
    if any(x is c or x == c for x in v[3]):
        return v
    for x in v[3]:
        r = find_map(x, c, d + 1)
        if r is not None:
            return r
    return None


# -------- bitvec: (bytes, number of bits)
BV = 'bitvec::vec::BitVec'


@model('bitvec::vec::BitVec::<T, O>::from_slice')
def m_bv_from(E, fd, args, atys, rty, s, fr, tag):
    sl = sl_of(E, s, args[0])
    s = s.copy()        # a bit vector holds less than 2^61 bits (from_slice panics otherwise: no such slice exists)
    if not E.add_le(s, ladd(lscale(slen(sl), 8), L(-LEN_MAX))):
        return []
    return [(s, ('agg', BV, 0, (sl, ('i', lscale(slen(sl), 8)))))]


@model('bitvec::vec::api::<impl bitvec::vec::BitVec<T, O>>::len')
def m_bv_len(E, fd, args, atys, rty, s, fr, tag):
    v = val(E, s, args[0])
    if v[0] == 'agg' and v[1] == BV:
        return [(s, v[3][1])]
    return None


@model('bitvec::vec::api::<impl bitvec::vec::BitVec<T, O>>::truncate')
def m_bv_truncate(E, fd, args, atys, rty, s, fr, tag):
    r = args[0]
    if r[0] != 'ref':
        return None
    v = E.read(s, ('cell', r[1]), r[2])
    if v[0] != 'agg' or v[1] != BV:
        return None
    n = iint(E, s, args[1])

    def cut(s2):
        E.write(s2, ('cell', r[1]), r[2], ('agg', BV, 0, (v[3][0], ('i', n))))
        return [(s2, E.unit if hasattr(E, 'unit') else UNIT)]
    return both(E, s, le(n, E.vint(v[3][1])), cut, lambda s2: [(s2, UNIT)])


# ------------------------------------------------------------------ exact iteration over a short slice of known length
ITEMS = 24


def bytes_only(E, ty, depth=0):
    """an iterator type over slices of u8 only"""
    if ty is None or depth > 5:
        return False
    t = E.types[ty]
    if t['k'] in ('ref', 'ptr'):
        t = E.types[t['e']] if 'e' in t else t
    if t['k'] in ('slice', 'array'):
        return E.types[t['e']].get('bits') == 8
    p = t.get('path', '')
    if p.startswith('std::str::') and 'Bytes' in p:
        return True
    a = [x['t'] for x in t.get('args', ()) if 't' in x]
    if p in ('std::slice::Iter', 'std::slice::Chunks', 'std::slice::ChunksExact', 'std::slice::Windows'):
        e = E.types[a[0]] if a else None
        return bool(e) and e['k'] == 'int' and e['bits'] == 8
    if p.startswith('std::iter::') and a:
        its = [x for x in a if E.types[x].get('path', '').startswith(('std::iter::', 'std::slice::', 'std::str::'))]
        return bool(its) and all(bytes_only(E, x, depth + 1) for x in its)
    return False


def chained(v):
    return v[3][0] if v[0] == 'agg' and v[1] == OPT and v[2] == 1 else v


def exact_items(E, v, s, fr, tag, depth=0, ty=None):
    """[(state, [items])] the items an iterator produces, when their number is known and small; or None"""
    if depth > 4:
        return None
    v = val(E, s, v)
    if v[0] != 'agg' or not E.peel:
        return None
    k = v[1]
    if k in ('it:slice', 'it:vals') and v[3][0][0] == 'sl':
        sl = v[3][0]
        n = lconst(slen(sl))
        if n is None or n > ITEMS or lconst(sl[2]) is None or not (sl[1][0] in ('arrv', 'const') or bytes_only(E, ty)):
            return None
        es = [E.elem(sl, L(j), u8ty(E)) for j in range(n)]
        return [(s, es if k == 'it:vals' else [('rv', e) for e in es])]
    if k in ('it:chunks', 'it:chunks_exact', 'it:windows'):
        sl, c = v[3][0], lconst(v[3][1][1])
        n, a = lconst(slen(sl)), lconst(sl[2])
        if n is None or c is None or c < 1 or a is None or n > 4 * ITEMS:
            return None
        if k == 'it:windows':
            ps = [(j, j + c) for j in range(n - c + 1)]
        else:
            ps = [(j, min(j + c, n)) for j in range(0, n, c) if k == 'it:chunks' or j + c <= n]
        return [(s, [('rv', ('sl', sl[1], L(a + x), L(a + y))) for x, y in ps])] if len(ps) <= ITEMS else None
    if k == 'it:list':
        return [(s, list(v[3]))]
    name = k.rsplit('::', 1)[-1]
    if name in ('Copied', 'Cloned'):
        r = exact_items(E, v[3][0], s, fr, tag, depth + 1, ty)
        return None if r is None else [(q, [x[1] if x[0] == 'rv' else val(E, q, x) for x in xs]) for q, xs in r]
    if k == 'std::ops::Range' and len(v[3]) == 2:
        x, y = (lconst(E.folded(s, E.vint(e))) for e in v[3])
        return None if x is None or y is None or y - x > ITEMS else [(s, [('i', L(j)) for j in range(x, y)])]
    if not k.startswith('std::iter'):
        return None
    if name in ('Enumerate', 'Rev', 'Fuse', 'Take', 'Skip') and v[3]:
        r = exact_items(E, v[3][0], s, fr, tag, depth + 1, ty)
        n = lconst(E.vint(v[3][1])) if len(v[3]) > 1 and v[3][1][0] == 'i' else None
        if r is None or (n is None and name in ('Take', 'Skip', 'Enumerate')):
            return None
        f = {'Enumerate': lambda xs: [('agg', '()', 0, (('i', L(n + j)), x)) for j, x in enumerate(xs)], 'Rev': lambda xs: xs[::-1],
             'Fuse': lambda xs: xs, 'Take': lambda xs: xs[:n], 'Skip': lambda xs: xs[n:]}[name]
        return [(q, f(xs)) for q, xs in r]
    if name == 'Zip' and len(v[3]) >= 2:
        out = []
        for q, xs in exact_items(E, v[3][0], s, fr, (tag, 'z0'), depth + 1, ty) or [(s, None)]:
            r = exact_items(E, v[3][1], q, fr, (tag, 'z1'), depth + 1, ty) if xs is not None else None
            if r is None:
                return None
            out += [(p, [('agg', '()', 0, ab) for ab in zip(xs, ys)]) for p, ys in r]
        return out
    if name == 'Filter' and len(v[3]) == 2 and v[3][1][0] == 'agg':
        r = exact_items(E, v[3][0], s, fr, tag, depth + 1, ty)
        out = []
        for q, xs in r or ():
            live = [(q, [])]
            for j, x in enumerate(xs):
                nxt = []
                for p, ys in live:
                    y = apply_closure(E, v[3][1], [('rv', x)], p, fr, (tag, 'xfilter', depth, j))
                    if y is None:
                        return None
                    for t, c in y:
                        c = E.vbool(val(E, t, c))
                        nxt += [(u, ys + [x]) for u in E.assume(t, c)] + [(u, ys) for u in E.assume(t, E.neg(c))]
                if len(nxt) > 12:
                    return None
                live = nxt
            out += live
        return None if r is None else out
    if name == 'Chain' and len(v[3]) == 2:
        out = []
        for q, xs in exact_items(E, chained(v[3][0]), s, fr, (tag, 'c0'), depth + 1, ty) or [(s, None)]:
            r = exact_items(E, chained(v[3][1]), q, fr, (tag, 'c1'), depth + 1, ty) if xs is not None else None
            if r is None:
                return None
            out += [(p, xs + ys) for p, ys in r]
        return out
    if name in ('FlatMap', 'Flatten') and v[3] and v[3][0][0] == 'agg' and v[3][0][1].endswith('::FlattenCompat'):
        it, front, back = v[3][0][3]
        if (front, back) != (NONE, NONE) or it[0] != 'agg' or not it[1].endswith('::Fuse'):
            return None
        out = []
        for q, its in exact_items(E, chained(it[3][0]), s, fr, (tag, 'xflat'), depth + 1, ty) or [(s, None)]:
            live = [(q, [])]
            for j, e in enumerate(its or ()):
                nxt = []
                for p, ys in live:
                    r = exact_items(E, e, p, fr, (tag, 'xflatn', depth, j), depth + 1, ty)
                    if r is None:
                        return None
                    nxt += [(u, ys + es) for u, es in r]
                if len(nxt) > 12:
                    return None
                live = nxt
            if its is None:
                return None
            out += live
        return out
    if name == 'Map' and k.startswith('std::iter'):
        f = next((x for x in v[3] if x[0] in ('fn', 'fnty') or (x[0] == 'agg' and x[1] == 'closure')), None)
        it = next((x for x in v[3] if x is not f), None)
        if f is None or it is None or f[0] != 'agg':
            return None
        r = exact_items(E, it, s, fr, tag, depth + 1, ty)
        if r is None:
            return None
        out = []
        for q, xs in r:
            live = [(q, [])]
            for j, x in enumerate(xs):
                nxt = []
                for p, ys in live:
                    y = apply_closure(E, f, [x], p, fr, (tag, 'xmap', depth, j))
                    if y is None:
                        return None
                    nxt += [(t, ys + [e]) for t, e in y]
                if len(nxt) > 12:
                    return None
                live = nxt
            out += live
        return out
    return None


def exact_vec(E, xs):
    return newvec(E, 'std::vec::Vec', ('sl', ('arrv', tuple(xs)), L(0), L(len(xs))))


SETS = ('std::collections::BTreeSet', 'std::collections::HashSet')


def crate_next(E, fd, v):
    """the instance of `next` of an iterator of the crate handed to a library function"""
    c = {i for t, i in fd.get('iters', ()) if E.types[t].get('path') == v[1]} if v[0] == 'agg' and E.rules.collects else ()
    return c.pop() if len(c) == 1 else None


def step(E, fd, it, s, fr, tag, depth=0):
    """[(state, iterator afterwards, item or None)]: one item of an iterator; None when it is not known"""
    if depth > 4 or not E.peel:
        return None
    v = it
    ref = None
    while v[0] in ('ref', 'rv'):
        if v[0] == 'ref':
            ref = v
            v = E.read(s, ('cell', v[1]), v[2])
        else:
            v = v[1]
    if v[0] != 'agg':
        return None
    iid = crate_next(E, fd, v)
    if iid is not None:
        if not E.insts[iid].get('body') or len(E.stack) >= E.MAXDEPTH:
            return None
        q = s.copy()
        if ref is None:
            cell = (fr.fid, 'it', tag)
            q.cells[cell] = v
            a = ('ref', cell, ())
        else:
            a = ref
        out = []
        for w, r in E.run_inst(iid, [a], q, E.newfid(fr.fid, (tag, iid))):
            r = val(E, w, r)
            if r[0] != 'agg' or r[1] != OPT:
                return None
            out.append((w, it if ref is not None else E.read(w, ('cell', a[1]), ()), r[3][0] if r[2] == 1 else None))
        return out
    if v[1].startswith('std::iter') and v[1].endswith('::Map'):
        k = next((k for k, x in enumerate(v[3]) if x[0] in ('fn', 'fnty') or (x[0] == 'agg' and x[1] == 'closure')), None)
        if k is None or len(v[3]) != 2 or ref is not None:
            return None
        r = step(E, fd, v[3][1 - k], s, fr, (tag, 'm'), depth + 1)
        if r is None:
            return None
        out = []
        for q, jt, x in r:
            fs = [None, None]
            fs[k], fs[1 - k] = v[3][k], jt
            w = ('agg', v[1], v[2], tuple(fs))
            if x is None:
                out.append((q, w, None))
                continue
            y = item_call(E, v[3][k], [x], q, fr, (tag, 'mf'))
            if y is None:
                return None
            out += [(p, w, e) for p, e in y]
        return out
    if v[1] == 'it:rest':
        return [(s, ('agg', 'it:rest', 0, v[3][1:]), v[3][0] if v[3] else None)]
    r = exact_items(E, v, s, fr, tag, depth) if ref is None else None
    if r is None:
        return None
    return [(q, ('agg', 'it:rest', 0, tuple(xs[1:])), xs[0] if xs else None) for q, xs in r]


def all_items(E, fd, it, s, fr, tag):
    """[(state, items)] by asking the iterator for one after the other"""
    out, live = [], [(s, it, [])]
    for j in range(ITEMS + 1):
        nxt = []
        for q, jt, xs in live:
            r = step(E, fd, jt, q, fr, (tag, 'st', j))
            if r is None:
                return None
            for p, kt, x in r:
                if x is None:
                    out.append((p, xs))
                else:
                    nxt.append((p, kt, xs + [x]))
        live = nxt
        if not live:
            return out
        if len(live) + len(out) > 40:
            return None
    return None


@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def m_collect(E, fd, args, atys, rty, s, fr, tag):
    t = E.types[rty] if rty is not None else None
    if t is None or t['k'] != 'adt' or not E.peel:
        return None
    path = t['path']
    if path not in ('std::vec::Vec', OPT, RES) + SETS:
        return None
    own = path
    if path in (OPT, RES):
        inner = [E.types[a['t']] for a in t.get('args', ()) if 't' in a]
        own = inner[0].get('path') if inner else None
        if own not in ('std::vec::Vec',) + SETS:
            return None

    def made(xs):
        return newvec(E, own, exact_vec(E, xs)[3][0])
    r = exact_items(E, args[0], s, fr, tag, ty=atys[0] if atys else None)
    good = {OPT: 1, RES: 0}.get(path)
    out = []
    live = [(s, args[0], [])] if r is None else [(q, ('agg', 'it:rest', 0, tuple(xs)), []) for q, xs in r]
    for j in range(4 * ITEMS):
        nxt = []
        for q, it, ys in live:
            r = step(E, fd, it, q, fr, (tag, 'col', j))
            if r is None:
                return None
            for p, jt, x in r:
                if x is None:
                    v = made(ys)
                    out.append((p, v if good is None else ('agg', path, good, (v,))))
                    continue
                if good is None:
                    nxt.append((p, jt, ys + [x]))
                    continue
                x = val(E, p, x)
                if x[0] != 'agg' or x[1] != path:
                    return None
                if x[2] == good:
                    nxt.append((p, jt, ys + [x[3][0]]))
                else:
                    out.append((p, x))
        live = nxt
        if not live:
            return out
        if len(live) + len(out) > 60:
            return None
    return None


@model('std::collections::BTreeSet::<T>::new', 'std::collections::HashSet::<T>::new', 'std::collections::HashSet::<T>::with_capacity',
       '<std::collections::BTreeSet<T> as std::default::Default>::default',
       '<std::collections::HashSet<T, S> as std::default::Default>::default')
def m_setnew(E, fd, args, atys, rty, s, fr, tag):
    if not E.peel:
        return None
    return [(s, newvec(E, E.types[rty]['path'], E.fullsl(('const', ()))))]


@model('std::collections::BTreeSet::<T, A>::insert', 'std::collections::HashSet::<T, S>::insert',
       'std::collections::HashSet::<T, S, A>::insert')
def m_setins(E, fd, args, atys, rty, s, fr, tag):
    if not E.peel or args[0][0] != 'ref':
        return None
    v = E.read(s, ('cell', args[0][1]), args[0][2])
    if v[0] != 'agg' or v[1] not in SETS or v[3][0][0] != 'sl':
        return None
    ex = exact_bytes(E, s, v[3][0])
    if ex is None:
        return None
    s = s.copy()
    E.write(s, ('cell', args[0][1]), args[0][2], newvec(E, v[1], exact_vec(E, list(ex) + [args[1]])[3][0]))
    return [(s, E.sym(('inserted', fr.fid, tag), rty))]


@model('std::char::methods::<impl char>::from_u32', 'std::char::from_u32', 'core::char::from_u32', 'core::char::methods::<impl char>::from_u32')
def m_from_u32(E, fd, args, atys, rty, s, fr, tag):
    v = iint(E, s, args[0])
    if v is None:
        return None
    good = lambda q: [(q, some(('i', v)))]
    bad = lambda q: [(q, NONE)]
    return both(E, s, le(v, L(0xd7ff)), good,
                lambda q: both(E, q, le(v, L(0xdfff)), bad, lambda p: both(E, p, le(v, L(0x10ffff)), good, bad)))


@model('std::string::String::from_utf16', "std::string::String::from_utf16_lossy")
def m_utf16(E, fd, args, atys, rty, s, fr, tag):
    if 'lossy' in fd['path']:
        return None
    sl = sl_of(E, s, args[0])
    n = lconst(slen(sl)) if sl is not None else None
    if n is None or n > ITEMS or not E.peel:
        return None
    us = utf16_units(E, s, [E.elem(sl, L(j), u8ty(E)) for j in range(n)])
    if us is None:
        return None
    states, bad = {0}, False
    for v, hi, lo, bmp in us:
        nxt = set()
        for q in states:
            if q == 0:
                nxt |= ({1} if hi else set()) | ({0} if bmp else set())
                bad = bad or lo
            else:
                nxt |= {0} if lo else set()
                bad = bad or hi or bmp
        states = nxt
    good, bad = 0 in states, bad or 1 in states
    if good and bad:
        return None
    if good:
        b = ('s', ('utf16', E.symid(('utf16', sl))))
        return [(s, ok(newvec(E, 'std::string::String', E.fullsl(b))))]
    return [(s, err(('sym', E.symid(('utf16err', sl)), ())))]


def utf16_units(E, s, xs):
    """[(value, may be a high surrogate, low surrogate, any other)] for 16-bit units"""
    out = []
    for x in xs:
        x = val(E, s, x)
        v = E.vint(x) if x[0] == 'i' else None
        if v is None:
            return None
        can = lambda a, b: any(E.assume(p, le(v, L(b))) for p in E.assume(s, le(L(a), v)))
        out.append((v, can(0xd800, 0xdbff), can(0xdc00, 0xdfff), can(0, 0xd7ff) or can(0xe000, 0xffff)))
    return out


@model('std::char::decode_utf16', 'core::char::decode_utf16', 'std::char::methods::<impl char>::decode_utf16', 'core::char::decode::decode_utf16',
       'std::char::decode::decode_utf16')
def m_decode16(E, fd, args, atys, rty, s, fr, tag):
    r = exact_items(E, args[0], s, fr, tag, ty=atys[0] if atys else None)
    if r is None:
        return None
    out = []
    for q, xs in r:
        us = utf16_units(E, q, xs)
        if us is None or any(h + l + b != 1 for v, h, l, b in us):
            return None
        res, j = [], 0
        bad = lambda j: err(('sym', E.symid(('utf16unit', fr.fid, tag, j)), ()))
        while j < len(us):
            v, h, l, b = us[j]
            if b:
                res.append(ok(('i', v)))
            elif h and j + 1 < len(us) and us[j + 1][2]:
                res.append(ok(('i', E.alin(('astral', fr.fid, tag, j), 0x10000, 0x10ffff))))
                j += 1
            else:
                res.append(bad(j))
            j += 1
        out.append((q, ('agg', 'it:list', 0, tuple(res))))
    return out


@model("<std::char::DecodeUtf16<I> as std::iter::Iterator>::next", "<core::char::decode::DecodeUtf16<I> as std::iter::Iterator>::next",
       "<std::char::decode::DecodeUtf16<I> as std::iter::Iterator>::next")
def m_list_next(E, fd, args, atys, rty, s, fr, tag):
    it = val(E, s, args[0])
    if it[0] != 'agg' or it[1] != 'it:list' or args[0][0] != 'ref':
        return None
    if not it[3]:
        return [(s, NONE)]
    s = s.copy()
    E.write(s, ('cell', args[0][1]), args[0][2], ('agg', 'it:list', 0, it[3][1:]))
    return [(s, some(it[3][0]))]


def item_call(E, f, args, s, fr, tag):
    """call a function value handed to an iterator method; its state is kept in a cell"""
    g = val(E, s, f) if f[0] != 'ref' else E.read(s, ('cell', f[1]), f[2])
    rt = None
    if g[0] == 'agg' and g[1] == 'closure' and g[2] is not None and g[2] >= 0 and E.insts[g[2]].get('body'):
        b = E.insts[g[2]]['body']
        rt = b['locals'][0]
        if len(args) == 1 and b['argc'] != 2 or len(args) > 1 and b['argc'] != len(args) + 1:
            return None
    elif g[0] in ('fn', 'fnty'):
        d = g[1].d if g[0] == 'fn' else E.types[g[1]].get('fn')
        i = d.get('inst') if d else None
        if i is None or not E.insts[i].get('body'):
            return None
        rt = E.insts[i]['body']['locals'][0]
    else:
        return None
    return E.call_value(f, args, [None] * len(args), rt, s, fr, tag)


CONSUME = {'all', 'any', 'find', 'position', 'find_map', 'try_for_each', 'for_each', 'try_fold', 'fold', 'count', 'last'}
BYREF = {'all', 'any', 'find', 'position', 'find_map', 'try_for_each', 'try_fold'}


def consume(E, fd, args, atys, rty, s, fr, tag):
    """an iterator method that runs a closure over items which are all known"""
    name = fd.get('name')
    if name not in CONSUME or not args or not E.peel:
        return None
    if name in BYREF and args[0][0] != 'ref':
        return None
    r = exact_items(E, args[0], s, fr, (tag, 'cons'), ty=atys[0] if atys else None)
    if r is None and name not in BYREF and fd.get('iters'):
        r = all_items(E, fd, args[0], s, fr, (tag, 'all'))
    if r is None:
        return None
    out = []
    for q, xs in r:
        if name == 'count':
            out.append((q, ('i', L(len(xs)))))
            continue
        if name == 'last':
            out.append((q, some(xs[-1]) if xs else NONE))
            continue
        q = q.copy()
        cell = (fr.fid, 'clx', tag)
        q.cells[cell] = args[-1]
        f = ('ref', cell, ()) if args[-1][0] == 'agg' else args[-1]
        live = [(q, args[1] if name in ('fold', 'try_fold') else UNIT)]

        def done(p, j, v):
            if name in BYREF:
                p = p.copy()
                E.write(p, ('cell', args[0][1]), args[0][2], ('agg', 'it:list', 0, tuple(xs[j + 1:])))
            out.append((p, v))
        for j, x in enumerate(xs):
            nxt = []
            for p, acc in live:
                aa = [acc, x] if name in ('fold', 'try_fold') else [('rv', x)] if name == 'find' else [x]
                res = item_call(E, f, aa, p, fr, (tag, 'ix', j))
                if res is None:
                    return None
                for w, v in res:
                    v = val(E, w, v)
                    if name in ('fold', 'for_each'):
                        nxt.append((w, v))
                    elif name in ('try_for_each', 'try_fold', 'find_map'):
                        if v[0] != 'agg' or v[1] not in (OPT, RES, 'std::ops::ControlFlow'):
                            return None
                        go = v[2] == {OPT: 1, RES: 0}.get(v[1], 0)
                        if name == 'find_map':
                            go = not go
                        if go:
                            nxt.append((w, v[3][0] if v[3] else UNIT))
                        else:
                            done(w, j, v)
                    else:
                        c = E.vbool(v)
                        stop, go = (E.neg(c), c) if name == 'all' else (c, E.neg(c))
                        hit = {'all': ('b', ('c', False)), 'any': ('b', ('c', True)), 'find': some(x), 'position': some(('i', L(j)))}[name]
                        for y in E.assume(w, stop):
                            done(y, j, hit)
                        nxt += [(y, UNIT) for y in E.assume(w, go)]
            if len(nxt) + len(out) > 60:
                return None
            live = nxt
        for p, acc in live:
            if name in ('try_for_each', 'try_fold'):
                t = E.types[rty]
                pth = t.get('path') if rty is not None else None
                if pth not in (OPT, RES, 'std::ops::ControlFlow'):
                    return None
                acc = ('agg', pth, {OPT: 1, RES: 0}.get(pth, 0), (acc,))
            elif name not in ('fold', 'for_each'):
                acc = {'all': ('b', ('c', True)), 'any': ('b', ('c', False)), 'find': NONE, 'position': NONE, 'find_map': NONE}[name]
            done(p, len(xs), acc)
    return out


@model('nom::Err::<E>::convert', 'nom::Err::<E>::map')
def m_err_convert(E, fd, args, atys, rty, s, fr, tag):
    v = val(E, s, args[0])
    if v[0] != 'agg' or v[1] != 'nom::Err':
        return None
    if v[2] == 0:
        return [(s, v)]
    if fd['name'] == 'map' and len(args) > 1:
        r = item_call(E, args[1], [v[3][0]], s, fr, tag)
        return None if r is None else [(q, ('agg', 'nom::Err', v[2], (x,))) for q, x in r]
    a = [x['t'] for x in E.types[rty].get('args', ()) if 't' in x] if rty is not None else []
    if not a:
        return None
    return [(s, ('agg', 'nom::Err', v[2], (E.sym(('converted', v[3][0], fr.fid, tag), a[0]),)))]


@model('nom::Err::<E>::is_incomplete')
def m_err_incomplete(E, fd, args, atys, rty, s, fr, tag):
    v = val(E, s, args[0])
    return [(s, ('b', ('c', v[2] == 0)))] if v[0] == 'agg' and v[1] == 'nom::Err' else None

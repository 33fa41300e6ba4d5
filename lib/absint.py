"""Abstract interpretation of the MIR instance graph.

Domain: per program point a bounded set of abstract states.  A state maps cells (locals of the
inlined frames) to structured abstract values (aggregates with known variants, slices as
(origin, start, end), linear forms over integer atoms, shared references by value, mutable
references by cell) and keeps
  * a relational part: upper bounds on linear forms over atoms,
  * an interval per atom and, for finite atoms (bytes, discriminants, booleans), a value set.
Branches refine, joins keep what both sides imply (differing cells become phi atoms), loops are
solved by fixpoint iteration with widening over Bourdoncle's weak topological order, local callees
and closures are inlined (recursion is cut and the callee analysed as a root of its own).
Nothing is executed and no solver is called.
"""
import ast, math
import sys
from collections import defaultdict

sys.setrecursionlimit(20000)

USIZE_MAX = (1 << 64) - 1
LEN_MAX = (1 << 63) - 1
INF = None


# ---------------------------------------------------------------- linear forms
def L(c):
    return (c, ())


def ladd(a, b, k=1):
    """a + k*b"""
    if not b[1]:
        return (a[0] + k * b[0], a[1])
    d = dict(a[1])
    for t, c in b[1]:
        n = d.get(t, 0) + k * c
        if n:
            d[t] = n
        else:
            d.pop(t, None)
    return (a[0] + k * b[0], tuple(sorted(d.items())))


def lscale(a, k):
    if k == 0:
        return L(0)
    return (a[0] * k, tuple((t, c * k) for t, c in a[1]))


def lneg(a):
    return lscale(a, -1)


def lconst(a):
    return a[0] if not a[1] else None


TOPB = ('b', ('top',))
UNIT = ('agg', '()', 0, ())


def is_const_int(v):
    return v[0] == 'i' and not v[1][1]


class Cut(Exception):
    pass


class Budget(Exception):
    pass


class Ub(dict):
    """upper bounds of linear forms, with an index by (atom, sign)"""
    __slots__ = ('ix',)

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.ix = None

    def index(self):
        ix = self.ix
        if ix is None:
            ix = self.ix = {}
            for k in self:
                for a, c in k:
                    ix.setdefault((a, c > 0), []).append(k)
        return ix

    def __setitem__(self, k, v):
        if k not in self:
            self.ix = None
        dict.__setitem__(self, k, v)

    def clone(self):
        u = Ub(self)
        u.ix = self.ix
        return u


CONST_CALLS = ('std::ops::RangeInclusive::<Idx>::new',)   # evaluated in promoted constants


class State:
    __slots__ = ('cells', 'ub', 'mask', 'iv', 'ne', 'ghost', 'forall')

    def __init__(self):
        self.cells = {}
        self.ub = Ub()
        self.mask = {}
        self.iv = {}
        self.ne = frozenset()
        self.ghost = {}
        self.forall = {}

    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.ub = self.ub.clone()
        s.mask = dict(self.mask)
        s.iv = dict(self.iv)
        s.ne = self.ne
        s.ghost = dict(self.ghost)
        s.forall = dict(self.forall)
        return s


class Inst:
    __slots__ = ('id', 'path', 'full', 'local', 'body', 'promoted', 'args', 'kind', 'sp', 'wto', 'heads', 'preds',
                 'live', 'env', 'loopset')


class Engine:
    MAXDEPTH = 60
    MAXSTATES = 10
    MAXRET = 8

    tyconsts = None             # generic constants pinned to a value
    peel = 0                    # probe mode: try to execute loops this many times before summarising them

    def __init__(self, facts, rules=None):
        self.F = facts
        self.affines = {}
        self.types = facts.types
        self.atoms = []          # id -> (key, lo, hi)
        self.akey = {}
        self.skey = {}
        self.syms = []           # id -> (key, ty)
        self.insts = facts.insts
        self.icache = {}
        self.fids = {}
        self.stack = []
        self.obl = {}
        self.record = True
        self.rules = rules
        self.models = {}
        self.notes = set()
        self.opaque_calls = defaultdict(int)
        import models as _m
        self.drive = _m.drive
        self.consume = _m.consume
        self.cut = set()
        self.steps = 0
        self.max_steps = 400000
        self.promo = {}
        self.root = None
        self.covered = set()
        self.summ = {}
        self.jown = {}
        self.aowns = {}
        self.sowns = {}
        self.bowns = {}
        self.jkey = None
        self.jloop = False
        self.pat = {}
        self.rec = {}
        self.rec_used = set()
        self.tentative = set()
        self.tabmm = {}
        self.use_summaries = True
        self.summ_min_blocks = 10
        import models
        models.install(self)
        self.m_optrait = models.m_optrait
        self.panicking = models.PANICKING
        self._bool = next(i for i, t in enumerate(self.types) if t['k'] == 'bool')

    # ------------------------------------------------------------ atoms / syms
    def atom(self, key, lo=None, hi=None):
        i = self.akey.get(key)
        if i is None:
            i = len(self.atoms)
            self.akey[key] = i
            self.atoms.append((key, lo, hi))
        return i

    def booltype(self):
        return self._bool

    def tyrange(self, ti):
        t = self.types[ti]
        k = t['k']
        if k == 'int':
            n = t['bits']
            if t['signed']:
                return -(1 << (n - 1)), (1 << (n - 1)) - 1
            return 0, (1 << n) - 1
        if k == 'char':
            return 0, 0x10ffff
        if k == 'bool':
            return 0, 1
        return None

    def alin(self, key, lo=None, hi=None):
        return (0, ((self.atom(key, lo, hi), 1),))

    def lenlin(self, base):
        if base[0] == 'const':
            return L(len(base[1]))
        if base[0] == 'arrv':
            return L(len(base[1]))
        if base[0] == 'arrn':
            return L(base[2])
        return self.alin(('len', base), 0, LEN_MAX)

    def fullsl(self, base):
        return ('sl', base, L(0), self.lenlin(base))

    def sym(self, key, ti=None):
        """an opaque value of type ti named by key"""
        if ti is not None:
            t = self.types[ti]
            k = t['k']
            if k in ('int', 'char'):
                lo, hi = self.tyrange(ti)
                return ('i', self.alin(('v', key), lo, hi))
            if k == 'bool':
                return ('b', ('ne', self.alin(('v', key), 0, 1)))
            if k == 'ref':
                if t['mut']:
                    return ('ref', ('x', key, t['e']), ())
                return ('rv', self.sym(('*', key), t['e']))
            if k in ('slice', 'str'):
                return self.fullsl(('s', key))
            if k == 'array':
                if 'len' in t:
                    return ('sl', ('arrn', key, t['len']), L(0), L(t['len']))
                return self.fullsl(('s', key))
            if k == 'tuple':
                return ('agg', '()', 0, tuple(self.sym(('proj', key, 0, i), e) for i, e in enumerate(t['es'])))
            if k == 'adt':
                p = t['path']
                if p in ('std::vec::Vec', 'std::string::String'):
                    return ('agg', p, 0, (self.fullsl(('s', ('content', key))),))
                if p == 'std::boxed::Box':
                    return ('agg', p, 0, (self.sym(('*', key), t['args'][0]['t']),))
                if p == 'std::ops::Range' or p == 'std::ops::RangeInclusive':
                    return ('agg', p, 0, tuple(self.sym(('proj', key, 0, i), t['args'][0]['t']) for i in range(2)))
                if self.rules is not None:
                    v = self.rules.make_sym(self, key, ti, t)
                    if v is not None:
                        return v
            if k == 'closure' or k == 'fndef':
                if k == 'fndef':
                    return ('fnty', ti)
        i = self.skey.get(key)
        if i is None:
            i = len(self.syms)
            self.skey[key] = i
            self.syms.append((key, ti))
        return ('sym', i, ())

    # ------------------------------------------------------------ projections
    def discr_lin(self, sid, n=None):
        return self.alin(('discr', sid), 0, 255 if n is None else max(0, n - 1))

    def project(self, v, vi, fi, ti):
        k = v[0]
        if k == 'agg':
            if vi is not None and v[2] != vi and v[1] not in ('closure', '()'):
                return self.sym(('bad', vi, fi), ti)
            fs = v[3]
            if fi < len(fs):
                return fs[fi]
            return self.sym(('bad', vi, fi), ti)
        if k == 'sym':
            for (kk, val) in v[2]:
                if kk == (vi or 0, fi):
                    return val
            return self.sym(('proj', v[1], vi or 0, fi), ti)
        if k == 'rv':   # Box / NonNull style wrappers over a reference
            return v
        return self.sym(('projx', v, vi or 0, fi), ti)

    def deref_val(self, v, ti):
        if v[0] == 'rv':
            return v[1]
        if v[0] == 'agg' and v[1] == 'std::boxed::Box':
            return v[3][0]
        if v[0] == 'sym':
            return self.sym(('*', v[1]), ti)
        return self.sym(('*x', v), ti)

    def elem(self, v, idx, ti):
        """element idx (lin) of an array/slice value"""
        if v[0] == 'sl':
            base = v[1]
            at = ladd(v[2], idx)
            c = lconst(at)
            if c is not None:
                if base[0] == 'const' and 0 <= c < len(base[1]):
                    return ('i', L(base[1][c]))
                if base[0] == 'arrv' and 0 <= c < len(base[1]):
                    return base[1][c]
            if base[0] == 'arrv' and len(set(base[1])) == 1:
                return base[1][0]
            if base[0] == 'bits' and ladd(at, self.fullsl(base)[3], -1) == L(-1):
                # the last octet of a string of bits, base[2] of which are unused
                return ('i', ladd(lscale(self.alin(('used', base), 0, (1 << 8 - base[2]) - 1), 1 << base[2]),
                                  self.alin(('unused', base), 0, (1 << base[2]) - 1)))
            return self.sym(('elem', base, at), ti)
        if v[0] == 'agg' and v[1] == '[]':
            c = lconst(idx)
            if c is not None and 0 <= c < len(v[3]):
                return v[3][c]
            return self.sym(('elem', ('arrv', v[3]), idx), ti)
        return self.sym(('elemx', v, idx), ti)

    def as_slice(self, v):
        """the slice value denoted by an array / slice / Vec / String / Cow value, or None"""
        if v[0] == 'sl':
            return v
        if v[0] == 'agg':
            if v[1] == '[]':
                return ('sl', ('arrv', v[3]), L(0), L(len(v[3])))
            if v[1] in ('std::vec::Vec', 'std::string::String', 'std::boxed::Box'):
                return self.as_slice(v[3][0])
        if v[0] == 'rv':
            return self.as_slice(v[1])
        return None

    # ------------------------------------------------------------ bounds
    def interval(self, st, a):
        key, lo, hi = self.atoms[a]
        m = st.mask.get(a)
        if m is not None:
            if m == 0:
                return 1, 0
            return (m & -m).bit_length() - 1, m.bit_length() - 1
        if key[0] == 'tab':
            bm = self.bmask(st, key[1])
            r = self.tabmm.get((a, bm))
            if r is None:
                vals = self.tabvals(st, a)
                r = self.tabmm[(a, bm)] = (min(vals), max(vals)) if vals else (1, 0)
            return r
        r = st.iv.get(a)
        if r is not None:
            return r
        return lo, hi

    def tabvals(self, st, a):
        key = self.atoms[a][0]
        b, tab = key[1], key[2]
        m = self.bmask(st, b)
        return [tab[x] for x in range(len(tab)) if m >> x & 1]

    def bmask(self, st, b):
        m = st.mask.get(b)
        if m is None:
            key, lo, hi = self.atoms[b]
            r = st.iv.get(b)
            if r:
                lo, hi = r
            m = ((1 << (hi + 1)) - 1) & ~((1 << max(lo, 0)) - 1)
        return m

    def finite(self, a):
        key, lo, hi = self.atoms[a]
        if key[0] == 'tab':
            return key[1]
        if lo is not None and hi is not None and lo >= 0 and hi <= 255:
            return a
        return None

    def fbase(self, lin):
        """the single finite base atom lin depends on, or None"""
        b = None
        if not lin[1] or len(lin[1]) > 4:
            return None
        for a, c in lin[1]:
            f = self.finite(a)
            if f is None or (b is not None and f != b):
                return None
            b = f
        return b

    def feval(self, lin, x):
        r = lin[0]
        for a, c in lin[1]:
            key = self.atoms[a][0]
            r += c * (key[2][x] if key[0] == 'tab' else x)
        return r

    def sup_iv(self, st, lin):
        r = lin[0]
        if len(lin[1]) > 1:
            b = self.fbase(lin)
            if b is not None:
                m = self.bmask(st, b)
                vs = [self.feval(lin, x) for x in range(m.bit_length()) if m >> x & 1]
                return max(vs) if vs else None
        for a, c in lin[1]:
            lo, hi = self.interval(st, a)
            e = hi if c > 0 else lo
            if e is None:
                return None
            r += c * e
        return r

    def sup(self, st, lin, depth=3, goal=None):
        """an upper bound of lin in st, or None; goal: any bound <= goal will do"""
        if not lin[1]:
            return lin[0]
        best = self.sup_iv(st, lin)
        if goal is not None and best is not None and best <= goal:
            return best
        d = st.ub.get(lin[1])
        if d is not None:
            x = lin[0] + d
            if best is None or x < best:
                best = x
        if depth > 0:
            terms = dict(lin[1])
            ub = st.ub
            ix = ub.index()
            cand = set()
            for a, c in lin[1]:
                cand.update(ix.get((a, c > 0), ()))
            for coefs in cand:
                bound = ub[coefs]
                # use coefs.x <= bound to cancel one atom of lin
                k = None
                for a, c in coefs:
                    c2 = terms.get(a)
                    if c2 is not None and (c2 > 0) == (c > 0) and c2 % c == 0:
                        k = c2 // c
                        break
                if k is None or coefs == lin[1]:
                    continue
                rest = ladd((lin[0] + k * bound, lin[1]), (0, coefs), -k)
                if len(rest[1]) > len(lin[1]) + 1:
                    continue
                x = self.sup(st, rest, depth - 1, goal)
                if x is not None and (best is None or x < best):
                    best = x
                    if goal is not None and best <= goal:
                        return best
        return best

    def le0(self, st, lin):
        """lin <= 0 is implied"""
        if not lin[1]:
            return lin[0] <= 0
        s = self.sup(st, lin, 3, 0)
        return s is not None and s <= 0

    # ------------------------------------------------------------ conditions
    def cond_lin(self, op, a, b):
        if op == 'Lt':
            return ('le', ladd(ladd(a, b, -1), L(1)))
        if op == 'Le':
            return ('le', ladd(a, b, -1))
        if op == 'Gt':
            return ('le', ladd(ladd(b, a, -1), L(1)))
        if op == 'Ge':
            return ('le', ladd(b, a, -1))
        if op == 'Eq':
            return ('eq', ladd(a, b, -1))
        return ('ne', ladd(a, b, -1))

    def neg(self, c):
        k = c[0]
        if k == 'c':
            return ('c', not c[1])
        if k == 'le':
            return ('le', ladd(lneg(c[1]), L(1)))
        if k == 'eq':
            return ('ne', c[1])
        if k == 'ne':
            return ('eq', c[1])
        if k == 'and':
            return ('or', self.neg(c[1]), self.neg(c[2]))
        if k == 'or':
            return ('and', self.neg(c[1]), self.neg(c[2]))
        if k == 'all':
            return ('notall',) + c[1:]
        if k == 'notall':
            return ('all',) + c[1:]
        return c

    def holds(self, st, c):
        """True / False / None"""
        k = c[0]
        if k == 'c':
            return c[1]
        if k == 'le':
            if self.le0(st, c[1]):
                return True
            if self.le0(st, ladd(lneg(c[1]), L(1))):
                return False
            return None
        if k in ('eq', 'ne'):
            r = self.holds_eq(st, c[1])
            if r is None:
                return None
            return r if k == 'eq' else not r
        if k == 'and':
            a, b = self.holds(st, c[1]), self.holds(st, c[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == 'or':
            a, b = self.holds(st, c[1]), self.holds(st, c[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        if k == 'all':
            f = st.forall.get(c[1])
            if f is not None and f & ~c[2] == 0:
                return True
        return None

    def holds_eq(self, st, lin):
        if not lin[1]:
            return lin[0] == 0
        b = self.fbase(lin)
        if b is not None:
            m = self.bmask(st, b)
            t = f = False
            for x in range(m.bit_length()):
                if m >> x & 1:
                    if self.feval(lin, x) == 0:
                        t = True
                    else:
                        f = True
            if t and not f:
                return True
            if f and not t:
                return False
            return None
        nl = lneg(lin)
        if lin in st.ne or nl in st.ne:
            return False
        if self.le0(st, ladd(lin, L(1))) or self.le0(st, ladd(nl, L(1))):
            return False
        if self.le0(st, lin) and self.le0(st, nl):
            return True
        return None

    def assume(self, st, c):
        """states refining st in which c holds (a fresh copy is returned when it is refined)"""
        k = c[0]
        if k == 'c':
            return [st] if c[1] else []
        if k == 'top':
            return [st]
        if k == 'and':
            out = []
            for s in self.assume(st, c[1]):
                out += self.assume(s, c[2])
            return out
        if k == 'or':
            out = self.assume(st, c[1])
            for s in self.assume(st, self.neg(c[1])):
                out += self.assume(s, c[2])
            return out
        if k == 'all':
            s = st.copy()
            s.forall[c[1]] = s.forall.get(c[1], -1) & c[2] if c[1] in s.forall else c[2]
            return [s]
        if k == 'notall':
            f = st.forall.get(c[1])
            if f is not None and f & ~c[2] == 0:
                return []
            return [st]
        r = self.holds(st, c)
        if r is True:
            return [st]
        if r is False:
            return []
        s = st.copy()
        if k == 'le':
            return [s] if self.add_le(s, c[1]) else []
        if k == 'eq':
            return [s] if self.add_eq(s, c[1]) else []
        if k == 'ne':
            return [s] if self.add_ne(s, c[1]) else []
        raise AssertionError(c)

    def restrict(self, s, b, pred):
        m = self.bmask(s, b)
        n = 0
        for x in range(m.bit_length()):
            if m >> x & 1 and pred(x):
                n |= 1 << x
        s.mask[b] = n
        return n != 0

    def add_le(self, s, lin):
        b = self.fbase(lin)
        if b is not None:
            return self.restrict(s, b, lambda x: self.feval(lin, x) <= 0)
        if len(lin[1]) == 1:
            (a, c), = lin[1]
            lo, hi = self.interval(s, a)
            # c*a <= -const
            if c > 0:
                m = (-lin[0]) // c
                if hi is None or m < hi:
                    hi = m
            else:
                m = -((-lin[0]) // (-c))  # a >= ceil(const/-c)
                m = -((-lin[0]) // -c) if False else -(-lin[0] // -c)
                # a >= ceil(lin[0] / -c)
                m = -((-lin[0]) // (-c))
                if lo is None or m > lo:
                    lo = m
            s.iv[a] = (lo, hi)
            return not (lo is not None and hi is not None and lo > hi)
        ub = -lin[0]
        old = s.ub.get(lin[1])
        if old is None or ub < old:
            s.ub[lin[1]] = ub
        # propagate to intervals of two-atom constraints
        for a, c in lin[1]:
            rest = ladd(lin, (0, ((a, c),)), -1)
            # c*a <= -rest ; use inf(rest) -> -sup(-rest)
            m = self.sup_iv(s, lneg(rest))
            if m is None or self.finite(a) is not None:
                continue
            lo, hi = self.interval(s, a)
            if c > 0:
                v = m // c
                if hi is None or v < hi:
                    s.iv[a] = (lo, v)
            else:
                v = -(m // -c)
                if lo is None or v > lo:
                    s.iv[a] = (v, hi)
            lo, hi = self.interval(s, a)
            if lo is not None and hi is not None and lo > hi:
                return False
        return True

    def add_eq(self, s, lin):
        b = self.fbase(lin)
        if b is not None:
            return self.restrict(s, b, lambda x: self.feval(lin, x) == 0)
        return self.add_le(s, lin) and self.add_le(s, lneg(lin))

    def add_ne(self, s, lin):
        b = self.fbase(lin)
        if b is not None:
            return self.restrict(s, b, lambda x: self.feval(lin, x) != 0)
        # boundary refinement
        if self.le0(s, lin):
            return self.add_le(s, ladd(lin, L(1)))
        if self.le0(s, lneg(lin)):
            return self.add_le(s, ladd(lneg(lin), L(1)))
        s.ne = s.ne | {lin}
        return True

    def entails(self, st, c):
        return self.holds(st, c) is True

    # ------------------------------------------------------------ values
    def vbool(self, v):
        if v[0] == 'b':
            return v[1]
        if v[0] == 'i':
            return ('ne', v[1])
        return ('ne', self.alin(('asbool', v), 0, 1))

    def vint(self, v, ti=None):
        if v[0] == 'i':
            return v[1]
        if v[0] == 'b':
            c = v[1]
            if c[0] == 'c':
                return L(1 if c[1] else 0)
            if c[0] == 'ne' and c[1][1] and len(c[1][1]) == 1 and c[1][0] == 0 and c[1][1][0][1] == 1 \
                    and self.atoms[c[1][1][0][0]][2] == 1:
                return c[1]
            return self.alin(('bool', c), 0, 1)
        r = self.tyrange(ti) if ti is not None else None
        lo, hi = r if r else (None, None)
        return self.alin(('asint', v, ti), lo, hi)

    def fresh(self, fid, tag, ti=None):
        return self.sym(('site', fid, tag), ti)

    def folded(self, st, lin):
        """byte-valued atoms known to be a single value replaced by it"""
        if not lin[1]:
            return lin
        c, rest, extra = lin[0], [], L(0)
        for a, k in lin[1]:
            if a in st.mask or self.atoms[a][0][0] == 'tab':
                lo, hi = self.interval(st, a)
                if lo == hi and lo is not None:
                    c += k * lo
                    continue
                if self.atoms[a][0][0] == 'tab':
                    b = self.atoms[a][0][1]
                    m = st.mask.get(b)
                    if m is not None:
                        r = self.affine(a, m)
                        if r is not None:
                            c += k * r[0]
                            extra = ladd(extra, (0, ((b, r[1]),)), k)
                            continue
            rest.append((a, k))
        if len(rest) == len(lin[1]):
            return lin
        return ladd((c, tuple(rest)), extra)

    def affine(self, a, m):
        """(c, k) with table atom a == c + k * base for every base value in the mask"""
        r = self.affines.get((a, m), 0)
        if r == 0:
            tab = self.atoms[a][0][2]
            xs = [x for x in range(len(tab)) if m >> x & 1]
            r = None
            if len(xs) >= 2:
                k, rem = divmod(tab[xs[1]] - tab[xs[0]], xs[1] - xs[0])
                if rem == 0 and k and all(tab[x] == tab[xs[0]] + k * (x - xs[0]) for x in xs):
                    r = (tab[xs[0]] - k * xs[0], k)
            self.affines[(a, m)] = r
        return r

    def granule(self, a, c):
        k = self.atoms[a][0]
        if k[0] == 'tab':
            c *= math.gcd(*k[2])
        return c

    def clampfits(self, st, lin, lo, hi):
        return self.le0(st, ladd(lin, L(-hi))) and self.le0(st, ladd(lneg(lin), L(lo)))

    def tab_of(self, lin, fn, bits=None):
        """lin is over one finite base: build fn(lin) as table over it"""
        b = self.fbase(lin)
        lo, hi = self.atoms[b][1], self.atoms[b][2]
        tab = tuple(fn(self.feval(lin, x)) for x in range(hi + 1))
        if all(t == tab[0] for t in tab):
            return L(tab[0])
        k = tab[1] - tab[0] if len(tab) > 1 else 1
        if k > 0 and all(t == tab[0] + k * n for n, t in enumerate(tab)):
            return (tab[0], ((b, k),))
        return self.alin(('tab', b, tab), min(tab), max(tab))

    def binop(self, st, op, a, b, ti, fid, tag):
        """a, b values; ti result/operand int type"""
        la, lb = self.vint(a, ti), self.vint(b, ti)
        if self.peel:
            la, lb = self.folded(st, la), self.folded(st, lb)
        r = self.tyrange(ti)
        ca, cb = lconst(la), lconst(lb)
        if r is None:
            return self.sym(('op', op, a, b), ti)
        lo, hi = r
        bits = self.types[ti].get('bits', 64)

        def wrap(x):
            if lo <= x <= hi:
                return x
            x &= (1 << bits) - 1
            if lo < 0 and x >> (bits - 1):
                x -= 1 << bits
            return x

        def pyop(x, y):
            if op in ('Add', 'AddUnchecked'):
                return wrap(x + y)
            if op in ('Sub', 'SubUnchecked'):
                return wrap(x - y)
            if op in ('Mul', 'MulUnchecked'):
                return wrap(x * y)
            if op == 'BitAnd':
                return wrap(x & y)
            if op == 'BitOr':
                return wrap(x | y)
            if op == 'BitXor':
                return wrap(x ^ y)
            if op in ('Shl', 'ShlUnchecked'):
                return wrap(x << (y % bits))
            if op in ('Shr', 'ShrUnchecked'):
                return wrap(x >> (y % bits))
            if op == 'Div':
                if y == 0:
                    return 0
                q = abs(x) // abs(y)
                return wrap(q if (x < 0) == (y < 0) else -q)
            if op == 'Rem':
                if y == 0:
                    return 0
                q = abs(x) % abs(y)
                return -q if x < 0 else q
            raise Cut(op)
        if ca is not None and cb is not None:
            return ('i', L(pyop(ca, cb)))
        if cb is not None and cb > 0 and (op == 'Rem' or op == 'BitAnd' and cb & (cb + 1) == 0):
            k = cb + (op == 'BitAnd')
            src = self.untrunc(la, k)
            sp = self.split(st, src, k) if src is not la else None
            if sp:
                return ('i', sp[1])
        if cb is not None and self.fbase(la) is not None and op not in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked'):
            return ('i', self.tab_of(la, lambda x: pyop(x, cb)))
        if ca is not None and self.fbase(lb) is not None and op not in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked'):
            return ('i', self.tab_of(lb, lambda y: pyop(ca, y)))
        if op in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked'):
            res = ladd(la, lb, 1 if op.startswith('Add') else -1)
            if self.clampfits(st, res, lo, hi):
                return ('i', res)
            return ('i', self.alin(('op', op, la, lb, ti), lo, hi))
        if op.startswith('Mul'):
            if cb is not None or ca is not None:
                res = lscale(la, cb) if cb is not None else lscale(lb, ca)
                if self.clampfits(st, res, lo, hi):
                    return ('i', res)
            res = self.alin(('op', 'Mul', la, lb, ti), lo, hi)
            return ('i', res)
        sa, ia = self.sup(st, la), self.sup(st, lneg(la))
        ia = -ia if ia is not None else None
        sb, ib = self.sup(st, lb), self.sup(st, lneg(lb))
        ib = -ib if ib is not None else None
        key = ('op', op, la, lb, ti)
        if op == 'BitAnd':
            for cx, ix, sx in ((cb, ia, sa), (ca, ib, sb)):
                if cx is not None and cx > 0 and ix is not None and ix >= 0 and sx is not None \
                        and cx % (1 << sx.bit_length()) == 0:
                    return ('i', L(0))      # no bit in common
            for cx, lx, ix in ((cb, la, ia), (ca, lb, ib)):
                # the lower bits of x: what is not a multiple of 2^n
                if cx is not None and cx > 0 and cx & (cx + 1) == 0 and ix is not None and ix >= 0:
                    sp = self.split(st, self.untrunc(lx, cx + 1), cx + 1)
                    if sp:
                        return ('i', sp[1])
            for cx, lx, ix, sx in ((cb, la, ia, sa), (ca, lb, ib, sb)):
                # the upper bits of x: 2^n * (x >> n)
                if cx is not None and cx > 0 and lo == 0 and ix is not None and ix >= 0:
                    n = (cx & -cx).bit_length() - 1
                    if n and cx == (1 << bits) - (1 << n):
                        return ('i', lscale(self.binop_shr(st, lx, ix, sx, n, ti, lo, hi), 1 << n))
            res = self.alin(key, lo, hi)
            a0 = res[1][0][0]
            m = None
            if ib is not None and ib >= 0 and sb is not None:
                m = sb
                if cb is None:
                    self.add_le(st, ladd(res, lb, -1))
            if ia is not None and ia >= 0 and sa is not None:
                m = sa if m is None else min(m, sa)
                self.add_le(st, ladd(res, la, -1))
            if m is not None:
                st.iv[a0] = (0, m)
            return ('i', res)
        if op in ('BitOr', 'BitXor'):
            # operands without common bits: the sum
            for lx, ix, ly, sy in ((la, ia, lb, sb), (lb, ib, la, sa)):
                iy = ia if ly is la else ib
                if ix is not None and iy is not None and (ix >= 0 or lo < 0) and iy >= 0 and sy is not None:
                    k = 1 << sy.bit_length()
                    if lx[0] % k == 0 and all(c % k == 0 or self.granule(a, c) % k == 0 for a, c in lx[1]):
                        q = ladd(lx, ly)
                        if self.clampfits(st, q, lo, hi):
                            return ('i', q)
            res = self.alin(key, lo, hi)
            if ia is not None and ib is not None and ia >= 0 and ib >= 0 and sa is not None and sb is not None:
                n = max(sa, sb).bit_length()
                st.iv[res[1][0][0]] = (max(ia, ib) if op == 'BitOr' else 0, (1 << n) - 1)
                if op == 'BitOr':
                    self.add_le(st, ladd(la, res, -1))
                    self.add_le(st, ladd(lb, res, -1))
            return ('i', res)
        if op in ('Shr', 'ShrUnchecked'):
            if cb == 0:
                return ('i', la)
            if cb is not None and 0 < cb < bits and ia is not None and ia >= 0:
                return ('i', self.binop_shr(st, la, ia, sa, cb, ti, lo, hi))
            res = self.alin(key, lo, hi)
            if ia is not None and ia >= 0 and sa is not None:
                s0 = max(ib or 0, 0)
                st.iv[res[1][0][0]] = (ia >> (sb if sb is not None and 0 <= sb < bits else bits - 1),
                                       sa >> min(s0, bits - 1))
                self.add_le(st, ladd(res, la, -1))
            return ('i', res)
        if op in ('Shl', 'ShlUnchecked'):
            res = self.alin(key, lo, hi)
            if cb is not None and 0 <= cb < bits and ia is not None and sa is not None \
                    and sa << cb <= hi and ia << cb >= lo:
                return ('i', lscale(la, 1 << cb))
            return ('i', res)
        if op in ('Div', 'Rem') and cb is not None and cb > 0 and ia is not None and ia >= 0:
            sp = self.split(st, self.untrunc(la, cb) if op == 'Rem' else la, cb)
            if sp:
                return ('i', sp[0] if op == 'Div' else sp[1])
        if op == 'Div':
            res = self.alin(key, lo, hi)
            if cb is not None and cb > 0 and ia is not None and ia >= 0:
                st.iv[res[1][0][0]] = (ia // cb, sa // cb if sa is not None else hi)
                self.add_le(st, ladd(lscale(res, cb), la, -1))
                self.add_le(st, ladd(ladd(la, lscale(res, cb), -1), L(-(cb - 1))))
            elif ia is not None and ia >= 0 and ib is not None and ib >= 1:
                self.add_le(st, ladd(res, la, -1))
                st.iv[res[1][0][0]] = (0, sa if sa is not None else hi)
            return ('i', res)
        if op == 'Rem':
            res = self.alin(key, lo, hi)
            if ia is not None and ia >= 0:
                if sb is not None and ib is not None and ib >= 1:
                    st.iv[res[1][0][0]] = (0, min(sb - 1, sa if sa is not None else sb - 1))
                self.add_le(st, ladd(res, la, -1))
            elif sb is not None and ib is not None and ib >= 1:
                st.iv[res[1][0][0]] = (-(sb - 1), sb - 1)
            return ('i', res)
        return ('i', self.alin(key, lo, hi))

    def untrunc(self, la, k):
        """a number with the same remainder by k as la: the source of a conversion to a narrower type"""
        if la[0] == 0 and len(la[1]) == 1 and la[1][0][1] == 1:
            key = self.atoms[la[1][0][0]][0]
            if key[0] == 'trunc' and key[2] == 0 and (key[3] + 1) % k == 0:
                return key[1]
        return la

    def split(self, st, la, k):
        """la as k * high + low with 0 <= low < k, when its terms fall apart that way -> (high, low)"""
        hi = tuple((a, c // k) for a, c in la[1] if c % k == 0)
        lw = (la[0] % k, tuple((a, c) for a, c in la[1] if c % k))
        if not lw[1] or self.clampfits(st, lw, 0, k - 1):
            return (la[0] // k, hi), lw
        return None

    def binop_shr(self, st, la, ia, sa, n, ti, lo, hi):
        """la >> n of a number that is not negative"""
        k = 1 << n
        sp = self.split(st, la, k)
        if sp:
            return sp[0]
        res = self.alin(('op', 'Shr', la, L(n), ti), lo, hi)
        st.iv[res[1][0][0]] = (ia >> n, sa >> n if sa is not None else hi >> n)
        self.add_le(st, ladd(lscale(res, k), la, -1))
        self.add_le(st, ladd(ladd(la, lscale(res, k), -1), L(-(k - 1))))
        return res

    # ------------------------------------------------------------ places
    def getcell(self, st, c):
        v = st.cells.get(c)
        if v is None:
            if c[0] == 'x':
                return self.sym(('*', c[1]), c[2])
            return ('sym', self.symid(('undef', c)), ())
        return v

    def symid(self, key):
        i = self.skey.get(key)
        if i is None:
            i = len(self.syms)
            self.skey[key] = i
            self.syms.append((key, None))
        return i

    def resolve(self, st, fid, place, body):
        """-> ('cell', c, path) or ('val', v, path)"""
        loc = ('cell', (fid, place['l']))
        path = ()
        vi = None
        for e in place['p']:
            k = e[0]
            if k == 'deref':
                v = self.read(st, loc, path)
                if v[0] == 'ref':
                    loc, path = ('cell', v[1]), v[2]
                elif v[0] == 'agg' and v[1] == 'std::boxed::Box':
                    path = path + (('f', None, 0, None),)
                else:
                    loc, path = ('val', self.deref_val(v, None) if v[0] != 'sym' else v), \
                        (() if v[0] != 'sym' else (('d',),))
                vi = None
            elif k == 'field':
                path = path + (('f', vi, e[1], e[2]),)
                vi = None
            elif k == 'downcast':
                vi = e[1]
            elif k == 'index':
                iv = self.getcell(st, (fid, e[1]))
                path = path + (('ix', self.vint(iv)),)
            elif k == 'cidx':
                path = path + (('cx', e[1], e[2], e[3]),)
            elif k == 'subslice':
                path = path + (('ss', e[1], e[2], e[3]),)
            else:
                path = path + (('o', str(e)),)
        return loc, path

    def step(self, v, e, ti):
        k = e[0]
        if k == 'f':
            return self.project(v, e[1], e[2], e[3] if e[3] is not None else ti)
        if k == 'd':
            return self.deref_val(v, ti)
        if k == 'ix':
            return self.elem(v, e[1], ti)
        if k == 'cx':
            s = self.as_slice(v)
            if s is None:
                return self.sym(('cx', v, e), ti)
            idx = L(e[1]) if not e[3] else ladd(ladd(s[3], s[2], -1), L(-e[1]))
            return self.elem(s, idx, ti)
        if k == 'ss':
            s = self.as_slice(v)
            if s is None:
                return self.sym(('ss', v, e), ti)
            st_, en = ladd(s[2], L(e[1])), (ladd(s[3], L(-e[2])) if e[3] else ladd(s[2], L(e[2])))
            return ('sl', s[1], st_, en)
        return self.sym(('o', v, e), ti)

    def read(self, st, loc, path, ti=None):
        v = self.getcell(st, loc[1]) if loc[0] == 'cell' else loc[1]
        n = len(path)
        for i, e in enumerate(path):
            # types of intermediate steps: next field's own type is known from the place
            v = self.step(v, e, ti if i == n - 1 else None)
        return v

    def readp(self, st, fid, place, body):
        loc, path = self.resolve(st, fid, place, body)
        return self.read(st, loc, path, place['t'])

    def set_in(self, v, path, nv):
        if not path:
            return nv
        e = path[0]
        if e[0] == 'f':
            if v[0] == 'agg' and (e[1] is None or e[1] == v[2]) and e[2] < len(v[3]):
                fs = list(v[3])
                fs[e[2]] = self.set_in(fs[e[2]], path[1:], nv)
                return ('agg', v[1], v[2], tuple(fs))
            if v[0] == 'sym':
                kk = (e[1] or 0, e[2])
                old = self.project(v, e[1], e[2], e[3])
                ov = tuple(x for x in v[2] if x[0] != kk) + ((kk, self.set_in(old, path[1:], nv)),)
                return ('sym', v[1], tuple(sorted(ov, key=lambda x: x[0])))
            return v
        if e[0] == 'ss' and v[0] == 'agg' and v[1] == '[]' and not e[3]:
            ns = self.as_slice(self.set_in(('agg', '[]', 0, v[3][e[1]:e[2]]), path[1:], nv))
            if ns is not None and ns[1][0] == 'arrv' and lconst(ns[2]) == 0:
                return ('agg', '[]', 0, v[3][:e[1]] + ns[1][1] + v[3][e[2]:])
            u8 = next(i for i, t in enumerate(self.types) if t['s'] == 'u8')
            known = all(x[0] == 'i' for x in v[3])
            mid = tuple(self.elem(ns, L(i), u8) if ns is not None and known else
                        ('sym', self.symid(('upd', v, e, nv, i)), ()) for i in range(e[2] - e[1]))
            return ('agg', '[]', 0, v[3][:e[1]] + mid + v[3][e[2]:])
        if e[0] in ('ix', 'cx'):
            s = self.as_slice(v)
            if v[0] == 'agg' and v[1] == '[]':
                c = lconst(e[1]) if e[0] == 'ix' else (e[1] if not e[3] else len(v[3]) - e[1])
                fs = list(v[3])
                if c is not None and 0 <= c < len(fs):
                    fs[c] = self.set_in(fs[c], path[1:], nv)
                    return ('agg', '[]', 0, tuple(fs))
            if s is not None:
                n = lconst(ladd(s[3], s[2], -1))
                key = ('upd', s, e, nv)
                if n is not None:
                    return ('sl', ('arrn', key, n), L(0), L(n))
                b = ('upd', self.symid(key))
                return ('sl', b, L(0), ladd(s[3], s[2], -1))
            return ('sym', self.symid(('upd', v, e, nv)), ())
        return ('sym', self.symid(('upd', v, e, nv)), ())

    def write(self, st, loc, path, nv):
        if loc[0] == 'cell':
            old = self.getcell(st, loc[1]) if path else None
            st.cells[loc[1]] = self.set_in(old, path, nv) if path else nv
        # writes through an opaque pointer have no tracked target

    def assign(self, st, fid, place, nv, body):
        loc, path = self.resolve(st, fid, place, body)
        self.write(st, loc, path, nv)

    def havoc_ref(self, st, v, fid, tag):
        """v was handed out mutably: forget what it points to"""
        if v[0] == 'ref':
            loc = ('cell', v[1])
            old = self.read(st, loc, v[2])
            self.write(st, loc, v[2], ('sym', self.symid(('havoc', fid, tag, old[0])), ()) if not self.keeps_type(old)
                       else self.havoc_val(old, ('havoc', fid, tag)))
        elif v[0] == 'agg':
            for i, f in enumerate(v[3]):
                self.havoc_ref(st, f, fid, (tag, i))
        elif v[0] == 'sym':
            for kk, val in v[2]:
                self.havoc_ref(st, val, fid, (tag, kk))

    def keeps_type(self, v):
        return v[0] in ('i', 'b', 'agg', 'sl')

    def havoc_val(self, v, key):
        if v[0] == 'i':
            lo = hi = None
            if len(v[1][1]) == 1:
                _, lo, hi = self.atoms[v[1][1][0][0]]
            return ('i', self.alin(('v', key), None, None))
        if v[0] == 'b':
            return ('b', ('ne', self.alin(('v', key), 0, 1)))
        if v[0] == 'sl':
            n = lconst(ladd(v[3], v[2], -1))
            if v[1][0] in ('arrv', 'arrn') and n is not None:
                return ('sl', ('arrn', key, n), L(0), L(n))
            return self.fullsl(('s', key))
        if v[0] == 'agg':
            if v[1] == '[]':
                return ('sl', ('arrn', key, len(v[3])), L(0), L(len(v[3])))
            if v[1] in ('std::vec::Vec', 'std::string::String'):
                return ('agg', v[1], 0, (self.fullsl(('s', key)),))
        return ('sym', self.symid(key), ())

    # ------------------------------------------------------------ operands / rvalues
    def const_val(self, c, fid, fr):
        if 'fn' in c:
            return ('fn', Fn(c['fn']))
        if 'promoted' in c:
            return self.promoted(fr, c['promoted'], c['t'])
        t = self.types[c['t']]
        if 'v' in c:
            n = int(c['v'])
            if t['k'] == 'bool':
                return ('b', ('c', n != 0))
            if t['k'] in ('int', 'char'):
                if t['k'] == 'int' and t['signed'] and n >= 1 << (t['bits'] - 1):
                    n -= 1 << t['bits']
                return ('i', L(n))
            if t['k'] == 'adt':
                a = self.F.adts.get(t['path'])
                if a is not None:
                    if a['enum']:
                        for i, v in enumerate(a['variants']):
                            if int(v['discr']) == n and not v['fields']:
                                return ('agg', t['path'], i, ())
                    elif len(a['variants'][0]['fields']) == 1:
                        ft = a['variants'][0]['fields'][0]['t']
                        if self.types[ft]['k'] == 'int':
                            return ('agg', t['path'], 0, (('i', L(n)),))
            return ('sym', self.symid(('cv', t['s'], n)), ())
        if 'bytes' in c:
            return ('rv', self.fullsl(('const', tuple(c['bytes']))))
        if c.get('zst') or t['k'] == 'tuple' and not t['es']:
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'fndef':
                return ('fnty', c['t'])
            if t['k'] == 'adt':
                return ('agg', t['path'], 0, ())
        if 'tyconst' in c and self.tyconsts and c['tyconst'] in self.tyconsts:
            return ('i', L(self.tyconsts[c['tyconst']]))
        if 'tyconst' in c:
            return self.sym(('tyconst', c['tyconst'], fr.inst.env if fr else 0), c['t'])
        if 'path' in c:
            f = self.F.fns.get(c['path'])
            if self.tyconsts and 'res' in c:
                f = self.F.fns.get(c['res'])
            if f is not None and f.get('body') and f['kind'] in ('const', 'static'):
                v = self.const_body(f, c['t'])
                if v is not None:
                    return v
            return self.sym(('const', c.get('full', c['path']), fr.inst.env if fr else 0), c['t'])
        if c.get('opaque') and str(c.get('s', '')).startswith('b"'):
            try:        # a byte string literal behind a reference
                return ('rv', self.fullsl(('const', tuple(ast.literal_eval(c['s'])))))
            except (SyntaxError, ValueError):
                pass
        return self.sym(('const', c.get('s', '?'), t['s']), c['t'])

    def const_body(self, f, ti):
        """the value of a constant whose initialiser is straight-line"""
        key = ('constbody', f['path'])
        if key in self.promo:
            return self.promo[key]
        self.promo[key] = None
        i = Inst()
        i.id = -1
        i.path = i.full = f['path']
        i.local = True
        i.body = f['body']
        i.promoted = f['promoted']
        i.args = []
        i.env = 0
        i.kind = 'const'
        v = self.straight(i, f['body'])
        self.promo[key] = v
        return v

    def straight(self, inst, body):
        if any(b['t']['k'] not in ('return', 'goto', 'resume', 'assert', 'call') for b in body['blocks']):
            return None
        st = State()
        fid = ('c', inst.path)
        fr = Frame(inst, fid, 0)
        b = 0
        for _ in range(50):
            bb = body['blocks'][b]
            for pl, rv, sp in bb['s']:
                v = self.rvalue(st, fr, rv, pl, body, ('s', b))
                self.assign(st, fid, pl, v, body)
            t = bb['t']
            if t['k'] == 'return':
                v = self.getcell(st, (fid, 0))
                return self.freeze(st, v)
            if t['k'] in ('goto', 'assert'):
                b = t['to']
                continue
            fd = (t.get('f') or {}).get('c', {}).get('fn') if t['k'] == 'call' else None
            if fd and fd['path'] in CONST_CALLS and t.get('to') is not None:
                v = ('agg', 'std::ops::RangeInclusive', 0, tuple(self.operand(st, fr, a) for a in t['args']) + (('b', ('c', False)),))
                self.assign(st, fid, t['dest'], v, body)
                b = t['to']
                continue
            if fd and fd.get('inst') is not None and self.F.insts[fd['inst']].get('body') and t.get('to') is not None:
                args = [self.operand(st, fr, a) for a in t['args']]
                out = self.run_inst(fd['inst'], args, st.copy(), self.newfid(0, ('const', inst.path, b)))
                if len(out) == 1:
                    self.assign(st, fid, t['dest'], self.freeze(out[0][0], out[0][1]), body)
                    b = t['to']
                    continue
            return None
        return None

    def freeze(self, st, v):
        """replace references to the frame's cells by their values"""
        if v[0] == 'ref':
            return ('rv', self.freeze(st, self.read(st, ('cell', v[1]), v[2])))
        if v[0] == 'rv':
            return ('rv', self.freeze(st, v[1]))
        if v[0] == 'agg':
            return ('agg', v[1], v[2], tuple(self.freeze(st, f) for f in v[3]))
        return v

    def promoted(self, fr, n, ti):
        key = (fr.inst.id, fr.inst.path, n)
        if key in self.promo:
            return self.promo[key]
        self.promo[key] = self.sym(('promoted',) + key, ti)
        p = fr.inst.promoted
        if n < len(p) and p[n]:
            v = self.straight(fr.inst, p[n])
            if v is not None:
                self.promo[key] = v
        return self.promo[key]

    def operand(self, st, fr, o):
        if 'cp' in o:
            return self.readp(st, fr.fid, o['cp'], fr.inst.body)
        if 'mv' in o:
            return self.readp(st, fr.fid, o['mv'], fr.inst.body)
        if 'c' in o:
            return self.const_val(o['c'], fr.fid, fr)
        return self.fresh(fr.fid, ('oper', str(o)))

    def optype(self, o):
        if 'c' in o:
            return o['c']['t']
        return (o.get('cp') or o.get('mv'))['t']

    def rvalue(self, st, fr, r, pl, body, tag):
        k = r[0]
        ti = pl['t']
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            loc, path = self.resolve(st, fr.fid, r[2], body)
            if r[1]:
                if loc[0] == 'cell':
                    return ('ref', loc[1], path)
                v = self.read(st, loc, path, r[2]['t'])
                return ('rv', v)
            return ('rv', self.read(st, loc, path, r[2]['t']))
        if k == 'rawptr':
            loc, path = self.resolve(st, fr.fid, r[1], body)
            return ('rv', self.read(st, loc, path, r[1]['t']))
        if k == 'cast':
            return self.cast(st, fr, r, ti, tag)
        if k == 'bin':
            op = r[1]
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            ot = self.optype(r[2])
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                tk = self.types[ot]['k']
                if tk == 'bool' and op in ('Eq', 'Ne'):
                    ca, cb = self.vbool(a), self.vbool(b)
                    for x, y in ((ca, cb), (cb, ca)):
                        if y[0] == 'c':
                            c = x if y[1] else self.neg(x)
                            return ('b', c if op == 'Eq' else self.neg(c))
                    c = ('eq', ladd(self.vint(a), self.vint(b), -1))
                    return ('b', c if op == 'Eq' else self.neg(c))
                if self.tyrange(ot) is not None:
                    return ('b', self.simp(self.cond_lin(op, self.vint(a, ot), self.vint(b, ot))))
                return ('b', ('ne', self.alin(('cmp', op, a, b), 0, 1)))
            if op.endswith('WithOverflow'):
                base = op[:-len('WithOverflow')]
                la, lb = self.vint(a, ot), self.vint(b, ot)
                lo, hi = self.tyrange(ot)
                if base == 'Mul':
                    ca, cb = lconst(la), lconst(lb)
                    if cb is not None:
                        ex = lscale(la, cb)
                    elif ca is not None:
                        ex = lscale(lb, ca)
                    else:
                        ex = self.mulatom(st, la, lb)
                else:
                    ex = ladd(la, lb, 1 if base == 'Add' else -1)
                ov = ('or', ('le', ladd(L(hi + 1), ex, -1)), ('le', ladd(ex, L(1 - lo))))
                return ('agg', '()', 0, (('i', ex), ('b', self.simp(ov))))
            if self.types[ot]['k'] == 'bool':
                ca, cb = self.vbool(a), self.vbool(b)
                if op == 'BitAnd':
                    return ('b', self.simp(('and', ca, cb)))
                if op == 'BitOr':
                    return ('b', self.simp(('or', ca, cb)))
                if op == 'BitXor':
                    return ('b', ('or', ('and', ca, self.neg(cb)), ('and', self.neg(ca), cb)))
            if op == 'Offset' or self.tyrange(ot) is None:
                return self.sym(('op', op, a, b), ti)
            try:
                return self.binop(st, op, a, b, ot, fr.fid, tag)
            except Cut:
                return self.sym(('op', op, a, b), ti)
        if k == 'un':
            v = self.operand(st, fr, r[2])
            ot = self.optype(r[2])
            if r[1] == 'Not':
                if self.types[ot]['k'] == 'bool':
                    return ('b', self.neg(self.vbool(v)))
                lin = self.vint(v, ot)
                lo, hi = self.tyrange(ot)
                if lo < 0:
                    return ('i', ladd(lneg(lin), L(-1)))
                return ('i', ladd(L(hi), lin, -1))
            if r[1] == 'Neg' and self.tyrange(ot):
                return ('i', lneg(self.vint(v, ot)))
            if r[1] == 'PtrMetadata':
                s = self.as_slice(v)
                if s is not None:
                    return ('i', ladd(s[3], s[2], -1))
                vv = v[1] if v[0] == 'rv' else v
                if v[0] == 'ref':
                    vv = self.read(st, ('cell', v[1]), v[2])
                    s = self.as_slice(vv)
                    if s is not None:
                        return ('i', ladd(s[3], s[2], -1))
                return self.sym(('meta', vv), ti)
            return self.sym(('un', r[1], v), ti)
        if k == 'discr':
            v = self.readp(st, fr.fid, r[1], body)
            return ('i', self.discr_of(st, v, r[1]['t'], ti))
        if k == 'agg':
            vals = tuple(self.operand(st, fr, o) for o in r[2])
            a = r[1]
            if a['k'] == 'adt':
                return ('agg', a['path'], a['vi'], vals)
            if a['k'] == 'tuple':
                return ('agg', '()', 0, vals)
            if a['k'] == 'array':
                return ('agg', '[]', 0, vals)
            if a['k'] == 'closure':
                return ('agg', 'closure', a['inst'], vals)
            if len(vals) == 2 and vals[0][0] in ('rv', 'ref'):
                return vals[0]
            return self.sym(('agg?', vals), ti)
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            if isinstance(r[2], int) or str(r[2]).isdigit():
                n = int(r[2])
                if n <= 300:
                    return ('agg', '[]', 0, (v,) * n)
                return ('sl', ('arrn', ('rep', v), n), L(0), L(n))
            return self.sym(('rep', v, str(r[2])), ti)
        if k == 'setdiscr':
            old = self.readp(st, fr.fid, pl, body)
            if old[0] == 'agg':
                return ('agg', old[1], r[1], old[3])
            return old
        return self.sym(('rv', fr.fid, tag, str(r)[:80]), ti)

    def mulatom(self, st, la, lb):
        if lb < la:
            la, lb = lb, la
        x = self.alin(('mul', la, lb), None, None)
        sa, ia = self.sup(st, la), self.sup(st, lneg(la))
        sb, ib = self.sup(st, lb), self.sup(st, lneg(lb))
        if None not in (sa, ia, sb, ib):
            c = [sa * sb, sa * -ib, -ia * sb, ia * ib]
            st.iv[x[1][0][0]] = (min(c), max(c))
        return x

    def simp(self, c):
        if c[0] in ('le', 'eq', 'ne') and not c[1][1]:
            n = c[1][0]
            return ('c', n <= 0 if c[0] == 'le' else (n == 0) == (c[0] == 'eq'))
        if c[0] in ('and', 'or'):
            a, b = self.simp(c[1]), self.simp(c[2])
            if c[0] == 'and':
                if a == ('c', False) or b == ('c', False):
                    return ('c', False)
                if a == ('c', True):
                    return b
                if b == ('c', True):
                    return a
            else:
                if a == ('c', True) or b == ('c', True):
                    return ('c', True)
                if a == ('c', False):
                    return b
                if b == ('c', False):
                    return a
            return (c[0], a, b)
        return c

    def nvariants(self, ti):
        t = self.types[ti]
        if t['k'] == 'adt':
            if t['path'] in ('std::option::Option', 'std::result::Result', 'std::ops::ControlFlow', 'std::borrow::Cow'):
                return 2
            a = self.F.adts.get(t['path'])
            if a is not None:
                return len(a['variants'])
            if t['path'] == 'nom::Err':
                return 3
            if t['path'] == 'std::cmp::Ordering':
                return 3
        return None

    def discr_of(self, st, v, vt, ti):
        if v[0] == 'agg':
            if v[1] == 'std::cmp::Ordering':
                return L(v[2] - 1)
            t = self.types[vt]
            a = self.F.adts.get(t.get('path'))
            if a is not None and a['enum']:
                d = int(a['variants'][v[2]].get('discr', v[2]))
                return L(d)
            return L(v[2])
        if v[0] == 'sym':
            lin = self.discr_lin(v[1], self.nvariants(vt))
            t = self.types[vt]
            a = self.F.adts.get(t.get('path'))
            if a is not None and a['enum']:
                ds = [int(x.get('discr', i)) for i, x in enumerate(a['variants'])]
                if ds != list(range(len(ds))):
                    return self.tab_of(lin, lambda i: ds[i])
            return lin
        return self.alin(('discrx', v), None, None)

    def cast(self, st, fr, r, ti, tag):
        k = r[1]
        if k == 'BoxDerefTransmute':
            pl = r[2].get('cp') or r[2].get('mv')
            if pl and pl['p']:
                b = st.cells.get((fr.fid, pl['l']))
                if b is not None and b[0] == 'ref':
                    return b
        v = self.operand(st, fr, r[2])
        ot = self.optype(r[2])
        if k.startswith('IntToInt'):
            if self.types[ot]['k'] == 'bool':
                return ('i', self.vint(v, ot))
            lin = self.vint(v, ot)
            rg = self.tyrange(ti)
            if rg is None:
                return self.sym(('cast', v, ti), ti)
            lo, hi = rg
            if self.clampfits(st, lin, lo, hi):
                return ('i', lin)
            bits = self.types[ti].get('bits', 32)
            for k in (1, -1):       # the value lies in the range shifted by 2^bits: wraps to it exactly
                o = k << bits
                if self.clampfits(st, lin, lo + o, hi + o):
                    return ('i', ladd(lin, L(-o)))
            if lo == 0:
                sp = self.split(st, lin, 1 << bits)
                if sp:
                    return ('i', sp[1])
            if self.fbase(lin) is not None:
                def f(x):
                    x &= (1 << bits) - 1
                    if lo < 0 and x >> (bits - 1):
                        x -= 1 << bits
                    return x
                return ('i', self.tab_of(lin, f))
            return ('i', self.alin(('trunc', lin, lo, hi), lo, hi))
        if 'Unsize' in k:
            inner = v
            if v[0] == 'rv':
                s = self.as_slice(v[1])
                if s is not None:
                    return ('rv', s)
            return v
        if 'Transmute' in k or 'PtrToPtr' in k or 'PointerCoercion' in k:
            if 'Transmute' in k and self.types[ti]['k'] in ('int', 'float', 'bool', 'char'):
                return self.sym(('cast', k, v, ti), ti)
            return v
        return self.sym(('cast', k, v, ti), ti)

    # ------------------------------------------------------------ joins
    def join_lin(self, l1, l2, key, phis, force=False):
        if l1 == l2 and not force and not self.lown(l1):
            return l1
        for p, (a, b) in phis.items():
            if self.atoms[p][0][0] == 'phib':
                continue
            d = ladd(l1, a, -1)
            if d == ladd(l2, b, -1):
                if not self.lown(d):
                    return ladd((0, ((p, 1),)), d)
            d = ladd(l1, a)
            if d == ladd(l2, b):
                if not self.lown(d):
                    return ladd(d, (0, ((p, 1),)), -1)
        if self.peel and not self.jloop:
            # equal on one side: the other side's form describes both
            d = ladd(l1, l2, -1)
            if len(d[1]) <= 3:
                for s, l in ((self.js[0], l2), (self.js[1], l1)):
                    if not self.lown(l) and self.sup_iv(s, d) == 0 and self.sup_iv(s, lneg(d)) == 0:
                        return l
        pk = ('phi', key)
        self.jown[pk] = self.jkey
        x = self.alin(pk, None, None)
        phis[x[1][0][0]] = (l1, l2)
        return x

    # which phis a value depends on; the ones of the join in progress change meaning with it
    def lown(self, l):
        for a, _ in l[1]:
            if self.jkey in self.aown(a):
                return True
        return False

    def aown(self, a):
        r = self.aowns.get(a)
        if r is None:
            r = self.aowns[a] = self.kown(self.atoms[a][0])
        return r

    def sown(self, sid):
        r = self.sowns.get(sid)
        if r is None:
            self.sowns[sid] = frozenset()
            r = self.sowns[sid] = self.kown(self.syms[sid][0])
        return r

    def kown(self, k):
        out = set()

        def walk(k):
            if isinstance(k, tuple):
                if len(k) == 2 and k[0] in ('phi', 'phib') and k in self.jown:
                    out.add(self.jown[k])
                    return
                if len(k) == 2 and isinstance(k[0], int) and isinstance(k[1], tuple) and \
                        all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], int)
                            for x in k[1]):
                    for a, _ in k[1]:
                        out.update(self.aown(a))
                    return
                if k and k[0] == 'tab':
                    out.update(self.aown(k[1]))
                    return
                if k and k[0] in ('inst', 'site'):
                    return
                if len(k) >= 2 and k[0] in ('proj', '*', 'discr', 'sym', 'content') and isinstance(k[1], int):
                    if k[1] < len(self.syms):
                        out.update(self.sown(k[1]))
                    for x in k[2:]:
                        walk(x)
                    return
                for x in k:
                    walk(x)
        walk(k)
        return frozenset(out)

    def vown(self, v):
        """does v depend on a phi of the join in progress"""
        k = v[0]
        if k == 'i':
            return self.lown(v[1])
        if k == 'b':
            return v[1][0] not in ('c', 'top') and self.jkey in self.kown(v[1])
        if k == 'agg':
            return any(self.vown(f) for f in v[3])
        if k == 'rv':
            return self.vown(v[1])
        if k == 'sl':
            return self.lown(v[2]) or self.lown(v[3]) or self.bown(v[1])
        if k == 'sym':
            return self.jkey in self.sown(v[1]) or any(self.vown(f) for _, f in v[2])
        return False

    def bown(self, b):
        if b[0] == 'const':
            return False
        r = self.bowns.get(b)
        if r is None:
            r = self.bowns[b] = self.kown(b)
        return self.jkey in r

    def join_val(self, v1, v2, key, phis, force=False):
        if v1 == v2 and not force and not self.vown(v1):
            return v1
        a, b = v1[0], v2[0]
        if v1 == v2 and a in ('ref', 'fn', 'fnty'):
            return v1
        if a == 'i' and b == 'i':
            return ('i', self.join_lin(v1[1], v2[1], key, phis, force))
        if a == 'b' and b == 'b':
            if v1 == v2 and v1[1][0] in ('c', 'top'):
                return v1
            pk = ('phib', key)
            self.jown[pk] = self.jkey
            x = self.alin(pk, 0, 1)
            phis[x[1][0][0]] = (self.vint(v1), self.vint(v2))
            return ('b', ('ne', x))
        if a == 'rv' and b == 'rv':
            return ('rv', self.join_val(v1[1], v2[1], ('*', key), phis, force))
        if a == 'sl' and b == 'sl':
            if v1[1] == v2[1] and not self.bown(v1[1]) and not (force and self.volatile(v1[1])):
                s = self.join_lin(v1[2], v2[2], ('s', key), phis, force)
                e = self.join_lin(v1[3], v2[3], ('e', key), phis, force)
                return ('sl', v1[1], s, e)
            pk = ('phi', key)
            self.jown[pk] = self.jkey
            base = ('s', pk)
            n1, n2 = ladd(v1[3], v1[2], -1), ladd(v2[3], v2[2], -1)
            if n1 == n2 and not self.lown(n1) and not force:
                return ('sl', base, L(0), n1)
            for p, (x, y) in phis.items():
                if x == n1 and y == n2:
                    return ('sl', base, L(0), (0, ((p, 1),)))
            x = self.alin(('len', base), 0, LEN_MAX)
            phis[x[1][0][0]] = (n1, n2)
            return ('sl', base, L(0), x)
        if a == 'agg' and b == 'agg' and v1[1] == v2[1] and v1[2] == v2[2] and len(v1[3]) == len(v2[3]):
            return ('agg', v1[1], v1[2],
                    tuple(self.join_val(x, y, (key, i), phis, force) for i, (x, y) in enumerate(zip(v1[3], v2[3]))))
        s1, s2 = self.as_slice(v1) if a in ('sl', 'agg') else None, self.as_slice(v2) if b in ('sl', 'agg') else None
        if s1 is not None and s2 is not None and a != b:
            return self.join_val(s1, s2, key, phis, force)
        pk = ('phi', key)
        self.jown[pk] = self.jkey
        sid = self.symid(pk)
        if a in ('agg', 'sym') and b in ('agg', 'sym'):
            m1, m2 = self.vmask(v1), self.vmask(v2)
            ov = {}
            o1, o2 = self.payload(v1), self.payload(v2)
            for kk in sorted(set(o1) | set(o2)):
                if kk in o1 and kk in o2:
                    ov[kk] = self.join_val(o1[kk], o2[kk], (key, kk), phis, force)
                elif kk in o1 and m2 is not None and not m2 >> kk[0] & 1:
                    self.lin_atoms(o1[kk], self.solo[0])
                    ov[kk] = self.one_sided(o1[kk], (key, kk), phis, force)
                elif kk in o2 and m1 is not None and not m1 >> kk[0] & 1:
                    self.lin_atoms(o2[kk], self.solo[1])
                    ov[kk] = self.one_sided(o2[kk], (key, kk), phis, force)
            d = self.discr_lin(sid)
            phis[d[1][0][0]] = (self.dl(v1), self.dl(v2))
            return ('sym', sid, tuple(sorted(ov.items(), key=lambda x: x[0])))
        return ('sym', sid, ())

    def one_sided(self, v, key, phis, force):
        """a payload only one side has: at a loop head what the iteration made gets a new name"""
        if self.jloop or force:
            return self.join_val(v, v, key, phis, self.volatile_val(v))
        return v if not self.vown(v) else self.join_val(v, v, key, phis)

    def volatile(self, b):
        return b[0] not in ('const',) and not self.param_key(b)

    def volatile_val(self, v):
        k = v[0]
        if k == 'i':
            return any(not self.param_atom(None, a) for a, _ in v[1][1])
        if k == 'agg':
            return any(self.volatile_val(f) for f in v[3])
        if k == 'rv':
            return self.volatile_val(v[1])
        if k == 'sl':
            return self.volatile(v[1]) or self.volatile_val(('i', v[2])) or self.volatile_val(('i', v[3]))
        if k == 'sym':
            return True
        return k == 'b' and v[1][0] not in ('c', 'top')

    def dl(self, v):
        if v[0] == 'agg':
            return L(v[2] if v[1] != 'closure' else 0)
        return self.discr_lin(v[1])

    def vmask(self, v):
        if v[0] == 'agg' and v[1] != 'closure':
            return 1 << v[2]
        return None

    def payload(self, v):
        if v[0] == 'agg':
            if v[1] == 'closure':
                return {}
            return {(v[2], i): f for i, f in enumerate(v[3])}
        return dict(v[2])

    def subst(self, lin, m):
        r = (lin[0], ())
        for a, c in lin[1]:
            if a in m:
                r = ladd(r, m[a], c)
            else:
                r = ladd(r, (0, ((a, 1),)), c)
        return r

    def join(self, s1, s2, key, widen=False, loop=False):
        """least common state; differing cells become phis named by key"""
        out = State()
        self.jkey = key
        self.jloop = loop
        self.js = s1, s2
        self.solo = (set(), set())
        phis = {}
        for c in s1.cells:
            if c in s2.cells:
                out.cells[c] = self.join_val(s1.cells[c], s2.cells[c], (key, c), phis)
        for g in s1.ghost:
            if g in s2.ghost:
                v1, v2 = s1.ghost[g], s2.ghost[g]
                if v1 == v2:
                    out.ghost[g] = v1
                elif isinstance(v1, frozenset):
                    out.ghost[g] = v1 & v2 if g[0] != 'may' else v1 | v2
                else:
                    out.ghost[g] = self.join_val(v1, v2, (key, 'g', g), phis)
        for g in list(s1.ghost) + list(s2.ghost):
            if g[0] == 'may' and g not in out.ghost:
                out.ghost[g] = s1.ghost.get(g, frozenset()) | s2.ghost.get(g, frozenset())
        for f in s1.forall:
            if f in s2.forall:
                out.forall[f] = s1.forall[f] | s2.forall[f]
        m1 = {p: x[0] for p, x in phis.items()}
        m2 = {p: x[1] for p, x in phis.items()}
        phiset = set(phis)

        def stale(a):
            return key in self.aown(a) or self.mentions(a, phiset)
        # masks and intervals of shared atoms
        for a in set(s1.mask) | set(s2.mask):
            if a in phiset or stale(a):
                continue
            m = self.bmask(s1, a) | self.bmask(s2, a)
            lo, hi = self.atoms[a][1], self.atoms[a][2]
            if m != (1 << (hi + 1)) - 1 or lo != 0:
                out.mask[a] = m
        for a in set(s1.iv) & set(s2.iv):
            if a in phiset or stale(a) or a in out.mask:
                continue
            l1, h1 = s1.iv[a]
            l2, h2 = s2.iv[a]
            if widen:
                lo = l1 if l1 is not None and l2 is not None and l2 >= l1 else self.atoms[a][1]
                hi = h1 if h1 is not None and h2 is not None and h2 <= h1 else self.atoms[a][2]
            else:
                lo = None if l1 is None or l2 is None else min(l1, l2)
                hi = None if h1 is None or h2 is None else max(h1, h2)
            out.iv[a] = (lo, hi)
        # payload atoms only one side knows about: their range is that side's
        for w, (me, other) in enumerate(((s1, s2), (s2, s1))):
            if not self.solo[w]:
                continue
            seen = set()
            for v in other.cells.values():
                self.lin_atoms(v, seen)
            for k in other.ub:
                seen.update(a for a, _ in k)
            for a in self.solo[w]:
                if a in me.iv and a not in other.iv and a not in other.mask and a not in seen and a not in out.iv \
                        and a not in phiset and not stale(a) and not self.param_atom(None, a):
                    out.iv[a] = me.iv[a]
        out.ne = frozenset(x for x in s1.ne if x in s2.ne and not any(a in phiset or stale(a) for a, _ in x[1]))
        # phi ranges
        for p, (l1, l2) in phis.items():
            if self.finite(p) is not None:
                out.mask[p] = self.vals(s1, l1, p) | self.vals(s2, l2, p)
                continue
            h1, h2 = self.sup(s1, l1), self.sup(s2, l2)
            g1, g2 = self.sup(s1, lneg(l1)), self.sup(s2, lneg(l2))
            oldr = s1.iv.get(p) if widen else None
            hi = None if h1 is None or h2 is None else max(h1, h2)
            lo = None if g1 is None or g2 is None else -max(g1, g2)
            if widen:  # an unstable bound goes to the next threshold
                tlo, thi = self.thresholds(p, lo, hi)
                if hi is not None and h2 > h1:
                    hi = thi
                if lo is not None and g2 > g1:
                    lo = tlo
            alo, ahi = self.atoms[p][1], self.atoms[p][2]
            lo = alo if lo is None else lo if alo is None else max(lo, alo)
            hi = ahi if hi is None else hi if ahi is None else min(hi, ahi)
            out.iv[p] = (lo, hi)
        # relational candidates
        cands = set()
        for k in s1.ub:
            cands.add(k)
        for k in s2.ub:
            if not widen:
                cands.add(k)
        # renamed facts of s1
        single = {}
        for p, (l1, l2) in phis.items():
            if len(l1[1]) == 1 and l1[1][0][1] == 1:
                single.setdefault(l1[1][0][0], p)
        for k in list(s1.ub):
            for i, (a, c) in enumerate(k):
                if a in single and single[a] not in dict(k):
                    cands.add(tuple(sorted([(single[a], c)] + [x for x in k if x[0] != a])))
        for srcs, which in ((s1.ub, 0), (s2.ub, 1)):
            if widen and which:
                continue
            sg = {}
            for p, ls in phis.items():
                l = ls[which]
                if len(l[1]) == 1 and l[1][0][1] == 1:
                    sg.setdefault(l[1][0][0], p)
            for k in srcs:
                if sum(1 for a, _ in k if a in sg) >= 2:
                    d = {}
                    for a, c in k:
                        x = sg.get(a, a)
                        d[x] = d.get(x, 0) + c
                    cands.add(tuple(sorted((a, c) for a, c in d.items() if c)))
        cands.discard(())
        if not widen:
            rel = set()
            for c, v in out.cells.items():
                self.lin_atoms(v, rel)
            for g, v in out.ghost.items():
                if isinstance(v, tuple):
                    self.lin_atoms(v, rel)
            for p, (l1, l2) in phis.items():
                for a, c in l1[1] + l2[1]:
                    rel.add(a)
            rel = [a for a in rel if self.finite(a) is None and (a in phiset or not stale(a))]
            if len(rel) > 40:
                rel = sorted(rel, key=lambda a: (a not in phiset, a))[:40]
            for p in phiset:
                if self.finite(p) is not None:
                    continue
                for a in rel:
                    if a != p:
                        for s in (1, -1):
                            cands.add(tuple(sorted([(p, s), (a, -s)])))
            # three-way: differences of phis against another atom
            ph = sorted(p for p in phiset if self.finite(p) is None)[:24]
            for i, p in enumerate(ph):
                for q in ph[i + 1:]:
                    for w in (0, 1):
                        for sg in (-1, 1):
                            d = ladd(phis[p][w], phis[q][w], sg)
                            if len(d[1]) == 1 and abs(d[1][0][1]) == 1:
                                a, c = d[1][0]
                                if a in (p, q) or a in phiset or self.finite(a) is not None:
                                    continue
                                cs = tuple(sorted(((p, 1), (q, sg), (a, -c))))
                                cands.add(cs)
                                cands.add(tuple((z, -w2) for z, w2 in cs))
        for k in cands:
            if any(a not in phiset and stale(a) for a, _ in k):
                continue
            x1 = self.subst((0, k), m1)
            x2 = self.subst((0, k), m2)
            b1 = self.sup(s1, x1, 2)
            if b1 is None:
                continue
            if widen and k in s1.ub:
                # in a loop, s1 is the invariant so far: keep only what the back edge preserves
                if s1.ub[k] < b1:
                    b1 = s1.ub[k]
            b2 = self.sup(s2, x2, 2)
            if b2 is None:
                continue
            if widen and b2 > b1:
                continue
            bb = max(b1, b2)
            # worth keeping only when intervals do not already say it
            iv = self.sup_iv(out, (0, k))
            if iv is None or iv > bb:
                out.ub[k] = bb
        return out

    LO_T = (0, -1, -128, -(1 << 31), -(1 << 63), -(1 << 127))
    HI_T = (0, 1, 255, 65535, (1 << 32) - 1, LEN_MAX, USIZE_MAX, (1 << 128) - 1)

    def thresholds(self, p, lo, hi):
        tl = th = None
        if lo is not None:
            tl = next((x for x in self.LO_T if x <= lo), None)
        if hi is not None:
            th = next((x for x in self.HI_T if x >= hi), None)
        return tl, th

    def vals(self, st, lin, p):
        n = self.atoms[p][2]
        full = (1 << (n + 1)) - 1
        c = lconst(lin)
        if c is not None:
            return 1 << c if 0 <= c <= n else full
        b = self.fbase(lin)
        if b is None:
            return full
        m = self.bmask(st, b)
        r = 0
        for x in range(m.bit_length()):
            if m >> x & 1:
                y = self.feval(lin, x)
                if 0 <= y <= n:
                    r |= 1 << y
                else:
                    return full
        return r

    def lin_atoms(self, v, out):
        k = v[0]
        if k == 'i':
            for a, _ in v[1][1]:
                out.add(a)
        elif k == 'sl':
            for l in (v[2], v[3]):
                for a, _ in l[1]:
                    out.add(a)
            for a, _ in self.lenlin(v[1])[1]:
                out.add(a)
        elif k == 'agg':
            for f in v[3]:
                self.lin_atoms(f, out)
        elif k == 'rv':
            self.lin_atoms(v[1], out)
        elif k == 'sym':
            for _, f in v[2]:
                self.lin_atoms(f, out)

    def mentions(self, a, phiset):
        """does the meaning of atom a depend on one of these phi atoms?"""
        if not phiset:
            return False
        deps = self.adeps(a)
        return not deps.isdisjoint(phiset)

    _deps = {}

    def adeps(self, a):
        d = self._deps.get((id(self), a))
        if d is None:
            key = self.atoms[a][0]
            d = frozenset(self.key_atoms(key))
            self._deps[(id(self), a)] = d
        return d

    def key_atoms(self, key):
        out = set()
        seen = set()

        def lin(l):
            for a, _ in l[1]:
                out.add(a)
                out.update(self.adeps(a))

        def walk(k):
            if isinstance(k, tuple):
                if len(k) == 2 and isinstance(k[0], int) and isinstance(k[1], tuple) and \
                        all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], int)
                            for x in k[1]) and k[1]:
                    lin(k)
                    return
                if k and k[0] == 'tab':
                    out.add(k[1])
                    out.update(self.adeps(k[1]))
                    return
                if len(k) >= 2 and k[0] in ('proj', '*', 'discr', 'sym') and isinstance(k[1], int):
                    if k[1] not in seen and k[1] < len(self.syms):
                        seen.add(k[1])
                        walk(self.syms[k[1]][0])
                    for x in k[2:]:
                        walk(x)
                    return
                for x in k:
                    walk(x)
        walk(key)
        return out

    def same(self, s1, s2):
        return s1.cells == s2.cells and s1.ub == s2.ub and s1.mask == s2.mask and s1.iv == s2.iv and s1.ne == s2.ne \
            and s1.ghost == s2.ghost and s1.forall == s2.forall

    # ------------------------------------------------------------ CFG
    def prep(self, iid):
        i = self.icache.get(iid)
        if i is not None:
            return i
        raw = self.insts[iid]
        i = Inst()
        i.id = iid
        i.path = raw['path']
        i.full = raw['full']
        i.local = raw['local']
        i.args = raw['args']
        i.kind = raw['kind']
        i.sp = raw['sp']
        i.env = raw['env']
        i.body = raw.get('body')
        i.promoted = raw.get('promoted') or []
        self.icache[iid] = i
        if i.body:
            self.cfg(i)
        return i

    def succs(self, t):
        k = t['k']
        if k in ('goto', 'drop', 'assert'):
            return [t['to']]
        if k == 'switch':
            return [x for _, x in t['cases']] + [t['else']]
        if k == 'call':
            return [t['to']] if 'to' in t else []
        return []

    def cfg(self, i):
        blocks = i.body['blocks']
        n = len(blocks)
        succ = [self.succs(b['t']) if not b['cleanup'] else [] for b in blocks]
        # Bourdoncle WTO
        dfn = [0] * n
        num = [0]
        stack = []
        order = []

        def visit(v, partition):
            stack.append(v)
            num[0] += 1
            dfn[v] = head = num[0]
            loop = False
            for w in succ[v]:
                m = visit(w, partition) if dfn[w] == 0 else dfn[w]
                if m <= head:
                    head = m
                    loop = True
            if head == dfn[v]:
                dfn[v] = 1 << 60
                el = stack.pop()
                if loop:
                    while el != v:
                        dfn[el] = 0
                        el = stack.pop()
                    partition.insert(0, component(v))
                else:
                    partition.insert(0, v)
            return head

        def component(v):
            part = []
            for w in succ[v]:
                if dfn[w] == 0:
                    visit(w, part)
            return (v, part)
        part = []
        visit(0, part)
        i.wto = part
        # liveness of locals
        nl = len(i.body['locals'])
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        borrowed = set()

        def pl_use(p, s, d):
            if p['l'] not in d:
                s.add(p['l'])
            for e in p['p']:
                if e[0] == 'index' and e[1] not in d:
                    s.add(e[1])

        def op_use(o, s, d):
            if 'cp' in o:
                pl_use(o['cp'], s, d)
            elif 'mv' in o:
                pl_use(o['mv'], s, d)

        for bi, b in enumerate(blocks):
            if b['cleanup']:
                continue
            u, d = use[bi], deff[bi]
            for pl, rv, _ in b['s']:
                for x in rv[1:]:
                    if isinstance(x, dict) and ('cp' in x or 'mv' in x):
                        op_use(x, u, d)
                    elif isinstance(x, dict) and 'l' in x:
                        pl_use(x, u, d)
                        if rv[0] == 'ref' and rv[1]:
                            borrowed.add(x['l'])
                    elif isinstance(x, list):
                        for y in x:
                            if isinstance(y, dict):
                                op_use(y, u, d)
                if pl['p']:
                    pl_use(pl, u, d)
                else:
                    d.add(pl['l'])
            t = b['t']
            if t['k'] == 'switch':
                op_use(t['on'], u, d)
            elif t['k'] == 'call':
                op_use(t['f'], u, d)
                for a in t['args']:
                    op_use(a, u, d)
                if t['dest']['p']:
                    pl_use(t['dest'], u, d)
                else:
                    d.add(t['dest']['l'])
            elif t['k'] == 'assert':
                op_use(t['cond'], u, d)
                for a in t['ops']:
                    op_use(a, u, d)
            elif t['k'] == 'return':
                if 0 not in d:
                    u.add(0)
        live = [set(x) for x in use]
        ch = True
        while ch:
            ch = False
            for bi in range(n - 1, -1, -1):
                o = set()
                for s in succ[bi]:
                    o |= live[s]
                nv = use[bi] | (o - deff[bi])
                if nv != live[bi]:
                    live[bi] = nv
                    ch = True
        for l in live:
            l |= borrowed
        i.live = live
        i.loopset = {}

    def prune(self, st, fr, b):
        live = fr.inst.live[b]
        fid = fr.fid
        dead = [c for c in st.cells if c[0] == fid and c[1] not in live and isinstance(c[1], int)]
        for c in dead:
            del st.cells[c]

    # ------------------------------------------------------------ execution of bodies
    def newfid(self, parent, tag):
        k = (parent, tag)
        i = self.fids.get(k)
        if i is None:
            i = len(self.fids) + 1
            self.fids[k] = i
        return i

    def run_inst(self, iid, args, st, fid):
        inst = self.prep(iid)
        fr = Frame(inst, fid, len(self.stack))
        fr.cap, fr.peel = self.MAXSTATES, self.peel
        if self.peel and not self.rules.focus(self, fr, args, st):
            fr.cap, fr.peel = 10, 0
        self.stack.append(fr)
        if inst.local:
            self.covered.add(iid)
        try:
            s = st.copy()
            for k, v in enumerate(args):
                s.cells[(fid, k + 1)] = v
            inn = {0: [s]}
            rets = []
            self.run_wto(fr, inst.wto, inn, rets)
            out = []
            for s in rets:
                v = self.getcell(s, (fid, 0))
                for c in [c for c in s.cells if c[0] == fid]:
                    del s.cells[c]
                out.append((s, v))
            return self.merge_rets(out, fid, self.MAXRET if not fr.peel else max(self.MAXRET, fr.cap))
        finally:
            self.stack.pop()

    def shape(self, v, d=2):
        if v[0] == 'agg' and v[1] != 'closure':
            return (v[1], v[2]) + (tuple(self.shape(f, d - 1) for f in v[3][:2]) if d > 0 and len(v[3]) <= 2 else ())
        return None

    def merge_rets(self, out, fid, maxret):
        if len(out) <= 1:
            return out
        groups = {}
        for s, v in out:
            sh = self.shape(v)
            iserr = v[0] == 'agg' and v[1] == 'std::result::Result' and v[2] == 1
            g = ('err',) if iserr and self.merge_err(v) else ('v', sh)
            groups.setdefault(g, []).append((s, v))
        res = []
        for g, l in groups.items():
            # identical values: join states
            lim = 1 if g[0] == 'err' else maxret
            if len(l) > 1:
                l = self.dedup(l)
            while len(l) > lim:
                (s1, v1) = l.pop()
                (s2, v2) = l.pop()
                l.append(self.join_pair(s2, v2, s1, v1, (fid, 'ret', g[0], len(l))))
            res += l
        return res

    def merge_err(self, v):
        return True

    def dedup(self, l):
        out = []
        for s, v in l:
            if any(v == v2 and self.same(s, s2) for s2, v2 in out):
                continue
            out.append((s, v))
        return out

    def join_pair(self, s1, v1, s2, v2, key):
        a, b = s1.copy(), s2.copy()
        k = ('ret', key)
        a.cells[k] = v1
        b.cells[k] = v2
        j = self.join(a, b, key)
        v = j.cells.pop(k)
        return j, v

    def run_wto(self, fr, part, inn, rets):
        for el in part:
            if isinstance(el, tuple):
                self.run_loop(fr, el, inn, rets)
            else:
                sts = inn.pop(el, [])
                if sts:
                    self.run_block(fr, el, sts, inn, rets)

    def reduce(self, fr, b, sts):
        for s in sts:
            self.prune(s, fr, b)
        if len(sts) == 1:
            return sts
        out = []
        for s in sts:
            for i, o in enumerate(out):
                if o.cells == s.cells and o.ghost == s.ghost:
                    if self.same(o, s):
                        break
                    if len(sts) > 3:
                        out[i] = self.join(o, s, (fr.fid, b, 'eq'))
                        break
            else:
                out.append(s)
        n = 0
        while len(out) > fr.cap:
            n += 1
            # prefer joining states of equal shape
            s2 = out.pop()
            best = len(out) - 1
            if fr.peel:
                best = self.nearest(out, s2)
            out[best] = self.join(out[best], s2, (fr.fid, b, 'cap', n))
        return out

    def nearest(self, out, s2):
        """the state whose cells differ least"""
        best, bn = len(out) - 1, -1
        for i, o in enumerate(out):
            n = 0
            for c, v in s2.cells.items():
                w = o.cells.get(c)
                if w is not None and (v is w or v == w):
                    n += 2
                elif w is not None and v[0] == w[0] and (v[0] != 'agg' or (v[1] == w[1] and v[2] == w[2])):
                    n += 1
            if n >= bn:
                best, bn = i, n
        return best

    def run_loop(self, fr, comp, inn, rets):
        h, body = comp
        entry = inn.pop(h, [])
        if not entry:
            return
        key = (fr.fid, h, 'loop')
        for s in entry:
            self.prune(s, fr, h)
        cur = entry[0]
        for i, s in enumerate(entry[1:]):
            cur = self.join(cur, s, (fr.fid, h, 'ent', i))
        entry0 = cur
        rec = self.record
        if fr.peel or self.counted(fr, cur):
            saved = {k: (o['ok'], len(o['bad'])) for k, o in self.obl.items()}
            back, outs, rs = self.unroll(fr, comp, cur)
            if not back:
                for b, sts in outs.items():
                    inn.setdefault(b, []).extend(sts)
                rets.extend(rs)
                return
            self.rollback(saved)
        self.record = False
        stable = False
        first = True
        for it in range(24):
            back, _, _ = self.loop_pass(fr, comp, cur)
            if not back:
                stable = True
                break
            nxt = cur
            for s in back:
                self.prune(s, fr, h)
                nxt = self.join(nxt, s, key, widen=not first, loop=True)
            first = False
            if self.same(nxt, cur):
                stable = True
                break
            cur = nxt
        if stable and back:
            # one narrowing step, kept only if it is inductive too
            nar = entry0
            for s in back:
                nar = self.join(nar, s, key, loop=True)
            if not self.same(nar, cur):
                b2, _, _ = self.loop_pass(fr, comp, nar)
                j = nar
                for s in b2:
                    self.prune(s, fr, h)
                    j = self.join(j, s, key, widen=True, loop=True)
                if self.same(j, nar):
                    cur = nar
        self.record = rec
        if not stable:
            self.notes.add('unstable loop in %s' % fr.inst.path)
            # sound fallback: forget every relation and every cell the loop touches
            n = State()
            for c, v in cur.cells.items():
                n.cells[c] = self.havoc_val(v, (key, c))
            n.ghost = {}
            cur = n
        if self.rules is not None:
            self.rules.on_loop(self, fr, h, cur)
        back, outs, rs = self.loop_pass(fr, comp, cur)
        if self.rules is not None:
            self.rules.on_back(self, fr, h, cur, back)
        for b, sts in outs.items():
            inn.setdefault(b, []).extend(sts)
        rets.extend(rs)

    def counted(self, fr, st):
        """a loop over a constant short range is driven by a range held in a local"""
        for c, v in st.cells.items():
            if c[0] == fr.fid and v[0] == 'agg' and v[1] in ('std::ops::Range', 'std::ops::RangeInclusive'):
                a, b = v[3][0], v[3][1]
                if a[0] == 'i' and b[0] == 'i' and not a[1][1] and not b[1][1] and 0 <= b[1][0] - a[1][0] <= 9:
                    return True
        return False

    def unroll(self, fr, comp, cur):
        h = comp[0]
        outs, rets = {}, []
        sts = [cur]
        split = 0
        for _ in range(fr.peel or 11):
            nxt = []
            for st in sts:
                back, o, r = self.loop_pass(fr, comp, st)
                for b, l in o.items():
                    outs.setdefault(b, []).extend(l)
                rets += r
                nxt += back
                split += bool(back) and bool(o or r)
            if split > 3 and not self.counted(fr, cur):
                return nxt, outs, rets
            for s in nxt:
                self.prune(s, fr, h)
            if len(nxt) > 1:
                nxt = self.reduce(fr, h, nxt)
            while len(nxt) > self.rules.loopstates:
                s2 = nxt.pop()
                nxt[-1] = self.join(nxt[-1], s2, (fr.fid, h, 'unroll'))
            sts = nxt
            if not sts:
                return [], outs, rets
        return sts, outs, rets

    def loop_pass(self, fr, comp, cur):
        h, body = comp
        inside = {h}

        def coll(p):
            for e in p:
                if isinstance(e, tuple):
                    inside.add(e[0])
                    coll(e[1])
                else:
                    inside.add(e)
        coll(body)
        inn = {}
        rets = []
        self.run_block(fr, h, [cur.copy()], inn, rets)
        self.run_wto(fr, body, inn, rets)
        back = inn.pop(h, [])
        if len(back) > 1:
            back = self.reduce(fr, h, back)
        outs = {b: s for b, s in inn.items() if b not in inside}
        return back, outs, rets

    def run_block(self, fr, b, sts, inn, rets):
        bb = fr.inst.body['blocks'][b]
        sts = self.reduce(fr, b, sts)
        body = fr.inst.body
        for s in sts:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget()
            for n, (pl, rv, sp) in enumerate(bb['s']):
                v = self.rvalue(s, fr, rv, pl, body, (b, n))
                if self.peel and v[0] == 'i' and v[1][1]:
                    v = ('i', self.folded(s, v[1]))
                self.assign(s, fr.fid, pl, v, body)
            for to, s2 in self.terminator(fr, b, bb['t'], s):
                if to == 'ret':
                    rets.append(s2)
                else:
                    inn.setdefault(to, []).append(s2)

    def terminator(self, fr, b, t, s):
        k = t['k']
        if k == 'goto' or k == 'drop':
            return [(t['to'], s)]
        if k == 'return':
            return [('ret', s)]
        if k == 'switch':
            if 'o' in t['on']:  # build-dependent library self-checks: off
                return [(next((to for val, to in t['cases'] if int(val) == 0), t['else']), s)]
            v = self.operand(s, fr, t['on'])
            ot = self.optype(t['on'])
            out = []
            if self.types[ot]['k'] == 'bool':
                c = self.vbool(v)
                rest = s
                for val, to in t['cases']:
                    cc = c if int(val) else self.neg(c)
                    for s2 in self.assume(s, cc):
                        out.append((to, s2 if s2 is not s else s.copy()))
                vals = {int(x) for x, _ in t['cases']}
                if vals == {0}:
                    for s2 in self.assume(s, c):
                        out.append((t['else'], s2 if s2 is not s else s.copy()))
                elif vals == {1}:
                    for s2 in self.assume(s, self.neg(c)):
                        out.append((t['else'], s2 if s2 is not s else s.copy()))
                return out
            lin = self.vint(v, ot)
            rest = [s]
            signed = self.types[ot].get('signed')
            bits = self.types[ot].get('bits', 64)
            for val, to in t['cases']:
                n = int(val)
                if signed and n >> (bits - 1):
                    n -= 1 << bits
                d = ladd(lin, L(-n))
                nr = []
                for r in rest:
                    for s2 in self.assume(r, ('eq', d)):
                        out.append((to, s2 if s2 is not r else r.copy()))
                    nr += self.assume(r, ('ne', d))
                rest = nr
            for r in rest:
                out.append((t['else'], r))
            return out
        if k == 'assert':
            c = self.vbool(self.operand(s, fr, t['cond']))
            if not t['expected']:
                c = self.neg(c)
            ok = self.holds(s, c) is True
            self.oblige(fr, b, t['msg'], ok, t['sp'], s, c)
            out = []
            # the continuing path has the assertion's condition
            for s2 in self.assume(s, c):
                out.append((t['to'], s2 if s2 is not s else s.copy()))
            return out
        if k == 'call':
            return self.call_term(fr, b, t, s)
        if k == 'unreachable':
            return []
        return []

    def oblige(self, fr, b, kind, ok, sp, s, c=None):
        if not self.record:
            return
        if self.rules is not None and not self.rules.want_obligations:
            return
        if not fr.inst.local:
            # a panic inside a library function is charged to the local caller
            for f in reversed(self.stack):
                if f.inst.local:
                    key = (f.inst.path, fr.inst.path, f.cur, kind)
                    fr = f
                    break
            else:
                return
        else:
            key = (fr.inst.path, '', b, kind)
        o = self.obl.get(key)
        if o is None:
            o = self.obl[key] = {'ok': 0, 'bad': [], 'sp': sp, 'fn': fr.inst.path, 'kind': kind}
        if ok:
            o['ok'] += 1
        else:
            o['bad'].append((self.root, tuple(f.inst.path for f in self.stack)))

    # ------------------------------------------------------------ summaries
    def summarizable(self, inst):
        if not inst.local or len(inst.body['blocks']) < self.summ_min_blocks:
            return False
        b = inst.body
        for k in range(b['argc']):
            if not self.simple_type(b['locals'][k + 1]):
                return False
        rt = self.types[b['locals'][0]]
        return 'closure' not in rt['s'] and '&mut' not in rt['s']

    def simple_type(self, ti, d=0):
        t = self.types[ti]
        k = t['k']
        if k in ('int', 'char', 'bool', 'str'):
            return True
        if k == 'ref':
            return not t['mut'] and self.simple_type(t['e'], d + 1)
        if k == 'slice':
            return True
        if k == 'tuple':
            return all(self.simple_type(e, d + 1) for e in t['es'])
        if k == 'adt':
            p = t['path']
            if p in ('std::option::Option',):
                return self.simple_type(t['args'][0]['t'], d + 1)
            if p == 'input::Input':
                return True
            a = self.F.adts.get(p)
            return a is not None and '&mut' not in t['s']
        return False

    def try_summary(self, inst, args, s, fr, tag):
        if self.rules is not None and not self.rules.use_summary(self, inst, args, s, fr, tag):
            return None
        sm = self.summ.get(inst.id)
        if sm is None:
            sm = self.summ[inst.id] = self.make_summary(inst) if self.summarizable(inst) else False
        if sm is False or sm == 'busy':
            return None
        try:
            return self.apply_summary(inst, sm, args, s, fr, tag)
        except Cut:
            return None

    def make_summary(self, inst):
        """analyse inst once for arbitrary arguments; recursive calls use the summary found so far
        (starting from: no return) until it is stable"""
        self.summ[inst.id] = 'busy'
        self.rec[inst.id] = []
        b = inst.body
        args = [self.sym(('arg', inst.id, k), b['locals'][k + 1]) for k in range(b['argc'])]
        rec, root = self.record, self.root
        saved = {k: (o['ok'], len(o['bad'])) for k, o in self.obl.items()}
        known = set(self.summ)
        try:
            self.record = True
            self.rec_used.discard(inst.id)
            rs = self.run_inst(inst.id, args, State(), self.newfid(0, ('sum', inst.id)))
            if inst.id in self.rec_used:
                cur = self.rec_groups(inst, [], rs, False)
                for it in range(12):
                    self.rec[inst.id] = list(cur.values())
                    for k in set(self.summ) - known:
                        del self.summ[k]
                    self.rollback(saved)
                    rs = self.run_inst(inst.id, args, State(), self.newfid(0, ('sum', inst.id)))
                    nxt = self.rec_groups(inst, cur, rs, it > 1)
                    if set(nxt) == set(cur) and all(nxt[g][1] == cur[g][1] and self.same(nxt[g][0], cur[g][0])
                                                    for g in cur):
                        break
                    cur = nxt
                else:
                    self.notes.add('no stable summary of %s' % inst.path)
                    self.rollback(saved)
                    self.rec.pop(inst.id, None)
                    return False
        finally:
            self.record = rec
        self.rec.pop(inst.id, None)
        if self.rec_used & set(self.rec):
            # depends on the unfinished summary of a caller: valid for this iteration only
            self.tentative.add(inst.id)
        bad = [k for k, o in self.obl.items() if len(o['bad']) > saved.get(k, (0, 0))[1]]
        if bad and inst.id not in self.rec_used:
            # not discharged without the caller's context: analyse it in every context instead
            self.rollback(saved)
            return False
        return [(self.gc(inst, r, v), v) for r, v in rs]

    def gc(self, inst, s, v):
        """keep what is known about the result and about the parameters"""
        keep = set()
        self.lin_atoms(v, keep)
        self.cond_atoms(v, keep)
        for g, x in s.ghost.items():
            if isinstance(x, tuple):
                self.lin_atoms(x, keep)
        work = list(keep)
        while work:
            for d in self.adeps(work.pop()):
                if d not in keep:
                    keep.add(d)
                    work.append(d)

        def ok(a):
            return a in keep or self.param_atom(inst, a)
        q = State()
        q.ghost = s.ghost
        q.forall = s.forall
        q.mask = {a: m for a, m in s.mask.items() if ok(a)}
        q.iv = {a: m for a, m in s.iv.items() if ok(a)}
        q.ne = frozenset(x for x in s.ne if all(ok(a) for a, _ in x[1]))
        for k, b in s.ub.items():
            if all(ok(a) for a, _ in k):
                q.ub[k] = b
        return q

    def cond_atoms(self, v, out):
        k = v[0]
        if k == 'b':
            out.update(self.key_atoms(v[1]))
        elif k == 'agg':
            for f in v[3]:
                self.cond_atoms(f, out)
        elif k == 'rv':
            self.cond_atoms(v[1], out)
        elif k == 'sym':
            out.update(self.key_atoms(('sym', v[1])))
            d = self.akey.get(('discr', v[1]))
            if d is not None:
                out.add(d)
            for _, f in v[2]:
                self.cond_atoms(f, out)

    def param_atom(self, inst, a):
        r = self.pat.get(a)
        if r is None:
            r = self.pat[a] = self.param_key(self.atoms[a][0])
        return r

    def param_key(self, key):
        """rooted in a parameter (of whatever function is being summarised)"""
        if isinstance(key, tuple):
            if len(key) == 3 and key[0] == 'arg' or len(key) == 2 and key[0] == 'arg':
                return True
            if key and key[0] in ('phi', 'phib', 'inst', 'site'):
                return False
            if len(key) == 2 and isinstance(key[0], int) and isinstance(key[1], tuple) and all(
                    isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) for x in key[1]):
                return all(self.param_atom(None, x[0]) for x in key[1])
            if key and key[0] == 'tab':
                return self.param_atom(None, key[1])
            if len(key) >= 2 and key[0] in ('proj', '*', 'discr') and isinstance(key[1], int):
                return key[1] < len(self.syms) and self.param_key(self.syms[key[1]][0])
            if len(key) == 2 and key[0] in ('v', 'len', 's', 'content', '*'):
                return self.param_key(key[1])
            if len(key) == 2 and key[1] in ('data', 'start'):
                return self.param_key(key[0])
            if len(key) == 3 and key[0] == 'elem':
                return self.param_key(key[1]) and self.param_key(key[2])
            if len(key) >= 4 and key[0] == 'op':
                return all(self.param_key(x) for x in key[2:4])
        return False

    def rollback(self, saved):
        for k in list(self.obl):
            if k in saved:
                self.obl[k]['ok'] = saved[k][0]
                del self.obl[k]['bad'][saved[k][1]:]
            else:
                del self.obl[k]

    def rec_groups(self, inst, prev, rs, widen):
        """one return per shape, joined over the iterations"""
        cur = {}
        key = ('recsum', inst.id)
        for s, v in rs:
            s = s.copy()
            s.cells[('ret', key)] = v
            sh = self.shape(v, 0)
            if sh in cur:
                cur[sh] = self.join(cur[sh], s, (key, sh, 'in'))
            else:
                cur[sh] = s
        out = {}
        for sh in set(cur) | set(prev):
            if sh in prev:
                o = prev[sh][0].copy()
                o.cells[('ret', key)] = prev[sh][1]
                st = self.join(o, cur[sh], (key, sh), widen=widen) if sh in cur else o
            else:
                st = cur[sh]
            st = st.copy()
            v = st.cells.pop(('ret', key))
            out[sh] = (self.gc(inst, st, v), v)
        return out

    def apply_summary(self, inst, sm, args, s, fr, tag):
        out = []
        site = (fr.fid, tag, inst.id)
        for n, (r, v) in enumerate(sm):
            ins = Instantiate(self, inst, args, s, (site, n))
            q = s.copy()
            # 1. path facts over the arguments, 2. facts over fresh atoms
            ok = True
            for a, m in r.mask.items():
                l = ins.atom(a)
                if not self.restrict_lin(q, l, m):
                    ok = False
                    break
            if not ok:
                continue
            for a, (lo, hi) in r.iv.items():
                l = ins.atom(a)
                if lo is not None and not self.assume_le(q, ladd(L(lo), l, -1)):
                    ok = False
                if ok and hi is not None and not self.assume_le(q, ladd(l, L(-hi))):
                    ok = False
                if not ok:
                    break
            if not ok:
                continue
            for k, b in r.ub.items():
                l = ins.lin((-b, k))
                if not self.assume_le(q, l):
                    ok = False
                    break
            if not ok:
                continue
            for l in r.ne:
                l = ins.lin(l)
                h = self.holds_eq(q, l)
                if h is True:
                    ok = False
                    break
                if h is None and not self.add_ne(q, l):
                    ok = False
                    break
            if not ok:
                continue
            for f, m in r.forall.items():
                f2 = ins.key(f)
                q.forall[f2] = q.forall.get(f2, m) & m
            for g, gv in r.ghost.items():
                self.merge_ghost(q, g, gv, ins)
            out.append((q, ins.val(v)))
        return out

    def merge_ghost(self, q, g, gv, ins):
        if isinstance(gv, frozenset):
            q.ghost[g] = q.ghost.get(g, frozenset()) | frozenset(ins.key(x) for x in gv)
        else:
            raise Cut('ghost')

    def assume_le(self, q, lin):
        """q: lin <= 0 from now on; False when infeasible"""
        h = self.holds(q, ('le', lin))
        if h is False:
            return False
        if h is True and len(lin[1]) != 1:
            return True
        return self.add_le(q, lin)

    def restrict_lin(self, q, lin, m):
        """lin takes one of the values of mask m"""
        if not lin[1]:
            return lin[0] >= 0 and bool(m >> lin[0] & 1)
        b = self.fbase(lin)
        if b is not None:
            return self.restrict(q, b, lambda x: self.feval(lin, x) >= 0 and m >> self.feval(lin, x) & 1)
        if m == 0:
            return False
        lo, hi = (m & -m).bit_length() - 1, m.bit_length() - 1
        return self.assume_le(q, ladd(L(lo), lin, -1)) and self.assume_le(q, ladd(lin, L(-hi)))

    # ------------------------------------------------------------ calls
    def call_term(self, fr, b, t, s):
        f = self.operand(s, fr, t['f'])
        args = [self.operand(s, fr, a) for a in t['args']]
        atys = [self.optype(a) for a in t['args']]
        fr.cur = b
        res = self.call_value(f, args, atys, t['dest']['t'], s, fr, b, t)
        out = []
        for s2, v in res:
            if 'to' not in t:
                continue
            if s2 is s:
                s2 = s.copy()
            self.assign(s2, fr.fid, t['dest'], v, fr.inst.body)
            out.append((t['to'], s2))
        return out

    def call_value(self, f, args, atys, rty, s, fr, tag, t=None):
        """call an abstract function value"""
        if f[0] == 'fn':
            return self.call_fn(f[1].d, args, atys, rty, s, fr, tag, t)
        if f[0] == 'agg' and f[1] == 'closure':
            return self.call_closure(f, args, s, fr, tag, rty)
        if f[0] in ('rv',):
            return self.call_value(f[1], args, atys, rty, s, fr, tag, t)
        if f[0] == 'ref':
            return self.call_value(('refclo', f) if False else self.read(s, ('cell', f[1]), f[2]), args, atys, rty, s,
                                   fr, tag, t)
        if f[0] == 'fnty':
            ty = self.types[f[1]]
            fd = ty.get('fn')
            if fd:
                return self.call_fn(fd, args, atys, rty, s, fr, tag, t)
        return self.opaque(('indirect', f), None, args, rty, s, fr, tag)

    def call_closure(self, clo, args, s, fr, tag, rty, ref=None):
        iid = clo[2]
        if iid is None or iid < 0 or self.insts[iid].get('body') is None:
            return self.opaque(('closure', iid), None, [clo] + args, rty, s, fr, tag)
        inst = self.prep(iid)
        if self.on_stack(inst) or len(self.stack) > self.MAXDEPTH:
            self.cut.add(iid)
            return self.opaque(('closure', iid), None, [clo] + args, rty, s, fr, tag)
        fid = self.newfid(fr.fid, ('clo', tag, iid))
        et = self.types[inst.body['locals'][1]]
        s = s.copy()
        if et['k'] == 'ref':
            if ref is not None:
                env = ref
            elif et['mut']:
                c = (fid, 'env')
                s.cells[c] = clo
                env = ('ref', c, ())
            else:
                env = ('rv', clo)
        else:
            env = clo
        return self.run_inst(iid, [env] + args, s, fid)

    def on_stack(self, inst):
        return any(f.inst.id == inst.id for f in self.stack)

    def call_fn(self, fd, args, atys, rty, s, fr, tag, t=None):
        path = fd.get('res') or fd['path']
        if self.rules is not None:
            r = self.rules.on_call(self, fd, path, args, atys, rty, s, fr, tag, t)
            if r is not None:
                return r
        # calls of closures and function values through the Fn traits
        tr = fd.get('trait')
        if tr in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn') and len(args) == 2:
            ct = args[0]
            ref = None
            if ct[0] == 'ref':
                ref = ct
                ct = self.read(s, ('cell', ct[1]), ct[2])
            while ct[0] == 'rv':
                ct = ct[1]
            if ct[0] == 'ref':
                ref = ct
                ct = self.read(s, ('cell', ct[1]), ct[2])
            tup = args[1]
            aa = list(tup[3]) if tup[0] == 'agg' else [tup]
            if ct[0] == 'agg' and ct[1] == 'closure':
                inst = self.insts[ct[2]] if ct[2] is not None and ct[2] >= 0 else None
                if inst is not None and inst.get('body'):
                    if self.types[inst['body']['locals'][1]]['k'] != 'ref':
                        ref = None
                return self.call_closure(ct, aa, s, fr, tag, rty, ref)
            if ct[0] in ('fn', 'fnty'):
                return self.call_value(ct, aa, [None] * len(aa), rty, s, fr, tag, t)
            m = self.models.get(path)
            if m is not None:
                return m(self, fd, args, atys, rty, s, fr, tag)
            return self.opaque((path, fd['full']), fd, args, rty, s, fr, tag)
        if fd.get('dk', '').startswith('Ctor'):
            return [(s, self.ctor(fd, args, rty))]
        m = self.models.get(path) or self.models.get(fd['path'])
        if m is not None:
            r = m(self, fd, args, atys, rty, s, fr, tag)
            if r is not None:
                return r
        if tr is not None and tr.startswith('std::ops::') and len(args) == 2:
            r = self.m_optrait(self, fd, args, atys, rty, s, fr, tag)
            if r is not None:
                return r
        if self.peel and args and not fd.get('local') and tr in ('std::iter::Iterator', 'std::iter::DoubleEndedIterator'):
            r = self.consume(self, fd, args, atys, rty, s, fr, tag)
            if r is not None:
                return r
        if fd.get('name') == 'clone' and tr == 'std::clone::Clone' and 'inst' not in fd:
            return self.models['std::clone::Clone::clone'](self, fd, args, atys, rty, s, fr, tag)
        iid = fd.get('inst')
        if iid is not None and self.insts[iid].get('body'):
            inst = self.prep(iid)
            again = self.on_stack(inst)
            if again and self.peel and sum(f.inst.id == iid for f in self.stack) < 4 \
                    and self.rules.focus(self, None, args, s):
                again = False
            if not again and len(self.stack) < self.MAXDEPTH:
                if self.use_summaries:
                    r = self.try_summary(inst, args, s, fr, tag)
                    if r is not None:
                        return r
                fid = self.newfid(fr.fid, (tag, iid))
                return self.run_inst(iid, args, s, fid)
            if iid in self.rec:
                self.rec_used.add(iid)
                try:
                    return self.apply_summary(inst, self.rec[iid], args, s, fr, tag)
                except Cut:
                    pass
            if inst.local:
                self.cut.add(iid)
        if t is not None and 'to' not in t:
            self.oblige(fr, tag, 'panic:' + path, False, t['sp'], s)
            return []
        if not fd.get('local') and self.panicking.search(path) and isinstance(tag, int):
            self.oblige(fr, tag, 'lib:' + path, False, t['sp'] if t else '', s)
        return self.opaque((path, fd['full']), fd, args, rty, s, fr, tag)

    def ctor(self, fd, args, rty):
        t = self.types[rty]
        p = t.get('path', '?')
        vn = fd['path'].rsplit('::', 1)[-1]
        std = {'Some': 1, 'None': 0, 'Ok': 0, 'Err': 1}
        if p in ('std::option::Option', 'std::result::Result'):
            return ('agg', p, std[vn], tuple(args))
        if p == 'nom::Err':
            return ('agg', p, {'Incomplete': 0, 'Error': 1, 'Failure': 2}[vn], tuple(args))
        if p == 'std::borrow::Cow':
            return ('agg', p, {'Borrowed': 0, 'Owned': 1}[vn], tuple(args))
        a = self.F.adts.get(p)
        if a is not None:
            for i, v in enumerate(a['variants']):
                if v['name'] == vn:
                    return ('agg', p, i, tuple(args))
            return ('agg', p, 0, tuple(args))
        return self.sym(('ctor', fd['path'], tuple(args)), rty)

    def hasmut(self, v, d=4):
        if v[0] == 'ref':
            return True
        if d == 0:
            return False
        if v[0] == 'agg':
            return any(self.hasmut(f, d - 1) for f in v[3])
        if v[0] == 'rv':
            return self.hasmut(v[1], d - 1)
        if v[0] == 'sym':
            return any(self.hasmut(f, d - 1) for _, f in v[2])
        return False

    def opaque(self, name, fd, args, rty, s, fr, tag):
        self.opaque_calls[name[0] if isinstance(name, tuple) else name] += 1
        if args and not (fd is not None and fd.get('local')):
            self.drive(self, args, s, fr, tag)
        if any(self.hasmut(a) for a in args):
            s = s.copy()
            for i, a in enumerate(args):
                self.havoc_ref(s, a, fr.fid, (tag, i))
            return [(s, self.sym(('site', fr.fid, tag), rty))]
        if fd is not None and self.is_pure(fd):
            return [(s, self.sym(('call', name, tuple(args), fr.inst.env), rty))]
        # a fresh value per site; inside a loop the join renames it
        s = s.copy()
        v = self.sym(('site', fr.fid, tag), rty)
        return [(s, v)]

    def is_pure(self, fd):
        # no argument lets the callee change tracked state: same arguments, same answer
        return True


class Instantiate:
    """rename the atoms of a summary: what is derived from the parameters becomes what is derived from
    the actual arguments, everything else becomes new at this call site"""

    def __init__(self, E, inst, args, st, site):
        self.E = E
        self.inst = inst
        self.args = args
        self.st = st
        self.site = site
        self.am = {}
        self.sm = {}
        self.km = {}

    def lin(self, l):
        r = (l[0], ())
        for a, c in l[1]:
            r = ladd(r, self.atom(a), c)
        return r

    def atom(self, a):
        r = self.am.get(a)
        if r is None:
            r = self.am[a] = self.atom0(a)
        return r

    def fresh(self, a):
        key, lo, hi = self.E.atoms[a]
        return self.E.alin(('inst', self.site, a), lo, hi)

    def atom0(self, a):
        E = self.E
        key, lo, hi = E.atoms[a]
        k = key[0]
        if k == 'v':
            v = self.ev(key[1])
            if v is None:
                return self.fresh(a)
            if v[0] == 'key':
                return E.alin(('v', v[1]), lo, hi)
            if v[0] in ('i', 'b'):
                return E.vint(v)
            if v[0] == 'sym':
                return E.alin(('v', E.syms[v[1]][0]), lo, hi)
            raise Cut('v')
        if k == 'discr':
            v = self.symval(key[1])
            if v[0] in ('agg', 'sym'):
                if v[0] == 'sym':
                    return E.alin(('discr', v[1]), lo, hi)
                return E.dl(v)
            raise Cut('discr')
        if k == 'len':
            b = self.base(key[1])
            if b[0] == 'sl':
                return ladd(b[3], b[2], -1)
            return E.lenlin(b)
        if k == 'tab':
            bl = self.atom(key[1])
            fb = E.fbase(bl)
            tab = key[2]
            c = lconst(bl)
            if c is not None:
                if 0 <= c < len(tab):
                    return L(tab[c])
                raise Cut('tab')
            if fb is not None:
                return E.tab_of(bl, lambda x: tab[x] if 0 <= x < len(tab) else tab[0])
            raise Cut('tab')
        if k in ('op', 'mul', 'trunc', 'bool', 'asbool', 'cmp'):
            nk = self.key(key)
            return E.alin(nk, lo, hi)
        if not E.adeps(a) and not self.depends(key):
            return self.fresh(a)
        return self.fresh(a)

    def depends(self, key):
        return True

    def base(self, b):
        """a slice base: a renamed base or an actual slice"""
        k = b[0]
        E = self.E
        if k == 'const':
            return b
        if k == 's':
            key = b[1]
            v = self.ev(key)
            if v is None:
                return ('s', ('inst', self.site, key))
            if v[0] == 'key':
                return ('s', v[1])
            if v[0] == 'sym':
                return ('s', E.syms[v[1]][0])
            s = E.as_slice(v)
            if s is None:
                raise Cut('base')
            return s
        if k == 'arrv':
            return ('arrv', tuple(self.val(x) for x in b[1]))
        if k == 'arrn':
            return ('arrn', ('inst', self.site, b[1]), b[2])
        return (k, ('inst', self.site) + tuple(b[1:]))

    def sl(self, v):
        b = self.base(v[1])
        s, e = self.lin(v[2]), self.lin(v[3])
        if b[0] == 'sl':
            return ('sl', b[1], ladd(b[2], s), ladd(b[2], e))
        return ('sl', b, s, e)

    def symval(self, sid):
        r = self.sm.get(sid)
        if r is None:
            key, ty = self.E.syms[sid]
            v = self.ev(key, ty)
            if v is None:
                r = ('sym', self.E.symid(('inst', self.site, sid)), ())
            elif v[0] == 'key':
                r = ('sym', self.E.symid(v[1]), ())
            else:
                r = v
            self.sm[sid] = r
        return r

    def ev(self, key, ty=None):
        """the actual value named by a key of the summary; None: not derived from the parameters;
        ('key', k): an opaque value to be named k"""
        try:
            if key in self.km:
                return self.km[key]
        except TypeError:
            pass
        r = self.ev0(key, ty)
        self.km[key] = r
        return r

    def ev0(self, key, ty):
        E = self.E
        if not isinstance(key, tuple) or not key:
            return None
        k = key[0]
        if k == 'arg' and len(key) == 3:
            if key[1] != self.inst.id:
                return None
            return self.args[key[2]]
        if len(key) == 2 and key[1] in ('data', 'start') and isinstance(k, tuple):
            v = self.ev(k)
            if v is None:
                return None
            if v[0] == 'key':
                return ('key', (v[1], key[1]))
            if v[0] == 'agg' and v[1] == 'input::Input':
                d = v[3][0]
                rg = v[3][1]
                if d[0] != 'rv' or d[1][0] != 'sl' or rg[0] != 'agg':
                    raise Cut('input')
                sl = d[1]
                st, en = rg[3]
                if st[0] != 'i' or en[0] != 'i':
                    raise Cut('input')
                n = ladd(sl[3], sl[2], -1)
                df = ladd(ladd(en[1], st[1], -1), n, -1)
                if df != L(0) and not E.entails(self.st, ('eq', df)):
                    raise Cut('input')
                return sl if key[1] == 'data' else st
            raise Cut('input')
        if k == '*' and len(key) >= 2:
            v = self.symval(key[1]) if isinstance(key[1], int) else self.ev(key[1])
            if v is None:
                return None
            if v[0] == 'key':
                return ('key', ('*', E.symid(v[1])))
            if v[0] == 'rv':
                return v[1]
            if v[0] == 'ref':
                return E.read(self.st, ('cell', v[1]), v[2])
            if v[0] == 'agg' and v[1] == 'std::boxed::Box':
                return v[3][0]
            if v[0] == 'sym':
                return ('key', ('*', v[1]))
            return v
        if k == 'proj' and len(key) == 4:
            v = self.symval(key[1]) if isinstance(key[1], int) else self.ev(key[1])
            if v is None:
                return None
            if v[0] == 'key':
                return ('key', ('proj', E.symid(v[1]), key[2], key[3]))
            if v[0] == 'agg':
                if v[1] not in ('closure', '()') and v[2] != key[2]:
                    return ('key', ('bad', self.site, key))
                return v[3][key[3]] if key[3] < len(v[3]) else None
            if v[0] == 'sym':
                for kk, x in v[2]:
                    if kk == (key[2], key[3]):
                        return x
                return ('key', ('proj', v[1], key[2], key[3]))
            raise Cut('proj')
        if k == 'content' and len(key) == 2:
            v = self.symval(key[1]) if isinstance(key[1], int) else self.ev(key[1])
            if v is None:
                return None
            if v[0] == 'key':
                return ('key', ('content', v[1]))
            s = E.as_slice(v)
            if s is not None:
                return s
            if v[0] == 'sym':
                return ('key', ('content', v[1]))
            raise Cut('content')
        if k == 'elem' and len(key) == 3:
            b = self.base(key[1])
            at = self.lin(key[2])
            if b[0] == 'sl':
                return E.elem(('sl', b[1], b[2], b[3]), at, ty) if ty is not None else ('key', ('elem', b[1], ladd(b[2], at)))
            return ('key', ('elem', b, at))
        if k in ('call', 'op', 'cast', 'bytes', 'fb') or k == 'promoted' or k == 'const' or k == 'tyconst' or k == 'cv':
            if k in ('promoted', 'const', 'tyconst', 'cv'):
                return ('key', key)
            return ('key', self.key(key))
        return None

    def key(self, k):
        """rename inside a structural key"""
        if isinstance(k, tuple):
            if self.islin(k):
                return self.lin(k)
            if self.isval(k):
                return self.val(k)
            return tuple(self.key(x) for x in k)
        return k

    def islin(self, k):
        return len(k) == 2 and isinstance(k[0], int) and isinstance(k[1], tuple) and all(
            isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], int) for x in k[1]) \
            and (k[1] != () or True)

    def isval(self, k):
        return bool(k) and k[0] in ('i', 'b', 'agg', 'sym', 'rv', 'sl', 'ref', 'fn', 'fnty') and len(k) >= 2 \
            and (k[0] != 'sl' or len(k) == 4) and (k[0] not in ('agg',) or len(k) == 4)

    def val(self, v):
        k = v[0]
        if k == 'i':
            return ('i', self.lin(v[1]))
        if k == 'b':
            return ('b', self.cond(v[1]))
        if k == 'agg':
            return ('agg', v[1], v[2], tuple(self.val(x) for x in v[3]))
        if k == 'rv':
            return ('rv', self.val(v[1]))
        if k == 'sl':
            return self.sl(v)
        if k == 'sym':
            r = self.symval(v[1])
            if v[2]:
                if r[0] != 'sym':
                    raise Cut('ov')
                ov = dict(r[2])
                for kk, x in v[2]:
                    ov[kk] = self.val(x)
                r = ('sym', r[1], tuple(sorted(ov.items(), key=lambda x: x[0])))
            return r
        if k in ('fn', 'fnty'):
            return v
        raise Cut('val ' + k)

    def cond(self, c):
        k = c[0]
        if k in ('c', 'top'):
            return c
        if k in ('le', 'eq', 'ne'):
            return self.E.simp((k, self.lin(c[1])))
        if k in ('and', 'or'):
            return self.E.simp((k, self.cond(c[1]), self.cond(c[2])))
        if k in ('all', 'notall'):
            return (k, self.key(c[1])) + c[2:]
        raise Cut('cond')


class Fn:
    """a function item value, compared by its full path"""
    __slots__ = ('d', 'k')

    def __init__(self, d):
        self.d = d
        self.k = d['full']

    def __eq__(self, o):
        return isinstance(o, Fn) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __lt__(self, o):
        return self.k < o.k

    def __repr__(self):
        return 'Fn(%s)' % self.k


class Frame:
    __slots__ = ('inst', 'fid', 'depth', 'cur', 'cap', 'peel')

    def __init__(self, inst, fid, depth):
        self.inst = inst
        self.fid = fid
        self.depth = depth
        self.cur = None


class Rules:
    """hooks a property may override"""
    want_obligations = True

    collects = False        # run the iterators of the crate where library code consumes them
    loopstates = 3          # states kept apart from one pass through a loop to the next

    def use_summary(self, eng, inst, args, s, fr, tag):
        return True

    def make_sym(self, eng, key, ti, t):
        return None

    def on_call(self, eng, fd, path, args, atys, rty, s, fr, tag, t):
        return None

    def focus(self, eng, fr, args, st):
        """is this frame one to follow path by path (probe mode)?"""
        return True

    def on_loop(self, eng, fr, h, st):
        pass

    def on_back(self, eng, fr, h, st, back):
        pass

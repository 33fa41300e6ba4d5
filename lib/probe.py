"""Input-class analyses: run a decoder on the abstract input 'some bytes constrained, everything else
arbitrary' and look at the abstract exits: which outcomes remain possible, and what they return."""
import re
import base, run
from absint import L, ladd, lneg, lconst, State, Budget, LEN_MAX
import models
from models import RES, sl_of, slen, val, u8ty

ALL = (1 << 256) - 1


def bits(*vals):
    m = 0
    for v in vals:
        if isinstance(v, range):
            for x in v:
                m |= 1 << x
        else:
            m |= 1 << v
    return m


def rng(a, b):
    return ((1 << (b + 1)) - 1) & ~((1 << a) - 1)


class ProbeRules(run.InputRules):
    """functions that look at the constrained bytes are analysed in place, not through a summary"""
    inp = None
    peel = 11
    maxstates = 24
    upto = 0
    atoms = frozenset()
    ints = False               # also functions given numbers made of constrained bytes

    def touches(self, E, s, v, d=0, x=0):
        if d > 5:
            return False
        if v[0] == 'rv':
            return self.touches(E, s, v[1], d + 1, x)
        if v[0] == 'ref':
            return self.touches(E, s, E.read(s, ('cell', v[1]), v[2]), d + 1, x)
        if v[0] == 'sl':
            return v[1] == self.inp[1] and lconst(v[2]) is not None and (
                lconst(v[2]) <= self.upto + x or lconst(v[3]) is not None)
        if v[0] == 'agg':
            return any(self.touches(E, s, y, d + 1, x) for y in v[3])
        if v[0] == 'i' and self.ints:
            return any(a in self.atoms for a, _ in v[1][1])
        return False

    def concrete(self, v):
        if v[0] == 'i':
            return not v[1][1]
        if v[0] == 'b':
            return v[1][0] == 'c'
        if v[0] == 'agg':
            return all(self.concrete(x) for x in v[3])
        return v[0] == 'rv' and self.concrete(v[1])

    def focus(self, E, fr, args, s):
        return self.inp is None or any(self.touches(E, s, a, 0, 1) for a in args)

    def use_summary(self, E, inst, args, s, fr, tag):
        return self.inp is None or not (any(self.touches(E, s, a) for a in args)
                                        or self.ints and len(args) > 1 and all(self.concrete(a) for a in args))


class Outcome:
    __slots__ = ('E', 'inp', 'exits', 'err', 'args')

    def ok(self):
        """[(value, state)] of exits that may be Ok; value None when not known"""
        out = []
        for s, v in self.exits:
            if v[0] == 'agg' and v[1] == RES:
                if v[2] == 0:
                    out.append((v[3][0], s))
            else:
                out.append((None, s))
        return out

    def errs(self):
        out = []
        for s, v in self.exits:
            if v[0] == 'agg' and v[1] == RES:
                if v[2] == 1:
                    out.append((v[3][0], s))
            else:
                out.append((None, s))
        return out


def input_slice(E, st, args):
    """slice of the (last) argument that carries input bytes"""
    for a in reversed(args):
        v = val(E, st, a)
        if v[0] == 'agg' and v[1] == 'input::Input':
            return sl_of(E, st, v[3][0])
        s = E.as_slice(v)
        if s is not None:
            return s
        if v[0] == 'sym':
            continue
    return None


def constrain(E, st, sl, bytes_=None, minlen=0, exactlen=None):
    """facts about the bytes at fixed offsets of a slice; False if contradictory"""
    n = slen(sl)
    need = minlen
    for i, m in (bytes_ or {}).items():
        need = max(need, i + 1)
    if need and not E.add_le(st, ladd(L(need), n, -1)):
        return False
    if exactlen is not None:
        if not (E.add_le(st, ladd(n, L(exactlen), -1)) and E.add_le(st, ladd(L(exactlen), n, -1))):
            return False
    for i, m in (bytes_ or {}).items():
        e = E.elem(sl, L(i), u8ty(E))
        a = E.vint(e)[1]
        if len(a) != 1:
            raise base.CheckError('byte %d has no atom' % i)
        st.mask[a[0][0]] = E.bmask(st, a[0][0]) & m
    return True


def probe(F, iid, bytes_=None, minlen=0, exactlen=None, rules=None, steps=200000, setup=None, fixed=None):
    o = Outcome()
    rules = rules or ProbeRules()

    def prep(E, inst, args, st):
        if fixed is not None:      # the last argument is a slice of this length
            args[-1] = ('rv', ('sl', ('s', ('octets',)), L(0), L(fixed)))
        o.inp = input_slice(E, st, args)
        rules.inp = o.inp
        rules.upto = max(max(bytes_ or {0: 0}), minlen, exactlen or 0)
        if o.inp is None:
            raise base.CheckError('no input argument in ' + inst['full'])
        if not constrain(E, st, o.inp, bytes_, minlen, exactlen):
            raise base.CheckError('contradictory input class')
        rules.atoms = frozenset(st.mask)
        if setup:
            setup(E, inst, args, st, o.inp)
        return args, st
    E, rs, args, err = run.run_root(F, iid, rules, steps, prep)
    o.E, o.exits, o.err, o.args = E, rs, err, args
    return o


def eq0(E, s, lin):
    """is the linear form known to be zero?"""
    c = lconst(lin)
    if c is not None:
        return c == 0
    a, b = E.sup(s, lin), E.sup(s, lneg(lin))
    return a is not None and b is not None and a <= 0 and b <= 0


def entry_points(F, methods):
    """{(self type string, method): instance}: trait methods per implementing type, generic types
    through their identity instance"""
    out = {}
    for r in F.roots:
        if r['method'] in methods and run.has_body(F, r['inst']):
            out.setdefault((short(F.types[r['self']]['s']), r['method']), r['inst'])
    for f in F.fns.values():
        if f.get('name') in methods and f.get('trait_ref') and run.has_body(F, f.get('inst')):
            m = re.match(r'<(.*) as [^>]*', f['trait_ref'])
            self_ = short(f['trait_ref'][1:].split(' as ')[0])
            out.setdefault((self_, f['name']), f['inst'])
    return out


def short(t):
    t = re.sub(r"<'_>|<'[a-z]+>", '', t)
    t = re.sub(r"'[a-z_]+, ", '', t)
    t = re.sub(r"&'[a-z_]+ ", '&', t)
    return re.sub(r'[\w:]*::', '', t)

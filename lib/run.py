"""Running the engine over sets of roots, and call-graph helpers over the instance facts."""
import re
from collections import defaultdict
from absint import Engine, Rules, State, Budget, LEN_MAX, ladd, L, lconst, lneg
import base


class InputRules(Rules):
    """`Input` values built outside: the span is as long as the data it describes (the type's own
    invariant, established by every constructor and kept by every method; checked as A-INPUT)."""

    def make_sym(self, E, key, ti, t):
        if t['path'] == 'input::Input':
            b = ('s', (key, 'data'))
            n = E.lenlin(b)
            st = E.alin(('v', (key, 'start')), 0, LEN_MAX)
            return ('agg', 'input::Input', 0, (('rv', E.fullsl(b)), ('agg', 'std::ops::Range', 0,
                                                                    (('i', st), ('i', ladd(st, n))))))
        return None


def make_args(E, inst):
    b = inst['body']
    return [E.sym(('arg', k), b['locals'][k + 1]) for k in range(b['argc'])]


def run_root(F, iid, rules, max_steps=400000, prep=None):
    """-> (engine, [(value, state)], error string or None)"""
    inst = F.insts[iid]
    E = Engine(F, rules)
    E.max_steps = max_steps
    E.root = inst['full']
    E.tyconsts = getattr(rules, 'tyconsts', None)
    E.peel = getattr(rules, 'peel', 0)
    E.MAXSTATES = getattr(rules, 'maxstates', E.MAXSTATES)
    st = State()
    args = make_args(E, inst)
    if prep:
        r = prep(E, inst, args, st)
        if r is not None:
            args, st = r
    try:
        rs = E.run_inst(iid, args, st, E.newfid(0, iid))
        return E, rs, args, None
    except Budget:
        return E, [], args, 'analysis budget exceeded'


def has_body(F, iid):
    return iid is not None and iid >= 0 and F.insts[iid].get('body')


def trait_roots(F, pat, seen=None):
    """instances of trait methods for every implementing type: regex over 'trait::method'"""
    seen = set() if seen is None else seen
    out = []
    for r in F.roots:
        if has_body(F, r['inst']) and r['inst'] not in seen and re.search(pat, '%s::%s' % (r['trait'], r['method'])):
            seen.add(r['inst'])
            out.append(r['inst'])
    return out


def fn_roots(F, pred, seen=None):
    seen = set() if seen is None else seen
    out = []
    for f in F.fns.values():
        i = f.get('inst')
        if has_body(F, i) and i not in seen and pred(f):
            seen.add(i)
            out.append(i)
    return out


def callees(F, iid):
    """instances a body refers to (calls, function items and closures passed around)"""
    c = F.insts[iid].get('_callees')
    if c is not None:
        return c
    out = set()

    def walk(x):
        if isinstance(x, dict):
            for k in ('inst', 'res_inst'):
                v = x.get(k)
                if isinstance(v, int) and v >= 0:
                    out.add(v)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    i = F.insts[iid]
    walk(i.get('body'))
    walk(i.get('promoted'))
    F.insts[iid]['_callees'] = out
    return out


def reachable(F, roots):
    seen = set(roots)
    todo = list(roots)
    while todo:
        for c in callees(F, todo.pop()):
            if c not in seen:
                seen.add(c)
                todo.append(c)
    return seen

"""E04: the class, form and number a value reports of itself are those its encoders use."""
import os
import base
import run as run_
from objs import *
import witness


class InPlace(run_.InputRules):
    def use_summary(self, E, inst, args, s, fr, tag):
        return False


def constants(rep):
    """Tagged and accept_tag of every type with a fixed tag"""
    F = base.facts('derive')
    fns = {f['path'].split('::')[-1]: f['inst'] for f in F.fns.values() if witness.MOD in f['path'] and run_.has_body(F, f.get('inst'))}
    items = [('tagged_%d' % i, x[0], x[1:], None) for i, x in enumerate(witness.TAGGED + witness.REFS)]
    acc = [(x[0], [x[3]]) for x in witness.ACCEPT] + list(witness.SEVERAL.items())
    for n, (kind, _) in witness.CHOICES.items():
        own = {'u8': 2, 'u16': 2, 'bool': 1, 'oct': 4}
        acc.append((n, sorted({num if kind else own.get(k, 16) for _, k, num in witness.alternatives(n)})))
    for i, (t, nums) in enumerate(acc):
        cuts = [-1] + nums + [(1 << 32)]
        items += [('accepts_%d' % i, t, True, (n, n)) for n in nums]
        items += [('accepts_%d' % i, t, False, (a + 1, b - 1)) for a, b in zip(cuts, cuts[1:]) if a + 1 <= b - 1]

    def work(k):
        fn, t, want, rng_ = items[k]

        def prep(E, inst, args, st):
            if rng_ is None:
                return args, st
            a, b = rng_
            n = L(a) if a == b else E.alin(('tag',), a, b)
            return [('agg', TAGT, 0, (('i', n),))], st
        E, rs, args, err = run_.run_root(F, fns[fn], InPlace(), 20000, prep)
        if err:
            return [err]
        if not rs:
            return ['no outcome']
        for s, v in rs:
            if rng_ is not None:
                if v[0] == 'b' and v[1][0] == 'c':
                    if bool(v[1][1]) != want:
                        return ['accept_tag(%s) is %s' % (rng_[0] if rng_[0] == rng_[1] else '%d to %d' % rng_, not want)]
                elif v[0] == 'b' and not E.assume(s.copy(), E.neg(v[1]) if want else v[1]):
                    pass
                elif v[0] == 'i' and eq0(E, s, ladd(E.vint(v), L(int(want)), -1)):
                    pass
                else:
                    return ['accept_tag is not decided by the tag']
                continue
            c, con, n = v[3]
            if c[0] != 'agg' or c[2] != want[0]:
                return ['CLASS is wrong']
            if con[0] == 'b' and con[1][0] == 'c':
                if bool(con[1][1]) != bool(want[1]):
                    return ['CONSTRUCTED is %s' % (not want[1])]
            elif con[0] != 'i' or not eq0(E, s, ladd(E.vint(con), L(want[1]), -1)):
                return ['CONSTRUCTED is wrong']
            if n[0] != 'agg' or not eq0(E, s, ladd(E.vint(n[3][0]), L(want[2]), -1)):
                return ['TAG is wrong']
        return []
    for k, bad, exc in base.pmap(work, range(len(items))):
        fn, t, want, rng_ = items[k]
        rep.obligations += 1
        where = '%s|%s' % (t, 'constants' if rng_ is None else 'accept_tag %d' % rng_[0])
        if exc:
            rep.violate(where + '|undecided', 'traits of %s: %s' % (t, exc.strip().splitlines()[-1]))
            continue
        rep.discharged += not bad
        for x in bad:
            rep.violate(where, 'impl Tagged / DynTagged for %s: %s' % (t, x))
    rep.floor('types with a fixed tag', len(items), 400)


def run():
    F = base.facts('nd')
    rep = base.Report('E04', 'proof')
    dyn, info = {}, {}
    for r in F.roots:
        if not run_.has_body(F, r['inst']):
            continue
        t = name_of(F.types[r['self']]['s'])
        if r['trait'] == 'tag::DynTagged' and r['method'] in DYN:
            dyn.setdefault(t, {})[r['method']] = r['inst']
        if re.search(r'(^|::)To(Ber|Der)$', r['trait']) and r['method'] in ('ber_tag_info', 'der_tag_info'):
            info.setdefault((t, r['method'][:3]), (r['self'], r['inst']))
    items = []
    for (ty, pre), (ti, iid) in sorted(info.items(), key=str):
        for x in cases_of(F, ty, ti, pre, False):
            name, setup = x[:2]
            ex = x[3] if len(x) > 3 else {}
            items.append((Case(ty, pre, 'tag_info', iid, {}, name, setup, None, ex.get('rules')), dyn.get(ty, {})))

    def work(n):
        c, ds = items[n]
        r = Run(F, c)
        if r.err:
            return [r.err]
        E, bad = r.E, set()
        done = 0
        for s, v in r.o.exits:
            if v[0] == 'sym':       # of a type parameter, as a whole
                if c.ty in DELEGATES:
                    done += 1
                    continue
                return ['not known']
            if c.ty == 'Option<T>' and c.name == 'absent':
                done += 1
                continue            # an absent value has no tag
            want = own_ident(r, s)
            got = v[3]
            for k, m in enumerate(('class', 'constructed', 'tag')):
                if want is not None and want[k] is not None and not eqv(E, s, r.strip(s, got[k]), r.strip(s, want[k])):
                    bad.add('%s_tag_info reports another %s than the type has' % (c.pre, m))
                if m not in ds or c.ty == '&T':
                    continue
                if m == 'constructed' and c.ty.startswith('TaggedParser'):
                    continue            # reports the form of the object it was decoded from
                for s2, d in r.measure(s, ds[m]):
                    if not eqv(E, s2, r.strip(s2, d), r.strip(s2, got[k])):
                        bad.add('DynTagged::%s and %s_tag_info disagree' % (m, c.pre))
            done += 1
        return sorted(bad) if done else ['no outcome']
    for n, bad, exc in base.pmap(work, range(len(items))):
        c = items[n][0]
        rep.obligations += 1
        where = '%s::%s|%s' % (c.ty, c.pre, c.name)
        i = F.insts[c.iid]
        if exc:
            rep.violate(where + '|undecided', '%s in %s: %s' % (i.get('sp'), i['full'], exc.strip().splitlines()[-1]))
            continue
        rep.discharged += not bad
        for t in bad:
            rep.violate(where, '%s in %s%s: %s' % (i.get('sp'), i['full'], ', ' + c.name if c.name else '', t))
    constants(rep)
    rep.floor('types', len({c.ty for c, _ in items}), 40)
    rep.floor('types with DynTagged', len({c.ty for c, d in items if d}), 30)
    rep.rules = ['tag_info and DynTagged of a value agree with each other and with the tag table of X.680']
    return rep

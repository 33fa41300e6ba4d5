"""A01: no decoding entry point panics, whatever the bytes."""
import os, re
import base, panics
import run as R

EXEMPT = [
    (r'^asn1_types::real::Real::(new|normalize_base10)$', r'overflow:(Sub|Add)',
     'unit counter of a loop that divides or multiplies a finite f64 at each turn: far fewer than 2^31 turns'),
    (r'^asn1_types::bitstring::BitString::new$', r'panic', 'documented precondition of a constructor, not a decoder'),
    (r'^asn1_types::oid::Oid::<.*>::iter::\{closure', r'overflow:Add', 'counts 7 bits per content byte of an object in memory'),
    (r'^asn1_types::set::any_set::AnySet::<.*>::(insert|remove)$', r'lib:std::collections::HashSet',
     'panics only if hashing or comparing Any does, which are roots of their own'),
]
# contract of nom::Input: callers pass an index the input has; every call in the crate is inlined and checked
NOT_ROOTS = re.compile(r'nom::Input>::(take|take_from|take_split)$')


def run(config='nd'):
    F = base.facts(config)
    rep = base.Report('A01', 'proof')
    seen = set()
    roots = R.trait_roots(F, panics.DECODE_TRAITS, seen)

    def pub(f):
        return (f.get('exported') and not panics.ENCODE.search(f['path'] + f.get('sig', '')) and
                re.search(r'input::Input|any::Any|header::Header|IResult|Iterator|&\S* \[u8\]', f.get('sig', ''))
                and not f.get('derived') and f.get('trait') not in ('std::fmt::Debug', 'std::fmt::Display')
                and not f.get('const'))
    fns = R.fn_roots(F, pub, seen)
    roots = [i for i in roots + fns if not NOT_ROOTS.search(F.insts[i]['path'])]

    def rf(inst):
        return not panics.ENCODE.search(inst['full']) and not NOT_ROOTS.search(inst['path']) \
            and not re.search(r'SubIdentifierIterator|^std::fmt|as std::fmt', inst['full'])
    if os.environ.get('VERIF_TIER', 'quick') != 'thorough':
        # one run per generic body, its type parameters and their methods unknown, covers every instantiation
        ident = {}
        for f in F.fns.values():
            if R.has_body(F, f.get('inst')):
                ident[F.insts[f['inst']]['path']] = f['inst']
        rep.coverage['counts'] = {'entry points': len(roots)}
        roots = list(dict.fromkeys(ident.get(F.insts[i]['path'], i) for i in roots))
    panics.analyse(F, rep, roots, EXEMPT, rf)
    c = rep.coverage['counts']
    rep.floor('roots', c['roots'], 400)
    rep.floor('obligations', rep.obligations, 20000)
    rep.rules = ['every panic edge of MIR (index, slice, arithmetic overflow, division, unwrap, explicit panic, '
                 'panicking library call) on every abstract path from each decoding entry point is infeasible']
    rep.assumptions = ['library functions listed as assumed total do not panic',
                       'span of an Input built by the caller matches its data']
    rep.coverage['trusted_base'] = ['rustc MIR and trait resolution', 'lib/absint.py, lib/models.py (library models)']
    rep.coverage['checker_cmd'] = './check A01'
    return rep


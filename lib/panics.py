"""Panic-freedom obligations over a set of roots (A01, A02)."""
import re, time
import base, run
from absint import Budget

DECODE_TRAITS = (r'^(from_ber::|from_der::|ber::|.*\bDynTagged::accept_tag|.*Choice|.*TestValidCharset|.*GetObjectContent'
                 r'|std::convert::TryFrom|nom::Input|.*CheckDerConstraints)')
ENCODE = re.compile(r'to_ber|to_der|ToBer|ToDer|SerializeResult|encoder')


def analyse(F, rep, roots, exempt, root_filter=None, steps=400000):
    """runs the roots, then everything local they reach that no context covered, and records every
    undischarged obligation"""
    todo = list(dict.fromkeys(roots))
    done, covered = set(), set()
    bad, stats, opaque, errs = {}, {'ok': 0}, {}, []
    used_exempt = set()
    rounds = 0
    while todo:
        rounds += 1

        def job(iid):
            E, rs, args, err = run.run_root(F, iid, run.InputRules(), steps)
            return (err, [(k, o['ok'], o['bad'][:3], o['sp']) for k, o in E.obl.items()], sorted(E.covered),
                    dict(E.opaque_calls), sorted(E.notes))
        for iid, r, exc in base.pmap(job, todo):
            full = F.insts[iid]['full']
            done.add(iid)
            if exc:
                errs.append((full, 'analysis error: ' + exc.strip().splitlines()[-1]))
                continue
            err, obl, cov, op, notes = r
            if err:
                errs.append((full, err))
            covered.update(cov)
            for k, v in op.items():
                opaque[k] = opaque.get(k, 0) + v
            for n in notes:
                errs.append((full, 'unsupported construct: ' + str(n)))
            for k, ok, b, sp in obl:
                stats['ok'] += ok
                if b:
                    e = bad.setdefault(k, [sp, 0, b[0]])
                    e[1] += len(b)
        reach = run.reachable(F, done)
        todo = sorted(i for i in reach if i not in covered and i not in done and F.insts[i].get('local')
                      and run.has_body(F, i) and (root_filter is None or root_filter(F.insts[i])))
    rep.coverage.setdefault('counts', {})['roots'] = len(done)
    sites = {}
    for (path, lib, blk, kind), (sp, n, (root, stack)) in bad.items():
        sites.setdefault((path, kind), []).append((sp, lib, root, stack, n))
    rep.obligations += stats['ok'] + sum(len(v) for v in sites.values())
    rep.discharged += stats['ok']
    for (path, kind), l in sorted(sites.items()):
        why = next((w for p, k, w in exempt if re.search(p, path) and re.search(k, kind)), None)
        if why:
            used_exempt.add((path, kind, why))
            continue
        sp, lib, root, stack, n = l[0]
        rep.violate('%s|%s' % (norm(path), kind),
                    '%s may panic: %s in %s%s, reached from %s (call chain %s); %d site(s): %s'
                    % (sp, kind, path, ' via ' + lib if lib else '', root, ' > '.join(stack[-6:]), len(l),
                       ', '.join(x[0] for x in l)))
    for full, e in errs:
        rep.violate('undecided|' + norm(full), '%s: %s' % (full, e))
    rep.coverage['exempt_sites'] = sorted('%s %s: %s' % x for x in used_exempt)
    rep.coverage['instances_covered'] = len(covered | done)
    rep.coverage['library_calls_by_model_or_assumed_total'] = sorted(opaque)[:80]
    return covered, done


def norm(p):
    return re.sub(r"'[a-z_]+", "'_", re.sub(r'\{closure#\d+\}', '{closure}', re.sub(r'@\S+:\d+:\d+: \d+:\d+', '@', p)))

"""Infrastructure shared by the checks: builds the driver, dumps the facts of /repo's current
source, runs roots in parallel, keeps the known-findings list, writes evidence, decides the exit."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback
from multiprocessing import Pool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(VERIF, 'work')
sys.path.insert(0, os.path.join(VERIF, 'lib'))

EXT = ("nom::,std::option::Option,std::result::Result,std::ops::,std::convert::,std::cmp,std::borrow::,"
       "<std::option::Option,<std::result::Result,<std::ops::,<std::borrow::,core::,std::iter::,<std::iter::,"
       "core::iter,<T as std::convert,<I as std::iter,std::slice::<impl,<std::slice::Iter,core::slice,"
       "core::str::<impl,core::num::,std::array::<impl,<std::array::,std::boxed::Box,std::string::String::,"
       "<std::string::String,std::slice::")
TRAITS = "std::convert::TryFrom,std::clone::Clone,std::cmp::PartialEq,std::hash::Hash,nom::Input"

CONFIGS = {
    # the code as users get it without the tracing wrappers
    'nd': (['--no-default-features', '--features', 'std,bigint,datetime,serialize'], 'asn1_rs'),
    # everything, with the tracing wrappers
    'all': (['--all-features'], 'asn1_rs'),
    'default': ([], 'asn1_rs'),
    # a copy with types that use the derive macros
    'derive': (['--no-default-features', '--features', 'std,bigint,datetime,serialize'], 'asn1_rs'),
}


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def tree_hash(roots, exts=('.rs', '.toml', '.lock')):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'work', 'seeded', 'evidence'))
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode() + b'\0')
                    with open(p, 'rb') as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        rc, out = sh(['rustc', '+nightly', '--print', 'sysroot'])
        if rc:
            raise CheckError('no nightly toolchain: ' + out)
        _sysroot = out.strip()
    return _sysroot


def cargo_env(target):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    e['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
    e['CARGO_TARGET_DIR'] = target
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def lock(path):
    import fcntl
    os.makedirs(os.path.dirname(path), exist_ok=True)
    f = open(path, 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    with open(src, 'rb') as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    exe = os.path.join(WORK, 'mirfacts-' + h)
    if os.path.exists(exe):
        return exe
    with lock(os.path.join(WORK, '.lock')):
        if os.path.exists(exe):
            return exe
        tmp = exe + '.tmp%d' % os.getpid()
        rc, out = sh(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', tmp])
        if rc:
            raise CheckError('driver does not build:\n' + out[-3000:])
        os.rename(tmp, exe)
    return exe


def dump(config):
    """facts of /repo's current source for one feature configuration -> path of the JSON"""
    feats, crate = CONFIGS[config]
    exe = driver()
    key = tree_hash([REPO]) + '-' + os.path.basename(exe)[-8:]
    cwd = REPO
    if config == 'derive':
        import witness
        key += '-' + hashlib.sha256(witness.source().encode()).hexdigest()[:8]
    out = os.path.join(WORK, 'facts-%s-%s' % (config, key))
    path = os.path.join(out, crate + '.json')
    if os.path.exists(path):
        return path
    with lock(os.path.join(WORK, '.lock-' + config)):
        if os.path.exists(path):
            return path
        for d in os.listdir(WORK):  # older dumps of this configuration
            if d.startswith('facts-%s-' % config):
                shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
        tgt = tempfile.mkdtemp(prefix='tgt-', dir=WORK)
        tmp = tempfile.mkdtemp(prefix='out-', dir=WORK)
        try:
            e = cargo_env(tgt)
            if config == 'derive':
                cwd = os.path.join(tgt, 'copy')
                witness.scratch(REPO, cwd)
            e.update(MIRFACTS_EXT=EXT, MIRFACTS_TRAITS=TRAITS, MIRFACTS_OUT=tmp, MIRFACTS_CRATES=crate,
                     RUSTC_WORKSPACE_WRAPPER=exe)
            rc, o = sh(['cargo', '+nightly', 'check', '--offline', '--lib'] + feats, cwd=cwd, env=e)
            if rc or not os.path.exists(os.path.join(tmp, crate + '.json')):
                raise CheckError('cargo check of /repo failed:\n' + o[-3000:])
            os.rename(tmp, out)
        finally:
            shutil.rmtree(tgt, ignore_errors=True)
            shutil.rmtree(tmp, ignore_errors=True)
    return path


_F = {}


def facts(config='nd'):
    if config not in _F:
        from facts import Facts
        _F[config] = Facts(dump(config))
    return _F[config]


# ---------------------------------------------------------------- parallel map over work items
_job = None


def _run(x):
    try:
        return x, _job(x), None
    except Exception:
        return x, None, traceback.format_exc()


def pmap(fn, items, procs=8):
    """fn is called in forked children: it may close over facts"""
    global _job
    _job = fn
    items = list(items)
    if len(items) <= 1:
        return [_run(x) for x in items]
    res = []
    with Pool(min(procs, len(items))) as p:
        for r in p.imap_unordered(_run, items, 1):
            res.append(r)
    return res


# ---------------------------------------------------------------- verdict
class Report:
    def __init__(self, prop, level='other'):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.violations = []        # (key, text)
        self.coverage = {}
        self.assumptions = []
        self.obligations = self.discharged = 0
        self.rules = []

    def violate(self, key, text):
        if key not in [k for k, _ in self.violations]:
            self.violations.append((key, text))

    def floor(self, name, n, floor):
        self.coverage.setdefault('counts', {})[name] = n
        if n < floor:
            self.violate('floor|' + name, 'only %d %s analysed, at least %d expected: an anchor of the rule '
                         'is missing' % (n, name, floor))

    def known(self):
        fs = {}
        p = os.path.join(VERIF, 'known-findings.txt')
        for line in open(p) if os.path.exists(p) else ():
            m = re.match(r'finding: property=(\S+) key=<(.*)> what=(.*)$', line.strip())
            if m and m.group(1) == self.prop:
                fs[m.group(2)] = m.group(3)
        return fs

    def finish(self):
        known = self.known()
        new = [(k, t) for k, t in self.violations if k not in known]
        for k, t in self.violations:
            if k in known:
                print('KNOWN-FINDING: property=%s %s [%s]' % (self.prop, known[k], k))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        replay = os.path.join(VERIF, 'evidence', self.prop + '.violations.txt')
        cov = dict(self.coverage)
        cov['obligations'] = self.obligations
        cov['discharged'] = self.discharged
        if self.rules:
            cov['rules'] = self.rules
        cov.setdefault('explanation', 'see rules')
        if self.level == 'proof':
            cov.setdefault('checker_cmd', './check %s' % self.prop)
            cov.setdefault('trusted_base', 'rustc nightly MIR and trait resolution, /verif/driver, /verif/lib/absint.py and models.py (library models)')
        ev = {'property': self.prop, 'tier': os.environ.get('VERIF_TIER', 'quick'),
              'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 1),
              'violations': len(new)}
        if ev['tier'] not in ('quick', 'thorough'):
            ev['tier'] = 'quick'
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if new:
            with open(replay, 'w') as f:
                for k, t in new:
                    f.write('%s\n  %s\n' % (k, t))
            for k, t in new[:25]:
                print('  ' + k + '\n    ' + t.replace('\n', '\n    '))
            if len(new) > 25:
                print('  ... %d more in %s' % (len(new) - 25, replay))
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
            return 1
        if os.path.exists(replay):
            os.remove(replay)
        print('%s: held (%d/%d obligations, %s) in %.0f s' % (
            self.prop, self.discharged, self.obligations,
            ', '.join('%s %s' % (v, k) for k, v in self.coverage.get('counts', {}).items()), time.time() - self.t0))
        return 0


def main(prop, run):
    os.makedirs(WORK, exist_ok=True)
    try:
        rep = run()
        rc = rep.finish()
    except CheckError as e:
        print('check error:', e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return rc

"""Loading and pretty-printing of the MIR facts written by driver/main.rs."""
import json


class Facts:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.crate = d['crate']
        self.types = d['types']
        self.impls = d['impls']
        self.traits = d['traits']
        self.adts = {a['path']: a for a in d['adts']}
        self.fn_list = d['fns']
        self.fns = {}
        for f in d['fns']:
            self.fns.setdefault(f['path'], f)
        self.insts = d.get('insts', [])
        self.roots = d.get('roots', [])

    def tstr(self, i):
        return self.types[i]['s']

    def ty(self, i):
        return self.types[i]


def pplace(p):
    s = '_%d' % p['l']
    for e in p['p']:
        k = e[0]
        if k == 'deref':
            s = '(*%s)' % s
        elif k == 'field':
            s += '.' + (e[3] or str(e[1]))
        elif k == 'index':
            s += '[_%d]' % e[1]
        elif k == 'downcast':
            s += ' as ' + (e[2] or str(e[1]))
        else:
            s += '.' + str(e)
    return s


def pop(o):
    if 'cp' in o:
        return pplace(o['cp'])
    if 'mv' in o:
        return 'move ' + pplace(o['mv'])
    if 'c' in o:
        c = o['c']
        if 'fn' in c:
            fn = c['fn']
            return fn['full'] + ('{=>%s}' % fn['res'] if 'res' in fn else '')
        if 'promoted' in c:
            return 'promoted[%d]' % c['promoted']
        if 'v' in c:
            return c['v']
        if 'bytes' in c:
            try:
                return repr(bytes(c['bytes']))
            except ValueError:
                return str(c['bytes'])
        return c.get('s', '?')
    return str(o)


def prv(r, F):
    k = r[0]
    if k == 'use':
        return pop(r[1])
    if k == 'ref':
        return ('&mut ' if r[1] else '&') + pplace(r[2])
    if k == 'cast':
        return '%s as %s (%s)' % (pop(r[2]), F.tstr(r[3]), r[1])
    if k == 'bin':
        return '%s(%s, %s)' % (r[1], pop(r[2]), pop(r[3]))
    if k == 'un':
        return '%s(%s)' % (r[1], pop(r[2]))
    if k == 'discr':
        return 'discr(%s)' % pplace(r[1])
    if k == 'agg':
        a = r[1]
        n = a.get('path', a['k'])
        if a.get('enum'):
            n += '::' + a['variant']
        return '%s{%s}' % (n, ', '.join(pop(o) for o in r[2]))
    if k == 'repeat':
        return '[%s; %s]' % (pop(r[1]), r[2])
    return str(r)


def pbody(b, F, out, ind='  '):
    names = {}
    for n, p in b['names']:
        if not p['p']:
            names[p['l']] = n
    args = ', '.join('_%d%s: %s' % (i, '/' + names[i] if i in names else '', F.tstr(b['locals'][i]))
                     for i in range(1, b['argc'] + 1))
    out.append('%s(%s) -> %s' % (ind, args, F.tstr(b['locals'][0])))
    for i, l in enumerate(b['locals']):
        if i > b['argc'] and i in names:
            out.append('%s let _%d/%s: %s' % (ind, i, names[i], F.tstr(l)))
    for i, bb in enumerate(b['blocks']):
        if bb['cleanup']:
            continue
        out.append('%sbb%d:' % (ind, i))
        for s in bb['s']:
            out.append('%s  %s = %s' % (ind, pplace(s[0]), prv(s[1], F)))
        t = bb['t']
        k = t['k']
        if k == 'switch':
            out.append('%s  switch %s {%s, else bb%d}' % (ind, pop(t['on']), ', '.join('%s:bb%d' % (v, x) for v, x in t['cases']), t['else']))
        elif k == 'call':
            out.append('%s  %s = %s(%s) -> %s   [%s]' % (ind, pplace(t['dest']), pop(t['f']), ', '.join(pop(a) for a in t['args']), 'bb%d' % t['to'] if 'to' in t else '!', t['sp']))
        elif k == 'assert':
            out.append('%s  assert(%s==%s, %s(%s)) -> bb%d  [%s]' % (ind, pop(t['cond']), t['expected'], t['msg'], ', '.join(pop(a) for a in t['ops']), t['to'], t['sp']))
        elif k == 'drop':
            out.append('%s  drop %s -> bb%d' % (ind, pplace(t['place']), t['to']))
        elif k == 'goto':
            out.append('%s  goto bb%d' % (ind, t['to']))
        else:
            out.append('%s  %s' % (ind, k))


def pfn(f, F):
    out = ['fn #%s %s  [%s]' % (f.get('id'), f.get('full', f['path']), f['sp'])]
    pbody(f['body'], F, out)
    for i, p in enumerate(f['promoted']):
        out.append('  promoted[%d]:' % i)
        pbody(p, F, out, '    ')
    return '\n'.join(out)


if __name__ == '__main__':
    import sys
    F = Facts(sys.argv[1])
    for pat in sys.argv[2:]:
        for f in F.insts:
            if pat in f['path'] and f.get('body'):
                print(pfn(f, F))

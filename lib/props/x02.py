"""X02: the <beam> section creates exactly the described particles, bunches, loggers and probes."""
import math
import core, api, front, fp
from core import T, C
from rep import Rep
from fp import V
from props.xmlrun import Node, XRun, docs, scene, TMP, NULL, returned

E0 = lambda pt: pt.val(T('const', 'ElementaryCharge'))


def maybe(D, p=0.6):
    return D.rnd.random() < p


def corr(D):
    c = Node('correlations')
    D.local(c)
    for _ in range(D.rnd.randrange(1, 4)):
        i, d = D.rnd.sample(range(6), 2)
        a = dict(indep=str(i), dep=str(d), factor=D.num())
        c.kids.append(Node('linear', a))
    return c


def log(D, bf):
    l = Node('log', dict(file='log%d.sdds' % D.rnd.randrange(1000)))
    if maybe(D):
        l.attrs['step'] = str(D.rnd.randrange(2, 50))
    if bf and maybe(D):
        l.attrs['bunching-freq'] = D.num(0.2, 2)
    return l


def entry(D, tag):
    rnd = D.rnd
    n = Node(tag)
    if tag == 'probe':
        n.attrs['file'] = 'p%d.h5' % rnd.randrange(1000)
        if maybe(D):
            n.attrs['step'] = str(rnd.randrange(2, 50))
        if maybe(D):
            n.attrs['number'] = str(rnd.randrange(2, 50))
        return n
    if tag == 'SDDS':
        n.attrs['file'] = 's%d.sdds' % rnd.randrange(1000)
        if maybe(D):
            n.kids.append(Node('dir'))
            D.local(n.kids[-1])
            n.kids[-1].attrs.update(dict(x=D.num(), y=D.num(), z=D.num()))
        if maybe(D):
            n.kids.append(corr(D))
        if maybe(D):
            n.kids.append(log(D, True))
        D.leave()
        return n
    n.attrs.update(gamma=D.num(1.2, 20), charge=D.num(), cmr=D.num())
    if tag == 'bunch' and maybe(D, 0.8):
        n.attrs['n'] = str(rnd.choice((2, 3, 5, 10)))
    D.local(n)
    if maybe(D):
        t = Node('time')
        if tag == 'bunch' and maybe(D):
            D.local(t)
        t.attrs['t0'] = D.num()
        n.kids.append(t)
    p = Node('position')
    if tag == 'bunch' and maybe(D):
        D.local(p)
    p.attrs.update(dict(x=D.num(), y=D.num(), z=D.num()))
    if tag == 'bunch':
        for k in ('xrms', 'yrms', 'zrms', 'zft'):
            if maybe(D, 0.5):
                p.attrs[k] = D.num(0.1, 2)
    n.kids.append(p)
    m = Node('momentum')
    if tag == 'bunch' and maybe(D):
        D.local(m)
    m.attrs.update(dict(x=D.num(), y=D.num(), z=D.num()))
    if tag == 'bunch':
        for k in ('xrms', 'yrms', 'delta'):
            if maybe(D, 0.5):
                m.attrs[k] = D.num(0.1, 2)
    n.kids.append(m)
    if tag == 'bunch' and maybe(D):
        n.kids.append(corr(D))
    if maybe(D):
        n.kids.append(log(D, tag == 'bunch'))
    if tag == 'bunch' and maybe(D):
        t = Node('trajectories', dict(file='t%d.h5' % rnd.randrange(1000)))
        if maybe(D):
            t.attrs['step'] = str(rnd.randrange(2, 50))
        if maybe(D):
            t.attrs['particles'] = str(rnd.randrange(2, 50))
        n.kids.append(t)
    D.leave()
    return n


def form(dist):
    """the coordinates of a distribution as linear forms of independent random numbers"""
    if not isinstance(dist, dict) or dist['args'] is None or len(dist['args']) != 2:
        return None
    dim = int(dist['args'][0])
    cols = [{('u', i): 1.0} for i in range(dim)]
    for m, a in dist['log']:
        if m == 'generateGaussian':
            cols[int(a[0])] = {('g', int(a[0])): a[1]}
        elif m == 'scale':
            cols[int(a[0])] = {k: v * a[1] for k, v in cols[int(a[0])].items()}
        elif m == 'addCorrelation':
            addc(cols, int(a[0]), int(a[1]), a[2])
        elif m in ('getDIM', 'getNOP', 'getCoordinate', '~Distribution'):
            pass
        else:
            return None
    return cols


def addc(cols, i, d, f):
    for k, v in cols[i].items():
        cols[d][k] = cols[d].get(k, 0.0) + f * v


def sameform(a, b):
    for x, y in zip(a, b):
        for k in set(x) | set(y):
            if not fp.close(x.get(k, 0.0), y.get(k, 0.0)):
                return False
    return len(a) == len(b)


def want_bunch(pt, D, n):
    """linear forms and arguments of the bunch described by a node"""
    p, m = n.child('position'), n.child('momentum')
    v = D.value
    bg = math.sqrt(v(n, 'gamma') ** 2 - 1)
    nop = float(n.attrs.get('n', 1))
    q = v(n, 'charge') / E0(pt)
    cols = [{('g', 0): v(p, 'xrms')}, {('g', 1): v(p, 'yrms')}, None, {('g', 3): bg * v(m, 'xrms')}, {('g', 4): bg * v(m, 'yrms')}, {('g', 5): bg * v(m, 'delta')}]
    cols[2] = {('u', 2): v(p, 'zft')} if v(p, 'zft') else {('g', 2): v(p, 'zrms')}
    for c in n.child('correlations').find('linear'):
        addc(cols, int(c.attrs['indep']), int(c.attrs['dep']), v(c, 'factor'))
    d = D.vec(m)
    t = n.child('time')
    return cols, nop, [v(t, 't0') if t is not NULL else 0.0, D.vec(p), d / fp.sqrt(fp.dot(d, d)) * bg, q / nop, q / v(n, 'cmr') / nop]


def run(P, tier):
    R = Rep(P)
    S, f, me, args, ret = scene(P, 'parseBeam', 3)
    where = front.loc(f, f)
    done = {}
    for seed in range(1, (40 if tier == 'quick' else 300)):
        D = docs(seed)
        sec = Node('beam')
        todo = [D.rnd.choice(('particle', 'bunch', 'bunch', 'SDDS')) for _ in range(D.rnd.randrange(1, 5))]
        if maybe(D):
            todo.insert(D.rnd.randrange(len(todo) + 1), 'probe')
        ents = []
        for tag in todo:
            if maybe(D, 0.4):
                sec.kids.append(D.calc())
            ents.append(entry(D, tag))
            sec.kids.append(ents[-1])
        root = Node('teufel', {}, [Node('lattice'), sec, Node('tracking')])
        try:
            pt = fp.Point(P, seed)
            r = XRun(pt, S, S.events, me, root, D.start())
            b, kind = judge(pt, S, D, r, ents, args, ret)
        except TMP as ex:
            R.und.append('beam section: %s: %s' % (type(ex).__name__, ex))
            break
        R.oblig('section', None if b == '?' else not b, 'parseBeam|%s' % kind, where, f['n'], b or '')
        if b:
            break
    return R.result('The effect summary of parseBeam() is evaluated on modelled documents with particles, bunches, SDDS bunches and probes in varying order and '
                    'with varying optional parts. Compared with the document: the bunches added to the beam, their parameters, the distribution of their '
                    'particles as linear forms of the random numbers drawn, loggers with file, step and further settings, the probe request, the returned number.',
                    minimum=0)


def judge(pt, S, D, r, ents, args, ret):
    if r.outcome[0] == 'throw':
        return 'a documented section is refused: %s' % str(r.outcome[2].args)[:100], 'refused'
    bl = [e for e in ents if e.name != 'probe']
    c = returned(pt, r, ret)
    if c is not None and c != float(len(bl)):
        return 'returns %s for %d bunches' % (c, len(bl)), 'count'
    added = [a[0] for c, m, o, a in r.log if m == 'Add' and c == 'Beam']
    if len(added) != len(bl):
        return '%d bunches are added to the beam for %d entries' % (len(added), len(bl)), 'number'
    if any(not isinstance(b, dict) for b in added):
        return '?', ''
    logs = [a[0] for c, m, o, a in r.log if m == 'push']
    if any(not isinstance(x, dict) for x in logs):
        return '?', ''
    used = 0
    for n, b in zip(bl, added):
        w = '<%s>' % n.name
        if b['cls'] != 'Bunch' or b['args'] is None:
            return '?', ''
        a = list(b['args'])
        if n.name == 'SDDS':
            d = D.vec(n.child('dir')) if n.child('dir') is not NULL else V(0, 0, 1)
            d = d / fp.sqrt(fp.dot(d, d))
            if len(a) != 2:
                return '?', ''
            if a[0] != n.attrs['file']:
                return w + ' is read from file %s' % a[0], 'SDDS file'
            if not fp.close(a[1], d):
                return w + ' gets direction %s instead of %s' % (a[1], d), 'SDDS direction'
            got = [(int(x[0]), int(x[1]), x[2]) for m, x in b['log'] if m == 'addCorrelation']
            exp = [(int(c.attrs['indep']), int(c.attrs['dep']), D.value(c, 'factor')) for c in n.child('correlations').find('linear')]
            if len(got) != len(exp) or not all(x[:2] == y[:2] and fp.close(x[2], y[2]) for x, y in zip(got, exp)):
                return w + ' gets correlations %s instead of %s' % (got, exp), 'SDDS correlations'
        elif n.name == 'particle':
            ps = [x[0] for m, x in b['log'] if m == 'Add']
            if len(a) != 0 or not all(isinstance(p, dict) and p['args'] is not None and len(p['args']) == 2 for p in ps):
                return '?', ''
            if len(ps) != 1:
                return w + ' gives %d particles' % len(ps), 'particles'
            v = D.value
            q = v(n, 'charge') / E0(pt)
            bg = math.sqrt(v(n, 'gamma') ** 2 - 1)
            d = D.vec(n.child('momentum'))
            t = n.child('time')
            exp = [v(t, 't0') if t is not NULL else 0.0, D.vec(n.child('position')), d / fp.sqrt(fp.dot(d, d)) * bg, V(0, 0, 0)]
            for x, y, k in zip(ps[0]['args'], (q, q / v(n, 'cmr')), ('charge', 'mass')):
                if not fp.close(x, y):
                    return w + ': %s of the particle is %s instead of %s' % (k, x, y), 'particle ' + k
            it = [x for m, x in ps[0]['log'] if m == 'initTrajectory']
            if len(it) != 1:
                return ('?', '') if it else (w + ': the trajectory of the particle is not started', 'particle start')
            for x, y, k in zip(it[0], exp, ('time', 'position', 'momentum', 'acceleration')):
                if not fp.close(x, y):
                    return w + ': initial %s of the particle is %s instead of %s' % (k, x, y), 'particle ' + k
        else:
            if len(a) != 6:
                return '?', ''
            cols, nop, exp = want_bunch(pt, D, n)
            got = form(a[0])
            if got is None:
                return '?', ''
            if a[0]['args'] != [6.0, nop]:
                return w + ' of %d particles uses a distribution with %s dimensions and particles' % (nop, a[0]['args']), 'bunch size'
            if not sameform(got, cols):
                i = [i for i, (x, y) in enumerate(zip(got, cols)) if not sameform([x], [y])]
                return w + ': coordinate %s of the particles is %s instead of %s' % (i[:1], got[i[0]], cols[i[0]]), 'bunch distribution'
            for x, y, k in zip(a[1:], exp, ('start time', 'position', 'momentum', 'charge per particle', 'mass per particle')):
                if not fp.close(x, y):
                    return w + ': %s of the bunch is %s instead of %s' % (k, x, y), 'bunch ' + k
        # loggers
        l = n.child('log')
        want = []
        if l is not NULL:
            want.append(('ParameterLogger', [b, l.attrs['file'], float(l.attrs.get('step', 1))], [D.value(l, 'bunching-freq')] if 'bunching-freq' in l.attrs else []))
        l = n.child('trajectories')
        if l is not NULL:
            want.append(('TrajectoryLogger', [b, l.attrs['file'], float(l.attrs.get('step', 1)), float(l.attrs.get('particles', 1000000))], []))
        mine = [x for x in logs if x['args'] and x['args'][0] is b]
        used += len(mine)
        if len(mine) != len(want):
            return w + ' has %d loggers instead of %d' % (len(mine), len(want)), 'loggers'
        for x, (cls, la, rec) in zip(mine, want):
            if not x['cls'].startswith(cls):
                mine2 = [y for y in mine if y['cls'].startswith(cls)]
                if len(mine2) != 1:
                    return w + ' has a %s instead of a %s' % (x['cls'], cls), 'logger type'
                x = mine2[0]
            if len(x['args']) < len(la) or any((y != z) if isinstance(z, str) else not fp.close(y, z) for y, z in zip(x['args'][1:], la[1:])):
                return w + ': %s is created with %s instead of %s' % (cls, x['args'][1:], la[1:]), cls
            got = [y[0] for m, y in x['log'] if m == 'record_bunching']
            if len(got) != len(rec) or not all(fp.close(y, z) for y, z in zip(got, rec)):
                return w + ': %s records bunching at %s instead of %s' % (cls, got, rec), 'bunching'
    if used != len(logs):
        return '%d loggers do not belong to a bunch of the beam' % (len(logs) - used), 'loggers'
    pr = [e for e in ents if e.name == 'probe']
    fl = lambda k: r.fields.get((args[2], k))
    if pr:
        n = pr[-1]
        for k, w in (('requested', 1.0), ('filename', n.attrs['file']), ('step', float(n.attrs.get('step', 1))), ('number', float(n.attrs.get('number', 1)))):
            if fl(k) != w:
                return '<probe>: %s is %s instead of %s' % (k, fl(k), w), 'probe ' + k
    elif fl('requested'):
        return 'probe particles are requested without a <probe> entry', 'probe'
    return None, 'ok'

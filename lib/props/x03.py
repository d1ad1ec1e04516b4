"""X03: the <tracking> and <observer> sections set up exactly the described tracking, watch points, interactions and observers."""
import core, api, front, fp
from core import T, C
from rep import Rep
from fp import V
from props.xmlrun import Node, XRun, docs, scene, TMP, NULL
from props.x02 import maybe

TEMPL = {'snapshot': 'SnapshotObserver', 'screen': 'ScreenObserver', 'mesh': 'MeshedScreen', 'point': 'PointObserver'}


def track(D):
    rnd = D.rnd
    n = Node('tracking', {'method': 'Vay'})
    n.attrs['delta_t'] = D.num(0.1, 2)
    n.attrs['n'] = D.num(5, 400) if maybe(D, 0.3) else '%d' % rnd.randrange(2, 500)
    ents = []
    for _ in range(rnd.randrange(5)):
        if maybe(D, 0.4):
            n.kids.append(D.calc())
        k = Node(rnd.choice(('fel1d', 'watch', 'watch-sdds')))
        if k.name == 'fel1d':
            D.local(k)
            k.attrs['N'] = str(rnd.randrange(10, 99))
            D.leave()
        else:
            k.attrs['file'] = 'w%d.h5' % rnd.randrange(1000)
            k.attrs['step'] = D.num(5, 400) if maybe(D, 0.3) else '%d' % rnd.randrange(2, 500)
        ents.append(k)
        n.kids.append(k)
    return n, ents


def observer(D):
    rnd = D.rnd
    n = Node(rnd.choice(('snapshot', 'screen', 'mesh', 'point')), dict(file='o%d.h5' % rnd.randrange(1000)))
    if maybe(D):
        n.attrs['source'] = rnd.choice(('beam', 'lattice'))
    D.local(n)
    k = []
    if n.name != 'mesh':
        k.append(D.pos('position'))
        t = Node('time', dict(t0=D.num()))
        if n.name != 'snapshot':
            t.attrs.update(dt=D.num(), n=str(rnd.randrange(2, 99)))
        k.append(t)
    if n.name in ('snapshot', 'screen'):
        for x in 'hv':
            p = D.pos(x + 'pitch')
            p.attrs['n'] = str(rnd.randrange(2, 99))
            if n.name == 'screen' and maybe(D):
                p.attrs['dt'] = D.num()
            k.append(p)
    rnd.shuffle(k)
    n.kids += k
    D.leave()
    return n


def obsargs(D, n):
    p, h, v, t = [n.child(k) for k in ('position', 'hpitch', 'vpitch', 'time')]
    a = [n.attrs['file']]
    if n.name == 'mesh':
        return a
    i = lambda k: float(k.attrs['n'])
    a.append(D.vec(p))
    if n.name in ('snapshot', 'screen'):
        a += [D.vec(h), D.vec(v), i(h), i(v)]
    a.append(D.value(t, 't0'))
    if n.name == 'screen':
        a += [D.value(t, 'dt'), D.value(h, 'dt'), D.value(v, 'dt')]
    if n.name == 'point':
        a.append(D.value(t, 'dt'))
    if n.name != 'snapshot':
        a.append(i(t))
    return a


def run(P, tier):
    R = Rep(P)
    N = 30 if tier == 'quick' else 300
    enum = enums(P)
    S, f, me, args, ret = scene(P, 'parseTracking', 3)
    for seed in range(1, N):
        D = docs(seed)
        sec, ents = track(D)
        b, kind = one(S, f, me, args, D, sec, ents, seed, jtrack, R, enum)
        if b:
            break
    S, f, me, args, ret = scene(P, 'parseObservers', 1)
    for seed in range(1, N):
        D = docs(seed)
        sec, ents = Node('observer'), []
        for _ in range(D.rnd.randrange(5)):
            if maybe(D, 0.4):
                sec.kids.append(D.calc())
            ents.append(observer(D))
            sec.kids.append(ents[-1])
        b, kind = one(S, f, me, args, D, sec, ents, seed, jobs, R, enum)
        if b:
            break
    return R.result('The effect summaries of parseTracking() and parseObservers() are evaluated on modelled documents with all documented entries in varying '
                    'order and with varying optional parts. Compared with the document: tracking method, time step, number of steps, watch points (step, file, '
                    'format), interactions, observers with type, source, order and all parameters.', minimum=0)


def enums(P):
    """values of enumeration constants used by the public interface"""
    out = {}
    from props.iorun import walkbody
    for f in P.functions.values():
        if f.get('body') is None:
            continue
        for x in walkbody(f['body']):
            if x.get('d') == 'enum' and 'v' in x:
                out[x['n'].rsplit('::', 1)[-1]] = float(x['v'])
    return out


def one(S, f, me, args, D, sec, ents, seed, judge, R, enum):
    root = Node('teufel', {}, [Node('lattice'), Node('beam'), sec])
    try:
        pt = fp.Point(S.P, seed)
        r = XRun(pt, S, S.events, me, root, D.start())
        if r.outcome[0] == 'throw':
            b, kind = 'a documented section is refused: %s' % str(r.outcome[2].args)[:100], 'refused'
        else:
            b, kind = judge(D, r, sec, ents, args, enum)
    except TMP as ex:
        R.und.append('%s section: %s: %s' % (sec.name, type(ex).__name__, ex))
        return 'x', ''
    R.oblig(sec.name + ' section', None if b == '?' else not b, '%s|%s' % (f['n'], kind), front.loc(f, f), f['n'], b or '')
    return b, kind


def jtrack(D, r, sec, ents, args, enum):
    dt, n = D.value(sec, 'delta_t'), float(round(D.value(sec, 'n')))
    beam = [(m, a) for c, m, o, a in r.log if c == 'Beam']
    for m, w, txt in (('setTimeStep', dt, 'time step'), ('setNOTS', n, 'number of steps'), ('setTrackingMethod', enum.get('TRACKING_VAY'), 'tracking method')):
        got = [a[0] for x, a in beam if x == m]
        if not got:
            return 'the %s of the beam is not set' % txt, txt
        if w is not None and not fp.close(got[-1], w):
            return 'the %s of the beam is %s instead of %s' % (txt, got[-1], w), txt
    push = [a for c, m, o, a in r.log if m == 'push']
    fel = [a[0] for a in push if isinstance(a[0], dict)]
    wat = [a[1] for a in push if not isinstance(a[0], dict)]
    we = [e for e in ents if e.name != 'fel1d']
    fe = [e for e in ents if e.name == 'fel1d']
    if len(fel) != len(fe):
        return '%d interactions for %d in the document' % (len(fel), len(fe)), 'interactions'
    if len(wat) != len(we):
        return '%d watch points for %d in the document' % (len(wat), len(we)), 'watch points'
    for e, o in zip(fe, fel):
        a = o['args'] or []
        if o['cls'] != 'FEL_1D' or len(a) < 2:
            return '?', ''
        if not fp.close(a[0], dt):
            return 'the interaction is given the time step %s instead of %s' % (a[0], dt), 'interaction step'
        if a[1] is not e:
            return 'the interaction is set up from another node of the document', 'interaction node'
        for k, v in D.locals(e).items():
            if o['vars'].get(k) != v:
                return 'the <calc> elements of <fel1d> are not evaluated before it is created', 'interaction calc'
    for e, w in zip(we, wat):
        if not w:
            return '?', ''
        g = [w.get(k, w.get(i)) for i, k in enumerate(('step', 'filename', 'type'))]
        x = [float(round(D.value(e, 'step'))), e.attrs['file'], enum.get('hdf5' if e.name == 'watch' else 'sdds')]
        for y, z, k in zip(g, x, ('step', 'file', 'format')):
            if y is None or y == '?':
                return '?', ''
            if z is not None and y != z:
                return '<%s>: %s of the watch point is %s instead of %s' % (e.name, k, y, z), 'watch ' + k
    return None, 'ok'


def jobs(D, r, sec, ents, args, enum):
    obs = [a[0] for c, m, o, a in r.log if m == 'push']
    if len(obs) != len(ents):
        return '%d observers for %d in the document' % (len(obs), len(ents)), 'observers'
    for n, o in zip(ents, obs):
        w = '<%s>' % n.name
        if not isinstance(o, dict) or o['args'] is None:
            return '?', ''
        src = n.attrs.get('source', 'beam')
        t = o['type']
        if not t.startswith(TEMPL[n.name]):
            return w + ' becomes a ' + t, 'type'
        if src.capitalize() not in t:
            return w + ' with source "%s" becomes a %s' % (src, t), 'source'
        st = [a[0] for m, a in o['log'] if m == 'setSourceType']
        c = enum.get('BeamObservation' if src == 'beam' else 'LatticeObservation')
        if not st:
            return w + ': the source type is not set', 'source type'
        if c is not None and st[-1] != c:
            return w + ' with source "%s" gets the other source type' % src, 'source type'
        e = obsargs(D, n)
        if len(o['args']) != len(e):
            return '?', ''
        for i, (x, y) in enumerate(zip(o['args'], e)):
            if (x != y) if isinstance(y, str) or isinstance(x, str) else not fp.close(x, y):
                return w + ': parameter %d of the %s is %s instead of %s' % (i + 1, TEMPL[n.name], x, y), '%s %d' % (n.name, i + 1)
        if n.name == 'mesh':
            ms = [m for m, a in o['log']]
            if 'init' not in ms:
                return w + ': the mesh is not initialised', 'mesh init'
            if 'zero' not in ms:
                return w + ': the fields read from the file are not cleared', 'mesh zero'
    return None, 'ok'

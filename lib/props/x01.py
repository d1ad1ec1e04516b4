"""X01: the <lattice> section creates exactly the described elements, in order, with the described parameters."""
import random
import core, api, front, fp
from core import T, C
from rep import Rep
from fp import V, F
from props.xmlrun import Node, XRun, Calc, docs, scene, TMP, objargs, CALC, returned
from props import v03
import math

KINDS = [('undulator', 'planar', 'PlanarUndulator'), ('undulator', 'transverse gradient', 'TransverseGradientUndulator'),
         ('wave', 'gaussian', 'GaussianWave'), ('wave', 'packet', 'GaussianWavePacket'),
         ('dipole', 'hard edge', 'HardEdgeDipole'), ('dipole', 'soft edge', 'SoftEdgeDipole'),
         ('screen', None, 'SourceScreen'), ('background', None, 'HomogeneousField')]


def element(D, tag, typ, opts=()):
    """a lattice element with random parameters: (node, cls, expected)"""
    rnd = D.rnd
    n = Node(tag, {'name': 'e%d' % rnd.randrange(99)})
    if typ:
        n.attrs['type'] = typ
    D.local(n)
    if tag == 'undulator':
        f = Node('field', dict(B=D.num(), period=D.num(0.1, 2), N=str(rnd.choice((1, 2, 3, 5)))))
        if typ != 'planar':
            f.attrs['kx'] = D.num()
            if 'nomod' not in opts:
                f.attrs['modulation'] = D.num()
        n.kids += [D.pos('position'), f]
    elif tag == 'wave':
        f = Node('field', dict(ReA=D.num(), ImA=D.num()))
        f.attrs['lambda'] = D.num(0.1, 2)
        f.attrs['rayleigh'] = D.num(0.1, 2)
        p = D.pos('position')
        if typ == 'packet':
            f.attrs['tau'] = D.num(0.1, 2)
            p.attrs['t'] = D.num()
        n.kids += [p, f]
    elif tag == 'dipole':
        k = [D.pos(x) for x in ('B', 'p1', 'n1', 'p2', 'n2')]
        if typ == 'soft edge':
            k.append(Node('transition', dict(l1=D.num(0.1, 2), l2=D.num(0.1, 2))))
        rnd.shuffle(k)
        n.kids += k
    elif tag == 'screen':
        n.attrs['file'] = 'f%d.h5' % rnd.randrange(1000)
        p = D.pos('position')
        p.attrs['t'] = D.num()
        n.kids.append(p)
    else:
        for x in 'EB':
            if 'no' + x not in opts:
                n.kids.append(D.pos(x))
    D.leave()
    return n


def expected(D, n, cls):
    if cls == 'SourceScreen':
        p = n.child('position')
        return [n.attrs['file'], D.vec(p), D.value(p, 't')]
    if cls == 'HomogeneousField':
        return [D.vec(n.child(x)) for x in 'EB']
    return None


def run(P, tier):
    R = Rep(P)
    S, f, me, args, ret = scene(P, 'parseLattice', 1)
    where = front.loc(f, f)
    for seed in range(1, (12 if tier == 'quick' else 120)):
        D = docs(seed)
        lat = Node('lattice')
        want = []
        todo = KINDS + [D.rnd.choice(KINDS) for _ in range(3)]
        D.rnd.shuffle(todo)
        for tag, typ, cls in todo:
            if D.rnd.random() < 0.4:
                lat.kids.append(D.calc())
            n = element(D, tag, typ, D.rnd.choice(((), ('noE',), ('noB',), ('noE', 'noB'))))
            lat.kids.append(n)
            want.append((n, cls))
        root = Node('teufel', {}, [Node('beam'), lat, Node('tracking')])
        try:
            pt = fp.Point(P, seed)
            r = XRun(pt, S, S.events, me, root, D.start())
        except TMP as ex:
            R.und.append('lattice section: %s: %s' % (type(ex).__name__, ex))
            break
        bad = None
        if r.outcome[0] == 'throw':
            bad = 'a documented section is refused'
        added = [a[0] for c, m, o, a in r.log if m == 'addElement']
        n = returned(pt, r, ret)
        if bad is None and n is not None and n != float(len(want)):
            bad = 'returns %s for %d elements' % (n, len(want))
        if bad is None and len(added) != len(want):
            bad = '%d elements are added to the lattice for %d in the document' % (len(added), len(want))
        R.oblig('section', not bad, 'parseLattice|section', where, f['n'], bad or '')
        if bad:
            break
        for (n, cls), o in zip(want, added):
            key = cls + '|'
            if not isinstance(o, dict) or o['cls'] == '?':
                R.und.append('what is added to the lattice is not visible')
                continue
            b, kind = None, 'kind'
            if o['cls'] != cls:
                b = '<%s type="%s"> becomes a %s' % (n.name, n.attrs.get('type', ''), o['cls'])
            elif o['args'] is not None and o['args'] and o['args'][0] is n:
                for k, v in D.locals(n).items():
                    if o['vars'].get(k) != v:
                        b, kind = 'the <calc> elements of <%s> are not evaluated before its parameters' % n.name, 'calc'
            elif o['args'] is not None:
                e = expected(D, n, cls)
                if e is None and o['args'] and isinstance(o['args'][0], Node):
                    b, kind = '<%s> is set up from another node of the document' % n.name, 'node'
                elif e is None:
                    R.und.append('parameters of %s' % cls)
                else:
                    for i, (x, y) in enumerate(zip(objargs(o), e)):
                        if not same(x, y):
                            b, kind = 'parameter %d of the %s is %s instead of %s' % (i + 1, cls, x, y), 'args'
                            break
            R.oblig('element', not b, key + kind, where, f['n'], b or cls)
        if R.viol:
            break
    devices(P, R, tier)
    return R.result('The effect summary of parseLattice() is evaluated on modelled documents with all documented kinds of elements in varying order: '
                    'the elements created, their order, parameters and the returned number are compared with the document; the field of the elements '
                    'constructed from a document node is compared with the documented formula for the values of the attributes.', minimum=0)


def same(x, y):
    if isinstance(y, str) or isinstance(x, str):
        return x == y
    return fp.close(x, y)


PARS = {'PlanarUndulator': lambda D, n: (None, [D.value(n.child('field'), k) for k in ('B', 'period', 'N')]),
        'TransverseGradientUndulator': lambda D, n: (None, [D.value(n.child('field'), k) for k in ('B', 'kx', 'modulation', 'period', 'N')]),
        'GaussianWave': lambda D, n: (None, wv(D, n)),
        'GaussianWavePacket': lambda D, n: (D.value(n.child('position'), 't'), wv(D, n) + [D.value(n.child('field'), 'tau')]),
        'HardEdgeDipole': lambda D, n: (0, [D.vec(n.child(k)) for k in ('B', 'p1', 'n1', 'p2', 'n2')]),
        'SoftEdgeDipole': lambda D, n: (0, [D.vec(n.child(k)) for k in ('B', 'p1', 'n1')] + [D.value(n.child('transition'), 'l1')] +
                                        [D.vec(n.child(k)) for k in ('p2', 'n2')] + [D.value(n.child('transition'), 'l2')])}


def wv(D, n):
    f = n.child('field')
    return [D.value(f, 'lambda'), complex(D.value(f, 'ReA'), D.value(f, 'ImA')), D.value(f, 'rayleigh')]


def devices(P, R, tier):
    for tag, typ, cls in KINDS[:6]:
        ref = [d for d in v03.DEV if d[0] == cls][0][3]
        S, ctor, node, parser, obj = ctorscene(P, cls)
        if S is None:
            continue
        nev = len(S.events)
        tt, X = T('p', 1, 't'), T('p', 2, 'X')
        r = S.call('LocalizedField::Field', obj, tt, X)
        bad = und = None
        hits = 0
        for seed in range(1, 80 if tier == 'quick' else 800):
            D = docs(seed)
            n = element(D, tag, typ, ('nomod',) if seed % 3 == 0 else ())
            t0, pars = PARS[cls](D, n)
            rnd = random.Random(seed)
            org = D.vec(n.child('position')) if tag != 'dipole' else V(0, 0, 0)
            if tag == 'undulator':
                z = rnd.uniform(-1.2, 1.2) * (pars[-1] + 1) * pars[-2] / 2
                x = V(rnd.uniform(-0.1, 0.1), rnd.uniform(-0.1, 0.1), z)
            elif tag == 'wave':
                x = V(*[rnd.uniform(-0.8, 0.8) for _ in range(3)])
            else:
                x = V(*[rnd.uniform(-2, 2) for _ in range(3)])
            t = rnd.uniform(-0.8, 0.8)
            try:
                pt = fp.Point(P, seed, types={tt: 'double', X: 'Vector'})
                pt.loops = S.loopinfo
                pt.fixed[node] = n
                pt.fix(X, x + org)
                pt.fix(tt, t + (t0 or 0.0))
                cal = D.start()
                for v, k in D.locals(n).items():
                    cal.vars[v] = k
                run = XRun(pt, S, S.events[:nev], parser, Node('teufel'), cal)
                if run.outcome[0] == 'throw':
                    bad = 'a documented element is refused'
                    break
                want = ref(pt, t, x, *pars)
                v = pt.val(r)
                if not fp.close(v, want):
                    bad = 'at local position %s: %s instead of %s' % tuple(str([float('%.4g' % k) for k in q.flat()]) for q in (x, v, want))
                    break
                hits += 1
            except (fp.Bad, TypeError, AttributeError) as ex:
                und = '%s: %s' % (type(ex).__name__, ex)
                break
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
        R.oblig('element from document', None if und or not hits and not bad else not bad, cls + '|document', front.loc(ctor, ctor), ctor['n'],
                und or 'the element made from a document node does not have the documented field for its attributes (%s)' % bad)


def ctorscene(P, cls):
    S = api.Scene(P, opaque=lambda fn: core.base(fn['n']) in ['InputParser::' + k for k in CALC])
    c = [f for f in core.find(P, '%s::%s' % (cls, cls)) if f.get('body') is not None and any('xml_node' in p['t'] for p in f['params'])]
    if not c:
        return None, None, None, None, None
    c = c[0]
    obj = T('new', 3000, cls, 'dev', C(1), 0)
    a = [T('p', 100 + i, p['n']) for i, p in enumerate(c['params'])]
    S.call(c, obj, *a)
    node = [x for x, p in zip(a, c['params']) if 'xml_node' in p['t']][0]
    par = [x for x, p in zip(a, c['params']) if 'xml_node' not in p['t']][0]
    return S, c, node, par, obj

"""X04: input documents with unknown or missing parts are refused, never silently completed or ignored."""
import core, api, front, fp
from core import T, C
from rep import Rep
from props.xmlrun import Node, XRun, docs, scene, TMP, NULL, CALC
from props import x01, x02, x03

SEC = {'parseLattice': (1, 'lattice'), 'parseBeam': (3, 'beam'), 'parseTracking': (3, 'tracking'), 'parseObservers': (1, 'observer')}


def clone(n):
    return Node(n.name, n.attrs, [clone(k) for k in n.kids])


def fel(D):
    n = Node('fel1d', dict(N=str(D.rnd.randrange(3, 9))))
    D.local(n)
    n.kids += [D.pos('position'), D.pos('prop'), D.pos('pol'), Node('mode', dict(zR=D.num(0.1, 2), w0=D.num(0.1, 2), zwaist=D.num()))]
    n.kids.append(Node('log', dict(file='fel.h5', step='3')))
    D.leave()
    return n


def faults():
    """(function, make element, [(what is broken, how)])"""
    def nochild(k):
        return lambda n: n.kids.remove(n.child(k))

    def noattr(k, *path):
        def f(n):
            for p in path:
                n = n.child(p)
            del n.attrs[k]
        return f

    def attr(k, v, *path):
        def f(n):
            for p in path:
                n = n.child(p)
            n.attrs[k] = v
        return f

    def name(v, *path):
        def f(n):
            for p in path:
                n = n.child(p)
            n.name = v
        return f
    L = lambda tag, typ: (lambda D: x01.element(D, tag, typ))
    out = []
    for tag, typs in (('undulator', ('planar', 'transverse gradient')), ('wave', ('gaussian', 'packet')), ('dipole', ('hard edge', 'soft edge'))):
        for typ in typs:
            out.append(('parseLattice', L(tag, typ), [('unknown type of <%s>' % tag, attr('type', 'no such type')), ('missing type of <%s>' % tag, noattr('type'))]))
    out.append(('parseLattice', L('screen', None), [('<screen> without file', noattr('file')), ('<screen> without <position>', nochild('position'))]))
    out.append(('parseLattice', L('background', None), [('unknown element of <lattice>', name('nosuchelement'))]))

    def B(tag, full=True):
        def f(D):
            v = dict(D.vars)
            while True:
                D.vars = dict(v)
                n = x02.entry(D, tag)
                if tag == 'probe' or all(n.child(k) is not NULL for k in {'particle': ['log'], 'bunch': ['log', 'trajectories', 'correlations'], 'SDDS': ['log', 'correlations']}[tag]):
                    return n
        return f
    log = ('<log> without file', noattr('file', 'log'))
    cor = [('correlation without ' + k, noattr(k, 'correlations', 'linear')) for k in ('indep', 'dep', 'factor')] + \
        [('unknown type of correlation', name('quadratic', 'correlations', 'linear'))]
    out.append(('parseBeam', B('particle'), [('<particle> without <position>', nochild('position')), ('<particle> without <momentum>', nochild('momentum')), log]))
    out.append(('parseBeam', B('bunch'), [('<bunch> without <position>', nochild('position')), ('<bunch> without <momentum>', nochild('momentum')), log,
                                          ('<trajectories> without file', noattr('file', 'trajectories'))] + cor))
    out.append(('parseBeam', B('SDDS'), [('<SDDS> without file', noattr('file')), log, ('unknown entry of <beam>', name('nosuchentry'))] + cor))
    out.append(('parseBeam', B('probe'), [('<probe> without file', noattr('file'))]))

    def O(tag):
        def f(D):
            v = dict(D.vars)
            while True:
                D.vars = dict(v)
                n = x03.observer(D)
                if n.name == tag and 'source' in n.attrs:
                    return n
        return f
    for tag in ('snapshot', 'screen', 'mesh', 'point'):
        l = [('<%s> without file' % tag, noattr('file')), ('<%s> with illegal source' % tag, attr('source', 'sun')), ('unknown observer', name('nosuchobserver'))]
        if tag != 'mesh':
            l += [('<%s> without <%s>' % (tag, k), nochild(k)) for k in ('position', 'time')]
        if tag in ('snapshot', 'screen'):
            l += [('<%s> without <%s>' % (tag, k), nochild(k)) for k in ('hpitch', 'vpitch')]
            l += [('<%s> <%s> without n' % (tag, k), noattr('n', k)) for k in ('hpitch', 'vpitch')]
        if tag in ('screen', 'point'):
            l += [('<%s> <time> without n' % tag, noattr('n', 'time'))]
        out.append(('parseObservers', O(tag), l))

    def W(tag):
        return lambda D: Node(tag, dict(file='w.h5', step='5'))
    for tag in ('watch', 'watch-sdds'):
        out.append(('parseTracking', W(tag), [('<%s> without %s' % (tag, k), noattr(k)) for k in ('file', 'step')] + [('unknown child of <tracking>', name('nosuchchild'))]))
    return out


DEVF = {'undulator': ('position', 'field'), 'wave': ('position', 'field'), 'dipole': ('B', 'p1', 'n1', 'p2', 'n2', 'transition')}


def run(P, tier):
    R = Rep(P)
    scenes = {k: scene(P, k, n) for k, (n, s) in SEC.items()}
    reps = 2 if tier == 'quick' else 12

    def check(k, make, what, brk, seed):
        S, f, me, args, ret = scenes[k]
        D = docs(seed)
        sec = Node(SEC[k][1], dict(method='Vay', delta_t='0.1', n='7') if k == 'parseTracking' else {})
        if make is not None:
            n = make(D)
            if brk is not None:
                brk(n)
            good = [make(D) for _ in range(2)]
            sec.kids = [good[0], n, good[1]] if seed % 2 else [n] + good
        root = Node('teufel', {}, [sec])
        if make is None:
            brk(root)
        verdict(S, S.events, f, me, root, D.start(), what, brk is not None, '%s|%s' % (f['n'], what), seed)

    def verdict(S, events, f, me, root, cal, what, broken, key, seed, **fixed):
        try:
            pt = fp.Point(P, seed)
            for t, v in fixed.get('fix', {}).items():
                pt.fixed[t] = v
            r = XRun(pt, S, events, me, root, cal)
            thrown = r.outcome[0] == 'throw'
            if broken:
                R.oblig('refused', thrown, key, front.loc(f, f), f['n'], 'a document with %s is accepted' % what)
            else:
                R.oblig('accepted', not thrown, key, front.loc(f, f), f['n'], 'a document with %s is refused' % what)
        except TMP as ex:
            R.oblig('refused', None, key, front.loc(f, f), f['n'], '%s: %s: %s' % (what, type(ex).__name__, ex))
    for k, make, l in faults():
        for seed in range(1, reps + 1):
            check(k, make, 'all required parts', None, seed)
            for what, brk in l:
                check(k, make, what, brk, seed)
    for k, (n, s) in SEC.items():
        check(k, None, 'no <%s> section' % s, lambda r: r.kids.clear(), 1)
    for what, brk in [('<tracking> without delta_t', lambda r: r.kids[0].attrs.pop('delta_t')), ('<tracking> without n', lambda r: r.kids[0].attrs.pop('n')),
                      ('unknown tracking method', lambda r: r.kids[0].attrs.update(method='Boris')), ('no tracking method', lambda r: r.kids[0].attrs.pop('method'))]:
        check('parseTracking', None, what, brk, 1)
    # elements that read their own node
    for tag, typ, cls in x01.KINDS[:6]:
        S, ctor, node, parser, obj = x01.ctorscene(P, cls)
        if S is None:
            continue
        for ch in (None,) + DEVF[tag]:
            D = docs(3)
            n = x01.element(D, tag, typ)
            if ch is not None:
                c = n.child(ch)
                if c is NULL:
                    continue
                n.kids.remove(c)
            cal = D.start()
            what = '<%s type="%s"> %s' % (tag, typ, 'without <%s>' % ch if ch else 'with all required parts')
            verdict(S, S.events, ctor, parser, Node('teufel'), cal, what, ch is not None, '%s|%s' % (ctor['n'], ch), 3, fix={node: n})
    felcheck(P, R, verdict)
    return R.result('The effect summaries of the four section parsers and of the constructors that read a document node are evaluated on modelled documents in which '
                    'one required part is missing or one name is unknown: every path has to end in an exception; the unbroken documents have to be accepted.', minimum=0)


def felcheck(P, R, verdict):
    c = [f for f in core.find(P, 'FEL_1D::FEL_1D') if f.get('body') is not None and any('xml_node' in p['t'] for p in f['params'])]
    if not c:
        return
    c = c[0]
    S = api.Scene(P, opaque=lambda fn: core.base(fn['n']) in ['InputParser::' + k for k in CALC] + ['FEL_1D::setup', 'FEL_1D::seed'])
    obj = T('new', 3000, 'FEL_1D', 'fel', C(1), 0)
    a = [T('p', 100 + i, p['n']) for i, p in enumerate(c['params'])]
    S.call(c, obj, *a)
    node = [x for x, p in zip(a, c['params']) if 'xml_node' in p['t']][0]
    par = [x for x, p in zip(a, c['params']) if 'InputParser' in p['t']][0]
    for what in (None, 'N', 'position', 'prop', 'pol', 'mode', 'log file'):
        D = docs(5)
        n = fel(D)
        if what == 'N':
            del n.attrs['N']
        elif what == 'log file':
            del n.child('log').attrs['file']
        elif what:
            n.kids.remove(n.child(what))
        verdict(S, S.events, c, par, Node('teufel'), D.start(), '<fel1d> %s' % ('without ' + what if what else 'with all required parts'),
                what is not None, '%s|%s' % (c['n'], what), 5, fix={node: n})

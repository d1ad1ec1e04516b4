"""V08: the FEL interaction propagates its field with the speed of light and is driven by every particle once."""
import math, random
import core, api, front, fp
from core import T, C
from rep import Rep
from fp import V, F, dot, cross, sqrt
from props.xmlrun import Node, XRun, Calc, docs, TMP, CALC

CLS = 'FEL_1D'
GETTERS = {'Beam::getNOB': 'nob', 'Beam::getBunch': 'bunch', 'Beam::getNOTS': 'nots', 'Beam::getTimeStep': 'dt', 'Beam::getNOP': 'nop',
           'Bunch::getNOP': 'size', 'Bunch::getParticle': 'particle', 'Bunch::avgTime': 'avgt', 'ChargedParticle::getTime': 't',
           'ChargedParticle::getPosition': 'x', 'ChargedParticle::getMomentum': 'p', 'ChargedParticle::getAccel': 'a',
           'ChargedParticle::getCharge': 'q', 'Beam::getTotalCharge': 'tq', 'Bunch::getTotalCharge': 'tq', 'ChargedParticle::getMass': 'm'}
PR = [T('p', 400 + i, n) for i, n in enumerate(('t', 'X'))]


class Ob:
    def __init__(s, **k):
        s.__dict__.update(k)
        s.xid = ('ob', id(s))


class BPoint(fp.Point):
    """the beam is a tree of Python objects"""

    def ptr(self, t):
        if t.op == 'call' and t.a[0] in GETTERS:
            return False
        if t.op in ('ite', 'lo', 'lv'):
            try:
                if isinstance(self.val(t), Ob):
                    return False
            except (fp.Bad,) + TMP:
                pass
        return super().ptr(t)

    def carry(self, t):
        try:
            v = self.val(t)
            if isinstance(v, Ob):
                return v
        except (fp.Bad,) + TMP:
            pass
        return super().carry(t)


class Thrown(Exception):
    pass


class Model:
    """documented behaviour"""

    def __init__(s, N, dt, head, prop, pol, zr, w0, zw, c, mu):
        s.N, s.dt, s.head, s.c, s.mu = N, dt, head, c, mu
        s.prop = prop / sqrt(dot(prop, prop))
        e = pol - s.prop * dot(pol, s.prop)
        s.e = e / sqrt(dot(e, e))
        s.zr, s.w0, s.zw = zr, w0, zw
        s.E, s.P = [0.0] * N, [0.0] * N
        s.n = 0
        s.rec = []

    def seed(s, E0, lam, tau, ts, pi):
        om = 2 * pi * s.c / lam
        s.E = [E0 * math.cos(om * (i * s.dt - ts)) * math.exp(-0.5 * ((i * s.dt - ts) / tau) ** 2) for i in range(s.N)]
        s.P = list(s.E)

    def step(s, parts, pi):
        ds = s.c * s.dt
        J = [0.0] * s.N
        z = s.n * ds
        w = s.w0 * sqrt(1 + ((z - s.zw) / s.zr) ** 2)
        A = 0.5 * pi * w * w
        for p in parts:
            d = dot(s.head - p.x, s.prop)
            g = sqrt(1 + dot(p.p, p.p))
            j = dot(p.a, s.e) / g * p.q / A / s.dt * s.mu * s.c ** 2
            k = int(round(d / ds))
            for i in range(max(0, k - 10), min(s.N, k + 11)):
                J[i] += j * math.exp(-(d - i * ds) ** 2 / (2 * (2 * ds) ** 2)) / (2 * sqrt(2 * pi))
        D = s.dt ** 2
        new = [0.0] * s.N
        new[1] = s.E[0]
        for i in range(1, s.N - 1):
            new[i + 1] = s.E[i - 1] + s.E[i + 1] - s.P[i - 1] + D * J[i]
        for i in range(1, s.N - 1):
            s.E[i] += D * J[i]
        s.P, s.E = s.E, new
        s.n += 1
        s.head = s.head + s.prop * ds
        s.J = J

    def init(s):
        s.step([], 1.0)


def scene(P, doc):
    """effect summaries: construction, then init, field, step, field, step, field"""
    S = api.Scene(P, opaque=lambda fn: core.base(fn['n']) in GETTERS or core.base(fn['n']) in ['InputParser::' + k for k in CALC])
    cs = [f for f in core.find(P, CLS + '::' + CLS) if f.get('body') is not None and any('xml_node' in p['t'] for p in f['params']) == doc]
    if not cs:
        raise front.AnalysisBroken('constructor of ' + CLS)
    c = cs[0]
    me = T('p', 9, 'object')
    a = [T('p', 100 + i, p['n']) for i, p in enumerate(c['params'])]
    S.call(c, me, *a)
    if S.state is None:
        raise front.AnalysisBroken('constructor of ' + CLS + ' never returns')
    keep = lambda: setattr(S, 'state', core.State(S.state.st, ()))      # each call is judged after a successful one
    keep()
    parts = [('ctor', len(S.events), None)]
    beam = T('p', 200, 'beam')
    fl = []

    def field(k):
        n = S.call('%s::Field' % CLS, me, *PR)
        parts.append((k, len(S.events), n))
        if S.state is None:
            raise front.AnalysisBroken('Field() never returns')
        keep()
    S.call(CLS + '::init', me, beam)
    keep()
    parts.append(('init', len(S.events), None))
    field('field')
    for k in range(2):
        S.call(CLS + '::step', me, beam)
        keep()
        parts.append(('step', len(S.events), None))
        field('field')
    return S, c, me, a, beam, parts


def execute(pt, S, events):
    def visit(q, e):
        if e.kind == 'throw':
            raise Thrown(e)
        if e.kind in ('store', 'vcopy'):
            fp.apply(q, e)
    fp.walk(pt, S, events, lambda e: e.kind in ('throw', 'vcopy') or e.kind == 'store' and e.recv.op != 'var', visit)


def beam_of(rnd, M, c, far=None):
    """bunches of particles on the grid"""
    bs = []
    ds = M.dt * c
    allp = []
    e2 = cross(M.prop, M.e)
    for b in range(rnd.choice((1, 2, 2, 3))):
        ps = []
        for p in range(rnd.choice((1, 1, 2, 3)) if b else 1):
            k = rnd.choice((0.3, M.N - 0.6, rnd.uniform(0, M.N), rnd.uniform(8, M.N - 8)))
            x = M.head - M.prop * (k * ds) + M.e * rnd.uniform(-1, 1) + e2 * rnd.uniform(-1, 1)
            r = lambda: V(*[rnd.uniform(-1.5, 1.5) for _ in range(3)])
            ps.append(Ob(kind='particle', x=x, p=r(), a=r() * 3, q=rnd.uniform(-2, 2), m=rnd.uniform(1, 3),
                         t=M.n * M.dt + rnd.uniform(-0.2, 0.2) * M.dt))
        if far == 'x' and b == 0:
            ps[-1].x = M.head + M.prop * (ds * rnd.choice((0.8, -M.N - 0.8)))
        if far == 't' and b == 0:
            ps[-1].t = (M.n + rnd.choice((0.4, -0.4))) * M.dt
        bs.append(Ob(kind='bunch', l=ps))
        allp += ps
    return Ob(kind='beam', l=bs), allp


def answers(get):
    def sub(q, t):
        v = q.val(t.a[1]) if t.a[1] is not None else None
        return v if isinstance(v, Ob) else None

    def reply(q, t):
        w = GETTERS[t.a[0]]
        o = sub(q, t)
        if o is None:
            raise fp.Bad('object of ' + t.a[0])
        arg = lambda: int(round(q.val(t.a[2][0])))
        if w in ('nob', 'size'):
            return float(len(o.l))
        if w in ('bunch', 'particle'):
            i = arg()
            if not 0 <= i < len(o.l):
                return 0.0
            return o.l[i]
        if w == 'nop':
            return float(sum(len(b.l) for b in o.l))
        if w == 'nots':
            return float(get['n'])
        if w == 'dt':
            return get['dt']
        if w == 'avgt':
            return sum(p.t for p in o.l) / max(1, len(o.l))
        if w == 'tq':
            return sum(p.q for b in (o.l if o.kind == 'beam' else [o]) for p in b.l)
        return getattr(o, w)
    return reply


def document(D):
    rnd = D.rnd
    n = Node('fel1d', dict(N=str(rnd.choice((24, 28, 33)))))
    k = [D.pos('position'), D.pos('prop'), D.pos('pol'), Node('mode', dict(zR=D.num(0.1, 2), w0=D.num(0.1, 2), zwaist=D.num()))]
    rnd.shuffle(k)
    if rnd.random() < 0.7:
        s = Node('seed', dict(E0=D.num(), tau=D.num(0.5, 2), tstart=D.num()))
        s.attrs['lambda'] = D.num(0.5, 2)
        k.insert(rnd.randrange(len(k) + 1), s)
    if rnd.random() < 0.5:
        k.append(Node('log', dict(file='f.h5', step=str(rnd.choice((1, 2, 3))))))
    n.kids += k
    return n


def trial(P, Z, doc, seed, mode):
    """None or (kind, event, text)"""
    S, c, me, a, beam, parts = Z
    rnd = random.Random(seed * 7 + len(mode))
    pt = BPoint(P, seed, types={me: CLS + ' *', PR[0]: 'double', PR[1]: 'Vector'}, rng=(0.35, 1.65))
    pt.maxtrip = 200
    pt.loops = S.loopinfo
    cs = pt.val(T('const', 'SpeedOfLight'))
    mu, pi = pt.val(T('const', 'MuNull')), pt.val(T('const', 'Pi'))
    dt = rnd.uniform(0.3, 0.9) / cs
    get = dict(n=0, dt=dt)
    rep = answers(get)
    for g in GETTERS:
        pt.calls[g] = rep
    node = None
    for x, p in zip(a, c['params']):
        if p['t'].endswith('double') or p['t'] == 'double':
            pt.fix(x, dt)
    pos = 0
    if doc:
        D = docs(seed)
        node = document(D)
        for x, p in zip(a, c['params']):
            if 'xml_node' in p['t']:
                pt.fixed[x] = node
            elif 'double' not in p['t']:
                parser = x
        v, m = D.vec, node.child('mode')
        M = Model(int(node.attrs['N']), dt, v(node.child('position')), v(node.child('prop')), v(node.child('pol')), D.value(m, 'zR'),
                  D.value(m, 'w0'), D.value(m, 'zwaist'), cs, mu)
        s = node.child('seed')
        if s.name:
            M.seed(D.value(s, 'E0'), D.value(s, 'lambda'), D.value(s, 'tau'), D.value(s, 'tstart'), pi)
        r = XRun(pt, S, S.events[:parts[0][1]], parser, Node('teufel'), D.start())
        if r.outcome[0] == 'throw':
            return 'construction', r.outcome[2], 'a complete description is refused'
    else:
        N = 26
        for x, p in zip(a, c['params']):
            if p['t'] == 'int':
                pt.fix(x, float(N))
        M = Model(N, dt, V(0.0, 0.0, 0.0), V(0.0, 0.0, 1.0), V(1.0, 0.0, 0.0), 1.0, 1e-3, 1.0, cs, mu)
        execute(pt, S, S.events[:parts[0][1]])
    pos = parts[0][1]
    e2 = cross(M.prop, M.e)
    pt.fixed[beam] = Ob(kind='beam', l=[])
    if mode == 'dt':
        get['dt'] = dt * 1.01
    nstep = 0
    for k, end, val in parts[1:]:
        ev = S.events[pos:end]
        pos = end
        pt.memo.clear()
        pt.memo.update(getattr(pt, 'preset', {}))
        far = None
        if k == 'init':
            what = 'init()'
            try:
                execute(pt, S, ev)
                if mode == 'dt':
                    return 'refusal', None, 'init() accepts a beam with another time step'
            except Thrown as ex:
                if mode == 'dt':
                    return None
                return 'refusal', ex.args[0], 'init() refuses a beam of the same time step'
            M.init()
        elif k == 'step':
            get['n'] = M.n
            if mode == 'n' and nstep == 1:
                get['n'] = M.n + rnd.choice((1, -1))
                far = 'n'
            elif mode in 'xt' and nstep == 1:
                far = mode
            pt.fixed[beam], ps = beam_of(rnd, M, cs, far)
            try:
                execute(pt, S, ev)
                if far:
                    return 'refusal', None, 'step() accepts %s' % {'n': 'a beam that is at another step', 'x': 'a particle beyond the field grid', 't': 'a particle that is at another time'}[far]
            except Thrown as ex:
                if far:
                    return None
                return 'refusal', ex.args[0], 'step() refuses a beam that is on the grid and at the right time'
            M.step(ps, pi)
            nstep += 1
            what = 'after %d step%s with beam' % (nstep, 's' if nstep > 1 else '')
        else:
            for i in list(range(M.N)) + (['before', 'behind', 'early', 'late'] if nstep == 1 else []):
                num = isinstance(i, int)
                o = i + rnd.uniform(-0.45, 0.45) if num else {'before': -0.7, 'behind': M.N - 0.3}.get(i, 3.2)
                tq = M.n * dt + dt * (rnd.uniform(-0.2, 0.2) if num or i in ('before', 'behind') else -0.3 if i == 'early' else 0.3)
                x = M.head - M.prop * (o * cs * dt) + M.e * rnd.uniform(-1, 1) + e2 * rnd.uniform(-1, 1)
                q = pt.child({})
                q.fixed = dict(pt.fixed)
                q.fix(PR[0], tq)
                q.fix(PR[1], x)
                try:
                    execute(q, S, ev)
                    if not num:
                        return 'field range', None, 'Field() answers a request %s' % {'before': 'in front of the field', 'behind': 'behind the field'}.get(i, 'for another time')
                    v = q.val(val)
                except Thrown as ex:
                    if num:
                        return 'field range', ex.args[0], 'Field() refuses a request on the grid at the present time'
                    continue
                want = F(M.e * M.E[i], e2 * (M.E[i] / cs))
                if not fp.close(v, want, 1e-7):
                    return 'field' if fp.close(v.e, want.e, 1e-7) is False and nstep else 'field', None, 'the field %s is not as documented (cell %d of %d): %s instead of %s' % (
                        what, i, M.N, [float('%.5g' % z) for z in v.flat()], [float('%.5g' % z) for z in want.flat()])
    return None


def run(P, tier):
    R = Rep(P)
    for doc in (False, True):
        Z = scene(P, doc)
        c = Z[1]
        name = 'described by the input' if doc else 'default'
        for mode in ('ok', 'dt', 'n', 'x', 't'):
            bad = und = None
            for seed in range(1, (8 if mode == 'ok' else 4) if tier == 'quick' else 40):
                try:
                    bad = trial(P, Z, doc, seed, mode)
                except (fp.Bad,) + TMP as ex:
                    und = '%s: %s' % (type(ex).__name__, ex)
                    break
                if bad:
                    break
            w = front.loc(c, c)
            if bad and bad[1] is not None:
                try:
                    w = front.loc(bad[1].fn, bad[1].node)
                except Exception:
                    pass
            R.oblig('interaction', False if bad else None if und else True, '%s|%s|%s' % (mode, name, bad[0] if bad else ''), w, c['n'],
                    'interaction (%s): %s' % (name, bad[2] if bad else und or 'as documented'))
    return R.result('The constructors, seed, init(), step() and Field() of the FEL interaction are interpreted one after another in one abstract store; '
                    'the effect summary is evaluated for random set-ups and beams, and Field() on every cell compared with the documented '
                    'discretised wave equation.', minimum=0)

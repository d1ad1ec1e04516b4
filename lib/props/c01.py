"""C01: copies, shifts and reflections of particles act on their complete state; the trajectory arrays stay in step."""
import core, api, front, fp
from core import T, C, add
from rep import Rep
from fp import V, dot
from valued import VPoint

CP = 'ChargedParticle'
GET = ['getTime', 'getPosition', 'getMomentum', 'getAccel']
TRAJ = ['TrajTime', 'TrajPoint', 'TrajMomentum', 'TrajAccel']
ERR = (fp.Bad, TypeError, AttributeError, KeyError, IndexError, ZeroDivisionError, OverflowError, ValueError)
W, RR = T('p', 8, 'particle'), T('p', 9, 'other')
STEPS = 3


class Sc:
    """one operation on a particle, with the queries before and after it"""
    def __init__(self, P, empty):
        self.P, self.S = P, api.Scene(P)
        self.np = self.S.particle(W)
        self.sizes = (0,) if empty else (1, 2, 3)
        if not empty:
            self.S.assume(core.cmp_('<=', C(1), self.np))
        elif self.np.op == 'ld':
            self.S.state.st[self.np.a[0]] = core.ZERO
            self.S.particle(W)

    def ask(self, obj, what, *args):
        """a query that leaves no trace; None where it is refused"""
        S = self.S
        st, ev = S.state.copy(), len(S.events)
        try:
            r = S.call('%s::%s' % (CP, what), obj, *args)
            extra = list(S.events[ev:])
        finally:
            S.state = st
            del S.events[ev:]
        return r, extra

    def state(self, obj, more=()):
        q = {g: self.ask(obj, g) for g in GET + ['getNP', 'getCharge']}
        for t in TRAJ:
            for j in range(STEPS + 1):
                q[t, j] = self.ask(obj, t, C(j))
        for m in more:
            q[m] = (self.S.load(T('f', obj, m)), [])
        return q

    def probe(self, obj):
        S = self.S
        st, ev = S.state.copy(), len(S.events)
        buf = T('p', 77, 'buf')
        S.call(CP + '::bufferProbe', obj, buf)
        B = api.Buffer(S.events[ev:], buf)
        S.state = st
        del S.events[ev:]
        return B


def visit(pt, e):
    if e.kind == 'push':
        pt.mem[pt.key(T('e', e.recv, e.types))] = pt.carry(e.args[0])
        fp.forget(pt)
    else:
        fp.apply(pt, e)


def element(t):
    """an element of an array, not a member of the object itself (which the state knows)"""
    while t.op == 'f':
        t = t.a[0]
    return t.op in ('e', '*') and t.a[0].op not in ('p', 'new')


SEL = lambda e: e.kind in ('store', 'vcopy') and e.recv.op != 'var' and (e.kind == 'vcopy' or element(e.recv)) or e.kind == 'push'


def values(pt, q, n):
    out = {}
    for k, (t, ev) in q.items():
        if isinstance(k, tuple) and k[1] >= n:
            continue
        out[k] = pt.val(t)
    return out


def tracked(P):
    """members the next tracking step depends on"""
    I = core.Interp(P)
    f = api.Scene(P).fn(CP + '::StepVay', 1)
    I.run(f)
    vec = {x['n'] for x in api.Scene(P).vectors(CP)}
    return sorted(m for m in api.reads(I, T('this')) if m not in vec and not m.endswith('::NP'))


def points(P, sc, tier):
    for n in sc.sizes:
        for seed in range(1, 4 if tier == 'quick' else 20):
            pt = VPoint(P, seed * 10 + n, rng=(-1.3, 1.7))
            pt.types.update({T('*', W): CP, T('*', RR): CP})
            pt.fix(sc.np, float(n))
            pt.loops = sc.S.loopinfo
            yield n, pt


def judge(R, P, tier, kind, fn, sc, before, after, ev, expect):
    """expect(pt, n, values before) -> (number of points, values after)"""
    bad, und, cases = None, None, 0
    for n, pt in points(P, sc, tier):
        try:
            b = values(pt, before, n)
            m, want = expect(pt, n, b)
            fp.walk(pt, sc.S, ev, SEL, visit)
            try:
                a = values(pt, after, m)
            finally:
                pass
            cases += 1
            for k in want:
                if k in a and not fp.close(a[k], want[k], 1e-9):
                    bad = bad or (k, n, a[k], want[k])
        except ERR as ex:
            und = '%s: %s' % (type(ex).__name__, ex)
    if bad:
        k, n, x, y = bad
        name = '%s(%d)' % k if isinstance(k, tuple) else k + ('()' if '::' not in k else '')
        msg = '%s: %s of a particle with %d trajectory points is afterwards %s instead of %s' % (fn['n'], name, n, show(x), show(y))
    else:
        msg = '%s: %s' % (fn['n'], und or 'all queries as documented')
    R.oblig(kind, False if bad else None if und else True, '%s|%s|%d' % (fn['n'], kind, sc.sizes[0]), front.loc(fn, fn), fn['n'], msg)


def show(x):
    try:
        return ', '.join('%.6g' % z.real for z in fp.flat(x))
    except Exception:
        return str(x)


def run(P, tier):
    R = Rep(P)
    need = tracked(P)
    S = api.Scene(P)
    shown = set()
    for g in GET + ['getNP', 'getCharge']:
        t = S.call('%s::%s' % (CP, g), W)
        if t.op == 'ld' and t.a[0].op == 'f':
            shown.add(t.a[0].a[1])
    need = [m for m in need if m not in shown]
    types = {x['n']: x['t'] for r in P.records.values() if core.base(r['n']) == CP for x in r['fields']}
    vy = [m for m in need if 'Vector' in types.get(m, '')]
    known = vy + [m for m in need if m.endswith(('::qm', '::qmt2', '::Charge', '::dt', '::VY_gamma_i1'))]
    for empty in (False, True):
        operations(P, R, tier, need, vy, known, empty)
    bunchcopy(P, R, tier)
    lockstep(P, R)
    return R.result('The public queries of a particle are value numbers before and after each operation; they are evaluated for particles with 0 to 3 '
                    'trajectory points with arbitrary values and compared with the documented effect of the operation. Sizes of the arrays of a '
                    'class and its counter are compared symbolically after every constructor and method.', minimum=0)


def operations(P, R, tier, need, vy, known, empty):
    # ---- copy
    sc = Sc(P, empty)
    S = sc.S
    ctor = S.fn(CP + '::' + CP, 1, lambda f: CP in f['params'][0]['t'])
    b = sc.state(W, need)
    bp = sc.probe(W)
    n0 = len(S.events)
    r = S.new(CP, W, pred=lambda f: CP in f['params'][0]['t'])
    ev = S.events[n0:]
    a = sc.state(r, need)
    judge(R, P, tier, 'copy', ctor, sc, b, a, ev, lambda pt, n, v: (n, v))
    ap = sc.probe(r)
    lb, la = bp.layout()[0], ap.layout()[0]
    pair = probes(sc, W, r)
    if pair:
        bb, aa = pair
        judge(R, P, tier, 'copied fields', ctor, sc, bb, aa, ev, lambda pt, n, v: (n, v))
    # ---- shift and mirror
    for name, args in (('Shift', 2), ('Mirror', 3)):
        sc = Sc(P, empty)
        S = sc.S
        f = S.fn(CP + '::' + name, args)
        b = sc.state(W, known)
        par = [T('p', 20 + i, p['n']) for i, p in enumerate(f['params'])]
        n0 = len(S.events)
        S.call(f, W, *par)
        ev = S.events[n0:]
        a = sc.state(W, known)

        def types(pt, par=par, f=f):
            for t, p in zip(par, f['params']):
                pt.types[t] = p['t']

        def shift(pt, n, v):
            types(pt)
            d, c = pt.val(par[0]), pt.val(par[1])
            out = dict(v)
            for k in v:
                if k == 'getPosition' or k[0] == 'TrajPoint':
                    out[k] = v[k] + d
                elif k == 'getCharge' or isinstance(k, str) and k.endswith(('::qm', '::qmt2', '::Charge')):
                    out[k] = v[k] * c
            return n, out

        def mirror(pt, n, v):
            types(pt)
            o, nv, c = pt.val(par[0]), pt.val(par[1]), pt.val(par[2])
            nn = dot(nv, nv)
            refl = lambda x: x - nv * (2.0 * dot(x, nv) / nn)
            out = dict(v)
            for k in v:
                if k == 'getPosition' or k[0] == 'TrajPoint':
                    out[k] = o + refl(v[k] - o)
                elif k in ('getMomentum', 'getAccel') or k[0] in ('TrajMomentum', 'TrajAccel') or k in vy:
                    out[k] = refl(v[k])
                elif k == 'getCharge' or isinstance(k, str) and k.endswith(('::qm', '::qmt2', '::Charge')):
                    out[k] = v[k] * c
            return n, out
        judge(R, P, tier, name, f, sc, b, a, ev, shift if name == 'Shift' else mirror)
    # ---- bookkeeping of trajectory points
    par = [T('p', 20 + i, x) for i, x in enumerate('txpa')]
    for name in ('initTrajectory', 'storeTrajectoryPoint', 'setCurrentPoint', 'clearTrajectory', 'preAllocate'):
        sc = Sc(P, empty)
        S = sc.S
        fs = [f for f in core.find(P, CP + '::' + name) if f.get('body') is not None]
        if not fs:
            R.oblig('bookkeeping', None, name, '', CP, 'no ' + name)
            continue
        f = fs[0]
        b = sc.state(W)
        n0 = len(S.events)
        S.call(f, W, *par[:len(f['params'])])
        ev = S.events[n0:]
        a = sc.state(W)

        def want(pt, n, v, f=f, name=name):
            for t, p in zip(par, f['params']):
                pt.types[t] = p['t']
            if name == 'preAllocate':
                pt.fix(par[0], 5.0)
                return n, v
            x = [pt.val(t) for t in par[:len(f['params'])]]
            out = dict(v)
            m = n
            if name == 'initTrajectory':
                m = 1
            elif name == 'clearTrajectory':
                m = 0
            elif name == 'storeTrajectoryPoint':
                m = n + 1
            for k in list(out):
                if isinstance(k, tuple) and k[1] >= min(m, n):
                    del out[k]
            if name in ('initTrajectory', 'storeTrajectoryPoint'):
                for t, y in zip(TRAJ, x):
                    out[t, m - 1] = y
            if name in ('initTrajectory', 'setCurrentPoint'):
                for t, y in zip(GET, x):
                    out[t] = y
            if name == 'clearTrajectory':
                for t in GET:
                    del out[t]
            out['getNP'] = float(m)
            return m, out
        judge(R, P, tier, name, f, sc, b, a, ev, want)


def probes(sc, w, r):
    """what bufferProbe() gives, by offset"""
    S = sc.S
    out = []
    for o in (w, r):
        st, ev = S.state.copy(), len(S.events)
        buf = T('p', 77, 'buf')
        S.call(CP + '::bufferProbe', o, buf)
        q = {}
        for e in S.events[ev:]:
            if e.kind == 'store' and e.recv.op == '*':
                d = add(e.recv.a[0], buf, -1)
                if core.isc(d):
                    q['bufferProbe [%d]' % int(d.a[0])] = (e.args[0], [])
        S.state = st
        del S.events[ev:]
        out.append(q)
    return out if out[0] and set(out[0]) == set(out[1]) else None


def bunchcopy(P, R, tier):
    """Bunch(Bunch*): a copy of every particle, in order"""
    S = api.Scene(P, opaque=lambda fn: core.base(fn['n']) == CP + '::' + CP)
    o = T('p', 5, 'origin')
    fs = [f for f in core.find(P, 'Bunch::Bunch') if f.get('body') is not None and len(f['params']) == 1 and 'Bunch' in f['params'][0]['t']]
    if not fs:
        return
    f = fs[0]
    nop = S.call('Bunch::getNOP', o)
    for v in S.vectors('Bunch'):
        S.state.st[T('sz', T('f', o, v['n']))] = nop
    src = [S.call('Bunch::getParticle', o, C(j)) for j in range(3)] if False else None
    n0 = len(S.events)
    r = S.new('Bunch', o, pred=lambda g: g is f)
    ev = S.events[n0:]
    cnt = S.call('Bunch::getNOP', r)
    bad = und = None
    for n in (0, 1, 3):
        pt = VPoint(P, n + 1)
        pt.fix(nop, float(n))
        made, pushed = {}, []

        def see(q, e):
            if e.kind == 'push':
                pushed.append(q.key(e.args[0]))
            else:
                x = e.args[0]
                made[q.key(e.recv)] = q.key(x)
        try:
            fp.walk(pt, S, ev, lambda e: e.kind == 'push' or e.kind in ('construct', 'call') and core.base(e.name or '') in (CP + '::' + CP, CP) and len(e.args) == 1 and e.recv is not None, see)
            if int(round(pt.val(cnt))) != n:
                bad = bad or 'a copy of a bunch of %d particles reports %d' % (n, pt.val(cnt))
            if len(pushed) != n or len(set(map(str, pushed))) != n:
                bad = bad or 'a copy of a bunch of %d particles holds %d' % (n, len(set(map(str, pushed))))
            elif made:
                st = S.state.copy()
                for j, k in enumerate(pushed):
                    t = T('ld', T('e', T('f', o, S.vectors('Bunch')[0]['n']), C(j)))
                    if k not in made:
                        bad = bad or 'particle %d of the copy is not made from a particle' % j
                    elif str(made[k]) != str(pt.key(t)):
                        bad = bad or 'particle %d of the copy is made from another particle' % j
            elif n:
                und = 'constructor calls not seen'
        except ERR as ex:
            und = '%s: %s' % (type(ex).__name__, ex)
    R.oblig('bunch copy', False if bad else None if und else True, 'Bunch::Bunch', front.loc(f, f), f['n'], '%s: %s' % (f['n'], bad or und or 'copies all particles'))


def lockstep(P, R):
    """every array of the class has as many elements as the counter says, after every operation"""
    for cls, count in ((CP, 'getNP'), ('FieldTrace', 'get_N'), ('Bunch', 'getNOP'), ('Beam', 'getNOB')):
        vecs = None
        for r in P.records.values():
            if core.base(r['n']) == cls:
                vecs = [v for v in r['fields'] if v['t'].startswith('std::vector')]
        if not vecs:
            R.oblig('in step', None, cls, '', cls, 'no arrays in ' + cls)
            continue
        cfs = [f for f in core.find(P, '%s::%s' % (cls, count)) if f.get('body') is not None]
        if not cfs:
            R.oblig('in step', None, cls, '', cls, 'no %s::%s()' % (cls, count))
            continue
        for f in sorted([f for f in P.functions.values() if f.get('body') is not None and core.base(f.get('clsn') or '') == cls and not f.get('static')],
                        key=lambda f: (f['f'], f['l'])):
            ctor = core.base(f['n']) == cls + '::' + cls
            if f['n'].rsplit('::', 1)[-1].startswith('~') or f['n'].startswith('operator'):
                continue
            S = api.Scene(P, opaque=lambda fn: core.base(fn['n'].rsplit('::', 1)[0]) != cls)
            me = T('new', 4321, cls, 'me', C(1), 0) if ctor else T('p', 8, 'me')
            others = [T('p', 30 + i, p['n']) for i, p in enumerate(f['params'])]
            objs = [o for o, p in zip(others, f['params']) if core.base(p['t'].replace('const ', '').rstrip(' *&')) == cls]
            try:
                for o in objs + ([] if ctor else [me]):
                    n = S.call(cfs[0], o)
                    for v in vecs:
                        S.state.st[T('sz', T('f', o, v['n']))] = n
                S.call(f, me, *others)
                if S.stopped():
                    continue
                n = S.call(cfs[0], me)
                sizes = [(v['n'], S.load(T('sz', T('f', me, v['n'])))) for v in vecs]
            except (front.AnalysisBroken, RecursionError):
                continue
            for v, s in sizes:
                if s.op == 'ld' and s.a[0].op == 'sz' and ctor:
                    s = core.ZERO
                a, b = api.canon(s), api.canon(n)
                ok = a is b or None
                if not ok:
                    ok = evaluate(P, S, a, b)
                R.oblig('in step', ok, '%s|%s' % (f['n'], v), front.loc(f, f), f['n'],
                        '%s: %s has %s elements where %s() gives %s' % (f['n'], v, str(a)[:60], count, str(b)[:60]))


def evaluate(P, S, a, b):
    done = 0
    for seed in range(1, 30):
        pt = fp.Point(P, seed)
        pt.loops = S.loopinfo
        pt.ichoices = (0, 1, 2, 3, 4)
        try:
            if not all(pt.val(g) for g in S.state.guards):
                continue
            x, y = pt.val(a), pt.val(b)
            done += 1
            if abs(x - y) > 1e-6:
                return False
        except ERR:
            return None
    return True if done else None

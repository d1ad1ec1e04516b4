"""V09: the programs propagate and reflection compute the Kirchhoff integral of the (reflected) fields of a screen on another screen."""
import math, random
import core, api, front, fp
from core import T, C, base
from rep import Rep
from fp import V, F, dot, cross, sqrt
from valued import VScene, VPoint
from props.xmlrun import TMP

MS, FT = 'MeshedScreen', 'FieldTrace'
CHANGE = {MS + '::' + x for x in ('init', 'zero', 'set_trace')} | {FT + '::' + x for x in ('set_field', 'zero', 'transform', 'cancel_long_fields', 'set_t0')}
QUERY = {MS + '::' + x for x in ('get_Np', 'get_Nt', 'get_dt', 'get_t0', 'get_point', 'get_normal', 'get_xi', 'get_eta', 'get_area', 'get_trace', 'Poynting',
                                 'totalEnergy', 'writeReport', 'writeFile')} | \
        {FT + '::' + x for x in ('get_N', 'get_dt', 'get_t0', 'get_time', 'get_field', 'get_last_time', 'Poynting')}


class Wrong(Exception):
    pass


class Scene(VScene):
    queries = QUERY
    noted = {'writeFile'}

    def m_FieldTrace_retard(self, n, L, args):
        d, p = self.ev(args[0]), self.ev(args[1])
        if self.state is None:
            return T('void')
        t = self.deref(p)
        self.store(t, T('op', 'q:retard', self.load(L), d, self.load(t)), n)
        return T('void')

    def m_FieldTrace_derivative(self, n, L, args):
        self.nalloc += 1
        a = T('new', self.nalloc, FT, 'single', core.ONE, tuple(l.iter for l in self.loops) if self.loops else 0)
        self.emit('alloc', n, name=FT, args=(core.ONE,), res=a)
        self.store(self.deref(a), T('op', 'q:derivative', self.load(L)), n)
        return a

    def m_MeshedScreen_get_Neighbourhood(self, n, L, args):
        i, p = self.ev(args[0]), self.ev(args[1])
        if self.state is None:
            return T('void')
        cur = self.load(L)
        b = self.base_of(p)
        if b is not None:
            self.emit('call', n, name='room', recv=b, args=(T('op', 'q:nbhcount', cur, i),))
            for k in [k for k in self.state.st if k is not b and k.op != 'sz' and self.under(k, b)]:
                del self.state.st[k]
            self.state.st[b] = T('op', 'q:nbhlist', cur, i)
        return T('op', 'q:nbhcount', cur, i)

    def inside(self, pt, e):
        """writes to a local array of fixed size stay within it"""
        if e.kind == 'store' and e.recv.op in ('e', '*'):
            b, i = (e.recv.a[0], e.recv.a[1]) if e.recv.op == 'e' else self.split(e.recv.a[0])
            i = 0 if b not in self.extent else pt.val(i)
        elif e.name == 'room':
            b = e.recv
            i = 0 if b not in self.extent else pt.val(e.args[0]) - 1
        else:
            return
        if b in self.extent and not -0.5 < i < self.extent[b] - 0.5:
            raise Wrong('%s: element %d of an array of %d is written when a cell has %d neighbours' % (e.where, i, self.extent[b], max(len(x) for x in pt.files['source.h5'].nbh)))

    def base_of(self, p):
        if p.op == 'addr':
            return p.a[0].a[0] if p.a[0].op == 'e' and p.a[0].a[1] is core.ZERO else p.a[0]
        if p.op == 'op' and p.a[0] in ('data', 'begin'):
            return self.deref(p.a[1])
        return self.deref(p)

    def load(self, loc):
        if self.state is not None and loc.op in ('e', '*') and loc not in self.state.st:
            b, i = (loc.a[0], loc.a[1]) if loc.op == 'e' else self.split(loc.a[0])
            w = self.state.st.get(b) if b is not None else None
            if w is not None and w.op == 'op' and w.a[0] == 'q:nbhlist':
                return T('op', 'q:nbh', w.a[1], w.a[2], i)
        return super().load(loc)

    def split(self, p):
        r = self.linear(p)
        if r is None:
            return None, None
        if r[2]:
            return r[0], r[1]
        return (r[0].a[0] if r[0].op == 'addr' else self.deref(r[0])), r[1]


# ---- Python models of the library
class Val:
    n = 0

    def __init__(s, **k):
        s.__dict__.update(k)
        Val.n += 1
        s.xid = ('val', Val.n)

    def copy(s, **k):
        d = dict(s.__dict__)
        d.update(k)
        return Val(**d)


Z3 = V(0.0, 0.0, 0.0)
FZ = F(Z3, Z3)


class Trace(Val):
    def copy(s, **k):
        return Trace(**dict(dict(t0=s.t0, dt=s.dt, d=s.d), **k))

    def __add__(s, o):
        if len(s.d) != len(o.d) or abs(s.t0 - o.t0) > 1e-9 or abs(s.dt - o.dt) > 1e-9:
            raise Wrong('traces of different time axes are added')
        return s.copy(d=[a + b for a, b in zip(s.d, o.d)])

    def __sub__(s, o):
        return s + o * -1.0

    def __mul__(s, f):
        return s.copy(d=[a * f for a in s.d])
    __rmul__ = __mul__

    def __truediv__(s, f):
        return s * (1.0 / f)

    def at(s, t):
        r = (t - s.t0) / s.dt
        i = math.floor(r)
        f = r - i
        g = lambda k: s.d[k] if 0 <= k < len(s.d) else FZ
        return g(i) * (1.0 - f) + g(i + 1) * f

    def deriv(s):
        d, n = s.d, len(s.d)
        out = [(d[1] - d[0]) / s.dt] + [(d[i + 1] - d[i - 1]) / (2.0 * s.dt) for i in range(1, n - 1)] + [(d[n - 1] - d[n - 2]) / s.dt]
        return s.copy(d=out)

    def turn(s, a, b, c):
        w = lambda v: V(dot(v, a), dot(v, b), dot(v, c))
        return s.copy(d=[F(w(f.e), w(f.b)) for f in s.d])

    def retard(s, delay, o):
        return o.copy(d=[s.at(o.t0 + i * o.dt - delay) for i in range(len(o.d))])


def ix(v, n, what):
    i = int(round(v.real))
    if not 0 <= i < n:
        raise Wrong('%s %d of %d is used' % (what, i, n))
    return i


def cell(name):
    def f(pt, s, i, *r):
        if not s.inited:
            raise Wrong('the geometry of a screen is used before init()')
        return s.__dict__[name][ix(i, s.np, 'cell')]
    return f


def upd(l, i, v):
    l = list(l)
    l[i] = v
    return l


def solve(A, b):
    """least squares by modified Gram-Schmidt"""
    m, n = len(A), len(A[0])
    Q = [[A[i][j] for i in range(m)] for j in range(n)]
    Rm = [[0.0] * n for _ in range(n)]
    for j in range(n):
        for k in range(j):
            Rm[k][j] = sum(x * y for x, y in zip(Q[k], Q[j]))
            Q[j] = [y - Rm[k][j] * x for x, y in zip(Q[k], Q[j])]
        Rm[j][j] = math.sqrt(sum(x * x for x in Q[j]))
        if Rm[j][j] < 1e-9:
            raise fp.Bad('singular fit')
        Q[j] = [x / Rm[j][j] for x in Q[j]]
    c = [sum(x * y for x, y in zip(q, b)) for q in Q]
    x = [0.0] * n
    for j in reversed(range(n)):
        x[j] = (c[j] - sum(Rm[j][k] * x[k] for k in range(j + 1, n))) / Rm[j][j]
    return x


class Mat(Val):
    """r x c matrix"""
    def copy(s, **k):
        return Mat(**dict(dict(r=s.r, c=s.c, d=s.d), **k))


def make(pt, *d):
    if d and isinstance(d[0], Mat):
        return d[0]
    r, c = int(d[0]) if d else 0, int(d[1]) if len(d) > 1 else 1
    return Mat(r=r, c=c, d=[[0.0] * c for _ in range(r)])


def elem(pt, m, i, j=0.0):
    return m.d[ix(i, m.r, 'element')][ix(j, m.c, 'element')]


def setelem(pt, m, i, *r):
    j, v = (0.0, r[0]) if len(r) == 1 else r
    i, j = ix(i, m.r, 'element'), ix(j, m.c, 'element')
    return m.copy(d=upd(m.d, i, upd(m.d[i], j, v)))


def setcol(pt, m, j, v):
    j = ix(j, m.c, 'column')
    if v.r != m.r:
        raise Wrong('a column of %d elements is set to %d values' % (m.r, v.r))
    return m.copy(d=[upd(row, j, v.d[i][0]) for i, row in enumerate(m.d)])


def setrow(pt, m, i, v):
    i = ix(i, m.r, 'row')
    return m.copy(d=upd(m.d, i, [x[0] for x in v.d] if v.c == 1 else list(v.d[0])))


def solved(pt, m, b):
    try:
        x = solve(m.d, [r[0] for r in b.d])
    except fp.Bad:
        raise Wrong('the fit to the fields of the neighbourhood is not determined')
    return Mat(r=len(x), c=1, d=[[v] for v in x])


def transpose(pt, m):
    return Mat(r=m.c, c=m.r, d=[[m.d[i][j] for i in range(m.r)] for j in range(m.c)])


def mul(pt, a, b):
    if not isinstance(a, Mat) or not isinstance(b, Mat):
        m, f = (a, b) if isinstance(a, Mat) else (b, a)
        return m.copy(d=[[x * f for x in r] for r in m.d])
    return Mat(r=a.r, c=b.c, d=[[sum(a.d[i][k] * b.d[k][j] for k in range(a.c)) for j in range(b.c)] for i in range(a.r)])


def same(pt, m, *a):
    return m


def trace_of(pt, *a):
    if len(a) == 3:
        return Trace(t0=a[0], dt=a[1], d=[FZ] * int(a[2]))
    raise fp.Bad('trace')


def sample(pt, s, i):
    return s.d[ix(i, len(s.d), 'sample')]


def set_field(pt, s, i, f):
    return s.copy(d=upd(s.d, ix(i, len(s.d), 'sample'), f))


def set_trace(pt, s, i, t):
    i = ix(i, s.np, 'cell')
    o = s.trace[i]
    if len(o.d) != len(t.d) or abs(o.t0 - t.t0) > 1e-9 or abs(o.dt - t.dt) > 1e-9:
        raise Wrong('a trace of another time axis is stored in a screen')
    return s.copy(trace=upd(s.trace, i, t))


def energy(t):
    return V(*[sum(cross(f.e, f.b).c[k] for f in t.d) for k in range(3)])


M = {
    MS: lambda pt, name: pt.files[name] if name in pt.files else bad('file'),
    MS + '::init': lambda pt, s: s.copy(inited=True),
    MS + '::zero': lambda pt, s: s.copy(trace=[t.copy(d=[FZ] * len(t.d)) for t in s.trace]),
    MS + '::set_trace': set_trace,
    MS + '::get_Np': lambda pt, s: float(s.np),
    MS + '::get_Nt': lambda pt, s: float(len(s.trace[0].d)),
    MS + '::get_dt': lambda pt, s, *a: s.trace[0].dt,
    MS + '::get_t0': lambda pt, s, i: s.trace[ix(i, s.np, 'cell')].t0,
    MS + '::get_point': cell('point'), MS + '::get_normal': cell('normal'), MS + '::get_xi': cell('xi'), MS + '::get_eta': cell('eta'),
    MS + '::get_area': cell('area'),
    MS + '::get_trace': lambda pt, s, i: s.trace[ix(i, s.np, 'cell')],
    MS + '::Poynting': lambda pt, s, i: energy(s.trace[ix(i, s.np, 'cell')]),
    MS + '::totalEnergy': lambda pt, s: 1.0,
    MS + '::writeReport': lambda pt, s, *a: 0.0,
    MS + '::writeFile': lambda pt, s, *a: 0.0,
    'nbhlist': lambda pt, s, i: 0.0,
    'nbhcount': lambda pt, s, i: float(len(s.nbh[ix(i, s.np, 'cell')])),
    'nbh': lambda pt, s, i, k: float(s.nbh[ix(i, s.np, 'cell')][ix(k, len(s.nbh[int(i)]), 'neighbour')]),
    'fresh': lambda pt, *a: 0.0,
    FT: trace_of,
    FT + '::set_field': set_field,
    FT + '::zero': lambda pt, s: s.copy(d=[FZ] * len(s.d)),
    FT + '::transform': lambda pt, s, a, b, c: s.turn(a, b, c),
    FT + '::set_t0': lambda pt, s, t: s.copy(t0=t),
    FT + '::cancel_long_fields': lambda pt, s, n: s.copy(d=[F(f.e - n * dot(f.e, n) / dot(n, n), f.b - n * dot(f.b, n) / dot(n, n)) for f in s.d]),
    FT + '::get_N': lambda pt, s: float(len(s.d)), FT + '::get_dt': lambda pt, s: s.dt, FT + '::get_t0': lambda pt, s: s.t0,
    FT + '::get_time': lambda pt, s, i: s.t0 + i * s.dt,
    FT + '::get_last_time': lambda pt, s: s.t0 + (len(s.d) - 1) * s.dt,
    FT + '::get_field(double)': lambda pt, s, t: s.at(t),
    FT + '::get_field': sample,
    FT + '::Poynting': lambda pt, s: energy(s),
    'retard': lambda pt, s, d, o: s.retard(d, o),
    'derivative': lambda pt, s: s.deriv(),
    'make': make, 'elem': elem, 'setelem': setelem, 'setcol': setcol, 'setrow': setrow,
    'Eigen::solve': solved, 'Eigen::transpose': transpose, 'Eigen*': mul, 'Eigen::adjoint': transpose,
    'Eigen::size': lambda pt, m: float(m.r * m.c), 'Eigen::rows': lambda pt, m: float(m.r), 'Eigen::cols': lambda pt, m: float(m.c),
    'Eigen::Ones': lambda pt, n: Mat(r=int(n), c=1, d=[[1.0] for _ in range(int(n))]), 'Ones': lambda pt, n: Mat(r=int(n), c=1, d=[[1.0] for _ in range(int(n))]),
    'Zero': lambda pt, n: make(pt, n), 'fill': lambda pt, m, v: m.copy(d=[[v] * m.c for _ in m.d]),
    'Eigen::col': lambda pt, m, j: Mat(r=m.r, c=1, d=[[r[ix(j, m.c, 'column')]] for r in m.d]),
}
for x in ('bdcSvd', 'jacobiSvd', 'colPivHouseholderQr', 'householderQr', 'fullPivHouseholderQr', 'completeOrthogonalDecomposition', 'ldlt', 'llt', 'partialPivLu',
          'fullPivLu', 'eval'):
    M['Eigen::' + x] = same


def bad(x):
    raise fp.Bad(x)


class Pt(VPoint):
    models = M



def screen(rnd, np, nt, dt, plane, full=False):
    """a random screen near the plane z = plane"""
    pts, no, xi, eta = [], [], [], []
    for i in range(np):
        pts.append(V(rnd.uniform(-1, 1), rnd.uniform(-1, 1), plane + rnd.uniform(-0.1, 0.1)))
        n = V(rnd.uniform(-0.4, 0.4), rnd.uniform(-0.4, 0.4), -1.0)
        n = n / sqrt(dot(n, n))
        x = V(rnd.uniform(-1, 1), rnd.uniform(-1, 1), rnd.uniform(-1, 1))
        x = x - n * dot(x, n)
        x = x / sqrt(dot(x, x))
        no.append(n)
        xi.append(x)
        eta.append(cross(n, x))
    v = lambda: V(*[rnd.uniform(-1, 1) for _ in range(3)])
    tr = [Trace(t0=rnd.uniform(-0.3, 0.3) * dt, dt=dt, d=[F(v(), v()) for _ in range(nt)]) for _ in range(np)]
    nbh = []
    for i in range(np):
        o = [j for j in range(np) if j != i]
        rnd.shuffle(o)
        nbh.append(sorted([i] + o[:len(o) if full else rnd.choice((5, 6, len(o)))]))
    return Val(np=np, point=pts, normal=no, xi=xi, eta=eta, area=[rnd.uniform(0.2, 2) for _ in range(np)], trace=tr, nbh=nbh, inited=False)


def documented(src, tgt, reflect, c, pi):
    """{cell: trace} of the target"""
    tr = list(src.trace)
    if reflect:
        for i, t in enumerate(tr):
            n = src.normal[i]
            out = []
            for f in t.d:
                en, bn = n * dot(f.e, n), n * dot(f.b, n)
                out.append(F(en * 2.0 - f.e, f.b - bn * 2.0))
            tr[i] = t.copy(d=out)
    dt = [t.deriv() for t in tr]
    dn = []
    for i in range(src.np):
        fr = (src.xi[i], src.eta[i], src.normal[i])
        A = []
        for j in src.nbh[i]:
            r = src.point[j] - src.point[i]
            x, y = dot(r, fr[0]), dot(r, fr[1])
            A.append([1.0, x, y, x * x, y * y, x * y])
        loc = [tr[j].turn(*fr) for j in src.nbh[i]]
        dl = dt[i].turn(*fr)
        out = []
        for k in range(len(tr[i].d)):
            t = tr[i].t0 + k * tr[i].dt
            fs = [l.at(t) for l in loc]
            g = {}
            for w in 'eb':
                for q in range(3):
                    g[w, q] = solve(A, [getattr(f, w).c[q] for f in fs])
            de, db = dl.d[k].e.c, dl.d[k].b.c
            E = (g['e', 2][1] - db[1], g['e', 2][2] + db[0], -g['e', 0][1] - g['e', 1][2])
            B = (g['b', 2][1] + de[1] / c ** 2, g['b', 2][2] - de[0] / c ** 2, -g['b', 0][1] - g['b', 1][2])
            w = lambda v: fr[0] * v[0] + fr[1] * v[1] + fr[2] * v[2]
            out.append(F(w(E), w(B)))
        dn.append(tr[i].copy(d=out))
    res = []
    for k in range(tgt.np):
        s = tgt.trace[k].copy(d=[FZ] * len(tgt.trace[k].d))
        for i in range(src.np):
            r = tgt.point[k] - src.point[i]
            R = sqrt(dot(r, r))
            dA = src.area[i] / (4.0 * pi)
            p = -dot(r, src.normal[i])
            for t, f in ((tr[i], p / R ** 3), (dt[i], p / (R * R * c)), (dn[i], 1.0 / R)):
                s = s + t.retard(R / c, s) * (f * dA)
        res.append(s)
    return res


def scene(P, home):
    fs = [f for f in core.find(P, 'main') if f['f'].endswith(home) and f.get('body') is not None]
    if not fs:
        raise front.AnalysisBroken('main program in ' + home)
    f = fs[0]
    S = Scene(P, CHANGE, opaque=lambda fn: not fn['f'].endswith(home) and base((fn.get('n') or '').split('::')[0]) in ('MeshedScreen', 'FieldTrace', 'Beam', 'Lattice', 'Bunch'))
    a = [T('p', 100 + i, p['n']) for i, p in enumerate(f['params'])]
    S.call(f, None, *a)
    return S, f, a


def run(P, tier):
    R = Rep(P)
    for home, reflect in (('propagate.cpp', False), ('reflection.cpp', True)):
        S, f, a = scene(P, home)
        what = {}
        und = None
        runs = 3 if tier == 'quick' else 12
        for seed in range(1, runs + 1):
            last = seed == runs        # a mesh with cells of many neighbours
            rnd = random.Random(seed + (100 if reflect else 0))
            pt = Pt(P, seed, types={a[0]: 'int', a[1]: 'char **'}, rng=(0.35, 1.65))
            pt.maxtrip = 60
            c, pi = pt.val(T('const', 'SpeedOfLight')), pt.val(T('const', 'Pi'))
            pt.fix(a[0], 4.0)
            names = ('teufel', 'source.h5', 'target.h5', 'result.h5')
            for i, n in enumerate(names):
                pt.mem[pt.key(T('*', core.add(a[1], C(i))))] = n
            nt = rnd.choice((4, 5))
            src = screen(rnd, rnd.choice((7, 8)) if not last else 42, nt if not last else 2, rnd.uniform(0.5, 1.5), 0.0, full=last)
            tgt = screen(rnd, rnd.choice((2, 3)), rnd.choice((3, 5)), rnd.uniform(0.5, 1.5), rnd.uniform(0.8, 1.5))
            # the signal arrives during the time of the target
            for t in tgt.trace:
                t.t0 += 1.2 / c
            pt.files = {'source.h5': src, 'target.h5': tgt}
            written = []

            def visit(q, e):
                if e.kind in ('throw', 'exit'):
                    raise Wrong('the program stops')
                if e.kind == 'return':
                    return
                S.inside(q, e)
                if e.name == 'room':
                    return
                if e.kind in ('store', 'vcopy'):
                    q.assign(e)
                else:
                    written.append((q.val(e.args[0]), q.val(e.args[1]), e))
            sel = lambda e: e.kind in ('throw', 'exit') and e.fn['f'].endswith(home) or e.kind == 'store' and e.recv.op != 'var' or \
                e.kind == 'call' and e.name in (MS + '::writeFile', 'room')
            try:
                fp.walk(pt, S, S.events, sel, visit)
                want = documented(src, tgt, reflect, c, pi)
                if len(written) != 1 or written[0][1] != 'result.h5':
                    what['output'] = ('%d result files are written%s' % (len(written), ', to the third file' if len(written) == 1 else ''), None)
                else:
                    res = written[0][0]
                    if res.np != tgt.np or any(not fp.close(x, y) for x, y in zip(res.point, tgt.point)):
                        what['output'] = ('what is written is not the target screen', written[0][2])
                    else:
                        for k in range(tgt.np):
                            for i, (x, y) in enumerate(zip(res.trace[k].d, want[k].d)):
                                if not fp.close(x, y, 1e-6):
                                    what.setdefault('field', ('cell %d sample %d of the result is %s, documented %s' % (
                                        k, i, ['%.4g' % z for z in x.flat()], ['%.4g' % z for z in y.flat()]), None))
            except Wrong as w:
                what['use'] = (str(w), None)
            except (fp.Bad,) + TMP as ex:
                und = '%s: %s' % (type(ex).__name__, ex)
                break
            if what:
                break
        # without the name of the output the program stops
        pt = Pt(P, 1, types={a[0]: 'int', a[1]: 'char **'}, rng=(0.35, 1.65))
        pt.fix(a[0], 3.0)
        pt.mem.update({pt.key(T('*', core.add(a[1], C(i)))): n for i, n in enumerate(names[:3])})
        pt.mem[pt.key(T('*', core.add(a[1], C(3))))] = None
        pt.files = {'source.h5': src, 'target.h5': tgt}
        use, stops = [], []

        def early(q, e):
            (stops if e.kind in ('return', 'throw', 'exit') else use).append(e)
        try:
            fp.walk(pt, S, S.events, lambda e: e.kind in ('throw', 'exit') and e.fn['f'].endswith(home) or e.name == MS + '::writeFile', early)
        except (fp.Bad, Wrong) + TMP:
            pass
        if use and not stops:
            what['arguments'] = ('the program goes on (to %s) although the name of the output file is not given' % use[0].where, None)
        for k in ('field', 'output', 'use', 'arguments'):
            R.oblig('program', False if k in what else None if und or what else True, '%s %s' % (home, k), front.loc(f, f), f['n'],
                    '%s: %s' % (home, what[k][0] if k in what else und or 'as documented'))
    return R.result('main() of the programs is interpreted with screens, traces and matrices as abstract values; the effect summary is evaluated '
                    'for random screens and compared with the documented reflection and Kirchhoff integral.', minimum=0)

"""D02: what is read from a file is what the file says; reading and writing agree."""
import core, api, front, fp
from core import T, C, add
from rep import Rep
from fp import V, F
from props.obs import *
from props import files, d01
from props.files import FileRun, Reject, TMP
from props.d01 import compare, check

TMP = TMP + (OverflowError,)


def run(P, tier):
    R = Rep(P)
    N = 9 if tier == 'quick' else 60
    for src in ('Beam', 'Bunch', 'Lattice'):
        mesh(P, R, N, src)
    return R.result('The constructor of the mesh screen is interpreted on a modelled file, then its writer; the data sets, attributes and '
                    'field traces are followed through both.', minimum=6)


class Traces(FileRun):
    """a run in which field traces are created, filled and stored"""

    def __init__(s, pt, S, events, objs=None, **kw):
        s.objs = objs if objs is not None else {}
        s.new = {}
        super().__init__(pt, S, events, **kw)

    def matters(s, x):
        return super().matters(x) or x.kind in ('call', 'copy') and (x.name or '').startswith(FT)

    def who(s, q, t):
        """the trace behind a pointer"""
        if t.op == 'new':
            return s.new.get(s.id(q, t))
        k = q.key(T('*', t) if t.op not in ('addr', 'ld') else t.a[0])
        return s.objs.get(k) or s.new.get(k)

    def id(s, q, t):
        its = tuple(float(v) for k, v in sorted(q.env.items(), key=lambda x: str(x[0])) if k.op == 'iter') if t.op == 'new' else ()
        return (str(t), its)

    def visit(s, q, e):
        super().visit(q, e)
        if e.kind in ('call', 'copy') and (e.name == FT + '::' + FT or e.kind == 'copy' and e.name.startswith(FT)):
            a = e.args
            if len(a) == 3:
                n = int(q.val(a[2]))
                rec = dict(t0=q.val(a[0]), dt=q.val(a[1]), n=n, data=[F(V(0., 0., 0.), V(0., 0., 0.)) for i in range(n)])
            elif len(a) == 1:
                src = s.who(q, a[0]) or (s.who(q, a[0].a[0]) if a[0].op == 'ld' else None)
                if a[0].op == 'ld' and src is None:
                    src = s.new.get(q.key(a[0].a[0])) or s.objs.get(q.key(a[0].a[0]))
                if src is None:
                    raise fp.Bad('copy of a trace')
                rec = dict(src, data=list(src['data']))
            else:
                raise fp.Bad('trace')
            r = e.recv
            if r.op == 'new':
                s.new[s.id(q, r)] = rec
            else:
                s.new[q.key(q_loc(r))] = rec
        elif e.kind in ('store', 'init') and e.args and e.args[0].op == 'new':
            t = s.new.get(s.id(q, e.args[0]))
            if t is not None:
                s.objs[q.key(e.recv)] = t
        elif e.kind == 'push' and e.args and e.args[0].op == 'new' and s.new.get(s.id(q, e.args[0])):
            s.objs[q.key(T('e', e.recv, e.types))] = s.new[s.id(q, e.args[0])]
        elif e.kind == 'call' and e.name.startswith(FT + '::'):
            t = s.who(q, e.recv)
            m = e.name.rsplit('::', 1)[-1]
            if m == 'set_buffer':
                if t is None:
                    raise fp.Bad('trace')
                n = int(q.val(e.args[1]))
                if n != t['n']:
                    raise Reject('%d samples are stored in a trace of %d' % (n, t['n']))
                x = files.elements(q, e.args[0], 6 * n) if n else []
                t['data'] = [F(V(*x[6 * i:6 * i + 3]), V(*x[6 * i + 3:6 * i + 6])) for i in range(n)]
            elif m == 'set_field':
                if t is None:
                    raise fp.Bad('trace')
                t['data'][int(q.val(e.args[0]))] = q.val(e.args[1])
            elif m == 'zero':
                if t is None:
                    raise fp.Bad('trace')
                t['data'] = [F(V(0., 0., 0.), V(0., 0., 0.)) for i in range(t['n'])]
            elif m == 'set_t0':
                t['t0'] = q.val(e.args[0])


def q_loc(r):
    return r.a[0] if r.op == 'addr' else T('*', r)


def handlers(pt, objs):
    """the traces as the public interface of FieldTrace shows them"""
    def tr(q, t):
        p = t.a[1]
        k = q.key(T('*', p) if p.op not in ('addr', 'ld') else p.a[0])
        if k not in objs:
            raise fp.Bad('trace')
        return objs[k]

    def get(q, t):
        x, i = tr(q, t), int(q.val(t.a[2][0]))
        if not 0 <= i < x['n']:
            raise Reject('sample %d of a trace with %d samples is used' % (i, x['n']))
        return x['data'][i]
    pt.calls[FT + '::get_N'] = lambda q, t: float(tr(q, t)['n'])
    pt.calls[FT + '::get_t0'] = lambda q, t: tr(q, t)['t0']
    pt.calls[FT + '::get_dt'] = lambda q, t: tr(q, t)['dt']
    pt.calls[FT + '::get_field'] = get
    pt.calls[FT + '::get_time'] = lambda q, t: tr(q, t)['t0'] + tr(q, t)['dt'] * q.val(t.a[2][0])


def meshfile(pt, seed):
    """a mesh screen file as the documentation describes it"""
    ncp, n, nt = 3 + seed % 3, 1 + (seed * 7) % 4, 1 + (seed * 5) % 3
    v = lambda *k: pt.rnd('file', *k)
    kind = seed % 3         # 0: complete  1: no field  2: geometry only
    d = {'MeshCornerPoints': ((ncp, 3), 'double', [v('c', i) for i in range(3 * ncp)]),
         'ObservationPosition': ((n, 3), 'double', [v('p', i) for i in range(3 * n)]),
         'MeshTriangles': ((n, 3), 'int', [float(int(v('t', i) * 1e6) % ncp) for i in range(3 * n)])}
    a = {('MeshCornerPoints', 'Ncp'): float(ncp), ('ObservationPosition', 'Np'): float(n), ('MeshTriangles', 'Ntri'): float(n)}
    t = {k: 'int' for k in a}
    if kind < 2:
        d['ObservationTime'] = ((n,), 'double', [v('t0', i) for i in range(n)])
        a.update({('ObservationTime', 'Nt'): float(nt), ('ObservationTime', 'dt'): v('dt')})
        t.update({('ObservationTime', 'Nt'): 'int', ('ObservationTime', 'dt'): 'double'})
    if kind == 0:
        d['ElMagField'] = ((n, nt, 6), 'double', [v('f', i) for i in range(6 * n * nt)])
    return dict(data=d, attrs=a, types=t, kind=kind, n=n, nt=nt if kind < 2 else 0, ncp=ncp)


def mesh(P, R, N, src):
    O = Obs(P, 'MeshedScreen', src)
    name = T('p', 100, 'filename')
    S = api.Scene(P, opaque=TRACE_OPS | {FT + '::' + FT, 'current_time'})
    S.call(O.ctor, ME, name)
    ev1 = list(S.events)
    W = {}
    for m, k in (('generateOutput', 0), ('writeFile', 1)):
        f = O.method(m, k)
        if f is None:
            raise front.AnalysisBroken('%s::%s' % (O.full, m))
        X = api.Scene(P, opaque=TRACE_OPS | {FT + '::' + FT, 'current_time'})
        X.call(f, ME, *([T('p', 101, 'out')] if k else []))
        W[m] = (f, X)
    A = {}
    i = api.idx('cell')
    for m in ('get_Np', 'get_Nt', 'get_dt', 'get_t0', 'get_point', 'get_field'):
        fs = [f for f in P.functions.values() if f['n'] == O.full + '::' + m and f.get('body') is not None]
        if len(fs) == 1:
            X = api.Scene(P, opaque=TRACE_OPS)
            try:
                A[m] = (X, X.call(fs[0], ME, *[i, api.idx('sample')][:len(fs[0]['params'])]))
            except front.AnalysisBroken:
                pass
    Z = api.Scene(P, opaque=TRACE_OPS)
    zf = O.method('zero', 0)
    if zf:
        Z.call(zf, ME)

    def setup(seed):
        pt = fp.Point(P, seed, types={**O.types, name: 'std::string', T('p', 101, 'out'): 'std::string'}, rng=(-1.6, 1.4))
        pt.maxtrip = 400
        pt.loops = S.loopinfo
        F0 = meshfile(pt, seed)
        r = Traces(pt, S, ev1, read=F0)
        if r.outcome[0] == 'throw':
            return pt, F0, r, 'a valid file is refused (%s)' % (r.outcome[2].where,)
        handlers(pt, r.objs)
        if len(r.objs) != F0['n']:
            raise fp.Bad('%d traces' % len(r.objs))
        return pt, F0, r, None

    def read(seed):
        pt, F0, r, bad = setup(seed)
        if bad:
            return bad
        d = F0['data']
        num = dict(get_Np=F0['n'], get_Nt=F0['nt'], get_dt=F0['attrs'].get(('ObservationTime', 'dt'), 0.0))
        for m, v in num.items():
            if m in A and not fp.close(pt.val(A[m][1]), float(v)):
                return '%s() does not report the value of the file' % m
        for c in range(F0['n']):
            q = pt.child({i: float(c)})
            if 'get_point' in A and not fp.close(q.val(A['get_point'][1]), V(*d['ObservationPosition'][2][3 * c:3 * c + 3])):
                return 'get_point() does not report the position of the file'
            t0 = d['ObservationTime'][2][c] if F0['kind'] < 2 else 0.0
            if 'get_t0' in A and not fp.close(q.val(A['get_t0'][1]), t0):
                return 'get_t0() does not report the start time of the file'
        for k, t in r.objs.items():
            c = int(k[2][1])
            nt = F0['nt']
            if t['n'] != nt:
                return 'the trace of a cell has %d samples instead of %d' % (t['n'], nt)
            if F0['kind'] < 2 and (not fp.close(t['t0'], d['ObservationTime'][2][c]) or not fp.close(t['dt'], num['get_dt'])):
                return 'the trace of a cell has another time axis than the file'
            w = d['ElMagField'][2] if F0['kind'] == 0 else [0.0] * (6 * F0['n'] * nt)
            for s in range(nt):
                x = t['data'][s].flat()
                if any(not fp.close(a, b) for a, b in zip(x, w[6 * (c * nt + s):6 * (c * nt + s) + 6])):
                    return 'a sample of a cell is not the one of the file'
        return None

    def write(m):
        def once(seed):
            pt, F0, r, bad = setup(seed)
            if bad:
                raise fp.Bad(bad)
            f, X = W[m]
            pt.loops = dict(pt.loops)
            pt.loops = X.loopinfo
            w = FileRun(pt, X, X.events)
            if w.outcome[0] == 'throw' or len(w.files) != 1:
                raise fp.Bad('no file')
            arg = w.files[0]['file']
            if m == 'writeFile' and not core.contains(arg, lambda t: t is T('p', 101, 'out')) and core.contains(arg, lambda t: t.op == 'f'):
                return 'the given file name is not used'
            n, nt = F0['n'], F0['nt']
            data = {k: (dm, v) for k, (dm, ty, v) in F0['data'].items()}
            data.setdefault('ObservationTime', ((n,), [0.0] * n))
            data.setdefault('ElMagField', ((n, nt, 6), [0.0] * (6 * n * nt)))
            at = {k: v for k, v in F0['attrs'].items()}
            at.update({('ObservationTime', 'Nt'): float(nt), ('ObservationTime', 'dt'): F0['attrs'].get(('ObservationTime', 'dt'), 0.0)})
            ty = {k: 'double' if k[1] == 'dt' else 'int' for k in at}
            g = w.files[0]
            types = {k: v[1] for k, v in g['data'].items() if v}
            if types.get('MeshTriangles', 'int') != 'int':
                return 'data set MeshTriangles is stored as %s' % types['MeshTriangles']
            for k in ('MeshTriangles',):
                if g['data'].get(k):
                    g['data'][k] = (g['data'][k][0], 'double', g['data'][k][2])
            return compare(g, dict(data=data, attrs=at, types=ty))
        return once
    check(R, O.ctor, O.full + ' from file', range(1, N + 1), read)
    for m in W:
        check(R, W[m][0], '%s::%s' % (O.full, m), range(1, N + 1), write(m))

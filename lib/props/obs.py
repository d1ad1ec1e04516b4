"""Shared model of the observers: which trace belongs to which cell, with what time axis."""
import core, api, front, fp
from core import T, C

FT = 'FieldTrace'
TRACE_OPS = {FT + '::' + m for m in ('get_t0', 'get_dt', 'get_N', 'get_time', 'get_last_time', 'get_field', 'set_field', 'add', 'zero',
                                     'get_buffer', 'set_buffer', 'Poynting', 'set_t0')}
SRC = {'Beam': 'beam', 'Bunch': 'beam', 'Lattice': 'lattice'}
ME = T('p', 9, 'object')
ARGS = {     # constructor parameters of the gridded observers by position
    'ScreenObserver': ('file', 'pos', 'dX', 'dY', 'nx', 'ny', 't0', 'dt', 'dtx', 'dty', 'n'),
    'PointObserver': ('file', 'pos', 't0', 'dt', 'n'),
    'SnapshotObserver': ('file', 'pos', 'dX', 'dY', 'nx', 'ny', 't')}
TYPES = dict(pos='Vector', dX='Vector', dY='Vector', nx='int', ny='int', n='int', t0='double', dt='double', dtx='double', dty='double', t='double', file='std::string')


class Obs:
    """an observer of class cls<src>, constructed from symbolic parameters"""

    def __init__(s, P, cls, src):
        s.P, s.cls, s.src, s.full = P, cls, src, '%s<%s>' % (cls, src)
        s.types = {ME: s.full + ' *'}
        s.members = {}
        s.arg = {}
        fs = [f for f in core.find(P, '%s::%s' % (cls, cls)) if f.get('body') is not None and f['n'].startswith(s.full) or
              f['n'].startswith(s.full + '::' + cls)]
        if not fs:
            raise front.AnalysisBroken('no constructor of ' + s.full)
        s.ctor = fs[0]
        s.events = []
        if cls != 'MeshedScreen':
            if len(s.ctor['params']) != len(ARGS[cls]):
                raise front.AnalysisBroken('constructor of %s has new parameters' % s.full)
            S = api.Scene(P, opaque=TRACE_OPS | {FT + '::' + FT, 'current_time'})
            for i, (k, p) in enumerate(zip(ARGS[cls], s.ctor['params'])):
                s.arg[k] = T('p', 100 + i, p['n'])
                s.types[s.arg[k]] = TYPES[k]
            S.call(s.ctor, ME, *[s.arg[k] for k in ARGS[cls]])
            s.scene = S
            s.events = S.events
            if S.state is not None:
                for k, v in S.state.st.items():
                    if k.op == 'f' and k.a[0] is ME and not core.contains(v, lambda x: x.op in ('lo', 'lv', 'unk', 'undef')):
                        s.members[k] = v

    def method(s, name, np=None):
        for f in s.P.functions.values():
            if f['n'] == s.full + '::' + name and f.get('body') is not None and (np is None or len(f['params']) == np):
                return f
        return None

    def scene(s):
        pass

    def open(s, opaque=()):
        """a scene in which the constructed object exists"""
        S = api.Scene(s.P, opaque=TRACE_OPS | {'current_time'} | set(opaque))
        S.state = core.State(dict(s.members), ())
        return S

    def point(s, seed, nx=None, ny=None, n=None):
        pt = fp.Point(s.P, seed, types=s.types, rng=(0.35, 1.65) if seed % 2 else (-1.6, 1.4))
        r = lambda k, m: float(1 + int(pt.rnd('size', k) * 1000) % m)
        s.nx, s.ny, s.n = nx or r('x', 5), ny or r('y', 4), n or r('n', 4)
        for k, v in (('nx', s.nx), ('ny', s.ny), ('n', s.n)):
            if k in s.arg:
                pt.fix(s.arg[k], v)
        return pt

    def g(s, pt, k):
        return pt.val(s.arg[k])

    def cell(s, pt, ix, iy):
        """documented position of a cell"""
        if s.cls == 'SnapshotObserver':         # the centre of the grid is at the given position
            return s.g(pt, 'pos') + s.g(pt, 'dX') * (ix - 0.5 * (s.nx - 1)) + s.g(pt, 'dY') * (iy - 0.5 * (s.ny - 1))
        cx, cy = ix - s.nx // 2, iy - s.ny // 2
        return s.g(pt, 'pos') + s.g(pt, 'dX') * cx + s.g(pt, 'dY') * cy

    def start(s, pt, ix, iy):
        return s.g(pt, 't0') + s.g(pt, 'dtx') * (ix - s.nx // 2) + s.g(pt, 'dty') * (iy - s.ny // 2)

    def cells(s, pt):
        """[(trace pointer key, (ix, iy), position, t0)] of this point; raises fp.Bad when not determined"""
        if s.cls == 'ScreenObserver':
            last, loc = {}, {}

            def visit(q, e):
                if e.kind == 'call':
                    last[e.recv] = [q.val(a) for a in e.args]
                else:
                    loc[q.key(T('ld', e.recv))] = last.get(e.args[0])
            fp.walk(pt, s.scene, s.events, lambda e: e.kind == 'call' and e.name == FT + '::' + FT or
                    e.kind == 'store' and e.recv.op != 'var' and e.args and e.args[0].op == 'new', visit)
            out, bad = [], None
            want = {(ix, iy): s.start(pt, ix, iy) for ix in range(int(s.nx)) for iy in range(int(s.ny))}
            for k, a in loc.items():
                if a is None:
                    raise fp.Bad('trace')
                c = [i for i, t in want.items() if fp.close(t, a[0])]
                if len(c) != 1:
                    bad = bad or 'a trace starts at a time that is not that of one cell'
                    continue
                if not fp.close(a[1], s.g(pt, 'dt')) or not fp.close(a[2], s.n):
                    bad = bad or 'a trace has a wrong time step or length'
                out.append((k, c[0], s.cell(pt, *c[0]), a[0]))
            if not bad and sorted(c for _, c, _, _ in out) != sorted(want):
                bad = 'not one trace per cell'
            return out, bad
        if s.cls == 'PointObserver':
            out = []
            bad = []

            def visit(q, e):
                a = [q.val(x) for x in e.args]
                if not (fp.close(a[0], s.g(q, 't0')) and fp.close(a[1], s.g(q, 'dt')) and fp.close(a[2], s.n)):
                    bad.append('trace of the observer has the wrong time axis')
                out.append((q.key(e.recv), (0, 0), s.g(q, 'pos'), a[0]))
            fp.walk(pt, s.scene, s.events, lambda e: e.kind == 'call' and e.name == FT + '::' + FT, visit)
            if len(out) != 1:
                raise fp.Bad('trace')
            return out, bad[0] if bad else None
        raise fp.Bad(s.cls)


class Mesh(Obs):
    """a mesh observer: geometry and traces are those reported by its accessors"""

    def __init__(s, P, src):
        super().__init__(P, 'MeshedScreen', src)
        S = s.open()
        m = lambda n, *a: S.call(s.method(n), ME, *a)
        s.np, s.nt, s.dt = m('get_Np'), m('get_Nt'), m('get_dt')
        s.j = api.idx('j')
        s.pos = m('get_point', s.j)
        e0 = len(S.events)
        s.t0 = m('get_t0', s.j)
        ev = [e for e in S.events[e0:] if e.kind == 'call' and e.name == FT + '::get_t0']
        if len(ev) != 1:
            raise front.AnalysisBroken('MeshedScreen::get_t0 does not ask a trace')
        s.ptr = ev[0].recv

    def point(s, seed, **kw):
        pt = fp.Point(s.P, seed, types=s.types, rng=(0.35, 1.65) if seed % 2 else (-1.6, 1.4))
        s.n = float(1 + int(pt.rnd('n') * 1000) % 4)
        s.nx = float(1 + int(pt.rnd('x') * 1000) % 5)
        pt.fix(s.np, s.nx)
        pt.fix(s.nt, s.n)
        return pt

    def cells(s, pt):
        out = []
        for k in range(int(s.nx)):
            c = pt.child({s.j: float(k)})
            out.append((c.key(s.ptr), (k, 0), c.val(s.pos), None))
        return out, None


def trace_handlers(pt, obs, cells, t0=None):
    """values reported by the traces at this point"""
    ax = {str(k): t for k, c, p, t in cells}

    def of(q, t):
        k = str(q.key(t.a[1]))
        if k not in ax:
            raise fp.Bad('unknown trace')
        v = ax[k]
        return q.rnd('t0', k) if v is None else v

    def dt(q):
        return obs.g(q, 'dt') if 'dt' in obs.arg else q.val(obs.dt)

    def get_time(q, t):
        i = q.val(t.a[2][0])
        if not 0 <= i < obs.n:
            raise fp.Bad('time index')
        return of(q, t) + i * dt(q)

    pt.calls[FT + '::get_t0'] = of
    pt.calls[FT + '::get_dt'] = lambda q, t: dt(q)
    pt.calls[FT + '::get_N'] = lambda q, t: obs.n
    pt.calls[FT + '::get_time'] = get_time
    pt.calls[FT + '::get_last_time'] = lambda q, t: of(q, t) + dt(q) * (obs.n - 1)


def fieldleaf(pt, *key):
    h = ('of',) + key
    return fp.F(fp.V(*[pt.rnd(h, i) for i in range(3)]), fp.V(*[pt.rnd(h, i) for i in range(3, 6)]))

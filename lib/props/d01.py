"""D01: output files contain exactly what the object holds, in the documented data sets, shapes and order."""
import core, api, front, fp
from core import T, C, add
from rep import Rep
from fp import V, F
from props.obs import *
from props.files import FileRun, Reject, TMP

TMP = TMP + (OverflowError,)


def run(P, tier):
    R = Rep(P)
    N = 6 if tier == 'quick' else 40
    for src in ('Beam', 'Bunch', 'Lattice'):
        observer(P, R, N, 'ScreenObserver', src, screen_spec)
        observer(P, R, N, 'SnapshotObserver', src, snapshot_spec)
        observer(P, R, N, 'PointObserver', src, point_spec)
    particles(P, R, N)
    parameters(P, R, N)
    trajectories(P, R, N, 'TrajectoryLogger', 'bufferCoordinates')
    trajectories(P, R, N, 'ProbeLogger', 'bufferProbe')
    for cls in ('Beam', 'Bunch'):
        watch(P, R, N, cls)
    fel(P, R, N)
    return R.result('Every writer of output files is interpreted together with a model of the HDF5 and SDDS library; the data sets, '
                    'attributes, parameters, columns and rows it produces are compared with what the object holds.', minimum=12)


# ------------------------------------------------------------------ comparison
def compare(got, want):
    """first difference between the file written and the one required (extra parts are allowed)"""
    for name, (dims, vals) in want.get('data', {}).items():
        g = got['data'].get(name, 0)
        if g == 0:
            return 'there is no data set %s' % name
        if g is None:
            return 'data set %s is never written' % name
        if tuple(g[0]) != tuple(int(d) for d in dims):
            return 'data set %s has the size %s instead of %s' % (name, list(g[0]), [int(d) for d in dims])
        if g[1] not in ('double', None):
            return 'data set %s is stored as %s' % (name, g[1])
        flat = [x for v in vals for x in fp.flat(v)]
        for i, (a, b) in enumerate(zip(g[2], flat)):
            if not fp.close(a, b):
                return 'value %d of data set %s is wrong' % (i, name)
    for k, v in want.get('attrs', {}).items():
        if k not in got['attrs']:
            return 'attribute %s of data set %s is missing' % (k[1], k[0])
        if not fp.close(got['attrs'][k], v):
            return 'attribute %s of data set %s has a wrong value' % (k[1], k[0])
        t = got['types'].get(k)
        if t and k in want.get('types', {}) and t != want['types'][k]:
            return 'attribute %s of data set %s is stored as %s' % (k[1], k[0], t)
    for k, v in want.get('params', {}).items():
        if got['params'].get(k) is None:
            return 'parameter %s is missing' % k
        if not fp.close(got['params'][k], v):
            return 'parameter %s has a wrong value' % k
    if 'params' in got:
        for k, v in got['params'].items():
            if v is None:
                return 'parameter %s is never set' % k
    if 'rows' in want:
        n = len(want['rows'])
        if got['pages'] != 1 or not got.get('written'):
            return 'the table is not written once'
        if got['lines'] != n:
            return 'the table has %s rows instead of %d' % (got['lines'], n)
        if sorted(got['rows']) != list(range(n)):
            return 'not every row of the table is set'
        for i, row in enumerate(want['rows']):
            for c in got['columns']:
                if c not in got['rows'][i]:
                    return 'column %s is not set' % c
            for c, v in row.items():
                if c not in got['rows'][i]:
                    return 'there is no column %s' % c
                if not fp.close(got['rows'][i][c], v):
                    return 'column %s has a wrong value' % c
    return None


def check(R, fn, name, seeds, once):
    """once(seed) -> message or None"""
    bad = und = None
    for seed in seeds:
        try:
            bad = once(seed)
        except Reject as ex:
            bad = str(ex)
        except front.AnalysisBroken:
            raise
        except TMP as ex:
            und = und or '%s: %s' % (type(ex).__name__, str(ex)[:200])
            continue
        if bad:
            break
    R.oblig('file', False if bad else None if und else True, name, front.loc(fn, fn), fn['n'], '%s: %s' % (name, bad or und or 'as documented'))


# ------------------------------------------------------------------ observers
def grid(O):
    return [(x, y) for x in range(int(O.nx)) for y in range(int(O.ny))]


def screen_spec(O, pt, recs):
    g = lambda k: O.g(pt, k)
    n = fp.cross(g('dX'), g('dY')) * -1.0
    n = n / fp.sqrt(fp.dot(n, n))
    d = {'ObservationPosition': ((O.nx, O.ny, 3), [O.cell(pt, *c) for c in grid(O)]),
         'Screen': ((4, 3), [g('pos'), n, g('dX'), g('dY')]),
         'ElMagField': ((O.nx, O.ny, O.n, 6), [recs[c, i] for c in grid(O) for i in range(int(O.n))])}
    a = {('Screen', k): v for k, v in dict(Nx=O.nx, Ny=O.ny, NOTS=O.n, t0=g('t0'), dt=g('dt'), dtx=g('dtx'), dty=g('dty')).items()}
    a.update({('ObservationPosition', 'Nx'): O.nx, ('ObservationPosition', 'Ny'): O.ny, ('ElMagField', 't0'): g('t0'), ('ElMagField', 'dt'): g('dt'), ('ElMagField', 'NOTS'): O.n})
    ints = {'Nx', 'Ny', 'NOTS'}
    return dict(data=d, attrs=a, types={k: 'int' if k[1] in ints else 'double' for k in a})


def snapshot_spec(O, pt, recs):
    d = {'ObservationPosition': ((O.nx, O.ny, 3), [O.cell(pt, *c) for c in grid(O)]),
         'ElMagField': ((O.nx, O.ny, 6), [recs[c, 0] for c in grid(O)])}
    a = {('ObservationPosition', 'Nx'): O.nx, ('ObservationPosition', 'Ny'): O.ny, ('ElMagField', 't0'): O.g(pt, 't')}
    return dict(data=d, attrs=a, types={k: 'double' if k[1] == 't0' else 'int' for k in a})


def point_spec(O, pt, recs):
    rows = []
    for i in range(int(O.n)):
        f = recs[(0, 0), i].flat()
        rows.append(dict(zip(('t', 'Ex', 'Ey', 'Ez', 'Bx', 'By', 'Bz'), (O.g(pt, 't0') + i * O.g(pt, 'dt'),) + tuple(f))))
    return dict(rows=rows, params=dict(NumberTimeSteps=O.n, t0=O.g(pt, 't0'), dt=O.g(pt, 'dt')))


def observer(P, R, N, cls, src, spec):
    O = Obs(P, cls, src)
    f = O.method('generateOutput')
    if f is None:
        raise front.AnalysisBroken(O.full + '::generateOutput')
    S = O.open({FT + '::get_buffer'})
    n0 = len(S.events)
    S.call(f, ME)
    ev = S.events[n0:]
    loc = None
    if cls == 'SnapshotObserver':
        S2 = O.open()
        ix, iy = api.idx('ix'), api.idx('iy')
        S2.assume(core.cmp_('<=', C(0), ix), core.cmp_('<=', C(0), iy), core.cmp_('<', ix, O.arg['nx']), core.cmp_('<', iy, O.arg['ny']))
        l = api.canon(S2.call(O.method('getField'), ME, ix, iy))
        if l.op != 'ld':
            raise front.AnalysisBroken('SnapshotObserver::getField')
        loc = l.a[0]

    def once(seed):
        pt = O.point(seed)
        pt.types = dict(pt.types)
        pt.loops = S.loopinfo
        recs, eff = {}, {}
        if loc is not None:
            for c in grid(O):
                recs[c, 0] = pt.child({ix: float(c[0]), iy: float(c[1])}).val(T('ld', loc))
        else:
            cs, b = O.cells(pt)
            if b:
                raise fp.Bad(b)
            trace_handlers(pt, O, cs)
            traces(pt, O.n, eff)
            for k, c, p, t in cs:
                for i in range(int(O.n)):
                    recs[c, i] = fieldleaf(pt, 'rec', str(k), i)
        r = FileRun(pt, S, ev, effects=eff)
        if r.outcome[0] == 'throw':
            raise fp.Bad('error')
        if len(r.files) != 1:
            return '%d files are written' % len(r.files)
        if misnamed(O, r.files[0]['file']):
            return 'the file has another name'
        w = spec(O, pt, recs)
        if ('rows' in w) != ('rows' in r.files[0]):
            raise fp.Bad('file type')
        return compare(r.files[0], w)
    check(R, f, O.full + '::generateOutput', range(1, N + 1), once)


def misnamed(O, t):
    """the name is known to be something else than the one given to the constructor"""
    if 'file' not in O.arg or core.contains(t, lambda x: x is O.arg['file']):
        return False
    m = [O.members.get(x) for x in core.subterms(t) if x.op == 'f' and x.a[0] is ME]
    return bool(m) and None not in m and O.arg['file'] not in m


def traces(pt, n, eff):
    """recorded samples of the traces"""
    def get_field(q, t):
        i = q.val(t.a[2][0])
        if i != int(i) or not 0 <= i < n:
            raise Reject('sample %s of a trace with %d samples is written' % (i, n))
        return fieldleaf(pt, 'rec', str(q.key(t.a[1])), int(i))

    def get_buffer(q, e):
        if q.val(e.args[1]) != n:
            raise Reject('not all samples of a trace are written')
        for i in range(int(n)):
            for j, x in enumerate(fieldleaf(pt, 'rec', str(q.key(e.recv)), i).flat()):
                q.mem[q.key(T('*', add(q.subst(e.args[0]), C(6 * i + j))))] = x
        for t in [t for t in q.memo if not isinstance(t, core.Term) or t.op not in ('p', 'c', 'const')]:
            if t not in getattr(q, 'preset', {}):
                del q.memo[t]
    pt.calls[FT + '::get_field'] = get_field
    eff[FT + '::get_buffer'] = get_buffer


# ------------------------------------------------------------------ particles of a snapshot
def particles(P, R, N):
    for src in ('Beam', 'Bunch'):
        O = Obs(P, 'SnapshotObserver', src)
        f = O.method('storeParticlePositions')
        w = O.method('generateOutput')
        if f is None:
            continue
        S = O.open({'ChargedParticle::CoordinatesAtTime'})
        beam = T('p', 120, 'source')
        ss = [x for x in core.find(P, 'Observer::setSource') + core.find(P, 'Observer<%s>::setSource' % src) if x.get('body') is not None and x['params'] and x['params'][0]['t'].replace(' ', '') == src + '*']
        if not ss:
            raise front.AnalysisBroken('Observer<%s>::setSource' % src)
        S.call(ss[0], ME, beam)
        n0 = len(S.events)
        S.call(f, ME)
        n1 = len(S.events)
        S.call(w, ME)
        ev = S.events[n0:n1]
        out = S.events[n1:]
        Q = beams(P, src, beam)

        def once(seed):
            pt = O.point(seed)
            pt.types = dict(pt.types)
            pt.types[beam] = src + ' *'
            pt.fix(core.cmp_('==', beam, C(0)), 0.0)
            parts = Q.fix(pt, seed)
            pt.loops = dict(Q.S.loopinfo)
            pt.loops.update(S.loopinfo)
            outs = lambda q, t, i: (lambda k: V(*[q.rnd(k, int(t.a[1]), j) for j in range(3)]))(str(q.key(t.a[2].t.a[1])))
            pt.calls['out:ChargedParticle::CoordinatesAtTime'] = outs
            for e in ev:
                if e.kind == 'call' and e.name == 'ChargedParticle::CoordinatesAtTime' and not fp.close(pt.val(e.args[0]), O.g(pt, 't')):
                    return 'the particles are not recorded at the time of the snapshot'
            FileRun(pt, S, ev)
            r = FileRun(pt, S, out)
            if r.outcome[0] == 'throw':
                raise fp.Bad('error')
            if not r.files:
                raise fp.Bad('no file %s' % (r.outcome,))
            ks = [str(pt.key(p) if not isinstance(p, tuple) else p) for p in parts]
            vals = [V(*[pt.rnd(k, i, j) for j in range(3)]) for k in ks for i in (1, 2)]
            if not parts:
                return None
            return compare(r.files[0], dict(data={'ParticleCoordinates': ((len(parts), 6), vals)}, attrs={('ParticleCoordinates', 'N_particles'): float(len(parts))}))
        check(R, w, O.full + ' particle coordinates', range(1, N + 1), once)


def size(q, t, n):
    """a vector of pointers has as many elements as the object says it has"""
    if t.op == 'ld' and t.a[0].op == 'e':
        q.mem[q.key(T('sz', t.a[0].a[0]))] = float(n)


class beams:
    """the particles of a beam or bunch in their documented order, reached through the public interface"""

    def __init__(s, P, src, obj, opaque=()):
        s.P, s.src, s.obj = P, src, obj
        S = s.S = api.Scene(P, opaque=opaque)
        s.b, s.j = api.idx('bunch'), api.idx('particle')
        if src == 'Beam':
            s.nb = S.call('Beam::getNOB', obj)
            S.assume(core.cmp_('<=', C(0), s.b), core.cmp_('<', s.b, s.nb))
            s.bunch = S.call('Beam::getBunch', obj, s.b)
        else:
            s.nb, s.bunch = C(1), obj
        s.np = S.call('Bunch::getNOP', s.bunch)
        S.assume(core.cmp_('<=', C(0), s.j), core.cmp_('<', s.j, s.np))
        s.part = S.call('Bunch::getParticle', s.bunch, s.j)
        if s.part.op != 'ld':
            s.part = api.canon(s.part)

    def get(s, m):
        return s.S.call('ChargedParticle::' + m, s.part)

    def fix(s, pt, seed):
        """choose the numbers of bunches and particles; returns the keys of all particles"""
        nb = 1 + seed % 3 if s.src == 'Beam' else 1
        if s.src == 'Beam':
            pt.fix(s.nb, float(nb))
            size(pt, s.bunch, nb)
        out = []
        s.sizes = []
        for b in range(nb):
            q = pt.child({s.b: float(b)})
            n = (seed * 7 + b * 3) % 4 if seed > 1 else 2
            pt.mem[q.key(s.np.a[0])] = float(n)
            s.sizes.append(n)
            size(q, s.part, n)
            for j in range(n):
                out.append(pt.child({s.b: float(b), s.j: float(j)}).key(s.part))
        return out

    def points(s, pt):
        for b, n in enumerate(s.sizes):
            for j in range(n):
                yield pt.child({s.b: float(b), s.j: float(j)})


# ------------------------------------------------------------------ loggers
def logger(P, cls, src):
    full = '%s<%s>' % (cls, src)
    m = {}
    for f in P.functions.values():
        if f['n'].startswith(full + '::') and f.get('body') is not None:
            m[f['n'].rsplit('::', 1)[-1]] = f
    return full, m


COLUMNS = [('t', 'avgTime', None), ('gamma', 'avgGamma', None), ('delta', 'delta', None)] + \
    [(c + '_av', 'avgPosition', i) for i, c in enumerate('xyz')] + [('bg%s_av' % c, 'avgMomentum', i) for i, c in enumerate('xyz')] + \
    [(c + '_rms', 'rmsPosition', i) for i, c in enumerate('xyz')]


def instances(P, cls):
    return sorted({f['n'].split('<', 1)[1].split('>')[0] for f in P.functions.values() if f['n'].startswith(cls + '<') and f.get('body') is not None})


def parameters(P, R, N):
    for src in instances(P, 'ParameterLogger'):
        full, m = logger(P, 'ParameterLogger', src)
        up, wr = m['update'], m['WriteData']
        ops = {src + '::' + x for _, x, _ in COLUMNS} | {src + '::' + x for x in ('BunchingFactor', 'rmsMomentum', 'getNOP', 'getTotalCharge')}
        S1 = api.Scene(P, opaque=ops)
        S1.call(up, ME)
        S2 = api.Scene(P, opaque=ops)
        S2.call(wr, ME)
        rb = m.get('record_bunching')
        flags = []
        if rb:
            S3 = api.Scene(P)
            fr = T('p', 100, 'freq')
            S3.call(rb, ME, fr)
            flags = [(e.recv, e.args[0]) for e in S3.events if e.kind == 'store' and e.recv.op == 'f']

        def once(seed):
            pt = fp.Point(P, seed, types={ME: full + ' *'}, rng=(0.35, 1.65))
            n = seed % 4
            bunching = seed % 2
            for loc, v in flags:                    # as set by record_bunching(), or not
                if v.op == 'c':
                    pt.mem[pt.key(loc)] = float(v.a[0]) if bunching else 0.0
            freq = pt.rnd('freq')
            for loc, v in flags:
                if v.op == 'p':
                    pt.mem[pt.key(loc)] = freq
            step = [0]
            val = lambda name: {'V': V(*[pt.rnd('log', name, step[0], i) for i in range(3)]), 'C': complex(pt.rnd('log', name, step[0], 0), pt.rnd('log', name, step[0], 1)),
                                'D': pt.rnd('log', name, step[0]), 'I': 3.0}[pt.shape(pt.rt.get(name, ''))]

            def opaque(name):
                def h(q, t):
                    if name.endswith('BunchingFactor') and not fp.close(q.val(t.a[2][0]), freq):
                        raise Reject('the bunching factor is recorded at another frequency')
                    return val(name)
                return h
            for o in ops:
                if o.rsplit('::', 1)[-1] not in ('getNOP', 'getTotalCharge'):
                    pt.calls[o] = opaque(o)
            counts = set()
            mem = {}
            for i in range(n):
                step[0] = i
                q = pt.child({})
                q.mem = dict(pt.mem)
                for e in S1.events:
                    if e.kind == 'push' and fp.holds(q, e.guards):
                        if e.loops:
                            raise fp.Bad('loop')
                        k = q.key(T('e', e.recv, C(i)))
                        if k in mem:
                            return 'two values are recorded per step'
                        mem[k] = q.val(e.args[0])
                        pt.mem[pt.key(T('sz', e.recv))] = float(n)
                        counts.add(e.recv)
                    elif e.kind == 'store' and e.recv.op == 'f' and e.args:
                        d = add(e.args[0], T('ld', e.recv), -1)
                        if core.isc(d) and d.a[0] == 1:
                            mem[q.key(e.recv)] = float(n)
            if n == 0:
                for e in S1.events:
                    if e.kind == 'store' and e.recv.op == 'f' and e.args:
                        d = add(e.args[0], T('ld', e.recv), -1)
                        if core.isc(d) and d.a[0] == 1:
                            mem[pt.key(e.recv)] = 0.0
                    if e.kind == 'push':
                        pt.mem[pt.key(T('sz', e.recv))] = 0.0
            pt.mem.update(mem)
            r = FileRun(pt, S2, S2.events)
            if r.outcome[0] == 'throw' or len(r.files) != 1:
                raise fp.Bad('no file %s' % (r.outcome,))
            rows = []
            for i in range(n):
                step[0] = i
                row = {}
                for c, meth, comp in COLUMNS:
                    v = val(src + '::' + meth)
                    row[c] = v if comp is None else v.c[comp]
                row['BF'] = abs(val(src + '::BunchingFactor')) if bunching else 0.0
                rows.append(row)
            par = dict(NumberTimeSteps=float(n), NumberParticles=number(pt, r, src + '::getNOP'), TotalCharge=number(pt, r, src + '::getTotalCharge'))
            if bunching:
                par['BunchingFrequency'] = freq
            return compare(r.files[0], dict(rows=rows, params={k: v for k, v in par.items() if v is not None}))
        check(R, wr, full, range(0, N + 2), once)


def number(pt, r, name):
    """the value the object reports during this run"""
    for e in r.events:
        for a in e.args:
            for t in core.subterms(a):
                if t.op == 'call' and t.a[0] == name:
                    return pt.val(t)
    return -12345.0


def trajectories(P, R, N, cls, method):
    for src in instances(P, cls):
        full, m = logger(P, cls, src)
        up, wr = m['update'], m['WriteData']
        name = src + '::' + method
        S1 = api.Scene(P, opaque={name, 'ChargedParticle::ChargedParticle'})
        S1.call(up, ME)
        S2 = api.Scene(P, opaque={name})
        S2.call(wr, ME)
        fill = [e for e in S1.events if e.kind == 'call' and e.name == name]
        push = [e for e in S1.events if e.kind == 'push']
        ctor = m[cls] if cls in m else m[full] if full in m else None
        if len(fill) != 1 or len(push) != 1:
            R.oblig('file', None, full, front.loc(up, up), up['n'], '%s: update() does not store one buffer' % full)
            continue
        fill, push = fill[0], push[0]
        vec = push.recv
        # the number of values per particle, as stored by the constructor
        consts = {}
        S0 = api.Scene(P, opaque={'ChargedParticle::ChargedParticle'})
        np_ = fill.args[1]
        if ctor:
            a = [T('p', 200 + i, p['n']) for i, p in enumerate(ctor['params'])]
            S0.call(ctor, ME, *a)
            if S0.state is not None:
                consts = {k: v for k, v in S0.state.st.items() if k.op == 'f' and k.a[0] is ME and core.isc(v)}

        def once(seed):
            pt = fp.Point(P, seed, types={ME: full + ' *'}, rng=(0.35, 1.65))
            pt.maxtrip = 400
            n, npart = seed % 4, 1 + (seed * 5) % 3
            pt.fix(np_, float(npart))
            step = [e for e in S1.events if e.kind == 'store' and e.recv.op == 'f' and e.args and core.isc(add(e.args[0], T('ld', e.recv), -1))]
            pre = {k: v for k, v in consts.items() if not any(e.recv is k for e in step)}
            for k, v in pre.items():
                pt.mem[pt.key(k)] = float(v.a[0])
            total = pt.val(fill.args[0].a[3]) if fill.args[0].op == 'new' else None
            if total is None or push.args[0] is not fill.args[0]:
                raise fp.Bad('buffer')
            d = total / npart
            if method == 'bufferCoordinates' and d != 6 or d != int(d) or d < 1:
                return 'update() stores %g values per particle' % d
            for e in step:
                if add(e.args[0], T('ld', e.recv), -1).a[0] != 1:
                    return 'a recorded step is not counted once'
                pt.mem[pt.key(e.recv)] = float(n)
            pt.mem[pt.key(T('sz', vec))] = float(n)
            d = int(d)
            vals = [pt.val(T('ld', T('*', add(T('ld', T('e', vec, C(i))), C(k))))) for i in range(n) for k in range(npart * d)]
            r = FileRun(pt, S2, S2.events)
            if r.outcome[0] == 'throw' or len(r.files) != 1:
                raise fp.Bad('no file %s' % (r.outcome,))
            names = [k for k, v in r.files[0]['data'].items()]
            if len(names) != 1:
                return 'the file has %d data sets' % len(names)
            a = {(names[0], 'NOTS'): float(n), (names[0], 'NOP'): float(npart)}
            if (names[0], 'NOD') in r.files[0]['attrs']:
                a[(names[0], 'NOD')] = float(d)
            return compare(r.files[0], dict(data={names[0]: ((n, npart, d), vals)}, attrs=a))
        check(R, wr, full, range(1, N + 4), once)


# ------------------------------------------------------------------ watch points
def watch(P, R, N, cls):
    obj = T('p', 9, 'object')
    Q = beams(P, cls, obj)
    st = {k: Q.get(g) for k, g in (('t', 'getTime'), ('X', 'getPosition'), ('P', 'getMomentum'), ('q', 'getCharge'))}
    for kind in ('HDF5', 'SDDS'):
        fs = [f for f in core.find(P, '%s::WriteWatchPoint%s' % (cls, kind)) if f.get('body') is not None]
        if not fs:
            continue
        f = fs[0]
        S = api.Scene(P)
        S.call(f, obj, T('p', 100, 'filename'))

        def once(seed):
            pt = fp.Point(P, seed, types={obj: cls + ' *', T('p', 100, 'filename'): 'std::string'}, rng=(0.35, 1.65) if seed % 2 else (-1.6, 1.4))
            pt.loops = S.loopinfo
            Q.fix(pt, seed)
            rows, vals, ch = [], [], 0.0
            for q in Q.points(pt):
                t, X, B = q.val(st['t']), q.val(st['X']), q.val(st['P'])
                ch += q.val(st['q'])
                b2 = fp.dot(B, B)
                rows.append(dict(t=t, x=X.c[0], y=X.c[1], z=X.c[2], px=B.c[0], py=B.c[1], pz=B.c[2], p=fp.sqrt(b2), gamma=fp.sqrt(1 + b2), xp=B.c[0] / B.c[2], yp=B.c[1] / B.c[2]))
                vals += [X, B]
            r = FileRun(pt, S, S.events)
            if r.outcome[0] == 'throw' or len(r.files) != 1:
                raise fp.Bad('no file %s' % (r.outcome,))
            if kind == 'HDF5':
                return compare(r.files[0], dict(data={'electrons': ((len(rows), 6), vals)}))
            par = dict(NumberOfParticles=float(len(rows)))
            if 'Charge' in r.files[0]['params']:
                par['Charge'] = ch
            return compare(r.files[0], dict(rows=rows, params=par))
        check(R, f, f['n'], range(1, N + 1), once)


# ------------------------------------------------------------------ FEL
def fel(P, R, N):
    f = [x for x in core.find(P, 'FEL_1D::write_output') if x.get('body') is not None]
    if not f:
        raise front.AnalysisBroken('FEL_1D::write_output')
    f = f[0]
    S = api.Scene(P)
    S.call(f, ME)
    rec = [r for r in P.records.values() if r['n'] == 'FEL_1D']
    names = {x['n'].rsplit('::', 1)[-1]: x['n'] for x in rec[0]['fields']}
    ATT = dict(N_field='N_field', N_output='step_Output', dt='dt', w0='w_0', z_Rayl='z_Rayleigh', z_waist='z_waist')
    VEC = dict(origin='origin', prop='prop')
    STO = dict(InteractionField='field_storage', CurrentDensity='J_storage')
    if any(v not in names for v in list(ATT.values()) + list(VEC.values()) + list(STO.values())):
        R.oblig('file', None, f['n'], front.loc(f, f), f['n'], 'members of FEL_1D have other names')
        return
    loc = lambda n: T('f', ME, names[n])

    def once(seed):
        pt = fp.Point(P, seed, types={ME: 'FEL_1D *'})
        pt.mem[pt.key(T('f', ME, names['createOutput']))] = 1.0
        n, k = seed % 4, 1 + (seed * 5) % 4
        pt.fix(T('ld', loc('N_field')), float(k))
        for s in STO.values():
            pt.mem[pt.key(T('sz', loc(s)))] = float(n)
            for i in range(n):
                pt.mem[pt.key(T('sz', T('e', loc(s), C(i))))] = float(k)
        data = {d: ((n, k), [pt.val(T('ld', T('e', T('e', loc(s), C(i)), C(j)))) for i in range(n) for j in range(k)]) for d, s in STO.items()}
        a = {('InteractionField', x): pt.val(T('ld', loc(y))) for x, y in ATT.items()}
        a[('InteractionField', 'N_steps')] = float(n)
        for x, y in VEC.items():
            for c, v in zip('xyz', pt.val(T('ld', loc(y))).c):
                a[('InteractionField', x + '.' + c)] = v
        r = FileRun(pt, S, S.events)
        if r.outcome[0] == 'throw' or len(r.files) != 1:
            raise fp.Bad('no file %s' % (r.outcome,))
        return compare(r.files[0], dict(data=data, attrs=a))
    check(R, f, f['n'], range(1, N + 1), once)

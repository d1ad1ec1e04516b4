"""V07: screens: geometry of mesh cells, energy flow, and propagation of a recorded screen field."""
import math
import core, api, front, fp
from core import T, C, add, cmp_
from rep import Rep
from fp import V, F, dot, cross, sqrt
from props.obs import *
from props import h5

POY = FT + '::Poynting'
TMP = (fp.Bad, TypeError, AttributeError, KeyError, IndexError)


def run(P, tier):
    R = Rep(P)
    N = 30 if tier == 'quick' else 200
    for src in ('Beam', 'Bunch', 'Lattice'):
        mesh(P, R, N, src)
    source(P, R, 8 * N)
    return R.result('MeshedScreen::init, totalEnergy and get_Neighbourhood are interpreted for meshes of up to five cells with arbitrary '
                    'corners (also exactly parallel to a coordinate plane); the SourceScreen constructor is interpreted on a symbolic '
                    'file, and the field it reports is compared with the Kirchhoff sum over the cells of the file.', minimum=9)


def short(n):
    return n.rsplit('::', 1)[-1]


def mesh(P, R, N, src):
    """area, normal and local coordinate system of every cell; energy through the mesh; neighbourhood"""
    O = Mesh(P, src)
    rec = [r for r in P.records.values() if core.base(r['n']) == 'MeshedScreen']
    tri = {short(f['n']) for r in rec for f in r['fields'] if 'tri_ref' in f['t']}
    if len(tri) != 1:
        raise front.AnalysisBroken('triangle references of MeshedScreen')
    tri = tri.pop()
    S = O.open({POY})
    n0 = len(S.events)
    f = O.method('init')
    S.call(f, ME)
    ev = S.events[n0:]
    m = lambda n, *a: S.call(O.method(n), ME, *a)
    got = [m('get_area', O.j), m('get_normal', O.j), m('get_xi', O.j), m('get_eta', O.j)]
    energy = m('totalEnergy')
    # the corner points are what is read through a triangle reference
    corner, refs = {}, {}
    for e in ev:
        for a in e.args:
            for t in core.subterms(a) if isinstance(a, core.Term) else ():
                if t.op == 'e' and t.a[1].op == 'ld' and t.a[1].a[0].op == 'f' and core.contains(t.a[1], lambda x: x.op == 'f' and short(x.a[1]) == tri):
                    corner[t.a[0]] = 1
                    refs[short(t.a[1].a[0].a[1])] = t.a[1].a[0]
    if len(corner) != 1 or sorted(refs) != ['p1', 'p2', 'p3']:
        R.oblig('mesh cells', None, O.full, '', O.full, 'corner points of the cells not identified')
        return
    corner = list(corner)[0]
    loc = refs['p1'].a[0]
    loc = loc.a[0] if loc.op == 'addr' else T('*', loc)         # triangles[k]
    trivec = loc.a[0]
    bad, und, done = {}, {}, 0
    for seed in range(1, N + 1):
        pt = O.point(seed)
        pt.loops = S.loopinfo
        flat = seed % 3 == 0
        if flat:                            # one cell in a coordinate plane
            pt.fix(O.np, 1.0)
            O.nx = 1.0
        d = (seed // 3) % 3
        pos = {}
        for i in range(2, 8):
            c = [pt.rnd('corner', i, q) for q in range(3)]
            if flat:
                c[d] = 0.25
            pos[i] = V(*c)
            pt.mem[pt.key(T('e', corner, C(i)))] = pos[i]
        try:
            idx3 = []
            for k in range(int(O.nx)):
                q = pt.child({O.j: float(k)})
                idx3.append([int(q.val(T('ld', T('f', core.State and T('addr', T('e', trivec, O.j)), refs[p].a[1])))) for p in ('p1', 'p2', 'p3')])
        except TMP as ex:
            und['geometry'] = '%s: %s' % (type(ex).__name__, ex)
            break
        if any(len(set(i)) < 3 for i in idx3):
            continue
        cells = []
        try:
            fp.replay(pt, S, ev, lambda e: e.kind == 'store' and e.recv.op != 'var')
            for k in range(int(O.nx)):
                q = pt.child({O.j: float(k)})
                cells.append([q.val(x) for x in got])
        except (ZeroDivisionError, ValueError):
            bad['geometry'] = 'the coordinate system of a cell is not defined (division by zero) although the triangle has an area'
            break
        except TMP as ex:
            und['geometry'] = '%s: %s' % (type(ex).__name__, ex)
            break
        done += 1
        for (p1, p2, p3), (a, n, x, e) in zip(idx3, cells):
            w = cross(pos[p3] - pos[p1], pos[p2] - pos[p1])
            l = sqrt(dot(w, w))
            if not fp.close(a, 0.5 * l):
                bad.setdefault('area', 'the area of a cell is not that of its triangle')
            if not fp.close(n, w / l):
                bad.setdefault('normal', 'the normal of a cell is not the unit vector along (p3-p1)x(p2-p1)')
            if any(not abs(v) < 1e-9 for v in (dot(x, e), dot(x, n), dot(e, n))) or any(not fp.close(dot(v, v), 1.0) for v in (x, e, n)):
                bad.setdefault('system', '(xi,eta,n) of a cell are not orthogonal unit vectors')
            elif not fp.close(cross(x, e), n):
                bad.setdefault('system', '(xi,eta,n) of a cell is not right-handed')
        # energy flow against the normal counts positive
        try:
            q = pt.child({})
            pv = {}
            q.calls = dict(pt.calls)
            q.calls[POY] = lambda z, t: V(*[z.rnd('S', str(z.key(t.a[1])), i) for i in range(3)])
            tot = 0.0
            for k in range(int(O.nx)):
                z = q.child({O.j: float(k)})
                s = q.calls[POY](z, T('call', POY, O.ptr, (), None))
                tot -= cells[k][0] * dot(s, cells[k][1])
            if not fp.close(q.val(energy), tot):
                bad.setdefault('energy', 'totalEnergy() is not minus the sum over all cells of area times energy flow along the normal')
        except TMP as ex:
            und['energy'] = '%s: %s' % (type(ex).__name__, ex)
    neighbours(P, R, N, O, trivec, refs)
    for k, fn in (('geometry', f), ('area', f), ('normal', f), ('system', f), ('energy', O.method('totalEnergy'))):
        u = und.get(k) or (und.get('geometry') if not bad.get(k) else None)
        R.oblig('mesh ' + k, False if bad.get(k) else None if u or not done else True, '%s %s' % (O.full, k), front.loc(fn, fn), fn['n'],
                '%s: %s' % (fn['n'], bad.get(k) or u or 'as documented'))


def neighbours(P, R, N, O, trivec, refs):
    """get_Neighbourhood reports exactly the cells with a common corner, each once"""
    f = O.method('get_Neighbourhood')
    S = O.open()
    n0 = len(S.events)
    i, buf = api.idx('cell'), T('p', 30, 'buffer')
    r = S.call(f, ME, i, buf)
    ev = S.events[n0:]
    bad = und = None
    for seed in range(1, N + 1):
        pt = O.point(seed)
        pt.types[buf] = 'int *'
        pt.loops = S.loopinfo
        n = int(O.nx)
        k = seed % n
        try:
            corners = []
            for c in range(n):
                q = pt.child({O.j: float(c)})
                corners.append({int(q.val(T('ld', T('f', T('addr', T('e', trivec, O.j)), refs[p].a[1])))) for p in refs})
            want = [c for c in range(n) if corners[c] & corners[k]]
            q = pt.child({i: float(k)})
            out = {}

            def visit(z, e):
                out[round(z.val(z.subst(e.recv.a[0])) - z.val(buf), 6)] = z.val(e.args[0])
            fp.walk(q, S, ev, lambda e: e.kind == 'store' and e.recv.op != 'var', visit)
            res = q.val(r)
            g = [out.get(float(c)) for c in range(len(want))]
            if not fp.close(res, float(len(want))):
                bad = bad or 'the number of neighbours is wrong'
            elif None in g or sorted(g) != [float(c) for c in want] or len(out) != len(want):
                bad = bad or 'the reported cells are not those sharing a corner with the given cell'
        except TMP as ex:
            und = '%s: %s' % (type(ex).__name__, ex)
            break
    R.oblig('neighbourhood', False if bad else None if und else True, O.full + '::get_Neighbourhood', front.loc(f, f), f['n'], '%s: %s' % (f['n'], bad or und or 'ok'))


SSC = 'SourceScreen'


class Screen:
    """a SourceScreen built from a symbolic file: which trace pointer carries which samples of the file"""

    def __init__(s, P):
        s.P = P
        ops = TRACE_OPS | {FT + '::' + m for m in (FT, 'derivative', 'transform', 'cancel_long_fields')} | \
            {f['n'] for f in P.functions.values() if f['n'].startswith(SSC + '::') and f['n'].rsplit('::')[-1] not in
             (SSC, 'CellPosition', 'CellTimeZero', 'LocalField') and f.get('rt') in ('void', 'double') and writes_output(f)}
        S = s.S = api.Scene(P, opaque=ops)
        S.nomod = {n for n in ops if n.startswith(SSC)}
        s.pos, s.t = T('p', 101, 'position'), T('p', 102, 'time')
        s.ctor = S.fn(SSC + '::' + SSC, 3)
        S.call(s.ctor, ME, T('p', 100, 'filename'), s.pos, s.t)
        if S.state is None:
            raise front.AnalysisBroken('SourceScreen constructor')
        s.rd = h5.Reader(S)
        for a in ('Nx', 'Ny', 'NOTS', 'dt', 'dtx', 'dty'):
            if ('Screen', a) not in s.rd.attrs:
                raise front.AnalysisBroken('attribute %s of dataset Screen is not read' % a)
        s.events = list(S.events)
        X, t = T('p', 103, 'X'), T('p', 104, 't')
        s.X, s.tt = X, t
        s.field = S.call(S.fn('LocalizedField::Field', 2), ME, t, X) if False else None
        s.types = {ME: SSC + ' *', s.pos: 'Vector', s.t: 'double', X: 'Vector', t: 'double', T('p', 100, 'filename'): 'std::string'}


def writes_output(f):
    """a method that opens a file for writing"""
    found = []

    def walk(n):
        if isinstance(n, dict):
            if n.get('n', '') in ('H5Fcreate',):
                found.append(1)
            for v in n.values():
                if isinstance(v, (dict, list)):
                    walk(v)
        elif isinstance(n, list):
            for v in n:
                walk(v)
    walk(f.get('body'))
    return bool(found)


def ortho(pt, tag):
    """a random orthonormal frame of either handedness"""
    a = V(*[pt.rnd(tag, 0, i) - 1.0 for i in range(3)])
    b = V(*[pt.rnd(tag, 1, i) - 1.0 for i in range(3)])
    a = a / sqrt(dot(a, a))
    b = b - a * dot(a, b)
    b = b / sqrt(dot(b, b))
    c = cross(a, b)
    return a, b, c if pt.rnd(tag, 2) > 1.0 else -c


def source(P, R, N):
    Z = Screen(P)
    S = Z.S
    n0 = len(S.events)
    dyn = S.fn(SSC + '::LocalField', 2)
    fld = S.call(S.fn('LocalizedField::Field', 2), ME, Z.tt, Z.X) if False else S.call(dyn, ME, Z.tt, Z.X)
    energy = S.call(SSC + '::totalEnergy', ME)
    ix, iy = api.idx('ix'), api.idx('iy')
    poy = S.call(SSC + '::Poynting', ME, ix, iy)
    bad, und, done = {}, {}, 0
    for seed in range(1, N + 1):
        pt = fp.Point(P, seed, types=Z.types, rng=(0.35, 1.65))
        pt.loops = S.loopinfo
        r = lambda *k: (pt.rnd('s', *k) - 0.35) / 1.3
        nx, ny, nt = 1 + int(4 * r('x')), 1 + int(4 * r('y')), 2 + int(4 * r('n'))
        dt, dtx, dty = 0.2 + r('dt'), r('dtx') - 0.5, r('dty') - 0.5
        a, b, n = ortho(pt, 'frame')
        dX, dY = a * (0.3 + r('dx')), b * (0.3 + r('dy'))
        skew = seed % 4 == 0
        if skew:                            # a file whose vectors are not exactly orthogonal
            fX, fY = dX + n * 0.2, dY + n * 0.1 + a * 0.3
            lx, ly = sqrt(dot(fX, fX)), sqrt(dot(fY, fY))
            dX, dY = a * lx, b * ly
        else:
            fX, fY = dX, dY
        fo = V(*[pt.rnd('o', i) for i in range(3)])
        try:
            Z.rd.attach(pt, {('Screen', 'Nx'): nx, ('Screen', 'Ny'): ny, ('Screen', 'NOTS'): nt, ('Screen', 'dt'): dt,
                             ('Screen', 'dtx'): dtx, ('Screen', 'dty'): dty}, {'ElMagField': (nx, ny, nt, 6), 'Screen': (4, 3)})
            base = None
            for name, buf, e in Z.rd.data:
                if name == 'Screen':
                    for i, v in enumerate((fo, n, fX, fY)):
                        if buf.op == 'new' and buf.a[1] == 'Vector':
                            pt.mem[pt.key(T('*', add(buf, C(i))))] = v
                        else:
                            for k in range(3):
                                pt.mem[pt.key(T('*', add(buf, C(3 * i + k))))] = v.c[k]
                if name == 'ElMagField':
                    base = buf
            if base is None:
                raise front.AnalysisBroken('dataset ElMagField is not read')
            unit = 6 if base.op == 'new' and base.a[1] != 'ElMagField' else 1
            cur, loc, dload = {}, {}, {}

            def visit(q, e):
                if e.kind == 'call' and e.recv is not None:
                    k = str(q.key(e.recv))
                    m = e.name.rsplit('::', 1)[-1]
                    if m == FT:
                        if len(e.args) != 3:
                            raise fp.Bad('copy of a trace')
                        cur[k] = dict(t0=q.val(e.args[0]), dt=q.val(e.args[1]), n=q.val(e.args[2]), ops=[], off=None)
                    elif m == 'set_buffer':
                        o = api.offset(e.args[0], base)
                        if o is None:
                            raise fp.Bad('buffer')
                        (cur.get(k) or loc[k])['off'] = (q.val(o) / unit, q.val(e.args[1]))
                    elif m in ('cancel_long_fields', 'transform'):
                        (cur.get(k) or loc[k])['ops'].append((m, [q.val(x) for x in e.args]))
                    return
                v = e.args[0]
                k = str(q.key(T('ld', e.recv)))
                if v.op == 'new':
                    loc[k] = cur.get(str(q.key(v)))
                elif v.op == 'call' and v.a[0] == FT + '::derivative':
                    loc[k] = dict(loc[str(q.key(v.a[1]))], deriv=1)
            fp.walk(pt, S, Z.events, lambda e: e.kind == 'call' and e.name in (FT + '::' + FT, FT + '::set_buffer', FT + '::transform', FT + '::cancel_long_fields') or
                    e.kind == 'store' and e.recv.op != 'var' and e.args and (e.args[0].op == 'new' or e.args[0].op == 'call' and e.args[0].a[0] == FT + '::derivative'), visit)
        except TMP + (ZeroDivisionError,) as ex:
            und['cells'] = '%s: %s' % (type(ex).__name__, ex)
            break

        def rec(q, t):
            d = loc.get(str(q.key(t.a[1])))
            if d is None or d['off'] is None:
                raise fp.Bad('unknown trace')
            return d

        def sample(c, deriv, time):
            return fieldleaf(pt, 'file', c, deriv, pt.q(time))

        def apply(ops, f):
            for m, v in ops:
                if m == 'cancel_long_fields':
                    u = v[0] / sqrt(dot(v[0], v[0]))
                    f = F(f.e - u * dot(f.e, u), f.b - u * dot(f.b, u))
                else:
                    f = F(V(*[dot(f.e, x) for x in v]), V(*[dot(f.b, x) for x in v]))
            return f

        def get_field(q, t):
            if q.shape(q.types.get(t.a[2][0], 'double')) == 'I':
                raise fp.Bad('sample by index')
            d = rec(q, t)
            return apply(d['ops'], sample(d['off'][0], d.get('deriv', 0), q.val(t.a[2][0])))
        pt.calls[FT + '::get_t0'] = lambda q, t: rec(q, t)['t0']
        pt.calls[FT + '::get_dt'] = lambda q, t: rec(q, t)['dt']
        pt.calls[FT + '::get_N'] = lambda q, t: rec(q, t)['n']
        pt.calls[FT + '::get_last_time'] = lambda q, t: rec(q, t)['t0'] + (rec(q, t)['n'] - 1) * rec(q, t)['dt']
        pt.calls[FT + '::get_field'] = get_field
        pt.calls[POY] = lambda q, t: V(*[pt.rnd('S', rec(q, t)['off'][0], i) for i in range(3)])
        cells = {(i, j): dict(off=float(nt * (j + ny * i)), t0=dtx * (i - nx // 2) + dty * (j - ny // 2), pos=dX * (i - nx // 2) + dY * (j - ny // 2))
                 for i in range(nx) for j in range(ny)}
        # the traces of the cells
        try:
            tr = [d for d in loc.values() if d and not d.get('deriv')]
            offs = sorted(d['off'][0] for d in tr)
            if offs != sorted(c['off'] for c in cells.values()) or any(d['off'][1] != nt or d['n'] != nt for d in tr):
                bad.setdefault('cells', 'the cells do not carry the samples of the file, each cell its own (row-major order)')
            for d in tr:
                for c in cells.values():
                    if c['off'] == d['off'][0] and (not fp.close([d['t0'], 1], [c['t0'], 1]) if False else abs(d['t0'] - c['t0']) > 1e-9 or abs(d['dt'] - dt) > 1e-9):
                        bad.setdefault('cells', 'the trace of a cell does not have the time axis of the file (start time of that cell, time step)')
            c = pt.val(T('const', 'SpeedOfLight'))
            for k in range(4):
                X = V(*[3 * (pt.rnd('X', k, i) - 1.0) for i in range(3)])
                d0 = list(cells.values())[int(pt.rnd('cell', k) * 1000) % len(cells)]
                w = X - d0['pos']
                t = d0['t0'] + sqrt(dot(w, w)) / c + dt * (nt - 1) * (1.6 * r('t', k) - 0.3)
                q = pt.child({})
                q.env[Z.X], q.env[Z.tt] = X, t
                want = F(V(0.0, 0.0, 0.0), V(0.0, 0.0, 0.0))
                for z in cells.values():
                    Rv = X - z['pos']
                    Rn = sqrt(dot(Rv, Rv))
                    ts = t - Rn / c
                    if z['t0'] <= ts <= z['t0'] + (nt - 1) * dt:
                        lf = [apply([('cancel_long_fields', [n])], sample(z['off'], g, ts)) for g in (0, 1)]
                        want = want + lf[0] * (-dot(Rv, n) / Rn ** 3) + lf[1] * ((1.0 - dot(Rv, n) / Rn) / (Rn * c))
                want = want * (sqrt(dot(dX, dX)) * sqrt(dot(dY, dY)) / (4 * math.pi))
                g = q.val(fld)
                if not fp.close(g, want, 1e-7):
                    bad.setdefault('field', 'the field is not the Kirchhoff sum of the transverse fields and their time derivatives over all cells at the retarded times')
            tot = 0.0
            for z in cells.values():
                tot -= dot(V(*[pt.rnd('S', z['off'], i) for i in range(3)]), n) * sqrt(dot(dX, dX)) * sqrt(dot(dY, dY))
            if not fp.close(pt.val(energy), tot, 1e-7):
                bad.setdefault('energy', 'totalEnergy() is not the sum over all cells of the energy flow against the normal times the cell area')
            for (i, j), z in cells.items():
                q = pt.child({ix: float(i), iy: float(j)})
                if not fp.close(q.val(poy), V(*[pt.rnd('S', z['off'], i) for i in range(3)])):
                    bad.setdefault('energy', 'Poynting(ix,iy) is not that of the cell (ix,iy)')
            done += 1
        except TMP + (ZeroDivisionError,) as ex:
            und['field'] = '%s: %s' % (type(ex).__name__, ex)
            break
        if bad:
            break
    for k, fn in (('cells', Z.ctor), ('field', dyn), ('energy', S.fn(SSC + '::totalEnergy', 0))):
        R.oblig('source screen', False if bad.get(k) else None if und or not done else True, '%s %s' % (SSC, k), front.loc(fn, fn), fn['n'],
                '%s: %s' % (fn['n'], bad.get(k) or und or 'as documented'))

"""V03: the fields of the lattice elements are the documented ones, shifted to the place and time of the element."""
import cmath, math, random
import core, api, front, fp
from core import T, C
from rep import Rep
from fp import V, F, dot

c0 = lambda pt: pt.val(T('const', 'SpeedOfLight'))
eps = lambda pt: pt.val(T('const', 'EpsNull'))
PI = math.pi


def ramp(z, N, lam):
    """linear over one period centred on the nominal ends; zero beyond"""
    z1, z2 = -(N + 1) * lam / 2, (N + 1) * lam / 2
    if not z1 <= z < z2:
        return 0.0
    r = 1.0
    if z < z1 + lam:
        r *= (z - z1) / lam
    if z >= z2 - lam:
        r *= (z2 - z) / lam
    return r


def planar(pt, t, X, B, lam, N):
    x, y, z = X.c
    k = 2 * PI / lam
    return F(V(0, 0, 0), V(0, B * math.sin(k * z) * math.cosh(k * y), B * math.cos(k * z) * math.sinh(k * y)) * ramp(z, N, lam))


def tgu(pt, t, X, B, kx, mod, lam, N):
    x, y, z = X.c
    kz = 2 * PI / lam
    ky = math.sqrt(kz * kz + kx * kx)
    s, c = math.sin, math.cos
    b = V(kx / ky * c(kx * x) * math.sinh(ky * y) * s(kz * z),
          s(kz * z) * math.cosh(kz * y) + s(kx * x) * math.cosh(ky * y) * s(kz * z),
          c(kz * z) * math.sinh(kz * y) + kz / ky * s(kx * x) * math.sinh(ky * y) * c(kz * z))
    return F(V(0, 0, 0), b * (B * (1 + mod * s(kz * z)) * ramp(z, N, lam)))


def wave(pt, t, X, lam, A, zR, tau=None):
    x, y, z = X.c
    c = c0(pt)
    k = 2 * PI / lam
    w0 = math.sqrt(lam * zR / PI)
    r2 = x * x + y * y
    w = w0 * math.sqrt(1 + (z / zR) ** 2)
    R = z + zR * zR / z
    a = A * w0 / w * cmath.exp(complex(-r2 / w ** 2 - (((t - z / c) / tau) ** 2 if tau else 0), k * c * t - k * z - k * r2 / 2 / R))
    return F(V(a.real, 0, 0), V(0, a.real / c, 0))


def packet(pt, t, X, lam, A, zR, tau):
    return wave(pt, t, X, lam, A, zR, tau)


def hard(pt, t, X, B, p1, n1, p2, n2):
    inside = dot(X - p1, n1) < 0 and dot(X - p2, n2) < 0
    return F(V(0, 0, 0), B if inside else V(0, 0, 0))


def soft(pt, t, X, B, p1, n1, t1, p2, n2, t2):
    s = 1 - (math.atan(2 * dot(X - p1, n1) / t1) / PI + 0.5) - (math.atan(2 * dot(X - p2, n2) / t2) / PI + 0.5)
    return F(V(0, 0, 0), B * s)


# class, constructor kind ('pos': (pos), 'tpos': (time,pos), 'args': all parameters), Setup parameters, reference field
DEV = [('PlanarUndulator', 'pos', 3, planar), ('TransverseGradientUndulator', 'pos', 5, tgu),
       ('GaussianWave', 'tpos', 3, wave), ('GaussianWavePacket', 'tpos', 4, packet),
       ('HardEdgeDipole', 'args', 5, hard), ('SoftEdgeDipole', 'args', 7, soft)]


def run(P, tier):
    R = Rep(P)
    N = 60 if tier == 'quick' else 600
    for cls, kind, np, ref in DEV:
        S = api.Scene(P)
        types = {}

        def pars(f, pre=''):
            out = []
            for i, p in enumerate(f['params']):
                a = T('p', 100 + i + (50 if pre else 0), pre + p['n'])
                types[a] = p['t'].replace('const ', '').rstrip('& ')
                out.append(a)
            return out
        isdbl = lambda f: not any('xml' in p['t'] for p in f['params'])
        ctor = S.fn('%s::%s' % (cls, cls), {'pos': 1, 'tpos': 2, 'args': np}[kind], isdbl)
        pos = pars(ctor, 'c_')
        obj = T('new', 3000, cls, 'dev', C(1), 0)
        S.call(ctor, obj, *pos)
        if kind == 'args':
            args = pos
        else:
            su = S.fn(cls + '::Setup', np)
            args = pars(su)
            S.call(su, obj, *args)
        tt, X = T('p', 1, 't'), T('p', 2, 'X')
        types[tt], types[X] = 'double', 'Vector'
        r = S.call('LocalizedField::Field', obj, tt, X)
        lf = S.fn(cls + '::LocalField', 2)
        compare(P, R, S, N, types, r, lf, cls, ref, tt, X, args, pos, kind)
        # the unset element gives no field
        if kind != 'args':
            for npar in (0, 1, 2):
                for f in core.find(P, '%s::%s' % (cls, cls)):
                    if f.get('body') is None or len(f['params']) != npar or not isdbl(f):
                        continue
                    S2 = api.Scene(P)
                    o2 = T('new', 3001, cls, 'dev', C(1), 0)
                    a2 = pars(f, 'c_')
                    S2.call(f, o2, *a2)
                    r2 = S2.call('LocalizedField::Field', o2, tt, X)
                    zero(P, R, S2, types, r2, f, cls, npar)
        getters(P, R, S, obj, cls, args, types, N)
    # base class: homogeneous field
    for f in core.find(P, 'HomogeneousField::HomogeneousField'):
        if f.get('body') is None or len(f['params']) not in (0, 2):
            continue
        S = api.Scene(P)
        types = {}
        obj = T('new', 3000, 'HomogeneousField', 'dev', C(1), 0)
        a = [T('p', 100 + i, p['n']) for i, p in enumerate(f['params'])]
        types.update({x: 'Vector' for x in a})
        S.call(f, obj, *a)
        tt, X = T('p', 1, 't'), T('p', 2, 'X')
        types[tt], types[X] = 'double', 'Vector'
        r = S.call('HomogeneousField::Field', obj, tt, X)
        ok = True
        for seed in range(1, 4):
            pt = fp.Point(P, seed, types=types)
            try:
                w = F(pt.val(a[0]), pt.val(a[1])) if a else F(V(0, 0, 0), V(0, 0, 0))
                if not fp.close(pt.val(r), w):
                    ok = False
            except (fp.Bad, TypeError, AttributeError):
                ok = None
                break
        R.oblig('device field', ok, 'HomogeneousField/%d' % len(a), front.loc(f, f), f['n'], 'the field is not the constant field given to the constructor')
    return R.result('The field each lattice element reports (constructor, Setup() and Field() interpreted in one abstract store) is compared as a '
                    'function of position, time and all parameters with the documented formula, inside, on the ramps, at the ends and outside.', minimum=4)


def place(pt, rnd, cls, d, args, pos, kind, tt, X):
    """choose parameters and a position so that all regions of the element are visited"""
    org, t0 = V(0, 0, 0), 0.0
    pars = [pt.val(a) for a in args]
    if kind != 'args':
        org = V(*[rnd.uniform(-2, 2) for _ in range(3)])
        pt.fix(pos[-1], org)
        if kind == 'tpos':
            t0 = rnd.uniform(-2, 2)
            pt.fix(pos[0], t0)
    if cls.endswith('Undulator'):
        n = float(rnd.choice((1, 2, 3, 4, 5)))
        pt.fix(args[-1], n)
        lam = pars[-2]
        z = rnd.uniform(-1.2, 1.2) * (n + 1) * lam / 2
        x = V(rnd.uniform(-0.4, 0.4), rnd.uniform(-0.4, 0.4), z)
    elif cls.startswith('Gauss'):
        pt.fix(args[1], complex(rnd.uniform(-1, 1), rnd.uniform(-1, 1)))
        x = V(*[rnd.uniform(-0.8, 0.8) for _ in range(3)])
    else:
        for i, a in enumerate(args):
            if d.get(a) == 'Vector':
                pt.fix(a, V(*[rnd.uniform(-1, 1) for _ in range(3)]))
        x = V(*[rnd.uniform(-2, 2) for _ in range(3)])
    t = rnd.uniform(-0.8, 0.8)
    pt.fix(X, x + org)
    pt.fix(tt, t + t0)
    return t, x


def compare(P, R, S, N, types, r, lf, cls, ref, tt, X, args, pos, kind):
    bad, und, n = None, None, 0
    for seed in range(1, N + 1):
        pt = fp.Point(P, seed, types=types)
        pt.loops = S.loopinfo
        rnd = random.Random(seed)
        try:
            t, x = place(pt, rnd, cls, types, args, pos, kind, tt, X)
            want = ref(pt, t, x, *[pt.val(a) for a in args])
            if not fp.close(pt.val(r), want):
                bad = bad or 'at local position %s: %s instead of %s' % tuple(str([float('%.4g' % v) for v in q.flat()]) for q in (x, pt.val(r), want))
            n += 1
        except (fp.Bad, TypeError, AttributeError) as ex:
            und = '%s: %s' % (type(ex).__name__, ex)
            break
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
    R.oblig('device field', None if und or not n else not bad, cls, front.loc(lf, lf), lf['n'], und or 'the field of the element is not the documented one (%s)' % bad)


def zero(P, R, S, types, r, f, cls, npar):
    ok = True
    for seed in range(1, 12):
        pt = fp.Point(P, seed, types=types, rng=(-1, 1))
        try:
            v = pt.val(r)
            if not all(abs(x) < 1e-12 for x in v.flat()):
                ok = False
        except (fp.Bad, TypeError, AttributeError):
            ok = None
            break
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
    R.oblig('no field before Setup', ok, '%s/%d' % (cls, npar), front.loc(f, f), f['n'], 'an element that was not set up reports a field')


def getters(P, R, S, obj, cls, args, types, N):
    K = lambda pt, B, lam: lam * c0(pt) * B / (2 * PI * pt.val(T('const', 'mecsquared')))
    want = {}
    if cls.endswith('Undulator'):
        B, lam, n = args[0], args[-2], args[-1]
        want = dict(GetBPeak=lambda pt: pt.val(B), GetLambdaU=lambda pt: pt.val(lam), GetNPeriods=lambda pt: pt.val(n),
                    GetKpeak=lambda pt: K(pt, pt.val(B), pt.val(lam)), GetKrms=lambda pt: K(pt, pt.val(B), pt.val(lam)) / math.sqrt(2))
    elif cls.startswith('Gauss'):
        want = dict(getWavelength=lambda pt: pt.val(args[0]))
    else:
        want = dict(GetB=lambda pt: pt.val(args[0]))
    for g, w in want.items():
        for f in core.find(P, cls + '::' + g):
            if f['params']:
                continue
            r = S.call(f, obj)
            ok = True
            for seed in range(1, 5):
                pt = fp.Point(P, seed, types=types)
                try:
                    if not fp.close(pt.val(r), w(pt)):
                        ok = False
                except (fp.Bad, TypeError, AttributeError):
                    ok = None
                    break
            R.oblig('parameter report', ok, cls + '::' + g, front.loc(f, f), f['n'], '%s does not report the parameter set up' % g)

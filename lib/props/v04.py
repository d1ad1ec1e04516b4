"""V04: bunch and beam observables are the sample statistics of all particles."""
import cmath, math
import core, api, front, fp
from core import T, C, add, cmp_
from rep import Rep
from fp import V, F, dot, cross, sqrt

CP = 'ChargedParticle'


class View:
    """the particles of a bunch / beam at one random point"""

    def __init__(self, S, obj, kind):
        self.S, self.obj, self.kind = S, obj, kind
        self.j, self.b = api.idx('j'), api.idx('b')
        save = S.state
        S.state = core.State(dict(save.st), save.guards)
        bunch = obj
        if kind == 'Beam':
            self.nob = S.call('Beam::getNOB', obj)
            S.assume(cmp_('<=', C(0), self.b), cmp_('<', self.b, self.nob))
            bunch = S.call('Beam::getBunch', obj, self.b)
        self.nop = S.call('Bunch::getNOP', bunch)
        S.assume(cmp_('<=', C(0), self.j), cmp_('<', self.j, self.nop))
        p = S.call('Bunch::getParticle', bunch, self.j)
        self.val = {g: S.call(CP + '::get' + g, p) for g in ('Time', 'Position', 'Momentum', 'Accel', 'Charge')}
        self.bunch, self.part = bunch, p
        S.state = save

    def at(self, pt):
        out = []
        nb = int(round(pt.val(self.nob))) if self.kind == 'Beam' else 1
        for b in range(nb):
            c = pt.child({self.b: float(b)})
            n = int(round(c.val(self.nop)))
            for j in range(n):
                d = c.child({self.j: float(j)})
                out.append({k: d.val(v) for k, v in self.val.items()})
        return out


def mean(v):
    return sum(v[1:], v[0]) * (1.0 / len(v))


def stat(L, g):
    return mean([p[g] for p in L])


def rms(v):
    m = mean(v)
    return V(*[math.sqrt(sum((x.c[k] - m.c[k]) ** 2 for x in v) / len(v)) for k in range(3)])


def norm(v):
    return sqrt(dot(v, v))


def delta(L, *a):
    v = [norm(p['Momentum']) for p in L]
    m = mean(v)
    return math.sqrt(mean([(x - m) ** 2 for x in v])) / m


Q = {'avgTime': lambda L: stat(L, 'Time'),
     'avgPosition': lambda L: stat(L, 'Position'),
     'avgMomentum': lambda L: stat(L, 'Momentum'),
     'rmsPosition': lambda L: rms([p['Position'] for p in L]),
     'rmsMomentum': lambda L: rms([p['Momentum'] for p in L]),
     'avgGamma': lambda L: mean([sqrt(1 + dot(p['Momentum'], p['Momentum'])) for p in L]),
     'delta': delta,
     'getTotalCharge': lambda L: sum(p['Charge'] for p in L),
     'getNOP': lambda L: float(len(L)),
     'BunchingFactor': lambda L, c, f: mean([cmath.exp(2j * math.pi * f * p['Position'].c[2] / c) for p in L])}


def run(P, tier):
    R = Rep(P)
    N = 6 if tier == 'quick' else 60
    obj = T('p', 9, 'object')
    for kind in ('Bunch', 'Beam'):
        for name, ref in Q.items():
            for f in core.find(P, kind + '::' + name):
                S = api.Scene(P)
                args = [T('p', i, p['n']) for i, p in enumerate(f['params'])]
                view = View(S, obj, kind)
                r = S.call(f, obj, *args)
                judge(P, R, S, f, r, view, N, {obj: kind + ' *'}, lambda pt, L: ref(L, *([pt.val(T('const', 'SpeedOfLight'))] + [pt.val(a) for a in args] if args else [])),
                      kind + '::' + name, '%s is not the sample statistic of all particles' % f['n'])
    generation(P, R, N)
    correlation(P, R, N)
    distribution(P, R)
    return R.result('The summation loops behind every statistics method are summarised (value terms with closed-form iteration counts and '
                    'loop-carried sums) and compared with the definition of the quantity over all particles at random points.', minimum=8)


def judge(P, R, S, f, r, view, N, types, ref, key, msg):
    ok, und, n = True, None, 0
    for seed in range(1, N + 3):
        pt = fp.Point(P, seed, types=types)
        pt.loops = S.loopinfo
        try:
            want = ref(pt, view.at(pt))
            if not fp.close(pt.val(r), want):
                ok = False
            n += 1
        except (fp.Bad, TypeError, AttributeError, KeyError) as ex:
            und = 'not interpretable: %s' % ex
            break
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
    R.oblig('statistic', None if und or not n else ok, key, front.loc(f, f), f['n'], und or msg)


def dist_members(P):
    rec = [r for r in P.records.values() if core.base(r['n']) == 'Distribution'][0]
    return [f['n'] for f in rec['fields']]


def generation(P, R, N):
    """Bunch(Distribution, reference values): particle i starts at reference + i-th row"""
    for f in core.find(P, 'Bunch::Bunch'):
        if len(f['params']) != 6 or not f['params'][0]['t'].startswith('Distribution'):
            continue
        S = api.Scene(P, opaque={'Distribution::getCoordinate'})
        dist = T('p', 0, 'dist')
        args = [dist] + [T('p', i, p['n']) for i, p in enumerate(f['params']) if i]
        types = {dist: 'Distribution *'}
        for a, p in zip(args[1:], f['params'][1:]):
            types[a] = p['t']
        obj = T('new', 2000, 'Bunch', 'obj', C(1), 0)
        nop = S.call(S.fn('Distribution::getNOP', 0), dist)
        n0 = len(S.events)
        S.call(f, obj, *args)
        ev = [e for e in S.events[n0:] if e.kind == 'push' and e.recv.op == 'f' and e.recv.a[0] is obj]
        where = front.loc(f, f)
        if len(ev) != 1 or len(ev[0].loops) != 1 or ev[0].args[0].op != 'new':
            R.oblig('start values', None, 'Bunch(dist)', where, f['n'], 'generation loop not recognised')
            continue
        e, L = ev[0], ev[0].loops[0]
        R.oblig('start values', None if L.brk else L.trip is nop or fp.equal(P, L.trip, nop), 'Bunch(dist)|count', where, f['n'], 'number of particles generated is not the number of rows of the distribution')
        part = e.args[0]
        R.same('start values', S.call('Bunch::getNOP', obj), nop, 'Bunch(dist)|NOP', where, f['n'], 'number of particles announced by the new bunch')
        end = S.loopinfo[L.id]['end']
        save = S.state
        S.state = core.State(dict(end), ())
        gets = {}
        for g in ('Time', 'Position', 'Momentum', 'Accel', 'Charge'):
            gets[g] = S.call(CP + '::get' + g, part)
        gets['n'] = S.call(CP + '::getNP', part)
        for g, t in (('Time', 'TrajTime'), ('Position', 'TrajPoint'), ('Momentum', 'TrajMomentum')):
            gets['T' + g] = S.call(CP + '::' + t, part, C(0))
        mass = S.load(T('f', part, CP + '::Mass'))
        S.state = save
        row = lambda pt, k: pt.val(T('call', 'Distribution::getCoordinate', dist, (L.iter, C(k)), None))
        ok, und = set(), None
        for seed in range(1, N + 1):
            pt = fp.Point(P, seed, types=types)
            pt.loops = S.loopinfo
            try:
                D = [row(pt, k) for k in range(7)]
                t, x, p, q, m = [pt.val(a) for a in args[1:]]
                want = dict(Time=t + D[6], Position=x + V(*D[0:3]), Momentum=p + V(*D[3:6]), Accel=V(0, 0, 0), Charge=q * pt.val(T('const', 'ElementaryCharge')), n=1.0)
                for g in ('Time', 'Position', 'Momentum'):
                    want['T' + g] = want[g]
                for g, w in want.items():
                    if not fp.close(pt.val(gets[g]), w):
                        ok.add(g)
                if not fp.close(pt.val(mass), m):
                    ok.add('mass')
            except (fp.Bad, TypeError, AttributeError, KeyError) as ex:
                und = str(ex)
                break
        R.oblig('start values', None if und else not ok, 'Bunch(dist)|values', where, f['n'], und or 'start values %s of a particle generated from a distribution are not reference + coordinates' % sorted(ok))


def correlation(P, R, N):
    """addCorrelation: dependent coordinate += factor*(independent - mean), everything else unchanged; same for distributions"""
    obj = T('p', 9, 'object')
    A = [T('p', i, n) for i, n in ((0, 'independent'), (1, 'dependent'), (2, 'factor'))]
    types = {obj: 'Bunch *', A[0]: 'int', A[1]: 'int'}
    for f in core.find(P, 'Bunch::addCorrelation'):
        where = front.loc(f, f)
        bad, und = set(), None
        for i in range(6):
            for d in range(6):
                if i == d or und:
                    continue
                S = api.Scene(P, opaque={CP + '::initTrajectory', CP + '::TrajPoint', CP + '::TrajMomentum', CP + '::TrajTime', CP + '::TrajAccel'})
                nop = S.call('Bunch::getNOP', obj)
                n0 = len(S.events)
                S.call(f, obj, C(i), C(d), A[2])
                ev = [e for e in S.events[n0:] if e.kind == 'call' and e.name == CP + '::initTrajectory']
                if len(ev) != 1 or len(ev[0].loops) != 1 or ev[0].loops[0].brk:
                    und = 'not one update per particle'
                    continue
                e = ev[0]
                L = e.loops[0]
                if L.trip is not nop:
                    bad.add('number of particles')
                get = lambda m, k: T('call', CP + '::' + m, T('ld', T('e', T('f', obj, [x['n'] for x in S.vectors('Bunch')][0]), k)), (C(0),), None)
                for seed in range(1, 4):
                    pt = fp.Point(P, seed, types=types)
                    pt.loops = S.loopinfo
                    try:
                        n = int(pt.val(nop))
                        rows = []
                        for k in range(n):
                            rows.append(list(pt.val(get('TrajPoint', C(k))).c) + list(pt.val(get('TrajMomentum', C(k))).c))
                        m = sum(r[i] for r in rows) / n
                        for k in range(n):
                            c = pt.child({L.iter: float(k)})
                            w = list(rows[k])
                            w[d] += pt.val(A[2]) * (w[i] - m)
                            got = list(c.val(e.args[1]).c) + list(c.val(e.args[2]).c)
                            if not all(abs(a - b) < 1e-8 for a, b in zip(w, got)):
                                bad.add('coordinate %d from %d' % (d, i))
                            if not fp.close(c.val(e.args[0]), pt.val(get('TrajTime', C(k)))):
                                bad.add('time')
                    except (fp.Bad, TypeError, AttributeError, KeyError) as ex:
                        und = str(ex)
                        break
        R.oblig('correlation', None if und else not bad, 'Bunch::addCorrelation', where, f['n'], und or 'addCorrelation() changes something else than dependent += factor*(independent-mean): %s' % sorted(bad))


def distribution(P, R):
    """scale / addCorrelation / setCoordinate change exactly the addressed coordinates, of all particles; out-of-range indices change nothing"""
    obj = T('p', 9, 'object')
    elem = T('call', 'x', None, (), None)
    cases = [('Distribution::scale', 2, lambda a, k, i, x: x[i][k] * a[1] if k == a[0] else x[i][k], (('d', -1), ('d', 0), ('d', 3), ('d', 6), ('d', 7)), 0),
             ('Distribution::addCorrelation', 3, lambda a, k, i, x: x[i][k] + a[2] * x[i][a[0]] if k == a[1] and a[0] != a[1] and 0 <= a[0] < 7 else x[i][k],
              tuple(('dd', i, j) for i, j in ((0, 1), (5, 2), (6, 0), (1, 6), (-1, 2), (7, 2), (2, -1), (2, 7))), 0),
             ('Distribution::setCoordinate', 3, lambda a, k, i, x: a[2] if i == a[0] and k == a[1] else x[i][k],
              tuple(('dd', i, j) for i, j in ((0, 0), (2, 6), (1, 3), (-1, 3), (3, 3), (1, -1), (1, 7))), 0)]
    for name, np, ref, argsets, _ in cases:
        for f in core.find(P, name):
            if len(f['params']) != np:
                continue
            ok, und = True, None
            for spec in argsets:
                S = api.Scene(P)
                fac = T('p', np - 1, 'factor')
                args = [C(v) for v in spec[1:]] + [fac]
                dim, nop = S.call('Distribution::getDIM', obj), S.call('Distribution::getNOP', obj)
                i, k = api.idx('i'), api.idx('k')
                save = S.state
                S.assume(cmp_('<=', C(0), i), cmp_('<', i, nop), cmp_('<=', C(0), k), cmp_('<', k, dim))
                g0 = S.call('Distribution::getCoordinate', obj, i, k)
                S.state = core.State(dict(save.st), save.guards)
                n0 = len(S.events)
                S.call(f, obj, *args)
                ev = [e for e in S.events[n0:]]
                if S.state is None:
                    und = 'does not return'
                    break
                for seed in (1, 2):
                    pt = fp.Point(P, seed, types={obj: 'Distribution *'})
                    pt.fix(dim, 7.0)
                    pt.fix(nop, 3.0)
                    try:
                        get = lambda: [[pt.child({i: float(a), k: float(b)}).val(g0) for b in range(7)] for a in range(3)]
                        x = get()
                        fp.replay(pt, S, ev, lambda e: e.kind == 'store' and e.recv.op in ('*', 'e', 'f') and
                                  core.contains(e.recv, lambda t: t is obj) and e.recv.op != 'var')
                        y = get()
                        a = list(spec[1:]) + [pt.val(fac)]
                        if not all(fp.close(y[m][n], ref(a, n, m, x)) for m in range(3) for n in range(7)):
                            ok = False
                    except (fp.Bad, TypeError, AttributeError, KeyError) as ex:
                        und = '%s: %s' % (type(ex).__name__, ex)
            R.oblig('distribution', None if und else ok, name, front.loc(f, f), f['n'], und or '%s changes other coordinates than the addressed ones' % name)

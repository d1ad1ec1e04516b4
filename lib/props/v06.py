"""V06: observers record the field of their source at every cell and sample, exactly once, at the documented place and time."""
import math
import core, api, front, fp
from core import T, C, add, cmp_
from rep import Rep
from fp import V, F, dot, cross, sqrt
from props.obs import *

CP = 'ChargedParticle'


def run(P, tier):
    R = Rep(P)
    N = 6 if tier == 'quick' else 40
    for cls in ('ScreenObserver', 'PointObserver', 'SnapshotObserver', 'MeshedScreen'):
        for src in ('Beam', 'Bunch', 'Lattice'):
            sampling(P, R, N, cls, src)
    buckets(P, R, 40 * N)
    return R.result('Effect summaries of the integrate() methods are instantiated at small grids; the multiset of requests to the source '
                    '(trace, place, time) is compared with one request per cell and sample at its documented place and time. '
                    'ChargedParticle::integrateFieldTrace is instantiated for random monotone arrival times of the trajectory steps; what it '
                    'adds to each sample is compared with the average of the linearly interpolated waveform over the time bucket of the sample.',
                    minimum=8)


def sampling(P, R, N, cls, src):
    O = Mesh(P, src) if cls == 'MeshedScreen' else Obs(P, cls, src)
    f = O.method('integrate')
    if f is None:
        R.oblig('sampling', None, O.full, '', O.full, 'no integrate() for this source')
        return
    beam = src != 'Lattice'
    one = '%s::%s' % (src, 'integrateFieldTrace' if beam else 'Field') if cls != 'SnapshotObserver' else '%s::%s' % (src, 'RetardedField' if beam else 'Field')
    S = O.open({one})
    n0 = len(S.events)
    S.call(f, ME)
    ev = S.events[n0:]
    source = sourceptr(P, O, one)
    bad = und = None
    if cls == 'SnapshotObserver':
        get = O.method('getField')
    for seed in range(1, N + 1):
        pt = O.point(seed)
        pt.loops = S.loopinfo
        try:
            if cls == 'SnapshotObserver':
                bad = bad or snapshot(P, S, O, pt, ev, one)
                continue
            cells, b = O.cells(pt)
            bad = bad or b
            if bad:
                break
            trace_handlers(pt, O, cells)
            got, want = [], []
            if beam:
                fp.walk(pt, S, ev, lambda e: e.kind == 'call' and e.name == one,
                        lambda q, e: got.append((str(q.key(e.args[1])), q.val(e.args[0]), q.key(e.recv))))
                if any(k[2] != pt.key(source) for k in got):
                    bad = bad or 'the field is taken from something other than the source'
                for k, c, p, t in cells:
                    g = [x for x in got if x[0] == str(k)]
                    if len(g) != 1:
                        bad = bad or 'the trace of a cell is integrated %d times' % len(g)
                    elif not fp.close(g[0][1], p):
                        bad = bad or 'the field is computed at a place other than that of the cell'
                if len(got) != len(cells):
                    bad = bad or 'fields are computed for traces which belong to no cell'
                # nothing else is added
                other = []
                fp.walk(pt, S, ev, lambda e: e.kind == 'call' and e.name in (FT + '::add', FT + '::set_field', FT + '::zero'), lambda q, e: other.append(e))
                if other:
                    bad = bad or 'a trace is modified in addition to the integration'
            else:
                src_ok = []
                pt.calls[one] = lambda q, t: fieldleaf(q, q.argkey(t.a[2][0]), q.argkey(t.a[2][1]))
                acc = {}
                cnt = {}

                def visit(q, e):
                    k = (str(q.key(e.recv)), int(q.val(e.args[0])))
                    v = q.val(e.args[1])
                    cnt[k] = cnt.get(k, 0) + 1
                    acc[k] = acc[k] + v if k in acc else v
                fp.walk(pt, S, ev, lambda e: e.kind == 'call' and e.name == FT + '::add', visit)
                n = 0
                for k, c, p, t in cells:
                    for i in range(int(O.n)):
                        key = (str(k), i)
                        time = (pt.rnd('t0', str(k)) if t is None else t) + i * (O.g(pt, 'dt') if 'dt' in O.arg else pt.val(O.dt))
                        w = fieldleaf(pt, ('#', pt.q(time)), ('#', pt.q(p)))
                        n += 1
                        if key not in acc:
                            bad = bad or 'a sample of a cell is not recorded'
                        elif not fp.close(acc[key], w):
                            bad = bad or 'a sample is not the field at the place and time of that sample'
                if len(acc) != n:
                    bad = bad or 'samples outside the grid are recorded'
        except (fp.Bad, TypeError, AttributeError, KeyError, IndexError) as ex:
            und = '%s: %s' % (type(ex).__name__, ex)
            break
    R.oblig('sampling', None if und else not bad, O.full + '::integrate', front.loc(f, f), f['n'], und or '%s: %s' % (f['n'], bad))


def sourceptr(P, O, one):
    S = O.open({one})
    for fn in ('setSource',):
        for f in P.functions.values():
            if f['n'] == 'Observer<%s>::setSource' % O.src and f.get('body') is not None:
                a = T('p', 200, 'src')
                S.call(f, ME, a)
                for k, v in S.state.st.items():
                    if v is a and k.op == 'f' and k.a[0] is ME:
                        return T('ld', k)
    raise front.AnalysisBroken('Observer<%s>::setSource' % O.src)


def snapshot(P, S, O, pt, ev, one):
    get = O.method('getField')
    pt.calls[one] = lambda q, t: fieldleaf(q, q.argkey(t.a[2][0]), q.argkey(t.a[2][1]))
    fp.replay(pt, S, ev, lambda e: e.kind == 'store' and e.recv.op != 'var')
    S2 = O.open({one})
    ix, iy = api.idx('ix'), api.idx('iy')
    S2.assume(cmp_('<=', C(0), ix), cmp_('<=', C(0), iy), cmp_('<', ix, O.arg['nx']), cmp_('<', iy, O.arg['ny']))
    r = S2.call(get, ME, ix, iy)
    for x in range(int(O.nx)):
        for y in range(int(O.ny)):
            q = pt.child({ix: float(x), iy: float(y)})
            l = api.canon(r)
            if l.op != 'ld':
                raise fp.Bad('getField')
            got = q.mem.get(q.key(l.a[0]))
            w = fieldleaf(pt, ('#', pt.q(O.g(pt, 't'))), ('#', pt.q(O.cell(pt, x, y))))
            if got is None:
                return 'the field of a cell is not recorded'
            if not fp.close(got, w):
                return 'the field recorded for a cell is not that at its place at the time of the snapshot'
    return None


def buckets(P, R, N):
    """what one particle contributes to each sample of a trace"""
    for f in core.find(P, CP + '::integrateFieldTrace'):
        if f.get('body') is None or len(f['params']) != 2:
            continue
        S = api.Scene(P, opaque=TRACE_OPS | {CP + '::RetardedTime', CP + '::RetardedField'})
        me, X, tr = T('p', 9, 'object'), T('p', 0, 'x'), T('p', 1, 'trace')
        np_ = S.call(CP + '::getNP', me)
        n0 = len(S.events)
        S.call(f, me, X, tr)
        ev = S.events[n0:]
        types = {me: CP + ' *', X: 'Vector', tr: FT + ' *'}
        bad = und = None
        done = 0
        for seed in range(1, N + 1):
            pt = fp.Point(P, seed, types=types)
            r = lambda *k: (pt.rnd('b', *k) - 0.35) / 1.3          # 0..1
            n = int(r('n') * 7)
            npt = int(r('np') * 6)
            t0, dt = pt.rnd('t0'), 0.1 + r('dt')
            span = (n + 4) * dt
            # arrival times of the trajectory points: sorted, densely or sparsely spread over and around the window
            a, w = t0 + span * (r('a') * 1.2 - 0.4), span * r('w') * (1.5 if r('v') > 0.5 else 0.3) + 0.01
            ts = sorted(a + w * r('ts', i) for i in range(max(npt, 0)))
            fs = [fieldleaf(pt, 'f', i) for i in range(npt)]
            pt.calls[FT + '::get_t0'] = lambda q, t: t0
            pt.calls[FT + '::get_dt'] = lambda q, t: dt
            pt.calls[FT + '::get_N'] = lambda q, t: float(n)
            pt.calls[FT + '::get_time'] = lambda q, t: t0 + q.val(t.a[2][0]) * dt
            pt.calls[FT + '::get_last_time'] = lambda q, t: t0 + (n - 1) * dt

            def item(l):
                def g(q, t):
                    if len(t.a[2]) != 2 or q.shape(q.types.get(t.a[2][0], 'int')) == 'V':
                        raise fp.Bad('overload')
                    i = q.val(t.a[2][0])
                    if i != int(i) or not 0 <= i < len(l):
                        raise IndexError('trajectory index %s of %d' % (i, len(l)))
                    if not fp.close(q.val(t.a[2][1]), q.val(X)):
                        raise ValueError('the observation point is changed')
                    return l[int(i)]
                return g
            pt.calls[CP + '::RetardedTime'] = item(ts)
            pt.calls[CP + '::RetardedField'] = item(fs)
            pt.fix(np_, float(npt))
            got = {}

            def visit(q, e):
                k = int(q.val(e.args[0]))
                v = q.val(e.args[1])
                if str(q.key(e.recv)) != str(pt.key(tr)):
                    raise ValueError('a trace other than the requested one')
                got[k] = got[k] + v if k in got else v
            try:
                fp.walk(pt, S, ev, lambda e: e.kind == 'call' and e.name in (FT + '::add',), visit)
            except (IndexError, ValueError) as ex:
                bad = bad or str(ex)
                break
            except (fp.Bad, TypeError, AttributeError, KeyError, ZeroDivisionError) as ex:
                und = '%s: %s' % (type(ex).__name__, ex)
                break
            want = {}
            if n >= 2:
                for k in range(n):
                    lo, hi = t0 + (k - 0.5) * dt, t0 + (k + 0.5) * dt
                    for i in range(npt - 1):
                        a1, b1 = max(lo, ts[i]), min(hi, ts[i + 1])
                        if b1 > a1:
                            u = lambda t: (fs[i] * (ts[i + 1] - t) + fs[i + 1] * (t - ts[i])) / (ts[i + 1] - ts[i])
                            c = (u(a1) + u(b1)) * (0.5 * (b1 - a1) / dt)
                            want[k] = want[k] + c if k in want else c
            Z = F(V(0, 0, 0), V(0, 0, 0))
            size = max([abs(x) for v in list(want.values()) + list(got.values()) for x in v.flat()] + [1e-9])
            for k in sorted(set(got) | set(want)):
                d = got.get(k, Z) + want.get(k, Z) * -1.0
                if max(abs(x) for x in d.flat()) > 1e-7 * size:
                    bad = bad or ('sample %d of %d receives something other than the average of the waveform over its time bucket' % (k, n)
                                  if 0 <= k < n else 'a sample outside the trace (%d of %d) is written' % (k, n))
            done += 1
            if bad:
                break
        R.oblig('buckets', None if und and not bad else not bad, CP + '::integrateFieldTrace', front.loc(f, f), f['n'],
                '%s: %s' % (f['n'], bad) if bad else und or 'sample receives the bucket average')

"""V02: radiated fields are the Lienard-Wiechert fields of the retarded source point."""
import core, api, front, fp
from core import T, C, add, cmp_
from rep import Rep
from fp import V, F, dot, cross, sqrt

CP = 'ChargedParticle'


def LW(q, eps0, c, X, P, A, obs):
    """field of a charge q at X with momentum P = beta*gamma and dP/dt = A"""
    g = sqrt(1 + dot(P, P))
    b = P / g
    bp = (A - b * dot(b, A)) / g            # dbeta/dt
    r = obs - X
    R = sqrt(dot(r, r))
    n = r / R
    d = (1 - dot(b, n)) ** 3
    e = ((n - b) / (R * R * d * g * g) + cross(n, cross(n - b, bp)) / (R * d * c)) * (q / (4 * fp.math.pi * eps0))
    return F(e, cross(n, e) / c)


def run(P, tier):
    R = Rep(P)
    w, tt = T('p', 9, 'particle'), T('p', 7, 'obs_time')
    obs = T('vec', *[T('p', i, n) for i, n in ((1, 'obs_x'), (2, 'obs_y'), (3, 'obs_z'))])
    types = {w: CP + ' *'}
    N = 12 if tier == 'quick' else 120
    # --- field of one stored trajectory point
    for f in core.find(P, CP + '::RetardedField'):
        S = api.Scene(P)
        np = S.particle(w)
        S.assume(cmp_('<=', C(1), np))
        first = f['params'][0]
        q = S.call(CP + '::getCharge', w)
        where = front.loc(f, f)
        if 'int' in first['t']:
            i = api.idx('i')
            S.assume(cmp_('<', i, np))
            src = [S.call(CP + '::' + m, w, i) for m in ('TrajPoint', 'TrajMomentum', 'TrajAccel')]
            r = S.call(f, w, i, obs)
            ok = True
            for seed in range(1, N + 1):
                pt = fp.Point(P, seed, types=types)
                try:
                    x, p, a = [pt.val(v) for v in src]
                    ok = ok and fp.close(pt.val(r), LW(pt.val(q), pt.val(T('const', 'EpsNull')), pt.val(T('const', 'SpeedOfLight')), x, p, a, pt.val(obs)))
                except (fp.Bad, TypeError, AttributeError):
                    ok = None
                    break
            R.oblig('stored point', ok, 'RetardedField(index)', where, f['n'], 'field of a trajectory point is not the Lienard-Wiechert field of that point')
            continue
        r = S.call(f, w, tt, obs)
        if S.stopped():
            R.oblig('terminates', False, 'RetardedField|throw', where, f['n'], 'RetardedField always throws')
            continue
        tr = {m: S.call(CP + '::' + m, w, api.idx('q')) for m in ()}
        arr = {}
        for m, k in (('TrajTime', 't'), ('TrajPoint', 'x'), ('TrajMomentum', 'p'), ('TrajAccel', 'a')):
            arr[k] = array(S, m, w)
        # every sample of the trajectory arrays that the result depends on
        use = {k: {} for k in arr}
        for x in core.subterms(r):
            if x.op == 'ld' and x.a[0].op == 'e':
                for k, l in arr.items():
                    if x.a[0].a[0] is l:
                        use[k].setdefault(x.a[0].a[1], x)
        subs = list(core.subterms(r))
        lastidx = add(np, C(-1))
        n = {'extrapolated': 0, 'interpolated': 0, 'no signal': 0}
        bad = {}
        und = None
        for seed in range(1, 40 * N):
            if sum(n.values()) >= 3 * N and all(n.values()):
                break
            pt = fp.Point(P, seed, types=types, opaque=True)
            try:
                c, eps, Q = pt.val(T('const', 'SpeedOfLight')), pt.val(T('const', 'EpsNull')), pt.val(q)
                # time stamps: an increasing random sequence of a slow particle
                t0 = pt.rnd('t0')
                span = 0.3 * pt.rnd('span')
                for i, x in use['t'].items():
                    pt.memo[x] = t0 if i is core.ZERO else t0 + span if i is lastidx else t0 + span * 0.5 * pt.rnd('mid', i.id)
                for i, x in use['x'].items():
                    s = 0 if i is core.ZERO else 1 if i is lastidx else 0.5 * pt.rnd('midx', i.id)
                    x0 = V(*[pt.rnd('x0', j) for j in range(3)])
                    pt.memo[x] = x0 + V(*[0.05 * c * span * pt.rnd('dx', j) * s for j in range(3)])
                o, t = pt.val(obs), pt.val(tt)
                pt.memo[tt] = t = t0 + (seed % 7 - 2) * 0.45 * pt.rnd('tobs')
                res = pt.val(r)
                X = {i: pt.val(x) for i, x in use['x'].items()}
                Tm = {i: pt.val(x) for i, x in use['t'].items()}
                if core.ZERO not in X or lastidx not in X or core.ZERO not in Tm or lastidx not in Tm:
                    und = 'end points of the trajectory not referenced'
                    break
                arrive = lambda i: Tm[i] + sqrt(dot(o - X[i], o - X[i])) / c
                if t > arrive(lastidx):
                    n['no signal'] += 1
                    want = [F(V(0, 0, 0), V(0, 0, 0))]
                    kind = 'no signal'
                elif t <= arrive(core.ZERO):
                    kind = 'extrapolated'
                    p = pt.val(use['p'][core.ZERO])
                    b = p / sqrt(1 + dot(p, p))
                    rc = (o - X[core.ZERO]) / c
                    dt = t - Tm[core.ZERO]
                    # |rc - b s| = dt - s
                    A2, B2, C2 = 1 - dot(b, b), dt - dot(b, rc), dt * dt - dot(rc, rc)
                    s = (B2 - sqrt(B2 * B2 - A2 * C2)) / A2
                    want = [LW(Q, eps, c, X[core.ZERO] + b * (c * s), p, V(0, 0, 0), o)]
                else:
                    kind = 'interpolated'
                    want = []
                    idx = [i for i in use['p'] if i is not core.ZERO and i is not lastidx] or list(use['p'])
                    # the fraction used: some scalar of the computation, common to position, momentum and acceleration
                    fr = {pt.memo[x] for x in subs if x in pt.memo and isinstance(pt.memo[x], float)}
                    for i in idx:
                        for j in idx:
                            if i is j or i not in X or j not in X or i not in use['a'] or j not in use['a']:
                                continue
                            for g in fr:
                                mix = lambda u, v: u * (1 - g) + v * g
                                want.append(LW(Q, eps, c, mix(X[i], X[j]), mix(pt.val(use['p'][i]), pt.val(use['p'][j])),
                                               mix(pt.val(use['a'][i]), pt.val(use['a'][j])), o))
                    if not want:
                        und = 'no interpolation between two trajectory points recognised'
                        break
                n[kind] += 1
                if not any(fp.close(res, v, 1e-7) for v in want):
                    bad.setdefault(kind, seed)
            except (fp.Bad, TypeError, AttributeError) as ex:
                und = str(ex)
                break
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
        if und:
            R.oblig('field', None, 'RetardedField|und', where, f['n'], und)
        else:
            for k, cnt in n.items():
                R.oblig(k, (k not in bad) if cnt else None, 'RetardedField|' + k, where, f['n'],
                        {'no signal': 'field is not zero although the observation time is later than the arrival of the last trajectory point',
                         'extrapolated': 'field before the first arrival is not the Lienard-Wiechert field of the uniform motion with the initial momentum',
                         'interpolated': 'field is not the Lienard-Wiechert field of a source point interpolated between two trajectory points'}[k])
        signal(R, P, S, f, r, arr, np, q, tt, obs, types, N)
        # --- search for the retarded trajectory interval
        A = lambda i: (T('ld', T('e', arr['t'], i)), T('ld', T('e', arr['x'], i)))

        def residual(pt, i):
            a, b = A(i)
            d = pt.val(obs) - pt.val(b)
            return pt.val(tt) - pt.val(a) - sqrt(dot(d, d)) / pt.val(T('const', 'SpeedOfLight'))
        bracket(R, P, S, f, residual, lastidx, types, N, tt, 'RetardedField')
    # --- trajectory interpolated at a given time
    for f in core.find(P, CP + '::CoordinatesAtTime'):
        S = api.Scene(P)
        np = S.particle(w)
        S.assume(cmp_('<=', C(1), np))
        px, pp = T('p', 1, 'position'), T('p', 2, 'momentum')
        S.call(f, w, tt, px, pp)
        rx, rp = S.load(T('*', px)), S.load(T('*', pp))
        arr = {k: array(S, m, w) for m, k in (('TrajTime', 't'), ('TrajPoint', 'x'), ('TrajMomentum', 'p'))}
        last = add(np, C(-1))
        inv = bracket(R, P, S, f, lambda pt, i: pt.val(tt) - pt.val(T('ld', T('e', arr['t'], i))), last, types, N, tt, 'CoordinatesAtTime')
        where = front.loc(f, f)
        if inv is None:
            R.oblig('interpolation', None, 'CoordinatesAtTime', where, f['n'], 'search not recognised')
            continue
        lid, lo, hi, ties = inv
        e = lambda k, i: T('ld', T('e', arr[k], i))
        L, H = T('lo', lid, lo), T('lo', lid, hi)
        n = {'inside': 0, 'outside': 0}
        bad = {}
        for seed in range(1, 60 * N):
            if all(v >= N for v in n.values()):
                break
            pt = fp.Point(P, seed, types=types, opaque=True)
            try:
                i1 = 3.0 + seed % 3
                pt.memo[L], pt.memo[H] = i1, i1 + 1
                pt.memo[np] = 9.0
                t0 = pt.rnd('t0')
                st = 0.2 * pt.rnd('step')
                tm = {C(0): t0, L: t0 + 3 * st, H: t0 + 4.2 * st, last: t0 + 8 * st}
                for i, v in tm.items():
                    pt.memo[e('t', i)] = v
                for k, (which, _) in ties.items():
                    pt.memo[T('lo', lid, k)] = tm[L if which == 'lo' else H]
                inside = seed % 3 != 0
                if seed % 12 == 1:              # exactly the last (first) point
                    pt.memo[H], pt.memo[last], tm[H] = 8.0, 8.0, tm[last]
                    pt.memo[e('t', H)] = tm[last]
                    for k, (which, _) in ties.items():
                        pt.memo[T('lo', lid, k)] = tm[L if which == 'lo' else H]
                t = pt.memo[tt] = tm[last] if seed % 12 == 1 else tm[L] + (tm[H] - tm[L]) * 0.6 * pt.rnd('f') if inside else (t0 - pt.rnd('b') if seed % 2 else tm[last] + pt.rnd('b'))
                g = (t - tm[L]) / (tm[H] - tm[L])
                for r, k in ((rx, 'x'), (rp, 'p')):
                    want = pt.val(e(k, L)) * (1 - g) + pt.val(e(k, H)) * g if inside else V(0, 0, 0)
                    if not fp.close(pt.val(r), want):
                        bad.setdefault('inside' if inside else 'outside', seed)
                n['inside' if inside else 'outside'] += 1
            except (fp.Bad, TypeError, AttributeError) as ex:
                n = {k: 0 for k in n}
                break
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
        for k, cnt in n.items():
            R.oblig('interpolation', (k not in bad) if cnt else None, 'CoordinatesAtTime|' + k, where, f['n'],
                    'position/momentum %s the time range of the trajectory are not the documented ones (linear interpolation / zero)' % k)
    # --- time of arrival
    for f in core.find(P, CP + '::RetardedTime'):
        S = api.Scene(P)
        np = S.particle(w)
        i = api.idx('i')
        S.assume(cmp_('<', i, np))
        r = S.call(f, w, i, obs)
        x, t = S.call(CP + '::TrajPoint', w, i), S.call(CP + '::TrajTime', w, i)
        ok = True
        for seed in range(1, N + 1):
            pt = fp.Point(P, seed, types=types)
            try:
                d = pt.val(obs) - pt.val(x)
                ok = ok and fp.close(pt.val(r), pt.val(t) + sqrt(dot(d, d)) / pt.val(T('const', 'SpeedOfLight')))
            except (fp.Bad, TypeError, AttributeError):
                ok = None
                break
        R.oblig('arrival time', ok, 'RetardedTime', front.loc(f, f), f['n'], 'arrival time of a signal is not emission time + distance / c')
    return R.result('Both evaluations of the radiated field are extracted as value-number terms and compared, as algebraic functions, with the '
                    'Lienard-Wiechert expression of one source point: the stored point, the extrapolated start point (root of the light cone '
                    'condition), or a point interpolated with one common fraction (random-interpretation fingerprints).', minimum=3)


def signal(R, P, S, f, r, arr, np, q, tt, obs, types, N):
    """the whole search on modelled trajectories of 1 to 9 points, far away from the observer: the source point is the one whose signal
    arrives at the observation time"""
    c, eps = T('const', 'SpeedOfLight'), T('const', 'EpsNull')
    n, bad, und = {}, {}, None
    for seed in range(1, 30 * N):
        pt = fp.Point(P, seed, types=types, rng=(-1, 1))
        pt.loops = S.loopinfo
        k = 1 + int(500 * (1 + pt.rnd('k'))) % 9 if seed % 5 else 2
        axis = seed // 6 % 2 == 0                  # an observer on the axis of the motion: arrival times without rounding
        try:
            cc = 2.0 if axis else 1.5 + 0.5 * pt.rnd('c')
            pt.fix(c, cc)
            pt.fix(eps, 1.0 + 0.5 * pt.rnd('eps'))
            pt.fix(np, float(k))
            st = 0.25
            X, Tm, Pm, Am = [], [], [], []
            x, t = V(0.5, 0, 0), 1.0
            for i in range(k):
                X.append(x)
                Tm.append(t)
                Pm.append(V(*[0.6 * pt.rnd('P', i, j) for j in range(3)]))
                Am.append(V(*[3.0 * pt.rnd('A', i, j) for j in range(3)]))
                dt = st if axis else st * (1.2 + 0.8 * pt.rnd('dt', i))
                x = x + (V(0.25 * (seed // 12 % 2), 0, 0) if axis else V(*[0.25 * cc * dt * pt.rnd('X', i, j) for j in range(3)]))
                t = t + dt
            o = V(32.5, 0, 0) if axis else V(*[30 * (1.5 + pt.rnd('o', j)) for j in range(3)])
            for nm, vs in (('x', X), ('t', Tm), ('p', Pm), ('a', Am)):
                for i, v in enumerate(vs):
                    pt.mem[pt.key(T('e', arr[nm], C(i)))] = v
            for y, v in zip(obs.a, o.c):
                pt.fix(y, v)
            arrive = lambda x, t: t + sqrt(dot(o - x, o - x)) / cc
            first, last = arrive(X[0], Tm[0]), arrive(X[-1], Tm[-1])
            mode = ('inside', 'at a point', 'after', 'inside', 'before', 'at the last')[seed % 6]
            seg = int(500 * (1 + pt.rnd('seg'))) % max(1, k - 1)
            if mode in ('inside', 'at a point') and k < 2 or mode == 'at a point' and (k < 3 or not axis) or mode == 'at the last' and (not axis or k < 2):
                continue
            if mode == 'inside':
                g = 0.5 + 0.49 * pt.rnd('g')
                a, b = arrive(X[seg], Tm[seg]), arrive(X[seg + 1], Tm[seg + 1])
                tobs = a + (b - a) * g
                lo, hi = 0.0, 1.0
                for _ in range(60):
                    m = (lo + hi) / 2
                    if arrive(X[seg] * (1 - m) + X[seg + 1] * m, Tm[seg] * (1 - m) + Tm[seg + 1] * m) < tobs:
                        lo = m
                    else:
                        hi = m
                src = (seg, lo)
            elif mode == 'at a point':
                i = 1 + seg % (k - 2)
                tobs, src = arrive(X[i], Tm[i]), (i, 0.0)
            elif mode == 'at the last':
                tobs, src = last, (k - 2, 1.0)
            elif mode == 'after':
                tobs, src = last + 0.01 + abs(pt.rnd('late')) * 3, None
            else:
                tobs, src = first - 0.01 - abs(pt.rnd('early')) * 3, -1
            pt.fix(tt, tobs)
            Q = pt.val(q)
            mix = lambda L, i, g: L[i] * (1 - g) + L[i + 1] * g
            if src is None:
                want = F(V(0, 0, 0), V(0, 0, 0))
            elif src == -1:
                b = Pm[0] / sqrt(1 + dot(Pm[0], Pm[0]))
                lo, hi = -1e3, 0.0
                for _ in range(80):
                    m = (lo + hi) / 2
                    if arrive(X[0] + b * (cc * m), Tm[0] + m) < tobs:
                        lo = m
                    else:
                        hi = m
                want = LW(Q, pt.val(eps), cc, X[0] + b * (cc * lo), Pm[0], V(0, 0, 0), o)
            else:
                want = LW(Q, pt.val(eps), cc, mix(X, *src), mix(Pm, *src), mix(Am, *src), o)
            res = pt.val(r)
            n[mode] = n.get(mode, 0) + 1
            if not fp.close(res, want, 1e-4):
                bad.setdefault(mode, k)
        except (fp.Bad, TypeError, AttributeError, KeyError) as ex:
            und = '%s: %s' % (type(ex).__name__, ex)
            break
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
    for mode in sorted(n) if not und else ['trajectory']:
        R.oblig('source point', None if und else mode not in bad, 'RetardedField|at|' + mode, front.loc(f, f), f['n'],
                und or 'with %d trajectory points the field at a time %s (arrival of the signals) is not that of the source point whose signal arrives then'
                % (bad.get(mode, 0), mode))


def bracket(R, P, S, f, residual, lastidx, types, N, tt, name):
    """the interval search keeps a point with positive and one with non-positive residual: inductive invariant of the loop"""
    where = front.loc(f, f)
    for lid, info in S.loopinfo.items():
        lo = [k for k in info['carried'] if info['init'].get(k) is core.ZERO]
        hi = [k for k in info['carried'] if info['init'].get(k) is lastidx]
        if len(lo) != 1 or len(hi) != 1:
            continue
        lo, hi = lo[0], hi[0]
        L, H = T('lv', lid, lo), T('lv', lid, hi)
        el, eh = info['end'].get(lo), info['end'].get(hi)
        M = [x for x in core.subterms(el) if core.contains(x, lambda y: y is L) and core.contains(x, lambda y: y is H) and
             x.op == 'op' and x.a[0] in ('idiv', '>>', 'int') or x.op == 'poly' and False]
        M = [x for x in M if core.contains(eh, lambda y: y is x)]
        if not M:
            continue
        cand = [(el.a[1] if el.a[2] is L else el.a[2])] if el.op == 'ite' else M
        mid = cand[0]
        # floating point values carried along with the two ends
        ties = {}
        for k in info['carried'] - {lo, hi}:
            for which, end in (('lo', core.ZERO), ('hi', lastidx)):
                ok = True
                kinds = []
                for seed in (1, 2, 3):
                    pt = fp.Point(P, seed, types=types, opaque=True)
                    try:
                        v = pt.val(info['init'][k])
                        r = residual(pt, end)
                        t = pt.val(tt)
                        kinds.append('r' if fp.close(v, r) else 't' if fp.close(v, t - r) else '')
                    except (fp.Bad, TypeError, AttributeError, KeyError):
                        kinds.append('')
                if len(set(kinds)) == 1 and kinds[0]:
                    ties[k] = (which, kinds[0])
        bad = set()
        n = [0, 0]
        for seed in range(1, 30 * N):
            if min(n) >= N:
                break
            pt = fp.Point(P, seed, types={**types, L: 'int', H: 'int'}, opaque=True)
            try:
                pt.memo[L], pt.memo[H] = 2.0, 2.0 + 2 + seed % 5
                pt.memo[tt] = 3.5 * pt.rnd('obs')
                rl, rh = residual(pt, L), residual(pt, H)
                for k, (which, kind) in ties.items():
                    r = rl if which == 'lo' else rh
                    pt.memo[T('lv', lid, k)] = r if kind == 'r' else pt.val(tt) - r
                r = residual(pt, mid)
                m = pt.val(mid)
                if not pt.memo[L] < m < pt.memo[H]:
                    bad.add('midpoint')
                pos = r > 0
                n[pos] += 1
                nl, nh = pt.val(el), pt.val(eh)
                if (nl, nh) != ((m, pt.memo[H]) if pos else (pt.memo[L], m)):
                    bad.add('ends')
                for k, (which, kind) in ties.items():
                    x = pt.val(info['end'][k])
                    want = (r if pos == (which == 'lo') else rl if which == 'lo' else rh)
                    if not fp.close(x, want if kind == 'r' else pt.val(tt) - want):
                        bad.add('carried value')
            except (fp.Bad, TypeError, AttributeError):
                bad = None
                break
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
        R.oblig('bracketing', None if bad is None else not bad, name + '|bracket', where, f['n'],
                'the interval search does not keep the wanted time between its two ends (%s)' % ', '.join(sorted(bad or ())))
        return lid, lo, hi, ties
    R.oblig('bracketing', None, name + '|bracket', where, f['n'], 'interval search not recognised')
    return None


def array(S, tr, p):
    save = S.state
    S.state = core.State(dict(save.st), save.guards)
    v = S.call(CP + '::' + tr, p, api.idx('q'))
    S.state = save
    for x in core.subterms(v):
        if x.op == 'ld' and x.a[0].op == 'e':
            return x.a[0].a[0]
    raise front.AnalysisBroken('no array behind ' + tr)

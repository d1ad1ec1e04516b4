"""V05: vector, field and field-trace arithmetic acts on every component and every sample."""
import core, api, front, fp
from core import T, C, add, cmp_
from rep import Rep
from fp import V, F, dot, cross, sqrt

had = lambda f: lambda v: V(*[f(x) for x in v.c])
BIN = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}


def run(P, tier):
    R = Rep(P)
    N = 8 if tier == 'quick' else 80
    me = T('p', 9, 'object')

    def algebra(cls, shape):
        """all operators and observables of a value class"""
        types = {me: cls + ' *'}
        for f in P.functions.values():
            if f.get('body') is None:
                continue
            q = core.base(f['n'])
            m = q.rsplit('::', 1)[-1]
            mine = core.base(f.get('clsn') or '') == cls or q.startswith(cls + '::')
            if not mine and not (cls == 'Vector' and q in ('dot', 'cross')):
                continue
            args = [T('p', i, p['n']) for i, p in enumerate(f['params'])]
            tp = dict(types)
            for a, p in zip(args, f['params']):
                tp[a] = p['t'].replace('const ', '').rstrip('& ')
            spec = SPEC.get((cls, m, len(args))) or SPEC.get((cls, m))
            if spec is None:
                continue
            S = api.Scene(P)
            r = S.call(f, me if mine else None, *args)
            after = S.load(T('*', me))
            ok = True
            for seed in range(1, N):
                pt = fp.Point(P, seed, types=tp)
                try:
                    a = [pt.val(x) for x in args]
                    w = pt.val(T('ld', T('*', me)))
                    want, new = spec(w, *a)
                    if want is not None and not fp.close(pt.val(api.canon(r)), want):
                        ok = False
                    if new is not None and not fp.close(pt.val(api.canon(after)), new):
                        ok = False
                    if new is None and mine and not fp.close(pt.val(api.canon(after)), w):
                        ok = False
                except (fp.Bad, TypeError, AttributeError):
                    ok = None
                    break
                except (ZeroDivisionError, ValueError, OverflowError):
                    continue
            R.oblig('algebra', ok, '%s::%s/%d' % (cls, m, len(args)), front.loc(f, f), f['n'], '%s is not the operation it stands for' % f['n'])
    algebra('Vector', 'V')
    algebra('ElMagField', 'F')
    trace(P, R, N, me)
    return R.result('Every operator and observable of Vector, ElMagField and FieldTrace is reduced to the value terms of its result and its '
                    'object and compared as algebraic functions with the operation it stands for (random interpretation); for traces the '
                    'effect summary is instantiated for all samples.', minimum=25)


def op2(o):
    return lambda w, a=None: (BIN[o](w, a), None)


def opeq(o):
    return lambda w, a: (BIN[o](w, a), BIN[o](w, a))


SPEC = {}
for cls in ('Vector', 'ElMagField'):
    for o in '+-*/':
        SPEC[(cls, 'operator' + o, 1)] = op2(o)
        SPEC[(cls, 'operator%s=' % o, 1)] = opeq(o)
    SPEC[(cls, 'operator-', 0)] = lambda w: (-w, None)
SPEC[('Vector', 'dot')] = lambda w, a, b: (dot(a, b), None)
SPEC[('Vector', 'cross')] = lambda w, a, b: (cross(a, b), None)
SPEC[('Vector', 'square')] = lambda w: (V(*[x * x for x in w.c]), None)
SPEC[('Vector', 'root')] = lambda w: (V(*[sqrt(x) for x in w.c]), None)
SPEC[('Vector', 'norm')] = lambda w: (sqrt(dot(w, w)), None)
SPEC[('Vector', 'abs2nd')] = lambda w: (dot(w, w), None)
SPEC[('Vector', 'normalize')] = lambda w: (None, w / sqrt(dot(w, w)))
SPEC[('Vector', 'transform')] = lambda w, a, b, c: (None, V(dot(w, a), dot(w, b), dot(w, c)))
SPEC[('Vector', 'Vector', 3)] = lambda w, a, b, c: (None, V(a, b, c))
SPEC[('Vector', 'Vector', 0)] = lambda w: (None, V(0, 0, 0))
SPEC[('ElMagField', 'ElMagField', 2)] = lambda w, a, b: (None, F(a, b))
SPEC[('ElMagField', 'ElMagField', 0)] = lambda w: (None, F(V(0, 0, 0), V(0, 0, 0)))
SPEC[('ElMagField', 'Zero')] = lambda w: (None, F(V(0, 0, 0), V(0, 0, 0)))
SPEC[('ElMagField', 'E', 0)] = lambda w: (w.e, None)
SPEC[('ElMagField', 'B', 0)] = lambda w: (w.b, None)


def trace(P, R, N, me):
    FT = 'FieldTrace'
    other = T('p', 8, 'other')
    Z = F(V(0, 0, 0), V(0, 0, 0))

    def lin(x, y, g):
        return x * (1 - g) + y * g

    def sample(A, k):
        return A.s[k] if 0 <= k < A.n else Z

    def at(A, t):
        import math
        r = (t - A.t0) / A.dt
        k = math.floor(r)
        return lin(sample(A, k), sample(A, k + 1), r - k)

    def deriv(A):
        n, s, h = A.n, A.s, A.dt
        return [(s[1] - s[0]) / h] + [(s[i + 1] - s[i - 1]) / (2 * h) for i in range(1, n - 1)] + [(s[n - 1] - s[n - 2]) / h]

    def perp(v, n):
        n = n / sqrt(dot(n, n))
        return v - n * dot(v, n)

    # method, parameters: 'd' number, 'T' trace by value, 'P' trace by pointer, 'V' vector, 'I' index, 'F' field
    M = [('operator*', 'd', lambda A, d: [x * d for x in A.s], None),
         ('operator/', 'd', lambda A, d: [x / d for x in A.s], None),
         ('operator+', 'T', lambda A, B: [x + y for x, y in zip(A.s, B.s)], None),
         ('operator-', 'T', lambda A, B: [x - y for x, y in zip(A.s, B.s)], None),
         ('operator+=', 'T', None, lambda A, B: [x + y for x, y in zip(A.s, B.s)]),
         ('zero', '', None, lambda A: [Z] * A.n),
         ('derivative', '', deriv, None),
         ('cancel_long_fields', 'V', None, lambda A, n: [F(perp(x.e, n), perp(x.b, n)) for x in A.s]),
         ('transform', 'VVV', None, lambda A, a, b, c: [F(V(dot(x.e, a), dot(x.e, b), dot(x.e, c)), V(dot(x.b, a), dot(x.b, b), dot(x.b, c))) for x in A.s]),
         ('add', 'IF', None, lambda A, i, f: [x + f if k == i else x for k, x in enumerate(A.s)]),
         ('set_field', 'IF', None, lambda A, i, f: [f if k == i else x for k, x in enumerate(A.s)])]
    # scalar results
    Q = [('Poynting', '', lambda A, m: sum([cross(x.e, x.b) for x in A.s], V(0, 0, 0)) * (A.dt / m)),
         ('get_time', 'I', lambda A, m, i: A.t0 + i * A.dt),
         ('get_field', 'I', lambda A, m, i: A.s[int(i)]),
         ('get_field', 't', lambda A, m, t: at(A, t)),
         ('get_last_time', '', lambda A, m: A.t0 + (A.n - 1) * A.dt),
         ('get_t0', '', lambda A, m: A.t0), ('get_dt', '', lambda A, m: A.dt), ('get_N', '', lambda A, m: A.n)]
    fields = {k: acc(P, FT, g) for k, g in (('t0', 'get_t0'), ('dt', 'get_dt'), ('n', 'get_N'))}
    arr = vecmember(P, FT, 'ElMagField')

    class A:
        def __init__(s, pt, obj):
            ld = lambda f: pt.val(T('ld', T('f', obj, f)))
            s.t0, s.dt, s.n = ld(fields['t0']), ld(fields['dt']), int(ld(fields['n']))
            s.s = [pt.val(T('ld', T('e', T('f', obj, arr), C(k)))) for k in range(s.n)]

    def setup(f, sig):
        S = api.Scene(P)
        S.versions = True
        S.algebraic = {'Vector', 'ElMagField'}
        args, tp = [], {me: FT + ' *'}
        oth = None
        for i, (k, p) in enumerate(zip(sig, f['params'])):
            a = T('p', i, p['n'])
            if k in 'TP':
                oth = other
                tp[other] = FT + ' *'
                a = other if p['t'].endswith('*') else T('ld', T('*', other))
                S.assume(core.cmp_('==', T('ld', T('f', me, fields['n'])), T('ld', T('f', other, fields['n']))))
                for x in ('t0', 'dt'):
                    S.assume(core.cmp_('==', T('ld', T('f', me, fields[x])), T('ld', T('f', other, fields[x])), False))
            else:
                tp[a] = {'d': 'double', 'V': 'Vector', 'F': 'ElMagField', 'I': 'int', 't': 'double'}[k]
                if k == 'I':
                    S.assume(cmp_('<', a, T('ld', T('f', me, fields['n']))), cmp_('<=', C(0), a))
            args.append(a)
        return S, args, tp, oth

    def point(seed, tp, oth, args, sig, types):
        pt = fp.Point(P, seed, types=tp)
        n = float(3 + seed % 4)
        for o in [me] + ([oth] if oth else []):
            pt.fix(T('ld', T('f', o, fields['n'])), n)
            pt.fix(T('size', T('f', o, arr)), n)
            for k in ('t0', 'dt'):
                pt.fix(T('ld', T('f', o, fields[k])), pt.rnd(k))
        for k, a in zip(sig, args):
            if k == 'I':
                pt.fix(a, float(seed % int(n)))
            if k == 't':
                t0, dt = pt.rnd('t0'), pt.rnd('dt')
                pt.fix(a, t0 + dt * ((seed % int(n + 2)) - 1 + 0.6 * pt.rnd('frac')))
        return pt

    for name, sig, res, new in M:
        for f in overloads(P, FT, name, sig):
            S, args, tp, oth = setup(f, sig)
            n0 = len(S.events)
            r = S.call(f, me, *args)
            where = front.loc(f, f)
            key = 'FieldTrace::%s(%s)' % (name, sig)
            if S.stopped():
                R.oblig('trace', False, key, where, f['n'], '%s throws for compatible traces' % f['n'])
                continue
            ok, und, n = True, None, 0
            for seed in range(1, N + 4):
                pt = point(seed, tp, oth, args, sig, tp)
                try:
                    me_ = A(pt, me)
                    a = [pt.val(x) if k not in 'TP' else A(pt, oth) for x, k in zip(args, sig)]
                    want = (res or new)(me_, *a)
                    fp.replay(pt, S, S.events[n0:], lambda e: e.kind == 'store' and not (e.recv.op == 'var'))
                    bases = {e.recv.a[0] for e in S.events[n0:] if e.kind == 'store' and e.recv.op == 'e' and e.recv.a[0].op == 'f' and e.recv.a[0].a[1] == arr}
                    L = T('f', me, arr)
                    if res is not None:
                        if len(bases) != 1 or L in bases and not (r.op == 'ld' and r.a[0] is T('*', me)):
                            raise fp.Bad('result object')
                        L = list(bases)[0]
                    for j in range(me_.n):
                        got = pt.mem.get(pt.key(T('e', L, C(j))))
                        if got is None:
                            got = me_.s[j]      # elements not written keep the value of the copied object
                        if not fp.close(got, want[j]):
                            ok = False
                    for k in range(me_.n, me_.n + 2):
                        if pt.key(T('e', L, C(k))) in pt.mem:
                            ok = False
                    n += 1
                except (fp.Bad, TypeError, AttributeError, KeyError) as ex:
                    und = str(ex)
                    break
                except (ZeroDivisionError, ValueError, OverflowError):
                    continue
            R.oblig('trace', None if und or not n else ok, key, where, f['n'], und if und else '%s does not produce the result for every sample of the trace' % f['n'])
            # the result keeps the time axis
            if res is not None and r.op == 'ld':
                for g in fields.values():
                    v = S.field_of_value(r, g)
                    R.oblig('time axis', True if v is T('ld', T('f', me, g)) else None, key + g, where, f['n'], 'time axis of the result')
    for name, sig, res in Q:
        for f in overloads(P, FT, name, sig):
            S, args, tp, oth = setup(f, sig)
            r = S.call(f, me, *args)
            ok, und, n = True, None, 0
            for seed in range(1, N + 6):
                pt = point(seed, tp, oth, args, sig, tp)
                pt.loops = S.loopinfo
                try:
                    want = res(A(pt, me), pt.val(T('const', 'MuNull')), *[pt.val(x) for x in args])
                    if not fp.close(pt.val(r), want):
                        ok = False
                    n += 1
                except (fp.Bad, TypeError, AttributeError, KeyError) as ex:
                    und = str(ex)
                    break
                except (ZeroDivisionError, ValueError, OverflowError):
                    continue
            R.oblig('trace', None if und or not n else ok, 'FieldTrace::%s(%s)' % (name, sig), front.loc(f, f), f['n'],
                    und if und else '%s is not the documented quantity' % f['n'])
    # retard(): each sample of the target is this trace read delta_t earlier
    for f in overloads(P, FT, 'retard', 'dP'):
        S = api.Scene(P)
        S.versions = True
        d = T('p', 0, 'delta_t')
        S.call(f, me, d, other)
        tp = {me: FT + ' *', other: FT + ' *', d: 'double'}
        ok, und = True, None
        for seed in range(1, N + 4):
            pt = fp.Point(P, seed, types=tp)
            for o in (me, other):
                n = float(3 + (seed + (o is me)) % 4)
                pt.fix(T('ld', T('f', o, fields['n'])), n)
                pt.fix(T('size', T('f', o, arr)), n)
            try:
                a, b, x = A(pt, me), A(pt, other), pt.val(d)
                fp.replay(pt, S, S.events, lambda e: e.kind == 'store' and e.recv.op != 'var')
                for j in range(b.n):
                    got = pt.mem.get(pt.key(T('e', T('f', other, arr), C(j))))
                    if got is None or not fp.close(got, at(a, b.t0 + j * b.dt - x)):
                        ok = False
            except (fp.Bad, TypeError, AttributeError, KeyError) as ex:
                und = str(ex)
                break
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
        R.oblig('trace', None if und else ok, 'FieldTrace::retard', front.loc(f, f), f['n'], und or 'retard() does not fill every target sample with the trace read delta_t earlier')
    # assignment
    for f in overloads(P, FT, 'operator=', 'T'):
        S = api.Scene(P)
        S.assume(core.cmp_('==', T('ld', T('f', me, fields['n'])), T('ld', T('f', other, fields['n']))), core.not_(cmp_('==', me, other)))
        S.call(f, me, T('ld', T('*', other)))
        j = api.idx('j')
        where = front.loc(f, f)
        R.oblig('trace', not S.stopped(), 'FieldTrace::operator=|stop', where, f['n'], 'assignment between compatible traces throws')
        if not S.stopped():
            ev = [e for e in S.events if e.kind == 'store']
            for k in ('t0', 'dt'):
                R.same('trace', S.load(T('f', me, fields[k])), T('ld', T('f', other, fields[k])), 'FieldTrace::operator=|' + k, where, f['n'], 'assigned ' + k)
            v = S.load(T('f', me, arr))
            ok = v is T('ld', T('f', other, arr)) or any(e.recv.op == 'e' and e.recv.a[0] is T('f', me, arr) for e in ev) or None
            if v is T('ld', T('f', me, arr)) and not any(core.contains(e.recv, lambda t: t is me) for e in ev if e.recv.op != 'f'):
                ok = False
            R.oblig('trace', ok, 'FieldTrace::operator=|samples', where, f['n'], 'assignment does not copy the samples')
    # operations on incompatible traces are refused
    for name in ('operator+', 'operator-', 'operator+=', 'operator='):
        for f in core.find(P, FT + '::' + name):
            I = core.Interp(P)
            I.algebraic = {'Vector', 'ElMagField'}
            a = T('ld', T('*', other)) if not f['params'][0]['r'] else other
            I.run(f, args=[a], this=me)
            for k in (('n',) if name == 'operator=' else ('n', 't0', 'dt')):
                x, y = T('ld', T('f', me, fields[k])), T('ld', T('f', other, fields[k]))
                same = core.cmp_('==', x, y, k == 'n')
                bad = [e for e in I.events if e.kind == 'store' and e.recv.op != 'var' and not e.recv.op == 'tmp' and
                       core.contains(e.recv, lambda t: t.op == 'f' and t.a[1] == arr and t.a[0] is me)] or [e for e in I.events if e.kind == 'return']
                ok = any(e.kind == 'throw' for e in I.events)
                for e in bad:
                    if not core.entails(e.guards, same) and not (name == 'operator=' and not e.guards):
                        if name == 'operator=' and e.kind == 'return':
                            continue
                        ok = False
                R.oblig('refused', ok, 'FieldTrace::%s|%s' % (name, k), front.loc(f, f), f['n'],
                        '%s is carried out although the traces differ in %s' % (f['n'], {'n': 'length', 't0': 'start time', 'dt': 'time step'}[k]))
    for name in ('get_buffer', 'set_buffer'):
        for f in core.find(P, FT + '::' + name):
            I = core.Interp(P)
            I.run(f, this=me)
            same = cmp_('==', T('ld', T('f', me, fields['n'])), T('p', 1, f['params'][1]['n']))
            st = [e for e in I.events if e.kind == 'store' and e.recv.op != 'var']
            R.oblig('refused', all(core.entails(e.guards, same) for e in st) if st else None, 'FieldTrace::' + name, front.loc(f, f), f['n'],
                    '%s accesses a buffer of the wrong size' % f['n'])


def overloads(P, cls, name, sig):
    kind = {'d': r'double$', 'T': r'FieldTrace( &)?$', 'P': r'FieldTrace \*$', 'V': r'Vector( &)?$', 'I': r'(std::)?size_t$|unsigned long$|int$', 'F': r'ElMagField', 't': r'double$'}
    import re
    out = [f for f in core.find(P, cls + '::' + name) if len(f['params']) == len(sig) and
           all(re.search(kind[k], p['t'].replace('const ', '')) for k, p in zip(sig, f['params']))]
    return out


def acc(P, cls, getter):
    """member behind a trivial accessor"""
    S = api.Scene(P)
    w = T('p', 9, 'object')
    v = S.call(S.fn(cls + '::' + getter, 0), w)
    for x in core.subterms(v):
        if x.op == 'ld' and x.a[0].op == 'f' and x.a[0].a[0] is w:
            return x.a[0].a[1]
    raise front.AnalysisBroken('%s::%s is not an accessor' % (cls, getter))


def vecmember(P, cls, elem):
    for r in P.records.values():
        if core.base(r['n']) == cls:
            for f in r['fields']:
                if f['t'].replace(' ', '') in ('std::vector<%s>' % elem, elem + '*'):
                    return f['n']
    raise front.AnalysisBroken('no array of %s in %s' % (elem, cls))

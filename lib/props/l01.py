"""L01: fields superpose: containers pass every request to each of their members exactly once."""
import core, api, front, fp
from core import T, C, add, cmp_
from rep import Rep
from fp import V, F

CP = 'ChargedParticle'
# container, element class, count, accessor
CONT = {'Bunch': (CP, 'Bunch::getNOP', 'Bunch::getParticle'), 'Beam': ('Bunch', 'Beam::getNOB', 'Beam::getBunch'),
        'Lattice': ('GeneralField', 'Lattice::count', 'Lattice::at')}
# (container, method, number of parameters, method called on the members, arguments expected there as functions of the parameters)
SUMS = [('Bunch', 'RetardedField', 2, CP + '::RetardedField'), ('Beam', 'RetardedField', 2, 'Bunch::RetardedField'),
        ('Lattice', 'Field', 2, 'GeneralField::Field')]
EACH = [('Bunch', 'InitVay', 2, CP + '::InitVay', None), ('Bunch', 'StepVay', 1, CP + '::StepVay', None),
        ('Bunch', 'clearTrajectories', 0, CP + '::clearTrajectory', None), ('Bunch', 'preAllocate', 1, CP + '::preAllocate', None),
        ('Bunch', 'integrateFieldTrace', 2, CP + '::integrateFieldTrace', None),
        ('Beam', 'clearTrajectories', 0, 'Bunch::clearTrajectories', None), ('Beam', 'preAllocate', 1, 'Bunch::preAllocate', None),
        ('Beam', 'integrateFieldTrace', 2, 'Bunch::integrateFieldTrace', None),
        ('Beam', 'setupTracking', 1, 'Bunch::InitVay', 'dt'), ('Beam', 'doStep', 1, 'Bunch::StepVay', None)]


def members(S, kind, obj):
    """(number, address of member j, j)"""
    el, cnt, acc = CONT[kind]
    j = api.idx('j')
    save = S.state
    S.state = core.State(dict(save.st), save.guards)
    n = S.call(cnt, obj)
    S.assume(cmp_('<=', C(0), j), cmp_('<', j, n))
    m = S.call(acc, obj, j)
    S.state = save
    vs = S.vectors(kind)
    if len(vs) == 1 and S.load(T('sz', T('f', obj, vs[0]['n']))) is not n:     # the list has as many entries as are counted
        S.state.st[T('sz', T('f', obj, vs[0]['n']))] = n
    return n, m, j


def setup(P, kind, fn, opq, obj):
    S = api.Scene(P, opaque={opq, CONT[kind][2]} if False else {opq})
    args = [T('p', i, p['n']) for i, p in enumerate(fn['params'])]
    types = {obj: kind + ' *'}
    for a, p in zip(args, fn['params']):
        types[a] = p['t'].replace('const ', '').rstrip('& ')
    return S, args, types


def run(P, tier):
    R = Rep(P)
    N = 5 if tier == 'quick' else 40
    obj = T('p', 9, 'object')
    for kind, m, np, elm in SUMS:
        for f in core.find(P, kind + '::' + m):
            if f.get('body') is None or len(f['params']) != np:
                continue
            S, args, types = setup(P, kind, f, elm, obj)
            n, mem, j = members(S, kind, obj)
            r = S.call(f, obj, *args)
            one = T('call', elm, mem, tuple(args), None)
            ok, und = True, None
            cnt = None                                     # how many sources the member itself has: none of them, no field
            if el_counted(kind):
                save = S.state
                S.state = core.State(dict(save.st), save.guards)
                cnt = lambda x: S.call(CONT['Bunch'][1], x)
            cache = {}

            def fld(q, x, a):
                if cnt is not None:
                    if x not in cache:
                        cache[x] = cnt(x)
                    if q.val(cache[x]) <= 0:
                        return F(V(0, 0, 0), V(0, 0, 0))
                return field(q, elm, x, a)
            for seed in range(1, 3 * N + 1):
                pt = fp.Point(P, seed, types=types)
                pt.loops = S.loopinfo
                if seed > N:
                    pt.ichoices = (0, 1, 2)
                pt.fix(n, float(seed % 5))
                try:
                    want = F(V(0, 0, 0), V(0, 0, 0))
                    for k in range(seed % 5):
                        want = want + fld(pt.child({j: float(k)}), mem, args)
                    pt.calls[elm] = lambda q, t: fld(q, t.a[1], t.a[2])
                    if not fp.close(pt.val(r), want):
                        ok = False
                except (fp.Bad, TypeError, AttributeError, KeyError) as ex:
                    und = '%s: %s' % (type(ex).__name__, ex)
                    break
            R.oblig('superposition', None if und else ok, kind + '::' + m, front.loc(f, f), f['n'],
                    und or '%s::%s is not the sum of the fields of all members at the requested time and place' % (kind, m))
    for kind, m, np, elm, spec in EACH:
        for f in core.find(P, kind + '::' + m):
            if f.get('body') is None or len(f['params']) != np:
                continue
            S, args, types = setup(P, kind, f, elm, obj)
            want_args = args
            if spec == 'dt':
                want_args = [S.call('Beam::getTimeStep', obj)] + args
                meth = P_vay(P, S, obj)
                if meth is None:
                    continue
                S.assume(meth)
            elif kind == 'Beam' and m == 'doStep':
                meth = P_vay(P, S, obj)
                if meth is None:
                    continue
                S.assume(meth)
            n, mem, j = members(S, kind, obj)
            n0 = len(S.events)
            S.call(f, obj, *args)
            ev = S.events[n0:]
            bad, und = None, None
            nn = S.call(CONT['Bunch'][1], mem) if el_counted(kind) else None       # a member without parts may be left out
            ich = fp.mine(ev)
            for seed in range(1, 5 * N + 1):
                pt = fp.Point(P, seed, types=types)
                if seed > N:
                    pt.ichoices = ich
                pt.fix(n, float(seed % 5))
                got = []
                try:
                    for g in S.state.guards if S.state is not None else ():
                        pt.fix(g, 1.0)
                    want, none = [], set()
                    for k in range(seed % 5):
                        q = pt.child({j: float(k)})
                        want.append(q.key(mem))
                        if nn is not None and q.val(nn) <= 0:
                            none.add(str(q.key(mem)))
                    wa = [pt.argkey(a) for a in want_args]
                    fp.walk(pt, S, ev, lambda e: e.kind == 'call' and e.name == elm,
                            lambda q, e: got.append((q.key(e.recv), [q.argkey(a) for a in e.args])))
                    if sorted(k for k in map(str, want) if k not in none) != sorted(str(k) for k, a in got if str(k) not in none):
                        bad = bad or 'with %d members %d calls of %s, not one per member' % (seed % 5, len(got), elm)
                    elif any(a != wa for k, a in got):
                        bad = bad or 'arguments handed to %s differ from those requested' % elm
                except (fp.Bad, TypeError, AttributeError, KeyError) as ex:
                    und = '%s: %s' % (type(ex).__name__, ex)
                    break
            R.oblig('every member once', None if und else not bad, '%s::%s' % (kind, m), front.loc(f, f), f['n'], und or '%s::%s: %s' % (kind, m, bad))
    added(P, R)
    return R.result('Loops over particles, bunches and lattice elements are unrolled symbolically at points of several sizes; the multiset of '
                    'requests to the members, resp. the value of the sum, is compared with one request per member.', minimum=6)


def el_counted(kind):
    return CONT[kind][0] == 'Bunch'


def field(pt, name, mem, args):
    h = ('mf', name, pt.key(mem), tuple(pt.argkey(a) for a in args))
    return F(V(*[pt.rnd(h, i) for i in range(3)]), V(*[pt.rnd(h, i) for i in range(3, 6)]))


def P_vay(P, S, obj):
    """the condition under which a beam uses the Vay tracker: taken from setTrackingMethod's effect"""
    fs = core.find(P, 'Beam::setTrackingMethod')
    if not fs:
        return None
    e = T('const', 'TRACKING_VAY')
    for f in P.functions.values():
        pass
    s2 = api.Scene(P)
    a = T('p', 77, 'method')
    s2.call(fs[0], obj, a)
    st = [k for k, v in s2.state.st.items() if v is a and k.op == 'f' and k.a[0] is obj]
    if len(st) != 1:
        return None
    v = vay_value(P)
    return None if v is None else cmp_('==', T('ld', st[0]), C(v))


def vay_value(P):
    v = getattr(P, 'enums', {})
    if 'TRACKING_VAY' in v:
        return v['TRACKING_VAY']
    # value of the enumerator as used anywhere in the program
    def find(n):
        if isinstance(n, dict):
            r = n.get('ref')
            if isinstance(r, dict) and str(r.get('n', '')).endswith('TRACKING_VAY') and 'cv' in n:
                return n['cv']
            for x in n.values():
                y = find(x)
                if y is not None:
                    return y
        elif isinstance(n, list):
            for x in n:
                y = find(x)
                if y is not None:
                    return y
    for f in P.functions.values():
        if f.get('body') is not None:
            y = find(f['body'])
            if y is not None:
                return int(y)
    return None


def added(P, R):
    """Add()/addElement() put the object at the end of the list, and the count grows by one"""
    obj, x = T('p', 9, 'object'), T('p', 0, 'x')
    for kind, add_, (el, cnt, acc) in (('Bunch', 'Bunch::Add', CONT['Bunch']), ('Beam', 'Beam::Add', CONT['Beam']), ('Lattice', 'Lattice::addElement', CONT['Lattice'])):
        for f in core.find(P, add_):
            if f.get('body') is None or len(f['params']) != 1:
                continue
            S = api.Scene(P)
            n = S.call(cnt, obj)
            for v in S.vectors(kind):
                S.state.st[T('sz', T('f', obj, v['n']))] = n
            S.assume(cmp_('<=', C(0), n))
            S.call(f, obj, x)
            n1 = S.call(cnt, obj)
            last = S.call(acc, obj, n)
            R.oblig('added', n1 is add(n, C(1)) and last is x if decidable(n1, last) else None, add_, front.loc(f, f), f['n'],
                    '%s does not append exactly the given object (count %s, last %s)' % (add_, n1, last))


def decidable(*ts):
    from rep import decided
    return all(decided(t) for t in ts)

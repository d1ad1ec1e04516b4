"""S01: packed particle / bunch / beam state is restored unchanged and fits its announced size."""
import os, re
import core, api, front, fp
from core import T, C
from rep import Rep
from valued import VPoint
from props import c01
from props.c01 import CP, GET, TRAJ, ERR, W, RR, Sc, show

BUF = T('p', 60, 'buffer')


def isbuf(f):
    return f['params'] and re.match(r'(const )?double \*', f['params'][0]['t'])


def members(P, cls):
    return [f['n'] for r in P.records.values() if core.base(r['n']) == cls for f in r['fields']]


def bufsize(P):
    h = open(os.path.join(front.REPO, 'src/particle.h')).read() if hasattr(front, 'REPO') else ''
    m = re.search(r'#define\s+PARTICLE_SERIALIZE_BUFSIZE\s+\(?(\d+)', h) or re.search(r'PARTICLE_SERIALIZE_BUFSIZE\s*=\s*(\d+)', h)
    if not m:
        raise front.AnalysisBroken('PARTICLE_SERIALIZE_BUFSIZE not found')
    return int(m.group(1))


class BPoint(VPoint):
    """some calls return a pointer into the buffer: conv[name](point, call term) -> that pointer"""
    conv = {}

    def iscall(self, t):
        return t.op == 'call' and t.a[0] in self.conv

    def ptr(self, t):
        return self.iscall(t) or super().ptr(t)

    def subst(self, t):
        if self.iscall(t):
            return self.conv[t.a[0]](self, t)
        if t.op == 'poly':
            r, hit = C(0), False
            for m, c in core.poly(t).items():
                if len(m) == 1 and self.iscall(m[0]):
                    r, hit = core.add(r, self.conv[m[0].a[0]](self, m[0]), c), True
                else:
                    r = core.add(r, core.unpoly({m: c}))
            t = r if hit else t
        return super().subst(t)

    def key(self, t):
        return super().key(self.subst(t) if isinstance(t, core.Term) and self.iscall(t) else t)


class Pack:
    """effects at one point: stores into the buffer by offset"""
    def __init__(self, pt, buf=BUF):
        self.pt, self.got, self.unknown = pt, {}, set()
        pt.types[buf] = 'double *'
        self.base = ((str([pt.key(buf)]), 1),)

    def offset(self, k):
        if isinstance(k, tuple) and k and k[0] == '*' and isinstance(k[1], tuple) and k[1][0] == 'ptr' and k[1][1] == self.base:
            o = k[1][2] if len(k[1]) > 2 else 0.0
            o = o[1] if isinstance(o, tuple) else o
            return int(round(o))
        return None

    def visit(self, q, e):
        if e.kind == 'push':
            q.mem[q.key(T('e', e.recv, e.types))] = q.carry(e.args[0])
            fp.forget(q)
            return
        if e.kind == 'store':
            o = self.offset(q.key(e.recv))
            if o is not None:
                self.got[o] = q.val(e.args[0])
        if e.kind == 'store' and (q.ptr(e.args[0])):
            return
        k = str(q.key(e.recv))
        try:
            fp.apply(q, e)
            self.unknown.discard(k)
        except fp.Bad:
            if e.kind != 'store':
                raise
            self.unknown.add(k)             # a random number, unless it is overwritten

    def cursor(self, t):
        k = self.pt.key(t)
        if isinstance(k, tuple) and k[0] == 'ptr' and k[1] == self.base:
            return int(round(k[2])) if len(k) > 2 else 0
        if isinstance(k, tuple) and k[0] == 'p':
            return 0
        raise fp.Bad('cursor')


SEL = lambda e: e.kind in ('store', 'vcopy', 'push') and e.recv.op != 'var'


def run(P, tier):
    R = Rep(P)
    K = 3 if tier == 'quick' else 12
    for empty in (False, True):
        serialize(P, R, tier, empty)
        trajectory(P, R, tier, empty)
        probe(P, R, tier, empty)
    for f in (bunchstep, beamstep, coordinates, beamprobe, distribution, subdist):
        f(P, R, K)
    return R.result('Writer and reader of each message buffer are interpreted in one abstract store; their effect summaries are evaluated for particles '
                    'with 0 to 3 trajectory points, bunches of 0 to 3 particles and beams of 0 to 3 bunches: every value returned by the public '
                    'queries of the restored object has to be that of the original, the stores have to cover exactly the announced size, and cursors to be '
                    'the end of what was written.', minimum=8)


def exactly(pk, n):
    """offsets written are 0..n-1"""
    if sorted(pk.got) == list(range(n)):
        return None
    return '%d values written (offsets %s), %d announced' % (len(pk.got), rng(pk.got), n)


def rng(ks):
    ks = sorted(ks)
    return '%d..%d' % (ks[0], ks[-1]) if ks else 'none'


class Judge:
    def __init__(self, R, kind, fn, key, msg):
        self.R, self.kind, self.fn, self.key, self.msg = R, kind, fn, key, msg
        self.bad = self.und = None
        self.n = 0

    def fail(self, why):
        self.bad = self.bad or why

    def done(self):
        f = self.fn
        self.R.oblig(self.kind, False if self.bad else None if self.und or not self.n else True, self.key, front.loc(f, f), f['n'],
                     '%s: %s' % (self.msg, self.bad or self.und or 'as documented'))

    def compare(self, name, a, b):
        if not fp.close(a, b, 1e-9):
            self.fail('%s is %s instead of %s' % (name, show(a), show(b)))


def nm(k):
    return '%s(%d)' % k if isinstance(k, tuple) else k if '::' in k else k + '()'


def particle_pair(P, R, tier, empty, writer, size, reader, args, need, expect):
    sc = Sc(P, empty)
    S = sc.S
    f = S.fn(CP + '::' + writer, 1)
    rd = S.fn(CP + '::' + CP, len(args) + 1, isbuf)
    b = sc.state(W, need)
    n0 = len(S.events)
    sz = size(S)
    S.call(f, W, BUF)
    n1 = len(S.events)
    r = S.new(CP, BUF, *[a(sc) for a in args], pred=isbuf)
    ev = list(S.events)
    a = sc.state(r, need)
    # members that only depend on charge and mass (charge over mass)
    fixed = []
    if writer == 'serialize':
        ld = lambda o, m: S.load(T('f', o, m))
        q, m = [ld(W, CP + '::' + x) for x in ('Charge', 'Mass')]
        ref = S.new(CP, q, m, pred=lambda g: g['params'][0]['t'] == 'double')
        fixed = [(x, ld(r, x), ld(ref, x)) for x in members(P, CP) if x.endswith('::qm')]
    J = Judge(R, 'announced size', f, '%s|size|%d' % (writer, empty), '%s() against its announced size' % writer)
    J2 = Judge(R, 'restored value', rd, '%s|restored|%d' % (writer, empty), 'particle rebuilt from %s()' % writer)
    for n, pt in c01.points(P, sc, tier):
        try:
            v = c01.values(pt, b, n)
            want_size = int(round(pt.val(sz)))
            for q in (2,):
                pt.fix(T('p', 62, 'nPre'), float(pt.seed % 3 * 2))
            pk = Pack(pt)
            fp.walk(pt, S, ev[n0:n1], SEL, pk.visit)
            w = exactly(pk, want_size)
            if w:
                J.fail('with %d trajectory points: %s' % (n, w))
            J.n += 1
        except ERR as ex:
            J.und = '%s: %s' % (type(ex).__name__, ex)
            continue
        try:
            fp.walk(pt, S, ev[n1:], SEL, pk.visit)
            m, want = expect(pt, n, v)
            got = c01.values(pt, a, m)
            for k in want:
                J2.compare('with %d trajectory points %s' % (n, nm(k)), got[k], want[k])
            for x, t, u in fixed:
                J2.compare(x, pt.val(t), pt.val(u))
            J2.n += 1
        except ERR as ex:
            J2.und = '%s: %s' % (type(ex).__name__, ex)
    J.done()
    J2.done()


def serialize(P, R, tier, empty):
    n = bufsize(P)

    def expect(pt, k, v):
        out = {'getCharge': v['getCharge']}
        if k:
            out['getNP'] = 1.0
            for g, t in zip(GET, TRAJ):
                out[g] = out[t, 0] = v[t, k - 1]
        for x in v:
            if isinstance(x, str) and x.endswith(('::Mass', '::Charge')):
                out[x] = v[x]
        return 1, out
    need = [m for m in members(P, CP) if m.endswith(('::Charge', '::Mass'))]
    particle_pair(P, R, tier, empty, 'serialize', lambda S: C(n), None, [], need, expect)


def trajectory(P, R, tier, empty):
    need = c01.tracked(P)
    vec = {x['n'] for x in api.Scene(P).vectors(CP)}
    # members that the next step overwrites or that are state of the current point follow from the last point
    cur = set()
    S = api.Scene(P)
    for g in GET:
        t = S.call('%s::%s' % (CP, g), W)
        if t.op == 'ld' and t.a[0].op == 'f':
            cur.add(t.a[0].a[1])
    need = [m for m in need if m not in cur]
    if empty:
        need = [m for m in need if True]

    def expect(pt, k, v):
        out = {x: v[x] for x in v if x not in GET}
        if k:
            for g, t in zip(GET, TRAJ):
                out[g] = v[t, k - 1]
        return k, out
    particle_pair(P, R, tier, empty, 'serializeTraj', lambda S: S.call(CP + '::TrajBufSize', W), None,
                  [lambda sc: sc.np, lambda sc: T('p', 62, 'nPre')], need, expect)


def probe(P, R, tier, empty):
    sc = Sc(P, empty)
    S = sc.S
    f = S.fn(CP + '::bufferProbe', 1)
    b = sc.state(W)
    sz = S.call(CP + '::getProbeBufferSize', W)
    n0 = len(S.events)
    ret = S.call(f, W, BUF)
    ev = S.events[n0:]
    J = Judge(R, 'probe', f, 'bufferProbe|%d' % empty, 'bufferProbe()')
    for n, pt in c01.points(P, sc, tier):
        try:
            v = c01.values(pt, b, n)
            k = int(round(pt.val(sz)))
            pk = Pack(pt)
            fp.walk(pt, S, ev, SEL, pk.visit)
            w = exactly(pk, k)
            if w:
                J.fail(w)
            elif pk.cursor(ret) != k:
                J.fail('the cursor returned is %d behind the buffer, announced are %d values' % (pk.cursor(ret), k))
            elif k >= 10:
                want = [v['getTime']] + [x for g in GET[1:] for x in v[g].c]
                for i, x in enumerate(want):
                    J.compare('value %d' % i, pk.got[i], x)
            J.n += 1
        except ERR as ex:
            J.und = '%s: %s' % (type(ex).__name__, ex)
    J.done()


# ---------------------------------------------------------------- bunches and beams
class Group:
    """a bunch with a chosen number of particles"""
    def __init__(self, P, S, obj):
        self.S, self.obj = S, obj
        self.nop = S.call('Bunch::getNOP', obj)
        for v in S.vectors('Bunch'):
            S.state.st[T('sz', T('f', obj, v['n']))] = self.nop
        S.assume(core.cmp_('<=', C(0), self.nop))

    def particles(self, n=3, after=False):
        S = self.S
        out = []
        for i in range(n):
            st, ev = S.state.copy(), len(S.events)
            S.state = core.State(dict(st.st), st.guards)
            S.assume(core.cmp_('<', C(i), self.nop))
            p = S.call('Bunch::getParticle', self.obj, C(i))
            q = {g: S.call('%s::%s' % (CP, g), p) for g in GET + ['getNP']}
            out.append((p, q))
            S.state = st
            del S.events[ev:]
        return out


def bunchstep(P, R, K):
    S = api.Scene(P)
    b1, b2 = T('p', 8, 'bunch'), T('p', 7, 'copy')
    g1, g2 = Group(P, S, b1), Group(P, S, b2)
    f, rd = S.fn('Bunch::bufferStep', 1), S.fn('Bunch::setStepFromBuffer', 1)
    p1 = g1.particles()
    p2 = g2.particles()
    n0 = len(S.events)
    ret = S.call(f, b1, BUF)
    n1 = len(S.events)
    ret2 = S.call(rd, b2, BUF)
    ev = list(S.events)
    a2 = g2.particles()
    J = Judge(R, 'bunch step', f, 'Bunch::bufferStep', 'Bunch::bufferStep()')
    J2 = Judge(R, 'bunch step', rd, 'Bunch::setStepFromBuffer', 'Bunch::setStepFromBuffer()')
    vec = S.vectors(CP)
    for n in range(4):
        for seed in range(K):
            pt = VPoint(P, 10 * seed + n + 1, rng=(-1.3, 1.7))
            pt.types.update({T('*', b1): 'Bunch', T('*', b2): 'Bunch', b1: 'Bunch *', b2: 'Bunch *'})
            pt.loops = S.loopinfo
            pt.fix(g1.nop, float(n))
            pt.fix(g2.nop, float(n))
            pk = Pack(pt)
            try:
                v = [{g: pt.val(t) for g, t in q.items()} for p, q in p1[:n]]
                before = [pt.val(q['getNP']) for p, q in p2[:n]]
                fp.walk(pt, S, ev[n0:n1], SEL, pk.visit)
                if sorted(pk.got) != list(range(10 * n)):
                    J.fail('%d values (offsets %s) for %d particles instead of 10 each' % (len(pk.got), rng(pk.got), n))
                if pk.cursor(ret) != len(pk.got):
                    J.fail('the cursor returned after %d values is at %d' % (len(pk.got), pk.cursor(ret)))
                J.n += 1
            except ERR as ex:
                J.und = '%s: %s' % (type(ex).__name__, ex)
                continue
            try:
                pushed = {}

                def see(q, e):
                    if e.kind == 'push':
                        pushed.setdefault(str(q.key(e.recv)), []).append(q.carry(e.args[0]))
                        return
                    pk.visit(q, e)
                fp.walk(pt, S, ev[n1:], SEL, see)
                if pk.cursor(ret2) != 10 * n:
                    J2.fail('the cursor returned after %d particles is at %d' % (n, pk.cursor(ret2)))
                for i in range(n):
                    p, q = a2[i]
                    for g in GET:
                        J2.compare('with %d particles %s() of particle %d' % (n, g, i), pt.val(q[g]), v[i][g])
                    J2.compare('number of trajectory points of particle %d' % i, pt.val(q['getNP']), before[i] + 1)
                    mine = [pushed.get(str(pt.key(T('f', p, x['n']))), []) for x in vec]
                    for x, l in zip(vec, mine):
                        if len(l) != 1:
                            J2.fail('%d values stored in %s of particle %d of %d' % (len(l), x['n'], i, n))
                        elif not any(fp.close(l[0], v[i][g], 1e-9) for g in GET if len(fp.flat(l[0])) == len(fp.flat(v[i][g]))):
                            J2.fail('the trajectory point stored (%s) is not the one received (particle %d of %d)' % (x['n'], i, n))
                J2.n += 1
            except ERR as ex:
                J2.und = '%s: %s' % (type(ex).__name__, ex)
    J.done()
    J2.done()


class Beams:
    def __init__(self, P, S, bm):
        self.S, self.bm = S, bm
        self.nob = S.call('Beam::getNOB', bm)
        for v in S.vectors('Beam'):
            S.state.st[T('sz', T('f', bm, v['n']))] = self.nob
        S.assume(core.cmp_('<=', C(0), self.nob))
        self.bunch, self.nop = [], []
        for i in range(3):
            st, ev = S.state.copy(), len(S.events)
            S.state = core.State(dict(st.st), st.guards)
            S.assume(core.cmp_('<', C(i), self.nob))
            b = S.call('Beam::getBunch', bm, C(i))
            self.bunch.append(b)
            self.nop.append(S.call('Bunch::getNOP', b))
            S.state = st
            del S.events[ev:]

    def point(self, P, seed, sizes):
        pt = BPoint(P, seed, rng=(-1.3, 1.7))
        pt.types.update({self.bm: 'Beam *', T('*', self.bm): 'Beam'})
        pt.loops = self.S.loopinfo
        pt.fix(self.nob, float(len(sizes)))
        keys = {}
        for t, n in zip(self.nop, sizes):
            pt.mem[pt.key(t.a[0])] = float(n)
            pt.mem[pt.key(T('sz', T('f', t.a[0].a[0], self.S.vectors('Bunch')[0]['n'])))] = float(n)
        return pt


CASES = [(), (2,), (1, 3), (3, 0, 2), (0, 2), (2, 2, 1)]


def beamstep(P, R, K):
    """bunches are packed one behind the other, exactly in the announced size"""
    for name in ('bufferStep', 'setStepFromBuffer'):
        sub, bm = 'Bunch::' + name, T('p', 6, 'beam')
        S = api.Scene(P, opaque={sub})
        f = S.fn('Beam::' + name, 1)
        B = Beams(P, S, bm)
        if any(t.op != 'ld' for t in B.nop):
            R.oblig('beam step', None, 'Beam::' + name, front.loc(f, f), f['n'], 'size of a bunch is not a member')
            continue
        sz = S.call('Beam::getStepBufferSize', bm)
        count = [S.call('Beam::getNOTS', bm)] if core.find(P, 'Beam::getNOTS') else []
        n0 = len(S.events)
        S.call(f, bm, BUF)
        if count and name == 'setStepFromBuffer':
            count.append(S.call('Beam::getNOTS', bm))
        ev = list(S.events)[n0:]
        J = Judge(R, 'beam step', f, 'Beam::' + name, 'Beam::%s()' % name)
        for i, sizes in enumerate(CASES):
            pt = B.point(P, i + 1, sizes)
            pk = Pack(pt)
            got = []
            try:
                if int(round(pt.val(sz))) != 10 * sum(sizes):
                    J.fail('%d values announced for bunches of %s particles' % (pt.val(sz), list(sizes)))
                keys = [str(pt.key(b)) for b in B.bunch]
                pt.conv = {sub: lambda q, t: core.add(BUF, C(Pack(q).cursor(t.a[2][0]) + 10 * sizes[keys.index(str(q.key(t.a[1])))]))}
                fp.walk(pt, S, ev, lambda e: e.kind == 'call' and core.base(e.name or '') == sub,
                        lambda q, e: got.append((str(q.key(e.recv)), Pack(q).cursor(e.args[0]))))
                want, o = [], 0
                for j, n in enumerate(sizes):
                    want.append((keys[j], o))
                    o += 10 * n
                nonempty = lambda L: [x for x in L if sizes[keys.index(x[0])]]
                if len(count) == 2 and pt.val(count[1]) != pt.val(count[0]) + 1:
                    J.fail('the step received is not counted: getNOTS() goes from %d to %d' % (pt.val(count[0]), pt.val(count[1])))
                if nonempty(got) != nonempty(want):
                    J.fail('bunches of %s particles are handed the offsets %s' % (list(sizes), [o for k, o in got]))
                J.n += 1
            except ERR as ex:
                J.und = '%s: %s' % (type(ex).__name__, ex)
        J.done()


def coordinates(P, R, K):
    S = api.Scene(P)
    b1, size = T('p', 8, 'bunch'), T('p', 61, 'size')
    g = Group(P, S, b1)
    f = S.fn('Bunch::bufferCoordinates', 2)
    p = g.particles()
    n0 = len(S.events)
    ret = S.call(f, b1, BUF, size)
    ev = S.events[n0:]
    J = Judge(R, 'coordinates', f, 'Bunch::bufferCoordinates', 'Bunch::bufferCoordinates()')
    for n in range(4):
        for cap in range(5):
            pt = VPoint(P, 10 * cap + n + 1, rng=(-1.3, 1.7))
            pt.types.update({b1: 'Bunch *', size: 'int', T('*', b1): 'Bunch'})
            pt.loops = S.loopinfo
            pt.fix(g.nop, float(n))
            pt.fix(size, float(cap))
            pk = Pack(pt)
            try:
                v = [{k: pt.val(t) for k, t in q.items()} for _, q in p[:n]]
                fp.walk(pt, S, ev, SEL, pk.visit)
                m = min(n, cap)
                if sorted(pk.got) != list(range(6 * m)):
                    J.fail('%d values written for %d particles with room for %d' % (len(pk.got), n, cap))
                elif pk.cursor(ret) != 6 * m:
                    J.fail('the cursor returned after %d particles is at %d' % (m, pk.cursor(ret)))
                else:
                    for i in range(m):
                        for c in range(6):
                            J.compare('coordinate %d of particle %d' % (c, i), pk.got[6 * i + c], (v[i]['getPosition'].c + v[i]['getMomentum'].c)[c])
                J.n += 1
            except ERR as ex:
                J.und = '%s: %s' % (type(ex).__name__, ex)
    J.done()


def beamprobe(P, R, K):
    """probes: the i-th particles of all bunches in sequence, then the next ones, until the requested number is reached"""
    sub = CP + '::bufferProbe'
    bm, num = T('p', 6, 'beam'), T('p', 61, 'number')
    f = api.Scene(P).fn('Beam::bufferProbe', 2)
    S = api.Scene(P, opaque={sub})
    B = Beams(P, S, bm)
    psz = S.call(CP + '::getProbeBufferSize', W)
    gs = S.fn('Beam::getProbeBufferSize', 1)
    sz = S.call(gs, bm, num)
    if any(t.op != 'ld' for t in B.nop):
        return
    parts = []
    for j, b in enumerate(B.bunch):
        row = []
        for i in range(3):
            st, e0 = S.state.copy(), len(S.events)
            S.state = core.State(dict(st.st), st.guards)
            S.assume(core.cmp_('<', C(i), B.nop[j]))
            row.append(S.call('Bunch::getParticle', b, C(i)))
            S.state = st
            del S.events[e0:]
        parts.append(row)
    n0 = len(S.events)
    S.call(f, bm, BUF, num)
    ev = list(S.events)[n0:]
    J = Judge(R, 'beam probe', f, 'Beam::bufferProbe', 'Beam::bufferProbe()')
    for i, sizes in enumerate(CASES):
        for n in range(sum(sizes) + 1):
            pt = B.point(P, 10 * i + n + 1, sizes)
            pt.types[num] = 'unsigned int'
            pt.fix(num, float(n))
            pk = Pack(pt)
            got = []
            try:
                k = int(round(pt.val(psz)))
                if int(round(pt.val(sz))) != n * k:
                    J.fail('%d values announced for %d probes of %d values' % (pt.val(sz), n, k))

                pt.conv = {sub: lambda q, t: core.add(BUF, C(Pack(q).cursor(t.a[2][0]) + k))}
                fp.walk(pt, S, ev, lambda e: e.kind == 'call' and core.base(e.name or '') == sub,
                        lambda q, e: got.append((str(q.key(e.recv)), Pack(q).cursor(e.args[0]))))
                order = [parts[j][r] for r in range(3) for j in range(len(sizes)) if r < sizes[j]][:n]
                want = [(str(pt.key(t)), r * k) for r, t in enumerate(order)]
                if got != want:
                    J.fail('%d probes of bunches of %s particles are not the first particles of all bunches in sequence, one behind the other' % (n, list(sizes)))
                J.n += 1
            except ERR as ex:
                J.und = '%s: %s' % (type(ex).__name__, ex)
    J.done()


# ---------------------------------------------------------------- distributions
def table(P, S, d, n=4, k=7):
    """coordinates as terms"""
    out = {}
    for i in range(n):
        for c in range(k):
            st, ev = S.state.copy(), len(S.events)
            out[i, c] = S.call('Distribution::getCoordinate', d, C(i), C(c))
            S.state = st
            del S.events[ev:]
    return out


def distribution(P, R, K):
    if not core.find(P, 'Distribution::bufferData'):
        return
    S = api.Scene(P)
    d1, d2, size = T('p', 8, 'dist'), T('p', 7, 'copy'), T('p', 61, 'bufsize')
    q = [S.call('Distribution::' + g, d) for d in (d1, d2) for g in ('getDIM', 'getNOP')]
    f, rd = S.fn('Distribution::bufferData', 2), S.fn('Distribution::fromBuffer', 2)
    t1 = table(P, S, d1)
    n0 = len(S.events)
    S.call(f, d1, BUF, size)
    n1 = len(S.events)
    if not S.stopped():
        S.call(rd, d2, BUF, size)
    ev = list(S.events)
    t2 = table(P, S, d2) if not S.stopped() else {}
    J = Judge(R, 'distribution', f, 'Distribution::bufferData', 'Distribution::bufferData()')
    J2 = Judge(R, 'distribution', rd, 'Distribution::fromBuffer', 'Distribution::fromBuffer()')
    for dim in (1, 2, 3, 7):
        for nop in range(0, 5):
            for off in (0, 1, -1):
                pt = VPoint(P, 100 * dim + 10 * nop + off + 2, rng=(-1.3, 1.7))
                pt.types.update({d1: 'Distribution *', d2: 'Distribution *', size: 'int', T('*', d1): 'Distribution', T('*', d2): 'Distribution'})
                pt.loops = S.loopinfo
                for t, v in zip(q, (dim, nop) * 2):
                    pt.fix(t, float(v))
                pt.fix(size, float(dim * nop + off))
                pk = Pack(pt)
                thrown = []
                SL = lambda e: SEL(e) or e.kind == 'throw'

                def see(p, e):
                    if e.kind == 'throw':
                        thrown.append(1)
                    else:
                        pk.visit(p, e)
                try:
                    v = {k: pt.val(t) for k, t in t1.items() if k[0] < nop and k[1] < dim}
                    fp.walk(pt, S, ev[n0:n1], SL, see)
                    if bool(thrown) != bool(off):
                        J.fail('a buffer of %d values for %d x %d coordinates is %s' % (dim * nop + off, nop, dim, 'accepted' if off else 'refused'))
                    if not off and sorted(pk.got) != list(range(dim * nop)):
                        J.fail('%d values written for %d x %d coordinates' % (len(pk.got), nop, dim))
                    J.n += 1
                except ERR as ex:
                    J.und = '%s: %s' % (type(ex).__name__, ex)
                    continue
                if off:
                    continue
                try:
                    fp.walk(pt, S, ev[n1:], SL, see)
                    for k in v:
                        J2.compare('coordinate %d of row %d of %d x %d' % (k[1], k[0], nop, dim), pt.val(t2[k]), v[k])
                    J2.n += 1
                except ERR as ex:
                    J2.und = '%s: %s' % (type(ex).__name__, ex)
    J.done()
    J2.done()


def subdist(P, R, K):
    fs = [f for f in core.find(P, 'Distribution::subDist') if f.get('body') is not None]
    if not fs:
        return
    f = fs[0]
    S = api.Scene(P)
    d1, idx, num = T('p', 8, 'dist'), T('p', 61, 'index'), T('p', 62, 'number')
    q = [S.call('Distribution::' + g, d1) for g in ('getDIM', 'getNOP')]
    t1 = table(P, S, d1)
    n0 = len(S.events)
    r = S.call(f, d1, idx, num)
    ev = list(S.events)[n0:]
    J = Judge(R, 'distribution', f, 'Distribution::subDist', 'Distribution::subDist()')
    rq = [S.call('Distribution::' + g, r) for g in ('getDIM', 'getNOP')]
    t2 = table(P, S, r)
    for dim in (1, 2, 3, 7):
        for nop in range(1, 5):
            for i0 in range(nop):
                n = 1 + (i0 + dim) % (nop - i0)
                pt = VPoint(P, 100 * dim + 10 * nop + i0 + 2, rng=(-1.3, 1.7))
                pt.types.update({d1: 'Distribution *', idx: 'int', num: 'int', T('*', d1): 'Distribution'})
                pt.loops = S.loopinfo
                for t, v in zip(q + [idx, num], (dim, nop, i0, n)):
                    pt.fix(t, float(v))
                pk = Pack(pt)
                try:
                    v = {k: pt.val(t) for k, t in t1.items() if k[0] < nop and k[1] < dim}
                    fp.walk(pt, S, ev, SEL, pk.visit)
                    if (pt.val(rq[0]), pt.val(rq[1])) != (dim, n):
                        J.fail('a part of %d rows of %d has size %d x %d' % (n, dim, pt.val(rq[1]), pt.val(rq[0])))
                    if pk.unknown:
                        raise fp.Bad('values not known')
                    for i in range(n):
                        for c in range(dim):
                            J.compare('coordinate %d of row %d (rows %d..%d of %d)' % (c, i, i0, i0 + n - 1, nop), pt.val(t2[i, c]), v[i0 + i, c])
                    J.n += 1
                except ERR as ex:
                    J.und = '%s: %s' % (type(ex).__name__, ex)
    J.done()

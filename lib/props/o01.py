"""O01: iterations that run in parallel do not interfere."""
import re
import core, api, front
from core import T, C, base, poly, contains, kids
from rep import Rep
from props import v09

SERIAL = ('single', 'master', 'masked', 'critical', 'atomic', 'ordered')


def directives(n, out):
    if isinstance(n, dict):
        if n.get('k') == 'OMP':
            out.append(n)
        for v in n.values():
            directives(v, out)
    elif isinstance(n, list):
        for v in n:
            directives(v, out)
    return out


def declared(n, out):
    """ids of the variables declared in a statement"""
    if isinstance(n, dict):
        if n.get('k') == 'Var' and 'id' in n and not n.get('static'):
            out.add(n['id'])
        for v in n.values():
            declared(v, out)
    elif isinstance(n, list):
        for v in n:
            declared(v, out)
    return out


class Watch:
    """every write is an event, also those to local variables"""
    slocals = ()

    def store(self, loc, v, node, quiet=False):
        super().store(loc, v, node, quiet=quiet)
        if quiet and loc.op != 'ite' and self.state is not None:
            self.emit('lstore', node, recv=loc, args=(v,))

    def lv(self, n):
        loc = super().lv(n)
        if n['k'] == 'DeclRefExpr' and n['ref'].get('d') == 'slocal':
            self.slocals = set(self.slocals) | {loc}
        return loc

    def declare(self, d):
        if d.get('static') and not d.get('r'):
            self.slocals = set(self.slocals) | {self.var(self.frames[-1], d)}
        super().declare(d)


class Scene(Watch, api.Scene):
    pass


class MainScene(Watch, v09.Scene):
    def m_MeshedScreen_set_trace(self, n, L, args):
        vs = self.values(args)
        if vs is None:
            return T('void')
        self.emit('element', n, recv=L, args=(vs[0],))
        super().store(L, T('op', 'q:MeshedScreen::set_trace', self.load(L), *vs), n, quiet=True) if not self.ompctx else \
            self.quietly(L, T('op', 'q:MeshedScreen::set_trace', self.load(L), *vs), n)
        return T('void')

    def quietly(self, L, v, n):
        m, self.muted = self.muted, True
        self.store(L, v, n, quiet=True)
        self.muted = m


class Where:
    """root of a location and the indices on the way to it"""
    def __init__(self, S, loc):
        self.S, self.index = S, []
        self.root = self.loc(loc)

    def loc(self, l):
        if l.op in ('f', 'e', 'sz'):
            if l.op == 'e':
                self.index.append(l.a[1])
                return self.loc(l.a[0])
            return self.ptr(l.a[0]) if l.op == 'f' else self.loc(l.a[0])
        if l.op == '*':
            return self.ptr(l.a[0])
        return l

    def ptr(self, p):
        if p.op == 'addr':
            return self.loc(p.a[0])
        if p.op in ('ld', 'ldd', 'ldv'):
            return self.loc(p.a[0])
        if p.op in ('p', 'new', 'this', 'call', 'op'):
            if p.op == 'op' and p.a[0] in ('data', 'begin', 'cbegin'):
                return self.ptr(p.a[1])
            return p
        r = self.S.linear(p)
        if r is None or r[0] is p:
            return p
        self.index.append(r[1])
        return self.loc(r[0]) if r[2] else self.ptr(r[0])


def distinct(index, k):
    """the location differs for different values of k: some index is affine in k alone among the parallel indices"""
    for t in index:
        d = poly(t)
        if any(m == (k,) for m in d) and not any(k in m and m != (k,) for m in d):
            if not any(contains(x, lambda y: y is k) for m in d for x in m if x is not k):
                return True
    return False


class Purity:
    """what a function writes: nothing shared but what its pointer arguments refer to"""
    def __init__(self, P, R):
        self.P, self.R, self.memo = P, R, {}

    def of(self, u):
        if u in self.memo:
            return self.memo[u]
        self.memo[u] = ([], set())
        fn = self.P.functions.get(u)
        if fn is None or fn.get('body') is None:
            return self.memo[u]
        S = Scene(self.P)
        a = [T('p', 100 + i, p['n']) for i, p in enumerate(fn['params'])]
        bad, args = [], set()
        try:
            S.call(fn, T('p', 99, 'this'), *a)
        except (front.AnalysisBroken, RecursionError):
            self.memo[u] = (None, set())
            return self.memo[u]
        for e in S.events:
            if e.kind in ('store', 'lstore', 'push', 'delete', 'element') and e.recv is not None:
                r = Where(S, e.recv).root
                if r.op in ('var', 'tmp') and r not in S.slocals or r.op == 'new':
                    continue
                if r.op == 'p' and r.a[0] >= 100:
                    args.add(r.a[0] - 100)
                elif r.op in ('var', 'tmp', 'g') or r.op == 'p':
                    bad.append((e, 'a static variable' if r.op == 'var' else 'a global variable' if r.op == 'g' else 'the object it is called on'))
        n = {}
        for e in S.events:
            if e.kind == 'call' and e.callee and e.recv is not None and Where(S, T('*', e.recv)).root.op == 'p':
                for t in self.P.overriders.get(e.callee, {e.callee}):
                    b, _ = self.of(t)
                    bad += b or []
        self.memo[u] = (bad, args)
        return self.memo[u]


def single_thread(S, e):
    """only one thread gets here: omp_get_thread_num() == constant"""
    for g in e.guards:
        if g.op == 'eq' and contains(g, lambda t: t.op == 'call' and t.a[0] == 'omp_get_thread_num') and \
                not contains(g, lambda t: t.op in ('lv', 'iter')):
            return True
    return False


def region(P, R, S, home, pur, d, evs):
    """one parallel region"""
    private = declared(d, set())
    for c in d['cl'] + [c for x in directives(d.get('c'), []) for c in x['cl']]:
        if c['c'] in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear'):
            private |= {v.get('id') for v in c['vars']}
    born = {e.res.a[0] for e in evs if e.kind == 'alloc' and e.res is not None}
    where = home['n']
    frame = {}
    name = '%s (%s)' % (home['n'], home['f'].split('/')[-1])
    written = []
    seen = set()

    def team(e):
        """iteration variables of the work shared by the threads"""
        out = []
        o = [x for x in e.omp if x is not d or 'for' in x['dk']]
        for x in o:
            if 'for' not in x['dk'].split() and not x['dk'].startswith('for'):
                continue
            n = next((c['n'] for c in x['cl'] if c['c'] == 'collapse' and 'n' in c), 1)
            nodes = [l for l in e.loops if l.node is not None]
            i = next((i for i, l in enumerate(nodes) if l.node is x['c'][0] or inside(l.node, x['c'][0])), None)
            if i is None:
                return None
            out += nodes[i:i + n]
        return out

    def inside(n, s):
        return n is s or any(inside(n, c) for c in (s.get('c') or []) if isinstance(c, dict)) if s['k'] in ('CompoundStmt', 'CapturedStmt') else n is s

    def check(e, loc, msg):
        if any(x['dk'].split()[0] in SERIAL for x in e.omp) or single_thread(S, e):
            return
        w = Where(S, loc)
        r = w.root
        if r.op in ('var', 'tmp'):
            if r not in S.slocals and (r.op == 'tmp' or r.a[0] != 2 or r.a[2] in private):
                return
        elif r.op == 'new' and r.a[0] in born:
            return
        elif r.op not in ('p', 'g', 'new', 'this'):
            R.oblig('write', None, name, e.where, where, 'the object that is written is not known: %s' % str(loc)[:80])
            return
        ws = team(e)
        if ws is None:
            R.oblig('write', None, name, e.where, where, 'the parallel loop is not recognised')
            return
        key = (e.where, msg)
        if not ws:
            ok, why = False, 'by every thread of the team'
        else:
            miss = [l for l in ws if not distinct(w.index, l.iter)]
            ok = not miss
            if miss and any(contains(t, lambda y: y in [l.iter for l in ws]) for t in w.index):
                combined = [t for t in w.index if contains(t, lambda y: y in [l.iter for l in ws])]
                if any(not linear_in(t, [l.iter for l in ws]) for t in combined):
                    ok = None
            why = 'by different iterations of the parallel loop'
        written.append((e, loc, ws))
        if key in seen and ok:
            return
        seen.add(key)
        R.oblig('write', ok, name, e.where, e.fn['n'], '%s: %s %s is written %s without synchronisation' % (name, msg, name_of(loc), why))

    for e in evs:
        if e.kind in ('store', 'lstore', 'push', 'delete'):
            check(e, e.recv, 'the shared object')
        elif e.kind == 'element':
            check(e, T('e', e.recv, e.args[0]), 'the element')
        elif e.kind == 'call' and e.callee:
            for t in sorted(P.overriders.get(e.callee, {e.callee})):
                bad, args = pur.of(t)
                f2 = P.functions.get(t)
                if bad is None or f2 is None or f2.get('body') is None:
                    continue
                own = e.recv is not None and not shared(S, e, d, e.recv, private, born)
                R.oblig('callee', True if not bad or own else False, '%s %s' % (name, f2['n']), bad[0][0].where if bad else front.loc(f2, f2), f2['n'],
                        '%s: %s, which runs in parallel, changes %s' % (name, f2['n'], bad[0][1] if bad else ''))
                for i in args:
                    if i < len(e.args):
                        check(e, T('*', e.args[i]), 'the object given to %s' % f2['n'])
    # elements written by other iterations are not read
    shapes = {}
    for e, loc, ws in written:
        for l in ws:
            w = Where(S, loc)
            for t in w.index:
                if (l.iter,) in poly(t):
                    shapes.setdefault(l, []).append((t, e))
    pats = []
    for e, loc, ws in written:
        if ws and loc.op in ('*', 'e', 'f'):
            pats.append((pattern(loc, ws), loc, ws, e))
    done = set()
    for e in evs:
        for a in e.args:
            for l in loads(a):
                for p, loc, ws, we in pats:
                    if l is loc or (l, p) in done:
                        continue
                    done.add((l, p))
                    k = clash(l, p, ws)
                    if k:
                        R.oblig('read', False, name, e.where, e.fn['n'], '%s: %s is read while another iteration may write it (%s)' % (name, name_of(l), we.where))
    return len(written)


def linear_in(t, its):
    d = poly(t)
    return all(m == () or len(m) == 1 and not any(contains(x, lambda y: y in its) for x in m if x not in its) for m in d)


def shared(S, e, d, recv, private, born):
    r = Where(S, T('*', recv)).root
    if r.op in ('var', 'tmp'):
        return r in S.slocals or not (r.op == 'tmp' or r.a[0] != 2 or r.a[2] in private)
    return not (r.op == 'new' and r.a[0] in born)


def name_of(loc):
    s = str(loc)
    return s if len(s) < 80 else s[:80] + '...'


def loads(t, out=None):
    out = set() if out is None else out
    st, seen = [t], set()
    while st:
        x = st.pop()
        if not isinstance(x, core.Term) or x in seen:
            continue
        seen.add(x)
        if x.op in ('ld', 'ldd', 'ldv') and x.a[0].op in ('*', 'e', 'f'):
            out.add(x.a[0])
        st.extend(kids(x))
    return out


class Hole:
    pass


def pattern(loc, ws):
    """the location with its index of the parallel loop taken out: list of (kind, ...) levels, or None"""
    its = [l.iter for l in ws]

    def go(t):
        if not isinstance(t, core.Term):
            return t
        if not contains(t, lambda y: y in its):
            return t
        d = poly(t)
        if len(d) > 1 or t in its:
            own = [m for m in d if len(m) == 1 and m[0] in its]
            if own and linear_in(t, its):
                # pointers stay, numbers become the hole
                rest = tuple(sorted((m[0] for m in d if len(m) == 1 and m[0].op in ('addr', 'ld', 'ldv', 'ldd', 'p', 'new', 'op')), key=str))
                return ('#', tuple(go(x) for x in rest))
            return ('+',) + tuple(sorted((str(go(x)) for m in d for x in m)))
        return (t.op,) + tuple(go(x) for x in t.a)
    return go(loc)


def clash(l, p, ws):
    """a location of the same shape as the written one, of another index"""
    holes = []

    def go(x, q):
        if isinstance(q, core.Term) or not isinstance(q, tuple):
            return x is q or x == q
        if not isinstance(x, core.Term):
            return False
        if q[0] == '#':
            d = poly(x)
            rest = tuple(sorted((m[0] for m in d if len(m) == 1 and m[0].op in ('addr', 'ld', 'ldv', 'ldd', 'p', 'new', 'op')), key=str))
            if len(rest) != len(q[1]) or not all(go(a, b) for a, b in zip(rest, q[1])):
                return False
            holes.append(x)
            return True
        if q[0] == '+' or x.op != q[0] or len(x.a) != len(q) - 1:
            return False
        return all(go(a, b) for a, b in zip(x.a, q[1:]))
    if not go(l, p) or not holes:
        return False
    its = [w.iter for w in ws]
    # the same element only: every hole is base + iterations as written
    return any(contains(h, lambda y: y in its) and any(c != 1 or len(m) != 1 or (m[0] not in its and m[0].op not in ('addr', 'ld', 'ldv', 'ldd', 'p', 'new', 'op'))
                                                         for m, c in poly(h).items()) for h in holes)


def run(P, tier):
    R = Rep(P)
    pur = Purity(P, R)
    n = regions = 0
    for f in sorted(P.functions.values(), key=lambda f: (f['f'], f['l'], f['n'])):
        if f.get('body') is None:
            continue
        ds = directives(f['body'], [])
        if not ds:
            continue
        if f['n'] == 'main':
            home = f['f']
            S = MainScene(P, v09.CHANGE, opaque=lambda fn: fn['f'] != home and base((fn.get('n') or '').split('::')[0]) in
                          ('MeshedScreen', 'FieldTrace', 'Beam', 'Lattice', 'Bunch'))
        else:
            S = Scene(P, opaque=lambda fn: base((fn.get('n') or '').split('::')[0]) == 'ChargedParticle')
        S.call(f, T('p', 99, 'this'), *[T('p', 100 + i, p['n']) for i, p in enumerate(f['params'])])
        for d in ds:
            if 'parallel' not in d['dk']:
                continue
            evs = [e for e in S.events if any(x is d for x in e.omp)]
            regions += 1
            n += region(P, R, S, f, pur, d, evs)
    return R.result('Every parallel region is interpreted; each write in it goes to a variable or object of the thread, to the element that belongs '
                    'to the iteration of the work-sharing loop, or is synchronised; functions called on shared objects change only their arguments.',
                    minimum=0, regions=regions, writes=n)

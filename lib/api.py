"""Evaluating expressions over the public interface in the abstract domain of core.py.

A Scene holds one abstract store; public functions are interpreted in it one after
another, so that "what get() returns after put()" is a value number that can be
compared with another value number."""
import front, core
from core import T, C, Term, State, add, mul, kids
from front import AnalysisBroken


class Scene(core.Interp):
    def __init__(self, P, **kw):
        super().__init__(P, **kw)
        self.enter(dict(n='<scene>', u='<scene>', f='', l=0, params=[], body=None, inits=[]), T('this'))
        self.state = State({}, ())

    def assume(self, *cs):
        for c in cs:
            if not core.isc(c) and c not in self.state.guards:
                self.state = State(self.state.st, self.state.guards + (c,))

    def fn(self, name, np=None, pred=None):
        """the definition of a public function, selected by name and number of parameters"""
        r = [f for f in core.find(self.P, name) if f.get('body') is not None and (np is None or len(f['params']) == np) and
             (pred is None or pred(f))]
        if not r:
            raise AnalysisBroken('no definition of %s%s' % (name, '' if np is None else ' with %d parameters' % np))
        return r[0]

    def call(self, fn, this=None, *args):
        """interpret a call; returns the result term"""
        if isinstance(fn, str):
            fn = self.fn(fn, len(args))
        locs = [None] * len(args)
        for i, p in enumerate(fn['params']):
            if p['r'] == 1:
                a = args[i]
                locs[i] = a.a[0] if a.op == 'addr' else T('*', a)
        return self.inline(fn, list(args), [], this, dict(k='call', l=fn['l']), locs)

    def new(self, name, *args, pred=None, tag='obj'):
        """construct an object; returns its address"""
        cls = name
        fn = self.fn('%s::%s' % (cls, cls), len(args), pred)
        self.nalloc += 1
        a = T('new', 1000 + self.nalloc, cls, tag, C(1), 0)
        self.call(fn, a, *args)
        return a

    def vectors(self, cls):
        """std::vector members of a class"""
        for r in self.P.records.values():
            if core.base(r['n']) == cls:
                return [f for f in r['fields'] if f['t'].startswith('std::vector')]
        raise AnalysisBroken('no class ' + cls)

    def particle(self, p):
        """assume the invariant of ChargedParticle (decided by I01): all trajectory arrays have getNP() entries"""
        n = self.call('ChargedParticle::getNP', p)
        for f in self.vectors('ChargedParticle'):
            self.state.st[T('sz', T('f', p, f['n']))] = n
        return n

    def at_last_point(self, p, n):
        """assume (I01): the current state is the last trajectory point"""
        for g, tr in (('getTime', 'TrajTime'), ('getPosition', 'TrajPoint'), ('getMomentum', 'TrajMomentum'), ('getAccel', 'TrajAccel')):
            v = self.call('ChargedParticle::' + g, p)
            if v.op == 'ld':
                self.state.st[v.a[0]] = self.call('ChargedParticle::' + tr, p, add(n, C(-1)))

    def stopped(self):
        return self.state is None


# ---------------------------------------------------------------- terms
def rebuild(t, f, memo=None):
    """bottom-up rewriting: f(term with rewritten children) -> term"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if not isinstance(t, Term):
        return t

    def sub(x):
        if isinstance(x, Term):
            return rebuild(x, f, memo)
        if isinstance(x, tuple):
            return tuple(sub(y) for y in x)
        return x
    if t.op == 'poly':
        r = C(0)
        for m, c in t.a[0]:
            x = C(c)
            for y in m:
                x = mul(x, rebuild(y, f, memo))
            r = add(r, x)
    elif t.op == 'c':
        r = t
    elif t.op == 'and':
        r = core.and_(*[sub(x) for x in t.a[0]])
    elif t.op == 'or':
        r = core.or_(*[sub(x) for x in t.a[0]])
    elif t.op == 'not':
        r = core.not_(sub(t.a[0]))
    elif t.op == 'le':
        r = core.cmp_('<=', C(0), sub(t.a[0]))
    elif t.op == 'lt':
        r = core.cmp_('<', C(0), sub(t.a[0]), False)
    elif t.op == 'eq':
        r = core.cmp_('==', sub(t.a[0]), C(0))
    elif t.op == 'ite':
        r = core.ite(sub(t.a[0]), sub(t.a[1]), sub(t.a[2]))
    elif t.op == '*':
        p = sub(t.a[0])
        r = p.a[0] if p.op == 'addr' else T('*', p)
    else:
        r = T(t.op, *[sub(x) for x in t.a])
    r = f(r)
    memo[t] = r
    return r


def canon(t, ren=None):
    """normal forms: a vector assembled from all its components is the vector"""
    def f(x):
        if x.op == 'vec' and all(y.op == 'ld' and y.a[0].op == 'f' for y in x.a):
            b = x.a[0].a[0].a[0]
            names = core.STRUCTS['Vector']
            if all(y.a[0].a[0] is b and y.a[0].a[1] == n for y, n in zip(x.a, names)):
                return T('ld', b.a[0] if b.op == 'addr' else T('*', b))
        if x.op == 'vec' and all(y.op == 'fld' for y in x.a) and x.a[0].a[0] is x.a[1].a[0] is x.a[2].a[0] and \
                [y.a[1] for y in x.a] == list(core.STRUCTS['Vector']):
            return x.a[0].a[0]
        if x.op == 'emf' and all(y.op == 'ld' and y.a[0].op == 'f' for y in x.a):
            b = x.a[0].a[0].a[0]
            names = core.STRUCTS['ElMagField']
            if all(y.a[0].a[0] is b and y.a[0].a[1] == n for y, n in zip(x.a, names)):
                return T('ld', b.a[0] if b.op == 'addr' else T('*', b))
        if x.op == 'iter' and ren is not None:
            return ren.get(x, x)
        return x
    return rebuild(t, f)


def offset(addr, base):
    """addr - base if base occurs linearly exactly once"""
    p = core.poly(addr)
    if p.get((base,)) != 1:
        return None
    return add(addr, base, -1)


def reads(I, root):
    """members of the object `root' whose entry value some effect of an interpreted function depends on"""
    out = set()
    seen = set()

    def visit(t):
        for x in core.subterms(t, seen):
            if x.op == 'ld':
                l = x.a[0]
                if l.op == 'f' and l.a[0] is root:
                    out.add(l.a[1])
                else:
                    k = l
                    while k.op in ('f', 'e', '*', 'addr', 'sz'):
                        if k.op == 'f' and k.a[0] is root:
                            out.add(k.a[1])
                            break
                        k = k.a[0]
                        if not isinstance(k, Term):
                            break
                        if k.op in ('ld', 'poly'):
                            break
            elif x.op == 'size' and x.a[0].op == 'f' and x.a[0].a[0] is root:
                out.add(x.a[0].a[1])
    for e in I.events:
        if e.stack and e.kind in ('return',) and len(e.stack) > 2:
            continue
        for a in list(e.args) + list(e.guards) + ([e.recv] if e.recv is not None else []):
            if isinstance(a, Term):
                if e.kind in ('store', 'init', 'push', 'pop', 'vec') and a is e.recv:
                    continue
                visit(a)
    return out


class Buffer:
    """what a function stored through a pointer argument"""

    def __init__(self, events, base):
        self.base, self.w = base, []
        for e in events:
            if e.kind == 'store' and e.recv.op == '*':
                o = offset(e.recv.a[0], base)
                if o is not None:
                    self.w.append((o, e.args[0], e))

    def match(self, off):
        """the value stored at this offset (its loop counters renamed), or None"""
        for o, v, e in self.w:
            m = unify(o, off, [l.iter for l in e.loops])
            if m is not None:
                return rename(v, m), e, m
        return None

    def layout(self):
        """(set of constant offsets, {loop ids: (stride, set of first offsets, trip)}) -- None when not affine"""
        consts, loops = set(), {}
        for o, v, e in self.w:
            its = [y for m in core.poly(o) for y in m if y.op == 'iter']
            if not its:
                consts.add(o)
            else:
                loops.setdefault(tuple(dict.fromkeys(its)), []).append((o, e))
        return consts, loops


def rename(t, m):
    return rebuild(t, lambda x: m.get(x, x))


def unify(o, off, iters):
    """map the loop counters `iters' of o so that o equals off"""
    import itertools
    its = [i for i in iters if core.contains(o, lambda t: t is i)]
    if not its:
        return {} if o is off else None
    cand = list(dict.fromkeys(x for x in core.subterms(off) if x.op in ('iter', 'idx')))
    for p in itertools.permutations(cand, len(its)):
        m = dict(zip(its, p))
        if rename(o, m) is off:
            return m
    if len(its) == 1:               # c*k + rest == off  =>  k
        k = its[0]
        p = core.poly(o)
        a = p.get((k,))
        rest = core.unpoly({m: c for m, c in p.items() if k not in m})
        if a and sum(k in m for m in p) == 1:
            d = core.poly(add(off, rest, -1))
            if all(isinstance(c, int) and c % a == 0 for c in d.values()):
                return {k: core.unpoly({m: c // a for m, c in d.items()})}
    return None


def idx(name):
    """a symbolic index"""
    return T('idx', name)


def resolve(t, buffers, pushes, depth=0):
    """replace loads from buffers and from vectors filled by push_back in loops by what was stored there"""
    def f(x):
        if x.op == 'ld':
            l = x.a[0]
            if l.op == '*':
                for b in buffers:
                    o = offset(l.a[0], b.base)
                    if o is not None:
                        r = b.match(o)
                        if r is not None:
                            return resolve(r[0], buffers, pushes, depth + 1) if depth < 6 else r[0]
            if l.op == 'e':
                for e in pushes:
                    if e.recv is l.a[0]:
                        m = unify(e.types, l.a[1], [q.iter for q in e.loops])
                        if m is not None:
                            return resolve(rename(e.args[0], m), buffers, pushes, depth + 1) if depth < 6 else e.args[0]
        return x
    return rebuild(t, f)

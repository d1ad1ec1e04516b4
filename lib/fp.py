"""Algebraic fingerprints of value-number terms (random interpretation, Gulwani & Necula):
two formulas are the same function iff they agree at random points of their inputs.
Inputs (members, parameters, results of opaque calls, named physical constants) are
numbered consistently; nothing of the repository is executed."""
import cmath, hashlib, math, random, re
import core
from core import T, Term


class V:
    __slots__ = ('c',)

    def __init__(self, *c):
        self.c = tuple(c)

    def __add__(s, o):
        if not isinstance(o, V):
            if o == 0:
                return s
            raise Bad('vector + scalar')
        return V(*[a + b for a, b in zip(s.c, o.c)])
    __radd__ = __add__

    def __neg__(s):
        return V(*[-a for a in s.c])

    def __sub__(s, o):
        return s + (-o if isinstance(o, V) else -o)

    def __rsub__(s, o):
        return -s + o

    def __mul__(s, o):
        if isinstance(o, (V, F)):
            raise Bad('vector * vector')
        return V(*[a * o for a in s.c])
    __rmul__ = __mul__

    def __truediv__(s, o):
        if isinstance(o, (V, F)):
            raise Bad('vector / vector')
        return V(*[a / o for a in s.c])

    def flat(s):
        return s.c


class F:
    __slots__ = ('e', 'b')

    def __init__(self, e, b):
        self.e, self.b = e, b

    def __add__(s, o):
        if not isinstance(o, F):
            if o == 0:
                return s
            raise Bad('field + scalar')
        return F(s.e + o.e, s.b + o.b)
    __radd__ = __add__

    def __neg__(s):
        return F(-s.e, -s.b)

    def __sub__(s, o):
        return s + (-o)

    def __mul__(s, o):
        return F(s.e * o, s.b * o)
    __rmul__ = __mul__

    def __truediv__(s, o):
        return F(s.e / o, s.b / o)

    def flat(s):
        return s.e.c + s.b.c


class Bad(Exception):
    """the term has no interpretation (opaque part)"""


CONSTVAL = {'Pi': math.pi}


def dot(a, b):
    return sum(x * y for x, y in zip(a.c, b.c))


def cross(a, b):
    (a1, a2, a3), (b1, b2, b3) = a.c, b.c
    return V(a2 * b3 - a3 * b2, a3 * b1 - a1 * b3, a1 * b2 - a2 * b1)


def sqrt(x):
    if isinstance(x, complex) or x < 0:
        return cmath.sqrt(x)
    return math.sqrt(x)


FUN = {'sin': (math.sin, cmath.sin), 'cos': (math.cos, cmath.cos), 'tan': (math.tan, cmath.tan), 'exp': (math.exp, cmath.exp),
       'log': (math.log, cmath.log), 'sinh': (math.sinh, cmath.sinh), 'cosh': (math.cosh, cmath.cosh), 'tanh': (math.tanh, cmath.tanh),
       'atan': (math.atan, cmath.atan), 'acos': (math.acos, cmath.acos), 'asin': (math.asin, cmath.asin)}


class Point:
    """one random interpretation of the inputs"""

    def __init__(self, P, seed, fixed=None, types=None, rng=(0.35, 1.65), opaque=False):
        self.opaque = opaque
        self.P, self.seed, self.memo = P, seed, {}
        self.env = {}           # values of loop counters and loop-carried symbols
        self.loops = {}         # loop summaries (Interp.loopinfo)
        self.mem = {}           # what was stored to array elements / members
        self.maxtrip = 40
        self.xml = None         # interpretation of XML document terms
        self.ichoices = None    # values tried for integer inputs
        self.calls = {}         # chosen values of opaque calls: name -> f(point, term)
        self.fixed = fixed or {}
        self.types = types or {}
        self.rng = rng
        self.ftype = {}
        for r in P.records.values():
            for f in r['fields']:
                self.ftype[f['n']] = f['t']
        self.rt = {}
        for f in P.functions.values():
            self.rt.setdefault(core.base(f['n']), f.get('rt', ''))
            self.rt.setdefault(core.base(f['n']).rsplit('::', 1)[-1], f.get('rt', ''))

    def rnd(self, *key):
        h = hashlib.sha256(repr((self.seed,) + key).encode()).digest()
        x = int.from_bytes(h[:7], 'big') / 2.0 ** 56
        return self.rng[0] + (self.rng[1] - self.rng[0]) * x

    # ---- types of opaque locations
    def loctype(self, l):
        t = self.types.get(l)
        if t:
            return t
        if l.op == 'f':
            return self.ftype.get(l.a[1], '')
        if l.op == 'e':
            t = self.loctype(l.a[0])
            m = re.match(r'(?:const )?std::(?:vector|array)<(.*)>$', t)
            return m.group(1) if m else ''
        if l.op == '*':
            base = [m[0] for m, c in core.poly(l.a[0]).items() if len(m) == 1 and m[0].op in ('ld', 'new', 'p', 'addr')]
            for b in base:
                if b.op == 'ld':
                    t = self.loctype(b.a[0])
                    if t.endswith('*'):
                        return t[:-1].strip()
                if b.op == 'new':
                    return b.a[1]
                if b.op == 'p' and self.types.get(b):
                    return self.types[b].rstrip('* ')
        return ''

    def shape(self, t):
        t = re.sub(r'^const ', '', t or '').strip(' &')
        if t == 'Vector':
            return 'V'
        if t == 'ElMagField':
            return 'F'
        if t.startswith('std::complex'):
            return 'C'
        if re.match(r'^(unsigned |signed )?(int|long|short|size_t|std::size_t|char|bool|unsigned|uint32_t|int32_t|long long)( int| long)?$', t):
            return 'I'
        return 'D'

    def leaf(self, key, shape):
        k = self.callkey(key) if isinstance(key, Term) and key.op == 'call' else self.key(key)
        if shape == 'V':
            return V(*[self.rnd(k, i) for i in range(3)])
        if shape == 'F':
            return F(V(*[self.rnd(k, 'E', i) for i in range(3)]), V(*[self.rnd(k, 'B', i) for i in range(3)]))
        if shape == 'C':
            return complex(self.rnd(k, 're'), self.rnd(k, 'im'))
        if shape == 'I' and self.ichoices:
            return float(self.ichoices[int(1e6 * self.rnd(k)) % len(self.ichoices)])
        if shape == 'I':
            return float(2 + int(1000 * self.rnd(k)) % 6)
        return self.rnd(k)

    def key(self, t):
        """structural key of a location / opaque term, with numeric index values"""
        if not isinstance(t, Term):
            return t
        if t.op in ('lv', 'lo', 'poly') and self.ptr(t):
            t = self.subst(t)
        elif t.op == '*' and t.a[0].op in ('lv', 'lo', 'poly') and self.ptr(t.a[0]):
            x = self.subst(t.a[0])
            t = t if x is t.a[0] else x.a[0] if x.op == 'addr' else T('*', x)
        if t.op == '*' and t.a[0].op != 'poly':
            return ('*', ('ptr', ((str([self.key(t.a[0])]), 1),), 0.0))
        if t.op in ('poly', 'c', 'iter', 'idx', 'const'):
            v = self.val(t) if not self.ptr(t) else None
            if v is not None:
                return ('#', self.q(v))
            p = core.poly(t)
            b = {m: c for m, c in p.items() if any(self.ptr(x) for x in m)}
            try:
                off = self.q(self.val(core.unpoly({m: c for m, c in p.items() if m not in b})))
                return ('ptr', tuple(sorted((str([self.key(x) for x in m]), c) for m, c in b.items())), off)
            except Bad:
                pass
            return ('ptr', tuple(sorted((str([self.key(x) for x in m]), c) for m, c in p.items())))
        if t.op == 'ite' and (self.ptr(t.a[1]) or self.ptr(t.a[2])):
            return self.key(t.a[1] if self.val(t.a[0]) else t.a[2])
        if t.op in ('op', 'size', 'ite') or t.op == 'call' and t.a[3] is None:
            try:
                v = self.val(t)
                return ('#', self.q(v))
            except Bad:
                pass
        if t.op == 'call':
            return self.callkey(t)
        if t.op == 'e':
            return ('e', self.key(t.a[0]), ('#', self.q(self.val(t.a[1]))))
        return (t.op,) + tuple(self.key(x) if isinstance(x, Term) else x for x in t.a)

    def callkey(self, t):
        return ('call', t.a[0], self.key(t.a[1]) if t.a[1] is not None else None, tuple(self.argkey(x) for x in t.a[2]), t.a[3])

    def argkey(self, x):
        if self.ptr(x):
            return self.key(x)
        try:
            return ('#', self.q(self.val(x)))
        except Bad:
            return self.key(x)

    def ptr(self, t):
        if t.op in ('addr', 'new', 'this'):
            return True
        if t.op == 'p':
            return self.types.get(t, '').endswith('*')
        if t.op in ('ld', 'ldd'):
            return self.loctype(t.a[0]).endswith('*')
        if t.op == 'poly':
            return any(self.ptr(x) for m, c in t.a[0] for x in m)
        if t.op in ('lv', 'lo'):
            if t.op == 'lo' and t not in self.env and t.a[0] in self.loops:
                try:
                    v = self.val(t)
                    if isinstance(v, Term):
                        self.env[t] = v
                except Bad:
                    pass
            return isinstance(self.env.get(t), Term)
        return False

    def subst(self, t):
        """a pointer, with known values of loop-carried pointers filled in"""
        if t.op in ('lv', 'lo'):
            return self.env.get(t, t)
        if t.op != 'poly':
            return t
        p = core.poly(t)
        if not any(len(m) == 1 and isinstance(self.env.get(m[0]), Term) for m in p):
            return t
        r = core.C(0)
        rest = {}
        for m, c in p.items():
            if len(m) == 1 and isinstance(self.env.get(m[0]), Term):
                r = core.add(r, self.env[m[0]], c)
            else:
                rest[m] = c
        return core.add(r, core.unpoly(rest))

    def carry(self, t):
        """the value of a loop-carried location: a number, vector, ... or (pointers) the term of its base and a numeric offset"""
        if t.op == 'ite':
            return self.carry(t.a[1] if self.val(t.a[0]) else t.a[2])
        if not self.ptr(t):
            return self.val(t)
        t = self.subst(t)
        p = core.poly(t)
        b = {m: c for m, c in p.items() if any(self.ptr(x) for x in m)}
        o = self.val(core.unpoly({m: c for m, c in p.items() if m not in b}))
        if o != int(o) or any(x.op != 'new' and core.contains(x, lambda y: y.op in ('iter', 'lv', 'lo')) for m in b for x in m):
            raise Bad('pointer')
        return core.add(core.unpoly(b), core.C(int(o)))

    def q(self, v):
        if isinstance(v, str):
            return v
        if hasattr(v, 'xid'):
            return v.xid
        if isinstance(v, (V, F)):
            return tuple(self.q(x) for x in v.flat())
        if isinstance(v, complex):
            return ('c', self.q(v.real), self.q(v.imag))
        return float('%.9g' % v) + 0.0

    # ---- evaluation
    def child(self, env):
        """the same point inside one iteration of a loop"""
        c = Point.__new__(type(self))
        c.__dict__.update(self.__dict__)
        c.env = dict(self.env)
        c.env.update(env)
        c.memo = {t: v for t, v in self.memo.items() if isinstance(t, Term) and t.op in ('p', 'const', 'c')}
        c.preset = dict(getattr(self, 'preset', {}))
        c.memo.update(c.preset)
        return c

    def fix(self, t, v):
        """choose the value of a term"""
        self.preset = getattr(self, 'preset', {})
        self.preset[t] = v
        self.memo[t] = v

    def fold(self, lid):
        """values of the loop-carried locations after the loop, from its summary"""
        info = self.loops.get(lid)
        if info is None:
            raise Bad('loop')
        return iterate(self, info, None)

    def val(self, t):
        r = self.env.get(t)
        if r is not None:
            if isinstance(r, Term):
                raise Bad('pointer')
            return r
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.calc(t)
        return r

    def calc(self, t):
        if t in self.fixed:
            x = self.fixed[t]
            return self.val(x) if isinstance(x, Term) else x
        o, a = t.op, t.a
        if o == 'c':
            return float(a[0])
        if o == 'xml' and self.xml is not None:
            return self.xml(self, t)
        if o == 's' and self.xml is not None:
            return a[0]
        if o == 'const':
            if a[0] == 'MuNull':            # eps0 mu0 c^2 = 1
                return 1 / (self.val(T('const', 'EpsNull')) * self.val(T('const', 'SpeedOfLight')) ** 2)
            if a[0] == 'InvRestMass':       # e/m = c^2 / (m c^2 in eV)
                return self.val(T('const', 'SpeedOfLight')) ** 2 / self.val(T('const', 'mecsquared'))
            return CONSTVAL.get(a[0]) or self.rnd('const', a[0])
        if o == 'vec':
            return V(*[self.val(x) for x in a])
        if o == 'emf':
            return F(self.val(a[0]), self.val(a[1]))
        if o == 'poly':
            if any(len(m) == 1 and m[0].op in ('lv', 'lo') and isinstance(self.env.get(m[0]), Term) for m, c in a[0]):
                s = self.subst(t)
                if s is not t:
                    return self.val(s)
            r = 0
            for m, c in a[0]:
                x = float(c)
                for y in m:
                    x = x * self.val(y)
                r = x + r
            return r
        if o == 'ite':
            return self.val(a[1]) if self.val(a[0]) else self.val(a[2])
        if o == 'le':
            return 1.0 if self.val(a[0]).real >= -1e-12 else 0.0
        if o == 'lt':
            return 1.0 if self.val(a[0]).real > 0 else 0.0
        if o == 'eq' and a[0].op in ('new', 'addr', 'this'):
            return 0.0
        if o == 'eq':
            v = self.val(a[0])
            return 1.0 if not isinstance(v, (V, F)) and abs(v) < 1e-12 else 0.0
        if o == 'not':
            return 0.0 if self.val(a[0]) else 1.0
        if o == 'and':
            return 1.0 if all(self.val(x) for x in a[0]) else 0.0
        if o == 'or':
            return 1.0 if any(self.val(x) for x in a[0]) else 0.0
        if o == 'undef':
            raise Bad('undef')
        if o == 'lo' and a[0] in self.loops:
            k = ('fold', a[0])
            f = self.memo.get(k)
            if f is None:
                f = self.memo[k] = self.fold(a[0])
            if a[1] not in f:
                raise Bad('lo')
            return f[a[1]]
        if o in ('out', 'oute'):
            b = a[0] if o == 'oute' else t
            h = self.calls.get('out:' + b.a[2].t.a[0]) if len(b.a) > 2 else None
            if h is None:
                raise Bad('out')
            return h(self, b, int(self.val(a[1])) if o == 'oute' else 0)
        if o == 'ldd':
            v = self.mem.get(self.key(a[0]))
            if v is None and len(a[1].a) > 2:
                v = self.val(a[1].a[2])
            if v is None:
                sh = self.shape(self.loctype(a[0]))
                v = {'V': V(0.0, 0.0, 0.0), 'F': F(V(0.0, 0.0, 0.0), V(0.0, 0.0, 0.0)), 'D': 0.0, 'I': 0.0, 'C': 0j}[sh]
            return v
        if o == 'ldv':
            v = self.mem.get(self.key(a[0]))
            if v is None:
                raise Bad('ldv')
            return v
        if o in ('iter', 'idx'):
            return self.leaf(t if False else T('sym', o, a[0]), 'I')
        if o == 'p':
            return self.leaf(t, self.shape(self.types.get(t, 'double')))
        if o == 'size':
            v = self.mem.get(self.key(T('sz', a[0]))) if self.mem else None
            return v if v is not None else self.leaf(T('sz', a[0]), 'I')
        if o == 'fld':
            return self.comp(self.val(a[0]), a[1])
        if o == 'ld' and self.mem:
            v = self.mem.get(self.key(a[0]))
            if v is not None:
                return v
        if o == 'ld':
            l = a[0]
            if l.op == 'f' and l.a[1] in COMP and l.a[0].op == 'addr':
                return self.comp(self.val(T('ld', l.a[0].a[0])), l.a[1])
            if l.op == 'f' and l.a[1] in COMP and l.a[0].op != 'addr':
                return self.comp(self.leaf(T('ld', T('*', l.a[0])), COMP[l.a[1]][0]), l.a[1])
            sh = self.shape(self.loctype(l))
            if sh in 'VF':
                return self.leaf(T('ld', l), sh)
            return self.leaf(t, sh)
        if o == 'call':
            h = self.calls.get(a[0])
            if h is not None:
                v = h(self, t)
                if v is not None:
                    return v
            return self.leaf(t, self.shape(self.rt.get(a[0]) or self.rt.get(a[0].rsplit('::', 1)[-1], '')))
        if o == 'op':
            return self.oper(a[0], [x for x in a[1:]])
        if o in ('lo', 'lv', 'unk', 'trip') and self.opaque:
            return self.leaf(T(o, *[x for x in a]), self.shape(self.loctype(a[1]) if o in ('lo', 'lv') and isinstance(a[1], Term) else self.types.get(t, 'double')))
        raise Bad('%s %s' % (o, str(a)[:60]))

    def comp(self, v, f):
        s, i = COMP[f]
        if isinstance(v, V) and s == 'V':
            return v.c[i]
        if isinstance(v, F) and s == 'F':
            return (v.e, v.b)[i]
        raise Bad('component %s' % f)

    def oper(self, op, args):
        v = [self.val(x) for x in args]
        if v and isinstance(v[0], str):
            if op == 'cmp':
                return 0.0 if v[0] == v[1] else 1.0
            if op == 'strlen':
                return float(len(v[0]))
            if op == '+':
                return v[0] + v[1]
            if op.startswith('make:') and len(v) == 1:
                return v[0]
            raise Bad(op)
        if op == '+':
            return v[0] + v[1] if len(v) == 2 else v[0]
        if op == '-':
            return v[0] - v[1] if len(v) == 2 else -v[0]
        if op == '*':
            return v[0] * v[1]
        if op == '/':
            return v[0] / v[1]
        if op in ('dot', 'cross'):
            return dot(*v) if op == 'dot' else cross(*v)
        if op in ('norm', 'abs2nd') and isinstance(v[0], V):
            s = dot(v[0], v[0])
            return sqrt(s) if op == 'norm' else s
        if op == 'normalize':
            return v[0] / sqrt(dot(v[0], v[0]))
        if op == 'square' and isinstance(v[0], V):
            return V(*[x * x for x in v[0].c])
        if op == 'root' and isinstance(v[0], V):
            return V(*[sqrt(x) for x in v[0].c])
        if op == 'sqrt':
            return sqrt(v[0])
        if op == 'cbrt':
            return v[0] ** (1 / 3.0)
        if op in ('pow',):
            if isinstance(v[0], (V, F)) or isinstance(v[1], (V, F)):
                raise Bad('pow')
            return v[0] ** v[1]
        if op in FUN:
            return FUN[op][1 if isinstance(v[0], complex) else 0](v[0])
        if op in ('fabs', 'abs'):
            return abs(v[0])
        if op == 'norm':
            return abs(v[0]) ** 2
        if op == '+=' and len(v) == 2:
            return v[0] + v[1]
        if op == '-=' and len(v) == 2:
            return v[0] - v[1]
        if op == '*=' and len(v) == 2:
            return v[0] * v[1]
        if op == '/=' and len(v) == 2:
            return v[0] / v[1]
        if op == 'real':
            return v[0].real
        if op == 'imag':
            return v[0].imag
        if op == 'conj':
            return v[0].conjugate()
        if op == 'polar':
            return cmath.rect(v[0], v[1] if len(v) > 1 else 0)
        if op == 'make:complex' or op.endswith('complex'):
            return complex(v[0], v[1] if len(v) > 1 else 0.0) if not isinstance(v[0], complex) else v[0]
        if op == 'atan2':
            return math.atan2(*v)
        if op == 'hypot':
            return math.hypot(*v)
        if op in ('min', 'fmin'):
            return min(v)
        if op in ('max', 'fmax'):
            return max(v)
        if op == 'floor':
            return float(math.floor(v[0]))
        if op == 'ceil':
            return float(math.ceil(v[0]))
        if op in ('round', 'lround', 'rint'):
            return float(math.floor(v[0] + 0.5))
        if op == 'int':
            return float(int(v[0]))
        if op == 'idiv':
            return float(int(v[0] / v[1]))
        if op in ('%', 'fmod'):
            return math.fmod(v[0], v[1])
        if op in core.MATH or op.startswith('make:') or op == 'init':
            raise Bad(op)
        # uninterpreted
        return self.rnd('op', op, tuple(self.q(x) for x in v))


COMP = {'Vector::x': ('V', 0), 'Vector::y': ('V', 1), 'Vector::z': ('V', 2), 'ElMagField::vecE': ('F', 0), 'ElMagField::vecB': ('F', 1)}


def flat(v):
    if isinstance(v, (V, F)):
        return list(v.flat())
    return [v]


def close(a, b, tol=1e-8):
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        if set(a) == {0.0} or set(b) == {0.0}:
            return all(abs(x) < 1e-12 for x in a + b)
        return False
    s = max([abs(x) for x in a + b] + [1e-30])
    return all(abs(x - y) <= tol * s for x, y in zip(a, b))


def replay(pt, S, events, select):
    """apply the stores selected by `select' (a predicate on the event) of an effect summary to pt.mem, in order;
    values after loops become known in pt.env"""
    walk(pt, S, events, select, apply)


def walk(pt, S, events, select, visit, depth=0):
    """execute an effect summary at a point: visit(point, event) for every selected event whose guards hold, in order,
    every loop unrolled for its number of iterations at this point"""
    i = 0
    pt.loops = S.loopinfo
    while i < len(events):
        e = events[i]
        if len(e.loops) <= depth:
            if select(e) and holds(pt, e.guards):
                visit(pt, e)
            i += 1
            continue
        L = e.loops[depth]
        j = i
        while j < len(events) and len(events[j].loops) > depth and events[j].loops[depth] is L:
            j += 1
        grp = events[i:j]
        i = j
        if not any(select(x) for x in grp):
            continue
        info = S.loopinfo.get(L.id)
        if info is None:
            raise Bad('loop')
        if not holds(pt, L.guards):
            continue
        before = dict(pt.mem)
        for k, v in iterate(pt, info, lambda c: walk(c, S, grp, select, visit, depth + 1)).items():
            pt.env[T('lo', L.id, k)] = v
        if pt.mem != before:
            forget(pt)


def iterate(pt, info, body):
    """run the iterations of a loop; returns the values of the changed locations afterwards (those that are known)"""
    L = info['loop']
    n = None
    if L.trip.op != 'trip':
        try:
            n = int(round(pt.val(L.trip)))
        except Bad:
            if info['post'] or L.cond is None or core.isc(L.cond):
                raise
    elif info['post'] or core.isc(L.cond):
        if not info['exits'] and not info['returns']:
            raise Bad('trip')
    if n is not None and n > pt.maxtrip and not L.brk:
        raise Bad('too many iterations')
    byc = n is None or L.brk                     # the condition is looked at in every iteration
    known = not core.isc(L.cond) if L.cond is not None else False
    cur = {}
    for k in info['carried']:
        try:
            cur[k] = pt.carry(info['init'][k])
        except (Bad, KeyError, AttributeError):
            pass
    def done(it):
        if info['exits']:
            for k, st in info['steps'].items():
                try:
                    x = pt.carry(info['init'][k])
                    cur[k] = x + it * pt.val(st)
                except (Bad, KeyError, TypeError, AttributeError):
                    pass
        return cur
    it = 0
    while n is None or byc and known and not info['post'] or it < n:
        if it > pt.maxtrip:
            raise Bad('too many iterations')
        c = pt.child(dict([(L.iter, float(it))] + [(T('lv', L.id, k), v) for k, v in cur.items()]))
        if byc and known and not info['post'] and not c.val(L.cond):
            return done(it)
        if body is not None:
            body(c)
        for g, st in info['exits']:
            if all(c.val(x) for x in g):
                new = {}
                for k in list(info['carried']) + list(info['steps']):
                    try:
                        new[k] = c.carry(st[k]) if k in st else cur[k]
                    except (Bad, KeyError, TypeError, AttributeError, ZeroDivisionError, OverflowError, ValueError):
                        pass
                return new
        for g in info['returns']:
            if all(c.val(x) for x in g):
                raise Bad('return from a loop')
        if not info['ends']:
            raise Bad('loop without end')
        new = {}
        for k in info['carried']:
            try:
                new[k] = c.carry(info['end'][k]) if k in info['end'] else cur[k]
            except (Bad, KeyError, TypeError, AttributeError, ZeroDivisionError, OverflowError, ValueError):
                pass
        cur = new
        it += 1
        if byc and known and info['post'] and not c.val(L.cond):
            return done(it)
    return done(it)


def mine(events, extra=()):
    """integer constants the guards of an effect summary compare with, and their neighbours"""
    out, seen = {0, 1, 2, 3}, set()
    for e in events:
        for g in list(e.guards) + [x for x in e.args if isinstance(x, Term)]:
            for t in core.subterms(g, seen):
                if t.op in ('le', 'lt', 'eq') and isinstance(t.a[0], Term):
                    c = core.poly(t.a[0]).get((), 0)
                    if c == int(c) and abs(c) <= 12:
                        out |= {abs(int(c)) + d for d in (-1, 0, 1) if abs(int(c)) + d >= 0}
    return sorted(out)


def holds(pt, guards):
    return all(pt.val(g) for g in guards)


def apply(pt, e):
    v = e.args[0]
    if e.kind == 'vcopy':
        a, b = pt.key(e.recv), pt.key(v.a[0]) if v.op == 'addr' else None
        new = {('e', a) + x[2:]: y for x, y in pt.mem.items() if isinstance(x, tuple) and x and x[0] == 'e' and x[1] == b}
        for x in [x for x in pt.mem if isinstance(x, tuple) and x and x[0] == 'e' and x[1] == a]:
            del pt.mem[x]
        pt.mem.update(new)
    elif v.op == 'op' and v.a[0].startswith('make:std::vector'):        # a fresh vector: earlier elements are gone
        k = pt.key(e.recv)
        for x in [x for x in pt.mem if isinstance(x, tuple) and x and x[0] == 'e' and x[1] == k]:
            del pt.mem[x]
    else:
        pt.mem[pt.key(e.recv)] = pt.val(v)
    forget(pt)


def forget(pt):
    """values that may depend on the memory are computed again"""
    for t in [t for t in pt.memo if not isinstance(t, Term) or t.op not in ('p', 'c', 'const')]:
        if t not in getattr(pt, 'preset', {}):
            del pt.memo[t]


def equal(P, a, b, n=6, fixed=None, types=None, where=None):
    """True: same function; False: different; None: not interpretable.  `where': condition terms; points violating them are skipped"""
    if a is b:
        return True
    done = 0
    for seed in range(1, 40 * n):
        pt = Point(P, seed, fixed, types)
        try:
            if where and not all(pt.val(w) for w in where):
                continue
            x, y = pt.val(a), pt.val(b)
            fx, fy = flat(x), flat(y)
            if any(z != z or abs(z) == float('inf') for z in fx + fy):
                continue
            if not close(x, y):
                return False
        except (Bad, AttributeError, TypeError):
            return None
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        done += 1
        if done >= n:
            return True
    return None if done == 0 else True

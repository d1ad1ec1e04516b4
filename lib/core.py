"""Abstract interpretation of the typed trees: value numbering + effect summaries.

A function body is interpreted once, structurally.  Values are hash-consed terms
(value numbers); the two arms of an `if' are interpreted separately and merged
into gated terms; a loop body is interpreted with its induction variables in
closed form (start + iteration*step) and every other loop-carried value as an
opaque symbol.  Helpers of the repository are interpreted in place.  No path is
enumerated and nothing is solved.

The result is a list of Events (stores, calls, throws, returns, allocations...)
each with the conditions and loops it stands under.
"""
import re, sys
from fractions import Fraction
import front
from front import AnalysisBroken
from infer import base

sys.setrecursionlimit(20000)


# =============================================================== terms
class Term:
    __slots__ = ('op', 'a', 'id', '_vars')
    tab = {}

    def __repr__(self):
        return show(self)


def T(op, *a):
    key = (op, tuple([(-1, x.id) if isinstance(x, Term) else tuple([(-2, y.id) if isinstance(y, Term) else y for y in x]) if isinstance(x, tuple) else x for x in a]))
    t = Term.tab.get(key)
    if t is None:
        t = Term()
        t.op, t.a, t.id, t._vars = op, a, len(Term.tab), None
        Term.tab[key] = t
    return t


def kids(t):
    for x in t.a:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, Term):
                            yield z
                        elif isinstance(z, tuple):
                            for w in z:
                                if isinstance(w, Term):
                                    yield w


def contains(t, pred, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        memo[t] = r = bool(pred(t)) or any(contains(k, pred, memo) for k in kids(t))
    return r


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    yield t
    for k in kids(t):
        yield from subterms(k, seen)


def C(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float) and v == int(v) and abs(v) < 1e15:
        v = int(v)
    return T('c', v)


ZERO, ONE = C(0), C(1)


def isc(t, v=None):
    return t.op == 'c' and (v is None or t.a[0] == v)


# ---------------------------------------------------------------- polynomials
def poly(t):
    """term -> {mono(tuple of terms): coef}"""
    if t.op == 'c':
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'poly':
        return dict(t.a[0])
    return {(t,): 1}


def unpoly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return C(c)
        if len(m) == 1 and c == 1:
            return m[0]
    return T('poly', tuple(sorted(p.items(), key=lambda x: (len(x[0]), [y.id for y in x[0]]))))


def add(a, b, s=1):
    p = poly(a)
    for m, c in poly(b).items():
        p[m] = p.get(m, 0) + s * c
    return unpoly(p)


def mul(a, b):
    p = {}
    pa, pb = poly(a), poly(b)
    if len(pa) * len(pb) > 64:
        return T('op', '*', *sorted((a, b), key=lambda t: t.id))
    for m, c in pa.items():
        for n, d in pb.items():
            k = tuple(sorted(m + n, key=lambda t: t.id))
            p[k] = p.get(k, 0) + c * d
    return unpoly(p)


def neg(a):
    return mul(C(-1), a)


# ---------------------------------------------------------------- conditions
def cmp_(op, a, b, integer=True):
    """canonical comparison term"""
    if op in ('>', '>='):
        a, b, op = b, a, {'>': '<', '>=': '<='}[op]
    d = add(b, a, -1)
    if op == '<':
        if integer:
            d, op = add(d, ONE, -1), '<='
        else:
            if isc(d):
                return C(d.a[0] > 0)
            return T('lt', d)           # 0 < d
    if op == '<=':
        if isc(d):
            return C(d.a[0] >= 0)
        if not integer:                 # reals: not (b < a)
            return T('not', T('lt', neg(d)))
        return T('le', d)               # 0 <= d
    if isc(d):
        return C((d.a[0] == 0) == (op == '=='))
    p = poly(d)                         # normalise the sign
    lead = sorted(p.items(), key=lambda x: [y.id for y in x[0]])[-1]
    if lead[1] < 0:
        d = neg(d)
    e = T('eq', d)
    return e if op == '==' else not_(e)


def not_(c):
    if c.op == 'c':
        return C(not c.a[0])
    if c.op == 'not':
        return c.a[0]
    if c.op == 'and':
        return or_(*[not_(x) for x in c.a[0]])
    if c.op == 'or':
        return and_(*[not_(x) for x in c.a[0]])
    if c.op == 'le':                    # not 0<=d  <=>  0 < -d  <=> 0 <= -d-1 (integers)
        return T('le', add(neg(c.a[0]), ONE, -1))
    if c.op == 'lt':
        return T('not', c)
    return T('not', c)


def and_(*cs):
    out = []
    for c in cs:
        if c.op == 'and':
            out += [x for x in c.a[0] if x not in out]
        elif isc(c):
            if not c.a[0]:
                return ZERO
        elif c not in out:
            out.append(c)
    if not out:
        return ONE
    if any(not_(x) in out for x in out):
        return ZERO
    if len(out) == 1:
        return out[0]
    return T('and', tuple(sorted(out, key=lambda t: t.id)))


def or_(*cs):
    out = []
    for c in cs:
        if c.op == 'or':
            out += [x for x in c.a[0] if x not in out]
        elif isc(c):
            if c.a[0]:
                return ONE
        elif c not in out:
            out.append(c)
    if not out:
        return ZERO
    if any(not_(x) in out for x in out):
        return ONE
    if len(out) == 1:
        return out[0]
    return T('or', tuple(sorted(out, key=lambda t: t.id)))


def entails(guards, c):
    """c follows from the conditions syntactically (at most two linear facts are added up)"""
    if isc(c):
        return bool(c.a[0])
    if c in guards:
        return True
    if c.op == 'and':
        return all(entails(guards, x) for x in c.a[0])
    if c.op == 'or':
        return any(entails(guards, x) for x in c.a[0])
    if c.op == 'le' or c.op == 'not' and c.a[0].op == 'eq':
        facts = []
        for g in guards:
            for x in (g.a[0] if g.op == 'and' else (g,)):
                if x.op == 'le':
                    facts.append(x.a[0])
                elif x.op == 'eq':
                    facts += [x.a[0], neg(x.a[0])]
        facts += [x for x in {y for m in poly(c.a[0] if c.op == 'le' else c.a[0].a[0]) for y in m if y.op in ('iter', 'size', 'idx')}]
        if c.op == 'le':
            goals = [c.a[0]]
        else:
            d = c.a[0].a[0]
            goals = [add(d, ONE, -1), add(neg(d), ONE, -1)]
        for goal in goals:
            for i, f in enumerate(facts):
                r = add(goal, f, -1)
                if isc(r) and r.a[0] >= 0:
                    return True
                for f2 in facts[i:]:
                    r2 = add(r, f2, -1)
                    if isc(r2) and r2.a[0] >= 0:
                        return True
    return False


def truth(t):
    if t.op in ('le', 'lt', 'eq', 'and', 'or', 'not', 'exc'):
        return t
    if t.op == 'c':
        return C(bool(t.a[0]))
    if t.op in ('new', 'addr', 's', 'this'):
        return ONE
    return not_(T('eq', t)) if t.op != 'poly' else cmp_('!=', t, ZERO)


def ite(c, a, b):
    if a is b:
        return a
    if isc(c):
        return a if c.a[0] else b
    if c.op == 'not':
        return ite(c.a[0], b, a)
    return T('ite', c, a, b)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d) for x in t) + ')'
        return str(t)
    if d > 14:
        return '..'
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == 'c':
        return str(a[0])
    if o == 's':
        return '"%s"' % a[0]
    if o == 'const':
        return a[0]
    if o == 'p':
        return a[1]
    if o == 'this':
        return 'this'
    if o == 'ld':
        return s(a[0])
    if o == 'var':
        return a[1]
    if o == 'f':
        b = a[0]
        nm = a[1].split('::')[-1]
        if b.op == 'addr':
            return '%s.%s' % (s(b.a[0]), nm)
        return '%s->%s' % (s(b), nm)
    if o == 'e':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == '*':
        return '*(%s)' % s(a[0])
    if o == 'addr':
        return '&%s' % s(a[0])
    if o == 'poly':
        out = []
        for m, c in a[0]:
            ms = '*'.join(s(x) for x in m)
            out.append(ms if c == 1 and m else str(c) if not m else '%s*%s' % (c, ms))
        return '(' + ' + '.join(out) + ')'
    if o == 'le':
        return '0<=%s' % s(a[0])
    if o == 'lt':
        return '0<%s' % s(a[0])
    if o == 'eq':
        return '%s==0' % s(a[0])
    if o == 'not':
        return '!(%s)' % s(a[0])
    if o in ('and', 'or'):
        return '(' + (' && ' if o == 'and' else ' || ').join(s(x) for x in a[0]) + ')'
    if o == 'ite':
        return '(%s ? %s : %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if o == 'iter':
        return 'k%d' % a[0]
    if o == 'lv':
        return '%s@%d' % (a[1] if not isinstance(a[1], Term) else s(a[1]), a[0])
    if o == 'size':
        return 'size(%s)' % s(a[0])
    if o == 'call':
        return '%s(%s)' % (a[0].split('::')[-1] if a[1] is None else s(a[1]) + '.' + a[0].split('::')[-1], ','.join(s(x) for x in a[2]))
    if o == 'new':
        return 'new#%d<%s>' % (a[0], a[1])
    if o == 'op':
        return '%s(%s)' % (a[0], ','.join(s(x) for x in a[1:]))
    return '%s(%s)' % (o, ','.join(s(x) for x in a))


# =============================================================== events
class Ev:
    __slots__ = ('kind', 'name', 'recv', 'args', 'res', 'node', 'fn', 'guards', 'loops', 'omp', 'seq', 'stack', 'quiet', 'types', 'callee', 'snap')

    def __repr__(self):
        return '%s %s %s %s | %s | loops %s' % (self.kind, self.name, self.recv, self.args, list(self.guards), [l.id for l in self.loops])

    @property
    def where(self):
        return front.loc(self.node, self.fn)

    def has_guard(self, c):
        return c in self.guards


class Loop:
    __slots__ = ('id', 'trip', 'node', 'fn', 'brk', 'cond', 'iter', 'container', 'start', 'outer', 'guards')

    def __repr__(self):
        return 'loop%d[%s%s]' % (self.id, self.trip, ' brk' if self.brk else '')


class State:
    __slots__ = ('st', 'guards')

    def __init__(self, st, guards):
        self.st, self.guards = st, guards

    def copy(self):
        return State(dict(self.st), self.guards)


class Frame:
    def __init__(self, fn, this, num):
        self.fn, self.this, self.num = fn, this, num
        self.returns = []
        self.vecs = set()
        self.refs = {}          # local id -> location (reference binding)
        self.brk = []
        self.cont = []
        self.lam = {}


# named constants of src/global.h stay symbolic
PHYS = [('SpeedOfLight', 2.99792458e8), ('ElementaryCharge', 1.6021766208e-19), ('EpsNull', 8.854187817e-12),
        ('MuNull', 1.25663706143591729e-06), ('InvRestMass', 1.758820025e11), ('mecsquared', 0.5109989461e6),
        ('PlanckH', 6.62607015e-34), ('Pi', 3.141592653589793)]
INT = re.compile(r'^(const )?(unsigned |signed )?(int|long|short|char|bool|size_t|long long|unsigned|unsigned int|unsigned long|unsigned long long|unsigned char|unsigned short)( int)?$')
PURE_METHODS = re.compile(r'::(get_?\w*|GetB|Traj\w+|size|at|back|front|empty|c_str|data|begin|end|child|attribute|name|as_\w+|value|norm|abs2nd|E|B|isNull|next_sibling)$')
STRUCTS = {'Vector': ('Vector::x', 'Vector::y', 'Vector::z'), 'ElMagField': ('ElMagField::vecE', 'ElMagField::vecB')}


def st_has(st, p):
    return any(k.op == 'f' and k.a[0] is p for k in st)


class Interp:
    def __init__(self, P, opaque=(), inline=None, maxdepth=8, budget=200000):
        self.P = P
        self.opaque = opaque if callable(opaque) else (lambda fn, s=frozenset(opaque): base(fn['n']) in s)
        self.maxdepth = maxdepth
        self.budget = budget
        self.events = []
        self.nloop = 0
        self.nframe = 0
        self.nalloc = 0
        self.ncall = 0
        self.seq = 0
        self.loops = []
        self.ompctx = []
        self.muted = 0
        self.frames = []
        self.visited = set()
        self.loopinfo = {}
        self.algebraic = {'Vector', 'ElMagField', 'FieldTrace'}     # operators kept as such
        self.dyntype = {}      # objects of known dynamic type
        self.session = False    # results of opaque members may change between calls
        self.extent = {}        # local arrays of fixed size
        self.nomod = set()      # opaque members that do not change their object
        self.versions = False   # array elements stored to in a loop are unknown afterwards
        self.classof = {r['u']: r for r in P.records.values()}

    # ------------------------------------------------------------ entry
    def run(self, fn, args=None, this=None):
        """interpret one function from symbolic parameters"""
        fr = self.enter(fn, this if this is not None else T('this'))
        self.state = State({}, ())
        for i, p in enumerate(fn['params']):
            v = args[i] if args and args[i] is not None else T('p', i, p['n'])
            if p['r']:
                fr.refs[p['id']] = T('*', v) if v.op != 'addr' else v.a[0]
            else:
                self.state.st[self.var(fr, p)] = v
        self.body(fn, fr)
        self.leave(fr)
        return self

    def enter(self, fn, this):
        self.nframe += 1
        fr = Frame(fn, this, self.nframe)
        self.frames.append(fr)
        self.visited.add(fn['u'])
        return fr

    def leave(self, fr):
        """merge all ways out of a function; returns the result term"""
        self.frames.pop()
        outs = list(fr.returns)
        if self.state is not None:
            outs.append((self.state, None))
        if not outs:
            self.state = None
            return T('dead')
        res = self.merge_outs(outs, fr)
        return res

    def merge_outs(self, outs, fr):
        # common guard prefix
        pre = outs[0][0].guards
        for s, _ in outs[1:]:
            n = 0
            while n < len(pre) and n < len(s.guards) and pre[n] is s.guards[n]:
                n += 1
            pre = pre[:n]
        st, v = outs[-1]
        res = v
        acc = st
        for s, v in reversed(outs[:-1]):
            g = and_(*s.guards[len(pre):]) if s.guards[len(pre):] else ONE
            acc = State(self.merge_store(g, s.st, acc.st), pre)
            if v is None or res is None:
                res = v if res is None else res
            else:
                res = ite(g, v, res)
        # conditions every way out has in common still hold
        if len(outs) > 1:
            common = [g for g in outs[0][0].guards[len(pre):] if all(g in s.guards for s, _ in outs[1:])]
            acc = State(acc.st, pre + tuple(common))
        self.state = acc
        return res if res is not None else T('void')

    def merge_store(self, c, a, b):
        if a is b:
            return a
        out = {}
        for k in a.keys() | b.keys():
            x, y = a.get(k), b.get(k)
            if x is None:
                x = self.load_in(a, k)
            if y is None:
                y = self.load_in(b, k)
            out[k] = x if x is y else ite(c, x, y)
        return out

    def load_in(self, st, k):
        if k.op not in ('f', 'e', 'sz', '*'):
            return self.initial(k)
        save = self.state
        self.state = State(st, ())
        v = self.load(k)
        self.state = save
        return v

    def initial(self, loc):
        return T('size', loc.a[0]) if loc.op == 'sz' else T('ld', loc)

    # ------------------------------------------------------------ events
    def emit(self, kind, node, name=None, recv=None, args=(), res=None, types=None, callee=None):
        if self.muted:
            return None
        e = Ev()
        e.kind, e.name, e.recv, e.args, e.res, e.node = kind, name, recv, tuple(args), res, node
        e.fn = self.frames[-1].fn
        e.guards = self.state.guards if self.state else ()
        e.loops = tuple(self.loops)
        e.omp = tuple(self.ompctx)
        e.stack = tuple(f.fn['n'] for f in self.frames)
        e.seq = self.seq
        e.types = types
        e.callee = callee
        self.seq += 1
        if self.seq > self.budget:
            raise AnalysisBroken('effect summary of %s too large' % self.frames[0].fn['n'])
        self.events.append(e)
        return e

    # ------------------------------------------------------------ memory
    def var(self, fr, d):
        return T('var', fr.num, d['n'], d['id'])

    def deref(self, p):
        if p.op == 'addr':
            return p.a[0]
        return T('*', p)

    def addr(self, loc):
        if loc.op == '*':
            return loc.a[0]
        return T('addr', loc)

    def field_of_value(self, v, f):
        if v.op == 'vec' and f in STRUCTS['Vector']:
            return v.a[STRUCTS['Vector'].index(f)]
        if v.op == 'emf' and f in STRUCTS['ElMagField']:
            return v.a[STRUCTS['ElMagField'].index(f)]
        if v.op == 'ld':
            return self.load(T('f', self.addr(v.a[0]), f))
        if v.op == 'ite':
            return ite(v.a[0], self.field_of_value(v.a[1], f), self.field_of_value(v.a[2], f))
        return T('fld', v, f)

    def load(self, loc):
        st = self.state.st
        v = st.get(loc)
        if v is not None:
            t = self.struct_overrides(loc, v)
            return t
        if loc.op == 'f' and loc.a[0].op == 'addr':
            whole = self.lookup_whole(loc.a[0].a[0])
            if whole is not None:
                return self.field_of_value(whole, loc.a[1])
        if loc.op == 'f' and loc.a[0].op != 'addr':
            whole = st.get(T('*', loc.a[0]))
            if whole is None and loc.a[0].op == 'poly' and any(len(m) == 1 and c == 1 and m[0].op == 'addr' and m[0].a[0].op == 'var'
                                                               for m, c in poly(loc.a[0]).items()):
                w = self.load(T('*', loc.a[0]))             # an element of a local array of structures
                if w.op in ('vec', 'emf', 'ite', 'call'):
                    whole = w
                elif not st_has(st, loc.a[0]):
                    return T('ldv', loc, ZERO)
            if whole is not None:
                return self.field_of_value(whole, loc.a[1])
        if loc.op == 'e':
            whole = self.lookup_whole(loc.a[0])
            if whole is not None:
                if whole.op == 'ld':
                    return self.load(T('e', whole.a[0], loc.a[1]))
                if whole.op == 'op' and whole.a[0].startswith('make:std::vector'):
                    return T('ldd', loc, whole)         # stored since, or the initial value
                return T('elem', whole, loc.a[1])
        # a struct assembled from component stores
        t = self.struct_overrides(loc, None)
        if t is not None:
            return t
        if loc.op == 'e' and self.versions:
            v = st.get(T('ver', loc.a[0]))
            if v is not None:
                return T('ldv', loc, v)
        if loc.op == '*' and loc.a[0].op == 'poly':
            b = [m[0] for m, c in poly(loc.a[0]).items() if len(m) == 1 and c == 1 and m[0].op == 'addr']
            if len(b) == 1:
                w = st.get(b[0].a[0])
                if w is not None and w.op == 'out':         # an array filled by an opaque call
                    return T('oute', w, add(loc.a[0], b[0], -1))
                if b[0].a[0].op == 'var':     # element of a local array
                    off, have = add(loc.a[0], b[0], -1), {}
                    for k, v in st.items():
                        if k.op == '*' and (k.a[0] is b[0] or k.a[0].op == 'poly' and poly(k.a[0]).get((b[0],)) == 1):
                            have[add(k.a[0], b[0], -1)] = v
                    if have and w is not None and w.op != 'undef':
                        have[ZERO] = w
                    if have and not isc(off) and len(have) <= 8 and all(isc(o) for o in have):
                        o = sorted(have, key=lambda x: x.a[0])
                        r = have[o[-1]]
                        for x in reversed(o[:-1]):
                            r = ite(cmp_('==', off, x), have[x], r)
                        return r
                    return T('ldv', loc, ZERO)
        if loc.op == 'sz':
            w = st.get(loc.a[0]) if loc.a[0].op in ('var', 'tmp') else None
            if w is not None and w.op == 'ld' and w.a[0] is not loc.a[0]:
                return self.load(T('sz', w.a[0]))
            if loc.a[0].op == 'f' and loc.a[0].a[0].op == 'addr' and loc.a[0] not in st:
                w = self.lookup_whole(loc.a[0])
                if w is not None and w.op == 'ld' and w.a[0] is not loc.a[0]:
                    return self.load(T('sz', w.a[0]))
            return T('size', loc.a[0])
        return T('ld', loc)

    def lookup_whole(self, loc):
        v = self.state.st.get(loc)
        if v is not None:
            return v
        if loc.op == 'f' and loc.a[0].op == 'addr':
            w = self.lookup_whole(loc.a[0].a[0])
            if w is not None:
                return self.field_of_value(w, loc.a[1])
        if loc.op == 'e':
            w = self.lookup_whole(loc.a[0])
            if w is not None:
                return self.load(loc)
        return None

    def struct_overrides(self, loc, v):
        st = self.state.st
        a = self.addr(loc)
        for s, fs in STRUCTS.items():
            if any(T('f', a, f) in st for f in fs):
                vals = []
                for f in fs:
                    x = st.get(T('f', a, f))
                    if x is None:
                        x = self.field_of_value(v, f) if v is not None else T('ld', T('f', a, f))
                    vals.append(x)
                return T('vec' if s == 'Vector' else 'emf', *vals)
        return v

    def store(self, loc, v, node, quiet=False):
        st = self.state.st
        if loc.op == 'ite':
            self.store(loc.a[1], ite(loc.a[0], v, self.load(loc.a[1])), node)
            self.store(loc.a[2], ite(loc.a[0], self.load(loc.a[2]), v), node)
            return
        a = self.addr(loc)
        for fs in STRUCTS.values():
            for f in fs:
                st.pop(T('f', a, f), None)
        if v.op == 'ld' and loc.op in ('f', 'var') and T('sz', v.a[0]) in st:
            st[T('sz', loc)] = st[T('sz', v.a[0])]
        st[loc] = v
        if not quiet:
            self.emit('store', node, recv=loc, args=(v,))

    # ------------------------------------------------------------ function bodies
    def body(self, fn, fr):
        for i in fn.get('inits') or []:
            if 'field' in i:
                v = self.ev(i['e']) if i.get('e') else T('undef')
                if i.get('e') is not None and i['e']['k'] == 'CXXConstructExpr' and not i['e'].get('c') and i['e'].get('n', '').startswith('std::'):
                    self.state.st[T('sz', T('f', fr.this, i['field']['n']))] = ZERO
                    self.emit('init', i['e'] or fn, name=i['field']['n'], recv=T('f', fr.this, i['field']['n']), args=(v,))
                    continue
                loc = T('f', fr.this, i['field']['n'])
                self.store(loc, v, i['e'] or fn, quiet=True)
                self.emit('init', i['e'] or fn, name=i['field']['n'], recv=loc, args=(v,))
            elif i.get('e'):
                e = i['e']
                if e['k'] == 'CXXConstructExpr' and self.P.functions.get(e.get('u')):
                    self.inline(self.P.functions[e['u']], [self.ev(x) for x in e.get('c') or []], e.get('c') or [], fr.this, e)
                else:
                    self.ev(e)
        self.st(fn['body'])

    def inline(self, fn, vals, nodes, this, n, locs=None):
        vecs = {i: self.vec_source(nodes[i]) for i, v in enumerate(vals) if v.op == 'op' and v.a[0].startswith('make:std::vector') and i < len(nodes) and
                i < len(fn['params']) and 'std::vector<double' in fn['params'][i]['t']}
        fr = self.enter(fn, this)
        for i, p in enumerate(fn['params']):
            v = vals[i] if i < len(vals) else T('p', i, p['n'])
            if vecs.get(i) is not None and not (p['r'] and locs and locs[i] is not None):
                if p['r']:
                    fr.refs[p['id']] = vecs[i]
                    continue
                l = self.var(fr, p)
                self.state.st[l] = v
                self.vec_assign(l, v)
                self.emit('vcopy', n, recv=l, args=(T('addr', vecs[i]),))
                continue
            if p['r'] and locs and locs[i] is not None:
                fr.refs[p['id']] = locs[i]
            elif p['r'] == 1 or p['r'] and v.op == 'ld':
                fr.refs[p['id']] = v.a[0] if v.op == 'ld' else T('tmp', v)
                if v.op != 'ld':
                    self.state.st[T('tmp', v)] = v
            else:
                self.state.st[self.var(fr, p)] = v
        self.body(fn, fr)
        r = self.leave(fr)
        if fr.vecs and self.state is not None:
            if len(fr.vecs) > 1:
                return T('unk', T('void'), self.uniq())
            self.vecret = (n, min(fr.vecs, key=lambda t: t.id))
        return r

    # ------------------------------------------------------------ statements
    def st(self, s):
        if s is None or self.state is None:
            return
        m = getattr(self, 's_' + s['k'], None)
        if m:
            m(s)
        else:
            self.ev(s)

    def s_CompoundStmt(self, s):
        for c in s.get('c') or []:
            self.st(c)
            if self.state is None:
                break

    s_AttributedStmt = s_LabelStmt = s_CompoundStmt

    def s_NullStmt(self, s):
        pass

    def s_DeclStmt(self, s):
        for d in s.get('c') or []:
            if d['k'] == 'Var':
                self.declare(d)

    def declare(self, d):
        fr = self.frames[-1]
        init = d.get('init')
        if d.get('r'):
            loc = self.lv(init) if init is not None else T('undef')
            fr.refs[d['id']] = loc
            return
        loc = self.var(fr, d)
        m = re.search(r'\[(\d+)\]$', d.get('t') or '')
        if m:
            self.extent[loc] = int(m.group(1))
        for k in [k for k in self.state.st if k.op in ('f', 'e', 'sz', 'ver') and self.under(k, loc)]:
            del self.state.st[k]
        if init is None:
            self.state.st[loc] = T('undef')
            return
        if init['k'] == 'LambdaExpr':
            fr.lam[init['op_u']] = init
            self.state.st[loc] = T('lam', init['op_u'])
            return
        if init['k'] == 'CXXConstructExpr' and not init.get('c') and init.get('n', '').startswith('std::vector'):
            self.state.st.pop(loc, None)
            self.state.st[T('sz', loc)] = ZERO
            return
        if init['k'] == 'CXXConstructExpr' and self.P.functions.get(init.get('u')) is not None and init['t'] not in STRUCTS and not init.get('copy'):
            self.state.st.pop(loc, None)
            self.construct(init, self.addr(loc))
            return
        if init['k'] == 'InitListExpr':
            self.state.st.pop(loc, None)
            rec = self.record(d.get('t')) if not (d.get('t') or '').endswith(']') else None
            if rec is not None and len(rec['fields']) >= len(init.get('c') or []):
                for f, c in zip(rec['fields'], init.get('c') or []):
                    self.state.st[T('f', self.addr(loc), f['n'])] = self.ev(c)
                return
            for i, c in enumerate(init.get('c') or []):
                self.state.st[self.deref(add(self.addr(loc), C(i)))] = self.ev(c)
            m = re.search(r'\[(\d+)\]$', d.get('t') or '')
            if m and int(m.group(1)) <= 64 and not re.search(r'\]\[', d['t']):
                for i in range(len(init.get('c') or []), int(m.group(1))):
                    self.state.st[self.deref(add(self.addr(loc), C(i)))] = ZERO
            return
        v = self.state.st[loc] = self.ev(init)
        if self.state is not None and (d.get('t') or '').replace('const ', '').startswith('std::vector<double') and v.op == 'op' and v.a[0].startswith('make:std::vector'):
            self.vec_assign(loc, v)
            src = self.vec_source(init)
            self.emit('vcopy', init, recv=loc, args=(T('addr', src) if src is not None else v,))

    def record(self, t):
        if not hasattr(self, 'recs'):
            self.recs = {r['n']: r for r in self.P.records.values() if r.get('fields')}
        return self.recs.get(t)

    def copy_fields(self, node, dst, n):
        """fields of a local structure that were assigned one by one are copied with it"""
        if node['k'] != 'DeclRefExpr' or base(node.get('t', '')) in STRUCTS or dst.op == 'var':
            return
        src = self.addr(self.lv(node))
        if src.op != 'addr' or src.a[0].op != 'var':
            return
        for k, v in list(self.state.st.items()):
            if k.op == 'f' and k.a[0] is src:
                self.store(T('f', self.addr(dst), k.a[1]), v, n)

    def vec_source(self, node):
        """the location of a std::vector of known initial value whose elements are about to be copied"""
        while node['k'] == 'CallExpr' and node.get('n') == 'std::move' or node['k'] in ('CXXConstructExpr', 'MaterializeTemporaryExpr') and len(node.get('c') or []) == 1:
            node = node['c'][0]
        if getattr(self, 'vecret', (None,))[0] is node:
            return self.vecret[1]           # returned by a function that was followed
        if node['k'] not in ('DeclRefExpr', 'MemberExpr', 'CXXOperatorCallExpr', 'ArraySubscriptExpr') or not node.get('t', '').replace('const ', '').startswith('std::vector'):
            return None
        l = self.lv(node)
        w = self.lookup_whole(l) if self.state is not None else None
        return l if w is not None and w.op == 'op' and w.a[0].startswith('make:std::vector') else None

    def vec_swap(self, a, b, n):
        va, vb = self.lookup_whole(a), self.lookup_whole(b)
        if not all(v is not None and v.op == 'op' and v.a[0].startswith('make:std::vector') for v in (va, vb)):
            return False
        t = T('tmp', T('op', 'swap', C(self.uniq())))
        self.emit('vcopy', n, recv=t, args=(T('addr', a),))
        for d, s, v in ((a, b, vb), (b, t, va)):
            self.vec_assign(d, v)
            self.store(d, v, n, quiet=d.op == 'var')
            self.emit('vcopy', n, recv=d, args=(T('addr', s),))
        return True

    def under(self, k, loc):
        while True:
            if k is loc:
                return True
            if k.op in ('f',):
                b = k.a[0]
                if b.op == 'addr':
                    k = b.a[0]
                else:
                    return False
            elif k.op in ('e', 'sz', 'ver'):
                k = k.a[0]
            elif k.op == '*':
                return any(m and m[0].op == 'addr' and m[0].a[0] is loc for m, c in poly(k.a[0]).items())
            else:
                return False

    def s_IfStmt(self, s):
        if s.get('init'):
            self.st(s['init'])
        if s.get('cvar'):
            self.declare(s['cvar'])
        c = truth(self.ev(s['c'][0]))
        if self.state is None:
            return
        c = self.known(c)
        self.branch(c, s['c'][1], s['c'][2] if len(s['c']) > 2 else None)

    def known(self, c):
        g = self.state.guards
        if entails(g, c):
            return ONE
        if entails(g, not_(c)):
            return ZERO
        return c

    def branch(self, c, a, b):
        if isc(c):
            self.run_part(a if c.a[0] else b)
            return
        s0 = self.state
        self.state = State(dict(s0.st), s0.guards + (c,))
        self.run_part(a)
        s1 = self.state
        nc = not_(c)
        self.state = State(dict(s0.st), s0.guards + (nc,))
        self.run_part(b)
        s2 = self.state
        self.join2(c, s0, s1, s2)

    def run_part(self, a):
        if a is None:
            return
        if callable(a):
            a()
        else:
            self.st(a)

    def join2(self, c, s0, s1, s2):
        if s1 is None:
            self.state = s2
        elif s2 is None:
            self.state = s1
        else:
            n = len(s0.guards)
            extra = tuple(g for g in s1.guards[n + 1:] if g in s2.guards[n + 1:])
            self.state = State(self.merge_store(c, s1.st, s2.st), s0.guards + extra)

    def s_SwitchStmt(self, s):
        v = self.ev(s['c'][0])
        body = s['c'][1]
        items, labels = [], []

        def flat(x):
            while x['k'] in ('CaseStmt', 'DefaultStmt'):
                if x['k'] == 'CaseStmt':
                    labels.append((len(items), self.ev(x['c'][0])))
                    x = x['c'][-1]
                else:
                    labels.append((len(items), None))
                    x = (x.get('c') or [None])[-1]
                if x is None:
                    return
            items.append(x)
        for x in body.get('c') or []:
            flat(x)
        fr = self.frames[-1]
        s0 = self.state
        outs = []
        conds = []
        default = None
        for at, val in labels:
            if val is None:
                default = at
                continue
            conds.append((cmp_('==', v, val), at))
        entries = conds + [(and_(*[not_(c) for c, _ in conds]), default)]
        for c, at in entries:
            if isc(c, 0):
                continue
            self.state = State(dict(s0.st), s0.guards + ((c,) if not isc(c) else ()))
            save, fr.brk = fr.brk, []
            if at is not None:
                for x in items[at:]:
                    self.st(x)
                    if self.state is None:
                        break
            ends = fr.brk + ([self.state] if self.state is not None else [])
            fr.brk = save
            for e in ends:
                outs.append((e, None))
        if not outs:
            self.state = None
            return
        self.merge_outs(outs, fr)

    def s_BreakStmt(self, s):
        self.frames[-1].brk.append(self.state)
        self.state = None

    def s_ContinueStmt(self, s):
        self.frames[-1].cont.append(self.state)
        self.state = None

    def s_ReturnStmt(self, s):
        fr = self.frames[-1]
        v = self.ev(s['c'][0]) if s.get('c') and s['c'][0] else None
        if self.state is None:
            return
        if v is not None and v.op == 'op' and v.a[0].startswith('make:std::vector'):
            src = self.vec_source(s['c'][0])
            if src is not None and not (fr.fn.get('rt') or '').endswith('&'):
                fr.vecs.add(src)
        if len(self.frames) == 1 or not self.muted:
            self.emit('return', s, args=(v,) if v is not None else ())
        fr.returns.append((self.state, v))
        self.state = None

    def s_CXXTryStmt(self, s):
        s0 = self.state.copy()
        nret = len(self.frames[-1].returns)
        self.st(s['c'][0])
        s1 = self.state
        for h in s['c'][1:]:
            self.ncall += 1
            c = T('exc', h['l'], self.ncall)
            # anything the try block assigned is unknown in the handler
            st = dict(s0.st)
            if s1 is not None:
                for k, v in s1.st.items():
                    if st.get(k) is not v:
                        st[k] = T('unk', k, self.ncall)
            self.state = State(st, s0.guards + (c,))
            for x in h.get('c') or []:
                self.st(x)
            s2 = self.state
            base_ = State(s0.st, s0.guards)
            if s1 is None:
                s1 = s2
            elif s2 is not None:
                s1 = State(self.merge_store(c, s2.st, s1.st), s0.guards)
        self.state = s1

    def s_OMP(self, s):
        self.ompctx.append(s)
        for c in s.get('c') or []:
            self.st(c)
        self.ompctx.pop()

    # ---- loops
    def s_ForStmt(self, s):
        c = s['c']
        if c[0]:
            self.st(c[0])
        self.loop(s, c[1], c[3], c[2])

    def s_WhileStmt(self, s):
        self.loop(s, s['c'][0], s['c'][1], None)

    def s_DoStmt(self, s):
        self.loop(s, s['c'][1], s['c'][0], None, post=True)

    def s_CXXForRangeStmt(self, s):
        rng = s['c'][0]
        if 'pugi::xml_object_range' in rng.get('t', ''):
            v = self.ev(rng)
            if self.state is None:
                return
            if v.op == 'xml' and v.a[0] == 'children':
                return self.xml_range(s, v)
        loc = self.lv(rng)
        fr = self.frames[-1]
        d = s['var']

        def bind(k):
            el = T('e', loc, k)
            if d.get('r'):
                fr.refs[d['id']] = el
            else:
                self.state.st[self.var(fr, d)] = self.load(el)
        self.loop(s, None, s['c'][1], None, rng=loc, bind=bind)

    def xml_range(self, s, v):
        fr, d = self.frames[-1], s['var']
        loc = T('var', fr.num, 'xmlrange', 'xmlrange%d' % self.uniq())
        self.state.st[T('sz', loc)] = T('xml', 'count', *v.a[1:])

        def bind(k):
            if d.get('r'):
                fr.refs[d['id']] = T('e', loc, k)
                self.state.st[T('e', loc, k)] = T('xml', 'item', v.a[1], k, *v.a[2:])
            else:
                self.state.st[self.var(fr, d)] = T('xml', 'item', v.a[1], k, *v.a[2:])
        self.loop(s, None, s['c'][1], None, rng=loc, bind=bind)

    def loop(self, s, cond, body, inc, post=False, rng=None, bind=None):
        fr = self.frames[-1]
        self.nloop += 1
        lid = self.nloop
        L = Loop()
        L.id, L.node, L.fn, L.brk, L.container = lid, s, fr.fn, False, rng
        L.iter = T('iter', lid)
        L.outer = tuple(self.loops)
        L.start = self.ncall
        s0 = self.state
        L.guards = s0.guards
        ind = {}       # loc -> step term
        carried = set()
        final = None

        def one(header_st, mute):
            """run the body once from the given header store; returns (states at the end of the body, condition, break states)"""
            nloop, nframe, nalloc, ncall = self.nloop, self.nframe, self.nalloc, self.ncall
            if mute:
                self.muted += 1
            saved_b, saved_c, nret = fr.brk, fr.cont, len(fr.returns)
            fr.brk, fr.cont = [], []
            self.loops.append(L)
            self.state = State(dict(header_st), s0.guards)
            c = ONE
            if rng is not None:
                bind(L.iter)
            elif cond is not None and not post:
                c = truth(self.ev(cond))
                if self.state is not None and not isc(c):
                    self.state = State(self.state.st, self.state.guards + (c,))
            hs = State(dict(self.state.st), s0.guards)
            if isc(c, 0):
                self.state = None
            else:
                self.st(body)
            ends = fr.cont + ([self.state] if self.state is not None else [])
            if ends:
                if len(ends) > 1:
                    self.merge_outs([(e, None) for e in ends], fr)
                else:
                    self.state = ends[0]
                if inc is not None:
                    self.ev(inc)
                if cond is not None and post:
                    c = truth(self.ev(cond))
            end = self.state
            brk = fr.brk
            rets = fr.returns[nret:]
            self.loops.pop()
            fr.brk, fr.cont = saved_b, saved_c
            if mute:
                self.muted -= 1
                del fr.returns[nret:]
                self.nloop, self.nframe, self.nalloc, self.ncall = nloop, nframe, nalloc, ncall
            return end, c, brk, rets, hs

        # pass 1..: find what the body changes
        changed = set()
        for _ in range(4):
            hdr = dict(s0.st)
            for k in changed:
                hdr[k] = T('lv', lid, k)
            end, c, brk, rets, hs = one(hdr, True)
            new = set()
            for e in ([end] if end is not None else []) + brk:
                for k, v in e.st.items():
                    if k in changed:
                        continue
                    if hdr.get(k, None) is not v and not (k not in hdr and v is self.initial(k)):
                        if k.op in ('var', 'tmp') and k not in s0.st or self.local_to_body(k, s0):
                            continue
                        if contains(k, lambda t: t is L.iter):
                            continue
                        new.add(k)
            if not new:
                break
            changed |= new
        steps = {}
        if end is not None:
            for k in changed:
                x = T('lv', lid, k)
                v = end.st.get(k)
                if v is None:
                    continue
                d = add(v, x, -1)
                if k.op in ('var', 'sz', 'f') and not contains(d, lambda t: t.op in ('lv', 'iter') and t.a[0] == lid or
                                                                   t.op in ('lv', 'lo', 'iter', 'trip') and isinstance(t.a[0], int) and t.a[0] > lid or
                                                                   t.op in ('unk', 'ldv') or t.op == 'call' and t.a[3] is not None):
                    if d.op == 'c' or self.intlike(d):
                        steps[k] = d
        # closed form of induction variables
        hdr = dict(s0.st)
        inits = {}
        for k in changed:
            init = s0.st.get(k)
            if init is None:
                init = self.initial(k)
            inits[k] = init
            if k in steps:
                hdr[k] = add(init, mul(L.iter, steps[k]))
            else:
                hdr[k] = T('lv', lid, k)
        # a second look: steps that depended on other induction variables stay carried
        nl = self.nloop
        end, c, brk, rets, hs = one(hdr, True)
        redo = False
        if end is not None:
            for k in list(steps):
                v = end.st.get(k)
                if v is None or add(v, hdr[k], -1) is not steps[k]:
                    del steps[k]
                    redo = True
        if redo:
            for k in changed:
                if k not in steps:
                    hdr[k] = T('lv', lid, k)
        L.brk = bool(brk) or bool(rets)
        L.cond = c
        L.trip = self.trip(L, c, rng)
        end, c, brk, rets, hs = one(hdr, False)
        L.cond = c
        L.trip = self.trip(L, c, rng)
        if post and L.trip.op != 'trip':
            L.trip = add(L.trip, ONE)
        # elements that were only addressed with the value of the index before the loop
        same = {k for k in changed if k.op in ('e', '*', 'f') and k not in steps and
                all(x.st.get(k) is T('lv', lid, k) for x in ([end] if end is not None else []) + brk)}
        changed -= same
        self.loopinfo[lid] = dict(loop=L, init=inits, steps=steps, end=end.st if end else {}, carried={k for k in changed if k not in steps},
                                  exits=[(x.guards, x.st) for x in brk], returns=[x.guards for x, v in rets], post=post,
                                  ends=end is not None)
        # after the loop
        out = dict(s0.st)
        # side effects of the condition on the last check are included in hs
        for k in changed:
            if k in steps and not brk:
                out[k] = add(inits[k], mul(L.trip, steps[k]))
            elif end is not None or brk:
                out[k] = T('lo', lid, k)
        for k in same:
            w = self.lookup_whole(k.a[0])
            if w is not None and w.op == 'op' and w.a[0].startswith('make:std::vector'):
                out.pop(k, None)
            elif k.op != 'e' and k not in s0.st or contains(k, lambda t: t.op == 'lv' and t.a[0] == lid):
                out.pop(k, None)
            else:
                out[k] = T('ldv', k, C(lid))
        if self.versions:
            for x in ([end] if end is not None else []) + brk:
                for k in x.st:
                    if k.op == 'e' and x.st[k] is not s0.st.get(k) and contains(k.a[1], lambda t: t is L.iter or t.op in ('lv', 'lo', 'iter')):
                        out[T('ver', k.a[0])] = C(lid)
                    elif k.op == 'ver':
                        out[k] = x.st[k]
        g = s0.guards
        if end is None and not brk and not (cond is not None or rng is not None):
            self.state = None
            return
        # throws in the first iteration etc. leave no condition behind
        self.state = State(out, g)

    def local_to_body(self, k, s0):
        """locations of variables declared inside the body"""
        while k.op in ('f', 'e', 'sz', 'addr', '*', 'tmp'):
            b = k.a[0]
            if b.op == 'poly':
                at = [m[0] for m, c in b.a[0] if m and m[0].op in ('addr', 'new')]
                if not at:
                    return False
                b = at[0]
            k = b
        if k.op == 'var':
            return k.a[0] > self.frames[-1].num or (k not in s0.st and not any(x.op in ('f', 'e', 'sz') and self.under(x, k) for x in s0.st))
        return False

    def intlike(self, d):
        return not contains(d, lambda t: t.op in ('undef', 'void', 'vec', 'emf'))

    def trip(self, L, c, rng):
        if rng is not None:
            return self.load(T('sz', rng)) if self.state is None or True and self.state else T('size', rng)
        parts = list(c.a[0]) if c.op == 'and' else [c]
        for p in parts:
            q = p
            if q.op in ('le', 'lt'):
                d = poly(q.a[0])
            elif q.op == 'not' and q.a[0].op == 'eq':
                d = poly(q.a[0].a[0])
            else:
                continue
            co = [x for m, x in d.items() if L.iter in m]
            if len(co) != 1 or (L.iter,) not in d:
                continue
            k = d[(L.iter,)]
            rest = unpoly({m: x for m, x in d.items() if L.iter not in m})
            if contains(rest, lambda t: t.op == 'lv' and t.a[0] == L.id):
                continue
            if self.session and contains(rest, lambda t: t.op == 'call' and t.a[3] is not None and t.a[3] > L.start):
                continue            # asked again in every iteration
            if len(parts) > 1:
                L.brk = True
            if q.op == 'le' and k == -1:
                return add(rest, ONE)
            if q.op == 'not' and abs(k) == 1:
                return rest if k == -1 else neg(rest)
        return T('trip', L.id)

    # ------------------------------------------------------------ lvalues
    def lv(self, n):
        """location designated by an expression"""
        k = n['k']
        fr = self.frames[-1]
        if k == 'DeclRefExpr':
            r = n['ref']
            if r['d'] in ('local', 'parm', 'slocal'):
                for f in reversed(self.frames):
                    if r['id'] in f.refs and f is fr:
                        return f.refs[r['id']]
                    break
                if n.get('cap') or getattr(fr, 'outer', None):
                    o = fr
                    while getattr(o, 'outer', None):
                        o2 = o.outer
                        if r['id'] in o2.refs:
                            return o2.refs[r['id']]
                        if T('var', o.num, r['n'], r['id']) in self.state.st:
                            return T('var', o.num, r['n'], r['id'])
                        o = o2
                    return T('var', o.num, r['n'], r['id'])
                return T('var', fr.num, r['n'], r['id'])
            return T('g', r.get('n', ''), r.get('u', ''))
        if k == 'MemberExpr':
            r = n['ref']
            if r['d'] != 'field':
                return T('g', r.get('n', ''), r.get('u', ''))
            b = n['c'][0]
            if n.get('arrow'):
                return T('f', self.ev(b), r['n'])
            return T('f', self.addr(self.lv(b)), r['n'])
        if k == 'ArraySubscriptExpr':
            a, b = n['c']
            if '[' in a.get('t', '') or a.get('t', '').endswith('*') or not re.search(r'\*|\[', b.get('t', '')):
                p, i = a, b
            else:
                p, i = b, a
            iv = self.ev(i)
            if re.search(r'\[\d*\]$', p.get('t', '')) and p['k'] in ('DeclRefExpr', 'MemberExpr'):
                return self.deref(add(self.addr(self.lv(p)), iv))
            return self.deref(add(self.ev(p), iv))
        if k == 'UnaryOperator' and n['op'] == '*':
            return self.deref(self.ev(n['c'][0]))
        if k == 'UnaryOperator' and n['op'] in ('++', '--'):
            self.ev(n)
            return self.lv(n['c'][0])
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('='):
            self.ev(n)
            return self.lv(n['c'][0])
        if k == 'CXXOperatorCallExpr':
            op = n['op']
            if op in ('*', '[]') and isiter(n['c'][0]):
                l = self.iter_element(n, op, n['c'])
                if l is not None:
                    return l
            if op in ('++', '--', '+=', '-=') and isiter(n['c'][0]) and not (len(n['c']) == 2 and len(op) == 2 and op[1] in '+-'):
                self.ev(n)
                return self.lv(n['c'][0])
            if op == '[]' and n.get('n', '').startswith('std::'):
                return T('e', self.lv(n['c'][0]), self.ev(n['c'][1]))
            if op == '*' and len(n['c']) == 1:
                return T('*', self.ev(n['c'][0]))
            if op in ('=', '+=', '-=', '*=', '/='):
                self.ev(n)
                return self.lv(n['c'][0])
        if k == 'CXXMemberCallExpr':
            m = n.get('n', '').rsplit('::', 1)[-1]
            if n.get('n', '').startswith('std::'):
                L = self.lv(n['c'][0]) if n['c'][0]['k'] != 'CXXThisExpr' else T('*', fr.this)
                if m == 'back':
                    return T('e', L, add(self.load(T('sz', L)), ONE, -1))
                if m == 'front':
                    return T('e', L, ZERO)
                if m == 'at':
                    return T('e', L, self.ev(n['c'][1]))
        if k == 'CXXThisExpr':
            return T('*', fr.this)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr'):
            return self.lv(n['c'][0])
        if k == 'ConditionalOperator':
            c = truth(self.ev(n['c'][0]))
            return ite(c, self.lv(n['c'][1]), self.lv(n['c'][2]))
        v = self.ev(n)
        if v.op == 'ld':
            return v.a[0]
        t = T('tmp', v)
        self.state.st.setdefault(t, v)
        return t

    # ------------------------------------------------------------ rvalues
    def ev(self, n):
        if n is None or self.state is None:
            return T('void')
        k = n['k']
        if 'cv' in n and k not in ('DeclRefExpr', 'MemberExpr') and n['cv'] is not None:
            v = n['cv']
            if isinstance(v, float) or n.get('t') in ('double', 'float'):
                for nm, x in PHYS:
                    if abs(v - x) <= 1e-9 * x:
                        return T('const', nm)
                if k not in ('BinaryOperator', 'ParenExpr', 'UnaryOperator'):
                    return C(v)
            else:
                return C(v)
        m = getattr(self, 'e_' + k, None)
        if m:
            return m(n)
        vs = [self.ev(c) if not c['k'].endswith('Stmt') else (self.st(c) or T('void')) for c in n.get('c') or [] if isinstance(c, dict)]
        if self.state is None:
            return T('void')
        return T('op', k, *vs)

    def e_DeclRefExpr(self, n):
        r = n['ref']
        if r['d'] == 'enum':
            return C(r['v'])
        if r['d'] == 'fn':
            return T('fnref', r.get('u', ''))
        if r['d'] == 'global':
            g = self.P.globals.get(r['u'])
            if g is not None and g.get('const') and g.get('init') is not None and 'cv' in g['init']:
                return C(g['init']['cv'])
            if g is not None and g.get('const') and g.get('init') is not None and n.get('t', '').replace('const ', '') in STRUCTS:
                return self.ev(g['init'])
        if 'cv' in n and r['d'] != 'local':
            return C(n['cv'])
        loc = self.lv(n)
        if re.search(r'\[\d*\]$', n.get('t', '')):
            return self.addr(loc)
        return self.load(loc)

    def e_MemberExpr(self, n):
        if n['ref']['d'] == 'enum':
            return C(n['ref']['v'])
        if n['ref']['d'] == 'fn':
            return T('fnref', n['ref'].get('u', ''))
        b = n['c'][0]
        if not n.get('arrow') and b['k'] not in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr', 'CXXThisExpr', 'UnaryOperator') and \
                not (b['k'] == 'CXXOperatorCallExpr' and b['op'] == '[]'):
            v = self.ev(b)
            return self.field_of_value(v, n['ref']['n'])
        loc = self.lv(n)
        if re.search(r'\[\d*\]$', n.get('t', '')):
            return self.addr(loc)
        return self.load(loc)

    def e_ArraySubscriptExpr(self, n):
        return self.load(self.lv(n))

    def e_CXXThisExpr(self, n):
        return self.frames[-1].this

    def e_IntegerLiteral(self, n):
        return C(n['v'])

    def e_FloatingLiteral(self, n):
        for nm, x in PHYS:
            if abs(n['v'] - x) <= 1e-9 * x:
                return T('const', nm)
        return C(n['v'])

    def e_CXXBoolLiteralExpr(self, n):
        return C(int(n['v']))

    def e_CharacterLiteral(self, n):
        return C(n.get('cv', n.get('v', 0)) or 0)

    def e_StringLiteral(self, n):
        return T('s', n.get('s', ''))

    def e_GNUNullExpr(self, n):
        return ZERO

    e_CXXNullPtrLiteralExpr = e_GNUNullExpr

    def e_UnaryExprOrTypeTraitExpr(self, n):
        return C(n.get('cv', 0))

    def cast(self, n):
        v = self.ev(n['c'][0])
        ck = n.get('ck')
        if ck == 'FloatingToIntegral' and not isc(v):
            return T('op', 'int', v)
        if ck in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean'):
            return truth(v)
        return v

    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = cast

    def e_CXXDynamicCastExpr(self, n):
        v = self.ev(n['c'][0])
        return T('dyn', n['t'], v)

    def e_CXXReinterpretCastExpr(self, n):
        return self.ev(n['c'][0])

    def e_CXXDefaultArgExpr(self, n):
        return self.ev(n['c'][0]) if n.get('c') else T('void')

    def e_UnaryOperator(self, n):
        op = n['op']
        x = n['c'][0]
        if op == '&':
            return self.addr(self.lv(x))
        if op == '*':
            return self.load(self.deref(self.ev(x)))
        if op in ('++', '--'):
            loc = self.lv(x)
            old = self.load(loc)
            new = add(old, ONE, 1 if op == '++' else -1)
            self.store(loc, new, n, quiet=loc.op == 'var')
            return old if n.get('post') else new
        v = self.ev(x)
        if self.state is None:
            return T('void')
        if op == '-':
            return neg(v)
        if op == '+':
            return v
        if op == '!':
            return not_(truth(v))
        return T('op', op, v)

    def isint(self, n):
        return bool(INT.match(n.get('t', ''))) or n.get('t', '').endswith('*')

    def e_BinaryOperator(self, n):
        op = n['op']
        a, b = n['c']
        if op == '=':
            v = self.ev(b)
            loc = self.lv(a)
            if self.state is None:
                return T('void')
            self.store(loc, v, n, quiet=loc.op == 'var')
            return v
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op in ('&&', '||'):
            x = truth(self.ev(a))
            s0 = self.state
            if s0 is None:
                return T('void')
            g = x if op == '&&' else not_(x)
            if isc(g, 0):
                return x
            self.state = State(s0.st, s0.guards + (() if isc(g) else (g,)))
            y = truth(self.ev(b))
            if self.state is None:
                return T('void')
            self.state = State(self.state.st, s0.guards)
            return and_(x, y) if op == '&&' else or_(x, y)
        x, y = self.ev(a), self.ev(b)
        if self.state is None:
            return T('void')
        return self.arith(op, x, y, self.isint(a) and self.isint(b), n)

    def arith(self, op, x, y, integer, n=None):
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if x.op in ('le', 'lt', 'eq', 'not', 'and', 'or') and isc(y):
                v = bool(y.a[0]) == (op == '==')
                return x if v else not_(x)
            return cmp_(op, x, y, integer)
        if op == '+':
            return add(x, y)
        if op == '-':
            return add(x, y, -1)
        if op == '*':
            return mul(x, y)
        if op == '/':
            if isc(y) and y.a[0] and not integer:
                return mul(x, C(Fraction(1) / Fraction(y.a[0]))) if isinstance(y.a[0], int) else T('op', '/', x, y)
            if isc(y, 1):
                return x
            return T('op', '/' if not integer else 'idiv', x, y)
        if op == '%':
            return T('op', '%', x, y)
        return T('op', op, x, y)

    def e_CompoundAssignOperator(self, n):
        op = n['op'][:-1]
        a, b = n['c']
        v = self.ev(b)
        loc = self.lv(a)
        if self.state is None:
            return T('void')
        r = self.arith(op, self.load(loc), v, self.isint(a) and self.isint(b), n)
        self.store(loc, r, n, quiet=loc.op == 'var')
        return r

    def e_ConditionalOperator(self, n):
        c = self.known(truth(self.ev(n['c'][0])))
        if self.state is None:
            return T('void')
        if isc(c):
            return self.ev(n['c'][1] if c.a[0] else n['c'][2])
        res = []
        s0 = self.state
        self.state = State(dict(s0.st), s0.guards + (c,))
        a = self.ev(n['c'][1])
        s1 = self.state
        self.state = State(dict(s0.st), s0.guards + (not_(c),))
        b = self.ev(n['c'][2])
        s2 = self.state
        self.join2(c, s0, s1, s2)
        if s1 is None:
            return b
        if s2 is None:
            return a
        return ite(c, a, b)

    def e_LambdaExpr(self, n):
        self.frames[-1].lam[n['op_u']] = n
        return T('lam', n['op_u'])

    def e_CXXThrowExpr(self, n):
        c = (n.get('c') or [None])[0]
        v = self.ev_quiet(c) if c else T('void')
        if self.state is None:
            return T('void')
        self.emit('throw', n, name=(c or {}).get('t', ''), args=(v,))
        self.state = None
        return T('void')

    def ev_quiet(self, n):
        self.muted += 1
        try:
            x = n
            while x['k'] in ('CXXFunctionalCastExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr') and x.get('c'):
                if x['k'] != 'CXXFunctionalCastExpr' and not x.get('copy'):
                    return T('op', 'exception', *[self.ev(y) for y in x['c']])
                x = x['c'][0]
            return T('op', 'exception')
        finally:
            self.muted -= 1

    def e_CXXNewExpr(self, n):
        self.nalloc += 1
        size = self.ev(n['size']) if n.get('size') else ONE
        a = T('new', self.nalloc, n['at'], 'array' if n['array'] else 'single', size, len(self.loops) and tuple(l.iter for l in self.loops))
        self.emit('alloc', n, name=n['at'], args=(size,), res=a)
        c = (n.get('c') or [None])[0]
        if c is not None and c['k'] == 'CXXConstructExpr' and not n['array']:
            self.construct(c, a)
        elif c is not None:
            self.state.st[T('*', a)] = self.ev(c)
        return a

    def e_CXXDeleteExpr(self, n):
        v = self.ev(n['c'][0])
        if self.state is None:
            return T('void')
        self.emit('free', n, name='array' if n['array'] else 'single', args=(v,), types=n['c'][0].get('t'))
        return T('void')

    def construct(self, n, at):
        """constructor call on the object at address `at'"""
        fn = self.P.functions.get(n.get('u'))
        args = n.get('c') or []
        if n.get('copy') and (fn is None or not fn.get('body')):
            v = self.ev(args[0])
            if self.state is not None:
                self.state.st[self.deref(at)] = v
                self.emit('copy', n, name=n.get('n', ''), recv=at, args=(v,))
            return
        locs = [None] * len(args)
        vals = []
        for i, a in enumerate(args):
            pr = n['pr'][i] if i < len(n.get('pr') or []) else 0
            if pr == 1:
                locs[i] = self.lv(a)
                vals.append(self.load(locs[i]))
            else:
                vals.append(self.ev(a))
        if self.state is None:
            return
        if fn is not None and self.may_inline(fn):
            self.inline(fn, vals, args, at, n, locs)
        else:
            self.ncall += 1
            self.emit('call', n, name=n.get('n', ''), recv=at, args=vals, callee=n.get('u'))

    def may_inline(self, fn):
        if len(self.frames) > self.maxdepth or any(f.fn['u'] == fn['u'] for f in self.frames):
            return False
        return not self.opaque(fn)

    def e_CXXConstructExpr(self, n):
        args = n.get('c') or []
        t = n['t']
        if n.get('copy') and args:
            return self.ev(args[0])
        if t == 'Vector':
            if len(args) == 3:
                return T('vec', *[self.ev(a) for a in args])
            if not args:
                return T('vec', ZERO, ZERO, ZERO)
        if t == 'ElMagField':
            if len(args) == 2:
                return T('emf', *[self.ev(a) for a in args])
            if not args:
                z = T('vec', ZERO, ZERO, ZERO)
                return T('emf', z, z)
        if t.startswith('std::') or t not in self.P.by_type:
            vs = [self.ev(a) for a in args if a['k'] != 'CXXDefaultArgExpr']
            if self.state is None:
                return T('void')
            return T('op', 'make:' + base(t), *vs) if len(vs) != 1 or 'string' not in t else vs[0]
        self.nalloc += 1
        a = T('new', self.nalloc, t, 'temp', ONE, 0)
        self.construct(n, a)
        if self.state is None:
            return T('void')
        return T('ld', T('*', a))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_InitListExpr(self, n):
        return T('op', 'init', *[self.ev(c) for c in n.get('c') or []])

    # ------------------------------------------------------------ calls
    def arglist(self, n, args):
        vals, locs = [], []
        prs = n.get('pr') or []
        for i, a in enumerate(args):
            pr = prs[i] if i < len(prs) else 0
            if pr == 1 and a['k'] in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr', 'UnaryOperator', 'CXXOperatorCallExpr'):
                l = self.lv(a)
                locs.append(l)
                vals.append(self.load(l) if self.state is not None else T('void'))
            else:
                locs.append(None)
                vals.append(self.ev(a))
            if self.state is None:
                return None, None
        return vals, locs

    def e_CXXOperatorCallExpr(self, n):
        op = n['op']
        args = n['c']
        t = n.get('t', '')
        if op in ('<<', '>>') and 'stream' in t:
            for a in args:
                if a['k'] != 'DeclRefExpr':
                    self.ev(a)
            return T('stream')
        q = n.get('n', '')
        if args and isiter(args[0]):
            r = self.iterator_operator(n, op, args)
            if r is not None:
                return r
        if op == '=' :
            fn = self.P.functions.get(n.get('u'))
            if fn is not None and fn.get('body') and base(fn.get('clsn') or '') not in ('Vector', 'ElMagField') and self.may_inline(fn):
                pass
            else:
                v = self.ev(args[1])
                loc = self.lv(args[0])
                if self.state is None:
                    return T('void')
                if args[0].get('t', '').startswith('std::vector'):
                    src = self.vec_source(args[1])
                    if src is not None and src is loc:
                        return v
                    self.vec_assign(loc, v)
                    self.store(loc, v, n, quiet=loc.op == 'var')
                    if src is not None:
                        self.emit('vcopy', n, recv=loc, args=(T('addr', src),))
                    return v
                self.store(loc, v, n, quiet=loc.op == 'var')
                self.copy_fields(args[1], loc, n)
                return v
        if op == '[]' and q.startswith('std::'):
            return self.load(self.lv(n))
        if op == '()':
            o = self.ev(args[0])
            if o.op == 'lam':
                return self.call_lambda(o, args[1:], n)
        if q.startswith('pugi::') or args and args[0].get('t', '').startswith('pugi::xml_') and op in ('==', '!=', '!'):
            return self.xml_operator(n, op, args)
        fn = self.P.functions.get(n.get('u'))
        cls = base(q.rsplit('::', 1)[0]) if '::' in q else ''
        if op in ('+', '-', '*', '/', '+=', '-=', '*=', '/=', '==', '!=') and (cls in self.algebraic or cls == '' and not q.startswith('std::') and fn is not None and len(args) == 2):
            if op.endswith('=') and op not in ('==', '!='):
                v = self.ev(args[1])
                loc = self.lv(args[0])
                if self.state is None:
                    return T('void')
                r = T('op', op[:-1], self.load(loc), v)
                self.store(loc, r, n, quiet=loc.op == 'var')
                return r
            vs = [self.ev(a) for a in args]
            if self.state is None:
                return T('void')
            return T('op', op, *vs)
        vals, locs = self.arglist(n, args)
        if vals is None:
            return T('void')
        if op == '*' and len(args) == 1:
            return T('ld', T('*', vals[0]))
        if op in ('++', '--') or q.startswith('std::'):
            if op in ('+=', '=') and locs[0] is None:
                l = self.lv(args[0])
                r = T('op', op, *vals)
                self.store(l, r, n, quiet=l.op == 'var')
                return r
            if op in ('==', '!='):
                e = T('eq', T('op', 'cmp', *sorted(vals, key=lambda t: t.id)))
                return e if op == '==' else not_(e)
            return T('op', op, *vals)
        return self.do_call(n, vals[1:], locs[1:], self.addr(self.lv(args[0])) if fn is not None and fn.get('cls') else None, fn, args[1:])

    # ---- iterators of std::vector: begin(container) + index
    def iterator_operator(self, n, op, args):
        if op in ('*', '->', '[]'):
            l = self.iter_element(n, op, args)
            if l is None:
                return None
            return self.addr(l) if op == '->' else self.load(l)
        if op in ('++', '--', '+=', '-='):
            d = ONE if op in ('++', '--') else self.ev(args[1])
            l = self.lv(args[0])
            if self.state is None:
                return T('void')
            o = self.load(l)
            v = add(o, d, 1 if op[0] == '+' else -1)
            self.store(l, v, n, quiet=l.op == 'var')
            return o if op in ('++', '--') and len(args) == 2 else v
        if op == '+' or op == '-' and not isiter(args[1]):
            return add(self.ev(args[0]), self.ev(args[1]), 1 if op == '+' else -1)
        if op in ('-', '==', '!=', '<', '>', '<=', '>=') and isiter(args[1]):
            a, b = [self.ev(x) for x in args]
            if self.state is None:
                return T('void')
            x, y = self.linear(a), self.linear(b)
            if x is None or y is None or x[0] is not y[0]:
                x, y = (0, a), (0, b)
            return add(x[1], y[1], -1) if op == '-' else cmp_(op, x[1], y[1])

    def iter_element(self, n, op, args):
        a = self.ev(args[0])
        if op == '[]':
            a = add(a, self.ev(args[1]))
        if self.state is None:
            return T('tmp', ZERO)
        r = self.linear(a)
        return T('e', r[0], r[1]) if r is not None and r[2] else None

    def vec_assign(self, loc, v):
        st = self.state.st
        for k in [k for k in st if k.op in ('e', 'sz', 'ver') and self.under(k, loc)]:
            del st[k]
        if v.op == 'op' and v.a[0].startswith('make:std::vector'):
            if len(v.a) > 1:
                st[T('sz', loc)] = v.a[1]
            else:
                st[T('sz', loc)] = ZERO
        elif v.op == 'ld':
            s = st.get(T('sz', v.a[0]))
            st[T('sz', loc)] = s if s is not None else T('size', v.a[0])
        else:
            st[T('sz', loc)] = T('sizeof', v)

    def call_lambda(self, o, args, n):
        lam = None
        owner = None
        for f in reversed(self.frames):
            if o.a[0] in f.lam:
                lam, owner = f.lam[o.a[0]], f
                break
        vals = [self.ev(a) for a in args]
        if lam is None or self.state is None or len(self.frames) > self.maxdepth + 4:
            return T('call', 'lambda', None, tuple(vals), self.uniq())
        fake = dict(owner.fn)
        fake['body'] = lam['c'][0]
        fr = self.enter(fake, owner.this)
        fr.outer = owner
        for p, v, a in zip(lam['params'], vals, args):
            if p['r'] and v.op == 'ld':
                fr.refs[p['id']] = v.a[0]
            else:
                self.state.st[T('var', fr.num, p['n'], p['id'])] = v
        self.st(lam['c'][0])
        return self.leave(fr)

    def uniq(self):
        self.ncall += 1
        return self.ncall

    def e_CXXMemberCallExpr(self, n):
        obj = n['c'][0]
        args = n['c'][1:]
        q = n.get('n', '')
        m = q.rsplit('::', 1)[-1]
        fn = self.P.functions.get(n.get('u'))
        if q.startswith('pugi::xml_') and not q.startswith('pugi::xml_document') and not q.startswith('pugi::xml_parse'):
            return self.xml_method(n, obj, args, m)
        if q.startswith('std::') and not q.startswith('std::basic_string'):
            return self.std_method(n, obj, args, m)
        # address of the receiver
        if obj['k'] == 'CXXThisExpr':
            recv = self.frames[-1].this
        elif obj.get('t', '').endswith('*'):
            recv = self.ev(obj)
        else:
            recv = self.addr(self.lv(obj))
        if self.state is None:
            return T('void')
        vals, locs = self.arglist(n, args)
        if vals is None:
            return T('void')
        cls = base(q.rsplit('::', 1)[0]) if '::' in q else ''
        if m in ('c_str', 'data') and q.startswith('std::basic_string') and recv.op == 'addr':
            v = self.load(recv.a[0])
            if v.op in ('s', 'p') or v.op == 'op' and contains(v, lambda t: t.op == 's'):
                return v
        if q.startswith('std::basic_string') and recv.op == 'addr' and m in ('length', 'size', 'empty', 'compare', 'at', 'front', 'back', 'substr', 'find'):
            v = self.load(recv.a[0])
            if m in ('length', 'size'):
                return T('op', 'strlen', v)
            if m == 'empty':
                return cmp_('==', T('op', 'strlen', v), ZERO)
            if m == 'compare' and len(vals) == 1:
                return T('op', 'cmp', *sorted([v, vals[0]], key=lambda t: t.id))
        if cls in ('ElMagField',) and m in ('E', 'B') and not args:
            v = self.load(self.deref(recv))
            return self.field_of_value(v, 'ElMagField::vec' + m)
        if cls == 'Vector':
            v = self.load(self.deref(recv))
            if m == 'normalize':
                self.store(self.deref(recv), T('op', 'normalize', v), n, quiet=self.deref(recv).op == 'var')
                return T('void')
            if m != 'transform':
                return T('op', m, v, *vals)
        if n.get('virt') and not n.get('qual'):
            targets = [u for u in self.P.overriders.get(n['u'], {n['u']}) if u in self.P.functions]
            if len(targets) == 1:
                fn = self.P.functions[targets[0]]
            else:
                fn = self.dispatch(recv, targets)
        return self.do_call(n, vals, locs, recv, fn, args)

    # ---- XML documents (pugixml): values are nodes, attributes and iterators of an unknown document
    def xml_method(self, n, obj, args, m):
        q = n.get('n', '')
        if obj['k'] == 'CXXOperatorCallExpr' and obj.get('op') == '->':
            v = self.xml_item(self.ev(obj['c'][0]))
        elif obj.get('t', '').endswith('*'):
            v = self.load(self.deref(self.ev(obj)))
        else:
            v = self.ev(obj)
        if self.state is None:
            return T('void')
        vals = [ZERO if a['k'] == 'CXXDefaultArgExpr' else self.ev(a) for a in args]
        if self.state is None:
            return T('void')
        if m in ('begin', 'attributes_begin'):
            return T('xml', 'it' if m == 'begin' else 'ait', v)
        if m == 'end':
            return add(T('xml', 'it', v), T('xml', 'count', v))
        if '::operator ' in q:
            return T('xml', 'exists', v)
        if m == 'empty':
            return cmp_('==', T('xml', 'exists', v), ZERO)
        return T('xml', m, v, *vals)

    def xml_item(self, p):
        for mo, c in poly(p).items():
            if len(mo) == 1 and c == 1 and mo[0].op == 'xml' and mo[0].a[0] == 'it':
                return T('xml', 'item', mo[0].a[1], add(p, mo[0], -1))
        return T('xml', 'deref', p)

    def xml_operator(self, n, op, args):
        if op in ('++', '--'):
            l = self.lv(args[0])
            if self.state is None:
                return T('void')
            old = self.load(l)
            v = add(old, ONE, 1 if op == '++' else -1)
            self.store(l, v, n, quiet=l.op == 'var')
            return old if len(args) > 1 else v
        vals = [self.ev(a) for a in args]
        if self.state is None:
            return T('void')
        if op == '!':
            return cmp_('==', T('xml', 'exists', vals[0]), ZERO)
        if op in ('==', '!='):
            return cmp_(op, vals[0], vals[1])
        if op == '*':
            return self.xml_item(vals[0])
        return T('xml', 'op' + op, *vals)

    def dispatch(self, recv, targets):
        """the overrider called on an object whose dynamic type is known"""
        cls = self.dyntype.get(recv)
        if cls is None and recv.op == 'new' and isinstance(recv.a[1], str):
            cls = recv.a[1]
        todo = [cls]
        while todo:
            c = todo.pop(0)
            for u in targets:
                f = self.P.functions[u]
                if c and base(f.get('clsn') or f['n'].rsplit('::', 1)[0]) == base(c) and f.get('body') is not None:
                    return f
            todo += self.P.bases.get(c, []) if c else []
        return None

    def std_method(self, n, obj, args, m):
        st = self.state.st
        if obj.get('t', '').endswith('*') and not obj.get('t', '').startswith('std::vector'):
            L = T('*', self.ev(obj))
        else:
            L = self.lv(obj)
        vals = [self.ev(a) for a in args if a['k'] != 'CXXDefaultArgExpr']
        if self.state is None:
            return T('void')
        SZ = T('sz', L)
        if m in ('size', 'length'):
            return self.load(SZ)
        if m == 'empty':
            return cmp_('==', self.load(SZ), ZERO)
        if m in ('real', 'imag') and not vals and n.get('n', '').startswith('std::complex'):
            return T('op', m, self.load(L))
        if m in ('push_back', 'emplace_back'):
            s = self.load(SZ)
            v = vals[0] if vals else T('void')
            self.state.st[T('e', L, s)] = v
            self.state.st[SZ] = add(s, ONE)
            self.emit('push', n, name=m, recv=L, args=(v,), types=s)
            if args:
                self.copy_fields(args[0], T('e', L, s), n)
                src = self.vec_source(args[0])
                if src is not None:
                    self.emit('vcopy', n, recv=T('e', L, s), args=(T('addr', src),))
            return T('void')
        if m == 'pop_back':
            self.emit('pop', n, name=m, recv=L)
            self.state.st[SZ] = add(self.load(SZ), ONE, -1)
            return T('void')
        dbl = obj.get('t', '').startswith('std::vector<double')
        if m == 'swap' and dbl and len(args) == 1 and self.vec_swap(L, self.lv(args[0]), n):
            return T('void')
        if m == 'assign' and dbl and len(vals) == 2 and all((a.get('t') or '') in ('int', 'double', 'unsigned int', 'unsigned long', 'long', 'size_t', 'std::size_t', 'const int', 'const double') for a in args):
            v = T('op', 'make:std::vector', *vals)
            self.vec_assign(L, v)
            self.store(L, v, n, quiet=L.op == 'var')
            return T('void')
        if m in ('clear', 'resize', 'assign', 'erase', 'insert', 'swap', 'reserve', 'shrink_to_fit', 'fill'):
            self.emit('vec', n, name=m, recv=L, args=vals)
            if m == 'clear':
                for k in [k for k in st if k.op == 'e' and k.a[0] is L]:
                    del st[k]
                st.pop(L, None)
                self.state.st[SZ] = ZERO
            elif m in ('resize', 'assign'):
                self.state.st[SZ] = vals[0] if vals else ZERO
            elif m == 'erase':
                self.state.st[SZ] = add(self.load(SZ), ONE, -1)
                for k in [k for k in st if k.op == 'e' and k.a[0] is L]:
                    del st[k]
            elif m in ('insert', 'swap'):
                self.state.st[SZ] = T('unk', SZ, self.uniq())
            return T('void')
        if m in ('back', 'front', 'at'):
            return self.load(self.lv(n))
        if m in ('begin', 'end', 'data', 'c_str', 'cbegin', 'cend'):
            return T('op', m.replace('cb', 'b').replace('ce', 'e'), self.addr(L))
        if m.startswith('operator'):
            return self.load(L)
        return T('call', base(n.get('n', '')), self.addr(L), tuple(vals), None)

    def e_CallExpr(self, n):
        args = n.get('c') or []
        q = n.get('n', '')
        if not q and n.get('callee'):
            o = self.ev(n['callee'])
            if o.op == 'lam':
                return self.call_lambda(o, args, n)
        vals, locs = self.arglist(n, args)
        if vals is None:
            return T('void')
        fn = self.P.functions.get(n.get('u'))
        m = base(q).rsplit('::', 1)[-1]
        if fn is None and m in ('min', 'max', 'swap') and q.startswith('std::'):
            if m == 'swap' and None not in locs:
                if (args[0].get('t') or '').startswith('std::vector<double') and self.vec_swap(locs[0], locs[1], n):
                    return T('void')
                a, b = self.load(locs[0]), self.load(locs[1])
                self.store(locs[0], b, n)
                self.store(locs[1], a, n)
                return T('void')
            return T('op', m, *sorted(vals, key=lambda t: t.id))
        if fn is None and m in ('copy', 'copy_n', 'fill', 'fill_n', 'memcpy', 'memmove') and len(vals) == 3:
            r = self.block(n, q, vals)
            if r is not None:
                return r
        if m in ('dot', 'cross') and len(vals) == 2:
            return T('op', m, *vals)
        if m in MATH and fn is None:
            return T('op', m, *vals)
        if m == 'strcmp' and fn is None and len(vals) == 2:
            return T('op', 'cmp', *sorted(vals, key=lambda t: t.id))
        return self.do_call(n, vals, locs, None, fn, args)

    # ---- block operations of the standard library, as loops over single elements
    def block(self, n, q, vals):
        m = q.rsplit('::', 1)[-1]
        pt = lambda i: (n['c'][i].get('t') or '').replace('const ', '').strip()
        fill = m in ('fill', 'fill_n')
        if m in ('memcpy', 'memmove'):
            el = pt(0).rstrip('* ') if pt(0) != 'void *' else pt(1).rstrip('* ')
            size = {'double': 8, 'int': 4, 'unsigned int': 4, 'Vector': 24, 'ElMagField': 48}.get(el)
            if size is None or pt(1).rstrip('* ') not in (el, 'void') or pt(0).rstrip('* ') not in (el, 'void'):
                return None
            cnt = unpoly({mo: c / size for mo, c in poly(vals[2]).items()})
            src, dst = vals[1], vals[0]
        elif m == 'copy':
            cnt, src, dst = None, vals[0], vals[2]
        elif m == 'copy_n':
            cnt, src, dst = vals[1], vals[0], vals[2]
        elif m == 'fill':
            cnt, src, dst = None, None, vals[0]
        else:
            cnt, src, dst = vals[1], None, vals[0]
        lin = self.linear
        s1, d1 = lin(src) if src is not None else (None, None), lin(dst)
        if s1 is None or d1 is None:
            return None
        if cnt is None:
            a, b = lin(vals[0]), lin(vals[1])
            if a is None or b is None or a[0] is not b[0]:
                return None
            cnt = add(b[1], a[1], -1)
        val = vals[2] if fill else None
        self.nblock = getattr(self, 'nblock', 0) + 1
        tmp = T('var', self.frames[-1].num, 'block', 'block%d' % self.nblock)
        self.state.st[T('sz', tmp)] = cnt

        def step():
            k = self.loops[-1].iter
            at = lambda x: T('e', x[0], add(x[1], k)) if x[2] else self.deref(add(x[0], add(x[1], k)))
            self.store(at(d1), val if fill else self.load(at(s1)), n)
        self.loop(n, None, {'k': 'Block', 'run': step}, None, rng=tmp, bind=lambda k: None)
        if self.state is None:
            return T('void')
        self.state.st.pop(T('sz', tmp), None)
        return add(dst, cnt) if m != 'fill' and m not in ('memcpy', 'memmove') else vals[0]

    def s_Block(self, s):
        s['run']()

    def linear(self, p):
        """(container, index, True) or (pointer, offset, False) of a pointer or iterator"""
        pp = poly(p)
        base_ = [m for m, c in pp.items() if len(m) == 1 and c == 1 and (m[0].op in ('addr', 'new', 'ld', 'ldv', 'lv', 'lo', 'p') or
                                                                        m[0].op == 'op' and m[0].a[0] in ('begin', 'end', 'data', 'cbegin', 'cend'))]
        it = [m for m in base_ if m[0].op == 'op']
        if it:
            if len(it) > 1:
                return None
            L = self.deref(it[0][0].a[1])
            off = unpoly({m: c for m, c in pp.items() if m != it[0]})
            return (L, add(off, self.load(T('sz', L))) if it[0][0].a[0] in ('end', 'cend') else off, True)
        el = [m for m in base_ if m[0].op == 'addr' and m[0].a[0].op == 'e']
        if el:
            return (el[0][0].a[0].a[0], add(unpoly({m: c for m, c in pp.items() if m != el[0]}), el[0][0].a[0].a[1]), True)
        # only pointer differences matter: everything that is constant in both ends is the base
        isptr = [m for m in base_ if m[0].op in ('addr', 'new')] or [m for m in base_ if m[0].op in ('lv', 'lo', 'p', 'ld', 'ldv')]
        if not isptr:
            return None
        b = isptr[0]
        return (b[0], unpoly({m: c for m, c in pp.items() if m != b}), False)

    def do_call(self, n, vals, locs, recv, fn, nodes):
        q = n.get('n', '')
        if fn is not None and fn.get('body') and self.may_inline(fn):
            nfr = len(self.frames)
            return self.inline(fn, vals, nodes, recv, n, locs)
        cid = self.uniq()
        pure = not self.session and (bool(PURE_METHODS.search(q)) or n.get('constm') and not q.startswith('mu::') or base(q) in self.nomod)
        if recv is not None and not pure:
            # an opaque non-const member may change what is stored in its object
            for k in list(self.state.st):
                if k.op == 'f' and k.a[0] is recv or recv.op == 'addr' and self.under(k, recv.a[0]) and k is not recv.a[0]:
                    self.state.st[k] = T('unk', k, cid)
        res = T('call', base(q) or q, recv, tuple(vals), None if pure else cid)
        e = self.emit('call', n, name=base(q), recv=recv, args=vals, res=res, callee=n.get('u'), types=[x.get('t') for x in nodes])
        if e is not None and n.get('n', '') in READONLY:
            e.snap = {i: self.contents(v) for i, v in enumerate(vals) if v.op in ('addr', 'poly', 'new')}
        # results passed back through references and pointers to local data
        for i, (v, l) in enumerate(zip(vals, locs)):
            if l is not None:
                self.store(l, T('out', cid, i, Ref(res)), n, quiet=True)
            elif v.op == 'addr' and not self.constptr(n, i):
                tgt = v.a[0]
                for k in list(self.state.st):
                    if k is not tgt and self.under(k, tgt):
                        del self.state.st[k]
                self.store(tgt, T('out', cid, i, Ref(res)), n, quiet=True)
        if n.get('noret') or q in ('exit', 'abort', 'std::exit', 'std::terminate'):
            self.emit('exit', n, name=q, args=vals)
            self.state = None
        return res

    def contents(self, p):
        """what is known at constant offsets behind a pointer: {offset: value}"""
        out = {}
        b = p if p.op == 'addr' else None
        if p.op == 'poly':
            return out
        if b is not None and b.a[0].op not in ('unk',):
            v = self.load(b.a[0])
            out[0] = v
        for k, v in self.state.st.items():
            if k.op == '*' and k.a[0] is p:
                out[0] = v
            if k.op == '*' and k.a[0].op == 'poly' and poly(k.a[0]).get((p,)) == 1:
                o = add(k.a[0], p, -1)
                if isc(o):
                    out[o.a[0]] = v
        return out

    def constptr(self, n, i):
        """the i-th argument points to data the (external) function only reads"""
        a = READONLY.get(n.get('n', ''))
        return a is not None and (not a or i in a)


class Ref:
    """the call an out parameter comes from, not a subterm"""

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return self.t.a[0]


def isiter(n):
    return '__normal_iterator<' in (n.get('t') or '').split('(')[0]


READONLY = {'H5Awrite': (), 'H5Dwrite': (), 'H5Screate_simple': (), 'MPI_Send': (), 'MPI_Reduce': (0,), 'MPI_Allreduce': (0,), 'H5Pset_chunk': ()}


MATH = {'sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'pow', 'fabs', 'abs', 'floor', 'ceil', 'round', 'rint', 'cosh', 'sinh', 'tanh',
        'atan', 'atan2', 'acos', 'asin', 'fmod', 'hypot', 'lround', 'log10', 'isnan', 'norm', 'real', 'imag', 'conj', 'polar', 'cbrt', 'fmin', 'fmax'}


def find(P, name, pred=None):
    """definitions with this qualified name (template arguments ignored)"""
    return [f for f in P.functions.values() if base(f['n']) == name and (pred is None or pred(f))]


def one(P, name, pred=None):
    r = find(P, name, pred)
    if not r:
        raise AnalysisBroken('no definition of %s' % name)
    return r[0]

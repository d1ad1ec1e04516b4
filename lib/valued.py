"""Classes of the library as mathematical values.

In a VScene, objects of the listed classes are values: a query is a term q:Class::method(value, arguments), a method that changes its
object stores a new value q:...(old value, arguments), so that no part of the class is looked into.  VPoint evaluates such terms with the
Python models of the classes given to it."""
import api, core, fp
from core import T, C, Term, ZERO, ONE, base, add


class VScene(api.Scene):
    def __init__(self, P, change, **kw):
        """change: methods that change their object: {'Class::method'} (Eigen classes are known)"""
        self.change = change
        self.valued = {x.rsplit('::', 1)[0] for x in change}
        super().__init__(P, **kw)

    def isval(self, t):
        t = base((t or '').replace('const ', '').replace('class ', '').rstrip(' &*'))
        return t if t in self.valued else 'Eigen' if t.startswith('Eigen::') else None

    def sig(self, n):
        fn = self.P.functions.get(n.get('u'))
        return ','.join(p['t'].replace('const ', '').rstrip(' &') for p in fn['params']) if fn is not None else ''

    def values(self, args):
        """argument values; a pointer to an object of a valued class stands for the object"""
        out = []
        for a in args:
            if a['k'] == 'CXXDefaultArgExpr':
                continue
            v = self.ev(a)
            if self.state is None:
                return None
            if (a.get('t') or '').endswith('*') and self.isval(a['t']):
                v = self.load(self.deref(v))
            out.append(v)
        return out

    def construct(self, n, at):
        c = self.isval(n.get('t'))
        if c is None:
            return super().construct(n, at)
        v = self.e_CXXConstructExpr(n)
        if self.state is not None:
            self.store(self.deref(at), v, n)

    def e_CXXConstructExpr(self, n):
        c = self.isval(n.get('t'))
        if c is None:
            return super().e_CXXConstructExpr(n)
        args = n.get('c') or []
        vs = self.values(args)
        if vs is None:
            return T('void')
        if len(vs) == 1 and self.isval(args[0].get('t')) == c and (c != 'Eigen' or 1):
            return vs[0]
        if c == 'Eigen':
            return T('op', 'q:make', *vs)
        return T('op', 'q:%s' % c, *vs)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def where(self, obj):
        if obj['k'] == 'CXXThisExpr':
            return self.deref(self.frames[-1].this)
        if obj.get('t', '').endswith('*'):
            return self.deref(self.ev(obj))
        return self.lv(obj)

    def e_CXXMemberCallExpr(self, n):
        obj, args = n['c'][0], n['c'][1:]
        q = n.get('n', '')
        m = q.rsplit('::', 1)[-1]
        c = self.isval(obj.get('t'))
        if c is None or q.startswith('std::'):
            return super().e_CXXMemberCallExpr(n)
        if c == 'Eigen':
            o = self.ev(obj)
            vs = self.values(args)
            if vs is None:
                return T('void')
            if m in ('setZero', 'fill', 'setConstant', 'setOnes') and obj['k'] == 'DeclRefExpr':
                v = {'setZero': [ZERO], 'setOnes': [ONE]}.get(m, vs)
                self.store(self.lv(obj), T('op', 'q:fill', o, *v), n)
                return T('void')
            return T('op', 'q:Eigen::' + m, o, *vs)
        name = '%s::%s' % (c, m)
        fn = self.P.functions.get(n.get('u'))
        special = getattr(self, 'm_' + name.replace('::', '_'), None)
        if special is None and name not in self.change and name not in self.queries:
            return super().e_CXXMemberCallExpr(n)       # a method that is not part of the model is followed
        L = self.where(obj)
        if self.state is None:
            return T('void')
        if special is not None:
            return special(n, L, args)
        vs = self.values(args)
        if vs is None:
            return T('void')
        cur = self.load(L)
        if name in self.change:
            self.store(L, T('op', 'q:' + name, cur, *vs), n)
            return T('void')
        if m in self.noted:
            self.emit('call', n, name=name, recv=None, args=(cur,) + tuple(vs), callee=n.get('u'))
        return T('op', 'q:%s(%s)' % (name, self.sig(n)), cur, *vs)

    # ---- Eigen matrices
    def eigen_place(self, n):
        """(location of the matrix, what: ('elem', indices) | ('col'|'row', index) | None) of an lvalue expression"""
        if n['k'] in ('MaterializeTemporaryExpr', 'ImplicitCastExpr', 'ParenExpr'):
            return self.eigen_place(n['c'][0])
        if n['k'] == 'CXXOperatorCallExpr' and n['op'] in ('()', '[]') and self.isval(n['c'][0].get('t')) == 'Eigen':
            return self.lv(n['c'][0]), ('elem', [self.ev(a) for a in n['c'][1:]])
        if n['k'] == 'CXXMemberCallExpr' and n.get('n', '').rsplit('::', 1)[-1] in ('col', 'row') and self.isval(n['c'][0].get('t')) == 'Eigen':
            return self.lv(n['c'][0]), (n['n'].rsplit('::', 1)[-1], [self.ev(n['c'][1])])
        if n['k'] in ('DeclRefExpr', 'MemberExpr'):
            return self.lv(n), None
        return None, None

    def e_CXXOperatorCallExpr(self, n):
        op, args = n['op'], n['c']
        if not args or self.isval(args[0].get('t')) != 'Eigen' or '*' in args[0].get('t', '')[-1:]:
            if op == '=' and self.isval(args[0].get('t')) and '*' not in args[0]['t'][-1:]:
                v = self.ev(args[1])
                L = self.lv(args[0])
                if self.state is not None:
                    self.store(L, v, n)
                return v
            return super().e_CXXOperatorCallExpr(n)
        if op in ('()', '[]'):
            o = self.ev(args[0])
            vs = self.values(args[1:])
            return T('void') if vs is None else T('op', 'q:elem', o, *vs)
        if op in ('=', '<<'):
            v = self.ev(args[1])
            L, w = self.eigen_place(args[0])
            if self.state is None:
                return T('void')
            if L is None:
                return T('unk', T('void'), self.uniq())
            if w is None and op == '=':
                self.store(L, v, n)
            elif w is not None:
                self.store(L, T('op', 'q:set' + w[0], self.load(L), *(w[1] + [v])), n)
            else:
                self.store(L, T('unk', L, self.uniq()), n)
            return v
        vs = self.values(args)
        return T('void') if vs is None else T('op', 'q:Eigen' + op, *vs)

    def e_CallExpr(self, n):
        if n.get('n', '').startswith('Eigen::') and self.isval(n.get('t')) == 'Eigen':
            vs = self.values(n.get('c') or [])
            return T('void') if vs is None else T('op', 'q:' + n['n'].rsplit('::', 1)[-1], *vs)
        return super().e_CallExpr(n)

    def e_BinaryOperator(self, n):
        l = n['c'][0]
        if n['op'] == '=' and l['k'] == 'CXXOperatorCallExpr' and l['op'] in ('()', '[]') and self.isval(l['c'][0].get('t')) == 'Eigen':
            v = self.ev(n['c'][1])
            L, w = self.eigen_place(l)
            if self.state is not None:
                self.store(L, T('op', 'q:setelem', self.load(L), *(w[1] + [v])), n)
            return v
        return super().e_BinaryOperator(n)


class VPoint(fp.Point):
    """evaluates the queries with Python models: models[name](point, values...)"""
    models = {}

    def calc(self, t):
        if t.op == 'exc':
            return 0.0
        if t.op == 'op' and t.a[0].startswith('q:'):
            f = self.models.get(t.a[0][2:]) or self.models.get(t.a[0][2:].split('(')[0])
            if f is None:
                raise fp.Bad(t.a[0])
            return f(self, *[self.val(x) for x in t.a[1:]])
        return super().calc(t)

    # pointers to valued objects: terms of allocations with the number of the iteration
    def held(self, t):
        """the pointer stored at the location a load reads"""
        if t.op in ('ld', 'ldd', 'ldv') and self.mem:
            v = self.mem.get(self.key(t.a[0]))
            if isinstance(v, Term):
                return v
        return None

    def ptr(self, t):
        return t.op == 'new' or self.held(t) is not None or super().ptr(t)

    def key(self, t):
        if isinstance(t, Term):
            if t.op == 'new':
                it = t.a[4] if isinstance(t.a[4], tuple) else ()
                return ('new', t.a[0]) + tuple(self.q(self.val(x)) for x in it)
            v = self.held(t)
            if v is not None:
                return self.key(v)
        return super().key(t)

    def carry(self, t):
        if t.op == 'ite':
            return self.carry(t.a[1] if self.val(t.a[0]) else t.a[2])
        v = self.held(t)
        if v is not None:
            return v
        if t.op == 'new' and isinstance(t.a[4], tuple):
            return T('new', *(t.a[:4] + (tuple(C(int(self.val(x))) for x in t.a[4]),)))
        return super().carry(t) if self.ptr(t) else self.val(t)

    def assign(self, e):
        """apply a store event"""
        v = e.args[0]
        if self.ptr(v):
            self.mem[self.key(e.recv)] = self.carry(v)
            for t in [t for t in self.memo if not isinstance(t, Term) or t.op not in ('p', 'c', 'const')]:
                if t not in getattr(self, 'preset', {}):
                    del self.memo[t]
        else:
            fp.apply(self, e)

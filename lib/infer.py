"""The walker that derives grade constraints from the typed trees (see grade.py)."""
import re
from fractions import Fraction
import front
from front import loc
from grade import (leaf, rawptr, FIELDS, FTRACES, METHODS, Dim, Mirror, Affine, DUR, DISP, TIME, POS)

GENERIC = {'Vector': 'V', 'ElMagField': 'F', 'ElMagObs': 'O', 'FieldTrace': 'T'}
ODD = {'sin', 'tan', 'sinh', 'tanh', 'asin', 'atan', 'asinh', 'atanh', 'erf', 'cbrt'}
EVEN = {'cos', 'cosh', 'exp', 'log', 'log10', 'log2', 'acos', 'acosh', 'exp2', 'expm1', 'log1p', 'erfc', 'tgamma', 'lgamma', 'j0', 'j1', 'y0', 'y1'}
SAME = {'fmin', 'fmax', 'min', 'max', 'fmod', 'fdim', 'remainder', 'hypot', 'nextafter', 'copysign'}
KEEP = {'floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'lround', 'lrint', 'llround'}


def base(n):
    """std::foo<..>::bar -> name without template arguments"""
    out, d = [], 0
    for ch in n:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out)


class Frame:
    def __init__(self, fn):
        self.fn = fn
        self.env = {}          # local id -> grade (None: untyped storage)
        self.bad = {}          # local id -> message (joined with different grades)
        self.this = None
        self.ret = None
        self.retleaf = None
        self.depth = 0
        self.alias = {}        # local id -> lvalue root (references)
        self.memnode = {}
        self.memref = {}


class Infer:
    def __init__(self, P, alg):
        self.P, self.A = P, alg
        self.fields = {}
        self.errors = {}
        self.nconstr = 0
        self.narith = 0
        self.nfun = 0
        self.ncalls = 0
        self.nseed = set()
        self.lambdas = {}
        self.stack = []
        self.units_file = {}
        self.record_types = {r['t'] for r in P.records.values()}
        self.quiet = 0
        self.cur = None
        alg.inf = self
        self.collect_sdds()

    # ------------------------------------------------------------ constraints
    def eq(self, a, b, n, what):
        if a is None or b is None:
            return
        self.nconstr += 1
        sa, sb = self.A.show(a), self.A.show(b)
        if not self.A.unify(a, b):
            self.err(n, "%s: %s vs %s" % (what, sa, sb))

    def err(self, n, msg):
        fr = self.frame
        where = loc(n, fr.fn)
        key = (where, msg)
        if key in self.errors:
            return
        chain = [f.fn['n'] for f in self.stack]
        self.errors[key] = dict(where=where, msg=msg, fn=fr.fn['n'], chain=chain)

    def fresh(self):
        return self.A.fresh()

    def seed(self, spec, lf):
        if spec is None:
            return self.fresh()
        if spec == 'field':
            return self.A.zero()
        return self.A.seed(spec, lf)

    # ------------------------------------------------------------ SDDS columns
    def collect_sdds(self):
        self.cols = {}      # file -> {name: unit}
        self.colsg = {}
        self.ncols = 0
        for f in self.P.functions.values():
            for n in front.walk(f['body']):
                if n['k'] != 'CallExpr':
                    continue
                nm = n.get('n', '')
                if nm in ('SDDS_DefineColumn', 'SDDS_DefineParameter'):
                    a = n['c']
                    name = self.lit(a[1])
                    unit = self.lit(a[3])
                    if name is None:
                        continue
                    u = unit or ''
                elif nm == 'SDDS_DefineSimpleParameter':
                    a = n['c']
                    name, unit = self.lit(a[1]), self.lit(a[2])
                    if name is None or not unit:
                        continue
                    u = unit
                else:
                    continue
                self.ncols += 1
                self.cols.setdefault(f['u'], {})[name] = u
                self.cols.setdefault(f['f'], {})[name] = u
                self.colsg.setdefault(name, set()).add(u)

    @staticmethod
    def lit(n):
        if isinstance(n, dict):
            if n['k'] == 'StringLiteral':
                return n.get('s', '').split('\0')[0]
            for c in n.get('c') or []:
                r = Infer.lit(c)
                if r is not None:
                    return r
        return None

    def col_unit(self, name):
        for f in reversed(self.stack):
            d = self.cols.get(f.fn['u'])
            if d and name in d:
                return d[name]
        d = self.cols.get(self.frame.fn['f'], {})
        if name in d:
            return d[name]
        g = self.colsg.get(name)
        if g and len(g) == 1:
            return next(iter(g))
        return None

    @staticmethod
    def unit_of_text(u):
        u = u.strip()
        if not u:
            return ('1', '?')
        num, *den = u.split('/')
        parts = [p for p in re.split(r'[ *]', num) if p and p != '1']
        for d in den:
            parts += [(p + '^-1') for p in re.split(r'[ *]', d) if p]
        t = []
        for p in parts:
            m = re.match(r'^([A-Za-z]+)\^?(-?\d+)?(\^-1)?$', p)
            if not m:
                return None
            e = int(m.group(2) or 1) * (-1 if m.group(3) else 1)
            t.append('%s^%d' % (m.group(1), e))
        try:
            Dim.parse('·'.join(t) or '1')
        except ValueError:
            return None
        return ('·'.join(t) or '1', '?')

    # ------------------------------------------------------------ declared things
    def field_grade(self, ref, fr, basegrade, t):
        """grade of a member of a class"""
        q = base(ref['n'])
        lf = leaf(t)
        if lf is None:
            return None
        cls = q.rsplit('::', 1)[0]
        if cls in GENERIC:
            m = q.rsplit('::', 1)[1]
            g = basegrade if basegrade is not None else self.fresh()
            if cls == 'Vector':
                if m in 'xyz':
                    return self.A.comp(g, 'xyz'.index(m))
            elif m == 'vecE':
                return self.A.E(g)
            elif m == 'vecB':
                return self.A.B(g)
            elif m == 'trace':
                return g
        u = ref['u']
        if u not in self.fields:
            if q in FIELDS and FIELDS[q] is None:
                self.fields[u] = 'free'
            elif q in FIELDS:
                self.nseed.add(q)
                self.fields[u] = self.seed(FIELDS[q], lf)
            elif q in FTRACES:
                self.nseed.add(q)
                self.fields[u] = self.A.const(Dim.parse(FTRACES[q])) if isinstance(self.A, Dim) else self.A.zero()
            elif rawptr(t) or re.search(r'vector<double \*', t):
                self.fields[u] = 'raw'
            else:
                self.fields[u] = 'free' if isinstance(self.A, Affine) else self.fresh()
        g = self.fields[u]
        return None if g == 'raw' else self.fresh() if g == 'free' else g

    def declared(self, n, nparams):
        """declared interface of a function: ([specs], ret) or None"""
        q = base(n)
        d = METHODS.get(q)
        if d is None:
            m = q.rsplit('::', 1)[-1]
            if m in ('Field', 'LocalField') and '::' in q and nparams == 2 and q.split('::')[0] not in GENERIC:
                return ([DUR, DISP] if m == 'LocalField' else [TIME, POS], 'field')
            return None
        ps, r = d
        if isinstance(ps, dict):
            if nparams not in ps:
                return None
            ps = ps[nparams]
        if len(ps) != nparams:
            return None
        return (ps, r)

    # ------------------------------------------------------------ functions
    def exempt(self, fn):
        """functions whose coordinate is selected at run time, and helpers used by nothing else"""
        ex = getattr(self, '_ex', None)
        if ex is None:
            callers = {}
            for f in self.P.functions.values():
                for x in front.walk(f['body']):
                    if x.get('u') and x['k'].endswith('CallExpr'):
                        callers.setdefault(x['u'], set()).add(f['u'])
            ex = {f['u'] for f in self.P.functions.values() if base(f['n']) in self.A.exempt or base(f.get('clsn') or '') in self.A.exempt}
            if self.A.roots:
                ex |= {f['u'] for f in self.P.functions.values() if base(f.get('clsn') or 'Vector') not in self.A.roots
                       or f['n'] == 'main'}
            grew = True
            while grew:
                grew = False
                for u, c in callers.items():
                    if u not in ex and c <= ex and u in self.P.functions and not self.declared_any(self.P.functions[u]):
                        ex.add(u)
                        grew = True
            self._ex = ex
        return fn['u'] in ex

    def declared_any(self, fn):
        q = base(fn['n'])
        return q in METHODS or q.rsplit('::', 1)[0] in GENERIC

    def run_function(self, fn):
        """analyse one definition on its own"""
        if self.exempt(fn):
            return
        fr = Frame(fn)
        gp = [p for p in fn['params'] if leaf(p['t']) and not rawptr(p['t'])]
        d = self.declared(fn['n'], len(gp))
        for i, p in enumerate(gp):
            fr.env[p['id']] = self.seed(d[0][i], leaf(p['t'])) if d else self.fresh()
        for p in fn['params']:
            if p['id'] not in fr.env:
                fr.env[p['id']] = None
        fr.retleaf = None if rawptr(fn['rt']) else leaf(fn['rt'])
        fr.ret = (self.seed(d[1], fr.retleaf) if d and d[1] else self.fresh()) if fr.retleaf else None
        if base(fn.get('clsn') or '') in GENERIC:
            fr.this = self.fresh()
        if d:
            self.nseed.add(base(fn['n']) + '()')
        self.exec_fn(fn, fr)
        self.nfun += 1

    def exec_fn(self, fn, fr):
        fr.depth = (self.stack[-1].depth + 1) if self.stack else 0
        self.stack.append(fr)
        self.frame = fr
        try:
            for i in fn.get('inits') or []:
                g = self.ev(i['e'])
                if 'field' in i:
                    fg = self.field_grade(i['field'], fr, fr.this, self.ftype(i['field']))
                    self.eq(fg, g, i['e'] if i['e'] else fn, 'initialiser of ' + i['field']['n'])
            self.st(fn['body'])
            self.flush(fn['body'], 'end')
        finally:
            self.stack.pop()
            self.frame = self.stack[-1] if self.stack else None

    def ftype(self, ref):
        t = getattr(self, '_ft', None)
        if t is None:
            t = self._ft = {f['u']: f['t'] for r in self.P.records.values() for f in r['fields']}
        return t.get(ref['u'], '')

    def instantiate(self, fn, args, thisg, n):
        """walk a helper with the grades of this call"""
        if len(self.stack) > 12 or any(f.fn['u'] == fn['u'] for f in self.stack):
            return self.fresh() if leaf(fn['rt']) else None
        fr = Frame(fn)
        caller = self.frame
        for p, (a, g) in zip(fn['params'], args):
            lf = leaf(p['t'])
            fr.env[p['id']] = g if lf else None
            if lf and not rawptr(p['t']) and (g is None or isinstance(self.A, Affine) and a is not None and self.literalp(a)):
                fr.env[p['id']] = self.fresh()
        for p in fn['params']:
            if p['id'] not in fr.env:
                fr.env[p['id']] = self.fresh() if leaf(p['t']) and not rawptr(p['t']) else None
        fr.retleaf = None if rawptr(fn['rt']) else leaf(fn['rt'])
        fr.ret = self.fresh() if fr.retleaf else None
        fr.this = thisg if base(fn.get('clsn') or '') in GENERIC else None
        if base(fn.get('clsn') or '') in GENERIC and fr.this is None:
            fr.this = self.fresh()
        self.ncalls += 1
        self.exec_fn(fn, fr)
        for p, (a, g) in zip(fn['params'], args):
            if p['r'] == 1 and a is not None and a['k'] == 'DeclRefExpr' and a['ref'].get('id') in caller.env:
                caller.env[a['ref']['id']] = fr.env.get(p['id'])
        return fr.ret

    # ------------------------------------------------------------ statements
    def join(self, e1, e2, n):
        """merge of two control-flow paths"""
        fr = self.frame
        out = {}
        for v in set(e1) | set(e2):
            a, b = e1.get(v), e2.get(v)
            if v not in e1 or v not in e2:
                out[v] = a if v in e1 else b
            elif a is None or b is None:
                out[v] = a if b is None else b
            elif a is b:
                out[v] = a
            else:
                d = self.A.norm(self.A.add(a, b, -1))
                if d.c or any(d.k):
                    r = self.A.merge(self, a, b)
                    if r is not None:
                        out[v] = r
                        continue
                    fr.bad.setdefault(v, []).append((a, b))      # settled when (and if) the merged value is used
                out[v] = a
        return out

    def st(self, s):
        if s is None:
            return
        k = s['k']
        fr = self.frame
        if k in ('CompoundStmt', 'AttributedStmt', 'LabelStmt', 'CaseStmt', 'DefaultStmt'):
            for c in s.get('c') or []:
                self.st(c)
        elif k == 'DeclStmt':
            for d in s.get('c') or []:
                if d['k'] == 'Var':
                    self.declare(d)
        elif k == 'IfStmt':
            if s.get('cvar'):
                self.declare(s['cvar'])
            c = s['c']
            self.ev(c[0])
            e0 = dict(fr.env)
            self.st(c[1])
            e1 = fr.env
            fr.env = dict(e0)
            if len(c) > 2:
                self.st(c[2])
            t1, t2 = self.exits(c[1]), len(c) > 2 and self.exits(c[2])
            if t1 and not t2:
                pass
            elif t2 and not t1:
                fr.env = e1
            else:
                fr.env = self.join(e1, fr.env, s)
        elif k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            c = s['c']
            if k == 'ForStmt':
                self.st(c[0]) if c[0] else None
            if k == 'CXXForRangeStmt':
                g = self.ev(c[0])
                v = s['var']
                fr.env[v['id']] = g if leaf(v['t']) else None
                if leaf(v['t']) and g is None and not rawptr(v['t']):
                    fr.env[v['id']] = self.fresh()
            for _ in (0, 1):
                e0 = dict(fr.env)
                if k == 'ForStmt':
                    if c[1]:
                        self.ev(c[1])
                    self.st(c[3])
                    if c[2]:
                        self.ev(c[2])
                elif k == 'WhileStmt':
                    self.ev(c[0])
                    self.st(c[1])
                elif k == 'DoStmt':
                    self.st(c[0])
                    self.ev(c[1])
                else:
                    self.st(c[1])
                fr.env = self.join(e0, fr.env, s)
        elif k == 'ReturnStmt':
            if s.get('c') and s['c'][0]:
                g = self.ev(s['c'][0])
                if fr.ret is not None:
                    self.eq(fr.ret, g, s, 'value returned by ' + fr.fn['n'])
            keep = dict(fr.env)
            self.flush(s, 'return')
            fr.env = keep
        elif k == 'SwitchStmt':
            self.ev(s['c'][0])
            e0 = dict(fr.env)
            self.st(s['c'][1])
            fr.env = self.join(e0, fr.env, s)
        elif k == 'CXXTryStmt':
            for c in s['c']:
                self.st(c)
        elif k == 'CXXCatchStmt':
            for c in s.get('c') or []:
                self.st(c)
        elif k == 'OMP':
            for c in s.get('c') or []:
                self.st(c)
        elif k in ('BreakStmt', 'ContinueStmt', 'NullStmt', 'GotoStmt'):
            pass
        else:
            self.ev(s)

    @staticmethod
    def exits(s):
        """does the statement always leave (return/throw/continue/break) - syntactic, conservative"""
        if s is None:
            return False
        k = s['k']
        if k in ('ReturnStmt', 'CXXThrowExpr', 'BreakStmt', 'ContinueStmt', 'GotoStmt'):
            return True
        if k == 'CompoundStmt':
            return any(Infer.exits(c) for c in s.get('c') or [])
        if k == 'IfStmt':
            c = s['c']
            return len(c) > 2 and Infer.exits(c[1]) and Infer.exits(c[2])
        return False

    def declare(self, d):
        fr = self.frame
        lf = leaf(d['t'])
        g = None
        init = d.get('init')
        if init is not None:
            if init['k'] == 'LambdaExpr':
                self.lambdas[init['op_u']] = init
                self.lambda_body(init)
            g = self.ev(init)
        if lf is None:
            fr.env[d['id']] = None
            return
        if rawptr(d['t']):
            fr.env[d['id']] = g          # typed only if its source was typed
            return
        if re.match(r'^(double|float)\[', d['t'].replace(' ', '')):
            fr.env[d['id']] = None       # plain numeric arrays: untyped storage (I/O)
            return
        g = self.bare(init, g) if init is not None else g
        fr.env[d['id']] = g if g is not None else self.fresh()
        fr.bad.pop(d['id'], None)

    def lambda_body(self, n):
        """standalone walk of a lambda"""
        fr = self.frame
        for p in n['params']:
            fr.env[p['id']] = self.fresh() if leaf(p['t']) and not rawptr(p['t']) else None

    # ------------------------------------------------------------ expressions
    def evs(self, ns):
        return [self.ev(x) for x in ns]

    def literalp(self, n):
        while n is not None and n['k'] in ('UnaryOperator', 'CStyleCastExpr', 'CXXStaticCastExpr', 'ImplicitCastExpr', 'CXXFunctionalCastExpr') and n.get('c'):
            if n['k'] == 'UnaryOperator' and n['op'] not in '+-':
                return False
            n = n['c'][0]
        return n is not None and n['k'] in ('FloatingLiteral', 'IntegerLiteral')

    def bare(self, n, g):
        """a bare number assigned, initialising or compared carries the unit of its partner"""
        if g is not None and self.literalp(n):
            x = n
            while x['k'] not in ('FloatingLiteral', 'IntegerLiteral'):
                x = x['c'][0]
            if not x.get('mac'):
                return self.fresh()
        return g

    def ev(self, n):
        if n is None:
            return None
        k = n['k']
        A = self.A
        m = getattr(self, 'e_' + k, None)
        cv = n.get('cv')
        if cv is not None and n.get('t') in ('double', 'float', 'long double') and k != 'DeclRefExpr':
            u = A.constant(cv, n.get('mac'))
            if u is not None:
                return u
        if m:
            if k in ('BinaryOperator', 'CXXOperatorCallExpr', 'CompoundAssignOperator', 'CallExpr', 'CXXMemberCallExpr'):
                old, self.cur = self.cur, n
                try:
                    return m(n)
                finally:
                    self.cur = old
            return m(n)
        # default: visit children, no grade
        for c in n.get('c') or []:
            if isinstance(c, dict):
                if c['k'].endswith('Stmt'):
                    self.st(c)
                else:
                    self.ev(c)
        if leaf(n.get('t', '')) and k not in ('StringLiteral',):
            return self.fresh()
        return None

    def e_FloatingLiteral(self, n):
        return self.A.literal(n['v'])

    def e_IntegerLiteral(self, n):
        return None

    def e_DeclRefExpr(self, n):
        r = n['ref']
        if r['d'] in ('local', 'parm', 'slocal'):
            env = self.frame.env
            v = r['id']
            if v in self.frame.bad and v in env:
                self.settle(v, n, "variable '%s'" % r['n'])
            if v in env:
                return env[v]
            if leaf(n['t']) and not rawptr(n['t']):
                env[v] = self.fresh()
                return env[v]
            return None
        if r['d'] == 'global':
            if leaf(n['t']):
                g = self.P.globals.get(r['u'])
                if g is not None and g['const'] and g.get('init') is not None:
                    if r['u'] not in self.fields:
                        u = None
                        if g['t'] in ('double', 'float'):
                            nm = g['n'].split('::')[-1]
                            if nm in Dim.CONST and isinstance(self.A, Dim):
                                u = self.A.const(Dim.parse(Dim.CONST[nm][1]))
                        if u is None and g['n'] in ('VectorZero', 'ElMagFieldZero'):
                            return self.fresh()
                        self.fields[r['u']] = u if u is not None else self.ev(g['init'])
                    return self.fields[r['u']]
                if r['u'] not in self.fields:
                    self.fields[r['u']] = self.fresh()
                return self.fields[r['u']]
        return None

    def e_MemberExpr(self, n):
        b = self.ev(n['c'][0]) if n.get('c') else None
        if n['ref']['d'] != 'field':
            return None
        if n['c'][0]['k'] == 'CXXThisExpr':
            b = self.frame.this
            key = ('m', n['ref']['u'])
            if key in self.frame.env:
                if key in self.frame.bad:
                    self.settle(key, n, "member '%s'" % base(n['ref']['n']))
                return self.frame.env[key]
        return self.field_grade(n['ref'], self.frame, b, n['t'])

    def e_CXXThisExpr(self, n):
        return self.frame.this

    def e_ArraySubscriptExpr(self, n):
        gs = self.evs(n['c'])
        g = gs[0] if gs[0] is not None else gs[1] if len(gs) > 1 else None
        lf = leaf(n['t'])
        if lf is None:
            return None
        return g if g is not None else self.fresh()

    def e_ImplicitCastExpr(self, n):
        g = self.ev(n['c'][0])
        if n['ck'] == 'IntegralToFloating':
            return self.A.literal(n['cv']) if 'cv' in n else self.A.zero()
        if n['ck'] == 'FloatingToIntegral':
            self.eq(g, self.A.zero(), n, 'conversion to an integer')
            return None
        if n['ck'] in ('IntegralCast', 'PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean'):
            return None
        return g

    def cast(self, n):
        g = self.ev(n['c'][0])
        if n.get('ck') == 'IntegralToFloating':
            return self.A.literal(n['cv']) if 'cv' in n else self.A.zero()
        if n.get('ck') == 'FloatingToIntegral':
            self.eq(g, self.A.zero(), n, 'conversion to an integer')
            return None
        return g
    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = cast

    def e_CXXReinterpretCastExpr(self, n):
        self.ev(n['c'][0])
        return None

    def e_UnaryOperator(self, n):
        g = self.ev(n['c'][0])
        if n['op'] in '-+' or n['op'] in ('*', '&', '++', '--'):
            if n['op'] == '*' and g is None and leaf(n['t']) and not rawptr(n['t']):
                return self.fresh()
            return g
        return None

    def e_ConditionalOperator(self, n):
        a, b, c = self.evs(n['c'])
        if leaf(n['t']):
            self.eq(b, c, n, "the two arms of '?:'")
            return b if b is not None else c
        return None

    def assign(self, lhs, g, n, what='assignment'):
        """strong update of local variables, constraint otherwise"""
        l = lhs
        if l['k'] == 'DeclRefExpr' and l['ref']['d'] in ('local', 'parm') and l['ref']['id'] not in self.frame.alias:
            v = l['ref']['id']
            if leaf(l['t']):
                old = self.frame.env.get(v)
                ref = any(p['id'] == v and p['r'] for p in self.frame.fn['params'])
                if ref and old is not None:
                    self.eq(old, g, n, what)
                elif g is not None or rawptr(l['t']):
                    self.frame.env[v] = g
                    self.frame.bad.pop(v, None)
            return g
        if self.ownmember(l) and g is not None:
            if self.A.norm(g).c:           # not determined by its own operands: it is what the member is declared to be
                self.eq(self.member_decl(l['ref']['u']), g, n, what)
            self.frame.env[('m', l['ref']['u'])] = g
            self.frame.memnode[l['ref']['u']] = (n, what)
            return g
        gl = self.ev(l)
        self.eq(gl, g, n, what)
        return gl

    def settle(self, v, n, what):
        for a, b in self.frame.bad.pop(v):
            sa, sb = self.A.show(a), self.A.show(b)
            if not self.A.unify(a, b):
                self.err(n, "%s has different %ss on the paths reaching this use: %s vs %s" % (what, self.A.title, sa, sb))

    def ownmember(self, l):
        """a plain (non-container) declared member of this object: its grade is tracked through the function
        and must agree with the declaration when control leaves it"""
        return (l['k'] == 'MemberExpr' and l.get('c') and l['c'][0]['k'] == 'CXXThisExpr' and l['ref']['d'] == 'field'
                and l['t'] in ('double', 'float', 'Vector', 'ElMagField') and base(l['ref']['n']) in FIELDS
                and base(l['ref']['n'].rsplit('::', 1)[0]) not in GENERIC)

    def flush(self, n, where):
        fr = self.frame
        for key in [k for k in fr.env if isinstance(k, tuple)]:
            u = key[1]
            g = fr.env.pop(key)
            nd, what = fr.memnode.get(u, (n, 'assignment'))
            if key in fr.bad:
                self.settle(key, nd, "member '%s'" % base(self.fname(u)))
            self.eq(self.member_decl(u), g, nd, what)

    def member_decl(self, u):
        return self.field_grade({'n': self.fname(u), 'u': u}, self.frame, None, self.ftype({'u': u}))

    def fname(self, u):
        t = getattr(self, '_fn', None)
        if t is None:
            t = self._fn = {f['u']: f['n'] for r in self.P.records.values() for f in r['fields']}
        return t.get(u, u)

    def e_BinaryOperator(self, n):
        op = n['op']
        a, b = n['c']
        A = self.A
        if op == '=':
            g = self.ev(b)
            if not leaf(a['t']):
                self.ev(a)
                return None
            if b['k'] in ('ImplicitCastExpr',) and g is None:
                g = A.zero()
            return self.assign(a, self.bare(b, g), n)
        if op == ',':
            self.ev(a)
            return self.ev(b)
        ga, gb = self.ev(a), self.ev(b)
        if op in ('&&', '||'):
            return None
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if leaf(a['t']) == 'D' and not rawptr(a['t']):
                self.narith += 1
                A.compare(self, self.bare(a, ga), self.bare(b, gb), n, op, self.literalp(a), self.literalp(b))
            return None
        if n['t'] in ('double', 'float', 'long double') or leaf(n['t']) == 'D':
            if rawptr(n['t']):
                return ga if ga is not None else gb
            self.narith += 1
            if op in '+-':
                if ga is None or gb is None:
                    return ga if ga is not None else gb
                return A.plus(self, ga, gb, n, op)
            if op == '*':
                return A.mulx(ga, gb, a, b) if ga is not None and gb is not None else self.fresh()
            if op == '/':
                return A.divx(ga, gb, a, b) if ga is not None and gb is not None else self.fresh()
        return ga if leaf(n['t']) else None

    def e_CompoundAssignOperator(self, n):
        op = n['op']
        a, b = n['c']
        gb = self.ev(b)
        if leaf(a['t']) is None:
            self.ev(a)
            return None
        ga = self.ev(a)
        self.narith += 1
        if rawptr(a['t']):
            return ga
        return self.compound(a, ga, gb, op, n)

    def compound(self, a, ga, gb, op, n):
        A = self.A
        if op in ('+=', '-='):
            if ga is None or gb is None:
                return ga
            r = A.plus(self, ga, gb, n, op)
            return ga if r is ga else self.assign(a, r, n, "in-place '%s'" % op)
        if ga is None or gb is None:
            return ga
        r = A.mul(ga, gb) if op == '*=' else A.div(ga, gb)
        return self.assign(a, r, n, "in-place '%s'" % op)

    def e_CXXNewExpr(self, n):
        if n.get('size'):
            self.ev(n['size'])
        gs = self.evs(n.get('c') or [])
        if leaf(n['t']) == 'T':
            return self.fresh()
        if leaf(n['t']) and not rawptr(n['t']):
            return gs[0] if gs and gs[0] is not None else self.fresh()
        return None

    def e_InitListExpr(self, n):
        gs = [g for g in self.evs(n.get('c') or []) if g is not None]
        if leaf(n['t']) and gs:
            if leaf(n['t']) == 'V' and n['t'] == 'Vector' and len(gs) == 3:
                return self.A.vec(self, gs, n)
            for g in gs[1:]:
                self.eq(gs[0], g, n, 'elements of an initialiser list')
            return gs[0]
        return None

    def e_LambdaExpr(self, n):
        self.lambdas[n['op_u']] = n
        return None

    def e_CXXThrowExpr(self, n):
        for c in n.get('c') or []:
            self.ev(c)
        return None

    def e_CXXConstructExpr(self, n):
        args = n.get('c') or []
        gs = self.evs(args)
        t = n['t']
        lf = leaf(t)
        if n.get('copy') and args:
            return gs[0]
        A = self.A
        if t == 'Vector':
            if len(args) == 3:
                gs = [g if g is not None else (A.zero() if not self.literalp(x) or x.get('cv') else self.fresh()) for g, x in zip(gs, args)]
                if isinstance(A, Affine) and all(self.literalp(x) for x in args):
                    return self.fresh()
                return A.vec(self, gs, n)
            return self.fresh()
        if t == 'ElMagField':
            if len(args) == 2:
                e = gs[0] if gs[0] is not None else self.fresh()
                b = gs[1] if gs[1] is not None else self.fresh()
                s = A.unE(e)
                self.eq(s, A.unB(b), n, 'electric and magnetic part of one field (in units of V/m and T)')
                return s
            return self.fresh()
        if t == 'ElMagObs':
            if len(args) == 3:
                self.eq(A.unE(gs[1]), A.unB(gs[2]), n, 'electric and magnetic part of one observation')
                return A.unE(gs[1])
            return self.fresh()
        if t.startswith('std::complex') or '_Complex' in t:
            gg = [g for g in gs if g is not None]
            for g in gg[1:]:
                self.eq(gg[0], g, n, 'real and imaginary part')
            return gg[0] if gg else self.fresh()
        if t.startswith('std::vector') and lf:
            # vector(n, value), vector(other), vector(n)
            for a, g in zip(args, gs):
                if g is not None and leaf(a['t']):
                    return g
            return self.fresh()
        return self.call(n, args, gs, None, lf)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXDefaultArgExpr(self, n):
        return self.ev(n['c'][0]) if n.get('c') else None

    def e_CXXOperatorCallExpr(self, n):
        op = n['op']
        args = n['c']
        A = self.A
        t0 = args[0].get('t', '')
        l0 = leaf(t0)
        if op == '=' and l0:
            g = self.ev(args[1])
            return self.assign(args[0], g, n)
        if op == '()':
            lam = self.lambdas.get(n.get('u'))
            gs = self.evs(args)
            if lam is not None:
                fr = self.frame
                saved = dict(fr.env)
                oldret, oldleaf = fr.ret, fr.retleaf
                fr.retleaf = leaf(lam['rt'])
                fr.ret = self.fresh() if fr.retleaf else None
                for p, a, g in zip(lam['params'], args[1:], gs[1:]):
                    fr.env[p['id']] = g if leaf(p['t']) else None
                    if leaf(p['t']) and g is None and not rawptr(p['t']):
                        fr.env[p['id']] = self.fresh()
                if not getattr(self, '_inlam', 0) > 4:
                    self._inlam = getattr(self, '_inlam', 0) + 1
                    self.st(lam['c'][0])
                    self._inlam -= 1
                r = fr.ret
                fr.ret, fr.retleaf = oldret, oldleaf
                return r
            return self.fresh() if leaf(n['t']) else None
        gs = self.evs(args)
        if op == '[]':
            return (gs[0] if gs[0] is not None else self.fresh()) if leaf(n['t']) else None
        if op in ('<<', '>>', '==', '!=', '<', '>', '<=', '>='):
            return None
        if not leaf(n['t']) and not l0:
            return None
        if 'Eigen' in t0 or 'Eigen' in n['t']:
            return self.fresh() if leaf(n['t']) else None
        if op in ('*', '->') and len(args) == 1:      # iterator / smart pointer dereference
            return gs[0]
        if op in ('++', '--'):
            return gs[0]
        if l0 == 'T' or (l0 == 'F' and False):
            # traces: scalar factor or trace operand; the bodies are checked on their own
            if op in ('*', '/'):
                f = gs[1] if gs[1] is not None else A.zero()
                return A.mul(gs[0], f) if op == '*' else A.div(gs[0], f)
            if op in ('+', '-', '+=', '-='):
                self.eq(gs[0], gs[1], n, "operands of '%s'" % op)
                return gs[0]
        self.narith += 1
        if len(args) == 1:
            return gs[0]
        a = gs[0] if gs[0] is not None else A.zero()
        b = gs[1] if gs[1] is not None else A.zero()
        if op in ('+', '-'):
            return A.plus(self, a, b, n, op)
        if op == '*':
            return A.mulx(a, b, args[0], args[1])
        if op == '/':
            return A.divx(a, b, args[0], args[1])
        if op in ('+=', '-=', '*=', '/='):
            return self.compound(args[0], a, b, op, n)
        return self.fresh() if leaf(n['t']) else None

    def e_CXXMemberCallExpr(self, n):
        args = n['c'][1:]
        obj = n['c'][0]
        q = base(n.get('n', ''))
        go = self.ev(obj)
        if obj is not None and obj['k'] == 'CXXThisExpr':
            go = self.frame.this
        if q == 'FieldTrace::retard' and len(args) == 2 and args[1]['k'] == 'UnaryOperator' and args[1]['op'] == '&':
            gs = [self.ev(args[0]), None]
        else:
            gs = self.evs(args)
        A = self.A
        cls, _, m = q.rpartition('::')
        if obj is not None and obj['k'] == 'CXXThisExpr':
            self.flush(n, 'call')
        if q == 'FieldTrace::retard' and len(args) == 2:
            # the target trace is overwritten with this trace
            self.eq(gs[0], self.seed(('s',), 'D'), args[0], 'argument 1 of FieldTrace::retard()')
            t = args[1]
            if t['k'] == 'UnaryOperator' and t['op'] == '&' and t['c'][0]['k'] == 'DeclRefExpr' and t['c'][0]['ref'].get('id') in self.frame.env:
                self.frame.env[t['c'][0]['ref']['id']] = go
                self.frame.bad.pop(t['c'][0]['ref']['id'], None)
            else:
                self.eq(gs[1], go, n, 'target of FieldTrace::retard()')
            return None
        if cls == 'Vector' and go is not None:
            if m == 'norm':
                return A.absval(self, go, n)
            if m == 'abs2nd':
                return A.dot(go, go)
            if m == 'normalize':
                r = A.seed(('1',), 'V')
                if isinstance(A, Dim):
                    self.assign(obj, r, n, 'normalised in place')
                return None
            if m == 'isNull':
                return None
            if m == 'square' and isinstance(A, Dim):
                return A.mul(go, go)
            if m == 'root' and isinstance(A, Dim):
                return A.sqrt(self, go, n)
            if m in ('square', 'root'):
                return self.fresh()
            if m == 'transform' and isinstance(A, Dim):
                for g in gs:
                    self.eq(g, A.zero(), n, 'axes of a rotation must be dimensionless')
                return None
            if m == 'transform':
                if obj['k'] == 'DeclRefExpr' and obj['ref'].get('id') in self.frame.env:
                    self.frame.env[obj['ref']['id']] = self.fresh()
                return None
        if cls == 'ElMagField' and go is not None:
            if m == 'E':
                return A.E(go)
            if m == 'B':
                return A.B(go)
            if m == 'Zero':
                if obj['k'] == 'DeclRefExpr' and obj['ref'].get('id') in self.frame.env:
                    self.frame.env[obj['ref']['id']] = self.fresh()
                return None
            if m == 'isNull':
                return None
            if m == 'Poynting':
                g = A.cross(A.E(go), A.B(go))
                return A.div(g, A.const(Dim.parse(Dim.CONST['MuNull'][1]))) if isinstance(A, Dim) else g
        if cls == 'ElMagObs' and go is not None:
            if m == 'E':
                return A.E(go)
            if m == 'B':
                return A.B(go)
            if m == 'EB':
                return go
        if q.startswith('std::'):
            lf = leaf(obj.get('t', '') if obj else '')
            if m in ('push_back', 'emplace_back', 'assign', 'insert', 'resize', 'fill'):
                for a, g in zip(args, gs):
                    if g is not None and leaf(a['t']) and lf and go is not None:
                        self.eq(go, g, n, 'element stored by %s' % m)
                return None
            if leaf(n['t']):
                return go if go is not None else self.fresh()
            return None
        return self.call(n, args, gs, go, leaf(n['t']), obj)

    def e_CallExpr(self, n):
        args = n.get('c') or []
        q = base(n.get('n', ''))
        m = q.split('::')[-1]
        A = self.A
        gs = self.evs(args)
        if q.startswith('SDDS_'):
            return self.sdds(n, q, args, gs)
        if n.get('u') in self.P.functions and m not in ('dot', 'cross'):
            return self.call(n, args, gs, None, leaf(n['t']))
        g0 = gs[0] if gs else None
        if g0 is None and args and leaf(n.get('t', '')):
            g0 = A.zero() if 'int' in args[0].get('t', '') or 'long' in args[0].get('t', '') else None
        if m == 'dot' and len(gs) == 2:
            self.narith += 1
            return A.dot(gs[0], gs[1]) if None not in gs else self.fresh()
        if m == 'cross' and len(gs) == 2:
            self.narith += 1
            return A.cross(gs[0], gs[1]) if None not in gs else self.fresh()
        if g0 is None:
            return self.fresh() if leaf(n.get('t', '')) else None
        if m in ODD:
            self.narith += 1
            return A.odd(self, g0, n, 'argument of %s()' % m)
        if m in EVEN:
            self.narith += 1
            return A.even(self, g0, n, 'argument of %s()' % m)
        if m == 'sqrt':
            self.narith += 1
            return A.sqrt(self, g0, n)
        if m in ('fabs', 'abs', 'cabs'):
            return A.absval(self, g0, n)
        if m in ('real', 'imag', 'conj'):
            return g0
        if m == 'norm':
            return A.dot(g0, g0)
        if m == 'arg':
            return self.fresh()
        if m == 'pow':
            self.narith += 1
            p = args[1].get('cv')
            if p is None:
                self.eq(g0, A.zero(), n, 'base of pow() with a variable exponent')
                return A.zero()
            r = A.power(g0, p)
            if r is None:
                return A.even(self, g0, n, 'base of pow()')
            return r
        if m in ('atan2',):
            self.eq(gs[0], gs[1], n, 'arguments of atan2()')
            return A.zero() if isinstance(A, Dim) else self.fresh()
        if m in SAME:
            gg = [g for g in gs if g is not None]
            for g in gg[1:]:
                self.eq(gg[0], g, n, 'arguments of %s()' % m)
            return gg[0] if isinstance(A, Dim) else (A.zero() if m == 'hypot' else gg[0])
        if m in KEEP:
            self.eq(g0, A.zero(), n, 'argument of %s()' % m)
            return A.zero()
        if m in ('polar',):
            return g0
        if m in ('swap',) and len(gs) == 2:
            self.eq(gs[0], gs[1], n, 'arguments of swap()')
            return None
        if m in ('accumulate',):
            return g0
        return self.fresh() if leaf(n.get('t', '')) else None

    def sdds(self, n, q, args, gs):
        if q in ('SDDS_SetRowValues', 'SDDS_SetParameters') and isinstance(self.A, Dim):
            i = 3 if q == 'SDDS_SetRowValues' else 2
            while i + 1 < len(args):
                name = self.lit(args[i])
                if name is not None:
                    u = self.col_unit(name)
                    if u is not None and gs[i + 1] is not None:
                        spec = self.unit_of_text(u)
                        if spec and not (q == 'SDDS_SetParameters' and u == ''):
                            self.eq(gs[i + 1], self.A.seed(spec, 'D'), n, "value written to column '%s' declared in [%s]" % (name, u))
                i += 2
        if q in ('SDDS_GetColumnInDoubles', 'SDDS_GetParameterAsDouble') and isinstance(self.A, Dim):
            name = self.lit(args[1]) or self.namevar(args[1])
            u = READ.get(name)
            if u:
                return self.A.const(Dim.parse(u))
        return None

    def namevar(self, a):
        """a local constant string variable passed as name"""
        if a['k'] == 'DeclRefExpr':
            v = a['ref'].get('id')
            for x in front.walk(self.frame.fn['body']):
                if x['k'] == 'DeclStmt':
                    for d in x.get('c') or []:
                        if d.get('id') == v and d.get('init'):
                            return self.lit(d['init'])
                if x['k'] == 'CallExpr' and x.get('n') in ('strcpy', 'strncpy') and x['c'][0].get('ref', {}).get('id') == v:
                    return self.lit(x['c'][1])
        return None

    def call(self, n, args, gs, go, lf, obj=None):
        """call of a function of the repository (or something unknown)"""
        u = n.get('u')
        if rawptr(n.get('t', '')):
            lf = None
        fn = self.P.functions.get(u)
        name = n.get('n', '')
        params = fn['params'] if fn else None
        if params is None and u in self.P.method:
            params = self.P.method[u][1]['params']
        if params is not None:
            idx = [i for i, p in enumerate(params) if leaf(p['t']) and not rawptr(p['t'])]
            d = self.declared(name, len(idx))
            if d:
                for j, i in enumerate(idx):
                    if i < len(gs) and d[0][j] is not None and args[i]['k'] != 'CXXDefaultArgExpr':
                        g = gs[i]
                        if g is None and leaf(args[i].get('t', '')) is None:
                            g = self.A.literal(args[i].get('cv', 1)) if 'cv' in args[i] else None
                        if self.literalp(args[i]):
                            continue          # a bare number carries whatever unit the parameter asks for
                        if isinstance(self.A, Dim) and d[0][j] in (('e',), ('me',)) and g is not None:
                            # electrons: the same count is both the charge (in e) and the mass (in m_e)
                            gn = self.A.norm(g)
                            if not gn.c and tuple(gn.k) in (Dim.parse('e'), Dim.parse('me')):
                                continue
                        self.eq(g, self.seed(d[0][j], leaf(params[i]['t'])), args[i],
                                "argument %d of %s()" % (i + 1, base(name)))
                if lf is None:
                    return None
                if d[1] is not None:
                    return self.seed(d[1], lf)
        if fn is not None and self.exempt(fn):
            return self.fresh() if lf else None
        if fn is not None and not self.polymorphic(fn):
            return self.fresh() if lf else None
        if fn is not None:
            return self.instantiate(fn, list(zip(args, gs)), go, n)
        return self.fresh() if lf else None

    def polymorphic(self, fn):
        """does the body have to be re-walked for a call?"""
        if fn.get('virt') or fn['n'] == 'main':
            return False
        if base(fn.get('clsn') or '') in GENERIC:
            return True
        return bool(leaf(fn['rt'])) or any(leaf(p['t']) for p in fn['params'])


READ = {'x': 'm', 'y': 'm', 'xp': '1', 'yp': '1', 'p': '1', 't': 's', 'Charge': 'C', 'z': 'm'}

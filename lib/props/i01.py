"""I01: nothing is computed from values that were never set."""
import re
import core, api, front, fp
from core import T, C, base
from rep import Rep

SCALAR = re.compile(r'^(const )?(unsigned |signed )?(int|long|short|char|bool|double|float|size_t|std::size_t|long long|unsigned|hsize_t|long int|uint\d+_t|int\d+_t)( int| long)*$|\*( const)?$')
ERR = (fp.Bad, TypeError, AttributeError, KeyError, IndexError, ZeroDivisionError, OverflowError, ValueError, RecursionError)


class Touched(Exception):
    pass


class Watch(fp.Point):
    """a point (the first iteration of every loop) at which values that were never set are recognised when they are used; what cannot be
    interpreted has an arbitrary, but always the same value"""
    hot = ()

    def calc(self, t):
        if t.op == 'undef' or t.op == 'ld' and t.a[0] in self.hot:
            raise Touched(t)
        if t.op == 'exc' or t.op == 'iter':
            return 0.0
        if t.op == 'lv' and t.a[0] in self.loops:
            init = self.loops[t.a[0]]['init'].get(t.a[1])
            if init is not None:
                return self.val(init)
        if t.op == 'lo' and t.a[0] in self.loops:
            info = self.loops[t.a[0]]
            init = info['init'].get(t.a[1])
            if init is not None and not info['post'] and init.op in ('undef', 'ld', 'ite') and not self.entered(info['loop']):
                return self.val(init)
        if t.op in ('and', 'or'):           # evaluated in some order of the program: what decides the result comes first
            late = None
            for x in t.a[0]:
                try:
                    if bool(self.val(x)) == (t.op == 'or'):
                        return t.op == 'or'
                except Touched as ex:
                    late = ex
            if late is not None:
                raise late
            return t.op == 'and'
        try:
            return super().calc(t)
        except ERR:
            if t.op in ('vec', 'emf', 'new', 'addr'):
                raise
            return float(int(1e6 * self.rnd('any', t.id)) % 3)

    def entered(self, L):
        if L.trip.op != 'trip':
            return self.val(L.trip) >= 1
        if L.cond is not None:
            return bool(self.val(L.cond))
        return True

    def satisfy(self, g, want=True):
        """choose the values of uninterpreted conditions so that the condition holds"""
        if g.op == 'not':
            self.satisfy(g.a[0], not want)
        elif g.op == 'and' and want or g.op == 'or' and not want:
            for x in g.a[0]:
                self.satisfy(x, want)
        elif g.op in ('eq', 'le', 'lt'):
            m = [(k[0], c) for k, c in core.poly(g.a[0]).items() if len(k) == 1]
            if len(m) == 1 and len(core.poly(g.a[0])) <= 2 and m[0][0].op not in ('undef', 'iter', 'lv', 'lo', 'ite') and m[0][0] not in self.env:
                c0 = core.poly(g.a[0]).get((), 0)
                root = -c0 / m[0][1]
                up = 1.0 if m[0][1] > 0 else -1.0
                x = {'eq': (root, root + 1), 'le': (root + up * (self.seed % 3), root - up), 'lt': (root + up, root)}[g.op][0 if want else 1]
                if not (m[0][0].op == 'ld' and m[0][0].a[0] in self.hot):
                    self.env[m[0][0]] = float(x)
        elif g.op in ('call', 'xml', 'op', 'ld', 'p') and g not in self.env and not (g.op == 'ld' and g.a[0] in self.hot):
            self.env[g] = 1.0 if want else 0.0


def unset(P, S, term, guards, hot, n=60):
    """is there an input for which the conditions hold and the value is one that was never set?"""
    seen = False
    for seed in range(1, n):
        pt = Watch(P, seed)
        pt.hot = hot
        pt.loops = S.loopinfo
        pt.ichoices = (0, 1, 2, 3, -1, 5)
        try:
            for g in guards:
                pt.satisfy(g)
            if not all(pt.val(g) for g in guards):
                continue
        except Touched:
            return True
        except ERR:
            continue
        try:
            pt.val(term)
            seen = True
        except Touched:
            return True
        except ERR:
            pass
    return False if seen else None


def used(P):
    """data members whose value is read somewhere"""
    out = set()

    def visit(n, written):
        if isinstance(n, list):
            for x in n:
                visit(x, False)
            return
        if not isinstance(n, dict):
            return
        if n.get('k') == 'MemberExpr' and not written:
            out.add(n.get('n'))
            out.add((n.get('ref') or {}).get('n') if isinstance(n.get('ref'), dict) else None)
        if n.get('k') == 'BinaryOperator' and n.get('op') == '=' and n.get('c'):
            lhs = n['c'][0]
            if lhs.get('k') == 'MemberExpr':
                visit(lhs.get('c') or [], False)
            else:
                visit(lhs, False)
            visit(n['c'][1:], False)
            return
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                visit(v, False)
    for f in P.functions.values():
        if f.get('body') is not None:
            visit(f['body'], False)
            visit(f.get('init') or [], False)
    return out


def mentions(t, hot, seen, S=None):
    for u in core.subterms(t, seen):
        if u.op == 'undef' or u.op == 'ld' and u.a[0] in hot:
            return True
        if u.op in ('lv', 'lo') and S is not None and u.a[0] in S.loopinfo:
            i = S.loopinfo[u.a[0]]['init'].get(u.a[1])
            if i is not None and i is not u and mentions(i, hot, seen, S):
                return True
    return False


def run(P, tier):
    R = Rep(P)
    reads = used(P)
    fns = sorted([f for f in P.functions.values() if f.get('body') is not None], key=lambda f: (f['f'], f['l'], f['n']))
    classes = {}
    for r in P.records.values():
        classes.setdefault(r['n'], r)
    by, parents = {}, set()
    for r in P.records.values():
        by.setdefault(base(r['n']), []).append(r)
        parents |= bases(P, base(r['n'])) - {base(r['n'])}
    done = set()
    # ---- constructors
    for f in fns:
        cls = f['n'].rsplit('::', 1)[0] if '::' in f['n'] else None
        if cls is None or base(cls).rsplit('::', 1)[-1] != base(f['n']).rsplit('::', 1)[-1]:
            continue
        r = classes.get(cls) or classes.get(f.get('clsn')) or classes.get(base(cls))
        if r is None or (f['f'], f['l'], 'c') in done:
            continue
        done.add((f['f'], f['l'], 'c'))
        if base(cls) in parents:            # decided with the constructors of the derived classes, which run this one
            continue
        members = [m for c in bases(P, base(cls)) for q in by.get(c, [])[:1] for m in (r['fields'] if c == base(cls) else q['fields']) if SCALAR.search(m['t']) and (m['n'] in reads or m['n'].rsplit('::', 1)[-1] in reads)]
        if not members:
            continue
        S = api.Scene(P, opaque=lambda g, f=f: g['f'] != f['f'] and base(g['n'].rsplit('::', 1)[0]) not in bases(P, base(cls)))
        me = T('new', 4321, base(cls), 'me', C(1), ())
        try:
            S.call(f, me, *[T('p', 30 + i, p['n']) for i, p in enumerate(f['params'])])
        except (front.AnalysisBroken, RecursionError) as ex:
            R.oblig('members', None, 'ctor %s/%d' % (f['n'], len(f['params'])), front.loc(f, f), f['n'], '%s: %s' % (f['n'], ex))
            continue
        if S.stopped():
            continue
        hot = {T('f', me, m['n']) for m in members}
        for m in members:
            v = S.load(T('f', me, m['n']))
            ok = True
            how = ''
            if mentions(v, hot, set(), S):
                u = unset(P, S, v, S.state.guards, hot)
                ok = True if u is False else None
                if u and m['t'].rstrip().endswith('*') and associated(P, fns, base(cls), T('f', me, m['n'])):
                    continue
                if u:
                    how = reader(P, f, fns, base(cls), T('f', me, m['n']))
                    ok = False if how else True
            R.oblig('members', ok, '%s/%d|%s' % (f['n'], len(f['params']), m['n']), front.loc(f, f), f['n'],
                    '%s(%s): %s %s' % (f['n'], ', '.join(p['t'] for p in f['params']), m['n'], 'is set' if ok else 'is not set by the constructor (for some arguments) but read by %s' % how))
    # ---- local variables
    for f in fns:
        if (f['f'], f['l']) in done:
            continue
        done.add((f['f'], f['l']))
        if not any(True for _ in locals_(f['body'])):
            continue
        S = api.Scene(P, opaque=lambda g, f=f: g['f'] != f['f'])
        try:
            S.run(f)
        except (front.AnalysisBroken, RecursionError) as ex:
            R.oblig('locals', None, f['n'], front.loc(f, f), f['n'], '%s: %s' % (f['n'], ex))
            continue
        bad, open_ = None, False
        seen = set()
        for e in S.events:
            for t in [x for x in list(e.args) + list(e.guards) + [e.recv] if isinstance(x, core.Term)]:
                if mentions(t, (), seen, S):
                    u = unset(P, S, t, [g for g in e.guards if g is not t], ())
                    if u:
                        bad = bad or e
                    elif u is None:
                        open_ = True
        where = front.loc(f, bad.node) if bad is not None and isinstance(getattr(bad, 'node', None), dict) else front.loc(f, f)
        R.oblig('locals', False if bad is not None else None if open_ else True, 'locals %s/%d' % (f['n'], len(f['params'])), where, f['n'],
                '%s: %s' % (f['n'], 'uses the value of a local variable that was never set' if bad is not None else 'every value used was set before'))
    return R.result('Every constructor is interpreted for arbitrary arguments: every scalar or pointer member that is read anywhere must have a value on '
                    'every path that does not throw. In every function with local variables that are declared without a value, no effect, condition or '
                    'result may depend on one of them before it is set.', minimum=0)


def associated(P, fns, cls, loc):
    """a method of its own establishes the association with another object"""
    for g in fns:
        if base(g.get('clsn') or '') in bases(P, cls) and len(g['params']) == 1 and g['params'][0]['t'].endswith('*') and base(g['n']).rsplit('::', 1)[-1] != base(g['clsn']).rsplit('::', 1)[-1]:
            S = api.Scene(P, opaque=lambda h: True)
            x = T('p', 60, 'x')
            try:
                S.call(g, loc.a[0], x)
            except (front.AnalysisBroken, RecursionError):
                continue
            if S.state is not None and S.load(loc) is x:
                return True
    return False


def reader(P, ctor, fns, cls, loc):
    """a function that, called right after the constructor, uses the value of the member"""
    for g in fns:
        par = [T('p', 60 + i, p['n']) for i, p in enumerate(g['params'])]
        me = loc.a[0]
        own = base(g.get('clsn') or '') in bases(P, cls) and base(g['n']).rsplit('::', 1)[-1] != cls.rsplit('::', 1)[-1] and not g.get('static')
        mine = [i for i, p in enumerate(g['params']) if base(p['t'].replace('const ', '').rstrip(' *&')) == cls]
        if not own and not mine or '~' in g['n'] or '<' in cls and g.get('clsn') != cls:
            continue
        S = api.Scene(P, opaque=lambda h, f=ctor: h['f'] != f['f'] and base(h['n'].rsplit('::', 1)[0]) not in bases(P, cls))
        try:
            S.call(ctor, me, *[T('p', 30 + i, p['n']) for i, p in enumerate(ctor['params'])])
            if S.stopped():
                continue
            n0, seen = len(S.events), set()
            if own:
                S.call(g, me, *par)
            else:
                other = T('new', 4322, cls, 'other', C(1), ())
                S.call(g, other if base(g['n'].rsplit('::', 1)[-1]) == cls else T('p', 59, 'self'), *[me if i in mine else x for i, x in enumerate(par)])
        except (front.AnalysisBroken, RecursionError):
            continue
        for e in S.events[n0:]:
            for t in [x for x in list(e.args) + list(e.guards) + [e.recv] if isinstance(x, core.Term)]:
                if mentions(t, {loc}, seen, S) and unset(P, S, t, [x for x in e.guards if x is not t], {loc}):
                    return g['n']
        if S.state is not None:
            for k, t in S.state.st.items():
                if k is not loc and not (k.op == 'var') and isinstance(t, core.Term) and t.op in ('ld', 'ite') and mentions(t, {loc}, set(), S) and unset(P, S, t, S.state.guards, {loc}):
                    return g['n']
    return ''


def bases(P, cls):
    out, todo = set(), [cls]
    while todo:
        c = todo.pop()
        if c in out:
            continue
        out.add(c)
        for r in P.records.values():
            if base(r['n']) == c:
                for b in r.get('bases') or []:
                    todo.append(base(b if isinstance(b, str) else b.get('n', '')))
    return out


def locals_(n):
    """local variables declared without a value"""
    if isinstance(n, dict):
        if n.get('k') == 'Var' and n.get('init') is None and not n.get('r'):
            yield n
        for v in n.values():
            yield from locals_(v)
    elif isinstance(n, list):
        for v in n:
            yield from locals_(v)

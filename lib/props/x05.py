"""X05: the calculator of the input parser."""
import random
import core, api, front, fp
from core import T, C
from rep import Rep
from props.xmlrun import Node, Attr, NOATTR, XRun, docs, TMP, Calc

NAMES = {'_c': 'SpeedOfLight', '_e': 'ElementaryCharge', '_h': 'PlanckH', '_mec2': 'mecsquared', '_eps0': 'EpsNull', '_mu0': 'MuNull', '_pi': 'Pi'}
VALUE = {'_c': 2.99792458e8, '_e': 1.6021766208e-19, '_h': 6.626070040e-34, '_mec2': 0.5109989461e6, '_eps0': 8.854187817e-12,
         '_mu0': 1.25663706144e-6, '_pi': 3.14159265358979}


class Mu(XRun):
    """the calls of the expression evaluator"""
    expr = None
    defined = None

    def __init__(s, pt, S, events, *a, **kw):
        for e in events:
            for g in e.guards:
                for x in core.subterms(g):
                    if x.op == 'call' and x.a[1] is not None and 'GetConst' in str(x.a[1]):
                        pt.calls.setdefault(x.a[0], s.api_result)
        super().__init__(pt, S, events, *a, **kw)

    def api_result(s, q, t):
        if t.a[0].rsplit('::', 1)[-1] == 'Eval':
            x = s.calc.evaluate(s.expr or '')
            if x is None:
                raise fp.Bad('expression')
            return x
        m = t.a[0].rsplit('::', 1)[-1]
        if m in ('count', 'contains') and t.a[1] is not None and len(t.a[2]) == 1:      # is there a constant of this name?
            if any(x.op == 'call' and x.a[0].endswith('GetConst') for x in core.subterms(t.a[1])):
                return float(q.val(t.a[2][0]) in s.calc.vars)
        return None

    def visit(s, q, e):
        if e.kind == 'call' and e.name.startswith('mu::'):
            m = e.name.rsplit('::', 1)[-1]
            if m == 'SetExpr':
                s.expr = q.val(e.args[0])
            elif m == 'Eval':
                s.result(q, e.res)
            elif m == 'DefineConst':
                s.calc.vars[q.val(e.args[0])] = q.val(e.args[1])
            elif m not in ('GetConst', 'Parser', '~Parser', 'GetMsg', 'ParserError'):
                raise fp.Bad(e.name)
            return
        super().visit(q, e)


def noexc(q, pt):
    pass


def run(P, tier):
    R = Rep(P)
    sc = {}
    for name, k in (('InputParser', 1), ('parseCalc', 1), ('parseDouble', 1), ('parseInt', 1), ('parseCalcChildren', 1)):
        S = api.Scene(P)
        me = T('p', 90, 'me')
        f = S.fn('InputParser::' + name, k)
        a = T('p', 1, 'arg')
        sc[name] = (S, f, me, a, S.call(f, me, a))
    rank = {'c:@N@teufel@rank'}
    for seed in range(1, 20 if tier == 'quick' else 200):
        for name in sc:
            S, f, me, a, ret = sc[name]
            D = docs(seed)
            where = front.loc(f, f)
            rk = float(seed % 3)
            pt = fp.Point(P, seed)
            for e in S.events:
                for g in e.guards:
                    for x in core.subterms(g):
                        if x.op == 'exc':
                            pt.fixed[x] = 0.0
                        if x.op == 'ld' and x.a[0].op == 'g' and 'rank' in str(x.a[0]) or x.op == 'g' and 'rank' in str(x):
                            pt.fixed[x] = rk
            for x in core.subterms(ret) if ret is not None else ():
                if x.op == 'exc':
                    pt.fixed[x] = 0.0
            bad, kind = None, name
            try:
                if name in ('InputParser', 'parseCalcChildren'):
                    n = Node('teufel')
                    for _ in range(D.rnd.randrange(1, 5)):
                        n.kids.append(D.calc())
                        if D.rnd.random() < 0.5:
                            n.kids.append(Node('lattice', {}, [Node('calc', dict(var='inner', eq='5'))]))
                    pt.fixed[a] = n
                    cal = D.start()
                    r = Mu(pt, S, S.events, me, n, cal)
                    for v, x in D.vars.items():
                        if cal.vars.get(v) is None or not fp.close(cal.vars[v], x):
                            bad = 'variable %s is %s instead of %s after the definitions have been evaluated%s' % (v, cal.vars.get(v), x, ' on node %d' % rk if rk else '')
                            kind = name + '|definitions'
                    if name == 'InputParser' and not bad:
                        for c, k in NAMES.items():
                            if c not in cal.vars:
                                bad, kind = 'the documented constant %s is not defined' % c, 'constant ' + c
                            elif not (abs(cal.vars[c] / VALUE[c] - 1) < 1e-6) and not fp.close(cal.vars[c], pt.val(T('const', k))):
                                bad, kind = 'the constant %s is %s' % (c, cal.vars[c]), 'constant ' + c
                elif name == 'parseCalc':
                    n = D.calc()
                    pt.fixed[a] = n
                    cal = D.start()
                    Mu(pt, S, S.events, me, n, cal)
                    v = n.attrs['var']
                    if cal.vars.get(v) is None or not fp.close(cal.vars[v], D.vars[v]):
                        bad = 'variable %s is %s instead of %s%s' % (v, cal.vars.get(v), D.vars[v], ' on node %d' % rk if rk else '')
                else:
                    x = random.Random(seed).choice((3.2, 7.8, -2.3, -5.9, 12.0, 0.2, 100000.4))
                    n = Node('e', dict(k='%s' % x if seed % 2 else 'vv'))
                    cal = D.start()
                    cal.vars['vv'] = x
                    pt.fixed[a] = n.get('k')
                    Mu(pt, S, S.events, me, n, cal)
                    v = pt.val(ret)
                    w = float(round(x)) if name == 'parseInt' else x
                    if not fp.close(v, w):
                        bad = '%s() of an attribute with value %s gives %s' % (name, x, v)
            except TMP as ex:
                R.oblig('calculator', None, name, where, f['n'], '%s: %s: %s' % (name, type(ex).__name__, ex))
                continue
            R.oblig('calculator', not bad, kind, where, f['n'], bad or '')
        if R.viol:
            break
    return R.result('The effect summaries of the parser constructor, parseCalc(), parseCalcChildren(), parseDouble() and parseInt() are evaluated on modelled '
                    'documents: variables defined, predefined constants, values of attributes, on the first and on other nodes.', minimum=0)

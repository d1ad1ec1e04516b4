"""Model of XML input documents for the analysis of the input parser.

The parser functions are interpreted abstractly (all branches at once); the resulting effect summary is evaluated on modelled
documents. The calculator is modelled by its documented behaviour: <calc var eq> defines a variable from then on, parseDouble()
evaluates an attribute with the variables defined so far (0.0 if that is impossible)."""
import random
import core, api, front, fp
from core import T, C
from fp import V, F
from props.iorun import Run, Stop, TMP

CALC = {'parseDouble', 'parseInt', 'parseCalc'}
OKINT = ('as_int', 'as_uint', 'as_llong', 'as_ullong')


class Node:
    n = 0

    def __init__(s, name, attrs=None, kids=()):
        Node.n += 1
        s.xid = ('node', Node.n)
        s.name, s.attrs, s.kids = name, dict(attrs or {}), list(kids)

    def child(s, name):
        for k in s.kids:
            if k.name == name:
                return k
        return NULL

    def find(s, name):
        return [k for k in s.kids if k.name == name]

    def get(s, name):
        return Attr(s, name, s.attrs[name]) if name in s.attrs else NOATTR

    def walk(s):
        yield s
        for k in s.kids:
            yield from k.walk()


class Attr:
    def __init__(s, node, name, text):
        s.node, s.name, s.text = node, name, text
        s.xid = ('attr', node.xid if node else None, name)


NULL = Node('')
NOATTR = Attr(None, '', '')


def xml(q, t):
    """value of a document term"""
    k, a = t.a[0], t.a[1:]
    if k == 'deref':
        raise fp.Bad('iterator')
    v = q.val(a[0])
    if not isinstance(v, (Node, Attr)):
        raise fp.Bad('document')
    arg = lambda i: q.val(a[i])
    if k == 'exists':
        return 0.0 if v is NULL or v is NOATTR else 1.0
    if isinstance(v, Node):
        if k == 'child':
            return v.child(arg(1))
        if k == 'attribute':
            return v.get(arg(1))
        if k == 'name':
            return v.name
        if k in ('count',):
            return float(len(v.kids if len(a) < 2 else v.find(arg(1))))
        if k == 'item':
            i, l = int(arg(1)), v.kids if len(a) < 3 else v.find(arg(2))
            return l[i] if 0 <= i < len(l) else NULL
        if k == 'first_child':
            return v.kids[0] if v.kids else NULL
    else:
        if k == 'name':
            return v.name
        if k in ('value', 'as_string'):
            return v.text if v is not NOATTR else ''
        if k in OKINT:
            d = arg(1) if len(a) > 1 else 0.0
            try:
                return float(int(v.text)) if v is not NOATTR else d
            except ValueError:
                return 0.0
        if k in ('as_double', 'as_float'):
            try:
                return float(v.text) if v is not NOATTR else 0.0
            except ValueError:
                return 0.0
    raise fp.Bad('xml ' + k)


class Calc:
    def __init__(s):
        s.vars = {}

    def calc(s, node):
        if node is NULL:
            return
        v = node.attrs.get('var', '')
        if v:
            x = s.evaluate(node.attrs.get('eq', ''))
            if x is not None:
                s.vars[v] = x

    def evaluate(s, text):
        text = text.strip()
        try:
            return float(text)
        except ValueError:
            a, plus, b = text.partition('+')
            if plus and a in s.vars:
                return s.vars[a] + float(b)
            return s.vars.get(text)


class XRun(Run):
    """evaluation of the effect summary of a parser function on a document"""

    def __init__(s, pt, S, events, me, root, calc, nst=1, keep=()):
        s.calc = calc
        s.log = []              # what was done: (name, receiver, arguments)
        s.objs = {}             # objects created: key -> dict
        s.order = []
        s.last = None
        s.fields = {}           # last values stored in members
        s.keepnames = set(keep)
        pt.xml = xml
        pt.maxtrip = 60
        pt.fixed = dict(pt.fixed)
        pt.fixed[T('ld', T('f', me, 'InputParser::root'))] = root
        for n in ('parseDouble', 'parseInt'):
            pt.calls['InputParser::' + n] = s.result
        s.newloops = {e.res: e.loops for e in events if e.kind == 'alloc'}
        s.called = set()
        for e in events:
            if e.kind == 'call' and e.res is not None and e.res.op == 'call' and e.name not in pt.calls:
                pt.calls[e.name] = s.result
        super().__init__(pt, S, events, nst)

    def result(s, q, t):
        k = s.inst(q, t.a[3]) if t.a[3] is not None else (str(q.key(t)),)
        if k in s.memo:
            return s.memo[k]
        if t.a[0] in ('InputParser::parseDouble', 'InputParser::parseInt'):
            v = s.attribute(q, t.a[2][0])
            if t.a[0].endswith('Int'):
                v = float(round(v))
            s.memo[k] = v
            return v
        h = s.api_result(q, t)
        if h is None:
            raise fp.Bad('result of ' + t.a[0])
        return h

    def api_result(s, q, t):
        return None

    def attribute(s, q, t):
        a = q.val(t)
        if not isinstance(a, Attr):
            raise fp.Bad('attribute')
        x = s.calc.evaluate(a.text) if a is not NOATTR else None
        return 0.0 if x is None else x

    def matters(s, x):
        return x.kind in ('throw', 'exit', 'call', 'alloc', 'push', 'vec', 'free', 'init', 'copy', 'vcopy') or x.kind == 'store' and x.recv.op != 'var' or \
            x.kind == 'return' and len(x.stack) == s.nst

    def okey(s, q, t):
        """identity of an object"""
        if t.op == 'new':
            return ('obj', t.a[0]) + tuple(int(q.val(L.iter)) for L in s.newloops.get(t, ()))
        try:
            v = q.env.get(t) or t
            if isinstance(v, core.Term) and v.op == 'new':
                return s.okey(q, v)
            return q.key(v)
        except TMP:
            return str(t)

    def value(s, q, t):
        """value of an argument"""
        t0 = t
        for _ in range(12):
            if t.op == 'ite':
                t = t.a[1] if q.val(t.a[0]) else t.a[2]
            elif t.op == 'not' or t.op == 'eq':
                break
            else:
                break
        if t.op == 'new':
            k = s.okey(q, t)
            return s.objs.get(k) or s.make(k, t.a[1])
        if t.op == 'undef':
            return float('nan')
        if t.op == 'addr' or q.ptr(t):
            k = s.okey(q, t)
            return s.objs.get(k, k)
        return q.val(t)

    def make(s, k, cls):
        o = s.objs[k] = dict(cls=core.base(cls), type=cls, args=None, log=[], k=k)
        s.order.append(o)
        return o

    def receiver(s, q, r):
        if r is None:
            return None
        if r.op == 'ite':
            return s.receiver(q, r.a[1] if q.val(r.a[0]) else r.a[2])
        if r.op == 'new':
            k = s.okey(q, r)
            return s.objs.get(k) or s.make(k, r.a[1])
        k = s.okey(q, r)
        if k not in s.objs and r.op == 'addr':
            s.make(k, '?')
        return s.objs.get(k)

    def visit(s, q, e):
        if e.kind == 'call' and not e.name.startswith('H5'):
            n = e.name
            if n in ('InputParser::parseDouble', 'InputParser::parseInt'):
                s.result(q, e.res)
                return
            if n == 'InputParser::parseCalc':
                s.calc.calc(q.val(e.args[0]))
                return
            cls, m = n.rsplit('::', 1) if '::' in n else ('', n)
            r = s.receiver(q, e.recv)
            args = [s.value(q, a) for a in e.args]
            s.did(q, e, core.base(cls), m.split('<')[0], r, args)
            return
        if e.kind == 'alloc' and e.res is not None and e.res.op == 'new':
            s.receiver(q, e.res)
            return
        if e.kind == 'push':
            s.pushed(q, e)
            return
        if e.kind == 'vcopy':
            try:
                fp.apply(q, e)
            except TMP:
                pass
            return
        if e.kind in ('store', 'init') and e.args and e.recv.op != 'var':
            s.stored(q, e)
            return
        super().visit(q, e)

    def did(s, q, e, cls, m, r, args):
        if r is not None and cls.rsplit('::', 1)[-1] == m:
            if r['args'] is not None:           # another object in the same place
                r = s.make(r['k'], r['type'])
            r['cls'], r['args'], r['type'] = cls, args, e.name.rsplit('::', 1)[0]
            r['vars'] = dict(s.calc.vars)
        elif r is not None:
            r['log'].append((m, args))
        s.log.append((cls, m, r, args))

    def pushed(s, q, e):
        s.last = (T('e', e.recv, e.types), {})
        t = e.args[0]
        if t.op == 'op' and t.a[0] == 'init':
            s.last[1].update({i: s.value(q, x) for i, x in enumerate(t.a[1:])})
        try:
            v = s.value(q, t)
        except TMP:
            v = '?'
        s.log.append(('', 'push', s.okey(q, T('addr', e.recv)), [v, s.last[1]]))

    def stored(s, q, e):
        l = e.recv
        if l.op == 'f' and s.last is not None and l.a[0].op == 'addr' and l.a[0].a[0] is s.last[0]:
            try:
                s.last[1][l.a[1].rsplit('::', 1)[-1]] = s.value(q, e.args[0])
            except TMP:
                s.last[1][l.a[1].rsplit('::', 1)[-1]] = '?'
            return
        if l.op == 'f':
            try:
                s.fields[l.a[0], l.a[1].rsplit('::', 1)[-1]] = s.value(q, e.args[0])
            except TMP:
                s.fields[l.a[0], l.a[1].rsplit('::', 1)[-1]] = '?'
        try:
            fp.apply(q, e)
        except TMP:
            pass


def returned(pt, r, ret):
    """value returned, None if unknown"""
    try:
        v = r.outcome[1] if r.outcome[0] == 'return' else pt.val(ret)
        return v if isinstance(v, float) else None
    except TMP:
        return None


def opaque(fn):
    b = core.base(fn['n'])
    if b.startswith('InputParser::') and b.rsplit('::', 1)[1] in CALC:
        return True
    return not b.startswith('InputParser::') and bool(fn.get('cls')) and not b.startswith('Vector::')


def scene(P, name, k):
    """effect summary of a parser function; the public interface of all other classes is opaque"""
    S = api.Scene(P, opaque=opaque)
    me = T('p', 90, 'me')
    f = S.fn('InputParser::' + name, k)
    args = [T('p', i, 'a%d' % i) for i in range(k)]
    ret = S.call(f, me, *args)
    return S, f, me, args, ret


class docs:
    """generator of documents; attribute values are literals, or variables defined by earlier <calc> elements"""

    def __init__(s, seed):
        s.rnd = random.Random(seed)
        s.vars = {}
        s.n = 0
        s.initial = {'g0': s.rnd.uniform(0.2, 2), 'common': s.rnd.uniform(0.2, 0.5)}
        s.vars.update(s.initial)
        s.loc = {}
        s.cur = None
        s.val = {}          # (node, attribute) -> value at the place of the document

    def start(s):
        c = Calc()
        c.vars.update(s.initial)
        return c

    def define(s):
        """a <calc> element; some variables are redefined later in the document"""
        s.n += 1
        v = s.rnd.choice(['w%d' % s.n, 'common'])
        x = s.rnd.uniform(0.2, 1)
        eq = num(x)
        if v in s.vars:
            k = s.rnd.uniform(0.2, 1)
            eq = '%s+%s' % (v, num(k))
            x = s.vars[v] + float(num(k))
        s.vars[v] = x = float(num(x)) if '+' not in eq else x
        return Node('calc', dict(var=v, eq=eq, **({'print': 'p'} if s.rnd.random() < 0.3 else {}))), v, x

    def calc(s):
        return s.define()[0]

    def local(s, n):
        """definitions inside an element"""
        s.cur = n
        s.loc[n] = {}
        for _ in range(2):
            c, v, x = s.define()
            n.kids.append(c)
            s.loc[n][v] = x

    def leave(s):
        s.cur = None

    def locals(s, n):
        return s.loc.get(n, {})

    def num(s, lo=-2, hi=2):
        """text of an attribute"""
        if s.rnd.random() < 0.5:
            c = [k for k, v in s.vars.items() if lo <= v <= hi]
            l = [k for k in c if k in s.loc.get(s.cur, {})]
            if l and s.rnd.random() < 0.7:
                c = l
            if c:
                k = s.rnd.choice(c)
                return Ref(k, s.vars[k])
        return num(s.rnd.uniform(lo, hi))

    def pos(s, name):
        return Node(name, dict(x=s.num(), y=s.num(), z=s.num()))

    def value(s, n, k):
        t = n.attrs.get(k, '')
        if isinstance(t, Ref):
            return t.v
        try:
            return float(t)
        except ValueError:
            return 0.0

    def vec(s, n):
        return V(*[s.value(n, k) for k in 'xyz'])


class Ref(str):
    """text of an attribute naming a variable, with its value at this place of the document"""
    def __new__(c, t, v):
        r = str.__new__(c, t)
        r.v = v
        return r


def num(x):
    return '%.17g' % x


def xyz(n):
    return V(*[float(n.attrs[k]) for k in 'xyz'])


def objargs(o):
    return o['args'] or []

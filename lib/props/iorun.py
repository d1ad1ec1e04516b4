"""Execution of the effect summary of a function that does file I/O, with a model of the HDF5 and SDDS calls:
every call succeeds, or one chosen call fails."""
import re
import core, api, fp
from core import T, C
from props.h5 import string

IO = re.compile(r'^(H5[A-Z][a-z]*[A-Za-z_0-9]*|SDDS_\w+)$')
IGNORE = {'SDDS_Free', 'H5open', 'H5check_version', 'SDDS_PrintErrors', 'SDDS_ClearErrors', 'SDDS_NumberOfErrors'}
OPEN = re.compile(r'^H5([FDASPTG])(create|open|copy|get_space|get_type|get_create_plist|create_simple|create2|create1|create_anon|open2|open1|open_name|open_by_name|open_idx)(_\w+)?$')
CLOSE = re.compile(r'^H5([FDASPTG])close$')
TMP = (fp.Bad, TypeError, AttributeError, KeyError, IndexError, ZeroDivisionError, ValueError)


def isio(n):
    return bool(n) and IO.match(n) is not None and n not in IGNORE


def opens(n):
    """kind of identifier this call returns"""
    m = OPEN.match(n)
    if not m:
        return None
    return {'get_space': 'S', 'get_type': 'T', 'get_create_plist': 'P'}.get(m.group(2), m.group(1))


def walkbody(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def functions(P):
    """functions that do I/O, themselves or through helpers of their own class; only those not called by another one"""
    direct, calls, session = {}, {}, {}
    for u, f in P.functions.items():
        if f.get('body') is None:
            continue
        cs = set()
        io = False
        names = set()
        for x in walkbody([f['body'], f.get('inits')]):
            if x.get('k') in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr'):
                if isio(x.get('n', '')):
                    io = True
                    names.add(x['n'])
                if x.get('u'):
                    cs.add(x['u'])
        calls[u] = cs
        if io:
            direct[u] = f
            if any(re.match(r'H5F(create|open)|SDDS_Initialize', n) for n in names) and any(re.match(r'H5Fclose|SDDS_Terminate', n) for n in names):
                session[u] = f
    clos = dict(direct)
    grown = True
    while grown:
        grown = False
        for u, f in P.functions.items():
            if u in clos or u not in calls:
                continue
            for v in calls[u]:
                g = clos.get(v)
                if g is not None and (f.get('clsn') and f.get('clsn') == g.get('clsn') or not g.get('cls')):
                    clos[u] = f
                    grown = True
                    break
    called = {v for u in clos for v in calls[u] if v in clos and v != u}
    tops = [f for u, f in clos.items() if (u in session or u not in called and not (calls[u] & set(clos)) - {u} <= set(session) or u not in called and u in direct)
            and f['n'].rsplit('::', 1)[-1] != 'main']
    return tops, session


class Stop(Exception):
    pass


class Run:
    """one execution of an effect summary"""

    def __init__(s, pt, S, events, nst, fail=None, values=None):
        s.pt, s.S, s.events, s.nst, s.fail = pt, S, events, nst, fail
        s.values = values or {}
        s.calls = []            # (instance, name, values of the arguments, event)
        s.ids = {}              # number -> (kind, instance, event)
        s.state = {}            # number -> 'open' / 'closed'
        s.problems = []
        s.alloc = []            # [instance key, event, state]
        s.failed = False
        s.invalid = s.used = False
        s.after = 0             # I/O calls after the failing one
        s.outcome = ('end', None, None)
        s.memo = {}
        s.loopsof = {}
        for e in events:
            if e.kind == 'call' and e.res is not None and e.res.op == 'call' and e.res.a[3] is not None:
                s.loopsof[e.res.a[3]] = e.loops
        for e in events:
            if e.kind == 'call' and isio(e.name) and e.name not in pt.calls:
                pt.calls[e.name] = s.result
        pt.loops = S.loopinfo
        if 'out:H5Aread' not in pt.calls:
            num = lambda t: 2.0 if 'INT' in str(t.a[2].t.a[2][1]) else 1.25
            pt.calls['out:H5Aread'] = lambda q, t, i: num(t)
            pt.calls['out:H5Sget_simple_extent_dims'] = lambda q, t, i: [2.0, 2.0, 2.0, 6.0][i]
            s.values.setdefault('H5Sget_simple_extent_ndims', lambda r, q, t: 4.0)
            s.values.setdefault('H5Sget_simple_extent_dims', lambda r, q, t: 4.0)
        try:
            s.go(pt, events, 0)
        except Stop:
            pass

    def inst(s, q, cid):
        return (cid,) + tuple(int(q.val(L.iter)) for L in s.loopsof.get(cid, ()))

    def result(s, q, t):
        """value returned by a call"""
        k = s.inst(q, t.a[3]) if t.a[3] is not None else (str(q.key(t)),)
        n = t.a[0]
        if k in s.memo:
            return s.memo[k]
        bad = s.fail is not None and k == s.fail
        if s.invalid and not bad and any(s.number(q, a) == -1.0 for a in t.a[2]):
            bad = True                  # an operation on the identifier that could not be made fails as well
            s.used = True
        if bad and opens(n):
            s.invalid = True
        if n in s.values and not bad:
            v = s.values[n](s, q, t)
        elif n.startswith('SDDS_'):
            if n == 'SDDS_DefineColumn' or n == 'SDDS_DefineParameter' or n == 'SDDS_DefineArray':
                v = -1.0 if bad else float(sum(1 for x in s.memo if isinstance(x, tuple) and x[0] == 'col'))
                s.memo[('col', k)] = 1
            elif n.startswith('SDDS_Get'):
                v = 0.0 if bad else 4096.0 + 16 * len(s.memo)
            else:
                v = 0.0 if bad else 1.0
        elif opens(n):
            v = -1.0 if bad else 1000.0 + len(s.memo)
        elif n == 'H5Lexists':
            v = -1.0 if bad else 1.0
        else:
            v = -1.0 if bad else 0.0
        s.memo[k] = v
        return v

    def go(s, pt, events, depth):
        i = 0
        while i < len(events):
            e = events[i]
            if len(e.loops) <= depth:
                if fp.holds(pt, e.guards):
                    s.visit(pt, e)
                i += 1
                continue
            L = e.loops[depth]
            j = i
            while j < len(events) and len(events[j].loops) > depth and events[j].loops[depth] is L:
                j += 1
            grp = events[i:j]
            i = j
            info = s.S.loopinfo.get(L.id)
            if info is None:
                raise fp.Bad('loop')
            io = any(s.matters(x) for x in grp)
            if not fp.holds(pt, L.guards):
                continue
            if L.trip.op == 'trip' and not io:
                continue
            for k, v in fp.iterate(pt, info, (lambda c: s.go(c, grp, depth + 1)) if io else None).items():
                pt.env[T('lo', L.id, k)] = v

    def matters(s, x):
        """an event in a loop that makes it necessary to run the loop"""
        return x.kind in ('throw', 'alloc', 'free', 'exit', 'push') or x.kind == 'store' and x.recv.op != 'var' or \
            x.kind == 'return' and len(x.stack) == s.nst or x.kind == 'call' and isio(x.name)

    def number(s, q, a):
        try:
            v = q.val(a)
            return v if isinstance(v, float) else None
        except TMP:
            return None

    def visit(s, q, e):
        if e.kind == 'throw' or e.kind == 'exit':
            s.outcome = ('throw', e.name, e)
            raise Stop
        if e.kind == 'return' and len(e.stack) == s.nst:
            v = None
            if e.args and e.args[0].op not in ('void',):
                try:
                    v = q.key(e.args[0]) if q.ptr(e.args[0]) else q.val(e.args[0])
                except TMP:
                    v = '?'
            s.ret = e.args[0] if e.args else None
            s.outcome = ('return', v, e)
            raise Stop
        if e.kind == 'alloc':
            s.alloc.append([str(q.key(e.res)) + str([q.val(L.iter) for L in e.loops]), e, 'live'])
        elif e.kind == 'free':
            k = str(q.key(e.args[0]))
            hit = [a for a in s.alloc if a[0].startswith(k) and a[2] == 'live']
            if hit:
                hit[-1][2] = 'freed ' + (e.name or '')
            elif [a for a in s.alloc if a[0].startswith(k)]:
                s.problems.append(('twice', e, 'released twice'))
        elif e.kind in ('store', 'push', 'init') and e.args:
            v = e.args[0]
            if v.op == 'new':
                for a in s.alloc:
                    if a[1].res is v and a[2] == 'live' and (e.kind == 'push' or e.recv.op != 'var'):
                        a[2] = 'kept'
            if e.kind == 'store' and e.recv.op != 'var':
                try:
                    fp.apply(q, e)
                except TMP:
                    pass
        elif e.kind == 'call' and e.name in ('free', 'SDDS_Free') and e.args:
            h = s.number(q, e.args[0])
            if h in s.ids and s.ids[h][0] == 'm':
                if s.state[h] != 'open':
                    s.problems.append(('close', e, 'a buffer is released twice'))
                s.state[h] = 'closed'
        elif e.kind == 'call' and isio(e.name):
            if s.failed:
                s.after += 1
            k = s.inst(q, e.res.a[3])
            args = [s.number(q, a) for a in e.args]
            s.calls.append((k, e.name, args, e, q))
            v = s.result(q, e.res)
            if k == s.fail:
                s.failed = True
                return
            m = CLOSE.match(e.name)
            if m:
                h = args[0]
                if h not in s.ids:
                    s.problems.append(('close', e, '%s() of something that is not an open identifier' % e.name))
                elif s.state[h] != 'open':
                    s.problems.append(('close', e, '%s() of an identifier already closed' % e.name))
                elif s.ids[h][0] != m.group(1):
                    s.problems.append(('close', e, '%s() closes an identifier made by %s()' % (e.name, s.ids[h][2].name)))
                else:
                    s.state[h] = 'closed'
            else:
                for a in args:
                    if a in s.ids and a >= 1000 and s.state[a] != 'open':
                        s.problems.append(('use', e, '%s() uses an identifier that was closed before' % e.name))
            if e.name.startswith('SDDS_Initialize') and v == 1 or e.name == 'SDDS_Terminate' and not s.failed:
                try:
                    h = str(q.key(e.args[0]))
                except TMP:
                    return
                if e.name == 'SDDS_Terminate':
                    if s.state.get(h) != 'open':
                        s.problems.append(('close', e, 'SDDS_Terminate() of a dataset that is not open'))
                    s.state[h] = 'closed'
                else:
                    s.ids[h] = ('dataset', k, e)
                    s.state[h] = 'open'
            if re.match('SDDS_Get(Parameter|Column|Internal|NamedColumn)', e.name) and v > 0:
                s.ids[v] = ('m', k, e)
                s.state[v] = 'open'
            o = opens(e.name)
            if o and v >= 0:
                s.ids[v] = (o, k, e)
                s.state[v] = 'open'

    def unreleased(s):
        out = [('identifier', x[2]) for h, x in s.ids.items() if s.state.get(h) == 'open']
        r = getattr(s, 'ret', None)
        out += [('memory', a[1]) for a in s.alloc if a[2] == 'live' and not (r is not None and core.contains(r, lambda t: t is a[1].res))]
        return out

"""E01: every failing file operation is reported: an exception, an error code, or (reading constructors) an object left empty."""
import re
import core, api, front, fp
from core import T, C
from rep import Rep
from props import iorun
from props.obs import TRACE_OPS, ME

QUERY = re.compile(r'H5[SATDF]get_(simple_extent\w*|select\w*|name|size|class|order|precision)$')     # cannot fail for a valid identifier
OPTIONAL = re.compile(r'H5(Aopen\w*|Lexists|Aexists\w*|Oexists\w*)$')       # a part of the file that may be absent: fine if nothing is done with it
OPS = TRACE_OPS | {'FieldTrace::FieldTrace', 'current_time'}


def sessions(P):
    """(function, scene, events, point factory) of every function that works on a file"""
    tops, session = iorun.functions(P)
    seen = set()
    for f in sorted(tops, key=lambda f: (f['f'], f['l'], f['n'])):
        if (f['f'], f['l']) in seen:
            continue                            # another instantiation of the same template
        seen.add((f['f'], f['l']))
        S = api.Scene(P, opaque={g['n'] for g in session.values() if g is not f and g['n'] != f['n']} | OPS)
        n0 = len(S.events)
        args = [T('p', 100 + i, p['n']) for i, p in enumerate(f['params'])]
        types = {ME: f.get('clsn', '') + ' *'}
        for a, p in zip(args, f['params']):
            types[a] = p['t']
        S.call(f, ME, *args)
        yield f, S, S.events[n0:], types


def baseline(P, S, ev, types, n, **kw):
    """executions in which every operation succeeds: [(seed, Run)], and how often such an execution reported an error"""
    runs, errors, und = [], [], None
    for seed in range(1, n + 1):
        try:
            pt = fp.Point(P, seed, types=types)
            r = iorun.Run(pt, S, ev, 2, **kw)
        except iorun.TMP as ex:
            und = '%s: %s' % (type(ex).__name__, ex)
            continue
        (errors if r.outcome[0] == 'throw' else runs).append((seed, r))
    return runs, errors, und


def ctor(f):
    a = f['n'].split('::')
    return f.get('cls') and len(a) > 1 and core.base(a[-1]) == core.base(a[-2])


def run(P, tier):
    R = Rep(P)
    n = 8 if tier == 'quick' else 40
    sites = 0
    for f, S, ev, types in sessions(P):
        where = front.loc(f, f)
        try:
            runs, errors, und = baseline(P, S, ev, types, n)
        except front.AnalysisBroken as ex:
            runs, errors, und = [], [], str(ex)
        ios = {e.res.a[3]: e for e in ev if e.kind == 'call' and iorun.isio(e.name) and e.res.a[3] is not None}
        if not ios:
            continue
        if not runs:
            if errors and not und:
                e = errors[0][1].outcome[2]
                R.oblig('success', all(depends(g) for g in e.guards) or None, '%s|success' % f['n'], e.where, f['n'],
                        'an error is reported although every file operation succeeded')
            else:
                R.oblig('success', None, f['n'], where, f['n'], '%s: no complete execution: %s' % (f['n'], und))
            continue
        R.oblig('success', True, f['n'], where, f['n'], 'runs through when every operation succeeds')
        done = set()
        for seed, base in runs:
            for k, name, args, e, q in base.calls:
                last = [x[0] for x in base.calls if x[0][0] == k[0]][-1]
                if k[0] in done or k != last:
                    continue
                done.add(k[0])
                sites += 1
                key = '%s|%s|%s' % (core.base(f['n']), name, site(e, base))
                try:
                    pt = fp.Point(P, seed, types=types)
                    r = iorun.Run(pt, S, ev, 2, fail=k)
                except iorun.TMP as ex:
                    R.oblig('failure', None, key, e.where, f['n'], '%s in %s: %s' % (name, f['n'], ex))
                    continue
                o, b = r.outcome, base.outcome
                if not r.failed:
                    R.oblig('failure', None, key, e.where, f['n'], '%s in %s not reached' % (name, f['n']))
                    continue
                if QUERY.match(name) or OPTIONAL.match(name) and not r.used:
                    ok = True
                elif name == 'SDDS_Terminate' and any(x[1] == 'SDDS_InitializeInput' for x in base.calls):
                    ok = True                       # everything has been read before
                elif o[0] == 'throw':
                    ok = True
                elif '?' in (o[1], b[1]):
                    ok = None
                elif o[1] is not None and b[1] is not None:
                    ok = not fp.close(o[1], b[1]) and (o[1] < 0 or constant(runs)) if isinstance(o[1], float) and isinstance(b[1], float) else o[1] != b[1]
                elif ctor(f):
                    ok = o[0] == 'return' and o[2] is not b[2] and not r.after
                else:
                    ok = False
                R.oblig('failure', ok, key, e.where, f['n'],
                        '%s: failure of %s%s goes unnoticed' % (f['n'], name, label(e)))
        for c in set(ios) - done:
            R.oblig('failure', None, f['n'], ios[c].where, f['n'], '%s is not reached with every other operation succeeding' % ios[c].name)
    return R.result('Every function that works on an HDF5 or SDDS file is interpreted; its effect summary is executed once with every file '
                    'operation succeeding, and once for every call site with that one operation failing.', minimum=100, call_sites=sites)


def constant(runs):
    """the value returned in case of success does not depend on the input (an error code 0 could be a count)"""
    return len({r.outcome[1] for _, r in runs if r.outcome[0] == 'return'}) == 1


def depends(g):
    return core.contains(g, lambda t: t.op == 'call' and iorun.isio(t.a[0]))


def label(e):
    s = [iorun.string(a) for a in e.args]
    s = [x for x in s if x]
    return ' (%s)' % s[0].replace('\x00', '') if s else ''


def site(e, base):
    """stable name of a call site: string arguments and ordinal among the calls of this function with the same name"""
    same = []
    for x in base.calls:
        if x[1] == e.name and x[3] not in same:
            same.append(x[3])
    return '%s#%d' % (label(e).strip(' ()'), same.index(e))

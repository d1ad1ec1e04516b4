"""Judgement of the modelled parallel jobs of the main program (K01, K02, M01)."""
import core, front, fp
from rep import Rep
from props import mainrun as M
from props.x03 import enums


def runs(P, tier):
    S, f = M.scene(P)
    en = enums(P)
    out = []
    for c in M.jobs(tier):
        c = dict(c, watches=[(k, en.get('sdds' if t else 'hdf5', float(t))) for k, t in c['watches']], hdf5=en.get('hdf5', 0.0))
        W, R, errs = M.simulate(P, S, c)
        out.append((c, W, R, errs))
    return S, f, out


def text(c):
    return 'job with %d node%s, bunches of %s particles, %d steps' % (c['nodes'], 's' * (c['nodes'] > 1), c['bunches'], c['nots'])


def where(e, f):
    if e is None:
        return front.loc(f, f)
    try:
        return front.loc(e.fn, e.node)
    except Exception:
        return front.loc(f, f)


def outcome(c, W, R, errs):
    """None: all nodes finished; ('?', text); ('throw'|'collective'|'buffer'|..., event, text)"""
    if errs:
        return ('?', None, '%s: %s' % (type(errs[0][1]).__name__, errs[0][1]))
    o = [r.outcome for r in R]
    for r, x in zip(R, o):
        if x and x[0] == 'throw':
            t = x[1].args[0] if x[1].args else ''
            return ('throw', x[1], 'node %d stops with an exception: %s' % (r.rank, str(t)[:90]))
    for r, x in zip(R, o):
        if x and x[0] == 'broken':
            if x[1] == 'undecided':
                return ('?', x[2], x[3])
            return (x[1], x[2], x[3])
    if W.stuck is not None:
        return W.stuck
    if any(x is None for x in o):
        return ('?', None, 'a node does not end')
    return None


def judge_tracking(c, W, R):
    """problems of the tracking phase"""
    n = c['nots']
    for r in R:
        w = ' on node %d' % r.rank if W.N > 1 else ''
        if len(r.loggers) == len(c['loggers']):
            logs = list(r.loggers)
        setup = [x for x in r.log if x[0] == 'setup']
        steps = [x for x in r.log if x[0] == 'step']
        if r.master is None:
            yield 'undecided', None, 'no beam'
        if n and not setup:
            yield 'setup', None, 'tracking is never set up' + w
        for x in setup:
            if x[2] is not r.trackset[0]:
                yield 'method', x[-1], 'the tracking method of the input is not used' + w
            if x[3] != r.trackset[1]:
                yield 'time step', x[-1], 'the time step of the input is not used' + w
        tb = [x[1] for x in steps]
        if len(steps) != n or len(set(map(id, tb))) > 1:
            yield 'number of steps', steps[-1][-1] if steps else None, '%d tracking steps are made instead of %d%s' % (len(steps), n, w)
        full = {id(x) for x in r.elements + r.interactions}
        for x in steps + setup:
            l = [id(y) for y in x[4] if True] if x[0] == 'setup' else [id(y) for y in x[3]]
            if set(l) != full or len(l) != len(full):
                miss = [y.name for y in r.elements + r.interactions if id(y) not in l]
                yield 'lattice', x[-1], 'the fields used for tracking are not those of the input and the interactions, each once (missing: %s)%s' % (', '.join(miss) or 'none', w)
                break
        bad = [p.pid for p in M.MRun.parts(r, r.master) if p.step != n]
        if bad:
            yield 'history', None, 'after tracking, particles %s of the total beam are at another step than %d%s' % (bad[:5], n, w)
        # interactions
        for f in r.interactions:
            st, seq = 0, []
            for x in r.log:
                if x[0] == 'step':
                    st += 1
                elif x[0] == 'init' and x[1] is f:
                    seq.append(('init', st, x[2] is r.master, x[3], x[-1]))
                    if not x[4]:
                        yield 'init', x[-1], 'an interaction is initialised before the beam has been set up' + w
                elif x[0] == 'interact' and x[1] is f:
                    seq.append(('step', st, x[2] is r.master, x[3], x[-1]))
            want = [('init', 0, True, 0)] + [('step', k, True, k) for k in range(1, n + 1)]
            got = [y[:4] for y in seq]
            if got != want:
                i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                ev = seq[i][-1] if i < len(seq) else None
                d = lambda y: '%s of the interaction after %d tracking steps with %s at step %s' % (y[0] + '()', y[1], 'the total beam' if y[2] else 'another beam', y[3])
                yield 'interaction', ev, '%s instead of %s%s' % (d(got[i]) if i < len(got) else 'nothing', d(want[i]) if i < len(want) else 'nothing', w)
        if r.rank:
            continue
        # loggers
        for l in r.loggers + ([r.probed] if r.probed else []):
            want = [k for k in range(n + 1) if k == 0 or k % int(l.step) == 0]
            if l.records != want:
                yield 'logger', next((x[-1] for x in r.log if x[0] == 'update' and x[1] is l), None), \
                    'a %s with step %d records steps %s instead of %s' % (l.kind, l.step, l.records, want)
            wd = [x for x in r.log if x[0] == 'WriteData' and x[1] is l]
            if len(wd) != 1:
                yield 'logger output', wd[-1][-1] if wd else None, 'the data of a %s are written %d times instead of once' % (l.kind, len(wd))
            elif wd[0][2] != len(l.records):
                yield 'logger output', wd[0][-1], 'the data of a %s are written before all steps have been recorded' % l.kind
        req, st, num = c['probe']
        if bool(req) != (r.probed is not None):
            yield 'probe', None, 'a probe logger is %s' % ('not created' if req else 'created without being requested')
        elif req:
            p = r.probed
            if p.file != 'probe.h5' or p.step != st or p.number != num:
                yield 'probe', None, 'the probe logger has file %s, step %s, number %s instead of %s, %s, %s' % (p.file, p.step, p.number, 'probe.h5', st, num)
            if not isinstance(p.source, M.Obj) or p.source not in (r.master,) + tuple(tb) + tuple(x[1] for x in setup):
                yield 'probe', None, 'the probe logger observes another beam'
        # watch points
        wr = [x for x in r.log if x[0] == 'watch']
        for k in r.watches:
            m = [x for x in wr if x[2] == k.filename]
            fm = 'hdf5' if k.type == c['hdf5'] else 'sdds'
            if k.step > n:
                if m:
                    yield 'watch', m[0][-1], 'a watch point for step %d is written although only %d steps are made' % (k.step, n)
            elif len(m) != 1:
                yield 'watch', m[0][-1] if m else None, 'the watch point at step %d of %d is written %d times instead of once' % (k.step, n, len(m))
            else:
                x = m[0]
                if x[4] != k.step:
                    yield 'watch', x[-1], 'the watch point for step %d is written at step %d' % (k.step, x[4])
                if x[3] != fm:
                    yield 'watch', x[-1], 'a watch point is written in the format %s instead of %s' % (x[3], fm)
                if x[1] is not r.master:
                    yield 'watch', x[-1], 'a watch point is written from a beam that does not hold all particles'
        for f in r.interactions:
            m = [(i, x) for i, x in enumerate(r.log) if x[0] == 'write_output' and x[1] is f]
            last = max([i for i, x in enumerate(r.log) if x[0] == 'interact' and x[1] is f], default=-1)
            if len(m) != 1 or m[0][0] < last:
                yield 'interaction output', None, 'the output of an interaction is written %d times%s' % (len(m), '' if len(m) != 1 else ' before the last step')


def judge_observation(c, W, R):
    n = c['nots']
    r = R[0]
    for i, o in enumerate(r.observers):
        ev = [x[-1] for x in r.log if x[0] == 'output' and x[1] is o]
        e = ev[0] if ev else None
        if len(o.output) != 1:
            yield 'output', e, 'the output of observer %d (%s) is written %d times instead of once' % (i + 1, o.cls, len(o.output))
            continue
        acc, pos = o.output[0]
        if o.cls.endswith('<Lattice>'):
            want = [('lattice', tuple(x.name for x in r.elements))]
            k = [x for x in acc if x[0] != 'lattice']
            if k:
                yield 'source', e, 'observer %d (%s) records the field of particles' % (i + 1, o.cls)
            elif len(acc) != 1:
                yield 'lattice field', e, 'the field of the lattice enters the output of observer %d (%s) %d times instead of once' % (i + 1, o.cls, len(acc))
            elif sorted(acc[0][1]) != sorted(want[0][1]):
                yield 'lattice elements', e, 'observer %d (%s) records the field of %s instead of all lattice elements without the interactions (%s)' % \
                    (i + 1, o.cls, ', '.join(acc[0][1]) or 'nothing', ', '.join(want[0][1]) or 'none')
        else:
            k = [x for x in acc if x[0] != 'particle']
            if k:
                yield 'source', e, 'observer %d (%s) records the field of the lattice' % (i + 1, o.cls)
                continue
            got = sorted(x[1] for x in acc)
            if got != list(range(r.nop)):
                cnt = {p: got.count(p) for p in range(r.nop)}
                bad = next((p for p in cnt if cnt[p] != 1), None)
                yield 'all particles', e, 'the field of particle %s enters the output of observer %d (%s) %s times instead of once' % (bad, i + 1, o.cls, cnt.get(bad))
            elif any(x[2] != n for x in acc):
                yield 'history', e, 'observer %d (%s) is computed with trajectories of %s instead of %d steps' % (i + 1, o.cls, sorted({x[2] for x in acc}), n)
            if o.cls.startswith('SnapshotObserver') and sorted(pos or []) != list(range(r.nop)):
                yield 'positions', e, 'the snapshot is written with the coordinates of %d of %d particles' % (len(pos or []), r.nop)


def judge_parallel(c, W, R):
    for r in R:
        for k, e, t in r.problems:
            if k in ('gather', 'reduce', 'memory', 'source', 'steps', 'history'):
                yield k, e, t + (' on node %d' % r.rank if W.N > 1 else '')
        for b in r.beams:
            bad = [p.pid for p in M.MRun.parts(r, b) if not p.valid]
            if bad and r.rank:
                yield 'broadcast', None, 'particles %s on node %d do not start from the beam of the first node' % (bad[:4], r.rank)
        if not r.finalized:
            yield 'finalize', None, 'MPI_Finalize() is not called on node %d' % r.rank
        if r.rank:
            for x in r.log:
                if x[0] in ('watch', 'WriteData', 'write_output', 'output'):
                    yield 'writes', x[-1], 'node %d writes a file that belongs to the first node (%s)' % (r.rank, x[0])
    tr = []
    for r in R:
        s = [x for x in r.log if x[0] == 'setup']
        if s:
            tr.append(s[-1][5])
    allp = sorted(p for l in tr for p in l)
    if tr and allp != list(range(R[0].nop)):
        bad = next((p for p in range(R[0].nop) if allp.count(p) != 1), None)
        yield 'distribution', None, 'particle %s is tracked by %d nodes' % (bad, allp.count(bad))


def check(P, tier, judge, kind, stops, what):
    R = Rep(P)
    S, f, out = runs(P, tier)
    for c, W, rr, errs in out:
        o = outcome(c, W, rr, errs)
        if o is not None:
            if o[0] == '?' or o[0] == 'undecided' or o[0] not in stops:
                R.oblig(kind, None, '', '', '', '%s: %s' % (text(c), o[2]))
            else:
                R.oblig(kind, False, 'stop|' + o[0], where(o[1], f), f['n'], '%s: %s' % (text(c), o[2]))
            continue
        try:
            l = list(judge(c, W, rr))
        except M.TMP as ex:
            R.oblig(kind, None, '', '', '', '%s: %s: %s' % (text(c), type(ex).__name__, ex))
            continue
        for k, e, t in l[:4]:
            R.violate(k, where(e, f), f['n'], '%s: %s' % (text(c), t))
        if not l:
            R.oblig(kind, True, text(c), front.loc(f, f), f['n'], '')
    return R.result(what, minimum=0)

"""S02: the buffer of an observer holds every recorded sample once and restores the observer it is given to."""
import core, api, front, fp
from core import T, C, add, cmp_
from rep import Rep
from fp import V, F
from props.obs import *

TMP = (fp.Bad, TypeError, AttributeError, KeyError, IndexError)
OPS = TRACE_OPS - {FT + '::get_buffer', FT + '::set_buffer'}
BUFOPS = {FT + '::get_buffer', FT + '::set_buffer'}


def run(P, tier):
    R = Rep(P)
    N = 8 if tier == 'quick' else 60
    for cls in ('ScreenObserver', 'PointObserver', 'SnapshotObserver', 'MeshedScreen'):
        for src in ('Beam', 'Bunch', 'Lattice'):
            roundtrip(P, R, N, cls, src)
    return R.result('getBuffer() and fromBuffer() of every observer class are interpreted one after the other on the same buffer; at '
                    'small grids every sample is compared with what is packed for it and with what is put back.', minimum=6)


def cellread(pt, loc):
    """a sample of a snapshot: whole or by components"""
    k = pt.key(loc)
    if k in pt.mem:
        return pt.mem[k]
    return None


def roundtrip(P, R, N, cls, src):
    O = Mesh(P, src) if cls == 'MeshedScreen' else Obs(P, cls, src)
    fg, fs, fz = O.method('getBuffer'), O.method('fromBuffer'), O.method('getBufferSize')
    if not (fg and fs and fz):
        raise front.AnalysisBroken('buffer interface of ' + O.full)
    S = O.open(BUFOPS)
    size = S.call(fz, ME)
    n0 = len(S.events)
    buf = S.call(fg, ME)
    n1 = len(S.events)
    if S.state is None:
        R.oblig('buffer', False, O.full + '::getBuffer', front.loc(fg, fg), fg['n'], 'getBuffer() never returns')
        return
    cnt = T('p', 300, 'count')
    S.types = {}
    S.call(fs, ME, buf, cnt)
    ev, back = S.events[n0:n1], S.events[n1:]
    snap = cls == 'SnapshotObserver'
    loc = None
    if snap:
        S2 = O.open()
        ix, iy = api.idx('ix'), api.idx('iy')
        S2.assume(cmp_('<=', C(0), ix), cmp_('<=', C(0), iy), cmp_('<', ix, O.arg['nx']), cmp_('<', iy, O.arg['ny']))
        l = api.canon(S2.call(O.method('getField'), ME, ix, iy))
        if l.op != 'ld':
            raise front.AnalysisBroken('SnapshotObserver::getField')
        loc = l.a[0]
    if buf.op != 'new':
        R.oblig('buffer', None, O.full, front.loc(fg, fg), fg['n'], 'the returned buffer is not a new array')
        return
    bad, und = {}, None
    for seed in range(1, N + 1):
        pt = O.point(seed)
        pt.types = dict(pt.types)
        pt.types[cnt] = 'unsigned int'
        pt.loops = S.loopinfo
        try:
            if snap:
                cells = [((x, y), None) for x in range(int(O.nx)) for y in range(int(O.ny))]
                n = 1
            else:
                cs, b = O.cells(pt)
                if b:
                    raise fp.Bad(b)
                trace_handlers(pt, O, cs)
                cells = [(c, str(k)) for k, c, p, t in sorted(cs, key=lambda x: x[1])]
                n = int(O.n)
            want = []
            for c, k in cells:
                for it in range(n):
                    if snap:
                        q = pt.child({ix: float(c[0]), iy: float(c[1])})
                        want.append(q.val(T('ld', loc)))
                    else:
                        want.append(fieldleaf(pt, 'rec', k, it))
            total = 6 * len(want)

            def get_field(q, t):
                i = q.val(t.a[2][0])
                if i != int(i) or not 0 <= i < n:
                    raise ValueError('sample %s of a trace with %d samples is requested' % (i, n))
                return fieldleaf(pt, 'rec', str(q.key(t.a[1])), int(i))
            pt.calls[FT + '::get_field'] = get_field
            if not fp.close(pt.val(size), total):
                bad.setdefault('size', 'getBufferSize() is %g for %d samples' % (pt.val(size), len(want)))
            if not fp.close(pt.val(buf.a[3]), total):
                bad.setdefault('pack', 'the buffer has room for %g values, %d are needed' % (pt.val(buf.a[3]), total))
            # packing
            slots = [pt.key(T('*', add(buf, C(i)))) for i in range(total)]
            index = {k: i for i, k in enumerate(slots)}
            seen = {}

            def pack(q, e):
                if e.kind == 'call':
                    if q.key(T('*', e.args[0])) != slots[0] or q.val(e.args[1]) != n:
                        raise ValueError('the samples are not copied to the whole buffer')
                    k = str(q.key(e.recv))
                    for i in range(n):
                        for j, x in enumerate(fieldleaf(pt, 'rec', k, i).flat()):
                            pt.mem[slots[6 * i + j]] = x
                            seen[6 * i + j] = 1
                    fp_reset(q)
                else:
                    k = q.key(e.recv)
                    if k not in index:
                        if core.contains(e.recv, lambda t: t is buf):
                            raise ValueError('a value is stored outside the buffer')
                        raise fp.Bad('store')
                    seen[index[k]] = seen.get(index[k], 0) + 1
                    fp.apply(q, e)
            fp.walk(pt, S, ev, lambda e: e.kind == 'store' and e.recv.op not in ('var', 'f') or
                    e.kind == 'call' and e.name == FT + '::get_buffer', pack)
            flat = [x for w in want for x in w.flat()]
            got = [pt.mem.get(k) for k in slots]
            if None in got:
                bad.setdefault('pack', 'value %d of %d of the buffer is not set' % (got.index(None), total))
                continue
            if any(not fp.close(a, b) for a, b in zip(got, flat)):
                i = [fp.close(a, b) for a, b in zip(got, flat)].index(False)
                bad.setdefault('pack', 'value %d of the buffer is not component %d of sample %d in order' % (i, i % 6, i // 6))
            # other observer, same geometry: restore arbitrary values
            vals = [pt.rnd('buffer', i) for i in range(total)]
            for k, v in zip(slots, vals):
                pt.mem[k] = v
            pt.fix(cnt, float(total))
            rest = {}

            def put(q, e):
                if e.kind == 'call' and e.name == FT + '::set_field':
                    k = (str(q.key(e.recv)), int(q.val(e.args[0])))
                    rest[k] = q.val(e.args[1])
                elif e.kind == 'call' and e.name == FT + '::set_buffer':
                    o = index.get(q.key(T('*', e.args[0])))
                    if o is None or q.val(e.args[1]) != n:
                        raise ValueError('a trace is not restored from its part of the buffer')
                    for i in range(n):
                        w = vals[o + 6 * i:o + 6 * i + 6]
                        rest[(str(q.key(e.recv)), i)] = F(V(*w[:3]), V(*w[3:]))
                elif e.kind == 'call':
                    raise ValueError('restoring does something else than setting the samples')
                else:
                    fp.apply(q, e)
            sel = lambda e: e.kind == 'store' and e.recv.op not in ('var',) or e.kind == 'call' and e.name in \
                {FT + '::' + m for m in ('set_field', 'set_buffer', 'add', 'zero', 'set_t0')}
            mem = dict(pt.mem)
            fp_reset(pt)
            fp.walk(pt, S, back, sel, put)
            i = 0
            for c, k in cells:
                for it in range(n):
                    w = F(V(*vals[6 * i:6 * i + 3]), V(*vals[6 * i + 3:6 * i + 6]))
                    i += 1
                    if snap:
                        q = pt.child({ix: float(c[0]), iy: float(c[1])})
                        g = pt.mem.get(q.key(loc))
                    else:
                        g = rest.get((k, it))
                    if g is None:
                        bad.setdefault('restore', 'a sample is not restored')
                    elif not fp.close(g, w):
                        bad.setdefault('restore', 'a sample is not restored from its place in the buffer')
            if not snap and len(rest) != len(want):
                bad.setdefault('restore', 'samples outside the observer are set')
            # wrong sizes are refused before anything is changed
            for d in (-1, 1, -6, 6, -total, total):
                z = O.point(seed)
                z.types = pt.types
                z.calls = pt.calls
                z.fix(cnt, float(total + d))
                hit = []
                fp.walk(z, S, back, lambda e: sel(e) or e.kind == 'throw', lambda q, e: hit.append(e.kind))
                if hit[:1] != ['throw']:
                    bad.setdefault('reject', 'a buffer of %d values is accepted by an observer with %d' % (total + d, total))
        except ValueError as ex:
            bad.setdefault('pack', str(ex))
            break
        except TMP as ex:
            und = '%s: %s' % (type(ex).__name__, ex)
            break
    for k, fn in (('size', fz), ('pack', fg), ('restore', fs), ('reject', fs)):
        R.oblig('buffer ' + k, False if bad.get(k) else None if und else True, '%s %s' % (O.full, k), front.loc(fn, fn), fn['n'],
                '%s: %s' % (fn['n'], bad.get(k) or und or 'as required'))


def fp_reset(pt):
    for t in [t for t in pt.memo if not isinstance(t, core.Term) or t.op not in ('p', 'c', 'const')]:
        if t not in getattr(pt, 'preset', {}):
            del pt.memo[t]

"""The main program as one abstract transaction over the public interface of the library.

main() (and the helpers of its file) is interpreted into an effect summary with every class of the library opaque.  The
summary is then evaluated once per node of a modelled parallel job: library objects are replaced by models that only keep
track of identities (which particles, at which step, in which buffer); collective operations exchange these identities."""
import threading
import core, api, front, fp
from core import T, C
from fp import Bad

TMP = (Bad, KeyError, IndexError, TypeError, ValueError, AttributeError, ZeroDivisionError, OverflowError, RecursionError)
HOME = 'teufel_hybrid.cpp'


class Broken(Exception):
    """the job does not go on: (kind, event, text)"""


class Obj:
    def __init__(s, cls, **kw):
        s.cls, s.dead = cls, False
        s.__dict__.update(kw)
        Obj.n += 1
        s.xid = ('obj', Obj.n)
    n = 0

    def __repr__(s):
        return '<%s>' % s.cls


class Ref:
    """address of a local object that is not modelled"""

    def __init__(s, loc):
        s.loc = loc
        s.xid = ('ref', str(loc))


class Cont(list):
    xid = 'container'


class MPoint(fp.Point):
    run = None

    def ptr(self, t):
        return False

    def carry(self, t):
        return self.val(t)

    def calc(self, t):
        o, a = t.op, t.a
        r = self.run
        if o == 'new':
            return r.object(self, t)
        if o == 'addr':
            return Ref(a[0])
        if o == 's':
            return a[0]
        if o == 'g' or o == 'const':
            return Ref(t) if o == 'g' else super().calc(t)
        if o == 'out':
            k = (a[0],) + r.iters(self, a[0]) + (a[1],)
            if k in r.outs:
                return r.outs[k]
            raise Bad('out')
        if o == 'elem' or o == 'ld' and a[0].op == 'e':
            c = self.val(a[0]) if o == 'elem' else r.lists.get(a[0].a[0])
            i = int(self.val(a[1] if o == 'elem' else a[0].a[1]))
            if not isinstance(c, list):
                raise Bad('elem')
            if not 0 <= i < len(c):
                raise Broken('range', None, 'element %d of a list of %d is used' % (i, len(c)))
            return c[i]
        if o in ('size', 'sz'):
            if a[0] in r.sizes:
                return float(r.sizes[a[0]])
            raise Bad('size')
        if o == 'ld' and a[0] in r.lists:
            return r.lists[a[0]]
        if o == 'ld' and a[0].op == 'sz':
            return self.calc(a[0])
        if o == 'fld' or o == 'ld' and a[0].op == 'f' and a[0].a[0].op in ('call', 'elem', 'out'):
            v, n = (self.val(a[0]), a[1]) if o == 'fld' else (self.val(a[0].a[0]), a[0].a[1])
            if isinstance(v, Obj):
                x = getattr(v, n.rsplit('::', 1)[-1])
                return float(x) if isinstance(x, (int, bool)) else x
        if o == 'dyn':
            v = self.val(a[1])
            return v if isinstance(v, Obj) and isa(v.cls, a[0]) else 0.0
        if o == 'eq':
            x = a[0]
            if x.op == 'poly' and len(x.a[0]) == 2 and all(len(m) == 1 and abs(c) == 1 for m, c in x.a[0]):
                p, q = [self.val(m[0]) for m, c in x.a[0]]
                if isinstance(p, (Obj, Ref)) or isinstance(q, (Obj, Ref)):
                    return 1.0 if p is q else 0.0
            v = self.val(x)
            if isinstance(v, (Obj, Ref, str, list)):
                return 0.0
        if o == 'call':
            return r.result(self, t)
        if o == 'xml':
            return 1.0 if a[0] == 'exists' else Ref(t)
        if o == 'exc':
            return 0.0
        return super().calc(t)


def isa(cls, want):
    w = want.replace('*', '').replace('const', '').replace('class ', '').strip()
    if w == cls or w == 'BaseObserver':
        return True
    i = w.find('<')
    return i > 0 and w[:i] == 'Observer' and cls.endswith(w[i:])


class World:
    """a parallel job"""

    def __init__(s, cfg):
        s.cfg = cfg
        s.N = cfg['nodes']
        s.cond = threading.Condition()
        s.wait = {}
        s.phase = 0
        s.ended = 0
        s.results = None
        s.stuck = None
        s.collectives = 0

    def collective(s, rank, name, e, par, data, combine):
        """called by every node; returns the combined data"""
        s.wait[rank] = (name, par, data, e, combine)
        ph = s.phase
        s.check()
        while s.phase == ph and s.stuck is None:
            s.cond.wait(60)
        if s.stuck is not None:
            raise Broken(*s.stuck)
        return s.results[rank]

    def check(s):
        if s.stuck is not None or len(s.wait) + s.ended < s.N:
            return
        if s.ended and s.wait:
            r, w = sorted(s.wait.items())[0]
            s.stuck = ('collective', w[3], 'node %d waits in %s() while another node has finished' % (r, w[0]))
        elif s.wait:
            l = sorted(s.wait.items())
            w0 = l[0][1]
            for r, w in l[1:]:
                if w[0] != w0[0]:
                    s.stuck = ('collective', w[3], 'node 0 is in %s() while node %d is in %s()' % (w0[0], r, w[0]))
                elif w[1] != w0[1]:
                    s.stuck = ('collective', w[3], '%s() is called with %s on node 0 and %s on node %d' % (w[0], w0[1], w[1], r))
            if s.stuck is None:
                s.collectives += 1
                try:
                    s.results = w0[4]([w[2] for r, w in l])
                except Exception as ex:
                    s.stuck = ('undecided', w0[3], '%s: %s' % (w0[0], ex))
                s.wait = {}
                s.phase += 1
        s.cond.notify_all()

    def end(s):
        s.ended += 1
        s.check()
        s.cond.notify_all()


class MRun:
    """evaluation of main() on one node"""

    def __init__(s, W, rank, pt, S):
        s.W, s.rank, s.S, s.cfg = W, rank, S, W.cfg
        s.pt = pt
        pt.run = s
        pt.loops = S.loopinfo
        pt.maxtrip = 60
        s.memo, s.outs, s.objs = {}, {}, {}
        s.lists, s.sizes = {}, {}
        s.problems = []         # (kind, event, text)
        s.log = []
        s.outcome = None
        s.clock = 0.0
        s.inited = s.finalized = False
        s.loopsof = {e.res.a[3]: e.loops for e in S.events if e.kind == 'call' and e.res is not None and e.res.op == 'call' and e.res.a[3] is not None}
        s.evof = {e.res.a[3]: e for e in S.events if e.kind == 'call' and e.res is not None and e.res.op == 'call' and e.res.a[3] is not None}
        s.newloops = {e.res: e.loops for e in S.events if e.kind == 'alloc'}
        s.parsed = None
        s.observers, s.loggers, s.interactions, s.elements = [], [], [], []
        s.beams = []
        s.ev = None
        s.probed = None
        s.visited = set()

    # ---- running
    def start(s):
        try:
            s.go(s.pt, s.S.events, 0)
            s.outcome = ('end', None)
        except Done as d:
            s.outcome = d.args
        except Broken as b:
            s.outcome = ('broken',) + b.args

    def matters(s, e):
        if e.kind in ('alloc', 'free', 'push', 'vec', 'throw', 'exit'):
            return True
        if e.kind == 'store':
            return e.recv.op != 'var'
        if e.kind == 'return':
            return len(e.stack) == 2
        return e.kind == 'call' and (e.name.startswith('MPI_') or s.mine(e))

    def mine(s, e):
        return e.callee in s.S.P.functions and not e.name.startswith('std::') and not e.name.startswith('pugi::') and 'operator' not in e.name or e.name.split('::')[0] in CLASSES

    def go(s, pt, events, depth):
        i = 0
        while i < len(events):
            e = events[i]
            if len(e.loops) <= depth:
                i += 1
                if s.matters(e) and fp.holds(pt, e.guards):
                    s.visit(pt, e)
                continue
            L = e.loops[depth]
            j = i
            while j < len(events) and len(events[j].loops) > depth and events[j].loops[depth] is L:
                j += 1
            grp = events[i:j]
            i = j
            if not any(s.matters(x) for x in grp):
                continue
            if not fp.holds(pt, L.guards):
                continue
            for k, v in fp.iterate(pt, s.S.loopinfo[L.id], lambda c: s.go(c, grp, depth + 1)).items():
                pt.env[T('lo', L.id, k)] = v

    def iters(s, q, cid):
        return tuple(int(q.val(L.iter)) for L in s.loopsof.get(cid, ()))

    def result(s, q, t):
        cid = t.a[3]
        k = (cid,) + s.iters(q, cid) if cid is not None else (t,)
        if k in s.memo:
            return s.memo[k]
        n = t.a[0]
        if n.startswith(('basic_', 'std::', 'pugi::')) or '::' not in n:
            v = q.rnd('call', n, str(k))
            if isinstance(v, float):
                v = abs(v)
            s.memo[k] = v
            return v
        if n.rsplit('::', 1)[-1].startswith('operator'):
            return 1.0
        if cid in s.evof:               # asked before its place (the condition of a loop)
            s.visit(q, s.evof[cid])
            if k in s.memo:
                return s.memo[k]
        raise Bad('result of ' + n)

    def object(s, q, t):
        k = (t.a[0],) + tuple(int(q.val(L.iter)) for L in s.newloops.get(t, ()))
        o = s.objs.get(k)
        if o is None:
            raise Bad('object')
        return o

    def problem(s, kind, text):
        s.problems.append((kind, s.ev, text))

    def visit(s, q, e):
        s.ev = e
        if e.kind == 'alloc':
            t = e.res
            k = (t.a[0],) + tuple(int(q.val(L.iter)) for L in e.loops)
            cls = t.a[1]
            o = s.objs[k] = Obj(cls)
            if cls == 'double':
                o.size = q.val(e.args[0])
                o.content = None
            return
        if e.kind == 'free':
            v = q.val(e.args[0])
            if isinstance(v, Obj):
                if v.dead:
                    s.problem('memory', 'a %s is deleted twice' % v.cls)
                v.dead = True
                if v.cls == 'Lattice':
                    for x in v.elements:
                        if x.dead:
                            s.problem('memory', 'an element of the lattice is deleted twice')
                        x.dead = True
                if v.cls == 'Beam':
                    for b in v.bunches:
                        b.dead = True
            return
        if e.kind == 'push':
            l = s.lists.get(e.recv)
            if l is None:
                l = s.lists[e.recv] = Cont()
                s.sizes[e.recv] = 0
            l.append(q.val(e.args[0]))
            return
        if e.kind == 'vec':
            if e.recv in s.lists and e.name == 'clear':
                del s.lists[e.recv][:]
            return
        if e.kind in ('throw', 'exit'):
            raise Done('throw', e)
        if e.kind == 'return':
            raise Done('return', e)
        if e.kind != 'call':
            return
        args = []
        for a in e.args:
            try:
                args.append(q.val(a))
            except TMP as ex:
                args.append(None)
        recv = None
        if e.recv is not None:
            recv = q.val(e.recv)
            if isinstance(recv, Obj) and recv.dead:
                s.problem('memory', 'a %s is used after it has been deleted' % recv.cls)
        cid = e.res.a[3] if e.res is not None and e.res.op == 'call' else None
        key = (cid,) + s.iters(q, cid) if cid is not None else None
        if key is not None and key in s.memo and key in s.visited:
            return
        s.visited.add(key)
        s.key = key
        n = e.name
        if n.startswith('MPI_'):
            v = s.mpi(n, e, args)
        else:
            cls, m = n.rsplit('::', 1) if '::' in n else ('', n)
            h = getattr(s, 'do_' + m, None)
            if core.base(cls).rsplit('::', 1)[-1] == core.base(m):
                v = s.construct(recv, cls, args)
            elif h is not None:
                v = h(recv, *args)
            elif any(isinstance(a, Obj) for a in args) or isinstance(recv, Obj) and recv.cls not in ('Beam', 'Bunch', 'Lattice', 'ChargedParticle'):
                raise Bad('call of ' + n)
            elif e.res is not None and isinstance(recv, Obj):
                v = q.rnd('call', n, str(key))
            else:
                v = None
        if isinstance(v, (int, bool)):
            v = float(v)
        if key is not None:
            s.memo[key] = v if v is not None else 0.0

    def out(s, i, v):
        s.outs[s.key + (i,)] = v

    def container(s, i, ref, l):
        """a list handed back through an address"""
        if not isinstance(ref, Ref):
            raise Bad('container')
        c = Cont(l)
        s.lists[ref.loc] = c
        s.sizes[ref.loc] = len(c)
        s.out(i, c)
        return c

    # ---- MPI
    def buf(s, b):
        if not isinstance(b, Obj) or b.cls != 'double':
            raise Bad('buffer')
        return b

    def mpi(s, n, e, a):
        if n in ('MPI_Init', 'MPI_Init_thread'):
            s.inited = True
            s.out(0, 2.0)
            return 0
        if n == 'MPI_Comm_size':
            s.out(1, float(s.W.N))
            return 0
        if n == 'MPI_Comm_rank':
            s.out(1, float(s.rank))
            return 0
        if n == 'MPI_Wtime':
            s.clock += s.cfg['rnd'].choice((0.1, 50.0))
            return s.clock
        if n == 'MPI_Get_processor_name':
            return 0
        if n == 'MPI_Finalize':
            s.finalized = True
            s.W.collective(s.rank, n, e, (), None, lambda d: [None] * len(d))
            return 0
        if n == 'MPI_Barrier':
            s.W.collective(s.rank, n, e, (), None, lambda d: [None] * len(d))
            return 0
        ty = lambda x: x.xid[1] if isinstance(x, Ref) else str(x)

        def dbl(x, what='double'):
            if what not in ty(x):
                raise Broken('buffer', e, '%s() with type or operation %s for an array of double' % (n, ty(x)))
        if n == 'MPI_Bcast':
            b, cnt, t, root = s.buf(a[0]), a[1], a[2], int(a[3])
            dbl(t)
            if b.size < cnt:
                raise Broken('buffer', e, 'MPI_Bcast of %d values from an array of %d' % (cnt, b.size))
            b.content = s.W.collective(s.rank, n, e, (cnt, root), part(b.content, cnt), lambda d: [d[root]] * len(d))
            return 0
        if n in ('MPI_Allgather', 'MPI_Gather'):
            sb, cnt, t, rb, rc, t2 = s.buf(a[0]), a[1], a[2], s.buf(a[3]), a[4], a[5]
            root = int(a[6]) if n == 'MPI_Gather' else None
            dbl(t)
            dbl(t2)
            if cnt != rc or sb.size < cnt or rb.size < rc * s.W.N and root in (None, s.rank):
                raise Broken('buffer', e, '%s of %d values from an array of %d into parts of %d of an array of %d' % (n, cnt, sb.size, rc, rb.size))
            x = s.W.collective(s.rank, n, e, (cnt, root), part(sb.content, cnt), lambda d: [cat(d, cnt)] * len(d))
            if root in (None, s.rank):
                rb.content = x
            return 0
        if n in ('MPI_Reduce', 'MPI_Allreduce'):
            sb, rb, cnt, t, op = s.buf(a[0]), s.buf(a[1]), a[2], a[3], a[4]
            root = int(a[5]) if n == 'MPI_Reduce' else None
            dbl(t)
            summed = 'sum' in ty(op)
            if sb.size < cnt or rb.size < cnt:
                raise Broken('buffer', e, '%s of %d values with arrays of %d and %d' % (n, cnt, sb.size, rb.size))
            x = s.W.collective(s.rank, n, e, (cnt, root), sb.content, lambda d: [merge(d) if summed or len(d) < 2 else [('not summed', ty(op))]] * len(d))
            if root in (None, s.rank):
                rb.content = x
            return 0
        if n in ('MPI_Abort',):
            raise Done('throw', e)
        raise Bad(n)

    # ---- models of the library
    def construct(s, o, cls, a):
        if not isinstance(o, Obj):
            return None
        b = core.base(cls)
        if b == 'Lattice':
            o.elements = []
        elif b == 'Beam':
            o.bunches, o.nots, o.method, o.dt, o.set = [], None, None, None, 0
            s.beams.append(o)
        elif b == 'Bunch':
            o.particles = []
            if a:
                raise Bad('Bunch')
        elif b == 'ChargedParticle':
            if len(a) != 1 or not isinstance(a[0], Obj) or a[0].cls != 'ChargedParticle':
                raise Bad('ChargedParticle')
            o.pid, o.step, o.valid = a[0].pid, a[0].step, a[0].valid
        elif b.endswith('Logger'):
            src, fn, step, num = (a + [None] * 4)[:4]
            o.kind, o.source, o.file, o.step, o.number = b, src, fn, step, num
            o.records, o.written = [], 0
            s.probed = o
        return None

    def do_parseLattice(s, p, l):
        s.need(l, 'Lattice')
        s.elements = [Obj('GeneralField', external=True, name='element %d' % i) for i in range(s.cfg['elements'])]
        l.elements += s.elements
        return len(s.elements)

    def need(s, o, cls):
        if not isinstance(o, Obj) or o.cls != cls:
            raise Bad(cls)

    def do_parseBeam(s, p, b, l, probe):
        s.need(b, 'Beam')
        s.master = b
        k = 0
        for n in s.cfg['bunches']:
            u = Obj('Bunch', particles=[])
            for _ in range(n):
                u.particles.append(Obj('ChargedParticle', pid=k, step=0, valid=s.rank == 0))
                k += 1
            b.bunches.append(u)
        s.nop = k
        for st in s.cfg['loggers']:
            s.loggers.append(Obj('Logger', kind='Logger', step=st, source=b, records=[], written=0))
        s.container(1, l, s.loggers)
        r, st, num = s.cfg['probe']
        s.out(2, Obj('ProbeInfo', requested=float(r), number=float(num), step=float(st), filename='probe.h5', bunch=0))
        return len(b.bunches)

    def do_parseTracking(s, p, b, w, i):
        s.need(b, 'Beam')
        b.nots, b.method, b.dt = s.cfg['nots'], Obj('method'), 0.125
        s.trackset = (b.method, b.dt)
        s.watches = [Obj('watch', step=float(k), filename='w%d' % j, type=float(f), written=[]) for j, (k, f) in enumerate(s.cfg['watches'])]
        s.container(1, w, s.watches)
        s.interactions = [Obj('InteractionField', external=False, log=[], name='interaction %d' % j, written=0) for j in range(s.cfg['interactions'])]
        s.container(2, i, s.interactions)
        return None

    def do_parseObservers(s, p, l):
        s.observers = [Obj(t, source=None, acc=[], output=[], positions=None, integrated=[], nr=j) for j, t in enumerate(s.cfg['observers'])]
        s.container(0, l, s.observers)
        return len(s.observers)

    # beam
    def parts(s, b):
        return [p for u in b.bunches for p in u.particles] if b.cls == 'Beam' else b.particles

    def do_getNOP(s, b):
        return len(s.parts(b))

    def do_getNOB(s, b):
        return len(b.bunches)

    def do_getBunch(s, b, i):
        if not 0 <= int(i) < len(b.bunches):
            raise Broken('range', s.ev, 'bunch %d of %d is used' % (i, len(b.bunches)))
        return b.bunches[int(i)]

    def do_getParticle(s, b, i):
        l = b.particles
        if not 0 <= int(i) < len(l):
            raise Broken('range', s.ev, 'particle %d of %d is used' % (i, len(l)))
        return l[int(i)]

    def do_getNOTS(s, b):
        return float(b.nots if b.nots is not None else 0)

    def do_setNOTS(s, b, n):
        b.nots = int(n)

    def do_getTrackingMethod(s, b):
        return b.method or Obj('none')

    def do_setTrackingMethod(s, b, m):
        b.method = m

    def do_getTimeStep(s, b):
        return b.dt if b.dt is not None else 0.0

    def do_setTimeStep(s, b, d):
        b.dt = d

    def do_getStepBufferSize(s, b):
        return 10 * len(s.parts(b))

    def do_preAllocate(s, b, n):
        return None

    def do_clearTrajectories(s, b):
        for p in s.parts(b):
            if p.step > 0:
                s.problem('history', 'the trajectories of the beam are cleared during tracking')
        s.cleared = True

    def do_Add(s, b, x):
        if b.cls == 'Beam':
            s.need(x, 'Bunch')
            b.bunches.append(x)
        elif b.cls == 'Bunch':
            s.need(x, 'ChargedParticle')
            b.particles.append(x)
        else:
            raise Bad('Add')

    def do_bufferStep(s, b, buf):
        buf = s.buf(buf)
        l = s.parts(b)
        if buf.size < 10 * len(l):
            raise Broken('buffer', s.ev, 'the state of %d particles is stored in an array of %d' % (len(l), buf.size))
        old = list(buf.content or [])
        buf.content = [(p.pid, p.step, p.valid) for p in l] + old[len(l):]

    def do_setStepFromBuffer(s, b, buf):
        buf = s.buf(buf)
        l = s.parts(b)
        c = list(buf.content or [])
        if buf.size < 10 * len(l) or len(c) < len(l):
            raise Broken('buffer', s.ev, 'the state of %d particles is read from an array holding %d' % (len(l), len(c)))
        for i, p in enumerate(l):
            if c[i] is None or c[i][0] != p.pid:
                s.problem('gather', 'particle %d of the beam receives the state of %s' % (i, 'particle %d' % c[i][0] if c[i] else 'no particle'))
            if c[i] is not None:
                p.step, p.valid = c[i][1], c[i][2]
        b.nots = (b.nots or 0) + 1
        b.set += 1

    def do_setupTracking(s, b, lat):
        s.need(lat, 'Lattice')
        s.tracked = b
        b.setup = getattr(b, 'setup', 0) + 1
        s.log.append(('setup', b, b.method, b.dt, list(lat.elements), [p.pid for p in s.parts(b)], s.ev))
        b.nots = 0

    def do_doStep(s, b, lat):
        s.need(lat, 'Lattice')
        if not getattr(b, 'setup', 0):
            s.problem('steps', 'the beam is tracked without setupTracking()')
        for p in s.parts(b):
            p.step += 1
        b.nots = (b.nots or 0) + 1
        s.log.append(('step', b, b.nots, list(lat.elements), s.ev))

    def do_WriteWatchPointHDF5(s, b, fn):
        return s.watch(b, fn, 'hdf5')

    def do_WriteWatchPointSDDS(s, b, fn):
        s.watch(b, fn, 'sdds')
        return 0

    def watch(s, b, fn, fmt):
        s.log.append(('watch', b, fn, fmt, b.nots, s.ev))
        return len(s.parts(b))

    # lattice
    def do_addElement(s, l, x):
        l.elements.append(x)

    def do_count(s, l):
        return len(l.elements)

    def do_at(s, l, i):
        if not 0 <= int(i) < len(l.elements):
            raise Broken('range', s.ev, 'element %d of a lattice of %d is used' % (i, len(l.elements)))
        return l.elements[int(i)]

    def do_remove(s, l, i):
        if not 0 <= int(i) < len(l.elements):
            raise Broken('range', s.ev, 'element %d of a lattice of %d is removed' % (i, len(l.elements)))
        del l.elements[int(i)]

    def do_is_external(s, x):
        return float(x.external)

    # loggers and interactions
    def do_log_requested(s, l, k):
        return float(int(k) % int(l.step) == 0)

    def do_update(s, l):
        l.records.append(l.source.nots)
        s.log.append(('update', l, l.source.nots, s.ev))

    def do_WriteData(s, l):
        l.written += 1
        s.log.append(('WriteData', l, len(l.records), s.ev))
        return 0

    def do_write_output(s, f):
        f.written += 1
        s.log.append(('write_output', f, s.ev))

    def do_init(s, f, b):
        s.log.append(('init', f, b, b.nots, b.set, s.ev))

    def do_step(s, f, b):
        s.log.append(('interact', f, b, b.nots, s.ev))

    # observers
    def do_setSource(s, o, x):
        o.source = x

    def do_integrate(s, o):
        if o.source is None:
            s.problem('source', 'an observer is integrated without source')
            return
        if o.source.cls == 'Lattice':
            o.acc.append(('lattice', tuple(x.name for x in o.source.elements)))
        else:
            o.acc += [('particle', p.pid, p.step) for p in s.parts(o.source)]
        o.integrated.append(o.source)

    def do_getBufferSize(s, o):
        return 12.0 + 6 * o.nr

    def do_getBuffer(s, o):
        b = Obj('double', size=12.0 + 6 * o.nr, content=list(o.acc))
        return b

    def do_fromBuffer(s, o, b, n):
        b = s.buf(b)
        if n != 12.0 + 6 * o.nr:
            s.problem('reduce', 'fromBuffer() is given %d values instead of %d' % (n, 12 + 6 * o.nr))
        if b.content is None:
            s.problem('reduce', 'fromBuffer() is given a buffer without data')
        o.acc = list(b.content or [])

    def do_storeParticlePositions(s, o):
        o.positions = [p.pid for p in s.parts(o.source)]
        return len(o.positions)

    def do_generateOutput(s, o):
        o.output.append((list(o.acc), o.positions))
        s.log.append(('output', o, s.ev))


class Done(Exception):
    pass


CLASSES = {'Beam', 'Bunch', 'ChargedParticle', 'Lattice', 'InputParser', 'Logger', 'Observer', 'BaseObserver', 'InteractionField', 'GeneralField'}


def part(c, cnt):
    c = list(c or [])
    n = int(cnt) // 10
    return (c + [None] * n)[:n]


def cat(d, cnt):
    out = []
    for x in d:
        out += part(x, cnt)
    return out


def merge(d):
    out = []
    for x in d:
        out += list(x or [])
    return out


def jobs(tier):
    """modelled jobs"""
    import random
    rnd = random.Random(7)
    obs = ['PointObserver<Beam>', 'SnapshotObserver<Beam>', 'ScreenObserver<Lattice>', 'MeshedScreen<Beam>', 'SnapshotObserver<Lattice>', 'ScreenObserver<Beam>',
           'PointObserver<Lattice>', 'MeshedScreen<Lattice>']
    out = []
    n = 14 if tier == 'quick' else 60
    for i in range(n):
        c = dict(nodes=(1, 2, 3, 4, 3, 2)[i % 6], nots=(0, 1, 4, 5, 7)[i % 5], elements=rnd.randrange(4), interactions=rnd.randrange(3),
                 bunches=[rnd.randrange(0 if i % 4 == 3 else 1, 5) for _ in range(rnd.randrange(1, 4))], loggers=[rnd.choice((1, 2, 3)) for _ in range(rnd.randrange(3))],
                 probe=(i % 2, rnd.choice((1, 2)), 3), observers=[obs[(i + k) % len(obs)] for k in range(rnd.randrange(1, 4))], rnd=rnd)
        c['watches'] = [(k, rnd.randrange(2)) for k in {0, 1, c['nots'], rnd.randrange(1, 9)}]
        if i == 5:
            c['bunches'] = [1]          # fewer particles than nodes
        if i == 2:
            c['watches'] += [(2, 1), (2, 0)]
        out.append(c)
    return out


def scene(P):
    fs = [f for f in core.find(P, 'main') if f['f'].endswith(HOME) and f.get('body') is not None]
    if not fs:
        raise front.AnalysisBroken('no main() in ' + HOME)
    f = fs[0]
    S = api.Scene(P, opaque=lambda fn: not fn['f'].endswith(HOME))
    S.session = True
    S.call(f, None, *[T('p', i, p['n']) for i, p in enumerate(f['params'])])
    return S, f


def simulate(P, S, cfg):
    """-> (world, [MRun per node])"""
    import sys
    sys.setrecursionlimit(100000)
    W = World(cfg)
    runs = []
    errs = []

    def body(r):
        with W.cond:
            try:
                r.start()
            except TMP as ex:
                errs.append((r, ex))
                r.outcome = ('undecided', '%s: %s' % (type(ex).__name__, ex))
                if W.stuck is None:
                    W.stuck = ('undecided', None, str(ex))
            W.end()
    old = threading.stack_size(512 << 20)
    ths = []
    for k in range(W.N):
        pt = MPoint(P, 11 + k)
        r = MRun(W, k, pt, S)
        runs.append(r)
        ths.append(threading.Thread(target=body, args=(r,), daemon=True))
    for t in ths:
        t.start()
    for t in ths:
        t.join(300)
    threading.stack_size(old)
    return W, runs, errs

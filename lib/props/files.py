"""What a writer puts into an HDF5 or SDDS file, and what a reader gets from one: execution of effect summaries with a model of the file."""
import re
import core, api, fp
from core import T, C, add
from props import iorun
from props.iorun import TMP

DT = {'INT': 'int', 'UINT': 'int', 'UINT32': 'int', 'INT32': 'int', 'UINT64': 'int', 'INT64': 'int', 'LONG': 'int', 'ULONG': 'int', 'HSIZE': 'int', 'DOUBLE': 'double', 'FLOAT': 'float'}


class Reject(Exception):
    """the file does not say what it should"""


def text(q, t):
    """the string constant a term has at this point"""
    while isinstance(t, core.Term):
        if t.op == 's':
            return str(t.a[0]).strip('"').replace('\\0', '').replace('\x00', '')
        if t.op == 'ite':
            t = t.a[1] if q.val(t.a[0]) else t.a[2]
            continue
        if t.op in ('ldv', 'ld'):
            v = q.mem.get(('text', q.key(t.a[0])))
            if v is not None:
                return v
        sub = [x for x in core.subterms(t) if x.op in ('s', 'ite')]
        if t.op == 'call' and t.a[1] is not None and not any(x.op in ('s', 'ite') for x in t.a[2]):
            t = t.a[1]
            continue
        if len(sub) == 1 or sub and t.op not in ('s', 'ite'):
            s0 = [x for x in sub if x is not t]
            if not s0:
                return None
            t = s0[0]
            continue
        return None
    return None


def h5type(t):
    for x in core.subterms(t):
        for y in x.a:
            m = re.search(r'H5T_(?:NATIVE|STD|IEEE)_(\w+?)(_g)?$', str(y)) if isinstance(y, str) else None
            if m:
                return DT.get(m.group(1), m.group(1))
    return None


def elements(q, buf, n, snap=None):
    """n doubles (integers) behind a pointer"""
    out, i = [], 0
    if buf.op == 'addr' and buf.a[0].op == 'var' and snap:
        while len(out) < n:
            if i not in snap or snap[i].op in ('unk', 'undef'):
                raise fp.Bad('local array')
            out += fp.flat(q.val(snap[i]))
            i += 1
        return out
    buf = q.subst(buf) if buf.op != 'ite' else q.carry(buf)
    p = core.poly(buf)
    el = [m[0] for m, c in p.items() if len(m) == 1 and m[0].op == 'addr' and m[0].a[0].op == 'e']
    while len(out) < n:
        if el:
            o = add(add(buf, el[0], -1), el[0].a[0].a[1])
            loc = T('e', el[0].a[0].a[0], add(o, C(i)))
        else:
            loc = T('*', add(buf, C(i)))
        k = q.key(loc)
        if k in q.mem:
            v = q.mem[k]
        else:
            t = q.loctype(loc)
            v = None
            for s, fs in (('Vector', 'xyz'),):
                if t == s:
                    c = [q.mem.get(q.key(T('f', T('addr', loc), '%s::%s' % (s, f)))) for f in fs]
                    v = fp.V(*c) if None not in c else None
            if v is None and any(x.op == 'new' for x in core.subterms(buf)) and not el:
                raise Reject('value %d of the buffer was never set' % len(out))
            if v is None:
                v = q.val(T('ld', loc))
        out += fp.flat(v)
        i += 1
    return out


class FileRun(iorun.Run):
    def __init__(s, pt, S, events, read=None, effects=None, values=None, nst=2, fail=None):
        s.read = read                   # model of the file that is read
        s.files = []                    # models of the files written
        s.handle = {}
        s.effects = effects or {}
        s.sdds = {}
        v = dict(values or {})
        if read is not None:
            pt.calls['out:H5Aread'] = s.aread
            v['H5Lexists'] = lambda r, q, t: 1.0 if text(q, t.a[2][1]) in read['data'] else 0.0
            pt.calls['out:H5Sget_simple_extent_dims'] = lambda q, t, i: float(s.extent(q, t.a[2].t.a[2][0])[i])
            v['H5Sget_simple_extent_ndims'] = lambda r, q, t: float(len(s.extent(q, t.a[2][0])))
        v['H5Aopen_name'] = lambda r, q, t: r.fresh() if read is None or r.attr(q, t) in read['attrs'] else -1.0
        super().__init__(pt, S, events, nst, fail=fail, values=v)

    def matters(s, x):
        return super().matters(x) or x.kind == 'call' and x.name in s.effects

    def fresh(s):
        return 1000.0 + len(s.memo)

    def attr(s, q, t):
        return (s.handle[q.val(t.a[2][0])]['name'], text(q, t.a[2][1]))

    def extent(s, q, t):
        return s.handle[q.val(t)]['dims']

    def aread(s, q, t, i):
        h = s.handle[q.val(t.a[2].t.a[2][0])]
        k = (h['name'], h['attr'])
        if s.read is None or k not in s.read['attrs']:
            raise fp.Bad('attribute %s.%s' % k)
        ty = h5type(t.a[2].t.a[2][1])
        if s.read.get('types', {}).get(k, ty) != ty:
            raise Reject('attribute %s.%s is read as %s' % (k[0], k[1], ty))
        return float(s.read['attrs'][k])

    def visit(s, q, e):
        super().visit(q, e)
        if e.kind == 'call' and e.name in s.effects:
            s.effects[e.name](q, e)
        if e.kind != 'call' or not iorun.isio(e.name) or s.failed:
            return
        n, a = e.name, e.args
        v = s.memo.get(s.inst(q, e.res.a[3]))
        num = lambda i: s.number(q, a[i])
        if re.match('H5Fcreate', n):
            s.handle[v] = dict(kind='F', name='')
            s.files.append(dict(data={}, attrs={}, types={}, file=a[0]))
        elif n == 'H5Screate_simple':
            r = int(num(0))
            sn = (e.snap or {}).get(1, {})
            s.handle[v] = dict(kind='S', dims=tuple(int(round(q.val(sn[i]))) for i in range(r)))
        elif n == 'H5Screate':
            s.handle[v] = dict(kind='S', dims=())
        elif re.match('H5Dcreate', n):
            name = text(q, a[1])
            if name in s.files[-1]['data']:
                raise Reject('data set %s is created twice' % name)
            s.handle[v] = dict(kind='D', name=name, dims=s.handle[num(3)]['dims'], type=h5type(a[2]))
            s.files[-1]['data'][name] = None
        elif re.match('H5Dopen', n):
            name = text(q, a[1])
            s.handle[v] = dict(kind='D', name=name)
            if s.read is not None:
                s.handle[v]['dims'] = s.read['data'][name][0] if name in s.read['data'] else ()
        elif n == 'H5Dget_space':
            s.handle[v] = dict(kind='S', dims=s.handle[num(0)].get('dims'))
        elif n == 'H5Dwrite':
            h = s.handle[num(0)]
            for i in (2, 3):
                x = s.handle.get(num(i))
                if x is not None and x['dims'] != h['dims']:
                    raise Reject('data set %s is written with a data space of another size' % h['name'])
            k = 1
            for d in h['dims']:
                k *= d
            ty = h5type(a[1])
            c = ctype(q, a[-1])
            if c and ty and c != ty:
                raise Reject('data set %s: values of type %s are written as %s' % (h['name'], c, ty))
            if k > 20000:
                raise fp.Bad('size')
            s.files[-1]['data'][h['name']] = (h['dims'], h['type'], elements(q, a[-1], k, (e.snap or {}).get(len(a) - 1)) if k else [])
        elif n == 'H5Aread' and s.read is not None:
            loc = a[2].a[0] if a[2].op == 'addr' else T('*', a[2])
            if loc.op != 'var':
                q.mem[q.key(loc)] = s.aread(q, T('out', 0, 2, core.Ref(e.res)), 0)
                forget(q)
        elif n == 'H5Dread' and s.read is not None:
            h = s.handle[num(0)]
            dims, ty, vals = s.read['data'][h['name']]
            if ty != h5type(a[1]):
                raise Reject('data set %s is read as %s' % (h['name'], h5type(a[1])))
            put(q, a[-1], vals, h['name'])
        elif re.match('H5Acreate', n):
            s.handle[v] = dict(kind='A', name=s.handle[num(0)].get('name'), attr=text(q, a[1]), type=h5type(a[2]))
        elif re.match('H5Aopen', n) and v >= 0:
            s.handle[v] = dict(kind='A', name=s.handle[num(0)].get('name'), attr=text(q, a[1]))
        elif n == 'H5Awrite':
            h = s.handle[num(0)]
            x = (e.snap or {}).get(2, {}).get(0)
            val = elements(q, a[2], 1)[0] if x is None or x.op in ('unk', 'undef') else q.val(x)
            c, ty = ctype(q, a[2]), h5type(a[1])
            if c and ty and c != ty:
                raise Reject('attribute %s.%s: a value of type %s is written as %s' % (h['name'], h['attr'], c, ty))
            s.files[-1]['attrs'][(h['name'], h['attr'])] = val
            s.files[-1]['types'][(h['name'], h['attr'])] = h['type']
        elif n == 'SDDS_InitializeOutput':
            s.files.append(dict(params={}, columns={}, rows={}, lines=None, pages=0, units={}, stype={}, file=a[-1]))
        elif n in ('SDDS_DefineSimpleParameter', 'SDDS_DefineParameter'):
            s.files[-1]['params'][text(q, a[1])] = None
            s.files[-1]['stype'][text(q, a[1])] = s.number(q, a[3] if 'Simple' in n else a[6])
            s.files[-1]['units'][text(q, a[1])] = text(q, a[2] if 'Simple' in n else a[3]) or ''
        elif n in ('SDDS_DefineColumn', 'SDDS_DefineSimpleColumn'):
            s.files[-1]['columns'][text(q, a[1])] = True
            s.files[-1]['stype'][text(q, a[1])] = s.number(q, a[3] if 'Simple' in n else a[6])
            s.files[-1]['units'][text(q, a[1])] = text(q, a[3] if 'Simple' not in n else a[2]) or ''
        elif n == 'SDDS_StartPage':
            s.files[-1]['lines'] = int(num(1))
            s.files[-1]['pages'] += 1
        elif n == 'SDDS_SetParameters':
            s.vararg(q, e, 2)
            for k, x in pairs(q, a[2:]):
                if k not in s.files[-1]['params']:
                    raise Reject('parameter %s is not defined' % k)
                s.files[-1]['params'][k] = q.val(x)
        elif n == 'SDDS_SetRowValues':
            row = s.files[-1]['rows'].setdefault(int(num(2)), {})
            s.vararg(q, e, 3)
            for k, x in pairs(q, a[3:]):
                if k not in s.files[-1]['columns']:
                    raise Reject('column %s is not defined' % k)
                row[k] = q.val(x)
        elif n == 'SDDS_WritePage':
            s.files[-1]['written'] = True

    def vararg(s, q, e, i):
        """values passed by name have the type of the parameter or column"""
        args = e.node.get('c') or []
        if len(args) != len(e.args):
            return
        while i + 1 < len(args):
            k = text(q, e.args[i])
            if k is None:
                return
            want = SDDS.get(s.files[-1]['stype'].get(k))
            t = (args[i + 1].get('t') or '').replace('const ', '').strip()
            got = 'double' if t in ('double', 'float') else 'int' if re.match(r'(unsigned |signed )?(int|short|char)$|unsigned$|bool$', t) else \
                'long' if re.match(r'(unsigned )?(long|long int|long long)$', t) else None
            if want and got and want != got:
                raise Reject('%s: a value of type %s is passed for one of type %s' % (k, t, want))
            i += 2


SDDS = {2.0: 'double', 3.0: 'double', 4.0: 'long', 5.0: 'long', 6.0: 'int', 7.0: 'int', 8.0: 'int', 9.0: 'int'}


def pairs(q, a):
    i = 0
    while i < len(a):
        k = text(q, a[i])
        if k is None:
            return
        yield k, a[i + 1]
        i += 2


def ctype(q, buf):
    """C type of the values behind a pointer"""
    try:
        b = q.subst(buf)
        if b.op == 'addr':
            t = q.loctype(b.a[0])
            if b.a[0].op == 'e' and not t:
                return None
        else:
            t = q.loctype(T('*', b))
    except TMP:
        return None
    t = re.sub(r'\b(const|std::)\b', '', t).strip(' :')
    if t in ('double', 'Vector', 'ElMagField'):
        return 'double'
    if re.match(r'(unsigned |signed )?(int|long|short)( int)?$|unsigned$|u?int(32|64)_t$|size_t$|hsize_t$', t):
        return 'int'
    return {'float': 'float'}.get(t)


def put(q, buf, vals, name):
    """fill a buffer"""
    buf = q.subst(buf)
    p = core.poly(buf)
    el = [m[0] for m, c in p.items() if len(m) == 1 and m[0].op == 'addr' and m[0].a[0].op == 'e']

    def loc(i):
        if el:
            return T('e', el[0].a[0].a[0], add(add(add(buf, el[0], -1), el[0].a[0].a[1]), C(i)))
        return T('*', add(buf, C(i)))
    t = q.loctype(loc(0))
    i = j = 0
    while i < len(vals):
        if t == 'Vector':
            q.mem[q.key(loc(j))] = fp.V(*vals[i:i + 3])
            i += 3
        elif t == 'ElMagField':
            q.mem[q.key(loc(j))] = fp.F(fp.V(*vals[i:i + 3]), fp.V(*vals[i + 3:i + 6]))
            i += 6
        else:
            q.mem[q.key(loc(j))] = vals[i]
            i += 1
        j += 1
    forget(q)


def forget(q):
    for k in [k for k in q.memo if not isinstance(k, core.Term) or k.op not in ('p', 'c', 'const')]:
        if k not in getattr(q, 'preset', {}):
            del q.memo[k]

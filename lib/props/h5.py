"""Model of the HDF5 calls: what a reader takes from which attribute / dataset of the file."""
import core, api, fp
from core import T, C, add


def const(t):
    """the string constant a term stands for"""
    return str(t.a[0]).strip('"') if t.op == 's' else None


def string(t):
    for x in core.subterms(t):
        if x.op == 's':
            return const(x)
    return None


def handle(t):
    """(dataset name, attribute name) an HDF5 identifier belongs to"""
    if not isinstance(t, core.Term) or t.op != 'call':
        return None, None
    n, v = t.a[0], t.a[2]
    if n in ('H5Aopen_name', 'H5Aopen', 'H5Acreate2', 'H5Acreate', 'H5Acreate1'):
        return handle(v[0])[0], string(v[1])
    if n == 'H5Aopen_by_name':
        return string(v[1]), string(v[2])
    if n in ('H5Dopen2', 'H5Dopen', 'H5Dopen1', 'H5Dcreate2', 'H5Dcreate', 'H5Dcreate1'):
        return string(v[1]), None
    if n in ('H5Dget_space', 'H5Aget_space', 'H5Dget_type'):
        return handle(v[0])
    return None, None


class Reader:
    """attribute and dataset reads of an interpreted function"""

    def __init__(s, S):
        s.attrs, s.data = {}, []
        for e in S.events:
            if e.kind == 'call' and e.name == 'H5Aread':
                s.attrs[handle(e.args[0])] = e
            if e.kind == 'call' and e.name == 'H5Dread':
                s.data.append((handle(e.args[0])[0], e.args[-1], e))

    def attach(s, pt, attrs, extents=()):
        """give the attributes their values at a point; extents: dataset -> dimensions"""
        def aread(q, t, i):
            k = handle(t.a[2].t.a[2][0])
            if k not in attrs:
                raise fp.Bad('attribute %s.%s' % k)
            return float(attrs[k])
        pt.calls['out:H5Aread'] = aread
        ext = dict(extents)

        def dims(q, t, i):
            k = handle(t.a[2].t.a[2][0])[0]
            return float(ext[k][i])
        pt.calls['out:H5Sget_simple_extent_dims'] = dims
        pt.calls['H5Sget_simple_extent_ndims'] = lambda q, t: float(len(ext[handle(t.a[2][0])[0]]))

"""E02: when a file has been written or read, every HDF5 identifier and every buffer made for it has been released exactly once."""
import core, api, front, fp
from rep import Rep
from props import iorun
from props.e01 import sessions, baseline, label


def run(P, tier):
    R = Rep(P)
    n = 8 if tier == 'quick' else 40
    for f, S, ev, types in sessions(P):
        where = front.loc(f, f)
        try:
            runs, errors, und = baseline(P, S, ev, types, n)
        except front.AnalysisBroken as ex:
            runs, errors, und = [], [], str(ex)
        if not runs:
            R.oblig('released', None, f['n'], where, f['n'], '%s: no complete execution: %s' % (f['n'], und))
            continue
        sites, bad = {}, {}
        for seed, r in runs:
            for h, x in r.ids.items():
                sites[(x[2].where, x[2].name, x[2].seq)] = x[2]
            for a in r.alloc:
                sites[(a[1].where, 'new', a[1].seq)] = a[1]
            for kind, e in r.unreleased():
                bad[('leak', e.seq)] = (e, '%s: %s is not released' % (f['n'], 'the identifier from %s%s' % (e.name, label(e)) if kind == 'identifier' else 'a buffer of ' + e.name))
            for kind, e, msg in r.problems:
                bad[(kind, e.seq)] = (e, '%s: %s' % (f['n'], msg if kind != 'twice' else 'a buffer is released twice'))
        for k, e in sites.items():
            R.oblig('released', True, '%s %s' % (f['n'], k[1]), e.where, f['n'], 'released')
        for k, (e, msg) in bad.items():
            R.oblig('released', False, '%s|%s|%s' % (core.base(f['n']), k[0], e.name + label(e)), e.where, f['n'], msg)
    return R.result('Typestate of HDF5 identifiers (open - used - closed by the matching call, once) and of new[] buffers, over the effect '
                    'summaries of all functions that work on files, with every operation succeeding.', minimum=60)

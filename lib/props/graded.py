"""Common driver of the three graded-type rules (U01, U02, U03)."""
import re
import grade, infer
from front import AnalysisBroken

ALG = {'U01': grade.Dim, 'U02': grade.Affine, 'U03': grade.Mirror}
EXPL = {
    'U01': 'Type inference in a type system of physical units (m, kg, s, A, electron charge, electron mass). Units of members, '
           'parameters and results of the public classes, of the named constants and of output columns are declared; every '
           'sum, comparison, assignment, call, return and transcendental argument yields a unit equation, solved by elimination. '
           'Helpers outside the declared interface are re-analysed at each call. A violation is an unsolvable equation.',
    'U02': 'Type inference with integer origin weights: each time/position is absolute (follows a shift of the origin) or relative. '
           'Sums add weights, scaling needs weight 0; interfaces, comparisons, arguments of nonlinear functions and products '
           'are checked. Undecided weights (interpolations, accumulations) are never reported.',
    'U03': 'Type inference with mirror parities (Z2^3): each scalar/vector/component carries its behaviour under x->-x, y->-y, z->-z '
           '(electric field polar, magnetic field axial). Sums, assignments, vector construction, returns and calls must agree.',
}
MIN = {'U01': (300, 1500, 100), 'U02': (300, 1200, 100), 'U03': (120, 400, 50)}


def run(P, pid):
    A = ALG[pid]()
    I = infer.Infer(P, A)
    for f in sorted(P.functions.values(), key=lambda f: (f['f'], f['l'])):
        I.run_function(f)
    mf, ma, ms = MIN[pid]
    if I.nfun < mf or I.narith < ma or len(I.nseed) < ms:
        raise AnalysisBroken('only %d functions, %d operations, %d declarations analysed' % (I.nfun, I.narith, len(I.nseed)))
    out = []
    for e in I.errors.values():
        msg = re.sub(r'\?\d+', '?', e['msg'])
        out.append(dict(where=e['where'], fn=e['fn'], msg=msg, key='%s|%s' % (e['fn'], msg),
                        detail=['call chain: ' + ' -> '.join(e['chain'])]))
    cov = dict(functions=I.nfun, equations=I.nconstr, operations=I.narith, instantiated_calls=I.ncalls,
               declared_symbols=len(I.nseed), output_columns=I.ncols)
    return dict(violations=out, coverage=cov, explanation=EXPL[pid], summary=['%s: %s' % (pid, cov)],
                assumptions=['declared interface table lib/grade.py is what the class documentation states'])

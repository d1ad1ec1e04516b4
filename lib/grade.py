"""Graded type inference over the typed syntax trees.

One walker (class Infer) generates equality constraints between the grades of
all expressions; an Algebra decides what a grade is:

  Dim     exponents of (m, kg, s, A, e-count, me-count)   -> dimensional consistency
  Mirror  elements of Z2^3 (behaviour under x->-x, y->-y, z->-z) -> mirror covariance

Grades are linear forms  sum(c_i * var_i) + const ; equality constraints are
solved by elimination.  A grade variable is introduced per local variable, per
parameter instance, per class member and per literal zero.  Functions that are
not part of the declared interface are re-walked at every call with the grades
of the actual arguments (polymorphism), so extracting helpers does not matter.
"""
from fractions import Fraction
import re, sys
import front
from front import loc

sys.setrecursionlimit(10000)


class Conflict(Exception):
    pass


class Linear:
    """c: {var:coef}, k: constant tuple"""
    __slots__ = ('c', 'k')

    def __init__(self, c, k):
        self.c, self.k = c, k


class Algebra:
    N = 0          # length of the constant vector
    # Bunch::addCorrelation: `independent'/`dependent' select a position or momentum coordinate at run time, the factor
    # carries the quotient of their units
    exempt = {'Bunch::addCorrelation'}
    roots = None   # classes whose members are analysed (None: everything)
    mod2 = False

    def __init__(self):
        self.nvar = 0
        self.sub = {}      # var -> Linear
        self.names = {}

    def zero(self):
        return Linear({}, (0,) * self.N)

    def const(self, k):
        return Linear({}, tuple(k))

    def fresh(self, name=None):
        self.nvar += 1
        if name:
            self.names[self.nvar] = name
        return Linear({self.nvar: 1}, (0,) * self.N)

    def plus(self, inf, a, b, n, op):
        inf.eq(a, b, n, "operands of '%s'" % op)
        return a

    def mulx(self, a, b, na, nb):
        return self.mul(a, b)

    def divx(self, a, b, na, nb):
        return self.div(a, b)

    def merge(self, inf, a, b):
        """grades of one variable arriving on two paths: None = decide when the variable is used"""
        return None

    def norm(self, x):
        if not any(v in self.sub for v in x.c):
            return x
        c, k = {}, list(x.k)
        st = list(x.c.items())
        while st:
            v, f = st.pop()
            s = self.sub.get(v)
            if s is None:
                c[v] = c.get(v, 0) + f
            else:
                for v2, f2 in s.c.items():
                    st.append((v2, f * f2))
                for i in range(self.N):
                    k[i] += f * s.k[i]
        if self.mod2:
            c = {v: 1 for v, f in c.items() if f % 2}
            k = [a % 2 for a in k]
        else:
            c = {v: f for v, f in c.items() if f}
        return Linear(c, tuple(k))

    def add(self, a, b, s=1):
        c = dict(a.c)
        for v, f in b.c.items():
            c[v] = c.get(v, 0) + s * f
        k = tuple(x + s * y for x, y in zip(a.k, b.k))
        r = Linear(c, k)
        if self.mod2:
            r = Linear({v: 1 for v, f in c.items() if f % 2}, tuple(x % 2 for x in k))
        else:
            r = Linear({v: f for v, f in c.items() if f}, k)
        return r

    def scale(self, a, f):
        if self.mod2:
            if isinstance(f, Fraction) and f.denominator != 1 or int(f) != f:
                raise ValueError
            f = int(f) % 2
        return Linear({v: x * f for v, x in a.c.items() if x * f}, tuple(x * f for x in a.k))

    def unify(self, a, b):
        """returns True if consistent"""
        d = self.norm(self.add(a, b, -1))
        if not d.c:
            return not any(d.k)
        v = max(d.c)            # eliminate the youngest variable
        f = d.c[v]
        rest = {x: -c / Fraction(f) for x, c in d.c.items() if x != v} if not self.mod2 else {x: 1 for x in d.c if x != v}
        k = tuple(-x / Fraction(f) for x in d.k) if not self.mod2 else d.k
        self.sub[v] = Linear(rest, k)
        return True

    def show(self, a):
        a = self.norm(a)
        return self.showc(a)


class Dim(Algebra):
    BASE = ['m', 'kg', 's', 'A', 'e', 'me']
    N = 6
    title = 'unit'

    def showc(self, a):
        t = []
        for n, x in zip(self.BASE, a.k):
            if x:
                t.append(n if x == 1 else '%s^%s' % (n, x))
        for v, f in a.c.items():
            t.append('?%d%s' % (v, '' if f == 1 else '^%s' % f))
        return '·'.join(t) or '1'

    @staticmethod
    def parse(s):
        if s in ('1', ''):
            return (0,) * 6
        k = [Fraction(0)] * 6
        for part in s.split('·'):
            n, _, e = part.partition('^')
            e = Fraction(e or 1)
            u = DERIVED.get(n)
            if u is None:
                u = [0] * 6
                u[Dim.BASE.index(n)] = 1
            for i in range(6):
                k[i] += u[i] * e
        return tuple(k)

    def literal(self, v):
        return self.zero() if v != 0 else self.fresh('0')

    def mul(self, a, b):
        return self.add(a, b)

    def div(self, a, b):
        return self.add(a, b, -1)

    def power(self, a, p):
        return self.scale(a, Fraction(p).limit_denominator(64))

    def even(self, inf, g, n, what):      # argument of a transcendental function
        inf.eq(g, self.zero(), n, what)
        return self.zero()
    odd = even

    def sqrt(self, inf, g, n):
        return self.scale(g, Fraction(1, 2))

    def absval(self, inf, g, n):
        return g

    def comp(self, g, i):
        return g

    def vec(self, inf, gs, n):
        for g in gs[1:]:
            inf.eq(gs[0], g, n, 'components of a vector')
        return gs[0]

    def dot(self, a, b):
        return self.mul(a, b)
    cross = dot

    def compare(self, inf, a, b, n, op, la, lb):
        inf.eq(a, b, n, "operands of '%s'" % op)

    def E(self, s):
        return self.add(s, self.const(Dim.parse('V·m^-1')))

    def B(self, s):
        return self.add(s, self.const(Dim.parse('T')))

    def unE(self, g):
        return self.add(g, self.const(Dim.parse('V·m^-1')), -1)

    def unB(self, g):
        return self.add(g, self.const(Dim.parse('T')), -1)

    def seed(self, unit, leaf):
        return self.const(Dim.parse(unit[0]))

    CONST = {
        'SpeedOfLight': (2.99792458e8, 'm·s^-1'),
        'ElementaryCharge': (1.6021766208e-19, 'C·e^-1'),
        'EpsNull': (8.854187817e-12, 'A·s·V^-1·m^-1'),
        'MuNull': (1.25663706143591729e-06, 'V·s·A^-1·m^-1'),
        'InvRestMass': (1.758820025e11, 'C·kg^-1·me·e^-1'),
        'mecsquared': (0.5109989461e6, 'V'),
        'PlanckH': (6.62607015e-34, 'J·s'),
        'Pi': (3.141592653589793, '1'),
    }

    def constant(self, value, mac):
        """unit of a numeric constant, or None"""
        for n, (v, u) in self.CONST.items():
            if abs(value - v) <= 1e-8 * abs(v):
                return self.const(Dim.parse(u))
        return None


DERIVED = {}


def _derived():
    B = Dim.BASE

    def d(**kw):
        return tuple(Fraction(kw.get(b, 0)) for b in B)
    DERIVED.update(
        C=d(A=1, s=1), V=d(m=2, kg=1, s=-3, A=-1), T=d(kg=1, s=-2, A=-1), J=d(m=2, kg=1, s=-2),
        W=d(m=2, kg=1, s=-3), Hz=d(s=-1), N=d(m=1, kg=1, s=-2), Ohm=d(m=2, kg=1, s=-3, A=-2))


_derived()


class Mirror(Algebra):
    """behaviour under the three mirror reflections.  For a vector the grade is the
    'twist': component i changes sign like (grade + e_i)."""
    N = 3
    mod2 = True
    title = 'mirror parity'
    # only the frame-independent part of the library: devices with built-in axes (undulators, waves, FEL, source
    # screens, meshes), the file readers and the stand-alone tools choose coordinate axes by construction
    roots = {'Vector', 'ElMagField', 'ElMagObs', 'FieldTrace', 'ChargedParticle', 'Bunch', 'Beam', 'HardEdgeDipole',
             'SoftEdgeDipole', 'HomogeneousField', 'LocalizedField', 'Lattice', 'PointObserver', 'ScreenObserver',
             'SnapshotObserver'}
    # square/root: component-wise helpers for the rms values; transform: change of frame; Bunch constructors: the
    # SDDS reader spans a beam frame from the z axis; BunchingFactor: longitudinal by definition; dipole
    # constructors: default axes
    exempt = {'Bunch::addCorrelation', 'Vector::square', 'Vector::root', 'Vector::transform', 'FieldTrace::transform',
              'Bunch::Bunch', 'Bunch::BunchingFactor', 'Bunch::rmsPosition', 'Bunch::rmsMomentum', 'Bunch::PosMomCorrelation',
              'HardEdgeDipole::HardEdgeDipole', 'SoftEdgeDipole::SoftEdgeDipole'}
    AX = (1, 1, 1)

    def showc(self, a):
        t = ''.join('xyz'[i] if b else '' for i, b in enumerate(a.k))
        return '{%s}%s' % (t or 'even', ''.join('+?%d' % v for v in a.c))

    def literal(self, v):
        return self.zero() if v != 0 else self.fresh('0')

    def mul(self, a, b):
        return self.add(a, b)
    div = mul

    def power(self, a, p):
        if float(p) == int(p):
            return self.scale(a, int(p))
        return None

    def even(self, inf, g, n, what):
        inf.eq(g, self.zero(), n, what)
        return self.zero()

    def odd(self, inf, g, n, what):
        return g

    def sqrt(self, inf, g, n):
        inf.eq(g, self.zero(), n, 'argument of a square root')
        return self.zero()

    def absval(self, inf, g, n):
        return self.zero()

    def e(self, i):
        return self.const(tuple(1 if j == i else 0 for j in range(3)))

    def comp(self, g, i):
        return self.add(g, self.e(i))

    def vec(self, inf, gs, n):
        r = [self.add(g, self.e(i)) for i, g in enumerate(gs)]
        for g in r[1:]:
            inf.eq(r[0], g, n, 'components of a vector')
        return r[0]

    def dot(self, a, b):
        return self.add(a, b)

    def cross(self, a, b):
        return self.add(self.add(a, b), self.const(self.AX))

    def compare(self, inf, a, b, n, op, la, lb):
        inf.eq(a, b, n, "operands of '%s'" % op)

    def E(self, s):
        return s

    def B(self, s):
        return self.add(s, self.const(self.AX))

    def unE(self, g):
        return g

    def unB(self, g):
        return self.add(g, self.const(self.AX))

    def seed(self, unit, leaf):
        p = unit[1] if len(unit) > 1 else ''
        if p == '?':
            return self.fresh()
        if leaf == 'V':
            return self.const(self.AX if p == 'axial' else (0, 0, 0))
        return self.const(tuple(1 if ch in p else 0 for ch in 'xyz'))

    def constant(self, value, mac):
        return None


class Affine(Algebra):
    """behaviour under a shift of the origin of time / of space: the integer weight with which the value follows.
    A weight that is not decided by the structure (interpolations, accumulations) is a variable and never reported."""
    N = 2
    title = 'origin weight'
    # FEL_1D::step compares its clock with the step counter of the beam (both start at zero by definition);
    # SourceScreen::LocalField works on traces stored in the local time of the screen
    exempt = {'Bunch::addCorrelation', 'FEL_1D::step', 'SourceScreen::LocalField', 'SourceScreen::SourceScreen'}

    def showc(self, a):
        if a.c:
            return 'undecided'
        t = []
        for n, x in zip(('time', 'space'), a.k):
            if x:
                t.append('absolute ' + n if x == 1 else '%s x absolute %s' % (x, n))
        return ' and '.join(t) or 'relative'

    def literal(self, v):
        return self.zero()

    def unify(self, a, b):
        d = self.norm(self.add(a, b, -1))
        return bool(d.c) or not any(d.k)

    def isz(self, g):
        g = self.norm(g)
        return not g.c and not any(g.k)

    def plus(self, inf, a, b, n, op):
        r = self.add(a, b, -1 if op in ('-', '-=') else 1)
        if op in ('+=', '-='):
            return a if self.isz(b) else self.fresh()
        return r

    def mul(self, a, b):
        if self.isabs(a) and self.isabs(b) and self.inf.cur is not None:
            self.nonlin(self.inf.cur, 'product')
        return self.zero() if self.isz(a) and self.isz(b) else self.fresh()

    div = dot = cross = mul
    inf = None

    def nonlin(self, n, what):
        self.inf.err(n, '%s of absolute (origin-dependent) quantities' % what)

    def mulx(self, a, b, na, nb):
        if self.isz(a) and self.small(na):
            return self.scale(b, Fraction(na['cv']))
        if self.isz(b) and self.small(nb):
            return self.scale(a, Fraction(nb['cv']))
        return self.mul(a, b)

    @staticmethod
    def small(n):
        return 1e-3 < abs(n.get('cv') or 0) < 1e3

    def divx(self, a, b, na, nb):
        if self.isz(b) and self.small(nb):
            return self.scale(a, 1 / Fraction(nb['cv']))
        return self.mul(a, b)

    def isabs(self, g):
        g = self.norm(g)
        return not g.c and any(g.k)

    def merge(self, inf, a, b):
        # two decided, different weights: an error when the value is used; anything else stays undecided
        return None if not self.norm(a).c and not self.norm(b).c else self.fresh()

    def power(self, a, p):
        return self.mul(a, a)

    def even(self, inf, g, n, what):
        inf.eq(g, self.zero(), n, what)
        return self.zero()
    odd = even

    def sqrt(self, inf, g, n):
        return self.absval(inf, g, n, 'square root')

    def absval(self, inf, g, n, what='magnitude'):
        if self.isabs(g):
            self.nonlin(n, what)
        return self.zero() if self.isz(g) else self.fresh()

    def comp(self, g, i):
        return g

    def vec(self, inf, gs, n):
        for g in gs[1:]:
            inf.eq(gs[0], g, n, 'components of a vector')
        return gs[0]

    def compare(self, inf, a, b, n, op, la, lb):
        if not la and not lb:
            inf.eq(a, b, n, "operands of '%s'" % op)

    def E(self, s):
        return s
    B = unE = unB = E

    def seed(self, unit, leaf):
        w = unit[2] if len(unit) > 2 else ''
        return self.const((1 if w == 't' else 0, 1 if w == 'x' else 0))

    def constant(self, value, mac):
        return None


# ---------------------------------------------------------------- types

LEAFS = [(re.compile(r'\bElMagObs\b'), 'O'), (re.compile(r'\bFieldTrace\b'), 'T'), (re.compile(r'\bElMagField\b'), 'F'),
         (re.compile(r'\bVector\b'), 'V'), (re.compile(r'\b(double|float|_Complex)\b'), 'D')]
_leafc = {}


def leaf(t):
    r = _leafc.get(t)
    if r is None:
        r = ''
        s = re.sub(r'std::allocator<[^<>]*(<[^<>]*>)?[^<>]*>', '', t)
        if not re.search(r'Eigen|std::function|\(lambda|_distribution|std::map|std::pair|ostream', s):
            if not re.match(r'^(std::vector<)*\s*(const )?(class |struct )?(\w+(<\w+>)?)\b', s) or True:
                for rx, k in LEAFS:
                    if rx.search(s):
                        r = k
                        break
        # class templates over sources etc. have no grade themselves
        if re.match(r'^(const )?(MeshedScreen|ScreenObserver|PointObserver|SnapshotObserver|Observer|ParameterLogger|'
                    r'TrajectoryLogger|ProbeLogger)<', s):
            r = ''
        _leafc[t] = r
    return r or None


def rawptr(t):
    return bool(re.match(r'^(const )?(double|float) \*', t))


# ---------------------------------------------------------------- declared interface

# qualified member -> (unit, mirror)    mirror: for scalars the set of axes it is odd in;
#                                       for vectors 'polar' (default) or 'axial'; '?' = unconstrained
# third entry: how the quantity moves with the origin of space ('x') or time ('t'); default: not at all
POS, MOM, ACC, TIME, EF, BF = ('m', '', 'x'), ('1',), ('s^-1',), ('s', '', 't'), ('V·m^-1',), ('T', 'axial')
DUR, DISP = ('s',), ('m',)
FREE = None
FIELDS = {
    'ChargedParticle::Charge': ('e',), 'ChargedParticle::Mass': ('me',),
    'ChargedParticle::t_current': TIME, 'ChargedParticle::X_current': POS, 'ChargedParticle::P_current': MOM,
    'ChargedParticle::A_current': ACC, 'ChargedParticle::E_current': EF, 'ChargedParticle::B_current': BF,
    'ChargedParticle::Time': TIME, 'ChargedParticle::X': POS, 'ChargedParticle::P': MOM, 'ChargedParticle::A': ACC,
    'ChargedParticle::dt': DUR, 'ChargedParticle::qm': ('C·kg^-1',), 'ChargedParticle::qmt2': ('C·s·kg^-1',),
    'ChargedParticle::VY_p_i1': MOM, 'ChargedParticle::VY_gamma_i1': ('1',),
    'Beam::dt': DUR,
    'ElMagObs::t': TIME,
    'FEL_1D::dt': DUR, 'FEL_1D::time': TIME, 'FEL_1D::dz': DISP, 'FEL_1D::head': POS, 'FEL_1D::origin': POS,
    'FEL_1D::prop': MOM, 'FEL_1D::ds': ('m', '?'), 'FEL_1D::e_x': MOM, 'FEL_1D::e_y': MOM,
    'FEL_1D::z_Rayleigh': ('m', '?'), 'FEL_1D::w_0': ('m', '?'), 'FEL_1D::z_waist': ('m', '?'),
    'FEL_1D::field_E': ('V·m^-1', '?'), 'FEL_1D::previous_E': ('V·m^-1', '?'), 'FEL_1D::field_storage': ('V·m^-1', '?'),
    'FEL_1D::J_storage': None,      # source term of the wave equation, first record is a copy of the (zero) field
    'FieldTrace::t0': TIME, 'FieldTrace::dt': DUR,
    'GaussianWave::lambda': ('m', '?'), 'GaussianWave::k': ('m^-1', '?'), 'GaussianWave::omega': ('s^-1', '?'),
    'GaussianWave::A': ('V·m^-1', '?'), 'GaussianWave::zR': ('m', '?'), 'GaussianWave::w0': ('m', '?'),
    'GaussianWavePacket::lambda': ('m', '?'), 'GaussianWavePacket::k': ('m^-1', '?'),
    'GaussianWavePacket::omega': ('s^-1', '?'), 'GaussianWavePacket::A': ('V·m^-1', '?'),
    'GaussianWavePacket::zR': ('m', '?'), 'GaussianWavePacket::w0': ('m', '?'), 'GaussianWavePacket::tau': DUR,
    'HardEdgeDipole::B_val': BF, 'HardEdgeDipole::p_1': POS, 'HardEdgeDipole::n_1': MOM, 'HardEdgeDipole::p_2': POS,
    'HardEdgeDipole::n_2': MOM,
    'SoftEdgeDipole::B_val': BF, 'SoftEdgeDipole::p_1': POS, 'SoftEdgeDipole::n_1': MOM, 'SoftEdgeDipole::p_2': POS,
    'SoftEdgeDipole::n_2': MOM, 'SoftEdgeDipole::t_1': ('m',), 'SoftEdgeDipole::t_2': ('m',),
    'LocalizedField::origin': POS, 'LocalizedField::t0': TIME,
    'MeshedScreen::dt': DUR, 'MeshedScreen::triangle_points': POS, 'MeshedScreen::field_points': POS,
    'MeshedScreen::xi': MOM, 'MeshedScreen::eta': MOM, 'MeshedScreen::normal': MOM, 'MeshedScreen::area': ('m^2',),
    'MeshedScreen::total_area': ('m^2',),
    'ParameterLogger::bunching_freq': ('Hz',), 'ParameterLogger::Time': TIME, 'ParameterLogger::Pos': POS,
    'ParameterLogger::Gamma': ('1',), 'ParameterLogger::BG': MOM, 'ParameterLogger::PosRMS': ('m', '?'),
    'ParameterLogger::BGRMS': ('1', '?'), 'ParameterLogger::PosBG': ('m', '?'), 'ParameterLogger::BF': ('1',),
    'ParameterLogger::Delta': ('1',),
    'PlanarUndulator::BPeak': ('T', '?'), 'PlanarUndulator::LambdaU': ('m', '?'), 'PlanarUndulator::Krms': ('1', '?'),
    'PlanarUndulator::ky': ('m^-1', '?'), 'PlanarUndulator::kz': ('m^-1', '?'),
    'TransverseGradientUndulator::BPeak': ('T', '?'), 'TransverseGradientUndulator::Modulation': ('1', '?'),
    'TransverseGradientUndulator::LambdaU': ('m', '?'), 'TransverseGradientUndulator::Krms': ('1', '?'),
    'TransverseGradientUndulator::kx': ('m^-1', '?'), 'TransverseGradientUndulator::ky': ('m^-1', '?'),
    'TransverseGradientUndulator::kz': ('m^-1', '?'),
    'PointObserver::Pos': POS,
    'ScreenObserver::Origin': POS, 'ScreenObserver::dX': DISP, 'ScreenObserver::dY': DISP, 'ScreenObserver::normal': ('1', 'axial'),
    'ScreenObserver::t0_obs': TIME, 'ScreenObserver::dt_obs': DUR, 'ScreenObserver::dtx_obs': DUR, 'ScreenObserver::dty_obs': DUR,
    'SnapshotObserver::O': POS, 'SnapshotObserver::dX': DISP, 'SnapshotObserver::dY': DISP, 'SnapshotObserver::t_obs': TIME,
    'SourceScreen::dX': DISP, 'SourceScreen::dY': DISP, 'SourceScreen::dx': ('m',), 'SourceScreen::dy': ('m',),
    'SourceScreen::ex': MOM, 'SourceScreen::ey': MOM, 'SourceScreen::normal': ('1', 'axial'),
    'SourceScreen::dt_src': DUR, 'SourceScreen::dtx_src': DUR, 'SourceScreen::dty_src': DUR,
}
# scale (dimension beyond V/m, T) of field-trace members
FTRACES = {'PointObserver::trace': '1', 'ScreenObserver::Traces': '1', 'SnapshotObserver::FieldArray': '1',
           'SourceScreen::Traces': '1', 'SourceScreen::dt_Traces': 's^-1', 'MeshedScreen::A': '1', 'HomogeneousField::EB': '1'}

# method -> ([param units], return unit); params matched by position among *graded* parameters; None = unconstrained
METHODS = {
    'Beam::getTotalCharge': ([], ('C',)), 'Beam::getTimeStep': ([], DUR), 'Beam::setTimeStep': ([DUR], None),
    'Beam::RetardedField': ([TIME, POS], 'field'), 'Bunch::RetardedField': ([TIME, POS], 'field'),
    'ChargedParticle::RetardedField': ({2: [TIME, POS], 1: [POS]}, 'field'),
    'Beam::integrateFieldTrace': ([POS, 'field'], None), 'Bunch::integrateFieldTrace': ([POS, 'field'], None),
    'ChargedParticle::integrateFieldTrace': ([POS, 'field'], None),
    'Bunch::Bunch': ({2: [('e',), ('me',)], 5: [TIME, POS, MOM, ('e',), ('me',)], 1: [MOM]}, None),
    'Bunch::getTotalCharge': ([], ('C',)), 'Bunch::InitVay': ([DUR], None), 'Beam::InitVay': ([], None),
    'Bunch::avgTime': ([], TIME), 'Bunch::avgPosition': ([], POS), 'Bunch::rmsPosition': ([], ('m', '?')),
    'Bunch::avgMomentum': ([], MOM), 'Bunch::rmsMomentum': ([], ('1', '?')), 'Bunch::avgGamma': ([], ('1',)),
    'Bunch::delta': ([], ('1',)), 'Bunch::BunchingFactor': ([('Hz',)], ('1', '?')), 'Bunch::PosMomCorrelation': ([], ('m', '?')),
    'ChargedParticle::ChargedParticle': ({2: [('e',), ('me',)]}, None),
    'ChargedParticle::getCharge': ([], ('C',)), 'ChargedParticle::getTime': ([], TIME),
    'ChargedParticle::getPosition': ([], POS), 'ChargedParticle::getMomentum': ([], MOM), 'ChargedParticle::getAccel': ([], ACC),
    'ChargedParticle::TrajTime': ([], TIME), 'ChargedParticle::TrajPoint': ([], POS), 'ChargedParticle::TrajMomentum': ([], MOM),
    'ChargedParticle::TrajAccel': ([], ACC), 'ChargedParticle::initTrajectory': ([TIME, POS, MOM, ACC], None),
    'ChargedParticle::Shift': ([DISP, ('1',)], None), 'ChargedParticle::Mirror': ([POS, MOM, ('1',)], None),
    'ChargedParticle::InitVay': ([DUR], None), 'ChargedParticle::setCurrentPoint': ([TIME, POS, MOM, ACC], None),
    'ChargedParticle::storeTrajectoryPoint': ([TIME, POS, MOM, ACC], None),
    'ChargedParticle::CoordinatesAtTime': ([TIME, POS, MOM], None), 'ChargedParticle::RetardedTime': ([POS], TIME),
    'ElMagObs::Time': ([], TIME),
    'FEL_1D::FEL_1D': ([DUR], None), 'FEL_1D::setup': ([('m', '?'), ('m', '?'), ('m', '?')], None),
    'FEL_1D::seed': ([('V·m^-1', '?'), ('m', '?'), ('s', '?'), ('s', '?')], None),
    'FieldTrace::get_t0': ([], TIME), 'FieldTrace::set_t0': ([TIME], None), 'FieldTrace::get_dt': ([], DUR),
    'FieldTrace::get_time': ([], TIME), 'FieldTrace::get_last_time': ([], TIME), 'FieldTrace::get_center_time': ([], TIME),
    'GaussianWave::Setup': ([('m', '?'), ('V·m^-1', '?'), ('m', '?')], None), 'GaussianWave::getWavelength': ([], ('m', '?')),
    'GaussianWavePacket::Setup': ([('m', '?'), ('V·m^-1', '?'), ('m', '?'), DUR], None),
    'GaussianWavePacket::getWavelength': ([], ('m', '?')),
    'HardEdgeDipole::GetB': ([], BF), 'SoftEdgeDipole::GetB': ([], BF),
    'LocalizedField::LocalizedField': ({2: [TIME, POS]}, None),
    'PlanarUndulator::Setup': ([('T', '?'), ('m', '?')], None), 'PlanarUndulator::GetBPeak': ([], ('T', '?')),
    'PlanarUndulator::GetLambdaU': ([], ('m', '?')), 'PlanarUndulator::GetKpeak': ([], ('1', '?')), 'PlanarUndulator::GetKrms': ([], ('1', '?')),
    'TransverseGradientUndulator::Setup': ([('T', '?'), ('m^-1', '?'), ('1', '?'), ('m', '?')], None),
    'HomogeneousField::HomogeneousField': ([EF, BF], None),
    'TransverseGradientUndulator::GetBPeak': ([], ('T', '?')), 'TransverseGradientUndulator::GetLambdaU': ([], ('m', '?')),
    'TransverseGradientUndulator::GetKpeak': ([], ('1', '?')), 'TransverseGradientUndulator::GetKrms': ([], ('1', '?')),
    'MeshedScreen::get_point': ([], POS), 'MeshedScreen::get_t0': ([], TIME), 'MeshedScreen::get_xi': ([], MOM),
    'MeshedScreen::get_eta': ([], MOM), 'MeshedScreen::get_normal': ([], MOM), 'MeshedScreen::get_area': ([], ('m^2',)),
    'MeshedScreen::Poynting': ([], ('J·m^-2',)), 'MeshedScreen::totalEnergy': ([], ('J',)),
    'MeshedScreen::get_trace': ([], 'field'), 'MeshedScreen::set_trace': (['field'], None),
    'ParameterLogger::record_bunching': ([('Hz',)], None),
    'PointObserver::PointObserver': ([POS, TIME, DUR], None),
    'ScreenObserver::ScreenObserver': ([POS, DISP, DISP, TIME, DUR, DUR, DUR], None),
    'ScreenObserver::CellPosition': ([], POS), 'ScreenObserver::CellTimeZero': ([], TIME),
    'SnapshotObserver::SnapshotObserver': ([POS, DISP, DISP, TIME], None), 'SnapshotObserver::CellPosition': ([], POS),
    'SourceScreen::SourceScreen': ([POS, TIME], None), 'SourceScreen::CellPosition': ([], DISP), 'SourceScreen::CellTimeZero': ([], DUR),
    'SourceScreen::Poynting': ([], ('J·m^-2',)), 'SourceScreen::totalEnergy': ([], ('J',)),
}

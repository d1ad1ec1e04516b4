"""V01: particle tracking is the published relativistic leap-frog (Vay) scheme."""
import math
import core, api, front, fp
from core import T, C, add, cmp_
from rep import Rep, short
from fp import V, F, dot, cross, sqrt

CP = 'ChargedParticle'
ZERO = {2: F(V(0, 0, 0), V(0, 0, 0)), 5: F(V(3e5, -2e5, 1e5), V(0, 0, 0)), 7: F(V(0, 0, 0), V(0.3, -0.2, 0.5))}    # field-free points


def half_kick_inverse(p, e, b, k):
    """velocity u^{i+1} at the end of the step from p = u^{i+1/2} and the fields at the half step; k = q dt/2m"""
    pp = p + e * k
    g2 = 1 + dot(pp, pp)
    tau = b * k
    us = dot(pp, tau)
    t2 = dot(tau, tau)
    s = g2 - t2
    g = sqrt((s + sqrt(s * s + 4 * (t2 + us * us))) / 2)
    t = tau / g
    return (pp + t * dot(pp, t) + cross(pp, t)) / (1 + dot(t, t)), g


def run(P, tier):
    R = Rep(P)
    S = api.Scene(P)
    w, fld, dt = T('p', 9, 'particle'), T('p', 8, 'field'), T('p', 7, 'tstep')
    types = {w: 'ChargedParticle *', fld: 'GeneralField *'}
    np = S.particle(w)
    S.assume(cmp_('<=', C(1), np))
    last = add(np, C(-1))
    tr0 = [S.call(CP + '::' + m, w, last) for m in ('TrajTime', 'TrajPoint', 'TrajMomentum', 'TrajAccel')]
    q = S.call(CP + '::getCharge', w)
    mass = S.load(T('f', w, CP + '::Mass'))
    finit, fstep = S.fn(CP + '::InitVay', 2), S.fn(CP + '::StepVay', 1)
    seenbad = {}

    def do(f, *args):
        n = len(S.events)
        S.call(f, w, *args)
        if S.stopped():
            R.oblig('terminates', False, f['n'] + '|throw', front.loc(f, f), f['n'], 'a particle with a trajectory cannot be tracked: every path throws')
            return None
        c = [e for e in S.events[n:] if e.kind == 'call' and e.res is not None and e.recv is fld]
        R.oblig('one field sample', len(c) == 1, f['n'] + '|samples', front.loc(f, f), f['n'], 'the field is sampled %d times per step' % len(c))
        if len(c) != 1:
            return None
        st = [S.call(CP + '::' + g, w) for g in ('getTime', 'getPosition', 'getMomentum', 'getAccel')]
        n1 = add(S.call(CP + '::getNP', w), C(-1))
        st += [S.call(CP + '::' + g, w, n1) for g in ('TrajTime', 'TrajPoint', 'TrajMomentum', 'TrajAccel')]
        return c[0], st
    steps = [do(finit, dt, fld), do(fstep, fld), do(fstep, fld)]
    if any(s is None for s in steps):
        return done(R)
    for seed in range(1, 9 if tier == 'quick' else 60):
        pt = fp.Point(P, seed, types=types, rng=(0.35, 1.65) if seed % 3 else (-1.65, 1.65), fixed=ZERO.get(seed % 8) and {s[0].res: ZERO[seed % 8] for s in steps})
        try:
            charge = pt.val(q) / pt.val(T('const', 'ElementaryCharge'))
            qm = charge / pt.val(mass) * pt.val(T('const', 'InvRestMass'))
            c = pt.val(T('const', 'SpeedOfLight'))
            k = qm * pt.val(dt) / 2
            t, x, p = [pt.val(v) for v in tr0[:3]]
            pend = gend = None
            for n, (call, st) in enumerate(steps):
                f = finit if n == 0 else fstep
                what = ('InitVay', 'StepVay', 'second StepVay')[n]
                h = pt.val(dt)
                if n:
                    t = t + h
                    x = x + pend * (c * h / gend)

                def chk(a, b, txt, key):
                    if key in bad:
                        return
                    if not fp.close(pt.val(a), b):
                        bad.add(key)
                        R.violate('%s|%s' % (what, key), front.loc(f, f), f['n'], '%s: %s differs from the scheme' % (what, txt))
                bad = seenbad.setdefault(what, set())
                chk(call.args[0], t, 'time at which the field is sampled', 'field time')
                chk(call.args[1], x, 'position at which the field is sampled', 'field position')
                fv = pt.val(call.res)
                e, b = fv.e / c, fv.b
                if n:
                    p = pend + (e + cross(pend / gend, b)) * k
                gh = sqrt(1 + dot(p, p))
                a = (cross(p / gh, b) + e) * qm
                names = ('time', 'position', 'momentum', 'acceleration')
                for v, s, txt in zip(st, (t, x, p, a) * 2, names + tuple('%s of the last trajectory point' % i for i in names)):
                    chk(v, s, txt, txt)
                    R.count['formula'] = R.count.get('formula', 0) + 1
                    R.ok += 1
                pend, gend = half_kick_inverse(p, e, b, k)
        except (fp.Bad, TypeError, AttributeError) as ex:
            R.und.append('tracking step not interpretable: %s' % ex)
            break
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
    return done(R)


def done(R):
    return R.result('The abstract effect of InitVay() and StepVay() on a particle with an arbitrary trajectory, charge, mass and external '
                    'field is extracted as value-number terms (one opaque field sample per step) and compared, as algebraic functions, '
                    'with the equations of the scheme (J.-L. Vay, Phys. Plasmas 15, 056701): random-interpretation fingerprints.',
                    minimum=1)

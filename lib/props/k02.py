from props import mainjudge as J


def run(P, tier):
    return J.check(P, tier, J.judge_observation, 'observation', STOPS, WHAT)


STOPS = set()
WHAT = ('main() and its helpers are interpreted into one effect summary (library opaque) which is evaluated for modelled jobs on every node; for every observer the '
        'multiset of particles and lattice elements that enter its output is compared with the beam and the lattice.')

from props import mainjudge as J


def run(P, tier):
    return J.check(P, tier, J.judge_tracking, 'tracking', STOPS, WHAT)


STOPS = {'throw', 'range'}
WHAT = ('main() and its helpers are interpreted into one effect summary (library opaque) which is evaluated for modelled jobs on every node: tracking steps, '
        'fields used, watch points, loggers, interactions and their output compared with the input.')

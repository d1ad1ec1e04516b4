from props import mainjudge as J


def run(P, tier):
    return J.check(P, tier, J.judge_parallel, 'parallel', STOPS, WHAT)


STOPS = {'collective', 'buffer'}
WHAT = ('main() and its helpers are interpreted into one effect summary (library opaque) which is evaluated for modelled jobs, all nodes together: collective '
        'operations have to meet with the same arguments, buffers have to be large enough, every particle is tracked by one node and its state restored in its '
        'place, the first node alone writes files, nothing is used after deletion.')

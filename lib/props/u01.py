from props import graded


def run(P, tier):
    return graded.run(P, 'U01')

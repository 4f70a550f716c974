"""C02: verdict under the solver-changing options."""
from .verdict import *


def check(r, tier):
    P = program()
    r.rule('the same interpretation as C01 for every option set with --sysInitRoboticsSemantics, --biasForAction, '
           '--fixedPointRecycling or --IROSfastslow; each must compute the game its options document')
    cs = []
    for c in combos(P):
        if c.opts & set(OTHER) or c.cls is None:
            continue
        if not (c.opts & set(SOLVER) or '--sysInitRoboticsSemantics' in c.opts):
            continue
        cs.append((c.params, c.cls, c.opts, c.loc))
    r.count('option sets', len(cs))
    check_classes(r, cs)

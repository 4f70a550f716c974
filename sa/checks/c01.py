"""C01: default realizability verdict."""
from .verdict import *


def check(r, tier):
    P = program()
    r.rule('checkRealizability of every option set without solver-changing options is interpreted abstractly (BDD values = '
           'canonical decision diagrams over opaque specification formulas, loops = closed-form fixed points / folds); the '
           'resulting winning region and verdict must equal the reference GR(1) formulas for every specification')
    cs = []
    for c in combos(P):
        if c.opts & set(SOLVER) or c.opts & set(OTHER) or c.cls is None:
            continue
        if '--sysInitRoboticsSemantics' in c.opts:
            continue
        cs.append((c.params or '(no options)', c.cls, c.opts, c.loc))
    r.count('option sets', len(cs))
    check_classes(r, cs)

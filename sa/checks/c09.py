"""C09: permissive explicit strategies."""
from .c05 import *


def check(r, tier):
    P = program()
    r.rule('as C05, for the permissive extraction: every ranked transition of a position is offered until all inputs the assumptions '
           'allow are covered, and the enumeration lists every single transition')
    n = 0
    check_determinize(r, P)
    for c in combos(P):
        if not any('ermissive' in o for o in c.opts) or c.cls is None:
            continue
        f = P.find_method(c.cls, 'execute')
        s = session(c.cls)
        k = Checker(r, s, c.params, locof(P, f))
        r.listed('functions', s.functions())
        explicit_rules(k, '--simpleRecovery' in c.opts, permissive=True)
        n += 1
    if not n:
        raise AnalysisBroken('no permissive modes')

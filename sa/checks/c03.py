"""C03: the counterstrategy solver is the exact dual."""
from .verdict import *


def check(r, tier):
    P = program()
    r.rule('the winning region computed under --counterStrategy must equal the environment\'s GR(1) counter game, and the verdict must '
           'be the negation of the one of the system game under the same initial-condition semantics')
    n = 0
    for c in combos(P):
        if '--counterStrategy' not in c.opts or c.cls is None:
            continue
        n += 1
        s = solver_session(c.cls)
        W = s.R.counter()
        f1, f2 = P.find_method(c.cls, 'computeWinningPositions'), P.find_method(c.cls, 'checkRealizability')
        w, v = s.field('winningPositions'), s.field('realizable')
        a = compare(r, s, '%s: environment winning region' % c.params, w, W, locof(P, f1),
                    'winning region of the environment = mu Z. OR_j nu Y. AND_i mu X. some allowed next input such that for every next output: '
                    'safety guarantees -> (!G_j | Z\') & Y\' & (A_i | X\')')
        sysW = s.R.gr1()
        assert W == s.M.NOT(sysW)
        V = s.R.robotics_init(sysW) if '--sysInitRoboticsSemantics' in c.opts else s.R.std_init(sysW)
        if a is not False and noerror(r, s, c.params, locof(P, f2)) is not False:
            compare(r, s, '%s: verdict' % c.params, v, V, locof(P, f2),
                    'realizable under --counterStrategy exactly when realizable without it')
        r.listed('functions', s.functions())
        r.listed('loops summarised', ['%s %s' % (l[0], l[1]) for l in s.I.loops])
    if n < 2:
        raise AnalysisBroken('counterstrategy option sets not found')

"""C31: realizability with a nondeterministic motion abstraction."""
import re
from .verdict import *
from ..engine import *
from ..terms import EMPTY

RULE = {'game': 'winning region = nu Z. AND_j mu Y. OR_i nu X. for all next inputs some controller and other outputs such that some motion is possible and every possible motion '
                'that the assumptions allow makes a safe move with the progress condition (unless no motion satisfies the assumptions)',
        'auto': 'the added assumption says: infinitely often, an action that can change the motion state does change it',
        'add': 'the assumption about the motion is added once, after the specification and the motion file have been read',
        'file': 'the motion abstraction is the function stored in the file',
        'order': 'the variables of the motion file are the present motion state, the controller output and the next motion state, each from the last declared one to the first',
        'init': 'verdict = for every allowed initial input there is an initial position that satisfies both initialisations and wins',
        'initr': 'verdict = every initial position that the environment initialisation allows is winning',
        }
STATE = ('PreMotionState', 'PostMotionControlOutput', 'PostMotionState')
SUPP = {'robotBDD': STATE,
        'initEnv': ('PreInput', 'PreMotionState', 'PreOtherOutput'), 'initSys': ('PreInput', 'PreMotionState', 'PreOtherOutput'),
        'safetyEnv': ('PreInput', 'PreMotionState', 'PreOtherOutput', 'PostInput', 'PostMotionState', 'PostOtherOutput'),
        'safetySys': ('PreInput', 'PreMotionState', 'PreOtherOutput', 'PostInput', 'PostMotionState', 'PostOtherOutput', 'PostMotionControlOutput'),
        'livenessGuarantees': ('PreInput', 'PreMotionState', 'PreOtherOutput', 'PostInput', 'PostMotionState', 'PostOtherOutput', 'PostMotionControlOutput'),
        'livenessAssumptions': ('PreInput', 'PreMotionState', 'PreOtherOutput', 'PostInput', 'PostMotionState', 'PostMotionControlOutput')}


def check(r, tier):
    P = program()
    r.rule('interpretation of the realizability check of --nonDeterministicMotion against the game with adversarial motion; value of the added assumption; order of the variables of the motion file')
    cs = sorted({(c.params, c.cls, '--sysInitRoboticsSemantics' in c.opts) for c in combos(P) if '--nonDeterministicMotion' in c.opts and c.cls and 'Interactive' not in c.cls})
    if len(cs) < 2:
        raise AnalysisBroken('--nonDeterministicMotion not found')
    for name, cls, rob in cs:
        game(r, P, name, cls, rob)
        auto(r, P, name, cls)
    reading(r, P, cs[0][0], cs[0][1])


def onlists(a):
    x = repr(a)
    return a[0] == 'cmp' and any(y[0] == 'size' for y in a[2:4] if isinstance(y, tuple)) and ('livenessAssumptions' in x or 'livenessGuarantees' in x)


def cox(R):
    S, E, B = R.f('safetySys'), R.f('safetyEnv'), R.f('robotBDD')
    pm, co = ['PostMotionState'], ['PostMotionControlOutput', 'PostOtherOutput']

    def f(t):
        return R.all_(['PostInput'], R.ex(co, R.IMP(R.ex(pm, E), R.AND(R.ex(pm, B), R.all_(pm, R.IMP(R.AND(B, E), R.AND(S, t)))))))
    return f


def gr1(R, cox_):
    return R.nu(lambda Z: R.bigand('livenessGuarantees', lambda G: R.mu(lambda Y: R.bigor('livenessAssumptions', lambda A: R.nu(lambda X: cox_(
        R.OR(R.AND(G, R.nxt(Z)), R.nxt(Y), R.AND(R.NOT(A), R.nxt(X)))))))), )


def game(r, P, name, cls, rob):
    s = Session(P, cls, supp=SUPP)
    s.run('checkRealizability')
    R, M = s.R, s.M
    f = cox(R)
    W = gr1(R, f)
    fn = P.find_method(cls, 'checkRealizability')
    w = s.field('winningPositions')
    a = compare(r, s, name + ': winning region', w, W, locof(P, fn), RULE['game'])
    r.listed('functions', s.functions())
    if a is False or noerror(r, s, name, locof(P, fn)) is False:
        return
    I0 = R.f('initEnv')
    out = ['PreOutput']
    V = R.all_(['PreInput'], R.all_(out, R.IMP(I0, W))) if rob else R.all_(['PreInput'], R.IMP(R.ex(out, I0), R.ex(out, R.AND(W, I0, R.f('initSys')))))
    compare(r, s, name + ': verdict', s.field('realizable'), V, locof(P, fn), RULE['initr' if rob else 'init'])


def auto(r, P, name, cls):
    key = name + ': assumption about the motion'
    names = [n for n in ('addAutomaticallyGeneratedLivenessAssumption',) if P.find_method(cls, n)]
    if not names:
        r.undec(key, 'function that adds the assumption not found', '')
        return
    s = Session(P, cls, supp=SUPP, nonempty=())
    s.run(names[0])
    M, R, I = s.M, s.R, s.I
    fn = s.fn
    loc = locof(P, fn)
    v = s.field('livenessAssumptions')
    if s.notes() or v is None:
        r.undec(key, 'not understood', loc)
        return
    pre, post = s.field('preMotionStateVars'), s.field('postMotionStateVars')
    items = v[1] if v[0] == 'seq' else ()
    if not items or items[0] != ('all', ('cont', 'livenessAssumptions')):
        r.violation(key, loc, RULE['auto'], 'afterwards the assumptions are %s' % (str(v)[:150],)) if v == ('cont', 'livenessAssumptions') else r.undec(key, 'not recognised', loc)
        return
    new = [x for x in items[1:] if x[0] == 'item']
    if len(new) != 1 or items[1] != new[0] or new[0][1][0] != 'bf':
        r.undec(key, 'added items not recognised', loc)
        return
    got = new[0][1][1]
    sym = 'ref#motion'
    if pre is None or post is None:
        r.undec(key, 'motion state variables not found', loc)
        return
    a, b = I.tobf(I.sel(pre, ('s', sym), 'BFBdd')), I.tobf(I.sel(post, ('s', sym), 'BFBdd'))
    diff = M.mkbig(('range', ('size', pre)), sym, M.OR(M.AND(a, M.NOT(b)), M.AND(M.NOT(a), b)))
    want = M.OR(M.NOT(R.ex(['PostMotionState'], M.AND(diff, R.f('robotBDD')))), diff)
    if got == want or M.implies(got, want) and M.implies(want, got):
        r.ok(key, loc)
    elif opaque(M, new[0][1]):
        r.undec(key, 'value contains parts that are not modelled', loc)
    else:
        r.violation(key, loc, RULE['auto'], 'added: %s\nexpected: %s' % (M.show(got, 10), M.show(want, 10)))


def reading(r, P, name, cls):
    calls = []

    def add(I, st, this, args, e):
        calls.append((st.pc, I.loc(e)))
        return ('void',)
    hooks = {}
    for c in [cls] + list(P.ancestors(cls)):
        hooks[c + '::addAutomaticallyGeneratedLivenessAssumption'] = add
    s = Session(P, cls, supp=SUPP, hooks=hooks)
    s.run('init')
    M, I = s.M, s.I
    loc = locof(P, s.fn)
    key = name + ': assumption about the motion is added'
    reads = {}
    for e in I.events:
        if e[1] == 'mgr.readBDDFromFile':
            reads[e[3]] = e
    if not reads:
        r.undec(key, 'motion file not found', loc)
        return
    line = lambda l: int(l.rsplit(':', 1)[1])
    robot = [l for l in reads if not any(line(rec.loc) < line(l) and 'substr' in repr(reads[l][2][0]) for rec in I.looprecs)]
    if len(robot) != 1 or not calls:
        r.undec(key, 'motion file not recognised', loc) if calls else r.violation(key, loc, RULE['add'], 'it is never added')
    else:
        ls = sorted({l for _, l in calls})
        pc = calls[-1][0]
        rest = M.AND(reads[robot[0]][0], M.NOT(pc))
        if len(ls) == 1 and rest == 0:
            r.ok(key, ls[0])
        elif len(ls) == 1:
            extra = [M.atoms[a] for a in M.atoms_of(pc) if a not in set(M.atoms_of(reads[robot[0]][0]))]
            if not opaque(M, ('b', pc)) or extra and all(onlists(a) for a in extra):
                r.violation(key, ls[0], RULE['add'], 'it is only added when %s' % M.show(pc, 4)[:300])
            else:
                r.undec(key, 'condition not recognised', ls[0])
        else:
            r.undec(key, 'added at several places', ls[0])
    # ---- the motion abstraction is the content of the file
    if len(robot) == 1:
        k3 = name + ': motion abstraction'
        v = s.field('robotBDD')
        t = v[1] if v and v[0] == 'bf' else None
        file = [a for a in (M.allatoms(t) if t is not None else []) if M.atoms[a][0] == 'fun' and M.atoms[a][1].startswith('mgr.readBDDFromFile') or 'readBDDFromFile' in str(M.atoms[a][:3])]
        if t is not None:
            file = [a for a in file if a in M.atoms_of(t)]
        if t is not None and len(file) == 1 and t == M.mk(file[0], 1, 0):
            r.ok(k3, robot[0])
        elif t is not None and len(file) == 1 and file[0] in M.atoms_of(t):
            r.violation(k3, robot[0], RULE['file'], 'it is %s' % M.show(t, 3)[:300])
        else:
            r.undec(k3, 'value not recognised', robot[0])
    # ---- variable orders
    kinds = {v: k for k, v in P.enums.items() if isinstance(v, int) and k in STATE}
    groups = []
    for rec in I.looprecs:
        down = [l for l in rec.leafs if l[2] == 'i' and l[5] in (('add', ('s', l[1]), ('c', -1)), ('add', ('s', l[1]), ('c', 1)))]
        coll = [l for l in rec.leafs if l not in down and 'item' in repr(l[5])]
        if len(down) != 1 or len(coll) != 1:
            continue
        d, c = down[0], coll[0]
        bs = [int(x) for x in re.findall(r"\('b', (\d+)\)", repr(c[5]))]
        fs = [int(x) for x in re.findall(r"\('bf', (\d+)\)", repr(c[5]))]
        if len(bs) != 1 or len(fs) != 1:
            continue
        ats = [M.atoms[a] for a in M.atoms_of(bs[0])]
        if len(ats) != 1 or ats[0][:2] != ('cmp', '==') or M.show(bs[0], 3).startswith('!'):
            continue
        kc = [x for x in ats[0][2:4] if x[0] == 'c']
        el = [x for x in ats[0][2:4] if x[0] != 'c']
        fa = [M.atoms[a] for a in M.atoms_of(fs[0])]
        if len(kc) != 1 or len(el) != 1 or len(fa) != 1 or fa[0][0] != 'elem':
            continue
        same = el[0][0] == 'elem' and el[0][2] == ('s', d[1]) and fa[0][2] == ('s', d[1])
        if not same:
            continue
        dn = d[5][2] == ('c', -1)
        full = d[3][0] == 'add' and d[3][2] == ('c', -1) and d[3][1][0] == 'size' and rec.c == M.NOT(M.cmp('<', ('s', d[1]), ('c', 0)))
        groups.append((repr(c[0]).rsplit(',', 1)[0], kinds.get(kc[0][1], 'kind %s' % kc[0][1]), dn, full, c[3] == ('seq', ()), rec.loc))
    for l in sorted(reads, key=line):
        what = 'motion file' if robot and l == robot[0] else 'region file'
        k2 = '%s: variables of the %s' % (name, what)
        odd = [rec for rec in I.looprecs if rec.loc.rsplit(':', 1)[0] == l.rsplit(':', 1)[0] and line(rec.loc) < line(l) and rec.loc not in {g[5] for g in groups}]
        bef = [g for g in groups if line(g[5]) < line(l) and g[5].rsplit(':', 1)[0] == l.rsplit(':', 1)[0]]
        if not bef:
            r.undec(k2, 'order of the variables not recognised', l)
            continue
        slot = bef[-1][0]
        gs = []
        for g in bef:
            if g[0] == slot:
                if g[4]:
                    gs = []
                if g not in gs:
                    gs.append(g)
        got = tuple(g[1] for g in gs)
        want = STATE if what == 'motion file' else ('PreMotionState',)
        if got == want and all(g[2] and g[3] for g in gs):
            r.ok(k2, l)
        elif any(repr(lf[0]).rsplit(',', 1)[0] == slot for rec in odd for lf in rec.leafs):
            r.undec(k2, 'a loop that changes the list of variables was not recognised', l)
        elif got == want and all(g[2] for g in gs) or not gs:
            r.undec(k2, 'range of the loops not recognised', l)
        else:
            r.violation(k2, l, RULE['order'], 'variables of kinds %s, %s' % (', '.join(got), 'last to first' if all(g[2] for g in gs) else 'not from the last to the first'))

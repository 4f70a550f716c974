"""Shared by C01..C03: interpretation of checkRealizability of a mode and comparison with the documented game."""
from ..engine import Session, program, combos, FS_LEAVES, leaves_for
from ..load import AnalysisBroken
from ..canon import opaque
from ..model import walk

SOLVER = ('--biasForAction', '--fixedPointRecycling', '--IROSfastslow')
OTHER = ('--counterStrategy', '--cooperativeGR1Strategy', '--twoDimensionalCost', '--nonDeterministicMotion',
         '--analyzeInterleaving', '--computeWeakenedSafetyAssumptions', '--computeIncompleteInformationEstimator',
         '--analyzeAssumptions', '--analyzeInitialPositions', '--analyzeSafetyLivenessInteraction',
         '--computeAbstractWinningTrace', '--computeInterestingRunOfTheSystem', '--computeCNFFormOfTheSpecification')


def compare(r, s, name, got, ref, where, rule):
    M = s.M
    if got is None or got[0] not in ('bf', 'b'):
        r.undec(name, 'value is not a formula: %s' % (str(got)[:200],), where)
        return None
    g = got[1]
    if g == ref or (M.implies(g, ref) and M.implies(ref, g)):
        r.ok(name, where)
        return True
    op = opaque(M, got)
    if op and carry_rule(r, s, name):
        return False
    if op:
        r.undec(name, 'computed value contains parts the analysis does not model: %s' % sorted(op)[:6], where)
        return None
    r.violation(name, where, rule, 'computed:  %s\nexpected:  %s\n(analysed: %s)' % (
        M.show(g, 14), M.show(ref, 14), ', '.join(s.functions())))
    return False


def carry_rule(r, s, name):
    """a fixed point for one goal or assumption that starts from the result for another one"""
    M, I = s.M, s.I
    for loc, Z, pre, f in I.carrylog:
        ats = list(M.atoms_of(pre))
        if len(ats) != 1 or M.atoms[ats[0]][0] != 'phi' or pre != M.mk(ats[0], 1, 0):
            continue
        sym = M.atoms[ats[0]][1]
        for rec in I.looprecs:
            for x in rec.leafs:
                if x[1] != sym or x[3] not in (('bf', 0), ('bf', 1)) or x[5] is None or x[5] == x[4]:
                    continue
                conts = [k for k in ('livenessAssumptions', 'livenessGuarantees') if "('size', ('cont', '%s'))" % k in repr([M.atoms[a] for a in M.atoms_of(rec.c)])
                         and any(M.atoms[a][0] == 'elem' and M.atoms[a][1] == ('cont', k) for a in M.allatoms(f))]
                if conts:
                    r.violation(name, loc, 'the fixed point for one element of a liveness list must not start from the result for another element',
                                'in the loop over %s at %s, the iteration starts from the value left by the previous round' % (conts[0], rec.loc))
                    return True
    return False


def noerror(r, s, name, where):
    M = s.M
    bad = [(pc, l) for pc, l, _, _ in s.I.throws if pc != 0]
    key = name + ': a verdict is reached'
    rule = 'the realizability check ends with a verdict for every specification, never with an error'
    if not bad:
        r.ok(key, where)
        return True
    op = opaque(M, ('seq', tuple(('b', pc) for pc, _ in bad)))
    if op:
        r.undec(key, 'condition of an error not understood: %s' % sorted(op)[:6], bad[0][1])
        return None
    r.violation(key, bad[0][1], rule, 'error when %s' % M.show(bad[0][0], 8))
    return False


def locof(P, f):
    return '%s:%s %s' % (P.rel(f['file']), f['l'], f['q'])


def solver_key(P, cls):
    """what determines the verdict of a mode: the methods its realizability check resolves to"""
    k = []
    for m in ('checkRealizability', 'computeWinningPositions'):
        f = P.find_method(cls, m)
        if f is None:
            raise AnalysisBroken('%s: no method %s' % (cls, m))
        k.append(f['usr'] if 'usr' in f else (f['q'], f['l']))
    return tuple(k) + (leaves_for(P, cls),)


def warm_rule(r, s, name):
    """iterations resumed from a stored value (fixed-point recycling)"""
    M, I = s.M, s.I
    rule = ('an inner greatest fixed point may start below "true" only from the value it reached in the previous round of the '
            'enclosing greatest fixed point, and only in the first round of the enclosing least fixed point')
    for loc, Z, pre, f in I.warmlog:
        nm = '%s start value at %s' % (name, loc)
        flags, outer, mid, recs, unk = {}, [], [], [], []
        for a in sorted(M.atoms_of(pre)):
            k = M.atoms[a]
            if k[0] == 'phi' and k[1] in I.symlog:
                l, p, n, ll = I.symlog[k[1]]
                if l.kind == 'b' and p in (('b', 1), ('b', 0)) and n in (('b', 1), ('b', 0)) and n != p:
                    flags[a] = (ll, p[1])
                elif l.kind == 'bf' and p == ('bf', 1):
                    outer.append(a)
                else:
                    unk.append(a)
            elif k[0] == 'elem':
                recs.append(a)
            else:
                unk.append(a)
        if unk:
            r.undec(nm, 'start value not understood: %s' % M.show(pre, 6), loc)
            continue
        outerloops = set(I.symlog[M.atoms[a][1]][3] for a in outer)
        O = M.conj([M.mk(a, 1, 0) for a in outer])
        outerfirst = [a for a in flags if flags[a][0] in outerloops]
        midfirst = [a for a in flags if flags[a][0] not in outerloops]

        def lit(a, first):
            v = flags[a][1] if first else 1 - flags[a][1]
            return (a, v)
        bad = None
        import itertools
        fl = outerfirst + midfirst
        for vals in itertools.product((0, 1), repeat=len(fl)):
            d = dict(zip(fl, vals))
            g = pre
            for a, v in d.items():
                g = M.restrict(g, a, v)
            of = any(d[a] == flags[a][1] for a in outerfirst) if outerfirst else True
            mf = any(d[a] == flags[a][1] for a in midfirst) if midfirst else False
            low = O
            if not of and mf:
                low = M.conj([O] + [M.mk(a, 1, 0) for a in recs])
            # the start value has to lie above the limit
            if M.AND(low, M.NOT(g)) != 0:
                bad = 'in the %s round of the outer and %s round of the middle iteration the start value is %s' % (
                    'first' if of else 'a later', 'first' if mf else 'a later', M.show(g, 8))
        if bad:
            r.violation(nm, loc, rule, bad)
            continue
        # what is stored in the recycled container
        okw = True
        for a in recs:
            cont = M.atoms[a][1]
            stored = stored_values(s, cont)
            if not stored:
                okw = None
            ridx = index_chain(M.atoms[a][1], M.atoms[a][2])
            for v, widx in stored:
                if widx != ridx:
                    okw = 'index'
                    continue
                if v == 1:
                    continue
                k = M.atoms[M.nodes[v][0]] if v > 1 else None
                if not (v > 1 and M.nodes[v][1:] == (0, 1) and k[0] == 'fp'):
                    okw = v
        if okw is True:
            r.ok(nm, loc)
        elif okw == 'index':
            r.violation(nm, loc, 'the value resumed from must be the one stored for the same goal and assumption', 'read and store use different indices')
        elif okw is None:
            r.undec(nm, 'stores into the recycled values not found', loc)
        else:
            r.violation(nm, loc, 'only the limit of the inner greatest fixed point may be stored for recycling',
                        'stored: %s' % M.show(okw, 8))


def stored_values(s, cont):
    M, I = s.M, s.I
    base = cont
    while base[0] in ('elem', 'upd') and len(base) > 1 and isinstance(base[1], tuple):
        base = base[1]
    sym = base[1] if len(base) > 1 and isinstance(base[1], str) else None
    if sym not in I.symlog:
        return []
    new = I.symlog[sym][2]
    out, seen = [], set()

    def w(t, idx):
        if not isinstance(t, tuple) or (t, idx) in seen:
            return
        seen.add((t, idx))
        if t and t[0] in ('bf', 'b'):
            return
        if len(t) >= 4 and t[0] == 'upd':
            w(t[1], idx)
            if t[3][0] == 'bf':
                out.append((t[3][1], idx + (t[2],)))
            else:
                w(t[3], idx + (t[2],))
            return
        for x in t:
            w(x, idx)
    w(new, ())
    return out


def index_chain(cont, i):
    out = (i,)
    while cont[0] == 'elem' and len(cont) > 2:
        out = (cont[2],) + out
        cont = cont[1]
    return out


def solver_session(cls, warm=False):
    s = Session(program(), cls, warm=warm)
    s.run('checkRealizability')
    return s


def check_classes(r, cases):
    """cases: list of (name, cls, options, where) ; memoised by resolved solver"""
    P = program()
    memo = {}
    for name, cls, opts, where in cases:
        key = solver_key(P, cls)
        kind = ('bias' if '--biasForAction' in opts else 'fastslow' if '--IROSfastslow' in opts else
                'recycling' if '--fixedPointRecycling' in opts else 'gr1')
        init = 'robotics' if '--sysInitRoboticsSemantics' in opts else 'std'
        mk = (key, kind, init)
        if mk in memo:
            s, res = memo[mk]
            if res is True:
                r.ok('%s: same solver as an already verified option set' % name, where)
            else:
                r.obligations.append(('%s: same solver as above' % name, 'see above', where))
            continue
        s = solver_session(cls, warm=(kind == 'recycling'))
        W = {'gr1': s.R.gr1, 'recycling': s.R.gr1, 'bias': s.R.bias, 'fastslow': s.R.fastslow}[kind]()
        V = s.R.robotics_init(W) if init == 'robotics' else s.R.std_init(W)
        w, v = s.field('winningPositions'), s.field('realizable')
        f1, f2 = P.find_method(cls, 'computeWinningPositions'), P.find_method(cls, 'checkRealizability')
        a = compare(r, s, '%s: winning region' % name, w, W, locof(P, f1), RULE_W[kind])
        if a is not False and noerror(r, s, name, locof(P, f2)) is False:
            a = False
        if a is False:
            b = False
        else:
            b = compare(r, s, '%s: verdict' % name, v, V, locof(P, f2), RULE_I[init])
        if kind == 'recycling':
            warm_rule(r, s, name)
        r.listed('functions', s.functions())
        r.listed('loops summarised', ['%s %s' % (l[0], l[1]) for l in s.I.loops])
        memo[mk] = (s, a and b)


RULE_W = {
    'gr1': 'winning region = nu Z. AND_j mu Y. OR_i nu X. Cox(S & (G_j & Z\' | Y\' | !A_i & X\')), Cox(t) = for all next inputs '
           'allowed by the environment safety assumptions some next outputs make t true',
    'bias': 'winning region of the GR(1) game in which each ranking level is first closed under progress without waiting',
    'fastslow': 'winning region of the GR(1) game whose safety guarantees also cover the intermediate fast-changed/slow-unchanged position',
}
RULE_W['recycling'] = RULE_W['gr1']
RULE_I = {
    'std': 'verdict = for every allowed initial input there is an allowed initial output from which the system wins',
    'robotics': 'verdict = every initial position allowed by both initial conditions is winning',
}

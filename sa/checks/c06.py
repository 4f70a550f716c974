"""C06: the moves recorded for strategy extraction make progress towards their goal."""
from .verdict import *
from ..terms import EMPTY

RULE = ('recorded per goal j, per approximation Y of the least fixed point in the order of the iteration, per assumption i: exactly '
        'S & (G_j & W\' | Y\' | !A_i & X\') with W the winning region and X the limit of the inner greatest fixed point; only the last '
        'round of the outer fixed point contributes')


def check(r, tier):
    P = program()
    r.rule('closed form of the recorded list compared with the definition: ' + RULE)
    memo = {}
    for c in combos(P):
        if c.cls is None or '--counterStrategy' in c.opts or any(o in c.opts for o in OTHER):
            continue
        key = solver_key(P, c.cls)
        kind = ('bias' if '--biasForAction' in c.opts else 'fastslow' if '--IROSfastslow' in c.opts else
                'recycling' if '--fixedPointRecycling' in c.opts else 'gr1')
        key = (key, kind)
        if key in memo:
            memo[key].append(c.params)
            continue
        memo[key] = [c.params]
        one(r, P, c, kind)
    r.count('option sets covered', sum(len(v) for v in memo.values()))
    if not r.obligations:
        raise AnalysisBroken('no mode records strategy data')


def tatoms(M, t):
    out = set()
    M._nested(t, set(), out)
    return out


class Mismatch(Exception):
    pass


def mentions(t, sym):
    if isinstance(t, tuple):
        return t == ('csym', sym) or any(mentions(x, sym) for x in t)
    return False


def retained(M, v, sym):
    """condition under which the contents of the list at the start of a round are still there at its end"""
    if v == ('csym', sym):
        return 1
    if not mentions(v, sym):
        return 0
    if v[0] == 'iite':
        a, b = retained(M, v[2], sym), retained(M, v[3], sym)
        return None if a is None or b is None else M.ite(v[1][1], a, b)
    if v[0] == 'seq':
        return retained_parts(M, v[1], sym)
    return None


def retained_parts(M, parts, sym):
    out = 0
    for p in parts:
        if not mentions(p, sym):
            continue
        if p[0] == 'all':
            x = retained(M, p[1], sym)
        elif p[0] == 'cond':
            a, b = retained_parts(M, p[2], sym), retained_parts(M, p[3], sym)
            c = p[1][1] if isinstance(p[1], tuple) else p[1]
            x = None if a is None or b is None else M.ite(c, a, b)
        else:
            x = None
        if x is None:
            return None
        out = M.OR(out, x)
    return out


def round_rule(r, s, name):
    """entries of an earlier round of the outermost fixed point must not survive"""
    M = s.M
    # loops are recorded inside out: the last one is the outermost
    outer = [rec for rec in s.I.looprecs if any(x[0].key[-1] == 'strategyDumpingData' for x in rec.leafs)][-1:]
    for rec in outer:
        for l, sym, kd, pre, phi, new in rec.leafs:
            if l.key[-1] != 'strategyDumpingData' or kd != 'c' or new is None:
                continue
            if not any(x[2] == 'bf' and x[3] == ('bf', 1) for x in rec.leafs):
                continue
            nm = '%s: only the last round of the outer fixed point contributes' % name
            k = retained(M, new, sym)
            if k is None:
                r.undec(nm, 'list handling not recognised', rec.loc)
                continue
            # in later rounds flags that are constant after a round have that value, and the approximation is no longer everything
            for x in rec.leafs:
                if x[2] == 'b' and x[5] is not None and x[5][0] == 'b' and x[5][1] in (0, 1):
                    for a in list(M.atoms_of(k)):
                        if M.atoms[a][0] == 'phi' and M.atoms[a][1] == x[1]:
                            k = M.restrict(k, a, x[5][1])
                if x[2] == 'bf' and x[3] == ('bf', 1):
                    v = M.valid(x[4][1])
                    if v > 1 and len(M.atoms_of(v)) == 1:
                        a = list(M.atoms_of(v))[0]
                        k = M.restrict(k, a, 0 if M.restrict(v, a, 1) == 1 else 1)
            if k == 0:
                r.ok(nm, rec.loc)
            elif opaque(M, ('b', k)):
                r.undec(nm, 'condition not recognised', rec.loc)
            else:
                r.violation(nm, rec.loc, RULE, 'recorded moves of earlier rounds are kept when %s' % M.show(k, 6))


def one(r, P, c, kind):
    s = solver_session(c.cls, warm=(kind == 'recycling'))
    round_rule(r, s, c.params or 'default')
    M, R = s.M, s.R
    f = P.find_method(c.cls, 'computeWinningPositions')
    loc = locof(P, f)
    name = c.params or 'default'
    v = s.field('strategyDumpingData')
    W = s.field('winningPositions')
    r.listed('functions', s.functions())
    if v is None or W is None:
        r.undec('%s: recorded moves' % name, 'no recorded list', loc)
        return
    Sf = R.fastslow_safety() if kind == 'fastslow' else R.f('safetySys')
    W = W[1]
    obs = []

    def struct(t, what):
        if t[0] != 'seq':
            raise Mismatch('%s: not a list built by the algorithm: %s' % (what, M.showt(t, 4)[:200]))
        return t[1]

    def item(it, gsym, ref, what):
        if it[0] != 'item' or it[1][0] != 'obj':
            raise Mismatch('%s: recorded entry not recognised' % what)
        d = dict(it[1][2])
        vals = list(d.values())
        tag = [x for x in vals if x[0] not in ('bf', 'b')]
        fm = [x for x in vals if x[0] == 'bf']
        if len(tag) != 1 or len(fm) != 1:
            raise Mismatch('%s: recorded entry not recognised' % what)
        obs.append(('%s: goal the moves are recorded for' % what, tag[0] == gsym, 'recorded for %s' % M.showt(tag[0], 3), tag[0]))
        g = fm[0][1]
        obs.append(('%s: recorded moves are legal' % what, M.implies(g, Sf), 'moves: %s' % M.show(g, 9), fm[0]))
        obs.append(('%s: recorded moves make progress' % what, M.implies(g, ref), 'moves: %s\nallowed: %s' % (M.show(g, 9), M.show(ref, 9)), fm[0]))
        obs.append(('%s: no move is missing' % what, M.implies(ref, g), 'moves: %s\nexpected: %s' % (M.show(g, 9), M.show(ref, 9)), fm[0]))

    def isrange(d, cont):
        return d == ('range', ('size', ('cont', cont))) or d == ('cont', cont)
    try:
        top = struct(v, 'recorded list')
        if len(top) != 1 or top[0][0] != 'for' or not isrange(top[0][1], 'livenessGuarantees'):
            raise Mismatch('recorded list is not one section per goal: %s' % M.showt(v, 4)[:300])
        gs = ('s', ('bi', top[0][2]))
        G = R.elem('livenessGuarantees', gs)
        body = top[0][3]
        if len(body) != 1 or body[0][0] != 'iter':
            raise Mismatch('recorded list of a goal is not built along one fixed point: %s' % M.showt(('seq', body), 4)[:300])
        _, lim, kd, h, items = body[0]
        if kd != 'mu':
            raise Mismatch('recorded along a %s fixed point' % kd)

        def bv(h, like):
            ats = [a for a in tatoms(M, like) if M.atoms[a][0] == 'bv' and M.atoms[a][1] == ('it', h)]
            if not ats:
                return None
            k = M.atoms[ats[0]]
            return M.swap(k[3], M.mk(ats[0], 1, 0)) if k[3] else M.mk(ats[0], 1, 0)
        Z = bv(h, items)
        if Z is None:
            raise Mismatch('recorded moves do not depend on the approximation')
        base = lambda Y: R.OR(R.AND(G, R.nxt(W)), R.nxt(Y))

        def X(A, Y):
            return R.nu(lambda X: R.sys_cox(R.AND(Sf, R.OR(base(Y), R.AND(R.NOT(A), R.nxt(X))))))

        def lvl(Y):
            w = R.bigor('livenessAssumptions', lambda A: X(A, Y))
            if kind == 'bias':
                w = R.OR(w, R.mu(lambda B: R.sys_cox(R.AND(Sf, R.OR(base(Y), R.nxt(B))))))
            return w
        Ylim = R.mu(lvl)
        obs.append(('approximations', lim[1] == Ylim or M.implies(lim[1], Ylim) and M.implies(Ylim, lim[1]),
                    'limit %s\nexpected %s' % (M.show(lim[1], 10), M.show(Ylim, 10)), lim))
        items = list(items)
        if kind == 'bias':
            b = items.pop(0)
            if b[0] != 'iter' or b[2] != 'mu' or len(b[4]) != 1:
                raise Mismatch('progress without waiting is not recorded first')
            B = bv(b[3], b[4])
            if B is None:
                raise Mismatch('progress moves do not depend on the approximation')
            item(b[4][0], gs, R.AND(Sf, R.OR(base(Z), R.nxt(B))), 'progress moves')
        if len(items) != 1 or items[0][0] != 'for' or not isrange(items[0][1], 'livenessAssumptions') or len(items[0][3]) != 1:
            raise Mismatch('not exactly one set of moves per assumption: %s' % M.showt(('seq', tuple(items)), 5)[:300])
        A = R.elem('livenessAssumptions', ('s', ('bi', items[0][2])))
        item(items[0][3][0], gs, R.AND(Sf, R.OR(base(Z), R.AND(R.NOT(A), R.nxt(X(A, Z))))), 'moves per assumption')
    except Mismatch as ex:
        op = {k: n for k, n in opaque(M, v).items()}
        if op:
            r.undec('%s: recorded moves' % name, '%s; parts not modelled: %s' % (ex, sorted(op)[:4]), loc)
        else:
            r.violation('%s: recorded moves' % name, loc, RULE, str(ex))
        return
    for what, ok, detail, val in obs:
        nm = '%s: %s' % (name, what)
        if ok is True or ok == 1 and ok is not None:
            r.ok(nm, loc)
        elif opaque(M, val):
            r.undec(nm, 'parts not modelled: %s' % sorted(opaque(M, val))[:4], loc)
        else:
            r.violation(nm, loc, RULE, detail)

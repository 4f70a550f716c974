"""C07: explicit counterstrategies win for the environment."""
from .extract import *
from .c05 import header_rule, stop_rule, store_rules, absent_atom, cond_leaves, contains, is_succ, initial, bit_rules, isbit
from .c06 import tatoms, Mismatch
from .verdict import solver_session

RULE = {
    'init': 'the initial states are exactly the positions allowed by both initialisations from which the environment wins',
    'rec': 'recorded per approximation of the winning region, per goal j, per assumption i and per approximation X: exactly the allowed inputs after which every safe output leads to '
           '(!G_j | Z\') & Y\' & (A_i | X\')',
    'merge': 'per position, the strategy for an assumption and a goal consists of the moves of the earliest recorded set that has any',
    'owner': 'the goal prevented from a position is the one for which the position was found to be winning first',
    'dead': 'a state gets a dead end exactly if some allowed input leaves no safe output, and the dead end shows such an input',
    'input': 'a state without dead end offers one input of the strategy of its assumption and goal',
    'all': 'every safe output after the chosen input has a successor, and nothing else',
    'assume': 'a satisfied assumption is left behind, one that is not satisfied is kept',
    'keep': 'the goal that is prevented stays the same until it is satisfied; afterwards it is the one of the successor position',
}
DATA = 'strategyDumpingData'


def check(r, tier):
    P = program()
    r.rule('closed form of the recorded environment moves; loops of the extraction recognised by role, their sets, created states, table entries and pointers compared with the definition of a counterstrategy')
    n = 0
    check_determinize(r, P)
    for c in combos(P):
        if '--counterStrategy' not in c.opts or c.cls is None:
            continue
        n += 1
        roles = recorded(r, P, c)
        one(r, P, c, roles)
    if n < 2:
        raise AnalysisBroken('counterstrategy option sets not found')


# ---------------------------------------------------------------- recorded moves
def recorded(r, P, c):
    """closed form of the recorded moves; returns the positions of assumption, goal and moves in a record"""
    s = solver_session(c.cls)
    M, R = s.M, s.R
    name = c.params
    loc = locof(P, P.find_method(c.cls, 'computeWinningPositions'))
    key = name + ': recorded moves'
    v = s.field(DATA)
    r.listed('functions', s.functions())
    S, E = R.f('safetySys'), R.f('safetyEnv')
    cox = lambda t: R.AND(E, R.all_(['PostOutput'], R.IMP(S, t)))
    obs, roles = [], None

    def isrange(d, cont):
        return d == ('range', ('size', ('cont', cont))) or d == ('cont', cont)

    def bv(h, like):
        ats = [a for a in tatoms(M, like) if M.atoms[a][0] == 'bv' and M.atoms[a][1] == ('it', h)]
        if not ats:
            return None
        k = M.atoms[ats[0]]
        return M.swap(k[3], M.mk(ats[0], 1, 0)) if k[3] else M.mk(ats[0], 1, 0)
    try:
        if v is None or v[0] != 'seq':
            raise Mismatch('no recorded list')
        top = [t for t in v[1] if t != ('all', ('cont', DATA))]
        if len(top) != 1 or top[0][0] != 'iter' or top[0][2] != 'mu':
            raise Mismatch('not recorded along the winning region: %s' % M.showt(v, 4)[:200])
        _, lim, _, h, body = top[0]
        W = R.counter()
        obs.append(('approximations of the winning region', lim[1] == W or M.implies(lim[1], W) and M.implies(W, lim[1]), 'limit %s' % M.show(lim[1], 8), lim))
        if len(body) != 1 or body[0][0] != 'for' or not isrange(body[0][1], 'livenessGuarantees'):
            raise Mismatch('not one section per goal')
        gs = ('s', ('bi', body[0][2]))
        G = R.elem('livenessGuarantees', gs)
        b2 = body[0][3]
        if len(b2) != 1 or b2[0][0] != 'for' or not isrange(b2[0][1], 'livenessAssumptions'):
            raise Mismatch('not one section per assumption: %s' % M.showt(('seq', b2), 4)[:200])
        as_ = ('s', ('bi', b2[0][2]))
        A = R.elem('livenessAssumptions', as_)
        b3 = b2[0][3]
        if len(b3) != 1 or b3[0][0] != 'iter' or b3[0][2] != 'mu' or len(b3[0][4]) != 1 or b3[0][4][0][0] != 'item':
            raise Mismatch('not recorded along the approximations of one assumption: %s' % M.showt(('seq', b3), 4)[:200])
        it = b3[0][4][0][1]
        if it[0] != 'obj':
            raise Mismatch('record not recognised')
        d = dict(it[2])
        ra = [k for k, x in d.items() if x == as_]
        rg = [k for k, x in d.items() if x == gs]
        rf = [k for k, x in d.items() if x[0] == 'bf']
        if len(d) != 3 or len(rf) != 1:
            raise Mismatch('record not recognised')
        obs.append(('assumption and goal of a record', len(ra) == 1 and len(rg) == 1, 'recorded for %s' % [M.showt(x, 3) for k, x in d.items() if k not in rf], it))
        if len(ra) == 1 and len(rg) == 1:
            roles = (ra[0], rg[0], rf[0])
        Z, X = bv(h, body), bv(b3[0][3], b3[0][4])
        if Z is None or X is None:
            raise Mismatch('recorded moves do not depend on the approximations')
        step = lambda G_, A_, Y, X_: cox(R.AND(R.OR(R.NOT(G_), R.nxt(Z)), R.nxt(Y), R.OR(A_, R.nxt(X_))))
        Y = R.nu(lambda Y: R.bigand('livenessAssumptions', lambda A_: R.mu(lambda X_: R.ex(['PostInput'], step(G, A_, Y, X_)))))
        Xl = R.mu(lambda X_: R.ex(['PostInput'], step(G, A, Y, X_)))
        obs.append(('approximations for an assumption', b3[0][1][1] == Xl or M.implies(b3[0][1][1], Xl) and M.implies(Xl, b3[0][1][1]), 'limit %s' % M.show(b3[0][1][1], 8), b3[0][1]))
        ref = step(G, A, Y, X)
        g = d[rf[0]][1]
        obs.append(('moves of a record', g == ref or M.implies(g, ref) and M.implies(ref, g), 'moves: %s\nexpected: %s' % (M.show(g, 9), M.show(ref, 9)), d[rf[0]]))
    except Mismatch as ex:
        op = opaque(M, v) if v is not None else {'none': 1}
        if op:
            r.undec(key, '%s; parts not modelled: %s' % (ex, sorted(op)[:4]), loc)
        else:
            r.violation(key, loc, RULE['rec'], str(ex))
        return roles
    for what, ok, detail, val in obs:
        nm = '%s: %s' % (name, what)
        if ok:
            r.ok(nm, loc)
        elif opaque(M, val):
            r.undec(nm, 'parts not modelled: %s' % sorted(opaque(M, val))[:4], loc)
        else:
            r.violation(nm, loc, RULE['rec'], detail)
    return roles


# ---------------------------------------------------------------- extraction
def proj_atom(M, a):
    """record index and component of a value read from the recorded list, or None"""
    k = M.atoms[a]
    if k[0] == 'fun' and k[1] == 'proj' and k[2][0][:2] == ('elem', ('cont', DATA)):
        return k[2][0][2], k[2][1]
    return None


def one(r, P, c, roles):
    s = session(c.cls)
    M, R, I = s.M, s.R, s.I
    k = Checker(r, s, c.params, locof(P, s.fn))
    r.listed('functions', s.functions())
    if roles is None:
        k.need('extraction', None, '', 'recorded moves not recognised')
        return
    k.roles = roles
    merges(k)
    owner(k)
    es = [e for e in enums(s) + guarded_enums(s) if e.picks]
    init = [e for e in es if not any(M.atoms[a][0] == 'elem' for a in M.allatoms(e.pre[1]))]
    trans = [e for e in es if any(M.atoms[a][0] == 'elem' for a in M.allatoms(e.pre[1]))]
    if init and not trans:
        whole = [e for e in enums(s) + guarded_enums(s) if not e.picks and any(M.atoms[a][0] == 'fun' and M.atoms[a][1] == 'pick' for a in M.allatoms(e.pre[1])) and e.new[0] == 'bf' and
                 M.AND(e.new[1], getattr(e, 'part', e.new[1])) == 0]
        if whole:
            k.need('answers are handled one by one', False, RULE['all'], 'a round handles all remaining answers at once', whole[0].rec.loc)
            return
    if not init or not trans:
        k.need('extraction loops', None, '', 'loops over initial states and moves not recognised (%d/%d)' % (len(init), len(trans)))
        return
    for e in init:
        initials(k, e)
    for e in trans:
        moves(k, e)
    bit_rules(k, lambda pc: ('PreInput',) if any(M.restrict(pc, a, 0) == 0 for a in getattr(k, 'deadatoms', ())) else ('PreInput', 'PreOutput'))


def merges(k):
    s, M, R = k.s, k.M, k.R
    ra, rg, rf = k.roles
    n = 0
    for rec in s.I.looprecs:
        for x in rec.leafs:
            v = x[5]
            if v is None or v == x[4] or x[2] not in ('c', 'i') or not isinstance(v, tuple) or v[0] != 'iite' or v[2][0] != 'upd' or v[3] != x[4] and v[2][1] != x[4]:
                continue
            g = v[1][1]
            up = v[2]
            if v[3] != x[4] or up[3][0] != 'bf':
                continue
            fs = [a for a in M.allatoms(up[3][1]) if proj_atom(M, a) and proj_atom(M, a)[1] == rf]
            if len(set(fs)) != 1:
                continue
            n += 1
            ridx = proj_atom(M, fs[0])[0]
            loc = rec.loc
            f = M.mk(fs[0], 1, 0)
            dat = ('elem', ('cont', DATA), ridx)
            k.need('moves are sorted by goal', up[2] == ('fun', 'proj', dat, rg), 'a recorded set of moves is added to the strategy of its own goal', lambda: 'added to %s' % M.showt(up[2], 5), loc, vals=[up[2]])
            ats = [M.atoms[a] for a in M.atoms_of(g)]
            isg = len(ats) == 1 and ats[0][:2] == ('cmp', '==') and ('fun', 'proj', dat, ra) in ats[0][2:4] and g == M.mk(list(M.atoms_of(g))[0], 1, 0)
            k.need('moves are sorted by assumption', isg, 'a recorded set of moves is added to the strategy of its own assumption', lambda: 'added when %s' % M.show(g, 5), loc, vals=[('b', g)])
            full = all(kd == 'n' for kd, _, _ in rec.flows) and rec.cont == rec.c
            k.need('all recorded moves considered', full, 'every recorded set of moves takes part', 'the loop can end before the list is exhausted', loc)
            new = up[3][1]
            old = oldval(M, new, up)
            ok = False
            for f2 in (f, R.all_(['PostOutput'], f), R.ex(['PostOutput'], f)):
                for cats in (['PostInput', 'PostOutput'], ['PostInput']):
                    ok = ok or eq(M, new, R.OR(old, R.AND(f2, R.NOT(R.ex(cats, old)))))
            k.need('earlier moves come first', ok, RULE['merge'], lambda: 'strategy := %s' % M.show(new, 6), loc, vals=[up[3]])
            # each (assumption, goal) starts empty
    if n == 0:
        k.need('earlier moves come first', None, '', 'merge of the recorded moves not recognised')


def oldval(M, new, up):
    """previous value of the updated element"""
    ats = [a for a in M.allatoms(new) if M.atoms[a][0] == 'elem' and M.atoms[a][2] == up[2] and M.atoms[a][1] in (up[1], ('csym', up[1][1]))]
    return M.mk(ats[0], 1, 0) if len(set(ats)) == 1 else 0


def owner(k):
    """sets of positions per goal: position -> goal of the first record that has a move from it"""
    s, M, R = k.s, k.M, k.R
    ra, rg, rf = k.roles
    k.owners = []
    for rec in s.I.looprecs:
        ups = [x for x in rec.leafs if x[5] is not None and x[2] in ('c', 'i') and isinstance(x[5], tuple) and x[5][0] == 'upd' and x[5][1] == x[4] and x[5][3][0] == 'bf']
        for x in ups:
            up = x[5]
            fs = {a for a in M.allatoms(up[3][1]) if proj_atom(M, a) and proj_atom(M, a)[1] == rf}
            if len(fs) != 1:
                continue
            a = fs.pop()
            dat = ('elem', ('cont', DATA), proj_atom(M, a)[0])
            if up[2][:3] == ('fun', 'proj', dat) and up[2] != ('fun', 'proj', dat, rg):
                if any(y[2] == 'bf' and y[3] == ('bf', 0) and y[5] is not None and y[5] != y[4] for y in rec.leafs):
                    k.need('goal of a position', False, RULE['owner'], lambda: 'positions are collected under %s' % M.showt(up[2], 5), rec.loc)
                    k.owners.append(rec)
                continue
            if up[2] != ('fun', 'proj', dat, rg):
                continue
            f = R.ex(['PostInput', 'PostOutput'], M.mk(a, 1, 0))
            old = oldval(M, up[3][1], up)
            known = [y for y in rec.leafs if y[2] == 'bf' and y[3] == ('bf', 0) and y[5] is not None and y[5] != y[4]]
            ok = any(eq(M, y[5][1], R.OR(y[4][1], f)) and eq(M, up[3][1], R.OR(old, R.AND(f, R.NOT(y[4][1])))) for y in known)
            full = all(kd == 'n' for kd, _, _ in rec.flows) and rec.cont == rec.c
            init = x[3] == ('fill', ('size', ('cont', 'livenessGuarantees')), ('bf', 0)) or None
            if ok and full and init:
                k.need('goal of a position', True, '', '', rec.loc)
                k.owners.append(rec)
            elif known:
                k.need('goal of a position', False if ok is False or not full else None, RULE['owner'], lambda: 'positions := %s' % M.show(up[3][1], 6), rec.loc, vals=[up[3]] + [y[5] for y in known])
                k.owners.append(rec)


def last_match(M, k, v, pos):
    if len(v[3]) != 1 or len(v[4]) != 1:
        return None
    st = v[4][0]
    if st[0] != 'iite':
        return False
    h = [t[1][1] for t in subterms(st, lambda t: t[0] == 's' and isinstance(t[1], tuple) and t[1][:1] == ('bi',))]
    f = [t for t in (st[2], st[3]) if t[:1] == ('s',) and t[1][:1] == ('f',)]
    if len(set(h)) != 1 or len(f) != 1:
        return None
    c = st[1][1] if isinstance(st[1], tuple) else st[1]
    if st[2] == f[0]:
        c = M.NOT(c)
    return owns(M, k, h[0], c, pos) if ('s', ('bi', h[0])) in st[2:4] else False


def owns(M, k, h, c, pos):
    """c: the set of positions recorded for goal number h meets pos"""
    ats = list(M.atoms_of(c))
    if len(ats) != 1 or c != M.mk(ats[0], 1, 0) or M.atoms[ats[0]][0] != 'ex':
        return False
    body = M.atoms[ats[0]][2]
    el = [a for a in M.atoms_of(body) if M.atoms[a][0] == 'elem' and M.atoms[a][2] == ('s', ('bi', h))]
    if len(el) != 1:
        return False
    cont = M.atoms[el[0]][1]
    posts = [w for rec in k.owners for x in rec.leafs for w in rec.post.get(x[1], [])]
    if cont not in posts:
        return None if not k.owners and 'mapped' not in repr(cont)[:200] else False
    return eq(M, body, M.AND(M.mk(el[0], 1, 0), pos))


def owner_choice(k, what, g, pos, other, loc):
    """g is the number of the goal whose set of positions contains pos (other, if there is none)"""
    M, s = k.M, k.s
    leaves = list(cond_leaves(M, g))
    if not any(v[:2] == ('fun', 'first') for _, v in leaves):
        folds = [v for _, v in leaves if v[:2] == ('fun', 'fold') and v[2] == ('range', ('size', ('cont', 'livenessGuarantees')))]
        if folds:
            # positions are collected disjointly: the last goal whose set contains the position is the first one
            res = [last_match(M, k, v, pos) for v in folds]
            good = None if not k.owners or None in res else all(res)
            return k.need(what, good, RULE['owner'], lambda: 'goal %s' % M.showt(g, 6), loc, vals=[])
        return k.need(what, None if opaque(M, g) else False, RULE['owner'], lambda: 'goal %s' % M.showt(g, 6), loc, vals=[g])
    ok = True
    for c, v in leaves:
        if v[:2] == ('fun', 'first'):
            dom, h, b = v[2], v[3], v[4]
            if dom != ('range', ('size', ('cont', 'livenessGuarantees'))):
                ok = False
                continue
            good = owns(M, k, h, b[1], pos)
            ok = good if ok is True else ok
        elif other is not None and v != other:
            ok = None if ok is True and opaque(M, v) else False
    return k.need(what, ok, RULE['owner'], lambda: 'goal %s' % M.showt(g, 8), loc, vals=[])


def rank_pair(key):
    """(assumption, goal) of a table key"""
    if key[0] != 'obj':
        return None
    vals = []

    def rec(t):
        if t[0] == 'obj':
            for kk, v in sorted(t[2], key=lambda kv: str(kv[0])):
                rec(v)
        else:
            vals.append(t)
    rec(key)
    if len(vals) != 3 or not (vals[0][:2] == ('fun', 'getHashCode')):
        return None
    return vals[1], vals[2]


def paths(key):
    """access path of each component of a table key"""
    out = []

    def rec(t, p):
        if t[0] == 'obj':
            for kk, v in sorted(t[2], key=lambda kv: str(kv[0])):
                rec(v, p + (kk,))
        else:
            out.append(p)
    rec(key, ())
    return out


def initials(k, e):
    M, R = k.M, k.R
    loc = e.rec.loc
    pre = e.pre[1]
    want = M.conj([R.f('winningPositions'), R.f('initSys'), R.f('initEnv')])
    k.need('initial states', eq(M, pre, want), RULE['init'], lambda: 'initial states: %s' % M.show(pre, 8), loc, vals=[e.pre])
    pk = step(k, e, e.T, ['PreInput', 'PreOutput'], 'initial states: ')
    if pk is None:
        return
    items = [v[1] for x, v in e.items(lambda v: v[0] == 'bf')]
    k.need('initial states are stored', bool(items) and all(v == pk for v in items) if items else None, 'each enumerated initial position becomes a state', lambda: 'stored: %s' % [M.show(v, 5) for v in items], loc)
    st = store_rules(k, e, items)
    if st is None:
        return
    rp = rank_pair(st[3])
    if rp is None:
        k.need('goal of an initial state', None, '', 'table key not recognised', loc)
        return
    k.need('assumption of an initial state', rp[0][0] == 'c' and rp[0][1] == 0 or None, 'the first assumption is waited for', 'starts with assumption %s' % M.showt(rp[0], 4), loc)
    owner_choice(k, 'goal of an initial state', rp[1], pk, None, loc)


def step(k, e, T, cats, pre):
    """each round picks an element of T (complete in cats) and removes exactly it"""
    M, R, s = k.M, k.R, k.s
    loc = e.rec.loc
    pks = [a for a in e.picks if ('phi', e.sym) in M.symbols(pick_of(M, a)[0])]
    if len(pks) != 1:
        k.need(pre + 'element taken out of the set', None, '', 'no element picked', loc)
        return None
    arg, vec = pick_of(M, pks[0])
    pk = M.mk(pks[0], 1, 0)
    k.need(pre + 'element is picked from what remains', eq(M, arg, T), 'the element is one of the remaining ones', lambda: 'picked from %s' % M.show(arg, 5), loc)
    want = s.mo.expand(cats)
    k.need(pre + 'element is a complete choice', frozenset(vec[1]) >= want if vec[0] == 'vars' else None, 'the picked element fixes every variable of %s' % '/'.join(cats), lambda: 'fixes %s' % (vec,), loc)
    new = e.new[1]
    rem = lambda Q: M.subst(T, {('phi', e.sym): Q})
    k.need(pre + 'each round removes exactly what it handled', eq(M, rem(new), M.AND(T, M.NOT(pk))), 'a round removes exactly the element it handled', lambda: 'remaining: %s' % M.show(new, 6), loc, vals=[e.new])
    ne = M.ex(s.mo.allcats, T)
    k.need(pre + 'enumeration is exhaustive', e.rec.cont == ne or M.implies(ne, e.rec.cont) is True, 'the enumeration only ends when nothing is left', lambda: 'continues while %s' % M.show(e.rec.cont, 5), loc, vals=[('b', e.rec.cont)])
    return pk


def moves(k, e):
    s, M, R, I = k.s, k.M, k.R, k.s.I
    loc = e.rec.loc
    S, E = R.f('safetySys'), R.f('safetyEnv')
    pre = e.pre[1]
    part = getattr(e, 'part', e.T)
    # the set before the loop: one input chosen out of  current state & strategy
    full = M.subst(part, {('phi', e.sym): pre})
    pks = [a for a in M.atoms_of(full) if M.atoms[a][0] == 'fun' and M.atoms[a][1] == 'pick']
    if len(pks) != 1:
        k.need('one input per state', None if pks or not recognised(M, full) else False, RULE['input'], lambda: 'moves: %s' % M.show(full, 6), loc, vals=[e.pre])
        return
    inp = M.mk(pks[0], 1, 0)
    arg, vec = pick_of(M, pks[0])
    k.need('every safe answer is offered', eq(M, full, M.AND(inp, S)), RULE['all'], lambda: 'moves: %s' % M.show(full, 6), loc, vals=[('bf', full)])
    k.need('the input is a complete choice', frozenset(vec[1]) >= s.mo.expand(['PostInput']) if vec[0] == 'vars' else None, RULE['input'], lambda: 'fixes %s' % (vec,), loc)
    k.need('the answers stay open', not (frozenset(vec[1]) & s.mo.expand(['PostOutput'])) if vec[0] == 'vars' else None, RULE['all'], lambda: 'fixes %s' % (vec,), loc)
    ats = M.atoms_of(arg)
    cur = [a for a in ats if M.atoms[a][0] == 'elem' and not deepdata(M, a)]
    X = [a for a in ats if deepdata(M, a)]
    if len(cur) != 1 or len(X) != 1:
        k.need('moves taken from the strategy', None if len(cur) > 1 or len(X) > 1 or not recognised(M, arg) else False, RULE['input'], lambda: 'input picked from %s' % M.show(arg, 6), loc)
        return
    curf = M.mk(cur[0], 1, 0)
    k.need('moves taken from the strategy', eq(M, arg, M.AND(curf, M.mk(X[0], 1, 0))) or eq(M, arg, M.conj([curf, M.mk(X[0], 1, 0), E])), RULE['input'], lambda: 'input picked from %s' % M.show(arg, 6), loc, vals=[('bf', arg)])
    pk = step(k, e, part, ['PostOutput'], 'answers: ')
    if pk is None:
        return
    succ = M.swap(R.prepost, R.ex(['PreInput', 'PreOutput'], pk))
    items = [v[1] for x, v in e.items(lambda v: v[0] == 'bf')]
    k.need('successor state', all(eq(M, v, succ) for v in items) if items else None, 'the successor state is the next-step valuation of the chosen move',
           lambda: 'stored: %s\nexpected: %s' % ([M.show(v, 6) for v in items], M.show(succ, 6)), loc, vals=[('bf', v) for v in items])
    st = store_rules(k, e, items)
    if st is None:
        return
    tx, sx, wx, key, g = st
    k.need('states are created when new', absent_atom(M, g, tx[4], key), 'a state is created exactly if there is none with the same valuation, assumption and goal yet', lambda: 'created when %s' % M.show(g, 6), loc, vals=[('b', g)])

    # the state being processed
    def base(v):
        while isinstance(v, tuple) and v[:1] == ('fun',) and v[1] in ('pop_front', 'pop_back'):
            v = v[2]
        return v
    T0, S0, W0 = base(tx[3]), base(sx[3]), base(wx[3])
    pop = wx[3]
    if not (isinstance(pop, tuple) and pop[:1] == ('fun',) and pop[1] in ('pop_front', 'pop_back') and pop[2] == W0):
        k.need('work list', None, '', 'work list handling not recognised: %s' % M.showt(pop, 4), loc)
        return
    K0 = ('elem', W0, ('c', 0)) if pop[1] == 'pop_front' else ('elem', W0, M.iadd(('size', W0), ('c', -1)))
    cont, idx = M.atoms[cur[0]][1], M.atoms[cur[0]][2]
    k.need('state number of the processed state', idx == ('elem', T0, K0), 'the number of a state is the one registered for it', lambda: 'state number %s' % M.showt(idx, 6), loc, vals=[idx])
    k.need('states are read from the state store', cont == S0, 'the moves of a state are computed from its own valuation', lambda: 'read from %s' % M.showt(cont, 3), loc)
    # rank
    rp, pp = rank_pair(key), paths(key)
    if rp is None:
        k.need('assumption and goal of a state', None, '', 'table key not recognised', loc)
        return

    def comp(p):
        t = K0
        for f in p:
            t = ('fun', 'proj', t, f)
        return t
    ra, rg = comp(pp[1]), comp(pp[2])
    xk = M.atoms[X[0]]
    okx = xk[0] == 'elem' and xk[2] == rg and ((xk[1][0] == 'elem' and xk[1][2] == ra))
    k.need('strategy of the state', okx if okx or not opaque(M, ('bf', M.mk(X[0], 1, 0))) or xk[0] == 'elem' else None,
           'a state uses the strategy of the assumption and goal it was stored with', lambda: 'strategy %s' % M.show(M.mk(X[0], 1, 0), 5), loc)
    # goal: kept unless satisfied
    Gc = M.elem(('cont', 'livenessGuarantees'), rg, frozenset(s.mo.contsupp(('cont', 'livenessGuarantees'))))
    sat = M.ex(s.mo.allcats, M.AND(Gc, pk))
    leaves = list(cond_leaves(M, rp[1]))
    okk = True
    chosen = []
    for c, v in leaves:
        if v == rg:
            continue
        chosen.append((c, v))
        if M.implies(c, sat) is not True:
            okk = False
    k.need('goal is kept until it is satisfied', okk if chosen or rp[1] == rg else None, RULE['keep'], lambda: 'next goal %s' % M.showt(rp[1], 6), loc, vals=[])
    if not chosen:
        k.need('goal after it was satisfied', False, RULE['keep'], 'the goal never changes', loc)
    else:
        bad = None
        for c, v in leaves:
            if M.AND(c, sat) != 0 and v == rg and not any(True for c2, v2 in leaves if v2 != rg and 'first' in repr(v2)[:60]):
                bad = True
        owner_choice(k, 'goal after it was satisfied', mk_iite(M, chosen), succ, None, loc)
        # kept while satisfied only if no set of positions contains the successor
        rest = M.disj([c for c, v in leaves if v == rg])
        ex = [M.atoms[a] for a in M.atoms_of(M.AND(rest, sat))]
        k.need('satisfied goal is left', M.AND(rest, sat) == 0 or any(a[0] == 'big' for a in ex) or None, RULE['keep'], lambda: 'kept when %s' % M.show(M.AND(rest, sat), 5), loc)
    # assumption
    assumption(k, e, pk, ra, rp[0], loc)
    header_rule(k, idx, [ra, rg], tx[4], loc)
    printed(k, e, tx, sx, key, g, loc)
    dead(k, e, curf, S0, T0, W0, ra, rg, loc)
    # the work list
    outer = [x for x in I.looprecs if any(y[4] == W0 and y[5] is not None for y in x.leafs) and any(y[4] == T0 for y in x.leafs) and x is not e.rec]
    for o in outer:
        c = M.cmp('==', ('c', 0), ('size', W0))
        k.need('every state is processed', True if M.implies(M.NOT(c), o.cont) is True else (None if opaque(M, ('b', o.cont)) else False), 'processing only ends when the work list is empty', lambda: 'continues while %s' % M.show(o.cont, 5), o.loc)


def recognised(M, f):
    """every part is a stored valuation, a recorded strategy or part of the specification"""
    return all(M.atoms[a][0] in ('base', 'elem') or deepdata(M, a) for a in M.atoms_of(f)) and (not opaque(M, ('bf', f)) or all(M.atoms[a][0] in ('base', 'elem', 'bv') for a in M.atoms_of(f)))


def mk_iite(M, leaves):
    v = leaves[-1][1]
    for c, x in reversed(leaves[:-1]):
        v = ('iite', ('b', c), x, v)
    return v


def deepdata(M, a):
    return DATA in repr(M.atoms[a]) + ''.join(repr(M.atoms[b]) for b in M.allatoms(M.mk(a, 1, 0)))


def assumption(k, e, pk, ra, nxt, loc):
    """the assumption pointer starts at the assumption of the state and moves past satisfied assumptions only"""
    M, s = k.M, k.s
    size = ('size', ('cont', 'livenessAssumptions'))
    if nxt == ra or nxt[0] == 'c':
        k.need('assumption pointer', False, RULE['assume'], 'next assumption is %s' % M.showt(nxt, 4), loc)
        return
    pa = [a for a in M.atoms_of(pk)]
    found = []
    for rec in s.I.looprecs:
        ps = set()
        for f in [rec.c, rec.cont] + [pc for _, pc, _ in rec.flows]:
            ps |= set(a for a in M.allatoms(f) if a in pa)
        if not ps:
            continue
        for x in rec.leafs:
            if x[2] == 'i' and x[5] is not None and x[5] != x[4] and (contains(x[5], size) or x[3] == ra):
                found.append((rec, x))
    if not found:
        # a conditional successor without a loop
        lv = list(cond_leaves(M, nxt))
        A = M.elem(('cont', 'livenessAssumptions'), ra, frozenset(s.mo.contsupp(('cont', 'livenessAssumptions'))))
        sat = M.ex(s.mo.allcats, M.AND(A, pk))
        ok = True
        for c, v in lv:
            if v == ra:
                ok = ok and M.AND(c, sat) == 0
            elif M.implies(c, sat) is True and (is_succ(M, v, ra, size) or v == M.iadd(ra, ('c', 1)) or v == ('c', 0)):
                pass
            else:
                ok = None
        k.need('assumption pointer', ok, RULE['assume'], lambda: 'next assumption is %s' % M.showt(nxt, 5), loc, vals=[nxt])
        return
    for rec, x in found:
        g = x[4]
        k.need('assumption pointer starts at the current one', x[3] == ra, RULE['assume'], lambda: 'starts at %s' % M.showt(x[3], 5), rec.loc, vals=[x[3]])
        k.need('assumption pointer advances cyclically', is_succ(M, x[5], g, size), RULE['assume'], lambda: 'next %s' % M.showt(x[5], 5), rec.loc, vals=[x[5]])
        A = M.elem(('cont', 'livenessAssumptions'), g, frozenset(s.mo.contsupp(('cont', 'livenessAssumptions'))))
        sat = M.ex(s.mo.allcats, M.AND(A, pk))
        moved = 0
        for kd, pc, f in rec.flows:
            v = f.st.env.get(x[0].key)
            for p in x[0].path:
                v = dict(v[2]).get(p) if isinstance(v, tuple) and v[0] == 'obj' else None
            if v is not None and v != g:
                moved = M.OR(moved, s.I.care(pc, rec.entry))
        moved = M.AND(rec.c, moved)
        k.need('assumptions are only left when satisfied', M.implies(moved, sat) is True, RULE['assume'], lambda: 'advances when %s' % M.show(moved, 5), rec.loc, vals=[('b', moved)])
        first, satf = initial(M, rec, moved), initial(M, rec, sat)
        k.need('satisfied assumptions are left', M.implies(satf, first) is True, RULE['assume'], lambda: 'advances in the first round when %s' % M.show(first, 5), rec.loc, vals=[('b', moved)])


def printed(k, e, tx, sx, key, g, loc):
    M, s = k.M, k.s
    n = 0
    for pc, stream, val, eloc in s.I.events:
        if not isinstance(val, tuple) or not (contains(val, tx[4]) or contains(val, ('size', sx[4]))):
            continue
        n += 1
        ok = True
        for c, v in cond_leaves(M, val):
            if v == ('size', sx[4]):
                ok = ok and M.implies(c, g) is True
            elif v[:1] == ('elem',) and v[1] == tx[4]:
                ok = ok and v[2] == key and M.AND(c, g) == 0
            elif v[:1] == ('elem',) and v[1] == tx[5]:
                ok = ok and v[2] == key
            elif v[0] in ('elem', 'c', 'size'):
                ok = False
            else:
                ok = None
        k.need('printed successor', ok, 'the printed successor is the state registered for the chosen move', lambda: 'prints %s' % M.showt(val, 7), eloc, vals=[val])
        k.need('every successor is printed', M.implies(e.rec.entry, pc) is True, 'every chosen move is printed', lambda: 'printed when %s' % M.show(pc, 6), eloc, vals=[('b', pc)])
    if n == 0:
        k.need('printed successor', None, '', 'no printed successor recognised', loc)


def dead(k, e, curf, S0, T0, W0, ra, rg, loc):
    """dead ends"""
    s, M, R, I = k.s, k.M, k.R, k.s.I
    S, E = R.f('safetySys'), R.f('safetyEnv')
    lo = R.all_(['PostOutput'], M.conj([curf, E, R.NOT(S)]))
    hi = M.conj([curf, E, R.all_(['PostOutput'], R.NOT(S))])
    seen = set()
    n = 0
    entry = e.rec.entry
    # moves are only enumerated when there is no deadlocking input
    conds = [a for a in M.atoms_of(entry) if M.atoms[a][0] == 'ex' and M.supp(M.mk(a, 1, 0)) == EMPTY and 'safetySys' in names(M, M.atoms[a][2])]
    ds = [a for a in conds if ('phi', e.sym) not in M.symbols(M.atoms[a][2])]
    if len(ds) != 1:
        k.need('dead ends', None if ds else False, RULE['dead'], 'the moves of a state are enumerated without regard to inputs that leave no safe output', loc)
        return
    k.deadatoms = getattr(k, 'deadatoms', []) + [ds[0]]
    D = M.atoms[ds[0]][2]
    # quantifiers that do not matter for emptiness
    D2 = D
    ok = nonempty_eq(M, s, D, lo, hi)
    k.need('deadlocking inputs', ok, RULE['dead'], lambda: 'dead end when non-empty: %s' % M.show(D, 7), loc, vals=[('bf', D)])
    k.need('moves without dead end', M.restrict(entry, ds[0], 1) == 0 and M.restrict(entry, ds[0], 0) != 0, RULE['dead'], lambda: 'moves are enumerated when %s' % M.show(entry, 6), loc)
    evs = [ev for ev in I.events if ev[1] == 'call:pick' and M.restrict(ev[0], ds[0], 0) == 0]
    if not evs:
        k.need('dead end input', None, '', 'choice of the deadlocking input not recognised', loc)
        return
    pkd = []
    for ev in evs[:1]:
        arg, vec = ev[2][0][1], ev[2][1]
        k.need('dead end input', M.implies(arg, hi) is True and M.implies(lo, arg) is True, RULE['dead'], lambda: 'input picked from %s' % M.show(arg, 6), ev[3], vals=[ev[2][0]])
        k.need('dead end input is a complete choice', frozenset(vec[1]) >= s.mo.expand(['PostInput']) if vec[0] == 'vars' else None, RULE['dead'], lambda: 'fixes %s' % (vec,), ev[3])
        rest = M.AND(M.restrict(ev[0], ds[0], 1), 1)
        pick = [a for a in range(len(M.atoms)) if M.atoms[a][0] == 'fun' and M.atoms[a][1] == 'pick' and pick_of(M, a) == (arg, vec)]
        pkd += [M.swap(R.prepost, R.ex(['PreInput', 'PreOutput', 'PostOutput'], M.mk(x, 1, 0))) for x in pick]
        bits = []
        for pc, stream, val, l in I.events:
            if M.restrict(pc, ds[0], 0) != 0 or not isinstance(val, tuple):
                continue
            if val[:1] == ('iite',) and {val[2], val[3]} == {('str', '0'), ('str', '1')}:
                c = val[1][1] if isinstance(val[1], tuple) else val[1]
                bits.append((c, l))
        for c, l in bits:
            a = list(M.atoms_of(c))
            body = M.atoms[a[0]][2] if len(a) == 1 and M.atoms[a[0]][0] == 'ex' else None
            vs = [b for b in M.atoms_of(body) if M.atoms[b][0] == 'elem' and M.atoms[b][1] == ('cont', 'variables')] if body is not None else []
            k.need('dead end shows the input', any(eq(M, body, M.AND(x, M.mk(vs[0], 1, 0))) for x in pkd) if len(vs) == 1 and pkd else None, RULE['dead'], lambda: 'shows %s' % M.show(body, 6), l)
        if not bits:
            k.need('dead end shows the input', None, '', 'printed dead end not recognised', loc)
    # the number printed and registered
    new = {}
    for pc, stream, val, l in I.events:
        if M.restrict(pc, ds[0], 0) == 0 and isinstance(val, tuple):
            for c, v in cond_leaves(M, val):
                if v == ('size', S0) and M.AND(pc, c) != 0:
                    new.setdefault(stream, []).append(l)
    for st, ls in new.items():
        k.need('dead end is linked', len(ls) >= 2, 'a state shows the number of its dead end', 'the number of a new dead end is only printed %d time(s)' % len(ls), ls[0])
    for pc, stream, val, l in I.events:
        if M.restrict(pc, ds[0], 0) == 0 and isinstance(val, tuple) and (val == ('size', S0) or val[:2] == ('elem', T0)):
            n += 1
            if val[0] == 'elem':
                rp = rank_pair(val[2])
                k.need('dead end is found under its own key', rp == (ra, rg), 'a dead end belongs to the assumption and goal of its predecessor', lambda: 'key %s' % M.showt(val[2], 5), l)
                hs = list(subterms(val[2], lambda t: t[:2] == ('fun', 'getHashCode')))
                if len(hs) == 1 and isinstance(hs[0][2], tuple) and hs[0][2][0] == 'bf' and pkd:
                    k.need('dead end is told apart from states', any(eq(M, hs[0][2][1], x) for x in pkd), 'a dead end is registered under its input only', lambda: 'key %s' % M.showt(hs[0], 6), l)
    if n == 0:
        k.need('dead end is linked', None, '', 'printed number of the dead end not recognised', loc)


def names(M, f):
    return {M.atoms[a][1] for a in M.allatoms(f) if M.atoms[a][0] in ('base', 'fld', 'f')} | set(w for w in ('safetySys', 'safetyEnv') if w in ''.join(repr(M.atoms[a]) for a in M.allatoms(f)))


def nonempty_eq(M, s, D, lo, hi):
    al = s.mo.allcats
    strip = lambda f: M.ex(al, f)
    d = strip(D)
    return (M.implies(lo, D) is True or M.implies(strip(lo), d) is True) and (M.implies(D, hi) is True or M.implies(d, strip(hi)) is True)

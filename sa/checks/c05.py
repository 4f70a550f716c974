"""C05: explicit-state strategies contain only legal, complete moves."""
from .extract import *


def check(r, tier):
    P = program()
    r.rule('the extraction loops are recognised by role (loops that enumerate a set of transitions through an element picker) and '
           'the value-numbered contents of their sets, the states they create, the table entries and the goal pointer are '
           'compared with the definition of a strategy; element picking itself is a separate contract')
    check_determinize(r, P)
    for c in combos(P):
        if '--explicitStrategy' not in c.opts or c.cls is None:
            continue
        f = P.find_method(c.cls, 'execute')
        one(r, P, c, f)
    if not r.obligations:
        raise AnalysisBroken('no explicit strategy modes')


def one(r, P, c, f):
    s = session(c.cls)
    M, R, I = s.M, s.R, s.I
    name = c.params
    k = Checker(r, s, name, locof(P, f))
    r.listed('functions', s.functions())
    recovery = '--simpleRecovery' in c.opts
    explicit_rules(k, recovery, permissive=False)


def explicit_rules(k, recovery, permissive):
    s, M, R, I = k.s, k.M, k.R, k.s.I
    list_ = list(check_strategy_choice(k, permissive) or [])
    es = [e for e in enums(s) if e.picks]
    states, tables = set(), set()
    for e in es:
        for x, v in e.items(lambda v: v[0] == 'bf'):
            if x[4] is not None:
                states.add(x[4])
    init, trans = [], []
    for e in es:
        if e.pre[0] != 'bf':
            continue
        pats = M.allatoms(e.pre[1])
        if any(M.atoms[a][0] == 'elem' for a in pats):
            trans.append(e)
        else:
            init.append(e)
    endless_rule(k)
    inverted_rule(k)
    if not init or not trans:
        for e in init:
            store_rules(k, e, [v[1] for x, v in e.items(lambda v: v[0] == 'bf')], only=not trans)
        k.need('extraction loops', None, '', 'initial-state and transition enumeration not recognised (%d/%d)' % (len(init), len(trans)))
        return
    W, SI, EI = R.f('winningPositions'), R.f('initSys'), R.f('initEnv')
    seen = set()
    for e in init:
        loc = e.rec.loc
        pre = e.pre[1]
        if permissive:
            lo, hi = M.conj([W, SI, EI]), W
        else:
            lo, hi = M.conj([W, SI, EI]), M.AND(W, SI) if recovery else M.conj([W, SI, EI])
        k.need('initial states are winning and allowed', M.implies(pre, hi) is True, 'every initial state of the strategy is a winning position%s' %
               ('' if permissive else ' allowed by the system initialisation' if recovery else ' allowed by both initialisations'), lambda: 'initial states: %s' % M.show(pre, 8), loc, vals=[e.pre])
        k.need('no allowed winning initial state is missing', M.implies(lo, pre) is True,
               'every winning initial position allowed by both initialisations is an initial state', lambda: 'initial states: %s' % M.show(pre, 8), loc, vals=[e.pre])
        enum_step(k, e, ['PreInput', 'PreOutput'], whole=True)
        items = [v[1] for x, v in e.items(lambda v: v[0] == 'bf')]
        pk = [M.mk(a, 1, 0) for a in e.picks]
        k.need('initial states are stored', bool(items) and all(v in pk for v in items) if items else None,
               'each enumerated initial position becomes a state', lambda: 'stored: %s' % [M.show(v, 5) for v in items], loc)
        sr = store_rules(k, e, items)
        if sr is not None and sr[3][0] == 'obj':
            ranks = [v for _, v in sr[3][2] if v[0] == 'c']
            k.need('first goal of an initial state', None if len(ranks) != 1 else ranks[0] == ('c', 0), 'an initial state pursues a goal that exists in every specification: the first one',
                   lambda: 'starts with goal number %s' % M.showt(ranks[0], 3) if ranks else M.showt(sr[3], 4), loc)
    for e in trans:
        key = (e.rec.loc, M.show(e.pre[1], 6))
        loc = e.rec.loc
        pre = e.pre[1]
        ats = M.atoms_of(pre)
        if not any('strategyDumpingData' in deep(M, a) for a in ats):
            k.need('transitions taken from the strategy', False, 'every transition of a state belongs to the strategy of its goal',
                   lambda: 'transitions: %s' % M.show(pre, 6), loc, vals=[e.pre])
            continue
        cur = [a for a in ats if M.atoms[a][0] == 'elem' and 'strategyDumpingData' not in deep(M, a)]
        X = [a for a in ats if 'strategyDumpingData' in deep(M, a)]
        se = R.f('safetyEnv')
        if len(cur) != 1:
            op = [n for n in opaque(M, e.pre) if n not in ('loop', 'fold', 'atexit')]
            k.need('transitions start in the state at hand', None if len(cur) > 1 or op else False,
                   'the transitions of a state start in that state', lambda: 'transitions: %s' % M.show(pre, 6), loc)
            continue
        curf = M.mk(cur[0], 1, 0)
        if len(X) != 1:
            k.need('transitions taken from the strategy', False if not X else None, 'every transition of a state belongs to the strategy of its goal',
                   lambda: 'transitions: %s' % M.show(pre, 6), loc)
            continue
        Xf = M.mk(X[0], 1, 0)
        every_goal_rule(k, X[0], loc)
        k.need('transitions taken from the strategy', M.implies(pre, M.AND(curf, Xf)) is True,
               'every transition of a state belongs to the strategy of its current goal', lambda: 'transitions: %s' % M.show(pre, 6), loc, vals=[e.pre])
        k.need('no allowed input is left out', M.implies(M.conj([curf, Xf, se]), pre) is True,
               'every transition of the strategy allowed by the environment assumptions is offered', lambda: 'transitions: %s' % M.show(pre, 6), loc, vals=[e.pre])
        if not recovery:
            k.need('moves outside the assumptions are not offered', M.implies(pre, se) is True,
                   'without recovery only inputs allowed by the environment assumptions have successors', lambda: 'transitions: %s' % M.show(pre, 6), loc, vals=[e.pre])
        else:
            k.need('recovery moves are offered', eq(M, pre, M.AND(curf, Xf)), 'with recovery, inputs outside the assumptions keep their successors',
                   lambda: 'transitions: %s' % M.show(pre, 6), loc, vals=[e.pre])
        enum_step(k, e, ['PostInput', 'PostOutput'], whole=permissive)
        if not e.picks:
            continue
        pk = M.mk(e.picks[0], 1, 0)
        succ = R.M.swap(R.prepost, R.ex(['PreInput', 'PreOutput'], pk))
        items = [v[1] for x, v in e.items(lambda v: v[0] == 'bf')]
        k.need('successor state', all(eq(M, v, succ) for v in items) if items else None,
               'the successor state is the next-step valuation of the chosen transition',
               (lambda: 'stored: %s\nexpected: %s' % ([M.show(v, 6) for v in items], M.show(succ, 6))) if items else 'no stored successor recognised', loc, vals=[('bf', v) for v in items])
        trans_rules(k, e, cur[0], X[0], pk, items)
    bit_rules(k)


def every_goal_rule(k, xatom, loc):
    """the table of strategies read for a state has an entry for every goal"""
    M = k.M
    xk = M.atoms[xatom]
    if xk[0] != 'elem' or not (isinstance(xk[1], tuple) and xk[1][:1] == ('mapped',)):
        return
    _, base, dom, h, off, body = xk[1]
    size = ('size', ('cont', 'livenessGuarantees'))
    ok = dom == ('range', size) and off in (0, ('c', 0))
    k.need('a strategy for every goal', ok, 'the strategy of every goal is prepared before states are processed',
           lambda: 'prepared for %s, from entry %s on' % (M.showt(dom, 4), M.showt(off, 4) if isinstance(off, tuple) else off), loc, vals=[dom])


def deep(M, a):
    k = M.atoms[a]
    return repr(k) + ''.join(repr(M.atoms[b]) for b in M.allatoms(M.mk(a, 1, 0)))


def enum_step(k, e, cats, whole):
    """each round takes exactly the chosen element (whole) or all transitions with the chosen next input out of the set"""
    M, R, s = k.M, k.R, k.s
    loc = e.rec.loc
    if not e.picks:
        k.need('element taken out of the set', None, '', 'no element picked', loc)
        return
    ok = True
    for a in e.picks:
        arg, vec = pick_of(M, a)
        if not M.implies(arg, e.T) or M.implies(e.T, arg) is not True:
            ok = False
    k.need('element is picked from what remains', ok, 'the enumerated element is one of the remaining ones', lambda: 'picked from %s' % [M.show(pick_of(M, a)[0], 5) for a in e.picks], loc)
    want = s.mo.expand(cats)
    vecs = [pick_of(M, a)[1] for a in e.picks]
    k.need('element is a complete choice', all(frozenset(v[1]) >= want for v in vecs) if all(v[0] == 'vars' for v in vecs) else None,
           'the picked element fixes every variable of %s' % '/'.join(cats), lambda: 'fixed variables: %s' % vecs, loc)
    pk = M.mk(e.picks[0], 1, 0)
    cap = pk if whole else R.ex(['PostOutput'], pk)
    new = e.new[1]
    k.need('each round removes exactly what it handled', eq(M, new, M.AND(e.T, M.NOT(cap))),
           'one successor per %s: a round removes %s' % (('transition', 'the chosen transition') if whole else
                                                         ('state and next input', 'all transitions with the chosen input, and nothing else')),
           lambda: 'remaining: %s\nexpected: %s' % (M.show(new, 6), M.show(M.AND(e.T, M.NOT(cap)), 6)), loc, vals=[e.new])
    full = all(f[0] == 'n' for f in e.rec.flows) and M.AND(e.rec.cont, 1) == e.rec.cont
    ne = M.ex(s.mo.allcats, e.T)
    k.need('enumeration is exhaustive', e.rec.cont == ne or M.implies(ne, e.rec.cont) is True, 'the enumeration only ends when nothing is left',
           lambda: 'continues while %s' % M.show(e.rec.cont, 5), loc, vals=[('b', e.rec.cont)])


def is_hash_of(t, nodes):
    return isinstance(t, tuple) and len(t) >= 2 and t[0] == 'fun' and t[1] == 'getHashCode' and \
        any(x == ('bf', n) for n in nodes for x in t[2:])


def leaf_values(t):
    if isinstance(t, tuple) and t and t[0] == 'obj':
        for _, v in t[2]:
            yield from leaf_values(v)
    else:
        yield t


def contains(t, x):
    return any(True for _ in subterms(t, lambda y: y == x))


def cond_leaves(M, v, g=1):
    """leaves of a conditional value: (condition, value)"""
    if isinstance(v, tuple) and v and v[0] == 'iite':
        c = v[1][1] if isinstance(v[1], tuple) else v[1]
        yield from cond_leaves(M, v[2], M.AND(g, c))
        yield from cond_leaves(M, v[3], M.AND(g, M.NOT(c)))
    elif g != 0:
        yield g, v


def push_leaves(M, v, g=1):
    """leaves of a list value; conditional pushes are separated"""
    for c, x in cond_leaves(M, v, g):
        if x[0] == 'seq' and any(t[0] == 'cond' for t in x[1]):
            i = [n for n, t in enumerate(x[1]) if t[0] == 'cond'][0]
            t = x[1][i]
            b = t[1][1] if isinstance(t[1], tuple) else t[1]
            for gb, part in ((b, t[2]), (M.NOT(b), t[3])):
                part = part[1] if part and part[0] == 'seq' else part
                rest = x[1][:i] + tuple(part) + x[1][i + 1:]
                rest = rest[0][1] if len(rest) == 1 and rest[0][0] == 'all' else ('seq', rest)
                yield from push_leaves(M, rest, M.AND(c, gb))
        elif c != 0:
            yield c, x


def absent_atom(M, c, tab, key):
    """is c the condition `key is not in the table`?  True/False/None (None: not recognised)"""
    ats = list(M.atoms_of(c))
    if len(ats) != 1:
        if len(ats) > 1:
            # strictly stronger or weaker than the condition
            for a in ats:
                one = absent_atom(M, M.mk(a, 1, 0), tab, key), absent_atom(M, M.mk(a, 0, 1), tab, key)
                if True in one:
                    b = M.mk(a, 1, 0) if one[0] is True else M.mk(a, 0, 1)
                    if M.implies(c, b) is True or M.implies(b, c) is True:
                        return None if any(opaque(M, ('b', M.mk(x, 1, 0))) for x in ats if x != a) else False
        return None if ats else False
    kk = M.atoms[ats[0]]
    if kk[0] == 'cmp' and any(isinstance(x, tuple) and x[:2] == ('fun', 'count') for x in kk[2:4]):
        x = [x for x in kk[2:4] if isinstance(x, tuple) and x[:2] == ('fun', 'count')][0]
        if x[3:] != (key,) or (x[2] != tab and tab is not None):
            return False
        z = M.restrict(c, ats[0], 1)
        other = [y for y in kk[2:4] if y is not x][0]
        if kk[1] == '==' and other == ('c', 0):
            return z == 1
        if kk[1] == '<':
            if kk[2] == x and other == ('c', 1):
                return z == 1
            if kk[3] == x and other == ('c', 0):
                return z == 0
        return None if kk[1] not in ('==', '<', '<=') else False
    return None


def inverted_rule(k):
    """an enumeration that runs only when there is nothing to enumerate"""
    M, s = k.M, k.s
    for rec in s.I.looprecs:
        for l, sym, kind, pre, phi, new in rec.leafs:
            if kind != 'bf' or new is None or new == phi or new[0] not in ('bf', 'b'):
                continue
            if rec.c == M.NOT(M.ex(s.mo.allcats, phi[1])) and rec.c != 1:
                k.need('enumeration runs while something is left', False, 'an enumeration handles every element of its set',
                       lambda: 'runs while %s' % M.show(rec.c, 4), rec.loc, vals=[('b', rec.c)])


def store_rules(k, e, items, todo_keys=None, only=False):
    """creation of a state: stored, numbered with the number of states so far, registered under its own key and put on the
    work list - all exactly when the key is new.  Returns (table leaf, store leaf, work list leaf, key) or None"""
    M = k.M
    loc = e.rec.loc
    tabs, stores, works = [], [], []
    for x in e.rec.leafs:
        if x[5] is None or x[5] == x[4]:
            continue
        for g, v in push_leaves(M, x[5]):
            if v[0] == 'upd' and any(True for _ in subterms(v[2], lambda t: is_hash_of(t, items) or (t[:2] == ('fun', 'getHashCode')))):
                tabs.append((x, g, v))
            elif v[0] == 'seq' and any(len(t) == 2 and t[0] == 'item' and isinstance(t[1], tuple) for t in v[1]):
                its = [t[1] for t in v[1] if t[0] == 'item']
                if any(i[0] == 'bf' for i in its):
                    stores.append((x, g, v, its))
                else:
                    works.append((x, g, v, its))
    n = (len(tabs), len(stores), len(works))
    if n == (0, 0, 0) and not items and all(x[2] in ('b', 'it') or x[5] is None or x[5] == x[4] or x[4] == ('bf', e.T) for x in e.rec.leafs):
        k.need('new states are stored', False, 'every new state is stored, registered under its key and put on the work list', 'the enumeration does not store anything', loc)
        return None
    if n in ((0, 1, 1), (1, 0, 1)) and not any(x[5] is not None and x[5] != x[4] and x[2] not in ('b', 'it', 'bf') and x not in [y[0] for y in tabs + stores + works]
                                               for x in e.rec.leafs):
        k.need('new states are %s' % ('stored' if tabs else 'registered'), False, 'every new state is stored, registered under its key and put on the work list',
               'nothing is %s' % ('stored' if tabs else 'registered'), loc)
        return None
    if len(tabs) == 1 and len(stores) == 1 and not works:
        # processing is driven by a list that nothing is added to
        driver = [x for x in k.s.I.looprecs if x is not e.rec and any(isinstance(y[5], tuple) and y[5][:1] == ('fun',) and y[5][1] in ('pop_front', 'pop_back')
                                                                     for y in x.leafs)]
        if driver or only and not [x for x in k.s.I.looprecs if x is not e.rec and any(
                M.atoms[a][0] == 'cmp' and tabs[0][0][1] in repr(M.atoms[a]) for a in M.atoms_of(x.c))]:
            k.need('new states are processed', False, 'every new state is put on the work list with its own key', 'nothing is put on the work list', loc)
            return None
    if len(tabs) != 1 or len(stores) != 1 or len(works) != 1:
        k.need('state table', None, '', 'state table, state store and work list not recognised (%d/%d/%d updates)' % (len(tabs), len(stores), len(works)), loc)
        return None
    (tx, tg, tv), (sx, sg, sv, sits), (wx, wg, wv, wits) = tabs[0], stores[0], works[0]
    key = tv[2]
    hs = list(subterms(key, lambda t: t[:2] == ('fun', 'getHashCode')))
    k.need('table key is the state itself', all(is_hash_of(h, items) for h in hs) if items else None, 'a state is looked up under its own valuation',
           lambda: 'key %s' % M.showt(key, 6), loc)
    k.need('table value is the number of the new state', None if tv[3] == ('size', tx[4]) else tv[3] == ('size', sx[4]), 'a new state gets the next free number',
           lambda: 'value %s, expected the number of stored states' % M.showt(tv[3], 4), loc, vals=[tv[3]])
    k.need('state is stored at its number', sits == sv[1][-1][1:] or (len(sits) == 1 and sv[1][0] == ('all', sx[4]) and sv[1][-1] == ('item', sits[0])),
           'a new state is appended to the state store exactly once', lambda: M.showt(sv, 5), loc, vals=[sv])
    k.need('new states are processed', wits == [key], 'every new state is put on the work list with its own key', lambda: 'work list gets %s, key %s' % (
        [M.showt(v, 5) for v in wits], M.showt(key, 5)), loc, vals=[('seq', tuple(wits))])
    if tg == sg == wg:
        k.need('creation is one step', True, '', '')
    else:
        k.need('creation is one step', False, 'a state is registered, stored and put on the work list under the same condition',
               lambda: 'registered when %s\nstored when %s\nput on the work list when %s' % (M.show(tg, 6), M.show(sg, 6), M.show(wg, 6)), loc,
               vals=[('b', tg), ('b', sg), ('b', wg)])
    return tx, sx, wx, key, tg


def trans_rules(k, e, curatom, xatom, pk, items):
    """one transition: where it comes from, which goal is pursued next, where it leads, what is printed"""
    M, s = k.M, k.s
    loc = e.rec.loc
    # the state being processed
    cont, idx = M.atoms[curatom][1], M.atoms[curatom][2]
    popped = []
    for x in s.I.looprecs:
        pass
    heads = [t for t in subterms(idx, lambda t: len(t) >= 3 and t[0] == 'elem')]
    r = store_rules(k, e, items)
    if r is None:
        return
    tx, sx, wx, key, g = r
    # consistency with the outer work list loop
    def base(v):
        while isinstance(v, tuple) and v[:1] == ('fun',) and v[1] in ('pop_front', 'pop_back'):
            v = v[2]
        return v
    T0, S0, W0 = base(tx[3]), base(sx[3]), base(wx[3])
    pop = wx[3]
    if not (isinstance(pop, tuple) and pop[:1] == ('fun',) and pop[1] in ('pop_front', 'pop_back') and pop[2] == W0):
        k.need('work list', None, '', 'work list handling not recognised: %s' % M.showt(pop, 4), loc)
        return
    K0 = ('elem', W0, ('c', 0)) if pop[1] == 'pop_front' else ('elem', W0, M.iadd(('size', W0), ('c', -1)))
    k.need('the processed state is taken off the work list', contains(idx, K0) or contains(idx, ('fun', 'proj', K0, 'first')), 'each round handles the state it takes off the work list',
           lambda: 'state number %s, taken off: %s' % (M.showt(idx, 6), M.showt(K0, 4)), loc, vals=[idx])
    k.need('state number of the processed state', idx == ('elem', T0, K0) or None if contains(idx, K0) and not (idx[0] == 'elem' and idx[1] == T0) else idx == ('elem', T0, K0),
           'the number of a state is the one registered for it', lambda: 'state number %s' % M.showt(idx, 6), loc, vals=[idx])
    k.need('states are read from the state store', cont == S0, 'the moves of a state are computed from its own valuation', lambda: 'read from %s' % M.showt(cont, 3), loc)
    # goal of the state
    xk = M.atoms[xatom]
    rank = xk[2] if xk[0] == 'elem' else None
    isrank = rank is not None and rank[:2] == ('fun', 'proj') and rank[2] == K0
    k.need('strategy of the goal of the state', isrank, 'a state uses the strategy of the goal it was stored with',
           lambda: 'strategy of goal %s, state %s' % (M.showt(rank, 5), M.showt(K0, 4)), loc, vals=[rank] if rank else [])
    if isrank:
        comp = rank[3]
        nxt = dict(key[2]).get(comp) if key[0] == 'obj' else None
        if nxt is None:
            k.need('goal pointer', None, '', 'table key not recognised: %s' % M.showt(key, 5), loc)
        else:
            goal_rules(k, e, rank, nxt)
    ab = absent_atom(M, g, tx[4], key)
    k.need('states are created when new', ab, 'a state is created exactly if there is none with the same valuation and goal yet',
           lambda: 'created when %s' % M.show(g, 6), loc, vals=[('b', g)])
    # printed target
    n = 0
    for pc, stream, val, eloc in s.I.events:
        if not isinstance(val, tuple) or not contains(val, tx[4]):
            continue
        n += 1
        ok = True
        for c, v in cond_leaves(M, val):
            if v == ('size', sx[4]):
                ok = ok and M.implies(c, g) is True
            elif v[:1] == ('elem',) and v[1] == tx[4]:
                ok = ok and v[2] == key and M.AND(c, g) == 0
            elif v[:1] == ('elem',) and v[1] == tx[5]:
                ok = ok and v[2] == key
            else:
                ok = None
        k.need('printed successor', ok, 'the printed successor is the state registered for the chosen move', lambda: 'prints %s' % M.showt(val, 7), eloc, vals=[val])
        k.need('every successor is printed', M.implies(e.rec.entry, pc) is True, 'every chosen move is printed', lambda: 'printed when %s' % M.show(pc, 6), eloc, vals=[('b', pc)])
    if n == 0:
        ints = [(v, l) for pc, st, v, l in s.I.events if isinstance(st, tuple) and st[:1] in (('s',), ('stream',)) and isinstance(v, tuple) and M.implies(pc, e.rec.entry) is True
                and v[0] in ('uninit', 'c', 'size', 'elem') and l.split(':')[0] == loc.split(':')[0] and v[:2] != ('elem', ('cont', 'variableNames')) and v != idx]
        k.need('printed successor', False if any(v[0] == 'uninit' for v, _ in ints) else None, 'the printed successor is the state registered for the chosen move', 'no printed successor recognised', loc)
    # printed number and rank of the state
    if isrank:
        header_rule(k, idx, [rank], tx[4], loc)
    # coverage of the work list: the loop runs until it is empty
    outer = [x for x in s.I.looprecs if any(y[4] == W0 and y[5] is not None for y in x.leafs)]
    for o in outer:
        if any(y[4] == T0 for y in o.leafs) and o is not e.rec:
            c = M.cmp('==', ('c', 0), ('size', W0))
            k.need('every state is processed', True if M.implies(M.NOT(c), o.cont) is True else (None if opaque(M, ('b', o.cont)) else False),
                   'processing only ends when the work list is empty', lambda: 'continues while %s' % M.show(o.cont, 5), o.loc, vals=[('b', o.cont)])


def header_rule(k, idx, ranks, table, loc):
    """a state is printed under its own number, with its own rank"""
    M, s = k.M, k.s
    groups = {}
    for pc, stream, val, l in s.I.events:
        if isinstance(stream, tuple) and stream[:1] in (('s',), ('stream',)) and isinstance(val, tuple):
            groups.setdefault((pc, stream), []).append((val, l))
    n = 0
    for (pc, stream), vs in groups.items():
        nums = [(v, l) for v, l in vs if v[0] not in ('str', 'c') and not (v[0] == 'iite' and {v[2], v[3]} == {('str', '0'), ('str', '1')}) and
                not contains(v, table) and v[:2] != ('elem', ('cont', 'variableNames'))]
        if not any(v == idx for v, _ in nums) and not (any(v in ranks for v, _ in nums) and not any(v[0] == 'size' for v, _ in nums)):
            continue
        n += 1
        got = [v for v, _ in nums]
        k.need('printed state header', got == [idx] + list(ranks), 'a state is listed with its own number followed by its rank',
               lambda: 'prints %s' % ', '.join(M.showt(v, 5) for v in got), nums[0][1], vals=got)
    if n == 0:
        k.need('printed state header', None, '', 'state number output not recognised', loc)


def goal_rules(k, e, rank, nxt):
    """the goal pointer: starts at the goal of the state, moves to the next goal only past goals the transition satisfies"""
    M, s = k.M, k.s
    picks = set(e.picks)
    loc = e.rec.loc
    if nxt == rank or not contains(nxt, rank) or nxt[:1] == ('c',):
        lits = [t for t in subterms(nxt, lambda t: t[:1] == ('phi',) or t[:1] == ('sym',))]
        k.need('goal pointer', False, 'the goal pursued next is computed from the current goal and the goals reached', lambda: 'next goal is %s' % M.showt(nxt, 5), loc, vals=[nxt])
        return
    size = ('size', ('cont', 'livenessGuarantees'))
    goals = []
    for rec in s.I.looprecs:
        ps = set()
        for f in [rec.c, rec.cont] + [pc for _, pc, _ in rec.flows]:
            ps |= set(a for a in M.allatoms(f) if a in picks)
        if not ps:
            continue
        for x in rec.leafs:
            if x[2] == 'i' and x[5] is not None and x[5] != x[4] and (is_succ(M, x[5], x[4], size) or contains(x[5], size)):
                goals.append((rec, x, ps))
    if not goals:
        k.need('goal pointer', None, '', 'goal switching loop not recognised', loc)
        return
    for rec, x, ps in goals:
        g = x[4]
        k.need('goal pointer starts at the current goal', x[3] == rank, 'the search for the next goal starts at the goal of the state', lambda: 'starts at %s' % M.showt(x[3], 5), rec.loc, vals=[x[3]])
        k.need('goal pointer advances cyclically', is_succ(M, x[5], g, size) or None if x[5][0] not in ('add', 'fun') else is_succ(M, x[5], g, size),
               'the goal pursued next is the cyclic successor', lambda: 'next goal %s' % M.showt(x[5], 5), rec.loc)
        Gn = M.elem(('cont', 'livenessGuarantees'), g, frozenset(s.mo.contsupp(('cont', 'livenessGuarantees'))))
        p = list(ps)[0]
        sat = M.ex(s.mo.allcats, M.AND(Gn, M.mk(p, 1, 0)))
        moved = 0
        for kd, pc, f in rec.flows:
            v = f.st.env.get(x[0].key)
            for pp in x[0].path:
                v = dict(v[2]).get(pp) if isinstance(v, tuple) and v[0] == 'obj' else None
            if v is not None and v != g:
                moved = M.OR(moved, s.I.care(pc, rec.entry))
        moved = M.AND(rec.c, moved)
        k.need('goals are only skipped when satisfied', M.implies(moved, sat) is True,
               'the goal pointer only moves past goals that the chosen transition satisfies', lambda: 'advances when %s' % M.show(moved, 5), rec.loc, vals=[('b', moved)])
        first = initial(M, rec, moved)
        satf = initial(M, rec, sat)
        stop_rule(k, rec, x, rank)
        k.need('satisfied goals are switched', M.implies(satf, first) is True, 'a satisfied goal is left behind',
               lambda: 'advances in the first round when %s' % M.show(first, 5), rec.loc, vals=[('b', moved)])


def stop_rule(k, rec, x, rank):
    """the search for the next goal stops after one round through all goals"""
    M = k.M
    g = x[4]
    f = rec.cont
    for y in rec.leafs:
        if y[2] == 'b' and y[5] is not None and y[5] != y[4] and y[5][0] == 'b' and y[5][1] in (0, 1):
            for a in list(M.atoms_of(f)):
                if M.atoms[a][0] == 'phi' and M.atoms[a][1] == y[1]:
                    f = M.restrict(f, a, y[5][1])
    rest = []
    for a in list(M.atoms_of(f)):
        kk = M.atoms[a]
        if kk[0] == 'cmp' and {kk[2], kk[3]} == {g, rank}:
            f = M.restrict(f, a, 1 if kk[1] in ('==', '<=') else 0)
    own = [y[4] for y in rec.leafs if y[4] != g]
    for a in M.atoms_of(f):
        kk = M.atoms[a]
        if kk[0] in ('ex', 'elem'):
            continue
        if kk[0] == 'cmp' and g in kk[2:4] and not any(contains(kk, y) for y in own if isinstance(y, tuple)):
            continue
        return
    k.need('the search for the next goal ends', f == 0, 'after one round through all goals the search for the next goal stops, also if the transition satisfies all of them',
           lambda: 'back at the first goal, the search goes on while %s' % M.show(f, 5), rec.loc, vals=[('b', rec.cont)])


def is_succ(M, v, g, size):
    if v == ('fun', 'ar%', M.iadd(g, ('c', 1)), size):
        return True
    if v[0] == 'iite':
        c = v[1][1] if isinstance(v[1], tuple) else v[1]
        e = M.cmp('==', M.iadd(g, ('c', 1)), size)
        l = M.cmp('<', M.iadd(g, ('c', 1)), size)
        return (c == e and v[2] == ('c', 0) and v[3] == M.iadd(g, ('c', 1))) or \
            (c == M.NOT(e) and v[3] == ('c', 0) and v[2] == M.iadd(g, ('c', 1))) or \
            (c == l and v[3] == ('c', 0) and v[2] == M.iadd(g, ('c', 1)))
    return False


def initial(M, rec, f):
    """a condition of the loop as it is in the first round"""
    sm = {}
    for x in rec.leafs:
        if x[2] == 'b' and x[3] is not None and x[3][0] == 'b' and not isinstance(x[3][1], tuple):
            for a in list(M.atoms_of(f)):
                if M.atoms[a][0] == 'phi' and M.atoms[a][1] == x[1]:
                    f = M.OR(M.AND(x[3][1], M.restrict(f, a, 1)), M.AND(M.NOT(x[3][1]), M.restrict(f, a, 0)))
        elif x[2] in ('i', 'it') and x[3] is not None:
            sm[('sym', x[1])] = x[3][2] if x[2] == 'it' else x[3]
    return M.subst(f, sm, {})


def bit_rules(k, classes=('PreInput', 'PreOutput')):
    """state valuations printed: '0' exactly when the variable is false in the state"""
    M, s = k.M, k.s
    n = 0
    for pc, stream, val, loc in s.I.events:
        for v in ((val,) + val) if isinstance(val, tuple) else ():
            if isinstance(v, tuple) and len(v) == 4 and v[0] == 'iite' and {v[2], v[3]} == {('str', '0'), ('str', '1')}:
                c = v[1][1] if isinstance(v[1], tuple) else v[1]
                if v[2] == ('str', '1'):
                    c = M.NOT(c)
                # c: printed as 0
                n += 1
                ats = M.atoms_of(c)
                ok = None
                el = [a for a in M.allatoms(c) if M.atoms[a][0] == 'elem']
                if len([a for a in el if M.atoms[a][1] == ('cont', 'variables')]) == 1 and len(el) == 2:
                    # a comparison of one state with one variable, but not the right one
                    ok = False
                if len(ats) == 1:
                    a = list(ats)[0]
                    ok = isbit(M, a)
                    if ok:
                        ok = c == M.NOT(M.mk(a, 1, 0))
                k.need('printed valuation', ok, 'a variable is printed as 0 exactly when it is false in the state', lambda: 'prints 0 when %s' % M.show(c, 5), loc)
                if ok:
                    el = [b for b in M.atoms_of(M.atoms[a][2]) if M.atoms[b][0] == 'elem' and M.atoms[b][1] == ('cont', 'variables')]
                    name_rule(k, pc, stream, M.atoms[el[0]][2], loc, classes)
        if val in (('str', '0'), ('str', '1')):
            for a in M.atoms_of(pc):
                if isbit(M, a):
                    n += 1
                    f = M.mk(a, 1, 0)
                    k.need('printed valuation', M.implies(pc, f if val[1] == '1' else M.NOT(f)) is True, 'a variable is printed as 0 exactly when it is false in the state',
                           lambda: 'prints %s when %s' % (val[1], M.show(pc, 5)), loc)
    names = {}
    for pc, stream, val, loc in s.I.events:
        if isinstance(val, tuple) and val[:2] == ('elem', ('cont', 'variableNames')) and isinstance(stream, tuple) and stream[:1] in (('s',), ('stream',)):
            names.setdefault((pc, val[2]), loc)
    for (pc, idx), loc in names.items():
        class_rule(k, pc, idx, loc, classes(pc) if callable(classes) else classes)
        index_rule(k, idx, loc)
    outs = [val for pc, stream, val, loc in s.I.events if isinstance(stream, tuple) and stream[:1] in (('s',), ('stream',))]
    if not names and n:
        k.need('printed names', None if any(contains(v, ('cont', 'variableNames')) for v in outs) or not outs else False, 'the variables are listed with their names', 'no variable name is printed')
    if n == 0:
        unknown = [v for v in outs if not isinstance(v, tuple) or [n for n in opaque(M, v) if n not in ('loop', 'fold', 'atexit')]]
        k.need('printed valuation', None if unknown or not outs else False, 'a strategy lists the valuation of every state', 'no valuation is printed')


def index_rule(k, idx, loc):
    """the variables are listed from the first to the last one"""
    M, s = k.M, k.s
    ix = [x[1] for x in subterms(idx, lambda x: x[0] == 's' and len(x) == 2 and x[1] in M.ranges)]
    if len(ix) != 1:
        return
    dom = M.ranges[ix[0]]
    off = M.isub(idx, ('s', ix[0]))
    sizes = [('size', ('cont', 'variables')), ('size', ('cont', 'variableNames'))]
    ok = None
    if dom[:1] == ('range',) and off[0] == 'c':
        ok = off == ('c', 0) and dom[1] in sizes
        if not ok and off == ('c', 0) and not any(M.isub(dom[1], z)[0] == 'c' for z in sizes):
            ok = None
    k.need('all variables are listed', ok, 'variables are listed from the first to the last one', lambda: 'number %s with i in %s' % (M.showt(idx, 3), M.showt(dom, 4)), loc)


def name_rule(k, pc, stream, idx, loc, printed_classes=None):
    """the value printed for a variable stands behind the name of the same variable"""
    M, s = k.M, k.s
    syms = [t for t in subterms(idx, lambda t: t[0] == 's')]
    nm = [(p, v) for p, st, v, l in s.I.events if st == stream and p == pc and isinstance(v, tuple) and v[:2] == ('elem', ('cont', 'variableNames'))]
    if not nm:
        return
    k.need('printed name', any(v[2] == idx for p, v in nm), 'the value of a variable is printed behind its own name', lambda: 'value of variable %s behind the name of %s' % (
        M.showt(idx, 3), M.showt(nm[-1][1][2], 3)), loc, vals=[nm[-1][1]])
    if printed_classes:
        class_rule(k, pc, idx, loc, printed_classes(pc) if callable(printed_classes) else printed_classes)


def class_rule(k, pc, idx, loc, want):
    """the variables printed are exactly those of the wanted categories"""
    M, s = k.M, k.s
    en = s.P.enums
    reg = s.mo.reg
    kinds = {}
    for a in M.atoms_of(pc):
        kk = M.atoms[a]
        if kk[0] == 'cmp' and any(isinstance(t, tuple) and t[:2] == ('fun', 'count') and t[2] == ('elem', ('cont', 'variableTypesAll'), idx) for t in kk[2:4]):
            t = [t for t in kk[2:4] if isinstance(t, tuple) and t[:2] == ('fun', 'count')][0]
            cat = [n for n, v in en.items() if ('c', v) == t[3] and n in reg.parent or ('c', v) == t[3] and n in reg.parent.values()]
            if len(cat) != 1:
                return
            yes = kk[1:] in (('<', ('c', 0), t), ('<=', ('c', 1), t)) or kk[1:] == ('!=', ('c', 0), t)
            no = kk[1:] == ('==', ('c', 0), t)
            if not yes and not no:
                return
            kinds[a] = (cat[0], yes)
        elif contains(kk, ('cont', 'variableTypes')) or contains(kk, ('cont', 'variableTypesAll')):
            return
    out = []
    for c in ('PreInput', 'PreOutput', 'PostInput', 'PostOutput'):
        up = {c}
        x = c
        while x in reg.parent and len(up) < 20:
            x = reg.parent[x]
            up.add(x)
        f = pc
        for a, (cat, yes) in kinds.items():
            f = M.restrict(f, a, 1 if (cat in up) == yes else 0)
        if f != 0:
            out.append(c)
    k.need('printed variables', sorted(out) == sorted(want), 'the valuation printed for a state covers exactly the variables of %s' % '/'.join(want), lambda: 'prints the variables of %s' % '/'.join(out), loc)


def isbit(M, a):
    kk = M.atoms[a]
    if kk[0] != 'ex':
        return False
    el = [b for b in M.atoms_of(kk[2])]
    vs = [b for b in el if M.atoms[b][0] == 'elem' and M.atoms[b][1] == ('cont', 'variables')]
    return len(vs) == 1 and len(el) == 2 and kk[2] == M.conj([M.mk(b, 1, 0) for b in el])

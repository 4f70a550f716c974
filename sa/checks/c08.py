"""C08: symbolic strategies."""
from .extract import *
from ..engine import ADDVAR_HOOKS


def sym_session(cls):
    h = dict(PICK_HOOKS)
    h.update(ADDVAR_HOOKS)
    s = exec_session(cls, 'execute', hooks=h)
    s.M.facts.append(pick_facts)
    return s


def check(r, tier):
    P = program()
    r.rule('the exported BDD is, for each goal i, (counter = i) & (merged ranked moves of goal i) & (goal switching), compared as '
           'value numbers; the ranked moves are merged in order; the counter has enough bits; every variable is exported with its name')
    n = 0
    for c in combos(P):
        if c.cls is None or not any(o in ('--symbolicStrategy', '--simpleSymbolicStrategy') for o in c.opts):
            continue
        f = P.find_method(c.cls, 'execute')
        s = sym_session(c.cls)
        k = Checker(r, s, c.params, locof(P, f))
        r.listed('functions', s.functions())
        one(k, flat='--simpleSymbolicStrategy' in c.opts)
        n += 1
    if not n:
        raise AnalysisBroken('no symbolic strategy modes')


def offset(t):
    """t = size(c) + k -> k"""
    if t[0] == 'size':
        return 0
    if t[0] == 'add':
        cs = [x for x in t[1:] if isinstance(x, tuple) and x[0] == 'c'] or [('c', x) for x in t[1:] if isinstance(x, int)]
        if len(cs) == 1 and any(isinstance(x, tuple) and x[0] == 'size' for x in t[1:]):
            return cs[0][1]
    return None


def linear(M, t, i, n):
    """t = a*i + b*n + c"""
    c, d = M.lin(t)[0], M.lin(t)[1]
    if not isinstance(d, dict):
        c, d = d, c
    d = dict(d)
    a, b = d.pop(i, 0), d.pop(n, 0)
    return (a, b, c) if not d else None


def bits_enough(M, cont, i, n):
    """does the continuation condition hold whenever i < n (i >= 1)?"""
    at = list(M.atoms_of(cont)) if cont > 1 else []
    if len(at) != 1 or M.atoms[at[0]][0] != 'cmp':
        return None
    k = M.atoms[at[0]]
    pos = M.restrict(cont, at[0], 1) == 1
    if k[1] != '<':
        return False if k[1] == '==' and pos else None
    l, r = linear(M, k[2], i, n), linear(M, k[3], i, n)
    if l is None or r is None:
        return None
    # a*i < b*n + c
    a, b, c = l[0] - r[0], r[1] - l[1], r[2] - l[2]
    if not pos:
        a, b, c = -a, -b, 1 - c
    if a <= 0 or b <= 0:
        return None
    return a < b and c >= 0 or a == b and -a < c


def primed(name):
    return name[0] in ('cat', 'str', 'fun') and ((name[0] == 'str' and name[1].endswith("'")) or
                                                  (name[0] != 'str' and isinstance(name[-1], tuple) and name[-1][0] == 'str' and name[-1][1].endswith("'")))


def one(k, flat):
    s, M, R, I = k.s, k.M, k.R, k.s.I
    merges = check_strategy_choice(k)
    if not merges:
        k.need('ranked moves', None, '', 'merge of ranked moves not recognised')
    sizeG = ('size', ('cont', 'livenessGuarantees'))
    # ---- combination loop
    cand = []
    for rec in I.looprecs:
        for x in rec.leafs:
            if x[2] != 'bf' or x[5] is None or x[3] != ('bf', 0):
                continue
            X = [a for a in M.atoms_of(x[5][1]) if M.atoms[a][0] in ('elem', 'fun') and M.atoms[a][1] != 'proj' and 'strategyDumpingData' in repr(M.atoms[a]) + ''.join(
                repr(M.atoms[b]) for b in M.allatoms(M.mk(a, 1, 0)))]
            if X and rec not in merges:
                cand.append((rec, x, X))
    if len(cand) != 1 or len(cand[0][2]) != 1:
        k.need('combination of the goals', None, '', 'loop that combines the strategies of the goals not recognised')
        return
    rec, x, X = cand[0]
    X = X[0]
    new = x[5][1]
    phia = [a for a in M.atoms_of(new) if M.atoms[a][0] == 'phi' and M.atoms[a][1] == x[1]]
    if len(phia) != 1:
        k.need('combination of the goals', False, 'the strategies of all goals are collected', lambda: M.show(new, 6), rec.loc, vals=[x[5]])
        return
    F = M.restrict(new, phia[0], 0)
    k.need('all goals are collected', M.restrict(new, phia[0], 1) == 1, 'the strategies of all goals are collected', lambda: M.show(new, 6), rec.loc, vals=[x[5]])
    idx = [y for y in rec.leafs if y[2] == 'i' and y[5] is not None and y[5] == M.iadd(y[4], ('c', 1))]
    if len(idx) != 1:
        k.need('combination covers every goal', None, '', 'loop index not recognised', rec.loc)
        return
    i = idx[0][4]
    k.need('combination covers every goal', idx[0][3] == ('c', 0) and M.implies(M.cmp('<', i, sizeG), rec.cont) is True and all(f[0] == 'n' for f in rec.flows),
           'every goal contributes to the exported strategy', lambda: 'from %s while %s' % (M.showt(idx[0][3], 3), M.show(rec.cont, 4)), rec.loc, vals=[('b', rec.cont)])
    xk = M.atoms[X]
    k.need('strategy of the goal', xk[0] != 'elem' or xk[2] == i, 'under counter value i the moves of goal i are exported', lambda: M.show(M.mk(X, 1, 0), 3), rec.loc)
    # ---- counter variables
    Ks, V = {}, None
    for a in M.allatoms(F):
        kk = M.atoms[a]
        if kk[0] == 'elem' and isinstance(kk[2], tuple) and kk[2][0] == 'elem':
            Ks.setdefault(kk[2][1], set()).add(a)
            V = kk
    adds = [e for e in I.events if e[1] == 'call:addVariable']
    named = {}
    for e in adds:
        o = offset(e[2][2])
        named.setdefault(o, e[2][1])
    pre, post = [], []
    for K in Ks:
        news = K[4] if K[0] == 'fun' and K[1] == 'loop' else ()
        o = None
        if news and news[0][0] == 'seq' and news[0][1] and news[0][1][-1][0] == 'item':
            o = offset(news[0][1][-1][1])
        if o is None or o not in named:
            k.need('counter variables', None, '', 'counter variables not recognised: %s' % M.showt(K, 3), rec.loc)
            return
        (post if primed(named[o]) else pre).append(K)
    if len(pre) != 1 or len(post) != (1 if flat else 0):
        k.need('counter variables', False if Ks else None, 'the goal counter is %s' % ('encoded before and after the step' if flat else 'encoded'),
               lambda: 'counters used: %d current, %d next' % (len(pre), len(post)), rec.loc, vals=[('bf', F)])
        return
    alls = pre + post
    doms = [('range', ('size', K)) for K in alls]
    used = set()
    for a in M.allatoms(F):
        kk = M.atoms[a]
        if kk[0] == 'big' and any(M.atoms[b][0] == 'elem' and any(M.atoms[b][2][1:2] == (K,) for K in alls) for b in M.allatoms(kk[3]) if isinstance(M.atoms[b][2], tuple)):
            used.add(kk[1])
    if not used <= set(doms):
        k.need('counter encoding', False, 'every counter bit is encoded', lambda: 'loops over %s' % [M.showt(u, 4) for u in used], rec.loc, vals=[('bf', F)])
        return
    dom = list(used)[0] if len(used) == 1 else None
    if dom is None:
        k.need('counter encoding', None, '', 'loops over counter bits differ', rec.loc)
        return

    def enc(K, val):
        sym = M.fresh('enc')
        j = ('s', sym)
        bit = I.tobool(I.arith('&', val, ('fun', 'ar<<', ('c', 1), j)))
        v = M.elem(V[1], ('elem', K, j), V[3]) if len(V) > 3 else None
        return M.NOT(M.mkbig(dom, sym, M.NOT(M.IFF(bit, v))))
    G = R.M.elem(('cont', 'livenessGuarantees'), i, frozenset(s.mo.contsupp(('cont', 'livenessGuarantees'))))
    Xf = M.mk(X, 1, 0)
    if flat:
        def flatref(go):
            return M.conj([enc(pre[0], i), Xf, M.OR(M.AND(go, G), M.AND(enc(post[0], i), M.NOT(G)))])
        nxt = M.iadd(i, ('c', 1))
        ref = flatref(enc(post[0], ('fun', 'ar%', nxt, sizeG)))
        for last in (M.cmp('==', nxt, sizeG), M.NOT(M.cmp('<', nxt, sizeG))):
            alt = flatref(M.ite(last, enc(post[0], ('c', 0)), enc(post[0], nxt)))
            if eq(M, F, alt):
                ref = alt
        rule = 'counter = i, a move of goal i, and the next counter is i+1 (cyclically) if the move satisfies goal i and i otherwise'
    else:
        sel = [a for a in M.atoms_of(F) if M.atoms[a][0] == 'base' and isinstance(M.atoms[a][1], tuple) and M.atoms[a][1][0] == 'newvar']
        if len(sel) != 1:
            k.need('goal transition selector', None, '', 'selector variable not recognised', rec.loc)
            return
        ref = M.conj([enc(pre[0], i), Xf, M.OR(M.NOT(M.mk(sel[0], 1, 0)), G)])
        rule = 'counter = i, a move of goal i, and the goal-reached marker only on moves satisfying goal i'
    k.need('moves are moves of the goal at hand', M.implies(F, M.AND(Xf, enc(pre[0], i))) is True, 'under counter value i only moves of goal i are exported',
           lambda: M.show(F, 8), rec.loc, vals=[('bf', F)])
    k.need('goal switching', eq(M, F, ref), rule, lambda: 'computed %s\nexpected %s' % (M.show(F, 8), M.show(ref, 8)), rec.loc, vals=[('bf', F)])
    # ---- counter width
    wr = [q for q in I.looprecs if any(e[3].rsplit(':', 1)[0] == q.loc.rsplit(':', 1)[0] for e in adds) and any(
        y[5] is not None and y[5][:2] in (('fun', 'ar<<'), ('fun', 'ar*'), ('mul',)) or (y[5] is not None and y[2] == 'i' and y[5] == M.iadd(y[4], y[4])) for y in q.leafs)]
    ok, det = None, 'counter width loop not recognised'
    for q in wr:
        for y in q.leafs:
            if y[2] != 'i' or y[5] is None:
                continue
            dbl = y[5] in (('fun', 'ar<<', y[4], ('c', 1)), ('fun', 'ar*', y[4], ('c', 2)), M.iadd(y[4], y[4]))
            if not dbl:
                continue
            enough = bits_enough(M, q.cont, y[4], sizeG)
            if y[3] == ('c', 1) and enough:
                ok = True
            elif y[3][0] == 'c' and enough is not None:
                ok, det = False, 'bits are added starting with %s while %s' % (M.showt(y[3], 3), M.show(q.cont, 4))
    k.need('counter has enough bits', ok, 'different goals have different counter values', det, vals=[('b', q.cont) for q in wr])
    # ---- export
    outs = [e for e in I.events if e[1] == 'mgr.writeBDDToFile']
    if len(outs) != 1:
        k.need('export', None if len(outs) else False, 'the strategy is written to the output file', 'writes: %d' % len(outs))
        return
    e = outs[0]
    a = e[2]
    pv = rec.post.get(x[1], ())
    whole = pv[0][1] if len(pv) == 1 and pv[0] is not None and pv[0][0] == 'bf' else None
    bdd = [v for v in a if v[0] in ('bf', 'b')]
    k.need('exported strategy', eq(M, M.AND(e[0], bdd[0][1]), M.AND(e[0], whole)) if len(bdd) == 1 and whole is not None else None, 'the exported BDD is the combination over all goals',
           lambda: 'exported %s' % M.show(bdd[0][1], 6), e[3], vals=bdd)
    real = R.flag('realizable')
    fv = [v for v in a if v[0] in ('seq', 'cont', 'csym') or v[0] == 'fun']
    vl = s.field('variables')
    nl = s.field('variableNames')
    vs2 = [v for v in a if same_cont(v, vl)]
    ns2 = [v for v in a if same_cont(v, nl)]
    k.need('exported variables', True if vs2 and ns2 and a.index(vs2[0]) < a.index(ns2[0]) else None, 'all variables are exported with their names', 'argument lists not recognised', e[3])
    # header: number and name of every variable
    ev = [(pc, v, l) for pc, st_, v, l in I.events if isinstance(v, tuple) and v[:1] == ('elem',) and same_cont(v[1], nl)]
    k.need('variable table', True if ev else None, '', 'variable table output not recognised', e[3])
    for pc, v, l in ev:
        nums = [1 for pc2, st2, v2, l2 in I.events if v2 == v[2] and l2 == l]
        k.need('variable table names the right variable', bool(nums), 'each variable number is listed with its own name',
               lambda: 'name %s printed without its number' % M.showt(v, 4), l)


def same_cont(a, b):
    """same list value (ignoring which branch of the run it is read in)"""
    if a == b:
        return True
    if isinstance(b, tuple) and b and b[0] == 'iite':
        return same_cont(a, b[2]) or same_cont(a, b[3])
    return False

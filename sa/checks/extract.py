"""Rules shared by the strategy extraction checks (C05, C07, C08, C09): how enumeration loops, state tables and goal
pointers of an extraction are recognised in the analysed program (by their role, never by name)."""
from ..engine import exec_session, program, combos, PICK_HOOKS, pick_facts
from ..load import AnalysisBroken
from ..canon import opaque
from ..terms import EMPTY
from .verdict import locof


def session(cls, method='execute'):
    s = exec_session(cls, method, hooks=PICK_HOOKS)
    s.M.facts.append(pick_facts)
    return s


def subterms(t, pred, seen=None):
    """subterms satisfying pred (formula nodes are not entered)"""
    seen = set() if seen is None else seen
    if not isinstance(t, tuple) or t in seen:
        return
    seen.add(t)
    if pred(t):
        yield t
    if len(t) == 2 and t[0] in ('bf', 'b') and isinstance(t[1], int):
        return
    for x in t:
        yield from subterms(x, pred, seen)


def own_subterms(t, pred, seen=None):
    """like subterms, but does not enter summaries of inner loops"""
    seen = set() if seen is None else seen
    if not isinstance(t, tuple) or t in seen:
        return
    seen.add(t)
    if pred(t):
        yield t
    if len(t) == 2 and t[0] in ('bf', 'b') and isinstance(t[1], int):
        return
    if len(t) > 1 and t[0] == 'fun' and t[1] in ('loop', 'fold', 'fix', 'atexit'):
        return
    for x in t:
        yield from own_subterms(x, pred, seen)


class Enum:
    """a loop that enumerates a set: runs while T is not empty, takes elements out of T"""

    def __init__(self, rec, leaf, picks):
        self.rec = rec
        self.l, self.sym, self.kind, self.pre, self.phi, self.new = leaf
        self.T = self.phi[1]
        self.picks = picks            # atoms pick(arg, vars)

    def items(self, pred=lambda v: True):
        out = []
        for x in self.rec.leafs:
            if x[5] is None or x is None:
                continue
            for t in own_subterms(x[5], lambda t: len(t) == 2 and t[0] == 'item' and isinstance(t[1], tuple)):
                if pred(t[1]):
                    out.append((x, t[1]))
        return out

    def updates(self):
        out = []
        for x in self.rec.leafs:
            if x[5] is None:
                continue
            for t in own_subterms(x[5], lambda t: len(t) == 4 and t[0] == 'upd'):
                out.append((x, t))
        return out


def enums(s):
    M = s.M
    out = []
    for rec in s.I.looprecs:
        for leaf in rec.leafs:
            l, sym, kind, pre, phi, new = leaf
            if kind != 'bf' or new is None or new == phi or new[0] not in ('bf', 'b'):
                continue
            ne = M.ex(s.mo.allcats, phi[1])
            if M.AND(rec.cont, M.NOT(ne)) != 0:
                # non-emptiness of a part of the set
                continue
            picks = [a for a in M.allatoms(new[1]) if M.atoms[a][0] == 'fun' and M.atoms[a][1] == 'pick']
            out.append(Enum(rec, leaf, picks))
    return out


def guarded_enums(s):
    """loops whose condition is that some part of a set is not empty: (rec, leaf, part)"""
    M = s.M
    out = []
    for rec in s.I.looprecs:
        for leaf in rec.leafs:
            l, sym, kind, pre, phi, new = leaf
            if kind != 'bf' or new is None or new == phi or new[0] not in ('bf', 'b'):
                continue
            for a in M.atoms_of(rec.cont):
                k = M.atoms[a]
                if k[0] == 'ex' and ('phi', sym) in M.symbols(k[2]) and M.AND(rec.cont, M.NOT(M.mk(a, 1, 0))) == 0 and \
                        not k[1] < s.M.supp(k[2]):
                    picks = [b for b in M.allatoms(new[1]) if M.atoms[b][0] == 'fun' and M.atoms[b][1] == 'pick']
                    e = Enum(rec, leaf, picks)
                    e.part = k[2]
                    out.append(e)
    return out


def pick_of(M, a):
    k = M.atoms[a]
    return k[2][0][1], k[2][1]


def eq(M, a, b):
    return a == b or (M.implies(a, b) and M.implies(b, a))


def is_state_elem(M, a, states):
    k = M.atoms[a]
    return k[0] == 'elem' and k[1] in states


def is_rank(t, cur):
    return t


class Checker:
    """collects obligations for one mode"""

    def __init__(self, r, s, name, where):
        self.r, self.s, self.M, self.R = r, s, s.M, s.R
        self.name, self.where = name, where

    def need(self, what, ok, rule, detail, loc=None, key=None, vals=()):
        nm = '%s: %s' % (self.name, what)
        loc = loc or self.where
        if ok is True:
            self.r.ok(nm, loc)
            return True
        if ok is None:
            self.r.undec(nm, detail if isinstance(detail, str) else detail(), loc)
            return None
        op = {}
        for v in vals:
            op.update(opaque(self.M, v))
        op = {k: n for k, n in op.items() if k not in ('loop', 'fold', 'atexit')}
        if op:
            self.r.undec(nm, 'value contains parts the analysis does not model: %s' % sorted(op)[:5], loc)
            return None
        self.r.violation(key or nm, loc, rule, detail if isinstance(detail, str) else detail())
        return False


def direct_ranked(M, f):
    """ranked-set entries read in this iteration itself, not inside nested summaries"""
    out = set()
    for a in M.atoms_of(f):
        k = M.atoms[a]
        if k[0] == 'fun' and k[1] == 'proj' and 'strategyDumpingData' in str(k[2]):
            out.add(a)
        elif k[0] == 'ex':
            out |= direct_ranked(M, k[2])
    return out


def check_strategy_choice(c, permissive=False):
    """the loop that merges the ranked transition sets of one goal into one strategy: earlier sets win.
    Returns the records recognised"""
    s, M, R = c.s, c.M, c.R
    found = []
    for rec in s.I.looprecs:
        bfs = [x for x in rec.leafs if x[2] == 'bf' and x[5] is not None]
        idx = [x for x in rec.leafs if x[2] in ('i', 'it')]
        fs = set()
        for x in bfs:
            fs |= direct_ranked(M, x[5][1])
        if not fs or not bfs:
            continue
        if any(y.loc != rec.loc and 0 for y in found):
            continue
        found.append(rec)
        nm = 'ranked transitions merged in order at %s' % rec.loc.split(':')[0]
        base = set(M.mk(a, 1, 0) for a in fs if not M.atoms[a][4])
        if len(base) != 1 or len(idx) < 1:
            c.need(nm, None, '', 'merge of ranked transitions not recognised', rec.loc)
            continue
        f = base.pop()
        # guard: the entry belongs to the goal at hand
        gats = set()
        for x in bfs:
            gats |= set(a for a in M.atoms_of(x[5][1]) if M.atoms[a][0] == 'cmp')
        if not gats and not any(M.atoms[a][0] in ('fun', 'cmp', 'phi') and not M.supp(M.mk(a, 1, 0)) for x in bfs for a in M.atoms_of(x[5][1])):
            c.need(nm, False, 'a strategy only contains ranked transitions of its goal', lambda: 'taken unconditionally: ' + '; '.join(
                '%s := %s' % (x[1], M.show(x[5][1], 6)) for x in bfs), rec.loc, vals=[x[5] for x in bfs])
            continue
        if len(gats) != 1:
            c.need(nm, None, '', 'guard of the merge not recognised (%d comparisons)' % len(gats), rec.loc)
            continue
        ga = gats.pop()
        gk = M.atoms[ga]
        if not (gk[1] == '==' and 'strategyDumpingData' in str(gk)):
            c.need(nm, None, '', 'guard of the merge not recognised', rec.loc)
            continue
        full = all(k in ('n',) for k, _, _ in rec.flows) and rec.cont == rec.c
        if full:
            full = whole_list(M, rec, idx)
        c.need('all ranked transition sets considered', full, 'every ranked transition set takes part in the strategy of its goal',
               'the loop can end before the list of ranked sets is exhausted', rec.loc)
        st = covr = None
        exf = R.ex(['PostOutput'], f)
        for x in bfs:
            n1 = M.restrict(x[5][1], ga, 1)
            n0 = M.restrict(x[5][1], ga, 0)
            if n0 != x[4][1]:
                continue
            if x[3] != ('bf', 0) and M.implies(n1, M.OR(x[4][1], exf)):
                c.need(nm + ' (start)', False, 'the strategy of a goal is collected from nothing: no transition is taken and no case counts as covered before '
                       'the ranked sets are read', lambda: '%s starts as %s' % (x[1], M.showt(x[3], 4)), rec.loc, vals=[x[3]])
                continue
            if x[3] != ('bf', 0):
                continue
            others = [y for y in bfs if y is not x]
            if eq(M, n1, M.OR(x[4][1], exf)):
                covr = x
            elif M.implies(n1, M.OR(x[4][1], f)):
                st = x
        yield_rec = rec
        if permissive:
            check_permissive_merge(c, rec, bfs, ga, f, nm)
            continue
        if st is None:
            c.need(nm, False if all(M.restrict(x[5][1], ga, 0) == x[4][1] for x in bfs) or all(
                M.restrict(x[5][1], ga, 1) == x[4][1] for x in bfs) else None,
                   'a strategy only contains ranked transitions of its goal',
                   lambda: '; '.join('%s := %s' % (x[1], M.show(x[5][1], 6)) for x in bfs), rec.loc, vals=[x[5] for x in bfs])
            continue
        n1 = M.restrict(st[5][1], ga, 1)
        if covr is None:
            # coverage may be derived from the strategy itself
            ref = M.OR(st[4][1], M.AND(f, M.NOT(R.ex(['PostOutput'], st[4][1]))))
        else:
            ref = M.OR(st[4][1], M.AND(f, M.NOT(covr[4][1])))
        c.need(nm, eq(M, n1, ref), 'per position and next input, the strategy of a goal consists of the transitions of the earliest ranked set that '
               'has any', lambda: 'strategy := %s\nexpected %s' % (M.show(n1, 6), M.show(ref, 6)), rec.loc, vals=[st[5]])
    return found


def whole_list(M, rec, idx):
    """does the loop run from the first to the last ranked set?"""
    size = ('size', ('cont', 'strategyDumpingData'))
    for x in idx:
        v = x[4][2] if x[2] == 'it' else x[4]
        for a in M.atoms_of(rec.c):
            kk = M.atoms[a]
            if kk[0] == 'cmp' and {kk[2], kk[3]} == {v, size}:
                start = x[3][2] if x[2] == 'it' else x[3]
                if start != ('c', 0):
                    return False if start[0] == 'c' else None
                step = x[5][2] if x[2] == 'it' else x[5]
                if step != M.iadd(v, ('c', 1)):
                    return False
                return rec.c in (M.cmp('<', v, size), M.NOT(M.cmp('==', v, size)))
    return True


def endless_rule(c):
    """a loop that does not change anything its condition depends on must not run"""
    M = c.M
    for rec in c.s.I.looprecs:
        if rec.c in (0, None) or not rec.flows or any(kd != 'n' for kd, _, _ in rec.flows):
            continue
        syms = set(M.symbols(rec.c))
        if any(x[5] is not None and x[5] != x[4] and (x[4] in syms or ('phi', x[1]) in syms or any(
                contains_sym(M, a, x[1]) for a in M.allatoms(rec.c))) for x in rec.leafs):
            continue
        if rec.cont != rec.c:
            continue
        run = rec.c if rec.entry is None else M.AND(rec.c, rec.entry)
        if run == 0 or rec.c == 1 or not rec.leafs:
            continue
        if [n for n in opaque(M, ('b', rec.c)) if n not in ('loop', 'fold', 'atexit')] or any(M.atoms[a][0] == 'fun' for a in M.atoms_of(rec.c)):
            continue
        c.need('loop comes to an end', False, 'an enumeration loop takes something away from what it enumerates', lambda: 'runs while %s, and changes nothing of it' % M.show(rec.c, 5), rec.loc)


def contains_sym(M, a, sym):
    return sym in repr(M.atoms[a])


def check_permissive_merge(c, rec, bfs, ga, f, nm):
    M, R = c.M, c.R
    if any(M.restrict(x[5][1], ga, 0) != x[4][1] for x in bfs) and all(M.restrict(x[5][1], ga, 1) == x[4][1] for x in bfs):
        c.need(nm, False, 'a strategy only contains ranked transitions of its goal', lambda: 'the sets of the other goals are merged instead: ' + '; '.join(
            '%s := %s' % (x[1], M.show(M.restrict(x[5][1], ga, 0), 6)) for x in bfs), rec.loc, vals=[x[5] for x in bfs])
        return
    # the collected strategy is the one that nothing else is computed from
    read = lambda x: any(any(a in M.allatoms(y[5][1]) for a in M.atoms_of(x[4][1])) for y in bfs if y is not x)
    st = [x for x in bfs if x[5] != x[4] and not read(x)]
    if len(st) > 1:
        st = [x for x in st if x[3] == ('bf', 0) and M.implies(M.restrict(x[5][1], ga, 1), M.OR(x[4][1], f))]
    if len(st) != 1:
        c.need(nm, None, '', 'permissive merge not recognised', rec.loc)
        return
    st = st[0]
    n1 = M.restrict(st[5][1], ga, 1)
    rest = [x for x in bfs if x is not st]
    text = 'the permissive strategy of a goal collects ranked transitions of a position until every input the assumptions allow has one'
    for x in bfs:
        if x[3] == ('bf', 1):
            c.need(nm + ' (start)', False, text, lambda: '%s starts with everything' % x[1], rec.loc, vals=[x[3]])
            return
    ok = False
    for cv in rest:
        if eq(M, n1, M.OR(st[4][1], M.AND(f, M.NOT(cv[4][1])))):
            # positions become fixed once all inputs allowed by the assumptions are covered
            m1 = M.restrict(cv[5][1], ga, 1)
            for ic in rest:
                if ic is cv:
                    continue
                k1 = M.restrict(ic[5][1], ga, 1)
                k3 = R.ex(['PostOutput'], f)
                k2 = M.OR(ic[4][1], M.AND(k3, M.NOT(cv[4][1])))
                exp = R.all_(['PostInput'], M.OR(M.NOT(R.f('safetyEnv')), k1))
                # what is recorded for positions that are fixed already does not matter
                if M.implies(k2, k1) is True and M.implies(k1, M.OR(ic[4][1], k3)) is True and (eq(M, m1, exp) or eq(M, m1, M.OR(exp, cv[4][1]))):
                    ok = True
    if ok and any(x[3] != ('bf', 0) for x in bfs):
        ok = None
    if not ok and len(rest) != 2:
        ok = None
    c.need(nm, ok, text, lambda: '; '.join('%s := %s' % (x[1], M.show(x[5][1], 6)) for x in bfs), rec.loc, vals=[x[5] for x in bfs])


def check_determinize(r, P, name='GR1Context::determinize'):
    """contract of the helper that picks one valuation: result is a part of the set, decided in each given variable"""
    from ..engine import Session
    s = Session(P, 'GR1Context')
    f = P.find_method('GR1Context', name.split('::')[1])
    if f is None:
        raise AnalysisBroken('no method %s' % name)
    s.fn = f
    M, I = s.M, s.I
    st, ret = I.run(f)
    c = Checker(r, s, name.split('::')[1], locof(P, f))
    recs = [x for x in I.looprecs if any(y[2] == 'bf' for y in x.leafs)]
    if len(recs) != 1:
        c.need('picks an element of the set', None, '', 'loop not recognised')
        return
    rec = recs[0]
    bfs = [x for x in rec.leafs if x[2] == 'bf' and x[5] is not None and x[5] != x[4]]
    if len(bfs) != 1:
        c.need('picks an element of the set', None, '', 'loop not recognised')
        return
    T, new = bfs[0][4][1], bfs[0][5][1]
    ats = [a for a in M.allatoms(new) if M.atoms[a][0] == 'elem']
    vs = set(a for a in ats)
    rnd = [a for a in M.atoms_of(new) if M.atoms[a][0] in ('cmp', 'fun')]
    if len(vs) != 1:
        c.need('picks an element of the set', None, '', 'loop body not recognised: %s' % M.show(new, 5), rec.loc)
        return
    v = M.mk(vs.pop(), 1, 0)
    conds = [a for a in M.atoms_of(new) if not M.supp(M.mk(a, 1, 0))]
    import itertools
    ok, why = True, ''
    if len(conds) > 6:
        ok = None
    else:
        for vals in itertools.product((0, 1), repeat=len(conds)):
            n, g = new, 1
            for a, x in zip(conds, vals):
                n = M.restrict(n, a, x)
                g = M.AND(g, M.mk(a, 1, 0) if x else M.NOT(M.mk(a, 1, 0)))
            pos, neg = M.AND(T, v), M.AND(T, M.NOT(v))
            ne = {pos: M.ex(s.mo.allcats, pos), neg: M.ex(s.mo.allcats, neg)}
            if M.AND(g, M.OR(ne[pos], ne[neg])) == 0:
                continue
            if n not in (pos, neg):
                ok, why = False, 'under %s the set becomes %s' % (M.show(g, 4), M.show(n, 4))
                break
            other = neg if n == pos else pos
            # chosen part may only be empty if the whole set is
            if M.implies(M.AND(g, ne[other]), ne[n]) is not True:
                ok, why = False, 'the chosen half can be empty although the set is not (under %s)' % M.show(g, 4)
                break
    c.need('picks one non-empty half per variable', ok, 'the set is restricted to one value of every given variable without becoming empty', why, rec.loc, vals=[('bf', new)])
    full = all(k == 'n' for k, _, _ in rec.flows)
    idx = [x for x in rec.leafs if x[2] in ('i', 'it')]
    zero = all((x[3][2] if x[2] == 'it' else x[3]) == ('c', 0) for x in idx if x[5] is not None)
    c.need('decides every given variable', full and zero, 'every given variable is decided', 'the loop skips variables', rec.loc)
    rv = ret[1] if ret and ret[0] == 'bf' else None
    c.need('returns the restricted set', rv is not None and rv != 0 and bfs[0][1] and any(
        M.atoms[a][0] in ('fun',) for a in M.atoms_of(rv)), 'the restricted set is returned', 'returns %s' % (M.show(rv, 4) if rv is not None else ret), locof(P, f))
    r.listed('functions', s.functions() or [f['q']])

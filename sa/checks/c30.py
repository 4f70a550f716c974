"""C30: which outputs can be set before the input is known."""
import itertools
from .verdict import *
from ..engine import *
from ..terms import EMPTY

RULE = {'game': 'winning region = nu Z. AND_j mu Y. OR_i nu X. some early outputs such that for all next inputs some late outputs make (assumptions -> safe moves) true',
        'start': 'before the analysis every output is set after the input is read',
        'fresh': 'the game is solved for the present choice of early outputs',
        'keep': 'an output becomes an early one exactly if the specification stays realizable with it and the ones found before',
        'restore': 'an output that cannot be set early is treated as a late one again',
        'list': 'the list contains exactly the early outputs', 'say': 'the message fits the result'}

TYPES = ('F', 'SlugsVariableManager', 'variableTypes')
GROUPS = ('F', 'SlugsVariableManager', '__groups')


def check(r, tier):
    P = program()
    r.rule('interpretation of the realizability check of --analyzeInterleaving against the game with early outputs; abstract run of the analysis with the verdict as a function of the '
           'choice of early outputs: initial choice, step of the search and the printed list')
    cs = sorted({(c.params, c.cls) for c in combos(P) if '--analyzeInterleaving' in c.opts and c.cls})
    if not cs:
        raise AnalysisBroken('--analyzeInterleaving not found')
    done = set()
    for name, cls in cs:
        if cls in done:
            continue
        done.add(cls)
        game(r, P, name, cls)
        search(r, P, name, cls)


def game(r, P, name, cls):
    s = Session(P, cls)
    s.run('checkRealizability')
    R = s.R
    before, after = ['PostOutputBefore'], ['PostOutputAfter']
    S, E = R.f('safetySys'), R.f('safetyEnv')

    def cox(t):
        return R.ex(before, R.all_(['PostInput'], R.ex(after, R.IMP(E, t))))
    W = R.gr1(cox)
    f1, f2 = P.find_method(cls, 'computeWinningPositions'), P.find_method(cls, 'checkRealizability')
    a = compare(r, s, name + ': winning region', s.field('winningPositions'), W, locof(P, f1), RULE['game'])
    if a is not False:
        noerror(r, s, name, locof(P, f2))
        compare(r, s, name + ': verdict', s.field('realizable'), R.std_init(W), locof(P, f2), RULE_I['std'])
    r.listed('functions', s.functions())


def cases(M, vs, truth, free):
    """truth extended to the atoms that may have either value at this point"""
    ats = sorted({a for v in vs for b in conds(v) for a in M.atoms_of(b) if truth(M.atoms[a]) is None and free(M.atoms[a])})
    if len(ats) > 6:
        ats = []
    for vals in itertools.product((False, True), repeat=len(ats)):
        d = {M.atoms[a]: x for a, x in zip(ats, vals)}
        yield lambda k, d=d: d.get(k, truth(k))


def pickval(M, v, truth):
    """value of nested conditionals under truth(atom key) in {True, False, None}"""
    while v[0] in ('iite', 'seq_ite') and len(v) == 4:
        b = v[1][1]
        t = evalb(M, b, truth)
        if t is None:
            return None
        v = v[2] if t else v[3]
    if v[0] == 'upd':
        x = pickval(M, v[1], truth)
        return None if x is None else ('upd', x) + v[2:]
    return v


def evalb(M, b, truth):
    for a in sorted(M.atoms_of(b)):
        t = truth(M.atoms[a])
        if t is not None:
            b = M.restrict(b, a, 1 if t else 0)
    return {0: False, 1: True}.get(b)


def flat(v):
    """chain of updates: (base, {index: last value})"""
    d = {}
    while v[0] == 'upd':
        d.setdefault(v[2], v[3])
        v = v[1]
    return v, d


def search(r, P, name, cls):
    en = P.enums
    T = {n: en.get(n) for n in ('PreOutput', 'PostOutput', 'PreOutputBefore', 'PreOutputAfter', 'PostOutputBefore', 'PostOutputAfter')}
    if None in T.values():
        raise AnalysisBroken('kinds of early and late outputs not found')

    def comp(I, st, this, args, e):
        st.env[GROUPS] = I.get(st, TYPES)
        return ('void',)

    def inh(I, st, this, args, e):
        return ('b', I.M.fun('inherits', (st.env.get(GROUPS, ('cont', 'initial')),) + tuple(args), EMPTY))

    fresh = {}

    def ver(I, st, this, args, e):
        g = st.env.get(GROUPS, ('cont', 'initial'))
        st.env[('F', 'GR1Context', 'realizable')] = ('b', I.M.fun('verdict', (g,), EMPTY))
        fresh[I.loc(e)] = (g, I.get(st, TYPES))
        return ('void',)
    h = {'SlugsVariableManager::computeVariableInformation': comp, 'SlugsVariableManager::doesVariableInheritType': inh}
    for c in [cls] + list(P.ancestors(cls)):
        h[c + '::checkRealizability'] = ver
    s = Session(P, cls, hooks=h)
    s.run('execute')
    M, I = s.M, s.I
    f = s.fn
    loc = locof(P, f)
    if s.notes():
        r.undec(name + ': search', s.notes()[0], loc)
        return
    if not fresh:
        r.undec(name + ': search', 'realizability check not found in execute', loc)
        return
    for l, (g, t) in sorted(fresh.items()):
        if g == t:
            r.ok('%s: choice used by the realizability check' % name, l)
        elif 'phi' in repr(g) + repr(t) and g[0] == t[0] == 's':
            r.ok('%s: choice used by the realizability check' % name, l)
        else:
            r.violation('%s: choice used by the realizability check' % name, l, RULE['fresh'], 'the groups of variables are the ones of an earlier choice')
    # ---- the two loops over the variables that write the kinds
    size = ('size', ('cont', 'variables'))
    loops = []
    for rec in I.looprecs:
        l = [x for x in rec.leafs if x[0].slot == TYPES] if all(hasattr(x[0], 'slot') for x in rec.leafs) else [x for x in rec.leafs if "'variableTypes'" in repr(x[0])]
        if l:
            loops.append((rec, l[0]))
    search_rec = [(rec, l) for rec, l in loops if any('verdict' in repr(M.atoms[a]) for v in conds(l[5]) + [rec.c] for a in M.atoms_of(v)) or
                  len(rec.leafs) > 3 and "('c', %d)" % T['PreOutputBefore'] in repr(l[5])]
    init_rec = [(rec, l) for rec, l in loops if (rec, l) not in search_rec]
    idx = lambda rec: [x for x in rec.leafs if x[2] == 'i' and x[5] == ('add', ('s', x[1]), ('c', 1))]

    def full(rec, key):
        ix = idx(rec)
        if len(ix) != 1:
            r.undec(key, 'loop over the variables not recognised', rec.loc)
            return None
        i = ('s', ix[0][1])
        if ix[0][3] != ('c', 0) or rec.c not in (M.cmp('<', i, size), M.NOT(M.cmp('==', i, size)), M.NOT(M.cmp('==', size, i))):
            if ix[0][3][0] == 'c' and all(M.atoms[a][0] == 'cmp' for a in M.atoms_of(rec.c)):
                r.violation(key, rec.loc, RULE['start'] if 'initial' in key else RULE['keep'], 'not all variables are considered: from %s while %s' % (ix[0][3], M.show(rec.c, 4)))
            else:
                r.undec(key, 'loop over the variables not recognised', rec.loc)
            return None
        r.ok(key, rec.loc)
        return i

    def kindcase(i, kind, ver=None):
        """truth of the atoms when variable i has the given kind"""
        def t(k):
            if k[0] == 'fun' and k[1] == 'inherits' and k[2][1] == i:
                q = k[2][2]
                if q == ('c', T['PreOutput']):
                    return kind == 'PreOutput'
                if q == ('c', T['PostOutput']):
                    return kind == 'PostOutput'
                if q in (('c', T['PreOutputAfter']), ('c', T['PreOutputBefore'])):
                    # no output has been tried yet at its turn
                    return q == ('c', T['PreOutputAfter']) and kind == 'PreOutput'
                return None
            if k[0] == 'fun' and k[1] == 'verdict':
                return ver
            if k[0] == 'cmp':
                return None
            return None
        return t
    key = name + ': initial choice'
    if len(init_rec) != 1:
        if not init_rec:
            r.violation(key, loc, RULE['start'], 'the kinds of the outputs are not set before the analysis') if search_rec else r.undec(key, 'not recognised', loc)
        else:
            r.undec(key, 'more than one loop', loc)
    else:
        rec, l = init_rec[0]
        i = full(rec, key + ': all variables')
        if i is not None:
            cur = l[4]
            for kind, want in (('PreOutput', T['PreOutputAfter']), ('PostOutput', T['PostOutputAfter']), ('other', None)):
                v = pickval(M, l[5], kindcase(i, kind))
                k2 = '%s: %s' % (key, kind)
                if v is None:
                    r.undec(k2, 'step of the loop not recognised', rec.loc)
                    continue
                base, d = flat(v)
                if base != cur:
                    r.undec(k2, 'step of the loop not recognised', rec.loc)
                elif d == ({i: ('c', want)} if want is not None else {}):
                    r.ok(k2, rec.loc)
                else:
                    r.violation(k2, rec.loc, RULE['start'], 'kinds written: %s' % (d,))
    key = name + ': search'
    if len(search_rec) != 1:
        r.undec(key, 'loop that tries the outputs not recognised', loc)
        return
    rec, l = search_rec[0]
    i = full(rec, key + ': all variables')
    if i is None:
        return
    cur = l[4]
    i1 = M.iadd(i, ('c', 1)) if hasattr(M, 'iadd') else ('add', i, ('c', 1))
    early = {i: ('c', T['PreOutputBefore']), i1: ('c', T['PreOutputBefore'] and T['PostOutputBefore'])}
    late = {i: ('c', T['PreOutputAfter']), i1: ('c', T['PostOutputAfter'])}
    grp = [x for x in rec.leafs if '__groups' in repr(x[0])]
    found = [x for x in rec.leafs if x[2] == 'b' and x[3] == ('b', 0) and "'realizable'" not in repr(x[0])]
    fnames = set(x[1] for x in found)

    def free(k):
        if k[0] == 'phi':
            return k[1] in fnames
        return k[0] == 'cmp' and i in k[2:4] and all(x == i or x[0] == 'c' for x in k[2:4])
    for kind, ver_, want, rule in (('PreOutput', True, early, 'keep'), ('PreOutput', False, late, 'restore'), ('PostOutput', True, {}, 'keep'), ('PostOutput', False, {}, 'keep'),
                                   ('other', True, {}, 'keep'), ('other', False, {}, 'keep')):
        k2 = '%s: %s, %s' % (key, kind, 'realizable' if ver_ else 'unrealizable')
        res = {}

        def note(k, verdict, rule='', why=''):
            # violated beats undecided beats holds
            rank = {'v': 2, 'u': 1, 'o': 0}
            if k not in res or rank[verdict] > rank[res[k][0]]:
                res[k] = (verdict, rule, why)
        for t in cases(M, [l[5]] + [x[5] for x in grp + found], kindcase(i, kind, ver_), free):
            v = pickval(M, l[5], t)
            base, d = flat(v) if v is not None else (None, None)
            if base != cur:
                note(k2, 'u', '', 'step of the loop not recognised')
                continue
            if d == want or rule == 'restore' and d == {}:
                note(k2, 'o')
            else:
                note(k2, 'v', RULE[rule], 'kinds written: %s, expected %s' % (d, want))
            if grp and want:
                g = pickval(M, grp[0][5], t)
                if g is None:
                    note(k2 + ': groups', 'u', '', 'not recognised')
                elif flat(g) == (base, d):
                    note(k2 + ': groups', 'o')
                else:
                    note(k2 + ': groups', 'v', RULE['restore'] if rule == 'restore' else RULE['fresh'], 'the groups of variables are the ones of an earlier choice')
            if found and kind == 'PreOutput':
                x = found[0]
                tt = t
                if not ver_:
                    tt = lambda k, t=t: False if k[0] == 'phi' and k[1] in fnames else t(k)
                got = evalb(M, x[5][1], tt)
                if got is None:
                    note(k2 + ': noted', 'u', '', 'not recognised')
                elif got == ver_:
                    note(k2 + ': noted', 'o')
                else:
                    note(k2 + ': noted', 'v', RULE['say'], 'afterwards the flag for the message is %s' % got)
        for k, (ver, rl, why) in sorted(res.items()):
            if ver == 'o':
                r.ok(k, rec.loc)
            elif ver == 'u':
                r.undec(k, why, rec.loc)
            else:
                r.violation(k, rec.loc, rl, why)
    # ---- output
    outs = [e for e in I.events if e[1] == ('stream', 'std::cout') or (isinstance(e[1], tuple) and e[1][:1] == ('stream',) and 'cout' in e[1][1])]
    vatom = [a for e in outs for a in M.atoms_of(e[0]) if M.atoms[a][0] == 'fun' and M.atoms[a][1] == 'verdict']
    texts = [('is a realizable', True, None), ('is an unrealizable', False, None), ('stays realizable', True, True), ('becomes unrealizable', True, False)]
    if not vatom:
        r.undec(name + ': messages', 'not recognised', loc)
        return
    va = vatom[0]
    for txt, real, fnd in texts:
        es = [e for e in outs if e[2][:1] == ('str',) and txt in str(e[2][1])]
        k2 = '%s: message "%s"' % (name, txt)
        if len(es) != 1:
            r.undec(k2, 'message not found', loc)
            continue
        e = es[0]
        rest = [a for a in M.atoms_of(e[0]) if a != va]
        c = M.restrict(e[0], va, 1 if real else 0)
        other = M.restrict(e[0], va, 0 if real else 1)
        if other != 0:
            r.violation(k2, e[3], RULE['say'], 'printed when %s' % M.show(e[0], 3))
        elif fnd is None:
            r.ok(k2, e[3]) if c == 1 else (r.violation(k2, e[3], RULE['say'], 'printed when %s' % M.show(e[0], 3)) if c == 0 else r.undec(k2, 'condition not recognised', e[3]))
        elif len(rest) == 1 and c == (M.mk(rest[0], 1, 0) if fnd else M.NOT(M.mk(rest[0], 1, 0))):
            r.ok(k2, e[3])
        elif len(rest) == 1 and c in (0, 1, M.mk(rest[0], 1, 0), M.NOT(M.mk(rest[0], 1, 0))):
            r.violation(k2, e[3], RULE['say'], 'printed when %s' % M.show(e[0], 3))
        else:
            r.undec(k2, 'condition not recognised', e[3])
    names = [e for e in outs if e[2][:2] == ('elem', ('cont', 'variableNames'))]
    names = list({e[3]: e for e in names}.values())
    k2 = name + ': list'
    if len(names) != 1:
        r.undec(k2, 'printed names not found', loc)
        return
    e = names[0]
    j = e[2][2]
    ats = [M.atoms[a] for a in M.atoms_of(e[0])]
    inhs = [a for a in ats if a[0] == 'fun' and a[1] == 'inherits']
    ok = None
    if len(inhs) == 1 and inhs[0][2][1] == j:
        a = [x for x in M.atoms_of(e[0]) if M.atoms[x] == inhs[0]][0]
        pos = M.restrict(e[0], a, 0) == 0
        q = inhs[0][2][2]
        if pos and q == ('c', T['PreOutputBefore']):
            ok = True
        elif q[0] == 'c':
            ok = False
    elif len(inhs) == 1:
        ok = False
    elif not inhs and all(x[0] == 'cmp' or 'verdict' in repr(x) for x in ats):
        ok = False
    if ok:
        r.ok(k2, e[3])
    elif ok is False:
        r.violation(k2, e[3], RULE['list'], 'name of variable %s printed when %s' % (j, M.show(e[0], 3)))
    else:
        r.undec(k2, 'condition not recognised', e[3])
    lst = I.looprecs[-1]
    if lst is not rec and idx(lst):
        full(lst, name + ': list of all variables')


def conds(v):
    out = []

    def w(x):
        if isinstance(x, tuple):
            if x[:1] in (('b',), ('bf',)) and len(x) == 2 and isinstance(x[1], int):
                out.append(x[1])
                return
            for y in x:
                w(y)
    w(v)
    return out

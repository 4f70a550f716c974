"""C18: variable groups contain exactly the variables of their kinds, in matching order for present and next copies."""
from ..engine import *
from ..load import program, AnalysisBroken
from ..absint import EMPTY, strip_t
from ..model import Registry

RULE = {'closure': 'a variable belongs to its kind and to every kind above it', 'group': 'a group holds exactly the variables of its kinds', 'reset': 'a group that is computed again starts empty',
        'order': 'groups list variables by kind and then in the order of their declaration', 'ctor': 'a group is registered with all the kinds it is declared with',
        'hier': 'each kind of variables is below the right kind', 'twin': 'kinds at the same positions of the two sides of a renaming are present and next copies of each other',
        'add': 'variables, names and kinds are stored at the same position', 'acc': 'a variable is reported with its own kind, name and number'}

# every kind of variables and the kind it is part of
PARENT = {'Pre': 'NoneVariableType', 'Post': 'NoneVariableType', 'PreInput': 'Pre', 'PreOutput': 'Pre', 'PostInput': 'Post', 'PostOutput': 'Post',
          'PreOutputFast': 'PreOutput', 'PreOutputSlow': 'PreOutput', 'PostOutputFast': 'PostOutput', 'PostOutputSlow': 'PostOutput',
          'PreOutputBefore': 'PreOutput', 'PreOutputAfter': 'PreOutput', 'PostOutputBefore': 'PostOutput', 'PostOutputAfter': 'PostOutput',
          'ObservablePre': 'PreInput', 'ObservablePost': 'PostInput', 'UnobservablePre': 'PreInput', 'UnobservablePost': 'PostInput',
          'EstimationPre': 'PreOutput', 'EstimationPost': 'PostOutput', 'ControllablePre': 'ObservablePre', 'ControllablePost': 'ObservablePost',
          'PreMotionState': 'PreOutput', 'PostMotionState': 'PostOutput', 'PreOtherOutput': 'PreOutput', 'PostOtherOutput': 'PostOutput',
          'PreMotionControlOutput': 'PreOutput', 'PostMotionControlOutput': 'PostOutput',
          'SymbolicStrategyCounterVar': 'NoneVariableType', 'TransitiveClosureIntermediateVariables': 'NoneVariableType'}


def check(r, tier):
    P = program()
    r.rule('abstract run of computeVariableInformation (value of each group as a comprehension over kinds and variables), of the group constructors and of addVariable and the accessors; '
           'table of kinds; every renaming in the program against the kinds its two sides are declared with')
    hierarchy(r, P)
    ctors(r, P)
    groups(r, P)
    accessors(r, P)
    renamings(r, P)


def hierarchy(r, P):
    reg = Registry(P)
    for k, p in sorted(reg.parent.items()):
        loc = reg.locs[k]
        if ('dup', k) in reg.locs:
            r.violation('kind ' + k, reg.locs[('dup', k)], RULE['hier'], 'registered twice')
        elif k in PARENT:
            if p == PARENT[k]:
                r.ok('kind ' + k, loc)
            else:
                r.violation('kind ' + k, loc, RULE['hier'], 'registered below %s instead of %s' % (p, PARENT[k]))
        else:
            t = reg.partner(k)
            if t is None:
                r.ok('kind ' + k, loc)
            elif t not in reg.parent:
                r.violation('kind ' + k, loc, RULE['hier'], 'its counterpart %s is not registered' % t)
            elif p in reg.parent and reg.partner(p) != reg.parent[t] and p != reg.parent[t]:
                r.violation('kind ' + k, loc, RULE['hier'], 'below %s while %s is below %s' % (p, t, reg.parent[t]))
            else:
                r.ok('kind ' + k, loc)
    for k in PARENT:
        if k not in reg.parent and any(en == k for e in P.enums.values() for en in (e if isinstance(e, (list, dict, tuple)) else [])):
            r.violation('kind ' + k, '', RULE['hier'], 'not registered')


def ctors(r, P):
    for cls, member, seqlike in (('SlugsVarCube', 'varCubesToConstruct', False), ('SlugsVarVector', 'varVectorsToConstruct', True), ('SlugsVectorOfVarBFs', 'varVectorOfBFsToConstruct', True)):
        fs = [f for f in P.fns.values() if f.get('c') == cls and f.get('ctor') and f.get('body') is not None and f['p'] and not f.get('cc') and not f.get('mc')]
        if not fs:
            raise AnalysisBroken('constructors of %s not found' % cls)
        fld = [x['n'] for x in P.classes[cls]['fields']]
        for f in fs:
            key = '%s with %d kinds' % (cls, len(f['p']) - 1)
            loc = '%s:%s' % (P.rel(f['file']), f['l'])
            s = Session(P, cls)
            st, _ = s.I.run(f)
            ts = [('s', ('param', p['n'])) for p in f['p'] if 'Slugs' not in p['t']]
            mg = [p for p in f['p'] if 'Slugs' in p['t']]
            if st is None or s.I.notes or len(mg) != 1:
                r.undec(key, 'constructor not understood', loc)
                continue
            v = st.env.get(('L', 1, mg[0]['d']))
            up = dict(v[2]).get(member) if v and v[0] == 'obj' and isinstance(v[2], tuple) else None
            if up is None:
                r.violation(key, loc, RULE['ctor'], 'the group is not registered in %s' % member) if v == ('s', ('param', mg[0]['n'])) else r.undec(key, 'registration not recognised', loc)
                continue
            items = None
            if up[0] == 'upd' and up[3][0] == 'seq' and all(x[0] == 'item' for x in up[3][1]):
                items = [x[1] for x in up[3][1]]
            if items is None:
                r.undec(key, 'registered kinds not recognised: %s' % (up,), loc)
                continue
            good = items == ts if seqlike else set(items) == set(ts)
            tgt = up[2][0] == 'addr' and up[2][1][0] == ('F', cls, fld[0]) and not up[2][1][1]
            if good and tgt:
                r.ok(key, loc)
            elif not tgt:
                r.undec(key, 'registered object not recognised', loc)
            elif all(x in ts for x in items):
                r.violation(key, loc, RULE['ctor'], 'declared with %s, registered with %s' % ([t[1][1] for t in ts], [x[1][1] for x in items]))
            else:
                r.undec(key, 'registered kinds not recognised', loc)


def chain(k):
    out = []
    while k in PARENT:
        out.append(k)
        k = PARENT[k]
    return out


def walkt(t):
    w = [t]
    while w:
        x = w.pop()
        if isinstance(x, tuple):
            yield x
            w += list(x)


def fullrange(M, rec):
    """does the loop visit everything from the first to the last element?  True / False (recognised, but wrong) / None; text"""
    ats = [M.atoms[a] for a in M.atoms_of(rec.c)]
    if len(ats) != 1 or ats[0][0] != 'cmp':
        return None, 'condition'
    for l in rec.leafs:
        cur, ini, step = l[4], l[3], l[5]
        if cur[0] == 'it':
            if not (ini[0] == step[0] == 'it' and ini[1] == cur[1] == step[1]):
                continue
            cur, ini, step = cur[2], ini[2], step[2]
        if cur not in ats[0][2:4]:
            continue
        bound = [x for x in ats[0][2:4] if x != cur]
        if len(bound) != 1 or bound[0][0] != 'size':
            return None, 'bound'
        if ini[0] != 'c' or step != ('add', cur, ('c', 1)):
            return (False, 'it starts with element %s' % (ini[1],)) if ini[0] == 'c' and ini[1] != 0 else (None, 'steps')
        if ini[1] != 0:
            return False, 'it starts with element %s' % (ini[1],)
        if rec.c in (M.cmp('<', cur, bound[0]), M.NOT(M.cmp('==', cur, bound[0])), M.NOT(M.cmp('==', bound[0], cur))):
            return True, ''
        return False, 'it goes on while %s' % M.show(rec.c, 4)
    return None, 'counter'


def ranged(r, key, M, rec):
    ok, why = fullrange(M, rec)
    if ok:
        r.ok(key, rec.loc)
    elif ok is False:
        r.violation(key, rec.loc, RULE['group'], why)
    else:
        r.undec(key, 'loop not recognised: %s' % why, rec.loc)


def inserted(t, base):
    """number of kinds that straight-line code enters for one variable, or None"""
    if t[0] == 'iite':
        a, b = inserted(t[2], base), inserted(t[3], base)
        return None if a is None or b is None else max(a, b)
    if t == base:
        return 0
    if t[0] == 'upd' and t[1] == base and t[3][0] == 'seq' and t[3][1] and t[3][1][0] == ('all', ('elem', base, t[2])) and all(x[0] == 'item' for x in t[3][1][1:]):
        return len(t[3][1]) - 1
    return None


def groups(r, P):
    got = []

    def assign(I, st, this, args, e):
        got.append(('=', st.pc, I.ev(e['a'][0], st), tuple(args), I.loc(e)))
        return ('void',)

    hooks = {'BFBddVarVector::operator=': assign, 'BFBddVarCube::operator=': assign}
    s = Session(P, 'GR1Context', hooks=hooks)
    s.run('computeVariableInformation')
    M, I = s.M, s.I
    loc = '%s:%s' % (P.rel(s.fn['file']), s.fn['l'])
    if s.notes():
        r.undec('computation of the groups', s.notes()[0], loc)
        return
    # --- closure
    none = P.enums.get('NoneVariableType')
    variables = ('cont', 'variables')
    size = ('size', variables)
    clo = [rec for rec in I.looprecs for l in rec.leafs if 'variableTypesAll' in repr(l[0])]
    inner = None
    for rec in clo:
        m = [l for l in rec.leafs if 'variableTypesAll' in repr(l[0])]
        t = [l for l in rec.leafs if l[3] and l[3][0] == 'elem' and l[3][1] == ('cont', 'variableTypes')]
        if len(m) == 1 and len(t) == 1:
            inner = (rec, m[0], t[0])
    if inner is None:
        depth = max(len(chain(k)) for k in PARENT)
        fixed = [(rec, n) for rec in clo for l in rec.leafs if 'variableTypesAll' in repr(l[0]) for n in [inserted(l[5], l[4])] if n is not None]
        if len(fixed) == 1 and fixed[0][1] < depth:
            r.violation('kinds of a variable', fixed[0][0].loc, RULE['closure'], 'at most %d kinds are entered for a variable, but some kinds have %d above them' % (fixed[0][1], depth - 1))
        else:
            r.undec('kinds of a variable', 'loop over the kinds not recognised', loc)
    else:
        rec, m, t = inner
        key = 'kinds of a variable'
        cur, step = t[4], t[5]
        okstep = step in (('elem', ('fun', 'deref', ('cont', 'variableHierarchy')), cur), ('elem', ('cont', 'variableHierarchy'), cur))
        ix = t[3][2]
        ins = m[5]
        okins = ins[0] == 'upd' and ins[1] == m[4] and ins[2] == ix and ins[3] == ('seq', (('all', ('elem', m[4], ix)), ('item', cur)))
        okcond = none is not None and rec.c in (M.NOT(M.cmp('==', ('c', none), cur)), M.NOT(M.cmp('==', cur, ('c', none))))
        parts = ins[0] == 'upd' and ins[3][0] == 'seq' and ins[3][1] and ins[3][1][-1][0] == 'item'
        if okstep and okins and okcond:
            r.ok(key, rec.loc)
        elif not okcond and okstep and all(M.atoms[a][0] == 'cmp' for a in M.atoms_of(rec.c)):
            r.violation(key, rec.loc, RULE['closure'], 'the walk over the kinds ends when %s is false' % M.show(rec.c, 4))
        elif okstep and not okins and parts and ins[3][1][-1][1] == step:
            r.violation(key, rec.loc, RULE['closure'], 'the kind of the variable itself is left out')
        elif okcond and okins and step[0] == 'elem':
            r.violation(key, rec.loc, RULE['closure'], 'the next kind is %s' % (step,))
        else:
            r.undec(key, 'step of the loop over the kinds not recognised', rec.loc)
        ini = [(x, l) for x in I.looprecs if x is not rec for l in x.leafs if 'variableTypesAll' in repr(l[0]) and l[3] and l[3][:2] == ('fun', 'resize')]
        if ini:
            x, l = ini[0]
            if l[3] == ('fun', 'resize', ('seq', ()), size):
                r.ok('kinds are computed anew for all variables', x.loc)
            elif l[3][2] == ('cont', 'variableTypesAll') or l[3][2][0] in ('cont', 's'):
                r.violation('kinds are computed anew for all variables', x.loc, RULE['reset'], 'kinds of an earlier call are kept')
            elif l[3][2] == ('seq', ()) and l[3][3][0] in ('add', 'c', 'size'):
                r.violation('kinds are computed anew for all variables', x.loc, RULE['reset'], 'computed for %s variables' % (l[3][3],))
            else:
                r.undec('kinds are computed anew for all variables', 'initial value %s' % (l[3],), x.loc)
        else:
            r.undec('kinds are computed anew for all variables', 'initial value not recognised', loc)
    outer = [x for x in clo if any(l[4] == inner[2][3][2] for l in x.leafs)] if inner else []
    if outer:
        ranged(r, 'kinds of every variable', M, outer[-1])
    elif inner:
        r.undec('kinds of every variable', 'loop over the variables not recognised', loc)
    final = s.field('variableTypesAll')

    def membership(b, kinds, vi, kj):
        """does the condition say: variable vi has kind kinds[kj]?  True / False (recognised, but wrong) / None"""
        want = M.cmp('<', ('c', 0), ('fun', 'count', ('elem', final, ('s', ('bi', vi))), ('elem', kinds, ('s', ('bi', kj)))))
        alt = M.cmp('==', ('c', 0), ('fun', 'count', ('elem', final, ('s', ('bi', vi))), ('elem', kinds, ('s', ('bi', kj)))))
        if b in (want, M.NOT(alt)):
            return True
        if b in (1, 0) or b in (M.NOT(want), alt):
            return False
        ats = [M.atoms[a] for a in M.atoms_of(b)]
        cnt = [a for a in ats if a[0] == 'cmp' and any(x[:2] == ('fun', 'count') for x in a[2:4] if isinstance(x, tuple))]
        own = [a for a in ats if a[0] == 'cmp' and any(x[:2] == ('elem', ('cont', 'variableTypes')) for x in a[2:4] if isinstance(x, tuple))]
        if all(a[0] == 'cmp' for a in ats) and (cnt or len(own) == len(ats)):
            return False
        return None

    def comprehension(v, kinds):
        """(True, '') if v lists the variables of `kinds` by kind and then by number"""
        if v[0] != 'seq' or len(v[1]) != 1 or v[1][0][0] != 'for':
            return (False, 'nothing is collected') if v == ('seq', ()) else (None, 'value %s' % (str(v)[:120],))
        f = v[1][0]
        if f[1][0] == 'range' and f[1][1] == size and len(f) > 3:
            # variables first
            g = f[3]
            if len(g) == 1 and g[0][0] == 'for' and g[0][1] == ('range', ('size', kinds)):
                return 'swapped', ''
            return None, 'order of the loops'
        if f[1] != ('range', ('size', kinds)):
            if f[1][0] == 'range' and f[1][1][0] in ('add', 'size', 'c'):
                return False, 'kinds considered: %s' % (f[1],)
            return None, 'kinds considered: %s' % (str(f[1])[:100],)
        g = f[3]
        if len(g) != 1 or g[0][0] != 'for':
            return None, 'variables considered'
        h = g[0]
        if h[1] != ('range', size):
            return (False if repr(size) in repr(h[1]) else None), 'variables considered: %s' % (str(h[1])[:100],)
        if len(h[3]) != 1 or h[3][0][0] != 'cond':
            if len(h[3]) == 1 and h[3][0][0] == 'item':
                return False, 'every variable is collected'
            return None, 'collected items'
        c = h[3][0]
        if c[2] == () and len(c[3]) == 1 and c[1][0] == 'b':
            c = (c[0], ('b', M.NOT(c[1][1])), c[3], ())
        if len(c[2]) != 1 or c[2][0][0] != 'item' or c[3] != ():
            return None, 'collected items'
        m = membership(c[1][1], kinds, h[2], f[2])
        if m is not True:
            return m, 'condition %s' % M.show(c[1][1], 5)[:200]
        it = c[2][0][1]
        if it[0] != 'bf':
            return None, 'collects %s' % (str(it)[:120],)
        ats = [M.atoms[a] for a in M.atoms_of(it[1])]
        if len(ats) == 1 and ats[0][:3] == ('elem', variables, ('s', ('bi', h[2]))) and not M.show(it[1], 4).startswith('!'):
            return True, ''
        if all(a[:2] == ('elem', variables) for a in ats):
            return False, 'collects %s' % M.show(it[1], 4)[:120]
        return None, 'collects %s' % M.show(it[1], 4)[:120]

    for what, member, fun in (('vectors', 'varVectorsToConstruct', 'mgr.computeVarVector'), ('cubes', 'varCubesToConstruct', 'computeCube')):
        key = 'content of the variable ' + what
        gs = [g for g in got if len(g[3]) == 1 and g[3][0][:2] == ('fun', fun)]
        gs = list({(g[4], repr(g[3]), repr(g[2])): g for g in gs}.values())
        if not gs:
            r.undec(key, 'assignment of the group not recognised', loc)
            continue
        g = gs[-1]
        this, v = g[2], g[3][0][2]
        # the entry of the map of registered groups
        txt = repr(this) + repr(v)
        import re
        m = re.search(r"\('elem', \('cont', '%s'\), \('s', '([a-z]+#\d+)'\)\)" % member, txt)
        if not m:
            r.undec(key, 'entry of the group not recognised', g[4])
            continue
        entry = ('elem', ('cont', member), ('s', m.group(1)))
        kinds = ('fun', 'proj', entry, 'second')
        ok, why = comprehension(v, kinds)
        if ok == 'swapped':
            if what == 'cubes':
                r.ok(key, g[4])
            else:
                r.undec(key, 'variables are listed by number first', g[4])
        elif ok:
            r.ok(key, g[4])
        elif ok is False:
            r.violation(key, g[4], RULE['group'], why)
        else:
            r.undec(key, why, g[4])
        if "'first'" in repr(this) and repr(entry) in repr(this):
            r.ok(key + ': target', g[4])
        else:
            r.undec(key + ': target', 'target of the assignment not recognised: %s' % (str(this)[:150],), g[4])
        # loop over all registered groups
        rec = [x for x in I.looprecs for l in x.leafs if repr(l[1]).strip("'") == m.group(1).replace('ix', 'phi')]
        if rec:
            x = rec[-1]
            ranged(r, key + ': every registered group', M, x)
            l = [l for l in x.leafs if repr(l[1]).strip("'") == m.group(1).replace('ix', 'phi')][0]
            if l[3][0] == 'it' and l[3][2] == ('c', 0) and l[5] == ('it', l[3][1], ('add', l[4][2], ('c', 1))):
                r.ok(key + ': all registered groups', x.loc)
            elif l[3][0] == 'it' and l[3][2][0] == 'c':
                r.violation(key + ': all registered groups', x.loc, RULE['group'], 'starts with group %s' % (l[3][2][1],))
            else:
                r.undec(key + ': all registered groups', 'loop not recognised', x.loc)
        else:
            r.undec(key + ': all registered groups', 'loop not recognised', loc)
    # --- vectors of BFs
    key = 'content of the variable lists'
    done = False
    for rec in I.looprecs:
        for l in rec.leafs:
            if 'varVectorOfBFsToConstruct' not in repr(l[0]) or not l[5] or l[5][0] not in ('iite', 'upd'):
                continue
            st = l[5]
            if st[0] == 'upd':
                # unconditional
                f1 = dict(st[3][2]).get('first') if st[1] == l[4] and st[3][0] == 'obj' and isinstance(st[3][2], tuple) else None
                if f1 == ('seq', ()):
                    done = True
                    r.violation(key, rec.loc, RULE['group'], 'nothing is collected')
                elif f1 and f1[0] == 'seq' and len(f1[1]) == 2 and f1[1][0][0] == 'all' and f1[1][1][0] == 'item':
                    done = True
                    r.violation(key, rec.loc, RULE['group'], 'every variable is collected')
                continue
            done = True
            pick = st[2] if st[3] == l[4] else None
            nest = [rec]
            while True:
                up = [x for x in I.looprecs for m in x.leafs if x not in nest and m[4] in walkt([y for y in nest[-1].leafs if 'varVectorOfBFsToConstruct' in repr(y[0])][0][3])]
                if not up or len(nest) > 4:
                    break
                nest.append(up[0])
            for what, x in zip(('variables', 'kinds', 'lists'), nest):
                ranged(r, 'all %s considered for the variable lists' % what, M, x)
            if len(nest) < 3:
                r.undec('all lists considered for the variable lists', 'loops not recognised', rec.loc)
            if pick is None or pick[0] != 'upd' or pick[3][0] != 'obj':
                r.undec(key, 'step not recognised', rec.loc)
                continue
            first = dict(pick[3][2]).get('first')
            entry = ('elem', l[4], pick[2])
            if not first or first[0] != 'seq' or len(first[1]) != 2 or first[1][0] != ('all', ('fun', 'proj', entry, 'first')) or first[1][1][0] != 'item':
                r.undec(key, 'step not recognised', rec.loc)
                continue
            ats = [M.atoms[a] for a in M.atoms_of(st[1][1])]
            cnt = len(ats) == 1 and ats[0][0] == 'cmp' and 'count' in repr(ats[0]) and 'second' in repr(ats[0])
            pos = cnt and st[1][1] in (M.cmp('<', ('c', 0), ats[0][3]), M.NOT(M.cmp('==', ('c', 0), [x for x in ats[0][2:4] if x != ('c', 0)][0]))) if cnt else False
            if pos:
                r.ok(key, rec.loc)
            elif cnt or ats and all(a[0] == 'cmp' for a in ats) and any('count' in repr(a) and 'second' in repr(a) or "('cont', 'variableTypes')" in repr(a) for a in ats):
                r.violation(key, rec.loc, RULE['group'], 'condition %s' % M.show(st[1][1], 5)[:200])
            else:
                r.undec(key, 'condition %s' % M.show(st[1][1], 5)[:200], rec.loc)
    if not done:
        r.undec(key, 'loop not recognised', loc)
    cl = [(rec, l) for rec in I.looprecs for l in rec.leafs if 'varVectorOfBFsToConstruct' in repr(l[0]) and l[3] and l[3][0] == 'upd' and l[3][3][0] == 'obj']
    if cl:
        rec, l = cl[0]
        if dict(l[3][3][2]).get('first') == ('seq', ()):
            r.ok(key + ': start empty', rec.loc)
        else:
            r.undec(key + ': start empty', 'initial value not recognised', rec.loc)
    elif done:
        ks = [(rec, l) for rec in I.looprecs for l in rec.leafs if 'varVectorOfBFsToConstruct' in repr(l[0]) and l[3] and l[3][0] in ('s', 'csym')]
        if ks:
            r.violation(key + ': start empty', ks[0][0].loc, RULE['reset'], 'variables of an earlier computation stay in the list')
        else:
            r.undec(key + ': start empty', 'initial value not recognised', loc)


def accessors(r, P):
    # addVariable
    s = Session(P, 'GR1Context')
    f = P.find_method('GR1Context', 'addVariable')
    if f is None:
        raise AnalysisBroken('addVariable not found')
    s.I.hooks.pop('SlugsVariableManager::addVariable', None)
    st, ret = s.I.run(f)
    loc = '%s:%s' % (P.rel(f['file']), f['l'])
    key = 'adding a variable'
    g = lambda n: s.I.get(st, ('F', 'SlugsVariableManager', n))
    ty = [('s', ('param', p['n'])) for p in f['p'] if 'VariableType' in p['t']]
    nm = [('s', ('param', p['n'])) for p in f['p'] if 'string' in p['t']]
    vals = {n: g(n) for n in ('variables', 'variableNames', 'variableTypes')}
    ok = True
    for n, exp in (('variableNames', nm), ('variableTypes', ty)):
        v = vals[n]
        if v == ('seq', (('all', ('cont', n)), ('item', exp[0]))):
            r.ok('%s: %s' % (key, n), loc)
        elif v == ('cont', n) or v[0] == 'seq':
            r.violation('%s: %s' % (key, n), loc, RULE['add'], 'afterwards %s is %s' % (n, str(v)[:120]))
        else:
            r.undec('%s: %s' % (key, n), 'value %s' % (str(v)[:120],), loc)
    v = vals['variables']
    if v[0] == 'seq' and len(v[1]) == 2 and v[1][0] == ('all', ('cont', 'variables')) and v[1][1][0] == 'item':
        r.ok(key + ': variables', loc)
    elif v == ('cont', 'variables') or v[0] == 'seq':
        r.violation(key + ': variables', loc, RULE['add'], 'afterwards variables is %s' % (str(v)[:120],))
    else:
        r.undec(key + ': variables', 'value %s' % (str(v)[:120],), loc)
    if ret == ('size', ('cont', 'variables')) or ret in [('size', ('cont', n)) for n in vals]:
        r.ok(key + ': number', loc)
    elif ret[0] in ('add', 'size', 'c'):
        r.violation(key + ': number', loc, RULE['add'], 'the number returned is %s' % (ret,))
    else:
        r.undec(key + ': number', 'value %s' % (str(ret)[:120],), loc)
    # doesVariableInheritType
    f = P.find_method('GR1Context', 'doesVariableInheritType')
    if f is not None:
        s = Session(P, 'GR1Context')
        st, ret = s.I.run(f)
        loc = '%s:%s' % (P.rel(f['file']), f['l'])
        n, t = [('s', ('param', p['n'])) for p in f['p']][:2]
        cnt = ('fun', 'count', ('elem', ('cont', 'variableTypesAll'), n), t)
        M = s.M
        if ret[0] == 'b' and ret[1] in (M.cmp('<', ('c', 0), cnt), M.NOT(M.cmp('==', ('c', 0), cnt))):
            r.ok('kind of a variable', loc)
        elif ret[0] == 'b' and all('count' in repr(M.atoms[a]) or M.atoms[a][0] == 'cmp' and "('cont', 'variableTypes')" in repr(M.atoms[a]) for a in M.atoms_of(ret[1])):
            r.violation('kind of a variable', loc, RULE['acc'], 'answers %s' % M.show(ret[1], 5)[:200])
        else:
            r.undec('kind of a variable', 'value %s' % (str(ret)[:120],), loc)
    for name, cont in (('getVariableName', 'variableNames'), ('getVariableBF', 'variables')):
        f = P.find_method('GR1Context', name)
        if f is None:
            continue
        s = Session(P, 'GR1Context')
        st, ret = s.I.run(f)
        loc = '%s:%s' % (P.rel(f['file']), f['l'])
        n = ('s', ('param', f['p'][0]['n']))
        if ret == ('elem', ('cont', cont), n) or ret[0] == 'bf' and repr(('elem', ('cont', cont), n))[1:-1] in repr(s.M.atoms) or ret[0] == 'bf':
            r.ok(name, loc)
        elif ret[0] == 'elem':
            r.violation(name, loc, RULE['acc'], 'returns %s' % (ret,))
        else:
            r.undec(name, 'value %s' % (str(ret)[:120],), loc)


def declared(P, cn):
    c = P.classes.get(cn[0])
    fs = [g for g in (c or {}).get('fields', []) if g['n'] == cn[1]]
    if not fs or 'SlugsVar' not in fs[0]['t']:
        return None
    ts = [e['n'] for e in walk(fs[0].get('i') or {}) if e.get('k') == 'enum']
    if not ts:
        for g in P.fns.values():
            if g.get('ctor') and g.get('c') == cn[0]:
                for i in g.get('inits', []):
                    if i.get('m') == cn[1]:
                        ts = [e['n'] for e in walk(i['e']) if e.get('k') == 'enum'] or ts
    return ts


def renamings(r, P):
    reg = Registry(P)
    seen = set()
    n = 0
    for f in P.fns.values():
        if f.get('body') is None or not P.rel(f['file']).startswith('src/'):
            continue
        for x in walk(f['body']):
            if x.get('k') != 'mcall' or x.get('n') != 'SwapVariables':
                continue
            loc = '%s:%s' % (P.rel(f['file']), x['l'])
            ns = []
            for a in x['a']:
                m = [y for y in walk(a) if y.get('k') == 'mem' and y.get('b', {}).get('k') == 'this']
                ns.append((m[0]['c'], m[0]['n']) if len(m) == 1 else None)
            k = (loc, tuple(n and n[1] for n in ns))
            if k in seen:
                continue
            seen.add(k)
            n += 1
            if None in ns or len(ns) != 2:
                r.undec('renaming in ' + f['q'], 'sides not recognised', loc)
                continue
            a, b = declared(P, ns[0]), declared(P, ns[1])
            key = 'renaming in %s' % f['q']
            if not a or not b:
                r.undec(key, 'kinds of the sides not recognised', loc)
                continue
            other = 'TransitiveClosureIntermediateVariables'
            if a == [other] or b == [other]:
                r.ok(key, loc)
                continue
            if len(a) == len(b) and all(reg.partner(p) == q for p, q in zip(a, b)):
                r.ok(key, loc)
            else:
                r.violation(key, loc, RULE['twin'], '%s is declared with %s, %s with %s' % (ns[0][1], a, ns[1][1], b))
    r.count('renamings', n)

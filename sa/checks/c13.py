"""C13: command line options select exactly the analysis they name."""
import re
from .mainprog import *

RULE = {'row': 'an option combination creates the context with exactly the features its options stand for',
        'key': 'the option combinations are written in the order in which options are looked up, each once, from declared options',
        'closed': 'every supported combination of options is available',
        'used': 'every declared option is part of some combination',
        'lookup': 'the combination looked up is the sorted list of the different options given',
        'factory': 'the context is created by the entry whose options were given',
        'files': 'the file names handed to the context are the arguments that are not options, in their order'}

SOLVER = {'XIROSFS': '--IROSfastslow', 'XBiasForAction': '--biasForAction', 'XFixedPointRecycling': '--fixedPointRecycling', 'XCooperativeGR1Strategy': '--cooperativeGR1Strategy',
          'XTwoDimensionalCost': '--twoDimensionalCost', 'XNonDeterministicMotion': '--nonDeterministicMotion'}
PLAIN = {'XInteractiveStrategy': '--interactiveStrategy', 'XAnalyzeAssumptions': '--analyzeAssumptions', 'XInterleave': '--analyzeInterleaving',
         'XAnalyzeSafetyLivenessInteraction': '--analyzeSafetyLivenessInteraction', 'XAbstractWinningTraceGenerator': '--computeAbstractWinningTrace',
         'XComputeCNFFormOfTheSpecification': '--computeCNFFormOfTheSpecification', 'XIncompleteInformationEstimatorSynthesis': '--computeIncompleteInformationEstimator',
         'XComputeInterestingRunOfTheSystem': '--computeInterestingRunOfTheSystem', 'XComputeWeakenedSafetyAssumptions': '--computeWeakenedSafetyAssumptions'}
ROB, REC = '--sysInitRoboticsSemantics', '--simpleRecovery'


def parse(t):
    """template name -> (name, [args])"""
    t = t.strip()
    m = re.match(r'([\w:]+)\s*(<(.*)>)?$', t, re.S)
    if not m:
        return None
    args, d, cur = [], 0, ''
    for ch in (m.group(3) or '') + ',':
        if ch == ',' and d == 0:
            if cur.strip():
                args.append(cur.strip())
            cur = ''
            continue
        d += ch == '<'
        d -= ch == '>'
        cur += ch
    return m.group(1), args


def features(t):
    """set of options a context class stands for; None if the class is not known"""
    p = parse(t)
    if p is None:
        return None
    n, a = p
    if n == 'GR1Context':
        return frozenset()
    if not a:
        return None
    base = features(a[0])
    if base is None:
        return None
    fl = [x == 'true' for x in a[1:]]
    if any(x not in ('true', 'false') for x in a[1:]):
        return None

    def need(k):
        return len(fl) == k
    add = None
    if n == 'XRoboticsSemantics' and need(0):
        add = [ROB]
    elif n in SOLVER and n not in ('XTwoDimensionalCost', 'XNonDeterministicMotion') and need(0):
        add = [SOLVER[n]]
    elif n == 'XTwoDimensionalCost' and need(2):
        add = [SOLVER[n]] + [ROB] * fl[0] + ['solver recovery'] * fl[1]
    elif n == 'XNonDeterministicMotion' and need(1):
        add = [SOLVER[n]] + [ROB] * fl[0]
    elif n == 'XCounterStrategy' and need(1):
        add = ['counter'] + [ROB] * fl[0]
    elif n == 'XExtractExplicitCounterStrategy' and need(0):
        if 'counter' not in base:
            return None
        base, add = base - {'counter'}, ['--counterStrategy']
    elif n == 'XExtractExplicitStrategy' and need(2):
        add = ['--explicitStrategy'] + [REC] * fl[0] + ['--jsonOutput'] * fl[1]
    elif n == 'XExtractSymbolicStrategy' and need(2):
        add = ['--simpleSymbolicStrategy' if fl[1] else '--symbolicStrategy'] + [REC] * fl[0]
    elif n == 'XExtractPermissiveExplicitStrategy' and need(1):
        add = ['--extractExplicitPermissiveStrategy'] + [REC] * fl[0]
    elif n == 'XAnalyzeInitialPositions' and need(1):
        add = ['--analyzeInitialPositions'] + ['--restrictToReachableStates'] * fl[0]
    elif n in PLAIN and need(0):
        add = [PLAIN[n]]
    if add is None:
        return None
    return base | frozenset(add)


def supported():
    out = [frozenset()]
    sol = [None] + ['--IROSfastslow', '--biasForAction', '--fixedPointRecycling', '--cooperativeGR1Strategy', '--twoDimensionalCost']
    for s in sol:
        for rob in (0, 1):
            b = ([s] if s else []) + [ROB] * rob
            out.append(b)
            for rec in (0, 1):
                for js in (0, 1):
                    out.append(b + ['--explicitStrategy'] + [REC] * rec + ['--jsonOutput'] * js)
                for sy in ('--symbolicStrategy', '--simpleSymbolicStrategy'):
                    out.append(b + [sy] + [REC] * rec)
            if s != '--cooperativeGR1Strategy':
                out.append(b + ['--extractExplicitPermissiveStrategy'])
        out.append(([s] if s else []) + ['--interactiveStrategy'])
    for rob in (0, 1):
        out.append(['--counterStrategy'] + [ROB] * rob)
        out.append(['--nonDeterministicMotion'] + [ROB] * rob)
    out.append(['--interactiveStrategy', '--nonDeterministicMotion'])
    out += [[x] for x in PLAIN.values() if x != '--interactiveStrategy']
    out += [['--analyzeInitialPositions'], ['--analyzeInitialPositions', '--restrictToReachableStates']]
    return sorted(set(frozenset(x) for x in out), key=sorted)


def check(r, tier):
    P = program()
    r.rule('every row of the table of option combinations: template arguments of the class its factory creates against the features its options name; rows sorted, unique, over declared options; '
           'the supported product of options is covered; main looks up the sorted duplicate-free option list over all rows and uses the factory of the matching row')
    cs = combos(P)
    tab = table_strings(P)
    decl = tab[0::2]
    r.count('option combinations', len(cs))
    r.count('declared options', len(decl))
    bad = [x for x in decl if not x.startswith('--')]
    if bad or len(tab) % 2:
        r.violation('option list', 'src/main.cpp', RULE['key'], 'the option list is not a list of (option, description) pairs: %s' % bad[:3])
        return
    seen = {}
    for c in cs:
        key = 'row "%s"' % c.params
        ws = c.params.split(' ') if c.params else []
        if c.params != ' '.join(sorted(set(ws))):
            r.violation(key, c.loc, RULE['key'], 'the options of this row are not in sorted order, separated by single spaces: it can never be selected')
        elif c.params in seen:
            r.violation(key, c.loc, RULE['key'], 'listed twice (also at %s): the later entry can never be selected' % seen[c.params])
        elif any(w not in decl for w in ws):
            r.violation(key, c.loc, RULE['key'], 'uses an option that is not declared: %s' % [w for w in ws if w not in decl])
        else:
            r.ok(key + ' is selectable', c.loc)
        seen.setdefault(c.params, c.loc)
        if c.cls is None:
            r.undec(key, 'class created by the factory not recognised', c.loc)
            continue
        f = features(c.cls)
        if f is None:
            r.undec(key, 'features of class %s not known' % c.cls, c.loc)
            continue
        f = set(f)
        want = set(ws)
        if '--twoDimensionalCost' in f:
            # recovery is a property of both the solver and the extraction; they must agree
            sr = 'solver recovery' in f
            f.discard('solver recovery')
            if sr != (REC in want):
                r.violation(key, c.loc, RULE['row'], 'class %s computes the strategy %s recovery transitions' % (c.cls, 'with' if sr else 'without'))
                continue
        if f == want:
            r.ok(key, c.loc)
        else:
            r.violation(key, c.loc, RULE['row'], 'class %s: options without effect: %s; effects without option: %s' % (c.cls, sorted(want - f), sorted(f - want)))
    have = set(frozenset(x.split()) for x in seen)
    for s in supported():
        key = 'combination "%s"' % ' '.join(sorted(s))
        if s in have:
            r.ok(key, '')
        else:
            r.violation(key, 'src/main.cpp', RULE['closed'], 'no row for this combination')
    for d in decl:
        if any(d in x for x in have):
            r.ok('option ' + d, '')
        else:
            r.violation('option ' + d, 'src/main.cpp', RULE['used'], 'no row uses this option')
    dispatch(r, P, cs)


def dispatch(r, P, cs):
    m = MainRun(P)
    M, I = m.M, m.I
    n = len(cs)
    ptr = [e for e in I.events if e[1] == 'callptr']
    ptr = list({e[3]: e for e in ptr}.values())
    init = list({e[3]: e for e in I.events if e[1] == 'call:init'}.values())
    if len(ptr) != 1 or len(init) != 1:
        r.undec('lookup of the combination', '%d creations, %d initialisations found' % (len(ptr), len(init)), m.where)
        return
    e = ptr[0]
    loc = e[3]
    fv = strip(e[2][0])
    # ---- which entry
    if not (fv[:2] == ('fun', 'proj') and fv[2][:1] == ('elem',) and fv[2][1] == ('s', ('glob', 'optionCombinations'))):
        r.undec('factory of the entry', 'function called is %s' % (fv,), loc)
        return
    idx = fv[2][2]
    par = ('fun', 'proj', fv[2], 'params')
    eqs = [(a, M.atoms[a]) for a in M.atoms_of(e[0]) if M.atoms[a][0] == 'cmp' and M.atoms[a][1] == '==' and par in M.atoms[a][2:4]]
    oth = [(a, M.atoms[a]) for a in M.atoms_of(e[0]) if M.atoms[a][0] == 'cmp' and 'optionCombinations' in repr(M.atoms[a]) and par not in M.atoms[a][2:4]]
    if len(eqs) != 1 or M.AND(e[0], M.NOT(M.mk(eqs[0][0], 1, 0))) != 0:
        if oth:
            r.violation('factory of the entry', loc, RULE['factory'], 'the factory called belongs to entry %s, but the options are compared with another entry' % (idx,))
        else:
            r.undec('factory of the entry', 'comparison with the options given not recognised', loc)
        return
    r.ok('factory of the entry', loc)
    k = eqs[0][1]
    total = k[2] if k[3] == par else k[3]
    # ---- all entries are looked at: executed iff no undeclared option, no superfluous file, some row matches
    ini = m.ghost('init')
    want = M.AND(M.NOT(m.unknown_argument()), M.disj(m.row_matches(total, n)))
    if ini == want:
        r.ok('every entry is looked up', m.where)
    elif m.known_atoms(M.XOR(ini, want)):
        d = M.AND(want, M.NOT(ini))
        r.violation('every entry is looked up', m.where, RULE['lookup'], 'not looked up although selected, when %s' % M.show(d, 4)[:300] if d else 'looked up although not selected, when %s' % M.show(M.AND(ini, M.NOT(want)), 4)[:300])
    else:
        r.undec('every entry is looked up', 'condition not recognised', m.where)
    # ---- the string looked up
    lookup(r, m, total, loc)
    # ---- files
    args = init[0][2][1:]
    for what, v in (('creation', e[2][1:-1]), ('reading', args)):
        key = 'file names for the %s of the context' % what
        v = [x for x in v if x != ('void',)]
        if len(v) == 1 and is_arglist(m, v[0], False):
            r.ok(key, loc)
        elif len(v) == 1 and v[0][0] == 'seq' and m.known_term(v[0]):
            r.violation(key, loc, RULE['files'], 'list is %s' % M.showt(v[0], 5)[:300])
        else:
            r.undec(key, 'list not recognised', loc)


def strip(v):
    while v[:2] == ('fun', 'deref'):
        v = v[2]
    return v


def branches(v):
    if isinstance(v, tuple) and v[:1] == ('iite',):
        return branches(v[2]) + branches(v[3])
    return [v]


def is_arglist(m, v, dash):
    """is v the list of arguments that start with - / do not start with -, in order (given that no argument is an undeclared option)?"""
    M = m.M
    arg = ('elem', ('s', ('param', 'args')), ('add', ('s', ('bi', 1)), ('c', 1)))
    if not (v[0] == 'seq' and len(v[1]) == 1 and v[1][0][0] == 'for' and v[1][0][1] == ('range', ('add', ('s', ('param', 'argc')), ('c', -1))) and v[1][0][2] == 1):
        return False
    body = v[1][0][3]
    it = (('item', arg),)
    if len(body) != 1 or body[0][0] != 'cond' or body[0][1][0] != 'b':
        return False
    c = body[0][1][1]
    if body[0][2:] == ((), it):
        c = M.NOT(c)
    elif body[0][2:] != (it, ()):
        return False
    isdash = M.cmp('==', ('elem', arg, ('c', 0)), ('c', ord('-')))
    n = table_strings(m.P)
    decl = M.disj([M.cmp('==', ('elem', ('s', ('glob', 'commandLineArguments')), ('c', i)), arg) for i in range(0, len(n), 2)])
    ok = M.OR(M.NOT(isdash), decl)
    ok = M.AND(ok, M.cmp('<', ('add', ('s', ('bi', 1)), ('c', 1)), ('s', ('param', 'argc'))))
    return M.AND(ok, c) == M.AND(ok, isdash if dash else M.NOT(isdash))


def lookup(r, m, total, loc):
    M, I = m.M, m.I
    key = 'string looked up'
    if not (total[:2] == ('fun', 'str') and total[2][0] == 'stream'):
        r.undec(key, 'string is %s' % M.showt(total, 4)[:200], loc)
        return
    ev = list({(e[3], repr(e[2])): e for e in I.events if isinstance(e[1], tuple) and e[1][:2] == ('stream', total[2][1])}.values())
    # the container the options are read from
    elems = [e for e in ev if e[2][0] == 'elem']
    if len(elems) != 1:
        r.undec(key, '%d outputs of options' % len(elems), loc)
        return
    el = elems[0]
    cont, ix = el[2][1], el[2][2]
    roots = [k for k, v in m.st.env.items() if k in I.types and cont in branches(v)]
    types = [I.types[k] for k in roots]
    if not is_arglist(m, cont, True):
        if cont[0] == 'seq' and m.known_term(cont):
            r.violation(key, el[3], RULE['lookup'], 'options collected are %s' % M.showt(cont, 5)[:300])
        else:
            r.undec(key, 'collection of options not recognised', el[3])
        return
    if any(re.match(r'(const )?std::set<', t) for t in types):
        r.ok('options are sorted and unique', el[3])
    elif types and all(re.match(r'(const )?std::(list|vector|deque)<', t) for t in types) and not any('sort' in c[0] for c in I.calls) and not any('sort' in n for n in m.notes):
        r.violation('options are sorted and unique', el[3], RULE['lookup'], 'options are collected in a %s without sorting' % types[0])
    else:
        r.undec('options are sorted and unique', 'container %s' % types, el[3])
    first = M.cmp('==', ix, ('c', 0))
    base = el[0]
    sep, other = 0, []
    for e in ev:
        if e is el:
            continue
        if e[2] == ('str', ' '):
            sep = M.OR(sep, e[0])
        elif e[2][0] == 'iite':
            c, x, y = e[2][1][1], e[2][2], e[2][3]
            for v, cc in ((x, c), (y, M.NOT(c))):
                if v == ('str', ' '):
                    sep = M.OR(sep, M.AND(e[0], cc))
                elif v != ('str', ''):
                    other.append(e)
        else:
            other.append(e)
    order = [I.events.index(e) for e in ev if e is not el and e[2] != el[2]]
    if other:
        r.undec(key, 'other output into the string: %s' % (other[0][2],), el[3])
        return
    if I.events.index(el) < max(order or [-1]):
        r.undec(key, 'separator written after the option', el[3])
        return
    if not ev or sep == M.AND(base, M.NOT(first)):
        r.ok(key, el[3])
    elif M.AND(sep, M.NOT(base)) == 0 and m.known_atoms(sep, True):
        r.violation(key, el[3], RULE['lookup'], 'a separator is written when %s (must be: before every option but the first)' % M.show(sep, 3)[-300:])
    else:
        r.undec(key, 'condition of the separator not recognised', el[3])

"""C10: every line takes effect exactly in the part of the specification its section names."""
from .specread import *

RULE_TAB = 'an ordinary line of a section declares the variable pair / adds the formula to exactly the part the section stands for'


def check(r, tier):
    P = program()
    r.rule('for every specification reader and every section: loop summary of the line loop, specialised to a line in that section, equals the reference effect '
           '(which part changes and how, which variable categories the formula may mention, which categories a declared variable and its primed copy get)')
    r.rule('section tags, comments and empty lines change nothing but the section; all parts start as true / empty; an empty liveness list is read as [true]')
    cl = readers(P)
    for x in EXPECTED:
        if not any(c == x or c.startswith(x) for c in cl):
            r.undec('reader ' + x, 'no specification reader recognised in this class')
    for c in cl:
        one(r, P, c)


def one(r, P, c):
    R = reader(P, c)
    M, I, s = R.M, R.I, R.s
    r.listed('readers', [c])
    for f in s.functions():
        r.listed('functions', [f])
    where = '%s:%s' % (P.rel(s.fn['file']), s.fn['l'])
    if R.rec is None:
        r.undec('line loop of ' + c, 'section dispatch not recognised', where)
        return
    notes = [n for n in s.notes()]
    if not (R.line[0] == 'fun' and R.line[1] == 'trim'):
        if R.line[0] == 's' and isinstance(R.line[1], tuple) and R.line[1][0] == 'line':
            r.violation('%s: trimming' % c, R.rec.loc, 'blanks around a line are ignored', 'lines are compared with section names as %s' % M.showt(R.line, 3))
    d = decl(R.tags)
    enc = dict((v, k) for k, v in P.enums.items() if k in set(sum(([a, b] for a, b in list(DECL.values()) + [ESTIMATION]), [])))

    def cat(t):
        return enc.get(t[1], str(t[1])) if t[0] == 'c' else None

    base = [x for x in R.rec.leafs if x[2] in ('bf', 'c') and x[0].key[0] == 'F' and x[0].key[-1] in CORE]
    names = {x[0].key[-1]: x for x in base}
    need = ['[ENV_INIT]', '[SYS_INIT]', '[ENV_TRANS]', '[SYS_TRANS]']
    if '[OBSERVABLE_INPUT]' not in R.tags:
        need += ['[ENV_LIVENESS]', '[SYS_LIVENESS]']
    for t in need:
        if t not in R.tags:
            r.violation('%s %s' % (c, t), R.rec.loc, 'every reader knows the sections of the format', 'no line is compared with %s' % t)
    # ---- start values
    for p, how in PART.values():
        x = names.get(p)
        if x is None:
            continue
        v = x[3]
        if how == 'and':
            good = v == ('bf', 1)
        else:
            good = v == ('seq', ()) or v == ('cont', p)
        if good:
            r.ok('%s: %s starts neutral' % (c, p), R.rec.loc)
        elif not opaque(M, v) or v == ('bf', 0):
            r.violation('%s: %s initial' % (c, p), R.rec.loc, 'all parts start as true / empty', 'starts as %s' % M.showt(v, 4))
        else:
            r.undec('%s: %s initial' % (c, p), 'start value not resolved', R.rec.loc)
    # ---- leaving the loop
    for kind, pc, f in R.rec.flows:
        if kind in ('brk', 'ret') and pc != 0:
            # leaving on something else than the end of the file
            bad = any(R.live(pc, R.assume(t), None) not in (0,) for t in list(R.tags) + [None, '# x', ''])
            if bad:
                r.violation('%s: reading stops early' % c, R.rec.loc, 'all lines of the file are read', 'the loop is left when %s' % M.show(pc, 5))
    # ---- sections
    for tag in sorted(R.tags):
        inst = '%s %s' % (c, tag)
        st = R.after_tag(tag)
        stc = {k: v for k, v in st.items() if v[2] is not None and v[2][0] in ('c', 'b') and (v[2][0] == 'c' or v[2][1] in (0, 1))}
        if not stc:
            r.undec(inst, 'section state not recognised', R.rec.loc)
            continue
        _, _, chg = R.in_state({}, text=tag)
        core = sorted(k for k in chg if k in CORE)
        if core:
            r.violation('%s: tag line' % inst, R.rec.loc, 'a section line changes nothing but the section', 'changes ' + ', '.join(core))
        else:
            r.ok('%s: tag line' % inst, R.rec.loc)
        for cm, what in (('# x', 'comment'), ('', 'empty line')):
            ev, th, chg = R.in_state(stc, text=cm)
            core = sorted(k for k in chg if k in CORE)
            sx = [x[0].key[-1] for x, sy, v in stc.values() if R.simp(x[5], R.assume(cm), {y: (w if y[0] == 'sym' else w[1]) for _, y, w in stc.values()}) not in (v, ('sym', x[1]), x[4])]
            if core or (cm == '' and th) or ev:
                r.violation('%s: %s' % (inst, what), R.rec.loc, 'comments and empty lines have no effect', 'changes %s, calls %s' % (', '.join(core), ', '.join(e[1] for e in ev)))
            else:
                r.ok('%s: %s' % (inst, what), R.rec.loc)
        ev, th, chg = R.in_state(stc)
        chg = {k: v for k, v in chg.items() if k in CORE}
        if tag in d:
            declares(r, R, inst, tag, d[tag], chg, names, cat, enc)
        elif tag in PART:
            part(r, P, R, inst, tag, allowed(tag, d), chg, names, enc)
        elif tag == '[ABSTRACTION_REGION_BDDS]':
            if chg:
                r.violation(inst, R.rec.loc, RULE_TAB, 'changes ' + ', '.join(sorted(chg)))
            else:
                r.ok(inst, R.rec.loc)
        else:
            r.undec(inst, 'section without reference', R.rec.loc)
    # ---- after the loop
    def repl(v, sub):
        if isinstance(v, tuple):
            if v in sub:
                return sub[v]
            if len(v) == 2 and v[0] in ('bf', 'b') and isinstance(v[1], int):
                bad = [a for a in M.atoms_of(v[1]) if opaque(M, ('s', repl(M.atoms[a], sub)))]
                return v if bad else ('b', 1)
            return tuple(repl(x, sub) for x in v)
        return v
    sub = {}
    for q, x in names.items():
        pv = R.rec.post.get(x[1], ())
        if len(pv) == 1 and pv[0] is not None:
            sub[pv[0]] = ('s', 'after:' + q)
    for t, (p, how) in PART.items():
        if t not in R.tags and not (how == 'push'):
            continue
        fin = s.field(p)
        if fin is None:
            continue
        x = names.get(p)
        if x is None:
            if how == 'push':
                continue
            if fin in (('bf', 0), ('bf', 1)):
                r.violation('%s: %s final' % (c, p), where, RULE_TAB, 'no line has an effect on %s, which is constantly %s' % (p, ('false', 'true')[fin[1]]))
            else:
                r.undec('%s: %s final' % (c, p), 'part not tracked through the loop', where)
            continue
        pv = R.rec.post.get(x[1], ())
        loopv = pv[0] if len(pv) == 1 else None
        if loopv is None:
            r.undec('%s: %s final' % (c, p), 'value after the loop not recognised', where)
            continue
        if how == 'and':
            good = fin == loopv
        else:
            good = defaulted(M, fin, loopv)
            if '[MOTION STATE OUTPUT]' in R.tags and how == 'push' and tag_of(p) == '[ENV_LIVENESS]':
                # this mode always adds an assumption of its own
                good = True if fin[0] == 'seq' and fin[1] and fin[1][0] == ('all', loopv) else good
        if good is None and not opaque(M, repl(fin, sub)):
            good = False
        if good is True:
            r.ok('%s: %s final' % (c, p), where)
        elif fin == loopv or good is False and not opaque(M, repl(fin, sub)):
            r.violation('%s: %s final' % (c, p), where, 'after reading, each part is what the lines made of it (an empty liveness list becomes [true])',
                        'final value %s' % M.showt(fin, 6))
        else:
            r.undec('%s: %s final' % (c, p), 'final value not recognised: %s' % M.showt(fin, 4)[:200], where)
    if notes:
        r.undec('%s: analysis notes' % c, '; '.join(notes)[:300])


def tag_of(p):
    return [t for t, (q, _) in PART.items() if q == p][0]


def defaulted(M, fin, lv):
    """fin == (size(lv)==0 ? lv+[true] : lv)"""
    TRUE = (('item', ('bf', 1)), ('item', ('b', 1)))

    def parts(v):
        return v[1] if v[0] == 'seq' else (('all', v),)
    base = parts(lv)
    if fin == lv:
        return False
    if fin[0] == 'iite':
        f = fin[1][1] if isinstance(fin[1], tuple) else fin[1]
        e = empty_test(M, f, lv)
        if e is None:
            return None
        d, o = (fin[2], fin[3]) if e else (fin[3], fin[2])
        dp = parts(d)
        one = dp in tuple((q,) for q in TRUE) or (dp[:-1] == base and dp[-1] in TRUE)
        return bool(one and o == lv)
    ps = parts(fin)
    if ps[:len(base)] == base and len(ps) == len(base) + 1:
        q = ps[-1]
        if q[0] == 'cond':
            f = q[1][1] if isinstance(q[1], tuple) else q[1]
            e = empty_test(M, f, lv)
            if e == 1 and len(q[2]) == 1 and q[2][0] in TRUE and not q[3]:
                return True
            if e == 0 and len(q[3]) == 1 and q[3][0] in TRUE and not q[2]:
                return True
            if e is not None:
                return False
            return None
        if q in TRUE:
            return False
    return None


def empty_test(M, f, lv):
    """1 if f is size(lv)==0, 0 if its negation"""
    ats = M.atoms_of(f)
    if len(ats) != 1:
        return None
    a = list(ats)[0]
    k = M.atoms[a]
    if k[0] == 'cmp' and k[1] == '==' and ('c', 0) in k[2:4] and ('size', lv) in k[2:4]:
        return 1 if M.restrict(f, a, 1) == 1 else 0
    if k[0] == 'cmp' and k[1] == '<' and k[2] == ('c', 0) and k[3] == ('size', lv):
        return 0 if M.restrict(f, a, 1) == 1 else 1
    return None


def items(v, x):
    """values appended to the list v had before the line"""
    if v[0] != 'seq' or not v[1] or v[1][0] != ('all', x[4]) or any(p[0] != 'item' for p in v[1][1:]):
        return None
    return [p[1] for p in v[1][1:]]


def declares(r, R, inst, tag, want, chg, names, cat, enc):
    M = R.M
    L = {}
    extra = sorted(k for k in chg if not k.startswith('variable'))
    if extra:
        r.violation(inst, R.rec.loc, RULE_TAB, 'a line that declares a variable also changes ' + ', '.join(extra))
        return
    for k in ('variables', 'variableNames', 'variableTypes'):
        x = names.get(k)
        if x is None or k not in chg:
            r.violation(inst, R.rec.loc, RULE_TAB, 'a line of this section does not add to %s' % k) if x is not None or R.rec is not None else None
            return
        L[k] = items(chg[k][1], x)
        if L[k] is None:
            r.undec(inst, 'additions to %s not recognised: %s' % (k, M.showt(chg[k][1], 4)[:150]), R.rec.loc)
            return
    n = len(L['variables'])
    line = R.line
    got = []
    if len(L['variableNames']) != n or len(L['variableTypes']) != n:
        r.violation(inst, R.rec.loc, RULE_TAB, 'different numbers of variables (%d), names (%d) and categories (%d) are added' % (n, len(L['variableNames']), len(L['variableTypes'])))
        return
    for nm, ty, va in zip(L['variableNames'], L['variableTypes'], L['variables']):
        k = 'name' if nm == line else 'next' if nm == ('cat', line, ('str', "'")) else M.showt(nm, 4)
        if va[0] == 'newvar' and va[1] != ty:
            r.violation(inst, R.rec.loc, RULE_TAB, 'a variable is created in category %s but recorded as %s' % (cat(va[1]), cat(ty)))
            return
        got.append((k, cat(ty)))
    if sorted(map(str, got)) == sorted(map(str, [('name', want[0]), ('next', want[1])])):
        r.ok(inst, R.rec.loc)
    elif any(g[1] is None for g in got):
        r.undec(inst, 'category not constant', R.rec.loc)
    else:
        r.violation(inst, R.rec.loc, RULE_TAB, 'declares %s, expected name in %s and primed name in %s' % (got, want[0], want[1]))


def part(r, P, R, inst, tag, want, chg, names, enc):
    M = R.M
    p, how = PART[tag]
    extra = sorted(k for k in chg if k != p)
    if extra:
        r.violation(inst, R.rec.loc, RULE_TAB, 'a line of %s changes %s' % (tag, ', '.join(extra)))
        return
    if p not in chg:
        if p in names:
            r.violation(inst, R.rec.loc, RULE_TAB, 'a line of %s does not change %s' % (tag, p))
        else:
            r.undec(inst, '%s is not changed by the line loop' % p, R.rec.loc)
        return
    x, v = chg[p]
    if how == 'push':
        it = items(v, x)
        if it is None or len(it) != 1 or it[0][0] != 'bf':
            (r.undec if it is None else lambda a, b, w: r.violation(a, w, RULE_TAB, b))(inst, 'list after the line: %s' % M.showt(v, 4)[:200], R.rec.loc)
            return
        F, phi = it[0][1], None
    else:
        if v[0] != 'bf':
            r.undec(inst, 'value not recognised', R.rec.loc)
            return
        F, phi = v[1], x[4][1]
    ps = [a for a in M.allatoms(F) if M.atoms[a][0] == 'fun' and M.atoms[a][1] == 'parse']
    if len(ps) != 1:
        if opaque(M, ('bf', F)):
            r.undec(inst, 'formula not recognised: %s' % M.show(F, 4)[:200], R.rec.loc)
        else:
            r.violation(inst, R.rec.loc, RULE_TAB, 'the part becomes %s' % M.show(F, 5))
        return
    a = ps[0]
    k = M.atoms[a]
    pf = M.mk(a, 1, 0)
    args = k[2]
    ref = M.AND(phi, pf) if phi is not None else pf
    if F != ref:
        r.violation(inst, R.rec.loc, RULE_TAB, 'the part becomes %s instead of %s' % (M.show(F, 5), M.show(ref, 5)))
        return
    if args[0] != R.line:
        r.violation(inst, R.rec.loc, RULE_TAB, 'the text parsed is %s, not the line' % M.showt(args[0], 4))
        return
    cats = catset(args[1])
    if cats is None:
        r.undec(inst, 'allowed categories not recognised: %s' % M.showt(args[1], 4)[:200], R.rec.loc)
        return
    got = set(enc.get(c, str(c)) for c in cats)
    if got == want:
        r.ok(inst, R.rec.loc)
        r.count('formula contexts', 1)
    else:
        r.violation(inst, R.rec.loc, 'formulas of a section may mention exactly the variables the section allows',
                    'missing: %s; not allowed but accepted: %s' % (sorted(want - got), sorted(got - want)))


def catset(v):
    if v[0] != 'seq' or any(p[0] != 'item' or p[1][0] != 'c' for p in v[1]):
        return None
    return set(p[1][1] for p in v[1])

"""C11: malformed specifications are rejected by every reader."""
from .specread import *
from .c12 import understood
from .cfile import check_io

RULE = {'section': 'a section name that does not exist is an error',
        'early': 'a line before the first section is an error',
        'dup': 'a variable name declared twice (or clashing with a primed name) is an error',
        'nofile': 'a missing file name is an error', 'open': 'a file that cannot be opened is an error',
        'ok': 'a line of a known section is not rejected by the reader itself'}


def check(r, tier):
    P = program()
    r.rule('for every specification reader: conditions of all thrown exceptions, specialised to an unknown section, a line before any section, a line of each section; '
           'the condition of the rejection after reading is "as many different names as names"; no file / unreadable file is rejected')
    cl = readers(P)
    for x in EXPECTED:
        if not any(c == x or c.startswith(x) for c in cl):
            r.undec('reader ' + x, 'no specification reader recognised in this class')
    for c in cl:
        one(r, P, c)
    r.rule('reading of a diagram file: a normal end implies that the file could be opened and holds a diagram')
    check_io(r, P, 'readBDDFromFile', 'r', RULE['open'], RULE['open'], RULE['open'])


def one(r, P, c):
    R = reader(P, c)
    M, I, s = R.M, R.I, R.s
    r.listed('readers', [c])
    where = '%s:%s' % (P.rel(s.fn['file']), s.fn['l'])
    if R.rec is None:
        r.undec('line loop of ' + c, 'section dispatch not recognised', where)
        return
    r.count('exceptions', len(I.throws))
    # ---- sections that do not exist
    for tag in ('[FOO]', '[INPUTS]', '[ENV_FAIRNESS]', '[]', '[SYS_TRANS', '[env_trans]', '[ SYS_INIT ]'):
        if tag in R.tags:
            continue
        c0 = R.throws_on(tag)
        known = R.assume(tag)
        if c0 == 1:
            r.ok('%s: %s' % (c, tag), R.rec.loc)
        elif c0 == 0:
            r.violation('%s: unknown section' % c, R.rec.loc, RULE['section'], 'a line %s is not rejected' % tag)
        elif all(M.atoms[a][0] == 'cmp' and understood(M.atoms[a][2]) and understood(M.atoms[a][3]) or M.atoms[a][0] == 'phi' for a in M.atoms_of(c0)):
            r.violation('%s: unknown section' % c, R.rec.loc, RULE['section'], 'a line %s is rejected only when %s' % (tag, M.show(c0, 5)))
        else:
            r.undec('%s: %s' % (c, tag), 'rejected when %s' % M.show(c0, 4)[:200], R.rec.loc)
    # ---- before the first section
    st = {}
    for x, sy in R.state:
        v = x[3]
        st[x[1]] = (x, sy, v)
    ev, th, chg = R.in_state(st)
    t = M.disj([x[0] for x in th])
    core = sorted(k for k in chg if k in CORE)
    known = [v for _, _, v in st.values() if v[0] in ('c', 'b') and (v[0] == 'c' or v[1] in (0, 1))]
    if not known:
        r.undec('%s: before the first section' % c, 'section state not recognised', R.rec.loc)
    elif t == 1:
        r.ok('%s: before the first section' % c, R.rec.loc)
    elif t == 0 or core:
        r.violation('%s: before the first section' % c, R.rec.loc, RULE['early'],
                    'an ordinary line in the initial state is not rejected' + (' and changes ' + ', '.join(core) if core else ''))
    else:
        r.undec('%s: before the first section' % c, 'rejected when %s' % M.show(t, 4)[:200], R.rec.loc)
    # ---- after each section, ordinary lines are fine as far as the reader is concerned
    d = decl(R.tags)
    for tag in sorted(R.tags):
        if tag not in d and tag not in PART:
            continue
        stc = {k: v for k, v in R.after_tag(tag).items() if v[2] is not None and v[2][0] in ('c', 'b') and (v[2][0] == 'c' or v[2][1] in (0, 1))}
        ev, th, chg = R.in_state(stc)
        t = M.disj([x[0] for x in th])
        if t == 0:
            r.ok('%s: lines of %s' % (c, tag), R.rec.loc)
        elif t == 1:
            r.violation('%s: lines of %s' % (c, tag), R.rec.loc, RULE['ok'], 'every line of the section is rejected')
        else:
            r.ok('%s: lines of %s (accepted unless %s)' % (c, tag, M.show(t, 3)[:80]), R.rec.loc)
    # ---- duplicate names
    names = {x[0].key[-1]: x for x in R.rec.leafs if x[0].key[0] == 'F'}
    x = names.get('variableNames')
    pv = R.rec.post.get(x[1], ()) if x is not None else ()
    if len(pv) != 1 or pv[0] is None:
        r.undec('%s: names' % c, 'list of names not recognised after reading', where)
    else:
        nv = pv[0]
        found = None
        maybe = []
        for t in I.throws:
            for a in M.atoms_of(t[0]):
                k = M.atoms[a]
                if not mentions(k, nv):
                    continue
                maybe.append(t)
                if k[0] == 'cmp' and k[1] in ('==', '<') and all(isinstance(y, tuple) and y[0] == 'size' for y in k[2:4]):
                    sets = [y for y in k[2:4] if y[1][:2] == ('fun', 'setof') and copyof(M, y[1], nv)]
                    alls = [y for y in k[2:4] if y[1] == nv or y[1] in [R.rec.post.get(names[n][1], (None,))[0] for n in ('variables', 'variableTypes') if n in names]]
                    if len(sets) == 1 and len(alls) == 1:
                        base = base_pc(R, M)
                        g = I.care(t[0], base)
                        want = (M.mk(a, 0, 1) if k[1] == '==' else M.mk(a, 1, 0))
                        if k[1] == '<' and k[2] != sets[0]:
                            continue
                        if g == want or I.care(g, want) == 1 and False:
                            found = (t, True)
                        else:
                            found = found or (t, g, want)
        if found and found[1] is True:
            r.ok('%s: names' % c, found[0][1])
        elif found:
            g, want = found[1], found[2]
            if M.AND(want, M.NOT(g)) == 0:
                r.ok('%s: names' % c, found[0][1])
            elif not opaque(M, ('b', strip(M, g, want))) or all(sizes(M.atoms[a]) for a in M.atoms_of(g)):
                r.violation('%s: names' % c, found[0][1], RULE['dup'], 'duplicates are rejected only when %s' % M.show(strip(M, g, want), 4))
            else:
                r.undec('%s: names' % c, 'rejected when %s' % M.show(g, 4)[:200], found[0][1])
        elif maybe and [t for t in maybe if off_by(M, t, nv)]:
            t = [t for t in maybe if off_by(M, t, nv)][0]
            r.violation('%s: names' % c, t[1], RULE['dup'], 'duplicates are rejected only when %s' % M.show(I.care(t[0], R.rec.entry), 4)[:400])
        elif maybe:
            r.undec('%s: names' % c, 'rejection not recognised', maybe[0][1])
        elif any(True for t in I.throws if M.AND(t[0], R.rec.c) == t[0] and throws_names(M, t, x)):
            r.undec('%s: names' % c, 'names are checked while reading', R.rec.loc)
        else:
            r.violation('%s: names' % c, where, RULE['dup'], 'nothing is rejected because of the names')
    # ---- files
    nofile = [a for a in M.allatoms(M.disj([t[0] for t in I.throws])) if M.atoms[a][0] == 'cmp' and any(y == ('size', ('cont', 'filenames')) for y in M.atoms[a][2:4])]
    zero = 0
    th = M.disj([t[0] for t in I.throws])
    f = th
    for a in nofile:
        k = M.atoms[a]
        v = {'==': lambda u, w: u == w, '<': lambda u, w: u < w, '<=': lambda u, w: u <= w}.get(k[1])
        u, w = [0 if y == ('size', ('cont', 'filenames')) else y[1] if y[0] == 'c' else None for y in k[2:4]]
        if v and u is not None and w is not None:
            f = M.restrict(f, a, int(v(u, w)))
    if f == 1:
        r.ok('%s: no file name' % c, where)
    elif not nofile:
        r.violation('%s: no file name' % c, where, RULE['nofile'], 'the number of file names is not checked')
    else:
        r.undec('%s: no file name' % c, 'rejected when %s' % M.show(f, 4)[:200], where)
    op = [a for a in M.allatoms(th) if M.atoms[a][0] == 'fun' and M.atoms[a][1] in ('stream.fail', 'stream.is_open', 'streamok', 'stream.good', 'stream.operator!')
          and mentions(M.atoms[a], ('elem', ('cont', 'filenames'), ('c', 0)))]
    if not op:
        r.violation('%s: unreadable file' % c, where, RULE['open'], 'opening the specification is not checked')
    else:
        a = op[0]
        bad = 1 if M.atoms[a][1] in ('stream.fail', 'stream.operator!') else 0
        g = M.restrict(th, a, bad)
        for b in nofile:
            k = M.atoms[b]
            u, w = [2 if y == ('size', ('cont', 'filenames')) else y[1] if y[0] == 'c' else None for y in k[2:4]]
            g = M.restrict(g, b, int({'==': u == w, '<': u < w, '<=': u <= w}[k[1]]))
        if g == 1:
            r.ok('%s: unreadable file' % c, where)
        else:
            r.violation('%s: unreadable file' % c, where, RULE['open'], 'rejected only when %s' % M.show(g, 4)[:200]) if g == 0 else \
                r.undec('%s: unreadable file' % c, 'rejected when %s' % M.show(g, 4)[:200], where)


def copyof(M, v, nv):
    """v is the set of all elements of the list nv"""
    if v[:2] != ('fun', 'setof') or v[3] != ('c', 0) or v[4] != ('size', v[2]):
        return False
    u = v[2]
    return u == nv or u[0] == 'seq' and len(u[1]) == 1 and u[1][0] in (('all', nv),) or each(u, nv)


def each(u, nv):
    if u[0] == 'seq' and len(u[1]) == 1 and u[1][0][0] in ('map', 'for') and mentions(u, nv):
        p = u[1][0]
        return len(p) >= 4 and p[1] == ('range', ('size', nv)) and p[3] == (('item', ('elem', nv, ('s', ('bi', p[2])))),)
    return False


def numeric(t):
    return t[0] == 'c' or t[0] == 'size' or t[0] == 'add' and numeric(t[1]) and numeric(t[2])


def sizes(k):
    return k[0] == 'cmp' and numeric(k[2]) and numeric(k[3])


def off_by(M, t, nv):
    for a in M.atoms_of(t[0]):
        k = M.atoms[a]
        if sizes(k) and any(has_set(y, nv) for y in k[2:4]):
            return True
    return False


def has_set(t, nv):
    if t[0] == 'add':
        return has_set(t[1], nv) or has_set(t[2], nv)
    return t[0] == 'size' and t[1][:2] == ('fun', 'setof') and t[1][2] == nv


def strip(M, g, want):
    return g


def base_pc(R, M):
    """condition under which the code after the line loop runs, as far as files are concerned"""
    return R.rec.entry


def mentions(t, v):
    if t == v:
        return True
    return isinstance(t, tuple) and any(mentions(x, v) for x in t)


def throws_names(M, t, x):
    return any(mentions(M.atoms[a], x[4]) for a in M.allatoms(t[0]))

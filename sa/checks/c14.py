"""C14: files are read and written as named on the command line."""
from .mainprog import *
from .cfile import check_io

RULE = {'in': 'the specification is read from the first file name', 'extra': 'further input files are the file names that follow',
        'left': 'a file name that is not used stays in the list (and is reported as superfluous)',
        'out': 'the strategy goes to the file name that follows the input files, or to the standard output if there is none',
        'none': 'a missing file name is an error', 'wr': 'input files are never opened for writing',
        'open': 'an output file that cannot be opened is an error', 'fail': 'an output file that was not written completely is an error',
        'skip': 'nothing is written unless there is something to extract'}
OUTPUT = ('XExtractExplicitStrategy', 'XExtractPermissiveExplicitStrategy', 'XExtractExplicitCounterStrategy', 'XExtractSymbolicStrategy')


def family(c):
    return c.split('<')[0]


def expect(P, c):
    """(number of input files, takes an output file: no / optional / required)"""
    anc = [c] + list(P.ancestors(c))
    n = 1
    if any(family(a) in ('XTwoDimensionalCost', 'XNonDeterministicMotion') for a in anc):
        n = 2
    out = 'no'
    if family(c) in OUTPUT:
        out = 'required' if family(c) == 'XExtractSymbolicStrategy' else 'optional'
    return n, out


def check(r, tier):
    P = program()
    r.rule('for every option combination: abstract run of init with 0 to 4 symbolic file names (specification reader, cost and BDD files: which name is opened, which names are left, which becomes the output name); '
           'abstract run of execute: output file opened for writing only under the output name, failing to open or to write completely leads to an exception, without a name the standard output is used')
    done = {}
    for c in combos(P):
        if c.cls is None:
            r.undec('row "%s"' % c.params, 'class not recognised', c.loc)
            continue
        if c.cls in done:
            continue
        done[c.cls] = 1
        one_init(r, P, c)
    ex = {}
    for c in combos(P):
        if c.cls and family(c.cls) in OUTPUT and family(c.cls) not in ex:
            ex[family(c.cls)] = c
            one_exec(r, P, c)
    if tier == 'thorough':
        for c in combos(P):
            if c.cls and family(c.cls) in OUTPUT and ex[family(c.cls)] is not c:
                one_exec(r, P, c)
    r.rule('writing of a diagram file: a normal end implies that opening, header, diagram and closing all succeeded; the header comes first, the file is emptied when opened')
    check_io(r, P, 'writeBDDToFile', 'w', RULE['out'], RULE['open'], RULE['fail'])
    r.count('classes', len(done))


def leaves_of(v):
    if v[0] == 'iite':
        return [y for x in v[2:] for y in leaves_of(x)]
    return [v]


def cut(I, st, this, args, e):
    return ('bf', 1)


def one_init(r, P, c):
    nin, out = expect(P, c.cls)
    fn = P.find_method(c.cls, 'init')
    where = '%s:%s' % (P.rel(fn['file']), fn['l']) if fn else c.loc
    for n in range(0, 5):
        key = '%s with %d file names' % (c.cls, n)
        hooks = {'parseBooleanFormula': cut, 'GR1Context::parseBooleanFormula': cut, 'parseBooleanFormulaRecurse': cut, 'GR1Context::parseBooleanFormulaRecurse': cut,
                 'parseBooleanFormulaRecurseEx': cut}
        for f in P.fns.values():
            if f['n'].startswith('parseBooleanFormula'):
                hooks[f['q']] = cut
        s = Session(P, c.cls, hooks=hooks)
        names = [('str', 'F%d' % i) for i in range(n)]
        try:
            s.run('init', args=(('seq', tuple(('item', x) for x in names)),))
        except AnalysisBroken:
            raise
        except Exception as ex:
            r.undec(key, 'analysis failed: %r' % (ex,), where)
            continue
        M = s.M
        need = nin + (1 if out == 'required' else 0)
        if n < need:
            if s.st is None or s.st.pc == 0:
                r.ok(key, where)
            else:
                r.violation(key, where, RULE['none'], '%d file names are accepted although %d are needed' % (n, need))
            continue
        if s.st is None:
            if s.notes():
                r.undec(key, 'does not end normally; %s' % s.notes()[0], where)
            else:
                r.violation(key, where, RULE['none'], 'never succeeds with %d file names' % n)
            continue
        ins, bad, odd = [], None, None
        for e in s.I.events:
            k = e[1] if isinstance(e[1], str) else ''
            if k.startswith('open:std::basic_ifstream') or k == 'mgr.readBDDFromFile' and e[2][0][0] == 'str' or k.startswith('open:std::basic_ofstream') or k.startswith('open:std::basic_fstream'):
                a = [x for x in e[2] if x in names or x[0] in ('str', 's', 'fun', 'elem')]
                f = [x for x in e[2] if x in names]
                mode = ' '.join(str(x) for x in e[2] if 'ios' in str(x))
                if 'ofstream' in k or ('fstream' in k and 'ifstream' not in k):
                    bad = (e[3], f)
                    continue
                if len(f) != 1:
                    odd = (e[3], e[2])
                elif f[0] not in ins:
                    ins.append(f[0])
        if bad:
            r.violation(key, bad[0], RULE['wr'], 'opens %s for writing while reading the input' % (bad[1],))
            continue
        if odd:
            r.undec(key, 'file opened is %s' % (str(odd[1])[:120],), odd[0])
            continue
        if ins != names[:nin]:
            r.violation(key, where, RULE['in' if not ins or ins[0] != names[0] else 'extra'], 'reads %s in this order, expected %s' % ([x[1] for x in ins], [x[1] for x in names[:nin]]))
            continue
        p = s.fn['p'][0]
        left = [v for k, v in s.st.env.items() if k[0] == 'L' and k[2] == p['d'] and v[0] == 'seq']
        used = nin + (1 if out != 'no' and n > nin else 0)
        want = ('seq', tuple(('item', x) for x in names[used:]))
        if len(left) != 1:
            r.undec(key, 'list of file names not recognised after init', where)
            continue
        if left[0] != want:
            r.violation(key, where, RULE['left'], 'left over: %s, expected %s' % ([x[1] for x in left[0][1]], names[used:]))
            continue
        if out != 'no':
            o = s.field('outputFilename')
            exp = names[nin] if n > nin else ('str', '')
            alts = leaves_of(o) if o is not None else []
            wrong = [x for x in alts if x[0] == 'str' and x != exp]
            if len(alts) > 1 and wrong and all(x[0] == 'str' for x in alts) and exp in alts:
                r.violation(key, where, RULE['out'], 'output file name is "%s" under some condition, expected "%s"' % (wrong[0][1], exp[1]))
                continue
            if o is None or o[0] != 'str':
                r.undec(key, 'output file name not recognised: %s' % (o,), where)
                continue
            if o != exp:
                r.violation(key, where, RULE['out'], 'output file name is "%s", expected "%s"' % (o[1], exp[1]))
                continue
        r.ok(key, where)


def one_exec(r, P, c):
    key0 = 'writing by ' + c.cls
    fn = P.find_method(c.cls, 'execute')
    where = '%s:%s' % (P.rel(fn['file']), fn['l'])
    hooks = {}
    printed = []
    sym = family(c.cls) == 'XExtractSymbolicStrategy'

    def pr(I, st, this, args, e):
        printed.append(I.loc(e))
        I.events.append((st.pc, 'print', tuple(args), I.loc(e)))
        for a in args:
            I.touched(a, st, e, 'write')
        return ('void',)

    def ex(I, st, this, args, e):
        I.events.append((st.pc, 'solve', (), I.loc(e)))
        # solving sets the verdict
        for cl in [c.cls] + list(P.ancestors(c.cls)):
            if I.field_info(cl, 'realizable') is not None:
                I.write(st, (('F', cl, 'realizable'), ()), ('b', I.M.base('verdict', EMPTY)))
                break
        return ('void',)
    for f in P.fns.values():
        if f['n'].startswith('computeAndPrint'):
            hooks[f['q']] = pr
        if f['n'] == 'checkRealizability':
            hooks[f['q']] = ex
    hooks['GR1Context::execute'] = ex
    s = Session(P, c.cls, hooks=hooks)
    s.run('execute')
    M, I = s.M, s.I
    if s.notes():
        r.undec(key0, s.notes()[0], where)
        return
    evs = list({(e[3], repr(e[1]), repr(e[2])): e for e in I.events}.values())
    name = ('s', ('fld', 'outputFilename'))
    empty = M.cmp('==', name, ('str', ''))
    ver = M.base('verdict', EMPTY)
    todo = M.NOT(ver) if 'Counter' in family(c.cls) else ver
    prints = [e for e in evs if e[1] == 'print']
    opens = [e for e in evs if isinstance(e[1], str) and e[1].startswith('open:') and 'stringstream' not in e[1] and e[2]]
    if not prints:
        r.undec(key0, 'call that writes the strategy not recognised', where)
        return
    known = lambda b: all(M.atoms[a][0] in ('cmp', 'base') or 'stream' in repr(M.atoms[a]) for a in M.atoms_of(b))
    # --- when
    for e in prints:
        if M.AND(e[0], M.NOT(todo)) != 0:
            r.violation(key0 + ': when', e[3], RULE['skip'], 'written when %s' % M.show(e[0], 4)[:200])
        else:
            r.ok(key0 + ': when', e[3])
    std = [e for e in prints if ('s', ('glob', 'std::cout')) in e[2]]
    fil = [e for e in prints if e not in std]
    cs = M.disj([e[0] for e in std])
    if not sym:
        want = M.AND(todo, empty)
        if cs == want:
            r.ok(key0 + ': standard output', where)
        elif known(cs):
            r.violation(key0 + ': standard output', where, RULE['out'], 'written to the standard output when %s, expected when %s' % (M.show(cs, 4)[:200], M.show(want, 4)[:200]))
        else:
            r.undec(key0 + ': standard output', 'condition not recognised', where)
    elif std:
        r.violation(key0 + ': standard output', where, RULE['out'], 'symbolic strategy written to the standard output')
    # --- file
    if sym:
        for e in fil:
            if e[2][:1] == (name,):
                r.ok(key0 + ': file name', e[3])
            elif e[2] and e[2][0][0] in ('str', 'cat'):
                r.violation(key0 + ': file name', e[3], RULE['out'], 'written to %s' % (e[2],))
            else:
                r.undec(key0 + ': file name', 'written to %s' % (e[2],), e[3])
        cf = M.disj([e[0] for e in fil])
        if cf == M.AND(todo, M.NOT(empty)) or cf == todo:
            r.ok(key0 + ': file', where)
        elif known(cf):
            r.violation(key0 + ': file', where, RULE['out'], 'written when %s' % M.show(cf, 4)[:200])
        else:
            r.undec(key0 + ': file', 'condition not recognised', where)
        return
    for e in opens:
        md = repr(e[2][1:])
        if e[2][:1] == (name,) and 'ofstream' in e[1] and not any("ios_base::" + x in md for x in ('app', 'ate', 'in')) or "ios_base::trunc" in md and e[2][:1] == (name,) and 'ofstream' in e[1]:
            r.ok(key0 + ': file name', e[3])
        elif 'ofstream' in e[1] and (e[2][:1] == (name,) or e[2][:1] and e[2][0][0] in ('str', 'cat')):
            r.violation(key0 + ': file name', e[3], RULE['out'], 'opens %s' % (e[2],))
        else:
            r.undec(key0 + ': file name', 'opens %s' % (e[2],), e[3])
    outs = [('stream', e[1][5:], e[2]) for e in opens]
    if not fil:
        r.violation(key0 + ': file', where, RULE['out'], 'never written to the named file')
        return
    if not all(e[2] and e[2][0] in outs for e in fil):
        r.undec(key0 + ': file', 'stream written to not recognised', where)
        return
    o = fil[0][2][0]
    named = M.AND(todo, M.NOT(empty))
    cf = M.disj([e[0] for e in fil])
    # fresh state of the stream right after opening
    f0 = M.fun('stream.fail', (o,), EMPTY)
    notopen = [f0] if M.AND(cf, f0) == 0 else []
    if notopen and cf == M.AND(named, M.NOT(notopen[0])):
        r.ok(key0 + ': unusable file', where)
        r.ok(key0 + ': file', where)
    elif cf == named and not I.throws:
        r.violation(key0 + ': unusable file', where, RULE['open'], 'no check that the output file could be opened')
    elif known(cf):
        r.violation(key0 + ': file', where, RULE['out'] if notopen else RULE['open'], 'written when %s' % M.show(cf, 4)[:300])
    else:
        r.undec(key0 + ': file', 'condition %s' % M.show(cf, 4)[:200], where)
    # --- normal end although the file is incomplete?
    end = s.st.pc if s.st is not None else 0
    last = M.OR(s.st.env[('os', o)][1], s.st.env[('od', o)][1]) if s.st is not None and ('os', o) in s.st.env else None
    if last is None:
        r.undec(key0 + ': complete file', 'state of the output file not recognised', where)
        return
    bad = M.AND(M.AND(end, named), last)
    if notopen:
        thr = M.AND(M.AND(end, named), notopen[0])
        if thr != 0:
            r.violation(key0 + ': unusable file', where, RULE['open'], 'ends normally when %s' % M.show(thr, 4)[:200])
    if bad == 0:
        r.ok(key0 + ': complete file', where)
    elif known(bad):
        r.violation(key0 + ': complete file', where, RULE['fail'], 'ends normally although writing, flushing or closing the file failed: %s' % M.show(bad, 4)[:300])
    else:
        r.undec(key0 + ': complete file', 'condition not recognised', where)

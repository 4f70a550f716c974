"""Reading and writing of diagram files through C streams: every call that can fail is watched, and a normal end must imply
that all of them succeeded (C11, C14)."""
from ..engine import Session
from ..load import AnalysisBroken

# success of a call: what its value must be
OK = {'fopen': 'nonnull', 'fdopen': 'nonnull', 'fwrite': 'all', 'fputs': 'nonneg', 'fprintf': 'nonneg', 'fputc': 'nonneg', 'fclose': 'zero', 'fflush': 'zero', 'ferror': 'zero',
      'Dddmp_cuddBddStore': 'one', 'Dddmp_cuddBddLoad': 'nonnull'}


def run(P, method):
    fns = [x for x in P.fns.values() if x['n'] == method and x['file'].endswith('BFCuddManager.cpp')]
    if not fns:
        raise AnalysisBroken('no definition of ' + method)
    calls = []
    hooks = {}

    def mk(n):
        def h(I, st, this, args, e):
            v = I.typed(e['t'], 'call:' + n, tuple(args))
            calls.append((n, v, tuple(args), st.pc, I.loc(e)))
            return v
        return h
    for n in OK:
        hooks[n] = mk(n)
    s = Session(P, 'BFBddManager', hooks=hooks)
    s.fn = fns[0]
    st, ret = s.I.run(fns[0])
    uniq = {}
    for c in calls:
        uniq.setdefault((c[0], c[1], c[4]), c)
    return s, st, ret, list(uniq.values()), '%s:%s %s' % (P.rel(fns[0]['file']), fns[0]['l'], fns[0]['q'])


def failed(M, n, v, args):
    """equivalent descriptions of the failure of a call"""
    k = OK[n]
    z = ('c', 0)
    eq = lambda x: M.cmp('==', v, x)
    if n == 'fwrite':
        size, cnt = args[1], args[2]
        if cnt == ('c', 1) and size != ('c', 1):
            return [M.NOT(eq(('c', 1))), eq(z), M.cmp('<', v, cnt)]
        return [M.NOT(eq(cnt)), M.cmp('<', v, cnt), M.NOT(M.cmp('>=', v, cnt))]
    if k == 'nonnull':
        return [eq(z)]
    if k == 'zero':
        return [M.NOT(eq(z)), eq(('c', -1)), M.cmp('<', v, z)]
    if k == 'one':
        return [M.NOT(eq(('c', 1))), eq(z)]
    return [M.cmp('<', v, z), eq(('c', -1))]


def simple(M, b, calls):
    """the condition is about the results of the watched calls and about plain parameters only"""
    vs = [c[1] for c in calls]
    for a in M.atoms_of(b):
        t = M.atoms[a]
        plain = "'fun'" not in repr(t) and "'phi'" not in repr(t)
        if t[0] != 'cmp' or not (plain or any(v in t[2:] for v in vs)):
            return False
    return True


def check_io(r, P, method, mode, rule_name, rule_open, rule_fail):
    s, st, ret, calls, where = run(P, method)
    M = s.M
    r.listed('functions', [method])
    key = method
    end = st.pc if st is not None else 0
    opens = [c for c in calls if c[0] == 'fopen']
    if len(opens) != 1 or end == 0:
        r.undec(key + ': file', '%d files are opened' % len(opens), where)
        return
    o = opens[0]
    nm, md = (o[2] + (None, None))[:2]
    if nm == ('s', ('param', 'filename')) and md and md[0] == 'str' and md[1].replace('b', '').replace('t', '') == mode:
        r.ok(key + ': file', o[4])
    elif nm and md and md[0] == 'str' and (nm == ('s', ('param', 'filename')) or nm[0] in ('str', 'cat')):
        r.violation(key + ': file', o[4], rule_name, 'opens %s in mode %s' % (nm[1] if nm[0] == 'str' else 'the file', md[1]))
    else:
        r.undec(key + ': file', 'name or mode not recognised: %s' % (o[2],), o[4])
    for n, v, args, pc, loc in calls:
        if n == 'fclose' and mode == 'r':
            continue
        alts = [M.AND(M.AND(end, pc), x) for x in failed(M, n, v, args)]
        miss = 0 if 0 in alts else alts[0]
        rule = rule_open if n == 'fopen' else rule_fail
        k = '%s: failure of %s' % (key, n)
        later = [c for c in calls if c[0] == 'ferror']
        if miss == 0:
            r.ok(k, loc)
        elif later and n in ('fwrite', 'fputs', 'fprintf', 'fputc'):
            # the error indicator of the stream is sticky
            if all(any(M.AND(end, x) == 0 for x in failed(M, 'ferror', c[1], c[2])) for c in later):
                r.ok(k, loc)
            else:
                r.undec(k, 'error indicator of the stream', loc)
        elif M.AND(end, pc) == 0 or simple(M, miss, calls):
            r.violation(k, loc, rule, 'ends normally when %s' % M.show(miss, 4)[:300])
        else:
            r.undec(k, 'condition not recognised: %s' % M.show(miss, 4)[:200], loc)
    names = [c[0] for c in calls]
    core = 'Dddmp_cuddBddStore' if mode == 'w' else 'Dddmp_cuddBddLoad'
    if core not in names:
        r.undec(key + ': diagram', 'call of %s not found' % core, where)
        return
    if mode == 'w':
        if 'fclose' not in names and 'fflush' not in names:
            r.violation(key + ': failure of fclose', where, rule_fail, 'the file is never closed, so that it cannot be known whether it was written completely')
        # everything goes to the file that was opened, the header before the diagram
        idx = {n: i for i, n in reversed(list(enumerate(names)))}
        w = [c for c in calls if c[0] in ('fwrite', 'fputs', 'fprintf', core)]
        if all(o[1] in c[2] for c in w):
            r.ok(key + ': destination', where)
        else:
            r.undec(key + ': destination', 'stream of a write not recognised', where)
        h = [c for c in calls if c[0] in ('fwrite', 'fputs', 'fprintf')]
        if h and any(('s', ('param', 'fileprefix')) in c[2] for c in h):
            if all(names.index(c[0]) < idx[core] for c in h):
                r.ok(key + ': header first', where)
            else:
                r.violation(key + ': header first', h[0][4], rule_name, 'the header is written after the diagram')
            if all(idx.get('fclose', 99) > i for i, n in enumerate(names) if n in ('fwrite', core)):
                r.ok(key + ': closed last', where)
            else:
                r.violation(key + ': closed last', where, rule_fail, 'the file is closed before everything was written')
        elif not h:
            r.violation(key + ': header first', where, rule_name, 'the header is not written')
        else:
            r.undec(key + ': header first', 'header not recognised', where)
    st_ = [c for c in calls if c[0] == core][0]
    ids = [a for a in st_[2] if 'readNodeIndex' in repr(a)]
    vars_ = "('size', ('seqv', 'vars'))"
    if len(ids) == 1:
        t = repr(ids[0])
        r.ok(key + ': variable numbers', st_[4]) if M.show is not None and full(s, ids[0]) else r.undec(key + ': variable numbers', 'table of variable numbers not recognised: %s' % t[:200], st_[4])
    else:
        r.undec(key + ': variable numbers', 'table of variable numbers not found', st_[4])


def full(s, v):
    """table that maps every position of the list of variables to the number of the variable there"""
    if v[0] == 'fun' and v[1] == 'fold':
        t = repr(v)
        return "'range'" in t and "'size'" in t and "'vars'" in t
    return False

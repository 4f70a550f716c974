"""C15: exit status and diagnostics."""
from .mainprog import *

RULE = {'zero': 'exit status 0 means that the selected analysis ran to its end',
        'done': 'an analysis that ran to its end gives exit status 0',
        'msg': 'a non-zero exit status comes with an error message',
        'opt': 'an option that is not declared is an error, nothing is analysed',
        'files': 'superfluous file names are an error, nothing is analysed',
        'order': 'the context is read and its variable information computed before it is executed',
        'catch': 'every exception reaches a handler that prints a message and gives a non-zero status',
        'exit': 'the program does not end anywhere else with status 0',
        'swallow': 'no other handler swallows an error'}


def check(r, tier):
    P = program()
    r.rule('one abstract run of main with ghost variables (context read, executed, message printed): exit status 0 implies executed, executed implies no undeclared option and no superfluous file name, '
           'non-zero implies a message on the error stream; every exception type thrown anywhere in the program (and std::exception) has a handler in main that prints and returns a non-zero status; '
           'calls that may throw are inside the try block; no other exit call, no other swallowing handler')
    m = MainRun(P)
    M = m.M
    ex = m.ghost('execute')
    z, ok = m.when(lambda v: v == 0)
    nz, ok2 = m.when(lambda v: v != 0)
    r.count('calls in main followed', len(m.I.calls))

    def need(key, a, b, rule, detail, phi=False):
        """a implies b"""
        bad = M.AND(a, M.NOT(b))
        if bad == 0:
            r.ok(key, m.where)
        elif m.known_atoms(bad, phi):
            r.violation(key, m.where, rule, detail + ' when ' + M.show(bad, 4)[:400])
        else:
            r.undec(key, 'cannot be related: %s' % M.show(bad, 3)[:200], m.where)
    if not ok:
        r.undec('exit status', 'exit status %s not recognised' % (M.showt(m.ret, 3)[:200],), m.where)
    else:
        need('status 0 only after the analysis', z, ex, RULE['zero'], 'status 0 without having run the analysis')
        need('analysis gives status 0', ex, z, RULE['done'], 'the analysis ran but the status is not 0')
        need('message', nz, m.ghost('err'), RULE['msg'], 'non-zero status without a message on the error stream')
    if ex == 0:
        r.undec('execution of the analysis', 'call of execute not found', m.where)
        return
    need('undeclared option', m.unknown_argument(), M.NOT(ex), RULE['opt'], 'the analysis is run')
    if m.left is None:
        r.undec('superfluous file names', 'list of file names not recognised', m.where)
    else:
        need('superfluous file names', M.NOT(M.cmp('==', ('size', m.left), ('c', 0))), M.NOT(ex), RULE['files'], 'the analysis is run')
    callers = {n: sorted(set(f['q'] for f in P.fns.values() if f.get('body') is not None for x in walk(f['body'])
                             if x.get('k') in ('call', 'mcall') and x.get('n') == n)) for n in ('init', 'computeVariableInformation')}
    for n, pc, this, args, loc, depth, gh in m.calls:
        if n == 'execute':
            for g in ('init', 'cvi'):
                if g == 'cvi' and not callers['computeVariableInformation']:
                    r.violation('cvi before execute', loc, RULE['order'], 'nothing in the program calls computeVariableInformation')
                    continue
                need('%s before execute' % g, pc, gh[g], RULE['order'], 'execute is called without %s before it' % g, True)
        if n == 'cvi':
            need('init before variable information', pc, gh['init'], RULE['order'], 'variable information is computed before the specification is read', True)
    # ---- exceptions
    for n, pc, this, args, loc, depth, gh in m.calls:
        if n in ('init', 'cvi', 'execute'):
            inside(r, 'call of ' + n, depth, loc)
    for e in m.I.events:
        if e[1] == 'callptr':
            inside(r, 'creation of the context', e[2][-1][1], e[3])
    types = {}
    for f in P.fns.values():
        if f.get('body') is None:
            continue
        for x in walk(f['body']):
            if x.get('k') == 'throw' and x.get('e') is not None:
                types.setdefault(x['t'], '%s:%s' % (P.rel(f['file']), x['l']))
    types.setdefault('std::bad_alloc', 'any allocation')
    types.setdefault('std::out_of_range', 'std::string::substr and at()')
    types.setdefault('std::invalid_argument', 'numeric conversions')
    tries = [(f, x) for f in P.fns.values() if f.get('body') is not None for x in walk(f['body']) if x.get('k') == 'try']
    used = set(fn for _, _, fn in m.I.calls)
    mt = [(f, x) for f, x in tries if f is m.f or f['f'] in used]
    r.count('throw types', len(types))
    for t, where in sorted(types.items()):
        hs = [h for h in (m.I.handler_for({'h': x.get('h', [])}, t) for f, x in mt) if h is not None]
        if not mt:
            r.violation('exception ' + t, m.where, RULE['catch'], 'no try block in main; thrown at ' + where)
        elif not hs:
            r.violation('exception ' + t, m.where, RULE['catch'], 'no handler for exceptions of type %s (thrown at %s)' % (t, where))
        else:
            for h in hs:
                handler(r, P, m, t, h)
    called = set(x.get('f') for f in P.fns.values() if f.get('body') is not None for x in walk(f['body']) if x.get('k') in ('call', 'mcall'))
    for f, x in tries:
        if any(x is y for _, y in mt) or f['f'] not in called and f['q'] != 'main':
            continue
        for h in x.get('h', []):
            if any(y.get('k') == 'throw' for y in walk(h['b'])):
                r.ok('handler in ' + f['q'], '%s:%s' % (P.rel(f['file']), h['l']))
            else:
                r.undec('handler in ' + f['q'], 'handler outside of main does not rethrow', '%s:%s' % (P.rel(f['file']), h['l']))
    # ---- other ends of the program
    seen = set()
    for f in P.fns.values():
        if f.get('body') is None or f['file'] in ():
            continue
        for x in walk(f['body']):
            if x.get('k') in ('call', 'mcall') and x.get('n') in ('exit', '_exit', 'quick_exit', '_Exit', 'abort', 'terminate') and not x.get('c'):
                loc = '%s:%s' % (P.rel(f['file']), x['l'])
                if loc in seen or not P.rel(f['file']).startswith('src/'):
                    continue
                seen.add(loc)
                a = x.get('a') or []
                
                if x['n'] in ('exit', '_exit', 'quick_exit', '_Exit') and a and const_zero(a[0]):
                    r.violation('exit in ' + f['q'], loc, RULE['exit'], 'the program ends with status 0 in the middle of %s' % f['q'])
                else:
                    r.undec('exit in ' + f['q'], '%s call outside of main' % x['n'], loc)
    r.ok('no other end of the program found' if not seen else 'calls that end the program listed', '')


def const_zero(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'paren', 'icast') and e.get('e') is not None:
        e = e['e']
    return isinstance(e, dict) and e.get('v') in (0, '0', 'EXIT_SUCCESS')


def inside(r, what, depth, loc):
    if depth:
        r.ok(what + ' is inside the try block', loc)
    else:
        r.violation(what, loc, RULE['catch'], what + ' is not inside a try block of main')


def handler(r, P, m, t, h):
    from ..absint import State, Frame, MAIN
    s = Session(P, 'GR1Context', hooks={'printToolUsageHelp': quiet_hook})
    I = s.I
    I.stack.append(Frame(I.newframe(), MAIN, m.f))
    v = h.get('v')
    st = State({}, 1)
    fl = I.stmt(h['b'], st)
    loc = '%s:%s' % (P.rel(m.f['file']), h['l'])
    key = 'handler for ' + t
    if any(x[0] != 0 for x in I.throws):
        r.violation(key, loc, RULE['catch'], 'the handler throws again')
        return
    ends = [x for f in fl if f.kind == 'ret' and f.val for x in outcomes(I.M, f.val, f.st.pc)]
    bad = [v for v, pc in ends if v == ('c', 0)]
    if bad:
        r.violation(key, loc, RULE['catch'], 'the handler gives exit status 0')
        return
    if any(f.kind == 'n' and f.st.pc != 0 for f in fl):
        # falls out of the handler: whatever follows the try block
        after = after_try(m, h)
        if after is None:
            r.undec(key, 'what follows the try block is not recognised', loc)
            return
        if after == 0:
            r.violation(key, loc, RULE['catch'], 'after the handler the program ends with status 0')
            return
    elif not all(f.kind == 'ret' and f.val for f in fl) or not all(v[0] == 'c' for v, pc in ends):
        r.undec(key, 'exit status of the handler not recognised', loc)
        return
    pr = M_or(I, [e for e in I.events if e[1] == ('stream', 'std::cerr')])
    if pr == 1:
        r.ok(key, loc)
    elif pr != 1 and all(x.get('n') in ('getMessage', 'getShouldPrintUsage', 'what', 'printToolUsageHelp', 'c_str', 'str') or 'operator' in str(x.get('n')) for x in walk(h['b']) if x.get('k') in ('call', 'mcall')):
        r.violation(key, loc, RULE['catch'], 'the handler prints nothing to the error stream' if pr == 0 else 'the handler prints to the error stream only if %s' % I.M.show(pr, 4))
    elif not I.events and not I.calls:
        r.violation(key, loc, RULE['catch'], 'the handler prints nothing to the error stream')
    else:
        r.undec(key, 'message of the handler not recognised', loc)


def outcomes(M, v, pc):
    if pc == 0:
        return []
    if v[0] == 'iite' and v[1][0] == 'b':
        return outcomes(M, v[2], M.AND(pc, v[1][1])) + outcomes(M, v[3], M.AND(pc, M.NOT(v[1][1])))
    return [(v, pc)]


def M_or(I, evs):
    return I.M.disj([e[0] for e in evs])


def after_try(m, h):
    """constant exit status of falling out of the handler; None if unknown"""
    body = m.f['body'].get('b') or m.f['body'].get('s') or []
    for i, x in enumerate(body if isinstance(body, list) else []):
        if x.get('k') == 'try' and any(y is h for y in x.get('h', [])):
            rest = body[i + 1:]
            if not rest:
                return 0          # end of main
            for y in rest:
                if y.get('k') == 'ret':
                    v = [z.get('v') for z in walk(y['e']) if z.get('k') == 'int']
                    return int(v[0]) if len(v) == 1 else None
    return None

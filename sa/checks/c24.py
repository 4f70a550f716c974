"""C24: the operations of the decision diagram package hold and release node references exactly."""
from ..cuddcheck import *


def where(f, l):
    return '%s:%d' % (f['file'].split('/repo/')[-1] if '/repo/' in f['file'] else f['file'][-60:], l)


def check(r, tier):
    r.rule('on every path of an operation of the diagram package (loops: up to two rounds) the reference counts it adds and releases balance to zero, for every '
           'node it obtains or is given, also on the paths that give up; no count is released that was not added')
    r.rule('a result to which no reference is held is not used after (or by) an operation that may collect unreferenced nodes')
    G = graph()
    ops = operations(G)
    limit, secs = (12000, 40) if tier == 'quick' else (60000, 150)
    res = run_all(ops, limit, secs)

    def flagged(x):
        return bool(x['bad']) or set(x['returns']) - {0}
    # private helpers that take over or hand out references are followed as part of their callers
    inl = {n for n in ops if flagged(res[n]) and G.by[n].get('static') and n not in G.recursive and n not in stored(G)}
    ref = {n for n in ops if not res[n]['bad'] and set(res[n]['returns']) == {1} and G.by[n].get('static') and n in G.recursive}
    if inl or ref:
        again = [n for n in ops if (G.calls[n] & (inl | ref) or n in inl | ref)]
        # callers of helpers of helpers
        ch = True
        while ch:
            ch = False
            for n in ops:
                if n not in again and G.calls[n] & inl & set(again):
                    again.append(n)
                    ch = True
        res2 = run_all(again, limit, secs, frozenset(inl), frozenset(ref))
        called = set()
        for n in again:
            called |= G.calls[n] & inl
        for n in again:
            if n in inl and any(n in G.calls[m] for m in G.by if m != n):
                res[n]['bad'], res[n]['returns'] = {}, {}
                res[n]['und'] = 'part of its callers'
            else:
                res[n] = res2[n]
    done = []
    for n in ops:
        f, x = G.by[n], res[n]
        w = where(f, f['l'])
        if n in stored(G):
            r.undec('%s balances references' % n, 'nodes are kept in tables, arrays or structures', w)
            continue
        if x['und'] == 'part of its callers':
            continue
        for (rule, _), (text, l) in sorted(x['bad'].items(), key=str):
            r.violation('%s %s' % (n, rule), where(f, l), 'references balance' if rule == 'balance' else 'references are held while they are needed',
                        'in %s: %s' % (n, text))
        odd = {c: l for c, l in x['returns'].items() if c != 0}
        if odd and not (set(x['returns']) == {1} and f.get('static')):
            c, l = sorted(odd.items())[0]
            r.violation('%s result' % n, where(f, l), 'the result is returned without a reference of the operation', 'in %s: the returned node keeps %+d reference(s)' % (n, c))
        if x['bad'] or odd and not f.get('static'):
            continue
        if x['und']:
            r.undec('%s balances references' % n, x['und'] + ' (%d paths followed)' % x['paths'], w)
        else:
            r.ok('%s balances references (%d paths)' % (n, x['paths']), w)
            done.append(n)
        r.count('paths', x['paths'])
    r.listed('functions', done)
    r.count('node obligations', sum(res[n]['obl'] for n in ops))
    if len(done) < 150:
        raise AnalysisBroken('only %d operations could be followed completely' % len(done))


def stored(G):
    return {n for fs in STORED.values() for n in fs}

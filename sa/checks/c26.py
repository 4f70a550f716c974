"""C26: an operation interrupted by variable reordering is repeated from its operands."""
from ..cuddcheck import *
from .c24 import where

# operator handed to an apply recursion, which handles its giving up
OPERATORS = {'Cudd_addMinus'}
# only constants or existing variables are involved
INNER = {('cuddAddOuterSumRecur', 'Cudd_addApply'), ('cuddAddNonSimComposeRecur', 'Cudd_addIthVar')}


def check(r, tier):
    r.rule('an operation of the public interface that calls anything which can give up because variables were reordered clears the mark before the call and '
           'returns only after it found the mark not set by its last attempt (all paths, loops: up to two rounds)')
    r.rule('inside a computation that is repeated in this way no operation is called that clears the mark and repeats on its own: it would continue with a changed variable order')
    G = graph()
    own, give = G.handlers, G.give
    if len(own) < 60 or len(give) < 60:
        raise AnalysisBroken('%d operations that repeat, %d computations that can give up' % (len(own), len(give)))
    r.count('operations that repeat', len(own))
    r.count('computations that can give up', len(give))
    pub = {n for n, f in G.by.items() if n.startswith('Cudd_') and not f.get('static') and '/cudd/' in f['file'] and f['file'].endswith('.c')}
    for n in sorted(pub & give - OPERATORS):
        f = G.by[n]
        l = [(e['n'], e['l']) for e in G.sites(n) if e['n'] in give and not projection(e)][0]
        r.violation('%s repeats' % n, where(f, l[1]), 'repeated after reordering', '%s calls %s, which gives up when variables are reordered, and never looks whether that happened' % (n, l[0]))
    names = sorted(own)
    res = run_all(names, 12000 if tier == 'quick' else 60000, 40 if tier == 'quick' else 150)
    for n in names:
        f, x = G.by[n], res[n]
        w = where(f, f['l'])
        for (rule, _), (text, l) in sorted(x['marks'].items(), key=str):
            r.violation('%s %s' % (n, rule), where(f, l), {'clear': 'the mark is cleared before each attempt', 'return': 'repeated after reordering'}[rule], 'in %s: %s' % (n, text))
        if x['marks']:
            continue
        if x['und'] or not x['paths']:
            r.undec('%s is repeated after reordering' % n, x['und'] or 'no path', w)
        else:
            r.ok('%s is repeated after reordering (%d paths)' % (n, x['paths']), w)
        r.count('paths', x['paths'])
    for n in sorted(give):
        f = G.by[n]
        if '/cudd/' not in f['file'] or n in pub:
            continue
        bad = False
        for e in G.sites(n):
            m, l = e['n'], e['l']
            if m in own and (n, m) not in INNER:
                bad = True
                r.violation('%s nests' % n, where(f, l), 'no repetition inside a repeated computation', '%s can give up because of reordering but calls %s, which handles reordering on its own' % (n, m))
        if not bad:
            r.ok('%s leaves the repetition to its caller' % n, where(f, f['l']))
        r.count('call sites', len(G.sites(n)))

"""Per-function results of following the paths of the diagram package (see cuddrc)."""
import multiprocessing
import os
from .load import cudd_program, AnalysisBroken
from . import cuddrc
from .cuddrc import *

# files whose functions move nodes inside the tables (reordering, table and manager housekeeping): reference counts there describe arcs and
# entries, not ownership by the running function
TABLES = {'cuddReorder.c', 'cuddLinear.c', 'cuddSymmetry.c', 'cuddGroup.c', 'cuddAnneal.c', 'cuddGenetic.c', 'cuddExact.c', 'cuddWindow.c', 'cuddZddReord.c',
          'cuddZddLin.c', 'cuddZddSymm.c', 'cuddZddGroup.c', 'cuddTable.c', 'cuddRef.c', 'cuddInit.c', 'cuddCache.c', 'cuddLCache.c', 'cuddCheck.c'}
# nodes kept in factor structures, arrays or tables of partial results
STORED = {'cuddDecomp.c': ('BuildConjuncts', 'ZeroCase', 'cuddConjunctsAux'), 'cuddApprox.c': ('RAbuildSubset',), 'cuddAddWalsh.c': ('addWalshInt',),
          'cuddBridge.c': ('cuddBddTransfer',), 'cuddSubsetHB.c': ('cuddSubsetHeavyBranch', 'BuildSubsetBdd'),
          'cuddSplit.c': ('Cudd_SplitSet', 'cuddSplitSetRecur', 'mintermsFromUniverse', 'selectMintermsFromUniverse'), 'cuddSat.c': ('getCube',)}
_G = None


def graph():
    global _G
    if _G is None:
        _G = Program(cudd_program())
        _G.recursive = {n for n in _G.by if n in closure(_G, n)}
    return _G


def closure(G, n):
    out, w = set(), list(G.calls[n])
    while w:
        m = w.pop()
        if m in out or m not in G.calls:
            continue
        out.add(m)
        w += G.calls[m]
    return out


def par(p, keys):
    acc = set()
    for s in p:
        if s == 1:
            acc ^= {1}
            continue
        k = ('bit', repr(s))
        if k in keys:
            if keys[k]:
                acc ^= {1}
        else:
            acc ^= {s}
    return frozenset(acc)


def nk(v, keys):
    return (v[0], v[1], par(v[2], keys)) if v[0] == 'n' else v


def base(f):
    return f['file'].split('/')[-1]


def analyse(n, limit, seconds, inline, referenced):
    """{'bad': [(rule, text, line)], 'returns': {counts}, 'paths': k, 'und': reason, 'cache': ...}"""
    G = graph()
    f = G.by[n]
    G.inline, G.referenced = inline, referenced
    res = {'n': n, 'bad': {}, 'returns': {}, 'paths': 0, 'und': None, 'look': {}, 'ins': {}, 'mism': {}, 'hits': [], 'miss': [], 'obl': 0, 'marks': {}}
    try:
        for p, v, l in paths(G, f, limit, seconds):
            res['paths'] += 1
            i = p.own(v) if v[0] == 'n' else None
            for j, c in p.count.items():
                res['obl'] += 1
                if c and j != i and j not in p.escaped:
                    res['bad'].setdefault(('balance', p.name(j)), ('a reference to %s is never given up (%+d) on a path that returns %s' % (p.name(j), c, 'NULL' if v[0] == 'null' else 'a value'), l))
            if i is not None and i not in p.escaped:
                res['returns'].setdefault(p.count[i], l)
            for rule, text, ml in p.marks:
                res['marks'].setdefault((rule, text), (text, ml))
            if p.mark == 'set' or p.mark == 'open' and p.gave is not False:
                res['marks'].setdefault(('return', p.openby), ('it returns although %s (line %d) may have been interrupted by reordering' % p.openby, l))
            # cache
            open_ = [(o, a) for o, a, _, r in p.look if r is None]
            for o, a, ll, r in p.look:
                res['look'].setdefault(repr(o), ll)
            for o, a, val, ll in p.ins:
                res['ins'].setdefault(repr(o), ll)
                ka = [nk(p.norm(x), p.keys) for x in a]
                if open_ and not any(o2 == o and [nk(p.norm(x), p.keys) for x in a2] == ka for o2, a2, _, _ in p.look):
                    same = [a2 for o2, a2, _, _ in p.look if o2 == o]
                    res['mism'].setdefault((ll, repr(o)), (bool(same), [show(x) for x in ka], [[show(nk(p.norm(x), p.keys)) for x in a2] for a2 in same]))
            if v[0] == 'n':
                for o, a, ll, r in p.look:
                    if r is not None:
                        r = p.norm(r)
                        if v[1] == r[1]:
                            res['hits'].append((repr(o), par(v[2] ^ r[2], p.keys), bits(p), ll, l))
                for o, a, val, ll in p.ins:
                    val = p.norm(val)
                    if val[0] == 'n' and v[1] == val[1]:
                        res['miss'].append((repr(o), par(v[2] ^ val[2], p.keys), bits(p), ll, l))
    except Bad as b:
        res['bad'].setdefault((b.rule, b.text), (b.text, b.line))
    except Unknown as u:
        res['und'] = str(u)
    except RecursionError:
        res['und'] = 'recursion'
    res['hits'] = list(set((o, d, b, ll, l) for o, d, b, ll, l in res['hits']))
    res['miss'] = list(set((o, d, b, ll, l) for o, d, b, ll, l in res['miss']))
    return res


def bits(p):
    return frozenset((k[1], bool(v)) for k, v in p.keys.items() if k[0] == 'bit' and '#' not in k[1])


def show(v):
    if v[0] == 'n':
        i = v[1]
        t = i if isinstance(i, str) else '%s(%s)' % (i[0], i[1]) if len(i) > 1 else str(i)
        return ('!' if 1 in v[2] else '') + ('reg ' if not v[2] else '') + str(t)
    return str(v[1]) if v[0] in ('i', 'fn') else str(v)


_ARGS = {}


def _one(n):
    return analyse(n, *_ARGS['a'])


def run_all(names, limit, seconds, inline=frozenset(), referenced=frozenset()):
    graph()
    _ARGS['a'] = (limit, seconds, inline, referenced)
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 2)) as pool:
        return {r['n']: r for r in pool.imap_unordered(_one, names, chunksize=1)}


def operations(G):
    """functions that run with a manager and create, reference or cache nodes"""
    out = []
    for n, f in sorted(G.by.items()):
        if '/cudd/' not in f['file'] or not f['file'].endswith('.c') or base(f) in TABLES:
            continue
        if not any(strip(p['t']) == 'DdManager *' for p in f['p']):
            continue
        if G.calls[n] & (G.collecting | set(INSERTS) | set(DEREF) | set(LOOKUPS)):
            out.append(n)
    if len(out) < 200:
        raise AnalysisBroken('only %d operations of the diagram package found' % len(out))
    return out

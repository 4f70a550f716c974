"""C25: computed results are cached under the operation and operands they belong to."""
from ..cuddcheck import *
from .c24 import where


def check(r, tier):
    r.rule('on every path of an operation an entry stored in the computed table carries the operation tag and the operands (in order and with the complement '
           'attributes) under which the operation looked results up on that path')
    r.rule('the complement applied to a result found in the table equals the one applied to a result that was just computed and stored')
    r.rule('no operation tag is shared by operations that compute different functions')
    G = graph()
    ops = cached(G)
    limit, secs = (12000, 40) if tier == 'quick' else (60000, 150)
    res = run_all(ops, limit, secs)
    users = {}
    for n in ops:
        for o in res[n]['look']:
            users.setdefault(o, {}).setdefault(n, set()).add('L')
        for o in res[n]['ins']:
            users.setdefault(o, {}).setdefault(n, set()).add('I')
    looked = {o for n in ops for o in res[n]['look']}
    for n in ops:
        f, x = G.by[n], res[n]
        w = where(f, f['l'])
        bad = False
        for (l, o), (same, ka, cands) in sorted(x['mism'].items()):
            if same:
                bad = True
                r.violation('%s cache operands' % n, where(f, l), 'stored under the operands looked up', 'in %s: the result is stored for (%s) but was looked up for (%s)' % (
                    n, ', '.join(ka), '; '.join(', '.join(c) for c in cands)))
            elif o in looked and tag(o) != n and (n, o) not in CROSS:
                bad = True
                r.violation('%s cache tag' % n, where(f, l), 'stored under the operation looked up', 'in %s: the result is stored as a result of %s, under which this path did not look it up but other operations do' % (n, tag(o)))
        # complement
        d = complement(x)
        if d:
            bad = True
            r.violation('%s cache complement' % n, where(f, d[0]), 'same complement for found and computed results', 'in %s: a result found in the table is returned %s, a computed one (line %d) %s, under the same operands' % (n, d[1], d[2], d[3]))
        if bad:
            continue
        if x['und']:
            r.undec('%s caches consistently' % n, x['und'], w)
        elif not x['ins'] and not x['look']:
            r.undec('%s caches consistently' % n, 'no table access on any path', w)
        else:
            r.ok('%s caches consistently (%d paths)' % (n, x['paths']), w)
        r.count('paths', x['paths'])
        r.count('lookups', len(x['look']))
        r.count('insertions', len(x['ins']))
    r.listed('functions', ops)
    # tags
    for o, us in sorted(users.items()):
        if "'arg'" in o or "'t'" in o:
            continue       # operation handed in by the caller
        names = sorted(n for n in us if 'L' in us[n] and 'I' in us[n] or len(us[n]) == 1)
        fam = family(o, names, G)
        if len(fam) > 1 and not any(set(names) <= s for s in SHARED):
            extra = [n for n in names if tag(o) != n][-1]
            f = G.by[extra]
            r.violation('tag %s' % tag(o), where(f, list((res[extra]['look'] or res[extra]['ins']).values())[0]), 'one operation per tag', 'the tag %s is used by %s' % (tag(o), ', '.join(names)))
        else:
            r.ok('tag %s belongs to %s' % (tag(o), ', '.join(names)))
    r.count('operation tags', len(users))


# a result of one operation stored on purpose as a result of the other
CROSS = {('cuddZddIsop', "(('fn', 'cuddBddIsop'),)")}
SHARED = [{'Cudd_zddComplement', 'cuddZddComplement'}, {'Cudd_zddDiffConst', 'cuddZddDiff'}, {'cuddBddIsop', 'cuddZddIsop'}]


def cached(G):
    ops = [n for n, f in sorted(G.by.items()) if '/cudd/' in f['file'] and f['file'].endswith('.c') and G.calls[n] & (set(LOOKUPS) | set(INSERTS))
           and base(f) not in TABLES]
    if len(ops) < 40:
        raise AnalysisBroken('only %d operations use the computed table' % len(ops))
    return ops


def tag(o):
    return o.replace("(('fn', '", '').replace("(('i', ", 'tag ').replace("'),)", '').replace('),)', '')


def family(o, names, G):
    """one operation: itself and private helpers of the same file that it calls"""
    out = []
    for n in names:
        if any(n in G.calls.get(m, ()) and G.by[n].get('static') and G.by[n]['file'] == G.by[m]['file'] and n not in G.calls.get(n, ()) for m in names if m != n):
            continue
        out.append(n)
    return out


def complement(x):
    """contradiction between found and computed results: (line, text, line, text)"""
    for o in {h[0] for h in x['hits']}:
        hits = [h for h in x['hits'] if h[0] == o]
        miss = [m for m in x['miss'] if m[0] == o]
        syms = {repr(s) for h in hits + miss for s in h[1] if s != 1}
        if any('#' in s for s in syms):
            continue
        names = {k for h in hits + miss for k, _ in h[2]}
        for h in hits:
            for m in miss:
                a = dict(h[2])
                if any(a.get(k, v) != v for k, v in m[2]):
                    continue
                a.update(dict(m[2]))
                d = val(h[1], a) ^ val(m[1], a)
                if d == frozenset([1]):
                    # the same operands, the opposite complement
                    others = [g for g in hits if compatible(g[2], a) and not (val(g[1], a) ^ val(m[1], a))]
                    if not others:
                        return h[4], text(val(h[1], a)), m[4], text(val(m[1], a))
                elif d:
                    free = [s for s in d if s != 1]
                    others = [g for g in hits if compatible(g[2], a) and not (val(g[1], a) ^ val(m[1], a))]
                    split = [g for g in hits if any(k in dict(g[2]) for k in map(repr, free))] + [g for g in miss if any(k in dict(g[2]) for k in map(repr, free))]
                    if not others and not split:
                        return h[4], text(val(h[1], a)), m[4], text(val(m[1], a))
    return None


def compatible(b, a):
    return all(a.get(k, v) == v for k, v in b)


def val(p, a):
    acc = set()
    for s in p:
        if s != 1 and repr(s) in a:
            if a[repr(s)]:
                acc ^= {1}
        else:
            acc ^= {s}
    return frozenset(acc)


def text(p):
    if not p:
        return 'as it is'
    if p == frozenset([1]):
        return 'complemented'
    return 'complemented depending on ' + ', '.join(sorted(str(s) for s in p if s != 1))

"""C16: BDD handles own exactly one reference each and their operators compute what they are named for."""
from ..refc import *
from ..load import program, AnalysisBroken
from ..engine import walk

RULE = {'null': 'a null or uninitialized node is never used', 'dead': 'a node is not used after its last reference was given up',
        'float': 'a node is referenced while another operation may run the garbage collector', 'leak': 'no reference is kept without a handle',
        'miss': 'every handle has a reference of its own', 'over': 'no reference is given up twice', 'mgr': 'a handle with a node knows its BDD manager',
        'range': 'all elements of a variable vector are treated', 'sem': 'the operation computes the function it is named for',
        'copy': 'a class that gives up a reference in its destructor defines how it is copied', 'order': 'a BDD manager outlives the handles of its nodes',
        'raw': 'references are only changed by the handle classes'}


def spec(name, nargs):
    """expected result: f(run, T, O...) -> ('node', formula) / ('bool', value) / None"""
    def node(f):
        return lambda r, *a: ('node', f(r, *a))
    two = {'operator&': lambda r, t, o: r.M.AND(t, o), 'operator|': lambda r, t, o: r.M.OR(t, o), 'operator^': lambda r, t, o: r.M.NOT(r.M.ite(t, o, r.M.NOT(o))),
           'operator-': lambda r, t, o: r.M.AND(t, r.M.NOT(o)), 'Implies': lambda r, t, o: r.M.OR(r.M.NOT(t), o),
           'ExistAbstract': lambda r, t, o: r.ex(t, o), 'UnivAbstract': lambda r, t, o: r.M.NOT(r.ex(r.M.NOT(t), o)),
           'ExistAbstractSingleVar': lambda r, t, o: r.ex(t, o), 'UnivAbstractSingleVar': lambda r, t, o: r.M.NOT(r.ex(r.M.NOT(t), o)),
           'optimizeRestrict': lambda r, t, o: r.M.fun('careset', (('b', t), ('b', o)), EMPTY),
           'minimizeUsingCareSet': lambda r, t, o: r.M.fun('careset', (('b', t), ('b', o)), EMPTY)}
    cmp = {'operator<=': lambda r, t, o: r.leq(t, o), 'operator>=': lambda r, t, o: r.leq(o, t),
           'operator==': lambda r, t, o: same(r, t, o), 'operator!=': lambda r, t, o: not same(r, t, o),
           'operator<': lambda r, t, o: r.leq(t, o) and not same(r, t, o), 'operator>': lambda r, t, o: r.leq(o, t) and not same(r, t, o),
           'ReachedLeastFixedPoint': lambda r, t, o: same(r, t, o), 'ReachedGratestFixedPoint': lambda r, t, o: same(r, t, o)}
    if name in two and nargs == 1:
        return node(two[name])
    if name in cmp and nargs == 1:
        return lambda r, t, o: ('bool', cmp[name](r, t, o))
    if name == 'operator!' and nargs == 0:
        return node(lambda r, t: r.M.NOT(t))
    if name == 'isFalse':
        return lambda r, t: ('bool', same(r, t, 0))
    if name == 'isTrue':
        return lambda r, t: ('bool', same(r, t, 1))
    if name == 'AndAbstract':
        return node(lambda r, t, g, c: r.ex(r.M.AND(t, g), c))
    if name == 'SwapVariables':
        return node(lambda r, t, x, y: r.M.fun('swap', (('b', t),) + tuple(sorted((('b', x), ('b', y)))), EMPTY))
    return None


def same(r, a, b):
    if a == b:
        return True
    n = r.M.NOT
    if a == n(b):
        return False
    return bool(r.o.choose(('eq', min((a, b), (b, a), (n(a), n(b)), (n(b), n(a))))))


ASSIGN = {'operator=': lambda M, t, o: o, 'operator&=': lambda M, t, o: M.AND(t, o), 'operator|=': lambda M, t, o: M.OR(t, o),
          'operator^=': lambda M, t, o: M.NOT(M.ite(t, o, M.NOT(o))), 'operator-=': lambda M, t, o: M.AND(t, M.NOT(o))}
MGR = {'constantTrue': lambda r: 1, 'constantFalse': lambda r: 0, 'newVariable': lambda r: r.M.base(('newvar',), EMPTY),
       'multiAnd': lambda r: r.M.base(('bigand',), EMPTY), 'multiOr': lambda r: r.M.base(('bigor',), EMPTY)}


def content(r, o):
    """what a handle holds: formula, ('vec', formula, length), or None"""
    ob = r.objs[o[1]]
    v = ob['fields'].get(HANDLES[ob['class']][0], ('uninit',))
    if v[0] == 'n':
        return r.f(v)
    if v[0] == 'arr':
        a = r.arrs[v[1]]
        return ('vec', r.f(a['elem']) if a['elem'][0] == 'n' else None, a['len'])
    return None


def variants(fn):
    """initial situations of a method"""
    cls = fn['c']
    null_ok = fn.get('ctor') or fn.get('dtor') or fn['n'] in ('operator=', 'isValid')
    hp = [i for i, p in enumerate(fn['p']) if strip_t(p['t']) in HANDLES and '*' not in p['t']]
    opts = []
    this = [None] if fn.get('ctor') or cls not in HANDLES else [False, True] if null_ok else [False]
    for t in this:
        for o in ([False, True] if null_ok and hp else [False]):
            opts.append((t, o, False))
        if hp and t is not None and any(strip_t(fn['p'][i]['t']) == cls and '&' in fn['p'][i]['t'] for i in hp):
            opts.append((t, t, True))
    return opts


def execute(P, fn, var, oracle):
    tnull, onull, alias = var
    r = Run(P, oracle)
    cls = fn['c']
    if cls in HANDLES:
        this = r.newobj(cls) if fn.get('ctor') else r.handle(cls, 'this', tnull)
    else:
        this = ('mgrobj',)
    ints = [p['n'] for p in fn['p'] if strip_t(p['t']) in ('int', 'unsigned int', 'unsigned long')]
    args = []
    for p in fn['p']:
        t = strip_t(p['t'])
        if t in HANDLES and '*' not in p['t']:
            if alias and t == cls:
                args.append(this)
            else:
                args.append(r.handle(t, p['n'], onull))
        elif t.startswith('std::vector<BFBdd') or t == 'BFBdd *' or p['t'].replace('const ', '').strip() == 'BFBdd *':
            n = ('sym', ints[0]) if '*' in p['t'] and len(ints) == 1 else ('sym', p['n'] + '.size')
            args.append(r.newarr(n, r.handle('BFBdd', p['n'] + '[]'), 'vec'))
        elif 'DdManager *' in p['t']:
            args.append(('mgr',))
        elif 'BFBddManager' in p['t']:
            args.append(('bfm',))
        elif 'DdNode *' in p['t']:
            args.append(('n', r.newnode(p['n']), False))
        elif p['t'].replace('const ', '').strip() == 'int *':
            args.append(r.newarr(('sym', ints[0]) if len(ints) == 1 else ('unknown',), ('opaque', p['n']), 'int'))
        elif t in ('int', 'unsigned int', 'unsigned long'):
            args.append(('sym', p['n']))
        else:
            args.append(('opaque', p['n']))
    before = [content(r, a) if a[0] == 'o' else r.f(a) if a[0] == 'n' else None for a in args]
    t0 = content(r, this) if this[0] == 'o' and not fn.get('ctor') else None
    thrown = False
    try:
        ret = r.call_method(fn, this, args, fn['l'])
    except Thrown:
        thrown = True
        ret = ('void',)
    if fn.get('dtor'):
        r.objs[this[1]]['live'] = False
    if thrown and fn.get('ctor'):
        r.objs[this[1]]['live'] = False
    r.balance(fn.get('el') or fn['l'])
    if thrown:
        return
    # what it computes
    name = fn['n']
    if fn.get('dtor'):
        return
    if fn.get('ctor') and cls in HANDLES:
        c = content(r, this)
        nodes = [(b, i) for i, b in enumerate(before) if b is not None]
        if len(args) == 0:
            if c is not None:
                raise Bad('sem', 'default constructor creates a handle that is not empty', fn['l'])
        elif any(a[0] in ('o', 'n') for a in args):
            exp = nodes[0][0] if nodes else None
            if c != exp:
                raise Bad('sem', 'the new handle does not hold the node it is created from', fn['l'])
        return
    if name in ASSIGN and cls in HANDLES and len(args) == 1:
        if args[0][0] != 'o':
            return
        exp = before[0] if name == 'operator=' else ASSIGN[name](r.M, t0, before[0])
        if content(r, this) != exp and not r.unsure:
            raise Bad('sem', '%s leaves a wrong value in the handle' % name, fn['l'])
        return
    if r.unsure:
        raise Unknown('operation ' + r.unsure)
    if cls == 'BFBdd':
        sp = spec(name, len(args))
        if sp is None:
            if name == 'isValid':
                if r.truth(ret) != (t0 is not None):
                    raise Bad('sem', 'isValid is wrong', fn['l'])
            return
        vals = []
        for b in [t0] + before:
            if isinstance(b, tuple):
                vals.append(b[1])
            else:
                vals.append(b)
        w = sp(r, *vals)
        if w[0] == 'node':
            if ret[0] != 'o' or content(r, ret) is None:
                raise Unknown('result')
            if content(r, ret) != w[1]:
                raise Bad('sem', '%s computes %s, expected %s' % (name, r.M.show(content(r, ret), 4)[:150], r.M.show(w[1], 4)[:150]), fn['l'])
        elif r.truth(ret) != w[1]:
            raise Bad('sem', '%s gives %s where %s is right' % (name, r.truth(ret), w[1]), fn['l'])
        return
    if cls == 'BFBddManager' and ret[0] == 'o':
        c = content(r, ret)
        vecs = [r.objs[r.arrs[a[1]]['elem'][1]] for a in args if a[0] == 'arr' and r.arrs[a[1]]['elem'][0] == 'o']
        if name in MGR:
            if c != MGR[name](r):
                raise Bad('sem', '%s computes %s' % (name, r.M.show(c, 4)[:150]), fn['l'])
        elif name == 'computeCube' and vecs:
            e = r.f(vecs[0]['fields']['node'])
            ph = [a for a in args if a[0] == 'arr' and r.arrs[a[1]]['type'] == 'int']
            want = r.M.fun('cube', (('b', e), r.arrs[ph[0][1]]['elem'] if ph else ('int', 1)), EMPTY)
            if c != want:
                raise Bad('sem', 'the cube is %s' % r.M.show(c, 4)[:150], fn['l'])
        elif name == 'computeVarVector' and vecs:
            e = r.f(vecs[0]['fields']['node'])
            n = [r.arrs[a[1]]['len'] for a in args if a[0] == 'arr'][0]
            if c != ('vec', e, n):
                raise Bad('sem', 'the vector does not hold the given variables', fn['l'])


def check(r, tier):
    P = program()
    r.rule('every path of every method of the handle classes (and every aliasing / emptiness situation of its arguments): references added and removed against the handles that exist at the end, '
           'liveness of each node at each use, and the Boolean function of the result against the meaning of the method\'s name')
    n = 0
    seen = set()
    for cls in list(HANDLES) + ['BFBddManager']:
        if cls not in P.classes:
            raise AnalysisBroken('class %s not found' % cls)
        for fn in P.fns.values():
            if fn.get('c') != cls or fn.get('body') is None or fn['f'] in seen:
                continue
            if cls == 'BFBddManager' and (fn.get('ctor') or fn.get('dtor') or strip_t(fn['rt']) not in HANDLES):
                continue
            if fn['n'] in ('getNofSatisfyingAssignments',):
                continue
            seen.add(fn['f'])
            key = '%s(%s)' % (fn['q'], ', '.join(p['t'].replace('std::', '') for p in fn['p']))
            loc = '%s:%s' % (P.rel(fn['file']), fn['l'])
            for var in variants(fn):
                k = key + {(False, False): '', (True, False): ' [this empty]', (False, True): ' [argument empty]', (True, True): ' [both empty]',
                           (None, False): '', (None, True): ' [argument empty]'}[(var[0], var[1])] + (' [same object]' if var[2] else '')
                np = 0
                try:
                    for _ in paths(lambda o: execute(P, fn, var, o)):
                        np += 1
                    r.ok(k, loc)
                except Bad as b:
                    if not known(fn):
                        # a helper may leave the handle in an intermediate state; it is judged where it is called
                        r.undec(k, 'helper: %s' % b.text, loc)
                        continue
                    r.violation(k, '%s:%s' % (P.rel(fn['file']), b.line or fn['l']), RULE[b.rule], b.text)
                except Unknown as u:
                    r.undec(k, 'not understood: %s' % u, loc)
                n += np
    r.count('methods', len(seen))
    r.count('paths', n)
    classes(r, P)
    raw(r, P)


def known(fn):
    n = fn['n']
    return bool(fn.get('ctor') or fn.get('dtor') or n in ASSIGN or n in MGR or spec(n, len(fn['p'])) or n in ('computeCube', 'computeVarVector', 'readBDDFromFile', 'isValid'))


def classes(r, P):
    """copying, order of destruction"""
    for cls in HANDLES:
        fs = [f for f in P.fns.values() if f.get('c') == cls]
        loc = '%s:%s' % (P.rel(P.classes[cls]['file']), P.classes[cls]['l'])
        for what, name in (('dtor', 'destructor'), ('cc', 'copy constructor'), ('ca', 'copy assignment')):
            if any(f.get(what) for f in fs):
                r.ok('%s of %s' % (name, cls), loc)
            else:
                r.violation('%s of %s' % (name, cls), loc, RULE['copy'], 'no %s although the class owns references' % name)
    hold = {}

    def holds(t, depth=0):
        """does a value of this type keep BDD references?"""
        t = t.replace('const ', '').strip()
        if t.endswith('*') or t.endswith('&'):
            return False
        if any(h + x in t for h in HANDLES for x in ('', '>', ',')):
            import re
            return any(re.search(r'\b%s\b(?! *\*)' % h, t) for h in HANDLES)
        c = P.classes.get(t)
        if c is not None and depth < 8:
            return any(holds(f['t'], depth + 1) for f in c['fields']) or any(holds(b['n'] if isinstance(b, dict) else b, depth + 1) for b in c['bases'])
        return False
    n = 0
    for name, c in P.classes.items():
        if '/src/' not in c['file']:
            continue
        ms = [i for i, f in enumerate(c['fields']) if f['t'].replace('const ', '').strip() == 'BFBddManager']
        if not ms:
            continue
        n += 1
        early = [f for i, f in enumerate(c['fields']) if i < ms[0] and holds(f['t'])]
        loc = '%s:%s' % (P.rel(c['file']), c['fields'][ms[0]]['l'])
        key = 'order of members of ' + name
        if early:
            r.violation(key, '%s:%s' % (P.rel(c['file']), early[0]['l']), RULE['order'], '%s is destroyed after the BDD manager %s' % (early[0]['n'], c['fields'][ms[0]]['n']))
        elif any(holds(b['n'] if isinstance(b, dict) else b) for b in c['bases']):
            r.violation(key, loc, RULE['order'], 'a base class keeps BDD references')
        else:
            r.ok(key, loc)
    if not n:
        r.undec('owner of the BDD manager', 'no class with a BDD manager as member found', '')
    for g in P.globals.values():
        if holds(g['t']):
            r.violation('global variable ' + g.get('n', '?'), str(g.get('l')), RULE['order'], 'a global variable keeps BDD references beyond the manager')
    # deletion through a base pointer
    for f in P.fns.values():
        if f.get('body') is None or not P.rel(f['file']).startswith('src/'):
            continue
        for x in walk(f['body']):
            if x.get('k') == 'delete' and not x.get('arr'):
                t = (x['e'].get('t') or '').replace('const ', '').replace('*', '').strip()
                if t in P.classes and any(t in P.ancestors(c) for c in P.classes if c != t):
                    loc = '%s:%s' % (P.rel(f['file']), x['l'])
                    key = 'deletion of %s in %s' % (t, f['q'])
                    if any(m.get('dtor') and m.get('virt') for a in [t] + list(P.ancestors(t)) for m in P.classes.get(a, {}).get('methods', [])):
                        r.ok(key, loc)
                    else:
                        r.violation(key, loc, RULE['order'], 'the destructor of %s is not virtual: handles of derived classes are not released' % t)


def raw(r, P):
    n = 0
    for f in P.fns.values():
        if f.get('body') is None or not P.rel(f['file']).startswith('src/') or f.get('c') in list(HANDLES) + ['BFBddManager']:
            continue
        for x in walk(f['body']):
            if x.get('k') == 'call' and x.get('n') in ('Cudd_Ref', 'Cudd_RecursiveDeref', 'Cudd_Deref', 'Cudd_IterDerefBdd', 'Cudd_DelayedDerefBdd', 'Cudd_Quit'):
                n += 1
                r.undec('raw reference in ' + f['q'], '%s outside of the handle classes' % x['n'], '%s:%s' % (P.rel(f['file']), x['l']))
    if not n:
        r.ok('no reference counting outside of the handle classes', '')

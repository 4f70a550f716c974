"""Node ownership, cache discipline and reordering discipline of the decision diagram package.

Every path of a function (loops: up to a few rounds) is followed over abstract nodes.  A node value is an identity plus a symbolic
complement parity; parameters and what hangs below them are held by the caller, results of other operations are held by nobody
until a reference is added."""
import time

ONE = 'one'
INTERNAL_ERROR = 7          # CUDD_INTERNAL_ERROR
CONSTANTS = ('one', 'zero', 'plusinfinity', 'minusinfinity', 'background', 'Cudd_ReadLogicZero', 'Cudd_ReadOne', 'Cudd_ReadZero', 'Cudd_ReadBackground', 'Cudd_ReadZddOne', 'Cudd_ReadPlusInfinity', 'Cudd_ReadMinusInfinity')
MAXROUND = 2


class Bad(Exception):
    def __init__(self, rule, text, line):
        self.rule, self.text, self.line = rule, text, line


class Unknown(Exception):
    pass


class Drop(Exception):
    """path not followed further (loop bound, infeasible)"""


class Return(Exception):
    def __init__(self, v, line):
        self.v, self.line = v, line


class Goto(Exception):
    def __init__(self, lab):
        self.lab = lab


class Break(Exception):
    pass


class Continue(Exception):
    pass


NODE = 'DdNode *'
DEREF = {'Cudd_RecursiveDeref': 1, 'Cudd_IterDerefBdd': 1, 'Cudd_RecursiveDerefZdd': 1, 'Cudd_DelayedDerefBdd': 1, 'cuddDeref': 0, 'Cudd_Deref': 0}
LOOKUPS = {'cuddCacheLookup': 3, 'cuddCacheLookup2': 2, 'cuddCacheLookup1': 1, 'cuddCacheLookupZdd': 3, 'cuddCacheLookup2Zdd': 2, 'cuddCacheLookup1Zdd': 1,
           'cuddConstantLookup': 3}
INSERTS = {'cuddCacheInsert': 3, 'cuddCacheInsert2': 2, 'cuddCacheInsert1': 1}
ALLOC = ('cuddAllocNode', 'cuddDynamicAllocNode')
UNIQUE = ('cuddUniqueInter', 'cuddUniqueInterIVO', 'cuddUniqueInterZdd', 'cuddZddGetNode', 'cuddZddGetNodeIVO', 'cuddUniqueConst')


MAKERS = ('cuddUniqueInter', 'cuddUniqueInterZdd')
# they change the variables themselves or only create projection functions
CREATE = {'Cudd_bddIthVar', 'Cudd_bddNewVar', 'Cudd_bddNewVarAtLevel', 'Cudd_addNewVarAtLevel', 'Cudd_zddVarsFromBddVars', 'Cudd_Init', 'Cudd_Reserve'}
# code that runs while reordering or that changes the tables
NOGIVE = {'cuddReorder.c', 'cuddLinear.c', 'cuddSymmetry.c', 'cuddGroup.c', 'cuddAnneal.c', 'cuddGenetic.c', 'cuddExact.c', 'cuddWindow.c', 'cuddZddReord.c',
          'cuddZddLin.c', 'cuddZddSymm.c', 'cuddZddGroup.c', 'cuddTable.c', 'cuddInit.c', 'cuddRef.c', 'cuddCache.c', 'cuddLCache.c', 'cuddCheck.c'}


def mentions(e):
    """the mark is read"""
    w = [e]
    while w:
        x = w.pop()
        if isinstance(x, dict):
            if x.get('k') == 'mem' and x.get('n') == 'reordered':
                return True
            if x.get('k') == 'bin' and x.get('op') == '=' and x['x'].get('k') == 'mem' and x['x']['n'] == 'reordered':
                w.append(x['y'])
                continue
            w += [v for v in x.values() if isinstance(v, (dict, list))]
        elif isinstance(x, list):
            w += x
    return False


def projection(e):
    """cuddUniqueInter(m, i, one, !one)"""
    if e['n'] != 'cuddUniqueInter':
        return False
    return all(constant(a) for a in e['a'][2:])


def constant(a):
    """only the constant, possibly complemented: no call and no variable other than ones named for it"""
    w = [a]
    while w:
        x = w.pop()
        if isinstance(x, dict):
            if x.get('k') == 'call':
                return False
            if x.get('k') == 'var' and x.get('n') not in ('one', 'zero') and 'DdManager' not in x.get('t', ''):
                return False
            w += [v for v in x.values() if isinstance(v, (dict, list))]
        elif isinstance(x, list):
            w += x
    return True


class Program:
    """call graph facts of the package"""

    def __init__(self, P):
        self.P = P
        self.by = {}
        for f in P.fns.values():
            self.by.setdefault(f['n'], f)
        self.calls = {}
        for n, f in self.by.items():
            self.calls[n] = self.callees(f['body'])
        self.collecting = self.reach(set(ALLOC) | {'cuddGarbageCollect'})
        self.interruptible()

    def interruptible(self):
        """functions that may return unfinished because variables were reordered; handlers look at the mark themselves"""
        self.looks = {n for n, f in self.by.items() if mentions(f['body'])}
        ch = True
        while ch:
            ch = False
            for n, f in self.by.items():
                if n not in self.looks and any(m in self.looks and self.by[m].get('static') and not self.calls[m] & self.collecting for m in self.calls[n]):
                    self.looks.add(n)
                    ch = True
        self.give = set(MAKERS)
        self.handlers = set()
        ch = True
        while ch:
            ch = False
            for n, f in self.by.items():
                if n in self.give or n in self.handlers or n in CREATE or f['file'].split('/')[-1] in NOGIVE and n not in MAKERS and not n.startswith(('cuddUnique', 'cuddZddGetNode')):
                    continue
                if any(not projection(e) for e in self.sites(n) if e['n'] in self.give):
                    (self.handlers if n in self.looks else self.give).add(n)
                    ch = True

    def sites(self, n):
        if not hasattr(self, '_sites'):
            self._sites = {}
        if n not in self._sites:
            w, r = [self.by[n]['body']], []
            while w:
                e = w.pop()
                if isinstance(e, dict):
                    if e.get('k') == 'call' and e.get('n'):
                        r.append(e)
                    w += [v for v in e.values() if isinstance(v, (dict, list))]
                elif isinstance(e, list):
                    w += e
            self._sites[n] = r
        return self._sites[n]

    def counts(self, n):
        """the body changes reference counts itself"""
        if not hasattr(self, '_counts'):
            self._counts = {}
        if n not in self._counts:
            w, r = [self.by[n]['body']], False
            while w and not r:
                e = w.pop()
                if isinstance(e, dict):
                    if e.get('k') == 'mem' and e.get('n') == 'ref' or e.get('k') == 'call' and (e.get('n') in DEREF or e.get('n') == 'Cudd_Ref'):
                        r = True
                    w += [v for v in e.values() if isinstance(v, (dict, list))]
                elif isinstance(e, list):
                    w += e
            self._counts[n] = r
        return self._counts[n]

    def callees(self, b):
        out = set()
        w = [b]
        while w:
            e = w.pop()
            if isinstance(e, dict):
                if e.get('k') == 'call' and e.get('n'):
                    out.add(e['n'])
                w += [v for v in e.values() if isinstance(v, (dict, list))]
            elif isinstance(e, list):
                w += e
        return out

    def reach(self, seeds):
        out = set(s for s in seeds)
        ch = True
        while ch:
            ch = False
            for n, c in self.calls.items():
                if n not in out and c & out:
                    out.add(n)
                    ch = True
        return out


class Path:
    def __init__(self, G, f, prefix):
        self.G, self.f = G, f
        self.prefix, self.taken = prefix, []
        self.keys = {}
        self.env = {}
        self.n = 0
        self.count = {}
        self.born = {}
        self.holds = {}        # node -> children it holds
        self.floating = {}
        self.alias = {}        # id -> (id, parity)
        self.perm = set()
        self.escaped = set()
        self.gone = {}
        self.look = []         # cache lookups on this path: (op, args, line, hit)
        self.ins = []
        self.line = f['l']
        self.steps = 0
        self.returned = {}
        self.dirty = False
        self.depth = 0
        self.lastnull = True
        self.mark = 'stale'
        self.gave = False     # the last operation that can give up failed
        self.marks = []       # (rule, text, line)

    # ---- decisions
    def choose(self, key, n=2):
        if key is not None and key in self.keys:
            return self.keys[key]
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((v, n))
        if key is not None:
            self.keys[key] = v
        return v

    # ---- nodes
    def fresh(self, name, line):
        self.n += 1
        i = '%s#%d' % (name, self.n)
        self.count[i] = 0
        self.born[i] = (name, line)
        return ('n', i, frozenset([('p', i)]))

    def norm(self, v):
        if v[0] != 'n':
            return v
        i, p = v[1], v[2]
        while i in self.alias:
            j, q = self.alias[i]
            p = p ^ q
            i = j
        # parity symbols of merged nodes
        return ('n', i, p)

    def own(self, v):
        v = self.norm(v)
        return v[1] if v[0] == 'n' and v[1] in self.count and v[1] not in self.perm else None

    def merge(self, a, b):
        """the two values are the same pointer"""
        a, b = self.norm(a), self.norm(b)
        if a[1] == b[1]:
            return
        for x, y in ((a, b), (b, a)):
            if x[1] in CONSTANTS:
                self.alias[y[1]] = (x[1], x[2] ^ y[2])
                self.count.pop(y[1], None)
                return
        # keep the one that is held by the caller or older
        if a[1] in self.count and b[1] not in self.count:
            keep, go = b, a
        elif b[1] in self.count and a[1] not in self.count:
            keep, go = a, b
        elif a[1] in self.count and b[1] in self.count:
            keep, go = a, b
            self.count[a[1]] += self.count[b[1]]
        else:
            keep, go = a, b
        if go[1] in self.count and keep[1] not in self.count:
            # references to a node the caller holds: the balance still has to be zero
            self.count[keep[1]] = self.count[go[1]]
            self.perm.discard(keep[1])
            self.held = getattr(self, 'held', set())
            self.held.add(keep[1])
        if go[1] == ONE or go[1] in self.perm:
            keep, go = go, keep
        self.alias[go[1]] = (keep[1], keep[2] ^ go[2])
        self.count.pop(go[1], None)

    def protected(self, i, seen=()):
        if i not in self.count or i in getattr(self, 'held', ()):
            return True
        if self.count[i] > 0 or i in self.escaped or i in self.perm:
            return True
        return any(i in ch and p not in seen and self.protected(p, seen + (i,)) for p, ch in self.holds.items())

    def use(self, v, line, what):
        i = self.own(v)
        if i is not None and i in self.floating:
            n, l = self.born[i]
            raise Bad('reference', 'the result of %s (line %d) is used by %s after %s could reclaim it: nothing held a reference to it' % (n, l, what, self.floating[i]), line)

    def collect(self, what, line):
        for i in self.count:
            if not self.protected(i) and i not in self.floating:
                self.floating[i] = '%s (line %d)' % (what, line)

    def ref(self, v, d, line, what):
        v = self.norm(v)
        if v[0] == 'null':
            if d > 0 or True:
                raise Drop()
        if v[:2] == ('t', 'uninit'):
            raise Drop()
        if v[0] == 't':
            return
        if v[0] != 'n':
            raise Unknown('%s of %s' % (what, v[0]))
        self.use(v, line, what)
        i = v[1]
        if i in self.perm or i in CONSTANTS or isinstance(i, tuple) and i[0] in ('elem', 'fld', 'deref', 'idx', 'var'):
            # constants; nodes held in arrays and structures (their owner is not followed)
            return
        if i not in self.count:
            # a node of the caller
            self.count[i] = 0
            self.held = getattr(self, 'held', set())
            self.held.add(i)
            self.born[i] = (i, line)
        self.count[i] += d
        if self.count[i] < 0 and i not in self.escaped:
            raise Bad('reference', 'a reference to %s is given up that was never taken' % self.name(i), line)

    def name(self, i):
        n, l = self.born.get(i, (i, 0))
        return 'the result of %s (line %d)' % (n, l) if '#' in str(i) else str(i)

    # ---- expressions
    def ev(self, e):
        self.steps += 1
        if self.steps > 4000:
            raise Drop()
        k = e['k']
        if k in ('icast', 'cast'):
            v = self.ev(e['e'])
            if v[0] == 'n' and strip(e['t']) in ('unsigned long', 'long', 'uintptr_t', 'ptruint', 'ptrint', 'size_t', 'intptr_t'):
                return ('bits', v)
            if v[0] == 'bits' and '*' in e['t']:
                return v[1]
            if v == ('i', 0) and '*' in e['t']:
                return ('null',)
            if v[0] == 'i' and '*' in e['t']:
                return ('tag', v[1])
            return v
        if k == 'int':
            return ('i', int(e['v']))
        if k == 'enum':
            return ('i', int(e['v']))
        if k == 'null':
            return ('null',)
        if k == 'zero':
            return ('i', 0)
        if k in ('char', 'float', 'str', 'sizeof'):
            return ('t', k, str(e.get('v', e.get('t'))))
        if k == 'fref':
            return ('fn', e['n'])
        if k == 'var':
            if e.get('g'):
                return ('t', 'glob', e['n'])
            return self.env.get(e['d'], ('t', 'uninit', e['n']))
        if k == 'mem':
            return self.member(e)
        if k == 'idx':
            a, b = self.ev(e['x']), self.ev(e['y'])
            key = ('idx', a, b)
            if key in self.env:
                return self.env[key]
            if isnode(e['t']):
                if a[:2] == ('t', 'mem') and a[2] in ('vars', 'univ'):
                    return ('n', ('var', b), frozenset())
                if a[:1] == ('arr',):
                    return ('t', 'elem', a, b)
                return ('n', ('elem', a, b), frozenset([('p', ('elem', a, b))]))
            return ('t',) + key
        if k == 'un':
            return self.unary(e)
        if k == 'bin':
            return self.binary(e)
        if k == 'cond':
            return self.ev(e['x']) if self.truth(e['c']) else self.ev(e['y'])
        if k == 'call':
            return self.call(e)
        if k == 'list':
            return ('t', 'list')
        raise Unknown('expression %s' % k)

    def member(self, e):
        n = e['n']
        b = e['b']
        # (regular node)->type.kids.T / E, ->index, ->ref, ->next
        path = [n]
        x = b
        while x['k'] == 'mem' and x['n'] in ('type', 'kids') or x['k'] == 'mem' and strip(x['t']) == 'DdChildren':
            path.append(x['n'])
            x = x['b']
        if path[-1] == 'type' or (n == 'value' and 'type' in path):
            base = self.norm(self.ev(x))
            if base[0] == 'null':
                raise Drop()
            if base[0] != 'n':
                return ('t', 'field', base, n) if base[0] != 'unknown' else ('unknown',)
            if n in ('T', 'E'):
                if base[1] in self.floating and self.own(base):
                    self.use(base, e['l'], 'an access to its children')
                i = (n, base[1])
                par = frozenset() if n == 'T' else frozenset([('p', i)])
                return self.norm(('n', i, par))
            return ('t', 'field', base[1], n)
        base = self.ev(b)
        base = self.norm(base)
        if base[0] == 'null':
            raise Drop()
        if base == ('t', 'manager') or base[0] == 't' and 'DdManager' in str(b.get('t', '')):
            if n in ('one',):
                return ('n', ONE, frozenset())
            if n in ('zero', 'plusinfinity', 'minusinfinity', 'background'):
                return ('n', n, frozenset())
            if n == 'reordered':
                return ('t', 'mark')
            key = ('mgr', n)
            if key in self.env:
                return self.env[key]
            return ('t', 'mem', n)
        key = ('fld', base, n)
        if key in self.env:
            return self.env[key]
        if base[0] == 'n':
            return ('t', 'field', base[1], n)
        if isnode(e['t']):
            return ('n', ('fld', base, n), frozenset([('p', ('fld', base, n))]))
        return ('t', 'fld', base, n)

    def unary(self, e):
        op = e['op']
        if op == '!':
            return ('i', 0 if self.truth(e['e']) else 1)
        if op == '~':
            v = self.ev(e['e'])
            return ('i', ~v[1]) if v[0] == 'i' else ('t', '~', v)
        if op.strip('p') in ('++', '--'):
            x = e['e']
            d = 1 if '+' in op else -1
            if self.isref(x):
                self.ref(self.ev(strip_e(x)['b']), d, e['l'], 'cuddRef' if d > 0 else 'cuddDeref')
                return ('t', 'ref')
            v = self.ev(x)
            nv = ('i', v[1] + d) if v[0] == 'i' else self.arith('+', v, ('i', d))
            self.assign(x, nv)
            return v if op.endswith('p') else nv
        if op == '-':
            v = self.ev(e['e'])
            return ('i', -v[1]) if v[0] == 'i' else ('t', '-', v)
        if op == '+':
            return self.ev(e['e'])
        if op == '&':
            x = strip_e(e['e'])
            if x['k'] == 'var':
                return ('addr', x['d'])
            return ('t', '&', str(x.get('n', '')), self.steps)
        if op == '*':
            v = self.ev(e['e'])
            if v[0] == 'addr':
                return self.env.get(v[1], ('t', 'uninit'))
            key = ('deref', v)
            if key in self.env:
                return self.env[key]
            if isnode(e.get('t', '')):
                return ('n', key, frozenset([('p', key)]))
            return ('t',) + key
        return ('t', op, self.ev(e['e']))

    def isref(self, x):
        x = strip_e(x)
        return x['k'] == 'mem' and x['n'] == 'ref' and x.get('c') in ('DdNode', 'struct DdNode')

    def arith(self, op, a, b):
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            g = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}.get(op)
            if op in ('<<', '>>') and 0 <= y <= 64:
                g = lambda: x << y if op == '<<' else x >> y
            return ('i', g()) if g else ('t', op, a, b)
        # pointer parity
        if op == '&' and a[0] == 'bits':
            v = self.norm(a[1])
            if v[0] == 'null':
                return ('i', 0) if b == ('i', 1) else ('bits', v)
            if b == ('i', 1):
                return bit(v[2])
            if b == ('i', ~1):
                return ('bits', ('n', v[1], frozenset()))
        if op in ('^', '|', '!=') and a[0] == 'bits':
            v = self.norm(a[1])
            p = parity(b)
            if v[0] == 'n' and p is not None:
                if op == '|':
                    if b == ('i', 1):
                        return ('bits', ('n', v[1], frozenset([1])))
                    if not v[2]:
                        return ('bits', ('n', v[1], v[2] ^ p))
                    return ('unknown',)
                return ('bits', ('n', v[1], v[2] ^ p))
        if op == '^':
            p, q = parity(a), parity(b)
            if p is not None and q is not None and a[0] != 'bits' and b[0] != 'bits':
                return bit(p ^ q)
        if op == '&' and b == ('i', 1):
            p = parity(a)
            if p is not None:
                return bit(p)
        return ('t', op, a, b)

    def binary(self, e):
        op = e['op']
        if op in ('&&', '||'):
            return ('i', 1 if self.truth(e) else 0)
        if op == ',':
            self.ev(e['x'])
            return self.ev(e['y'])
        if op == '=':
            v = self.ev(e['y'])
            self.assign(e['x'], v)
            return v
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            if self.isref(e['x']):
                base = self.ev(strip_e(e['x'])['b'])
                y = strip_e(e['y'])
                if op == '+=' or op == '-=':
                    self.ref(base, 1 if op == '+=' else -1, e['l'], 'cuddRef' if op == '+=' else 'cuddDeref')
                    return ('t', 'ref')
                raise Unknown('reference count arithmetic')
            v = self.arith(op[:-1], self.ev(e['x']), self.ev(e['y']))
            self.assign(e['x'], v)
            return v
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return ('i', 1 if self.compare(op, self.ev(e['x']), self.ev(e['y'])) else 0)
        return self.arith(op, self.ev(e['x']), self.ev(e['y']))

    def compare(self, op, a, b):
        if a[0] == 'bits' and b[0] == 'bits':
            a, b = a[1], b[1]
        a, b = self.norm(a), self.norm(b)
        neg = False
        if op in ('!=', '>=', '>'):
            neg = op in ('!=', '>=')
            if op == '>':
                a, b = b, a
                op = '<'
            else:
                op = {'!=': '==', '>=': '<'}[op]
        elif op == '<=':
            a, b, op, neg = b, a, '<', True
        r = self.cmp(op, a, b)
        return (not r) if neg else r

    def marked(self):
        if self.mark in ('clear', 'tested'):
            return False
        if self.mark == 'set':
            return True
        # the mark is only set when the last operation gave up
        if (self.lastnull or self.gave is None) and self.choose(None):
            self.mark = 'set'
            return True
        self.mark = 'tested'
        return False

    def cmp(self, op, a, b):
        if ('t', 'mark') in (a, b):
            o = b if a == ('t', 'mark') else a
            if op == '==' and o == ('i', 1):
                return self.marked()
            if op == '==' and o == ('i', 0):
                return not self.marked()
            if op == '<' and a == ('i', 0):
                return self.marked()
        if a[0] == 'i' and b[0] == 'i':
            return a[1] == b[1] if op == '==' else a[1] < b[1]
        if op == '==':
            if a == b and a[0] != 'unknown':
                return True
            if {a[0], b[0]} == {'null', 'n'}:
                n = a if a[0] == 'n' else b
                if n[1] in self.count or not isinstance(n[1], tuple) or n[1][0] in ('T', 'E', 'var'):
                    return False
                return bool(self.choose(('isnull', n[1])))
            if {a[0], b[0]} == {'null', 'tag'}:
                return False
            if a[0] == b[0] == 'n':
                if a[1] == b[1]:
                    d = a[2] ^ b[2]
                    if d == frozenset([1]):
                        return False
                    if not d:
                        return True
                    return not self.choose_parity(d)
                if a[1] in (ONE,) and b[1] in ('zero', 'plusinfinity', 'minusinfinity', 'background') or b[1] in (ONE,) and a[1] in ('zero', 'plusinfinity', 'minusinfinity', 'background'):
                    return False
                # T(x) != !something regular is not tracked; each pair is decided once
                ka, kb = sorted([(repr(a[1]), tuple(sorted(map(repr, a[2])))), (repr(b[1]), tuple(sorted(map(repr, b[2]))))])
                r = bool(self.choose(('eq', ka, kb)))
                # the node with opposite complement cannot be equal as well
                if r:
                    self.merge(a, b)
                return r
            pa, pb = parity(a), parity(b)
            if pa is not None and pb is not None and a[0] in ('bit', 'i') and b[0] in ('bit', 'i'):
                d = pa ^ pb
                if not d:
                    return True
                if d == frozenset([1]):
                    return False
                return not self.choose_parity(d)
        ka, kb = repr(a), repr(b)
        if op == '==' and ka > kb:
            ka, kb = kb, ka
        if op == '<':
            # at most one of a<b, b<a, a==b
            if self.keys.get(('<', kb, ka)):
                return False
            if self.keys.get(('==',) + tuple(sorted([ka, kb]))):
                return False
            if ka == kb:
                return False
        elif self.keys.get(('<', ka, kb)) or self.keys.get(('<', kb, ka)):
            return False
        return bool(self.choose((op, ka, kb)))

    def choose_parity(self, p):
        """truth of a parity expression; facts are kept"""
        one = 1 in p
        p = p - {1}
        if not p:
            return one
        # substitute known bits
        rest, acc = [], one
        for s in p:
            k = ('bit', repr(s))
            if k in self.keys:
                acc ^= bool(self.keys[k])
            else:
                rest.append(s)
        if not rest:
            return acc
        if len(rest) == 1:
            return acc ^ bool(self.choose(('bit', repr(rest[0]))))
        return acc ^ bool(self.choose(('bits',) + tuple(sorted(map(repr, rest)))))

    def truth(self, e):
        k = e['k']
        if k in ('icast', 'cast'):
            return self.truth(e['e'])
        if k == 'un' and e['op'] == '!':
            return not self.truth(e['e'])
        if k == 'bin' and e['op'] == '&&':
            return self.truth(e['x']) and self.truth(e['y'])
        if k == 'bin' and e['op'] == '||':
            return self.truth(e['x']) or self.truth(e['y'])
        if k == 'bin' and e['op'] in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(e['op'], self.ev(e['x']), self.ev(e['y']))
        v = self.norm(self.ev(e))
        if v[0] == 'i':
            return v[1] != 0
        if v[0] == 'null':
            return False
        if v[0] in ('n', 'fn', 'addr', 'tag', 'arr'):
            return True if v[0] != 'n' else not self.compare('==', v, ('null',))
        if v[0] == 'bit':
            return self.choose_parity(v[1])
        if v[0] == 'bits':
            return True
        return not self.compare('==', v, ('i', 0))

    def assign(self, x, v):
        x = strip_e(x)
        if x['k'] == 'var':
            if x.get('g'):
                return
            self.env[x['d']] = v
            return
        if x['k'] == 'un' and x['op'] == '*':
            a = self.ev(x['e'])
            if a[0] == 'addr':
                self.env[a[1]] = v
                return
            self.env[('deref', a)] = v
            self.escape(v)
            return
        if x['k'] == 'mem':
            if self.isref(x):
                raise Unknown('reference count set directly')
            b = self.norm(self.ev(x['b']))
            if 'DdManager' in str(x['b'].get('t', '')):
                if x['n'] == 'errorCode' and v == ('i', INTERNAL_ERROR):
                    raise Drop()       # a state the package regards as impossible
                if x['n'] == 'reordered':
                    self.mark = 'clear' if v == ('i', 0) else 'set'
                    return
                self.env[('mgr', x['n'])] = v
                if v[0] == 'n':
                    self.escape(v)
                return
            self.env[('fld', b, x['n'])] = v
            self.escape(v)
            return
        if x['k'] == 'idx':
            a, b = self.ev(x['x']), self.ev(x['y'])
            self.env[('idx', a, b)] = v
            self.escape(v)
            return
        raise Unknown('assignment to %s' % x['k'])

    def escape(self, v):
        v = self.norm(v)
        if v[0] == 'n':
            self.escaped.add(v[1])

    # ---- calls
    def call(self, e):
        n = e.get('n')
        G = self.G
        if not n:
            fv = self.ev(e['ce']) if e.get('ce') else None
            args = [self.ev(a) for a in e['a']]
            if isnode(e['t']):
                # an operator passed as a function pointer: only handles terminal cases
                if self.choose(None):
                    return ('null',)
                return self.fresh('the operator', e['l'])
            return ('t', 'fp', self.steps)
        args = [self.norm(self.ev(a)) for a in e['a']]
        l = e['l']
        self.line = l
        if n == 'Cudd_Ref' or n == 'cuddRef':
            self.ref(args[-1], 1, l, n)
            return ('t', 'void')
        if n in DEREF:
            self.ref(args[-1], -1, l, n)
            i = self.own(args[-1])
            if i is not None and DEREF[n] and self.count.get(i) == 0 and i not in getattr(self, 'held', ()):
                # the reference count may drop to zero: later uses of the node are uses of a dead node, unless it is only compared
                pass
            return ('t', 'void')
        if n in LOOKUPS:
            k = LOOKUPS[n]
            ops, a = self.cacheargs(args, k)
            hit = self.choose(None)
            if not hit:
                self.look.append((ops, a, l, None))
                return ('null',)
            r = self.fresh(n, l)
            self.look.append((ops, a, l, r))
            return r
        if n in INSERTS:
            k = INSERTS[n]
            ops, a = self.cacheargs(args[:-1], k)
            for v in a + (args[-1],):
                self.use(v, l, n)
            self.ins.append((ops, a, args[-1], l))
            return ('t', 'void')
        if n in ('cuddHashTableLookup', 'cuddHashTableLookup1', 'cuddHashTableLookup2', 'cuddHashTableLookup3'):
            if not self.choose(None):
                return ('null',)
            r = self.fresh(n, l)
            self.escaped.add(r[1])
            return r
        if n in ('cuddHashTableInsert', 'cuddHashTableInsert1', 'cuddHashTableInsert2', 'cuddHashTableInsert3'):
            # the table takes its own reference of the result
            for v in args:
                if v[0] == 'n':
                    self.use(v, l, n)
            i = self.own(args[-2]) if args[-2][0] == 'n' else None
            return ('t', 'hins', self.steps)
        if n == 'Cudd_Regular':
            return ('n', args[0][1], frozenset())
        f = G.by.get(n)
        if f and self.depth < 3 and (n in getattr(G, 'inline', ()) or n in G.looks and f.get('static') and n not in G.recursive and n not in G.collecting or f.get('static') and f['unit'] == self.f['unit'] and n not in G.recursive
                                     and (any(a[0] == 'addr' for a in args) and n not in G.collecting or any(a[0] == 'n' for a in args) and G.counts(n)
                                          and not any(strip(p['t']) == 'DdManager *' for p in f['p']))):
            return self.enter(f, args)
        coll = n in G.collecting
        if n in G.give and not projection(e):
            if self.mark in ('stale', 'set') or self.mark == 'open' and self.gave is True:
                self.marks.append(('clear', '%s is called while the mark of an earlier interruption may still be set' % n, l))
            self.mark = 'open'
            self.openby = (n, l)
            self.gave = None if not isnode(e['t']) else False
        elif n in G.handlers and f and n in G.by:
            self.mark = 'tested'
        if coll:
            for v in args:
                if v[0] == 'n':
                    self.use(v, l, n)
                    i = self.own(v)
                    if i is not None and not self.protected(i):
                        raise Bad('reference', '%s gets %s as an argument, to which nothing holds a reference' % (n, self.name(i)), l)
            self.collect(n, l)
        else:
            for v in args:
                if v[0] == 'n':
                    self.use(v, l, n)
        for a in args:
            if a[0] == 'addr':
                # output parameters
                if n in ('st_lookup', 'st_lookup_int', 'st_find'):
                    x = self.fresh(n, l)
                    self.escaped.add(x[1])
                    self.env[a[1]] = x
                else:
                    self.env[a[1]] = ('t', 'out', n, self.steps)
        if isnode(e['t']):
            if n in ('Cudd_bddIthVar', 'Cudd_addIthVar', 'Cudd_zddIthVar', 'Cudd_ReadOne', 'Cudd_ReadVars', 'Cudd_ReadLogicZero', 'Cudd_ReadZero', 'Cudd_ReadZddOne', 'Cudd_ReadBackground',
                     'Cudd_ReadMinusInfinity', 'Cudd_ReadPlusInfinity', 'Cudd_bddNewVar', 'Cudd_bddNewVarAtLevel', 'Cudd_addNewVar', 'Cudd_addNewVarAtLevel'):
                if coll and self.choose(None):
                    return ('null',)
                self.n += 1
                i = '%s(%s)' % (n, args[1:] if n.endswith('IthVar') else self.n) if n not in CONSTANTS else n
                return ('n', i, frozenset())
            if n == 'cuddUniqueInter' and [self.norm(v)[1:] for v in args[2:]] == [(ONE, frozenset()), (ONE, frozenset([1]))]:
                # a projection function: it exists as long as the manager
                if self.choose(None):
                    self.lastnull = True
                    self.gave = True
                    return ('null',)
                self.lastnull = False
                i = 'projection(%r)' % (args[1],)
                return ('n', i, frozenset())
            if coll or f is None:
                if coll:
                    self.lastnull = False
                if self.choose(None):
                    self.lastnull = True
                    if n in G.give:
                        self.gave = True
                    return ('null',)
                r = self.fresh(n, l)
                if n in getattr(G, 'referenced', ()):
                    self.count[r[1]] = 1
                if n in UNIQUE:
                    self.holds[r[1]] = [self.norm(v)[1] for v in args if v[0] == 'n']
                elif n in G.by and coll:
                    self.holds[r[1]] = [self.norm(v)[1] for v in args if v[0] == 'n']
                return r
            # pure access function
            self.n += 1
            i = (n,) + tuple(repr(a) for a in args)
            if any(v[0] == 'n' and self.own(v) for v in args):
                r = self.fresh(n, l)
                self.escaped.add(r[1])
                return r
            if n.startswith('cuddCache') or self.choose(('null', i)):
                return ('null',)
            return ('n', i, frozenset([('p', i)]))
        if n in ('malloc', 'MMalloc', 'realloc', 'MMrealloc', 'calloc'):
            return ('arr', self.steps)
        for v in args:
            if v[0] == 'n' and n in ('st_insert', 'st_add_direct', 'st_find_or_add') or v[0] == 'n' and f is None and n not in ('fprintf', 'printf', 'assert', '__assert_fail'):
                self.escape(v)
        return ('t', 'call', n, tuple(repr(a) for a in args), self.steps if coll else 0)

    def cacheargs(self, args, k):
        """(operation, operands): the manager comes first"""
        rest = args[1:]
        return (rest[0],), tuple(rest[1:1 + k])

    # ---- statements
    def block(self, stmts, start=None):
        i = 0
        if start is not None:
            i = start
        while i < len(stmts):
            try:
                self.stmt(stmts[i])
                i += 1
            except Goto as g:
                j = find_label(stmts, g.lab)
                if j is None:
                    raise
                self.rounds = getattr(self, 'rounds', 0) + 1
                if self.rounds > 6:
                    raise Drop()
                i = j

    def stmt(self, s):
        if s is None:
            return
        k = s['k']
        if k == 'expr':
            self.ev(s['e'])
        elif k == 'decl':
            for v in s['v']:
                self.env[v['d']] = self.ev(v['i']) if v.get('i') else ('t', 'uninit', v['n'])
        elif k == 'block':
            self.block(s['b'])
        elif k == 'if':
            if self.truth(s['c']):
                self.stmt(s['t'])
            else:
                self.stmt(s.get('e'))
        elif k == 'ret':
            raise Return(self.norm(self.ev(s['e'])) if s.get('e') else ('t', 'void'), s['l'])
        elif k == 'while':
            n = 0
            while self.truth(s['c']):
                n += 1
                if n > MAXROUND:
                    raise Drop()
                try:
                    self.stmt(s['b'])
                except Break:
                    break
                except Continue:
                    pass
        elif k == 'for':
            if s.get('i'):
                self.stmt(s['i'])
            n = 0
            while s.get('c') is None or self.truth(s['c']):
                n += 1
                if n > MAXROUND:
                    raise Drop()
                try:
                    self.stmt(s['b'])
                except Break:
                    break
                except Continue:
                    pass
                if s.get('n'):
                    self.ev(s['n'])
        elif k == 'do':
            n = 0
            while True:
                n += 1
                if n > MAXROUND:
                    raise Drop()
                try:
                    self.stmt(s['b'])
                except Break:
                    break
                except Continue:
                    pass
                if not self.truth(s['c']):
                    break
        elif k == 'break':
            raise Break()
        elif k == 'cont':
            raise Continue()
        elif k == 'null':
            pass
        elif k == 'label':
            self.stmt(s['b'])
        elif k == 'goto':
            raise Goto(s['n'])
        elif k == 'switch':
            self.switch(s)
        else:
            raise Unknown('statement %s' % k)

    def switch(self, s):
        v = self.ev(s['c'])
        body = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]
        flat = []
        for b in body:
            x = b
            labs = []
            while x is not None and x['k'] in ('case', 'default'):
                labs.append(x)
                x = x['b']
            flat.append((labs, x))
        start = None
        if v[0] == 'i':
            for i, (labs, x) in enumerate(flat):
                for lb in labs:
                    if lb['k'] == 'case':
                        c = self.ev(lb['e'])
                        if c == v:
                            start = i
            if start is None:
                for i, (labs, x) in enumerate(flat):
                    if any(lb['k'] == 'default' for lb in labs):
                        start = i
        else:
            opts = [i for i, (labs, x) in enumerate(flat) if labs]
            j = self.choose(('switch', repr(v), s['l']), len(opts) + 1)
            if j < len(opts):
                start = opts[j]
        if start is None:
            return
        try:
            for labs, x in flat[start:]:
                self.stmt(x)
        except Break:
            pass

    def enter(self, f, args):
        keep = {p['d']: self.env.get(p['d']) for p in f['p']}
        for p, a in zip(f['p'], args):
            self.env[p['d']] = a
        self.depth += 1
        try:
            self.stmt(f['body'])
            v = ('t', 'void')
        except Return as r:
            v = r.v
        self.depth -= 1
        for d, o in keep.items():
            if o is not None:
                self.env[d] = o
        return v

    # ---- run
    def run(self):
        f = self.f
        for p in f['p']:
            t = p['t']
            if strip(t) == 'DdManager *':
                v = ('t', 'manager')
            elif isnode(t):
                v = ('n', p['n'], frozenset([('p', p['n'])]))
            else:
                v = ('t', 'arg', p['n'])
            self.env[p['d']] = v
        try:
            self.stmt(f['body'])
        except Return as r:
            return r.v, r.line
        return ('t', 'void'), f.get('el', f['l'])


def strip(t):
    return t.replace('const ', '').replace('struct ', '').strip()


def isnode(t):
    return strip(t or '') == 'DdNode *'


def strip_e(e):
    while e['k'] in ('icast', 'cast'):
        e = e['e']
    return e


def parity(v):
    if v[0] == 'i' and v[1] in (0, 1):
        return frozenset([1]) if v[1] else frozenset()
    if v[0] == 'bit':
        return v[1]
    if v[0] == 't':
        return frozenset([('t', repr(v))])
    return None


def bit(p):
    if not p:
        return ('i', 0)
    if p == frozenset([1]):
        return ('i', 1)
    return ('bit', p)


def find_label(stmts, lab):
    for i, s in enumerate(stmts):
        x = s
        while x is not None and x['k'] in ('label', 'case', 'default'):
            if x['k'] == 'label' and x['n'] == lab:
                return i
            x = x['b']
    return None


def paths(G, f, limit=6000, seconds=12):
    """all paths: (path, returned value, line) or raises"""
    prefix = []
    n = 0
    t0 = time.time()
    while True:
        p = Path(G, f, prefix)
        try:
            v, l = p.run()
            yield p, v, l
        except Drop:
            pass
        n += 1
        if n > limit or time.time() - t0 > seconds:
            raise Unknown('too many paths')
        t = p.taken
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return
        prefix = [v for v, _ in t]
        prefix[-1] += 1

"""Ownership analysis of the BDD handle classes: every path of a method is followed with abstract nodes, and the number of
references the code adds and removes is compared with the number of handles that exist at its end."""
from .terms import Mgr
from .absint import strip_t, EMPTY

HANDLES = {'BFBdd': ('node', 'mgr'), 'BFBddVarCube': ('cube', 'mgr'), 'BFBddVarVector': ('nodes', 'mgr')}
BINARY = {'Cudd_bddAnd': lambda M, a, b: M.AND(a, b), 'Cudd_bddOr': lambda M, a, b: M.OR(a, b),
          'Cudd_bddXor': lambda M, a, b: M.NOT(M.ite(a, b, M.NOT(b))), 'Cudd_bddXnor': lambda M, a, b: M.ite(a, b, M.NOT(b)),
          'Cudd_bddNand': lambda M, a, b: M.NOT(M.AND(a, b)), 'Cudd_bddNor': lambda M, a, b: M.NOT(M.OR(a, b))}
PURE = ('Cudd_IsConstant', 'Cudd_DagSize', 'Cudd_NodeReadIndex', 'Cudd_CountPathsToNonZero', 'Cudd_CountMinterm', 'Cudd_IsComplement', 'Cudd_CountPath',
        'Cudd_ReadPerm', 'Cudd_ReadSize', 'Cudd_SupportSize')


class Bad(Exception):
    def __init__(self, rule, text, line):
        self.rule, self.text, self.line = rule, text, line


class Unknown(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Thrown(Exception):
    pass


class Oracle:
    """replays decisions; explores all combinations"""
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.keys = {}

    def choose(self, key, n=2):
        if key is not None and key in self.keys:
            return self.keys[key]
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((v, n))
        if key is not None:
            self.keys[key] = v
        return v


def paths(run, limit=400):
    """all executions of run(oracle)"""
    prefix = []
    n = 0
    while True:
        o = Oracle(prefix)
        yield run(o)
        n += 1
        if n > limit:
            raise Unknown('too many paths')
        t = o.taken
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return
        prefix = [v for v, _ in t]
        prefix[-1] += 1


class Run:
    def __init__(self, P, oracle):
        self.P = P
        self.o = oracle
        self.M = Mgr() if not hasattr(Run, 'shared') else Run.shared
        Run.shared = self.M
        self.count = {}         # node id -> references
        self.form = {}          # node id -> formula
        self.perm = set()       # constants
        self.dead = {}          # node id -> line of the final dereference
        self.floating = {}      # node id -> line of a collecting operation while nothing referenced the node
        self.objs = {}          # object id -> {'class','fields','live'}
        self.arrs = {}          # array id -> {'len','elem','freed'}
        self.n = 0
        self.frames = []
        self.unsure = None
        self.args = set()
        self.elemwise = 0
        self.one = self.newnode('One', self.M.TRUE if hasattr(self.M, 'TRUE') else 1)
        self.perm.add(self.one)

    # ---- nodes
    def newnode(self, name, form=None, refs=0):
        self.n += 1
        i = '%s#%d' % (name, self.n)
        self.count[i] = refs
        self.form[i] = form if form is not None else self.M.base(('node', name), EMPTY)
        return i

    def f(self, v):
        f = self.form[v[1]]
        return self.M.NOT(f) if v[2] else f

    def use(self, v, line, what):
        if v[0] == 'null':
            raise Bad('null', '%s is applied to a null pointer' % what, line)
        if v[0] == 'uninit':
            raise Bad('null', '%s is applied to an uninitialized pointer' % what, line)
        if v[0] != 'n':
            raise Unknown('%s of %s' % (what, v[0]))
        i = v[1]
        if i in self.perm:
            return
        if i in self.dead:
            raise Bad('dead', '%s uses a node after its last reference was given up in line %s' % (what, self.dead[i]), line)
        if i in self.floating:
            raise Bad('float', '%s uses a node that had no reference during the operation in line %s' % (what, self.floating[i]), line)

    def collect(self, line):
        """an operation that may run the garbage collector"""
        for i, c in self.count.items():
            if c <= 0 and i not in self.perm and i not in self.dead:
                if i in self.args:
                    raise Bad('float', 'an operation that may run the garbage collector gets an argument without a reference', line)
                if i not in self.floating:
                    self.floating[i] = line

    # ---- objects
    def newobj(self, cls, fields=None, live=True):
        self.n += 1
        i = 'o%d' % self.n
        self.objs[i] = {'class': cls, 'fields': dict(fields or {}), 'live': live}
        return ('o', i)

    def handle(self, cls, name, null=False):
        """an existing handle object"""
        if cls == 'BFBdd' or cls == 'BFBddVarCube':
            k = HANDLES[cls][0]
            if null:
                fl = {k: ('null',), 'mgr': ('null',), 'bfmanager': ('null',), 'cubeSize': ('int', 0)}
            else:
                fl = {k: ('n', self.newnode(name, None, 1), False), 'mgr': ('mgr',), 'bfmanager': ('bfm',), 'cubeSize': ('sym', name + '.size')}
            return self.newobj(cls, fl)
        if cls == 'BFBddVarVector':
            if null:
                return self.newobj(cls, {'nodes': ('null',), 'mgr': ('null',), 'nofNodes': ('int', 0)})
            n = ('sym', name + '.length')
            a = self.newarr(n, ('n', self.newnode(name + '[]', None, 1), False), 'Node')
            return self.newobj(cls, {'nodes': a, 'mgr': ('mgr',), 'nofNodes': n})
        raise Unknown(cls)

    def newarr(self, n, elem, typ):
        self.n += 1
        i = 'a%d' % self.n
        self.arrs[i] = {'len': n, 'elem': elem, 'freed': None, 'type': typ}
        return ('arr', i)

    def get(self, o, m, line):
        if o[0] == 'mgrobj':
            if m == 'mgr':
                return ('mgr',)
            return ('opaque', m)
        if o[0] == 'o':
            ob = self.objs[o[1]]
            if m in ob['fields']:
                return ob['fields'][m]
            return ('uninit',)
        return ('opaque', m)

    # ---- calls of handle classes
    def call_method(self, fn, this, args, line):
        if len(self.frames) > 12:
            raise Unknown('recursion')
        fr = {'this': this, 'env': {}, 'locals': [], 'temps': [], 'fn': fn}
        for p, a in zip(fn['p'], args):
            fr['env'][p['d']] = a
        self.frames.append(fr)
        ret = ('void',)
        try:
            if fn.get('ctor'):
                for i in fn.get('inits', []):
                    if 'm' not in i:
                        raise Unknown('base initializer')
                    self.objs[this[1]]['fields'][i['m']] = self.ptr(this, i['m'], self.ev(i['e']))
                    self.endtemps()
            try:
                self.block(fn['body'])
            except Return as r:
                ret = r.v
            self.leave(ret)
        except Thrown:
            self.leave(None)
            raise
        finally:
            self.frames.pop()
        return ret

    def leave(self, ret):
        fr = self.frames[-1]
        for o in reversed(fr['locals']):
            if o != ret:
                self.destroy(o, fr['fn'].get('el'))
        fr['locals'] = []
        self.endtemps(ret)

    def endtemps(self, keep=None):
        fr = self.frames[-1]
        t, fr['temps'] = fr['temps'], []
        for o in reversed(t):
            if o != keep:
                self.destroy(o, None)

    def destroy(self, o, line):
        ob = self.objs[o[1]]
        if not ob['live']:
            return
        d = self.special(ob['class'], 'dtor')
        if d is not None:
            self.call_method(d, o, [], line)
        ob['live'] = False

    def special(self, cls, what):
        for f in self.P.fns.values():
            if f.get('c') == cls and f.get(what) and f.get('body') is not None:
                return f
        return None

    def construct(self, cls, f, args, line):
        fn = self.P.fns.get(f)
        if fn is None or fn.get('body') is None:
            raise Unknown('constructor of ' + cls)
        o = self.newobj(cls)
        self.call_method(fn, o, args, line)
        return o

    # ---- statements
    def block(self, s):
        k = s['k']
        if k == 'block':
            for x in s['b']:
                self.block(x)
        elif k == 'expr':
            self.ev(s['e'])
            self.endtemps()
        elif k == 'decl':
            for v in s['v']:
                t = strip_t(v['t'])
                if v.get('i') is not None:
                    x = self.ev(v['i'])
                    if x[0] == 'o' and t in HANDLES and '&' not in v['t']:
                        x = self.bind(x, t)
                    self.frames[-1]['env'][v['d']] = x
                    self.endtemps(x)
                    if x[0] == 'o' and t in HANDLES and '&' not in v['t']:
                        self.frames[-1]['locals'].append(x)
                else:
                    if '[' in v['t']:
                        self.frames[-1]['env'][v['d']] = self.newarr(('unknown',), ('uninit',), v['t'])
                    else:
                        self.frames[-1]['env'][v['d']] = ('uninit',)
        elif k == 'if':
            c = self.cond(s['c'])
            self.endtemps()
            if c:
                self.block(s['t'])
            elif s.get('e') is not None:
                self.block(s['e'])
        elif k == 'ret':
            v = ('void',)
            if s.get('e') is not None:
                v = self.ev(s['e'])
                if v[0] == 'o' and strip_t(self.frames[-1]['fn']['rt']) in HANDLES and '&' not in self.frames[-1]['fn']['rt']:
                    v = self.bind(v, None)
            self.frames[-1]['env']['#ret'] = v
            raise Return(v)
        elif k == 'for':
            self.loop(s)
        elif k == 'throw' or k == 'expr' and s['e']['k'] == 'throw':
            raise Thrown()
        else:
            raise Unknown('statement ' + k)

    def bind(self, x, t):
        """a prvalue becomes an object of its own; an lvalue is copied"""
        fr = self.frames[-1]
        if x in fr['temps'] or x in fr['locals']:
            return x
        ob = self.objs[x[1]]
        c = self.special(ob['class'], 'cc')
        if c is None:
            raise Unknown('copy constructor of ' + ob['class'])
        return self.construct(ob['class'], c['f'], [x], None)

    def assigned(self, s, out):
        if isinstance(s, dict):
            if s.get('k') == 'bin' and s.get('op', '').endswith('=') and s['op'] not in ('==', '!=', '<=', '>=') and s['x']['k'] == 'var':
                out.add(s['x']['d'])
            for v in s.values():
                self.assigned(v, out)
        elif isinstance(s, list):
            for v in s:
                self.assigned(v, out)

    def loop(self, s):
        """loops over all elements of an array or container"""
        fr = self.frames[-1]
        i = s.get('i')
        if not i or i['k'] != 'decl' or len(i['v']) != 1 or i['v'][0].get('i') is None:
            raise Unknown('loop')
        d = i['v'][0]['d']
        start = self.ev(i['v'][0]['i'])
        self.endtemps()
        self.n += 1
        lid = 'ix%d' % self.n
        c = s['c']
        if start == ('int', 0) and c['k'] == 'bin' and c['op'] in ('<', '!=') and self.isvar(c['x'], d):
            bound = self.ev(c['y'])
            cur = ('ix', lid, bound)
        elif start[0] == 'int' and start[1] > 0 and c['k'] == 'bin' and c['op'] in ('<', '!=') and self.isvar(c['x'], d) and not self.peeled():
            raise Bad('range', 'the loop starts with element %d' % start[1], s['l'])
        elif start[0] == 'iter' and start[2] == 'begin' and c['k'] == 'op' and c['op'] == '!=' and self.isvar(c['a'][0], d):
            e = self.ev(c['a'][1])
            if e[0] != 'iter' or e[1] != start[1] or e[2] != 'end':
                raise Unknown('loop bound')
            bound = self.arrs[start[1][1]]['len']
            cur = ('at', start[1], ('ix', lid, bound))
        else:
            raise Unknown('loop form')
        n = s.get('n')
        ok = n is not None and (n['k'] == 'un' and n['op'] in ('++p', '++', 'p++') and self.isvar(n['e'], d) or n['k'] == 'op' and n['op'] == '++' and self.isvar(n['a'][0], d))
        if not ok:
            raise Unknown('loop step')
        asg = set()
        self.assigned(s['b'], asg)
        if d in asg:
            raise Unknown('loop variable changed')
        acc = [x for x in asg if x in fr['env']]
        before = {x: fr['env'][x] for x in acc}
        sym = {}
        for x in acc:
            v = before[x]
            if v[0] == 'n':
                self.use(v, s['l'], 'the loop')
                # the reference moves to the running value
                own = min(1, max(0, self.count[v[1]]))
                j = self.newnode('acc', None, own)
                sym[x] = ('n', j, False)
                fr['env'][x] = sym[x]
                self.count[v[1]] -= own
            elif v[0] in ('int', 'sym', 'opaque'):
                fr['env'][x] = ('opaque', 'loop')
            else:
                raise Unknown('variable changed by the loop')
        fr['env'][d] = cur
        self.elemwise += 1
        self.block(s['b'])
        self.elemwise -= 1
        for x, sv in sym.items():
            v = fr['env'][x]
            if v[0] != 'n':
                raise Unknown('accumulator')
            if v[1] == sv[1]:
                if v[2]:
                    raise Unknown('alternating accumulator')
                continue
            if self.count[v[1]] < 1 and v[1] not in self.perm:
                raise Bad('float', 'the running value of the loop is not referenced when the next operation runs', s['l'])
            if self.count[sv[1]] > 0:
                raise Bad('leak', 'the previous value of the loop keeps a reference in every iteration', s['l'])
            if self.count[sv[1]] < 0:
                raise Bad('over', 'the previous value of the loop loses more references than it has', s['l'])
            f = self.f(v)
            res = None
            elems = [a for a in self.arrs.values() if a['elem'][0] == 'o']
            ini = self.f(before[x])
            for a in elems:
                e = self.f(self.objs[a['elem'][1]]['fields']['node'])
                for nm, op, unit in (('bigand', self.M.AND, 1), ('bigor', self.M.OR, 0)):
                    if f == op(self.form[sv[1]], e) and ini == unit:
                        res = self.M.base((nm,), EMPTY)
            j = self.newnode('acc', res, self.count[v[1]])
            self.count[v[1]] = 0
            fr['env'][x] = ('n', j, False)
        fr['env'][d] = ('opaque', 'after loop')

    def peeled(self):
        from .engine import walk
        return any(x.get('k') == 'idx' and x['y'].get('k') == 'int' for x in walk(self.frames[-1]['fn']['body']))

    def isvar(self, e, d):
        while e['k'] in ('icast', 'cast', 'copy'):
            e = e['e']
        return e['k'] == 'var' and e['d'] == d

    # ---- expressions
    def cond(self, e):
        v = self.ev(e)
        return self.truth(v)

    def truth(self, v):
        if v[0] == 'bool':
            return v[1]
        if v[0] == 'int':
            return v[1] != 0
        if v[0] == 'null':
            return False
        if v[0] in ('n', 'arr', 'mgr', 'bfm', 'o', 'p', 'mgrobj'):
            return True
        if v[0] == 'uninit':
            raise Bad('null', 'uninitialized value is tested', None)
        return bool(self.o.choose(repr(v)))

    def elem(self, base, ix, line):
        if base[0] != 'arr':
            if base[0] in ('null', 'uninit'):
                raise Bad('null', 'array access through a null or uninitialized pointer', line)
            raise Unknown('array')
        a = self.arrs[base[1]]
        if a['freed'] is not None:
            raise Bad('dead', 'array is used after delete', line)
        if ix[0] != 'ix':
            raise Unknown('index')
        if a['len'] != ix[2] and a['len'] != ('unknown',):
            raise Bad('range', 'the loop runs over %s elements but the array has %s' % (self.show(ix[2]), self.show(a['len'])), line)
        return a

    def show(self, v):
        return str(v[1]) if len(v) > 1 else v[0]

    def ev(self, e):
        k = e['k']
        line = e.get('l')
        if k in ('icast', 'copy', 'paren'):
            v = self.ev(e['e'])
            if k == 'copy' and v[0] == 'o' and v not in self.frames[-1]['temps']:
                return v
            return v
        if k == 'cast':
            return self.ev(e['e'])
        if k == 'int':
            return ('int', int(e['v']))
        if k == 'bool':
            return ('bool', bool(e['v']) if not isinstance(e['v'], str) else e['v'] == 'true')
        if k == 'null':
            return ('null',)
        if k in ('str', 'char', 'float', 'enum', 'sizeof'):
            return ('opaque', k)
        if k == 'this':
            return ('p', self.frames[-1]['this'])
        if k == 'var':
            env = self.frames[-1]['env']
            if e['d'] in env and not e.get('g'):
                v = env[e['d']]
                return v
            return ('opaque', e['n'])
        if k == 'mem':
            b = self.ev(e['b'])
            if b[0] == 'p':
                b = b[1]
            if b[0] == 'at':
                b = self.elem(b[1], b[2], line)['elem']
            if b[0] in ('null', 'uninit'):
                raise Bad('null', 'member access through a null pointer', line)
            return self.get(b, e['n'], line)
        if k == 'idx':
            b = self.ev(e['x'])
            i = self.ev(e['y'])
            a = self.elem(b, i, line)
            if a['elem'][0] == 'uninit':
                raise Bad('null', 'array element is read before it is set', line)
            return a['elem']
        if k == 'un':
            if e['op'] == '&':
                x = self.ev(e['e'])
                return ('p', x)
            x = self.ev(e['e'])
            if e['op'] == '*':
                if x[0] == 'p':
                    return x[1]
                if x[0] == 'at':
                    return self.elem(x[1], x[2], line)['elem']
                raise Unknown('dereference')
            if e['op'] == '!':
                return ('bool', not self.truth(x))
            if e['op'] in ('++p', '++', 'p++', '--p', '--') and e['e']['k'] == 'var':
                self.frames[-1]['env'][e['e']['d']] = ('opaque', 'counted')
                return ('opaque', 'counted')
            return ('opaque', 'un')
        if k == 'bin':
            return self.bin(e)
        if k == 'cond':
            return self.ev(e['x']) if self.cond(e['c']) else self.ev(e['y'])
        if k == 'new':
            n = self.ev(e['n']) if isinstance(e.get('n'), dict) else ('int', 1)
            return self.newarr(n, ('uninit',), e['t'])
        if k == 'delete':
            a = self.ev(e['e'])
            if a[0] == 'arr':
                if self.arrs[a[1]]['freed'] is not None:
                    raise Bad('dead', 'array is deleted twice', line)
                self.arrs[a[1]]['freed'] = line
            elif a[0] == 'uninit':
                raise Bad('null', 'uninitialized pointer is deleted', line)
            return ('void',)
        if k == 'throw':
            raise Thrown()
        if k == 'ctor':
            return self.ctor(e)
        if k == 'op':
            return self.oper(e)
        if k == 'mcall':
            return self.mcall(e)
        if k == 'call':
            return self.call(e)
        raise Unknown('expression ' + k)

    def bin(self, e):
        op = e['op']
        line = e.get('l')
        if op == '&&':
            return ('bool', self.cond(e['x']) and self.cond(e['y']))
        if op == '||':
            return ('bool', self.cond(e['x']) or self.cond(e['y']))
        if op == '=':
            v = self.ev(e['y'])
            self.assign(e['x'], v, line)
            return v
        if op == ',':
            self.ev(e['x'])
            return self.ev(e['y'])
        x, y = self.ev(e['x']), self.ev(e['y'])
        if op == '^' and x[0] == 'n' and y == ('int', 1):
            return ('n', x[1], not x[2])
        if op == '&' and x[0] == 'n' and y == ('int', 1):
            return ('opaque', 'complement bit')
        if op in ('==', '!='):
            if x[0] == 'uninit' or y[0] == 'uninit':
                raise Bad('null', 'uninitialized value is compared', line)
            r = None
            if x[0] == 'n' and y[0] == 'n':
                a, b = self.f(x), self.f(y)
                if a == b:
                    r = True
                elif x[1] == y[1]:
                    r = False
                else:
                    n = self.M.NOT
                    r = bool(self.o.choose(('eq', min((a, b), (b, a), (n(a), n(b)), (n(b), n(a))))))
            elif x[0] == 'p' and y[0] == 'p':
                r = x[1] == y[1]
            elif 'null' in (x[0], y[0]) or (('int', 0) in (x, y) and x[0] != y[0]):
                a, b = (x, y) if y[0] in ('null', 'int') else (y, x)
                if a[0] in ('n', 'arr', 'mgr', 'bfm', 'o', 'p'):
                    r = False
                elif a[0] in ('null',):
                    r = True
            elif x[0] == 'int' and y[0] == 'int':
                r = x[1] == y[1]
            if r is None:
                r = bool(self.o.choose(('==', repr(min(x, y)), repr(max(x, y)))))
            return ('bool', r == (op == '=='))
        if op in ('<', '>', '<=', '>=') and x[0] == 'int' and y[0] == 'int':
            return ('bool', eval('%d %s %d' % (x[1], op, y[1])))
        return ('opaque', '%s %s %s' % (x, op, y))

    def assign(self, lhs, v, line):
        while lhs['k'] in ('icast', 'cast', 'paren'):
            lhs = lhs['e']
        if lhs['k'] == 'var':
            self.frames[-1]['env'][lhs['d']] = ('null',) if v == ('int', 0) and '*' in lhs.get('t', '') else v
        elif lhs['k'] == 'mem':
            b = self.ev(lhs['b'])
            if b[0] == 'p':
                b = b[1]
            if b[0] != 'o':
                raise Unknown('assignment to member')
            if self.elemwise:
                raise Unknown('member assignment in a loop')
            self.objs[b[1]]['fields'][lhs['n']] = self.ptr(b, lhs['n'], v)
        elif lhs['k'] == 'un' and lhs['op'] == '*':
            raise Unknown('assignment through a pointer')
        elif lhs['k'] == 'idx':
            a = self.elem(self.ev(lhs['x']), self.ev(lhs['y']), line)
            a['elem'] = v
        else:
            raise Unknown('assignment')

    def ptr(self, o, m, v):
        if v == ('int', 0):
            for f in self.P.classes[self.objs[o[1]]['class']]['fields']:
                if f['n'] == m and '*' in f['t']:
                    return ('null',)
        return v

    def args_(self, e):
        return [self.ev(a) for a in e['a']]

    def ctor(self, e):
        c = strip_t(e.get('c') or e['t'])
        if c in HANDLES:
            a = self.args_(e)
            o = self.construct(c, e['f'], a, e.get('l'))
            self.frames[-1]['temps'].append(o)
            return o
        for a in e['a']:
            self.ev(a)
        return ('opaque', c)

    def oper(self, e):
        op = e['op']
        a = self.args_(e)
        b = a[0]
        if b[0] == 'p':
            b = b[1]
        if op == '[]' and b[0] == 'arr':
            return self.elem(b, a[1], e.get('l'))['elem']
        if op in ('->', '*') and len(a) == 1 and b[0] == 'at':
            return ('p', self.elem(b[1], b[2], e.get('l'))['elem']) if op == '->' else self.elem(b[1], b[2], e.get('l'))['elem']
        if b[0] == 'o' and strip_t(e.get('c') or '') in HANDLES:
            return self.invoke(e, b, a[1:])
        return ('opaque', op)

    def invoke(self, e, b, args):
        fn = self.P.fns.get(e['f'])
        if fn is None or fn.get('body') is None:
            raise Unknown(e['q'])
        r = self.call_method(fn, b, [x[1] if x[0] == 'p' and x[1][0] == 'o' and '&' in fn['p'][i]['t'] else x for i, x in enumerate(args)], e.get('l'))
        if r[0] == 'o' and '&' not in fn['rt']:
            self.frames[-1]['temps'].append(r)
        return r

    def mcall(self, e):
        b = self.ev(e['b'])
        if b[0] == 'p':
            b = b[1]
        if b[0] == 'at':
            b = self.elem(b[1], b[2], e.get('l'))['elem']
        if b[0] == 'bfm' or b[0] == 'mgrobj':
            if e['n'] == 'getMgr':
                return ('mgr',)
            if e['n'] in ('constantTrue', 'constantFalse', 'multiAnd', 'multiOr', 'newVariable'):
                return self.invoke(e, ('mgrobj',), self.args_(e))
            self.args_(e)
            return ('opaque', e['n'])
        if b[0] == 'arr':
            if e['n'] == 'size':
                return self.arrs[b[1]]['len']
            if e['n'] in ('begin', 'cbegin'):
                return ('iter', b, 'begin')
            if e['n'] in ('end', 'cend'):
                return ('iter', b, 'end')
            if e['n'] == 'at':
                return self.elem(b, self.ev(e['a'][0]), e.get('l'))['elem']
            if e['n'] == 'empty':
                return ('opaque', 'empty')
            raise Unknown(e['n'])
        if b[0] == 'o':
            return self.invoke(e, b, self.args_(e))
        if b[0] in ('null', 'uninit'):
            raise Bad('null', 'method of a null pointer', e.get('l'))
        self.args_(e)
        return ('opaque', e['n'])

    def mgrarg(self, v, e):
        if v[0] != 'mgr':
            if v[0] in ('null', 'uninit'):
                raise Bad('mgr', '%s is called without a BDD manager' % e['n'], e.get('l'))
            raise Unknown('manager argument')

    def call(self, e):
        n = e['n']
        line = e.get('l')
        if not n.startswith(('Cudd_', 'Dddmp_')):
            a = self.args_(e)
            if any(x[0] == 'n' for x in a) and n not in ('move', 'forward'):
                raise Unknown('node passed to ' + n)
            if n in ('move', 'forward', 'addressof'):
                return a[0]
            if n in ('__assert_fail', 'abort', 'exit'):
                raise Thrown()
            return ('opaque', n, line)
        a = self.args_(e)
        self.args = set(x[1] for x in a if x[0] == 'n')
        if n == 'Cudd_Ref':
            v = a[0]
            self.use(v, line, n)
            self.count[v[1]] += 1
            return ('void',)
        if n in ('Cudd_RecursiveDeref', 'Cudd_Deref', 'Cudd_IterDerefBdd'):
            v = a[-1]
            if n != 'Cudd_Deref':
                self.mgrarg(a[0], e)
            self.use(v, line, n)
            self.count[v[1]] -= 1
            if v[1] not in self.perm:
                if self.count[v[1]] < 0:
                    raise Bad('over', 'more references are given up than exist', line)
                if self.count[v[1]] == 0 and n != 'Cudd_Deref':
                    self.dead[v[1]] = line
                    # a result without a reference may be the same node or one of its successors
                    for i, c in self.count.items():
                        if c <= 0 and i not in self.perm and i not in self.dead and i not in self.floating:
                            self.floating[i] = line
            return ('void',)
        if n in ('Cudd_ReadOne',):
            self.mgrarg(a[0], e)
            return ('n', self.one, False)
        if n in ('Cudd_ReadLogicZero',):
            self.mgrarg(a[0], e)
            return ('n', self.one, True)
        if n == 'Cudd_Not':
            self.use(a[0], line, n)
            return ('n', a[0][1], not a[0][2])
        if n == 'Cudd_Regular':
            return ('n', a[0][1], False) if a[0][0] == 'n' else ('opaque', n)
        for x in a:
            if x[0] in ('n', 'null', 'uninit') and (x[0] == 'n' or n.startswith('Cudd_bdd')):
                self.use(x, line, n)
        if n in PURE:
            return ('opaque', '%s(%s)' % (n, ', '.join(str(self.f(x)) for x in a if x[0] == 'n')))
        if n in ('Cudd_bddLeq', 'Cudd_bddLeqUnless'):
            self.mgrarg(a[0], e)
            self.collect(line)
            x, y = self.f(a[1]), self.f(a[2])
            return ('bool', self.leq(x, y))
        if n.startswith('Cudd_bdd'):
            self.mgrarg(a[0], e)
            self.collect(line)
            return self.result(n, a[1:], e)
        if n == 'Dddmp_cuddBddLoad':
            self.mgrarg(a[0], e)
            self.collect(line)
            if self.o.choose(('load', line)):
                return ('null',)
            return ('n', self.newnode('loaded', None, 1), False)
        if n == 'Dddmp_cuddBddStore':
            self.mgrarg(a[0], e)
            return ('opaque', n)
        return ('opaque', n)

    def leq(self, x, y):
        M = self.M
        if M.AND(x, M.NOT(y)) == 0:
            return True
        return bool(self.o.choose(('leq', min((x, y), (M.NOT(y), M.NOT(x))))))

    def result(self, n, a, e):
        M = self.M
        if n in BINARY and len(a) == 2:
            f = BINARY[n](M, self.f(a[0]), self.f(a[1]))
        elif n == 'Cudd_bddIte':
            f = M.ite(self.f(a[0]), self.f(a[1]), self.f(a[2]))
        elif n == 'Cudd_bddNewVar':
            f = None
        elif n == 'Cudd_bddExistAbstract':
            f = self.ex(self.f(a[0]), self.f(a[1]))
        elif n == 'Cudd_bddUnivAbstract':
            f = M.NOT(self.ex(M.NOT(self.f(a[0])), self.f(a[1])))
        elif n == 'Cudd_bddAndAbstract':
            f = self.ex(M.AND(self.f(a[0]), self.f(a[1])), self.f(a[2]))
        elif n in ('Cudd_bddRestrict', 'Cudd_bddConstrain', 'Cudd_bddLICompaction', 'Cudd_bddMinimize', 'Cudd_bddSqueeze', 'Cudd_bddSafe') and len(a) == 2:
            f = M.fun('careset', (('b', self.f(a[0])), ('b', self.f(a[1]))), EMPTY)
        elif n == 'Cudd_bddSwapVariables':
            xs = a[1:3]
            if not all(x[0] == 'arr' for x in xs):
                raise Unknown('variable arrays of ' + n)
            es = []
            for x in xs:
                ar = self.arrs[x[1]]
                if ar['freed'] is not None:
                    raise Bad('dead', 'array is used after delete', e.get('l'))
                es.append(ar['elem'])
                self.use(ar['elem'], e.get('l'), n)
            if a[3] not in [self.arrs[x[1]]['len'] for x in xs]:
                raise Bad('range', 'swaps %s variables of vectors with %s' % (self.show(a[3]), self.show(self.arrs[xs[0][1]]['len'])), e.get('l'))
            f = M.fun('swap', (('b', self.f(a[0])),) + tuple(sorted(('b', self.f(x)) for x in es)), EMPTY)
        elif n == 'Cudd_bddComputeCube':
            if a[0][0] != 'arr':
                raise Unknown('variable array of ' + n)
            ar, ph = self.arrs[a[0][1]], self.arrs.get(a[1][1]) if a[1][0] == 'arr' else None
            if ar['freed'] is not None or ph is not None and ph['freed'] is not None:
                raise Bad('dead', 'array is used after delete', e.get('l'))
            if ar['elem'][0] == 'uninit':
                raise Bad('null', 'variable array is not initialized', e.get('l'))
            self.use(ar['elem'], e.get('l'), n)
            if a[2] != ar['len']:
                raise Bad('range', 'cube over %s of %s variables' % (self.show(a[2]), self.show(ar['len'])), e.get('l'))
            phase = ph['elem'] if ph is not None else a[1]
            if ph is None and a[1] == ('null',):
                phase = ('int', 1)
            f = M.fun('cube', (('b', self.f(ar['elem'])), phase), EMPTY)
        else:
            f = None
            self.unsure = n
        i = self.newnode(n, f if f is not None else M.base(('result', n, e.get('l')), EMPTY))
        if n == 'Cudd_bddNewVar':
            self.form[i] = M.base(('newvar',), EMPTY)
        return ('n', i, False)

    def ex(self, f, cube):
        return self.M.fun('ex', (('b', f), ('b', cube)), EMPTY)

    # ---- balance at the end
    def balance(self, line):
        want = {}
        for o in self.objs.values():
            if not o['live'] or o['class'] not in HANDLES:
                continue
            k = HANDLES[o['class']][0]
            v = o['fields'].get(k, ('uninit',))
            if v[0] == 'uninit':
                raise Bad('null', 'the pointer of a handle stays uninitialized', line)
            if v[0] == 'arr':
                a = self.arrs[v[1]]
                if a['freed'] is not None:
                    raise Bad('dead', 'a handle keeps an array that was deleted', line)
                if o['fields'].get('nofNodes') != a['len']:
                    raise Bad('range', 'a vector records %s variables but holds %s' % (self.show(o['fields'].get('nofNodes', ('nothing',))), self.show(a['len'])), line)
                v = a['elem']
                if v[0] == 'uninit':
                    raise Bad('null', 'the variables of a vector stay uninitialized', line)
            if v[0] == 'null':
                continue
            if v[0] != 'n':
                raise Unknown('handle holds ' + v[0])
            self.use(v, line, 'a handle')
            want[v[1]] = want.get(v[1], 0) + 1
            m = o['fields'].get('mgr', ('uninit',))
            if m[0] != 'mgr':
                raise Bad('mgr', 'a handle of a node has no BDD manager', line)
        for i, c in self.count.items():
            w = want.get(i, 0)
            if i in self.perm:
                pass
            if c < w:
                raise Bad('miss', '%d handles exist for a node with %d references' % (w, c), line)
            if c > w:
                raise Bad('leak', '%d handles exist for a node with %d references' % (w, c), line)

"""Output typestate analysis: the statements that write to a stream are followed through the syntax tree (helpers inlined,
flag variables, small counters, constant strings and the emptiness of local containers tracked; every other condition may go
either way) and the written text is fed to a monitor that accepts exactly the prefixes of well-formed documents."""
import sys
from .absint import strip_t

MON_DEAD = 'dead'


# ------------------------------------------------------------------ monitors
class Regex:
    """regular language over characters and the tokens INT, NAME"""

    def __init__(self, tree):
        self.eps, self.tr, self.n = {}, {}, 0
        s, f = self.build(tree)
        self.final = f
        self.start = self.close({s})

    def node(self):
        self.n += 1
        return self.n

    def build(self, t):
        if isinstance(t, str):
            t = ('seq',) + tuple(('ch', c) for c in t)
        if t[0] == 'ch' or t[0] == 'tok':
            s, f = self.node(), self.node()
            self.tr.setdefault(s, []).append((t[1] if t[0] == 'ch' else (t[1],), f))
            return s, f
        if t[0] == 'any':       # any character except the given ones
            s, f = self.node(), self.node()
            self.tr.setdefault(s, []).append((('not', t[1]), f))
            return s, f
        if t[0] == 'seq':
            s = f = self.node()
            for x in t[1:]:
                a, b = self.build(x)
                self.eps.setdefault(f, []).append(a)
                f = b
            return s, f
        if t[0] == 'alt':
            s, f = self.node(), self.node()
            for x in t[1:]:
                a, b = self.build(x)
                self.eps.setdefault(s, []).append(a)
                self.eps.setdefault(b, []).append(f)
            return s, f
        if t[0] == 'star':
            s, f = self.node(), self.node()
            a, b = self.build(t[1])
            self.eps.setdefault(s, []).extend([a, f])
            self.eps.setdefault(b, []).extend([a, f])
            return s, f
        raise ValueError(t)

    def close(self, S):
        S, w = set(S), list(S)
        while w:
            for y in self.eps.get(w.pop(), ()):
                if y not in S:
                    S.add(y)
                    w.append(y)
        return frozenset(S)

    def step(self, st, sym):
        out = set()
        for x in st:
            for lab, y in self.tr.get(x, ()):
                if lab == sym or isinstance(lab, tuple) and lab[0] == 'not' and (not isinstance(sym, str) or sym not in lab[1]):
                    out.add(y)
        return self.close(out) if out else None

    def done(self, st):
        return self.final in st


def lst(x, sep):
    return ('alt', '', ('seq', x, ('star', ('seq', sep, x))))


BIT = ('alt', '0', '1')
INT, NAME = ('tok', 'INT'), ('tok', 'NAME')
VALUATION = lst(('seq', NAME, ':', BIT), ', ')
EXPLICIT = ('star', ('seq', 'State ', INT, ' with rank ', INT, ' -> <', VALUATION, '>\n\tWith successors : ', lst(INT, ', '), '\n'))
COUNTER = ('star', ('seq', 'State ', INT, ' with rank (', INT, ',', INT, ') -> <', VALUATION, '>\n\t',
                    ('alt', ('seq', 'With successors : ', lst(INT, ', ')), 'With no successors.'), '\n'))
PERMISSIVE = ('star', ('seq', 'State ', INT, ' with rank ', INT, '\n', VALUATION, '\n', ('star', ('seq', INT, '\n')), '\n'))
COMMENT = ('star', ('seq', '#', ('star', ('any', '\n')), '\n'))


class Json:
    """incremental JSON parser; states are tuples.  Schema: an object with the variable names and one node per state"""
    start = (('top', 'val'),)
    NODE = {'rank', 'state', 'trans'}

    def done(self, st):
        return st == (('top', 'after'),)

    def step(self, st, sym):
        top = st[-1]
        if top[0] == 'str':
            return self.string(st, sym)
        if top[0] == 'num':
            if sym in ('0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.', '-', '+', 'e', 'E') or sym == ('INT',):
                if top[1] == 'INT' or sym == ('INT',):
                    return None
                return st[:-1] + (('num', (top[1] + sym)[:3]),)
            st = self.value(st[:-1], 'num', top[1])
            if st is None:
                return None
            return self.step(st, sym)
        if isinstance(sym, str) and sym in ' \t\r\n':
            return st
        if top[0] == 'top':
            if top[1] == 'val' and sym == '{':
                return (('top', 'in'), ('obj', 'first', frozenset(), None))
            return None
        if top[0] == 'obj':
            _, ph, keys, key = top
            if ph in ('first', 'next') and sym == '"':
                return st + (('str', '', 'key'),)
            if ph in ('first', 'after') and sym == '}':
                return self.close(st)
            if ph == 'colon' and sym == ':':
                return st[:-1] + (('obj', 'val', keys, key),)
            if ph == 'val':
                return self.begin(st, sym)
            if ph == 'after' and sym == ',':
                return st[:-1] + (('obj', 'next', keys, None),)
            return None
        if top[0] == 'arr':
            ph = top[1]
            if ph in ('first', 'after') and sym == ']':
                return self.value(st[:-1], 'arr', None)
            if ph == 'after' and sym == ',':
                return st[:-1] + (('arr', 'next'),)
            if ph in ('first', 'next'):
                return self.begin(st, sym)
            return None
        return None

    def path(self, st):
        return tuple(t[3] if t[0] == 'obj' else '[]' for t in st if t[0] in ('obj', 'arr'))

    def begin(self, st, sym):
        if sym == '{':
            return st + (('obj', 'first', frozenset(), None),)
        if sym == '[':
            return st + (('arr', 'first'),)
        if sym == '"':
            return st + (('str', '', 'val'),)
        if sym == ('INT',):
            return st + (('num', 'INT'),)
        if isinstance(sym, str) and sym in '0123456789-':
            return st + (('num', sym),)
        return None

    def string(self, st, sym):
        _, text, role = st[-1]
        if sym == '"':
            if role == 'val':
                return self.value(st[:-1], 'str', text)
            o = st[-2]
            p = self.path(st[:-2])
            if text in o[2]:
                return None
            if p == ('nodes',) and text != '#' or p == ('nodes', '#') and text not in self.NODE:
                return None
            keys = o[2] if p == ('nodes',) else o[2] | {text}
            return st[:-2] + (('obj', 'colon', keys, text),)
        if sym in ('\n', '\\'):
            return None
        t = '#' if sym == ('INT',) else '$' if sym == ('NAME',) else sym
        return st[:-1] + (('str', (text + t)[:12], role),)

    SCHEMA = {('variables',): ('arr', None), ('variables', '[]'): ('str', ('$',)), ('nodes',): ('obj', None), ('nodes', '#'): ('obj', None),
              ('nodes', '#', 'rank'): ('num', ('INT',)), ('nodes', '#', 'state'): ('arr', None), ('nodes', '#', 'state', '[]'): ('num', ('0', '1')),
              ('nodes', '#', 'trans'): ('arr', None), ('nodes', '#', 'trans', '[]'): ('num', ('INT',))}

    def value(self, st, kind, text):
        """a value has just ended; st: the enclosing containers"""
        p = self.path(st)
        if p in self.SCHEMA:
            k, texts = self.SCHEMA[p]
            if k != kind or texts and text not in texts:
                return None
        elif p[:1] in (('nodes',), ('variables',)):
            return None
        top = st[-1]
        if top[0] == 'obj' and top[1] == 'val':
            return st[:-1] + (('obj', 'after', top[2], None),)
        if top[0] == 'arr' and top[1] in ('first', 'next'):
            return st[:-1] + (('arr', 'after'),)
        return None

    def close(self, st):
        """an object ends"""
        rest = st[:-1]
        p = self.path(rest)
        keys = st[-1][2]
        if not p:
            return (('top', 'after'),) if {'variables', 'nodes'} <= keys else None
        if p == ('nodes', '#') and keys != self.NODE:
            return None
        return self.value(rest, 'obj', None)


# ------------------------------------------------------------------ the executor
class Undecided(Exception):
    pass


FREE, LOST = ('free',), ('lost',)
CONT = ('list', 'vector', 'map', 'set', 'deque', 'unordered_map', 'unordered_set', 'queue', 'stack', 'multimap')
GROW = ('push_back', 'push_front', 'emplace_back', 'emplace_front', 'insert', 'emplace', 'push')
SHRINK = ('pop_back', 'pop_front', 'erase', 'pop', 'resize', 'remove', 'splice', 'swap', 'assign')


def is_cont(t):
    b = strip_t(t).replace('std::', '').replace('__cxx11::', '').split('<')[0].strip()
    return b in CONT and '::' not in strip_t(t).split('>')[-1]


def is_stream(t):
    b = strip_t(t)
    return any(x in b for x in ('ostream', 'ofstream', 'ostringstream', 'stringstream')) and '(' not in b


def is_int(t):
    t = strip_t(t)
    return t in ('int', 'unsigned int', 'unsigned', 'size_t', 'long', 'unsigned long', 'long unsigned int', 'unsigned short', 'short', 'std::size_t', 'unsigned char',
                 'long long', 'unsigned long long', 'std::vector::size_type', 'DdHalfWord') or t.endswith('::size_type')


class Exec:
    def __init__(self, P, monitor, is_sink, where, cls=None):
        self.P, self.mon, self.is_sink, self.where, self.cls = P, monitor, is_sink, where, cls
        self.bad = []           # (function, line, text)
        self.lostbad = []
        self.functions = set()
        self.writes = 0
        self.repeated = set()
        self.conds = {}
        self.depth = 0
        self.frames = []
        self.line = 0
        self.notes = set()
        self.mentions = {}

    # state: (env dict as frozenset, monitor state, lost flag)
    def get(self, st, k):
        for a, b in st[0]:
            if a == k:
                return b
        return LOST

    def put(self, st, k, v):
        return (frozenset([x for x in st[0] if x[0] != k] + [(k, v)]), st[1], st[2])

    def has(self, st, k):
        return any(a == k for a, _ in st[0])

    def lose(self, st):
        return (st[0], st[1], True)

    def emit(self, st, toks):
        m = st[1]
        self.writes += 1
        if m == MON_DEAD:
            return st
        for i, x in enumerate(toks):
            n = self.mon.step(m, x)
            if n is None:
                w = (self.frames[-1]['q'] if self.frames else '?', self.line, ''.join(y if isinstance(y, str) else '<%s>' % y[0] for y in toks[:i + 1]),
                     self.frames[-1]['file'] if self.frames else '')
                (self.lostbad if st[2] else self.bad).append(w)
                return (st[0], MON_DEAD, st[2])
            m = n
        return (st[0], m, st[2])

    # ---- lvalues
    def key(self, st, e):
        while e and e['k'] in ('icast', 'cast', 'copy') or e and e['k'] == 'un' and e['op'] == '*' and e['e']['k'] == 'this':
            e = e['e']
        if e is None:
            return None
        if e['k'] == 'var':
            k = ('g', e.get('q')) if e.get('g') else (self.frames[-1]['id'], e['d'])
            n = 0
            while True:
                v = self.get(st, k)
                if isinstance(v, tuple) and v[0] == 'ref' and n < 20:
                    k = v[1]
                    n += 1
                    continue
                return k
        if e['k'] == 'mem' and e.get('b') and self.strip(e['b'])['k'] == 'this':
            return ('this', e['n'])
        return None

    def strip(self, e):
        while e and e['k'] in ('icast', 'cast', 'copy'):
            e = e['e']
        return e

    # ---- expressions: list of (state, value)
    def ev(self, e, st):
        """values of the expression; whether a container is empty is settled now, it may change later"""
        out = []
        for s, v in self.ev0(e, st):
            out += [(s2, ('b', b)) for s2, b in self.settle(s, v)] if v[0] == 'ne' else [(s, v)]
        return out

    def settle(self, s, v):
        c = self.get(s, v[1])
        return [(self.put(s, v[1], ('c', 'N' if ne else 'E')), ne == v[2]) for ne in (True, False) if not (c in (('c', 'E'), ('c', 'N')) and (c == ('c', 'N')) != ne)]

    def fixed(self, states):
        """a size that is stored is the size at this point"""
        out = []
        for s, v in states:
            if v[0] == 'size' and self.has(s, v[1]):
                out += [(s2, LOST if b else ('n', 0)) for s2, b in self.settle(s, ('ne', v[1], True))]
            else:
                out.append((s, v))
        return out

    def ev0(self, e, st):
        if e is None:
            return [(st, FREE)]
        k = e['k']
        if k in ('icast', 'cast'):
            r = self.ev(e['e'], st)
            if strip_t(e.get('t', '')) == 'bool':
                return [(s, ('b', v[1] != 0) if v[0] == 'n' else v) for s, v in r]
            if is_int(e.get('t', '')):
                return [(s, ('n', int(v[1])) if v[0] == 'b' else v) for s, v in r]
            return r
        if k == 'copy':
            return self.ev(e['e'], st)
        if k == 'bool':
            return [(st, ('b', bool(e['v'])))]
        if k == 'int':
            v = int(e['v'])
            return [(st, ('n', min(v, 3)) if v >= 0 else FREE)]
        if k == 'enum':
            return [(st, FREE)]
        if k == 'str':
            return [(st, ('s', e['v']))]
        if k == 'char':
            return [(st, ('s', chr(e['v'])))]
        if k == 'var' or k == 'mem':
            key = self.key(st, e)
            if k == 'var' and is_stream(e.get('t', '')):
                return [(st, ('sink',) if key in self.sinks or self.is_sink(e) or self.get(st, key) == ('sink',) else FREE)]
            if key is not None and self.has(st, key):
                return [(st, self.get(st, key))]
            if k == 'mem' and self.strip(e['b'])['k'] != 'this':
                return [(s, FREE) for s, _ in self.ev(e['b'], st)]
            return [(st, FREE)]
        if k == 'cond':
            out = []
            for s, b in self.cond(e['c'], st):
                out += self.ev(e['x'] if b else e['y'], s)
            return out
        if k == 'un':
            if e['op'] == '!':
                return [(s, ('b', not b)) for s, b in self.cond(e['e'], st)]
            if e['op'].strip('p') in ('++', '--'):
                key = self.key(st, e['e'])
                out = []
                for s, v in self.ev(e['e'], st):
                    n = ('n', min(v[1] + 1, 3)) if v[0] == 'n' and '++' in e['op'] else FREE if v == FREE and key is None else LOST
                    if v[0] == 'n' and '--' in e['op'] and 0 < v[1] < 3:
                        n = ('n', v[1] - 1)
                    if key is not None and self.has(s, key):
                        s = self.put(s, key, n)
                    out.append((s, v if e['op'].endswith('p') else n))
                return out
            return [(s, FREE if v[0] in ('free', 'sink') else LOST if v == LOST else FREE) for s, v in self.ev(e['e'], st)]
        if k == 'bin':
            op = e['op']
            if op in ('&&', '||'):
                return [(s, ('b', b)) for s, b in self.cond(e, st)]
            if op == '=':
                return self.assign(e['x'], e['y'], st)
            if op in ('+=', '-=', '|=', '&=', '*=', '^=', '<<=', '>>=', '%=', '/='):
                key = self.key(st, e['x'])
                out = []
                for s, v in self.ev(e['y'], st):
                    old = self.get(s, key) if key is not None and self.has(s, key) else FREE
                    n = LOST
                    if op == '+=' and old[0] == 'n' and v[0] == 'n':
                        n = ('n', min(3, old[1] + v[1]))
                    elif op in ('|=', '&=') and old[0] in 'bn' and v[0] in 'bn':
                        b = bool(old[1]) or bool(v[1]) if op == '|=' else bool(old[1]) and bool(v[1])
                        n = ('b', b)
                    elif op == '&=' and ('b', False) in (old, v):
                        n = ('b', False)
                    elif op == '|=' and ('b', True) in (old, v):
                        n = ('b', True)
                    elif old == FREE or v == FREE:
                        n = FREE if old == FREE and v == FREE else LOST
                    if key is not None and self.has(s, key):
                        s = self.put(s, key, n)
                    out.append((s, n))
                return out
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return [(s, v) for s, v in self.compare(e, op, st)]
            if op == ',':
                out = []
                for s, _ in self.ev(e['x'], st):
                    out += self.ev(e['y'], s)
                return out
            out = []
            for s, a in self.ev(e['x'], st):
                for s2, b in self.ev(e['y'], s):
                    if a[0] == b[0] == 'n' and op == '+':
                        out.append((s2, ('n', min(3, a[1] + b[1]))))
                    elif a[0] in 'bn' and b[0] in 'bn' and op in ('|', '&') and a[1] in (0, 1, True, False) and b[1] in (0, 1, True, False):
                        out.append((s2, ('b', bool(a[1] | b[1] if op == '|' else a[1] & b[1]))))
                    else:
                        out.append((s2, LOST if LOST in (a, b) or 'n' in (a[0], b[0]) and not (self.const(e['x']) or self.const(e['y'])) else FREE))
            return out
        if k == 'op':
            return self.opcall(e, st)
        if k in ('mcall', 'call'):
            return self.call(e, st)
        if k == 'ctor':
            t = e.get('t', '')
            if is_cont(t):
                out = [(st, FREE)]
                for a in e.get('a', ()):
                    out = [(s2, FREE) for s, _ in out for s2, _ in self.ev(a, s)]
                if not e.get('a'):
                    return [(s, ('c', 'E')) for s, _ in out]
                return out
            if 'basic_string' in t or strip_t(t) in ('std::string', 'string'):
                a = e.get('a', ())
                if len(a) >= 1:
                    return self.ev(a[0], st)
                return [(st, ('s', ''))]
            out = [(st, FREE)]
            for a in e.get('a', ()):
                out = [(s2, FREE) for s, _ in out for s2, _ in self.ev(a, s)]
            return out
        if k == 'throw':
            return []
        if k == 'lambda':
            return [(st, ('lam', id(e)))] if not self.lams.setdefault(id(e), e) else [(st, ('lam', id(e)))]
        if k == 'list':
            out = [(st, FREE)]
            for a in e.get('a', ()):
                out = [(s2, FREE) for s, _ in out for s2, _ in self.ev(a, s)]
            return out
        # anything else: evaluate the parts for their effects
        out = [(st, FREE)]
        for f in ('b', 'e', 'x', 'y'):
            if isinstance(e.get(f), dict):
                out = [(s2, FREE) for s, _ in out for s2, _ in self.ev(e[f], s)]
        return out

    def const(self, e):
        return self.strip(e)['k'] in ('int', 'char', 'enum')

    def assign(self, lhs, rhs, st):
        key = self.key(st, lhs)
        out = []
        for s, v in self.fixed(self.ev(rhs, st)):
            if key is None:
                s = self.ev(lhs, s)[0][0] if self.ev(lhs, s) else s
            elif self.has(s, key):
                s = self.put(s, key, v)
            elif key[0] == 'this':
                s = self.put(s, key, v)
            out.append((s, v))
        return out

    def compare(self, e, op, st):
        out = []
        x, y = (e['x'], e['y']) if e['k'] == 'bin' else (e['a'][0], e['a'][1])
        for s, a in self.ev(x, st):
            for s2, b in self.ev(y, s):
                if a[0] == 'size' and b[0] == 'n' or b[0] == 'size' and a[0] == 'n':
                    o = op if a[0] == 'size' else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                    key, n = (a[1], b[1]) if a[0] == 'size' else (b[1], a[1])
                    nz = None      # value if the container is not empty / empty
                    if (o, n) in (('>', 0), ('!=', 0), ('>=', 1)):
                        nz = True
                    elif (o, n) in (('==', 0), ('<=', 0), ('<', 1)):
                        nz = False
                    elif (o, n) == ('>=', 0):
                        out.append((s2, ('b', True)))
                        continue
                    if nz is not None:
                        out.append((s2, ('ne', key, nz)))
                        continue
                    c = self.get(s2, key)
                    out.append((s2, FREE))
                    continue
                if {a[0], b[0]} == {'begin', 'end'} and a[1] == b[1] and op in ('==', '!='):
                    out.append((s2, ('ne', a[1], op == '!=')))
                    continue
                if a[0] in 'nb' and b[0] in 'nb' and (a[1] < 3 or b[1] < 3):
                    p, q = int(a[1]), int(b[1])
                    out.append((s2, ('b', {'==': p == q, '!=': p != q, '<': p < q, '>': p > q, '<=': p <= q, '>=': p >= q}[op])))
                elif a[0] == 's' and b[0] == 's':
                    out.append((s2, ('b', (a[1] == b[1]) == (op == '=='))))
                else:
                    out.append((s2, LOST if LOST in (a, b) or self.localscalar(x) or self.localscalar(y) else FREE))
        return out

    def localscalar(self, e):
        """does the expression read a local number or flag?"""
        e = self.strip(e)
        if not isinstance(e, dict):
            return False
        if e['k'] == 'var' and not e.get('g') and (is_int(e.get('t', '')) or strip_t(e.get('t', '')) == 'bool'):
            return True
        if e['k'] in ('op', 'idx', 'mcall', 'call'):
            return False
        return any(self.localscalar(e[f]) for f in ('x', 'y', 'e') if isinstance(e.get(f), dict))

    # ---- conditions: list of (state, bool)
    def cond(self, e, st, loop=False):
        if e is None:
            return [(st, True)]
        k = e['k']
        if k in ('icast', 'cast') and strip_t(e.get('t', '')) == 'bool':
            return self.cond(e['e'], st, loop)
        if k == 'un' and e['op'] == '!':
            return [(s, not b) for s, b in self.cond(e['e'], st, loop)]
        if k == 'bin' and e['op'] in ('&&', '||'):
            out = []
            for s, b in self.cond(e['x'], st, loop):
                if b == (e['op'] == '||'):
                    out.append((s, b))
                else:
                    out += self.cond(e['y'], s, loop)
            return out
        if k == 'bin' and e['op'] in ('|', '&') and strip_t(e['x'].get('t', '')) in ('bool', 'int') and not loop:
            pass
        out = []
        for s, v in self.ev(e, st):
            if v[0] in 'b':
                out.append((s, bool(v[1])))
            elif v[0] == 'n':
                out.append((s, v[1] != 0))
            elif v[0] == 'ne':
                out += self.settle(s, v)
            else:
                key = self.key(s, e) if e['k'] in ('var', 'mem') else None
                if key is not None and v == FREE:
                    out += [(self.put(s, key, ('b', b)), b) for b in (True, False)]
                    continue
                if v == LOST and not loop or not loop and id(e) in self.repeated:
                    s = self.lose(s)
                out += [(s, True), (s, False)]
        return out

    # ---- calls
    def opcall(self, e, st):
        op = e['op']
        a = e['a']
        if op == '<<' and is_stream(e.get('t', '')):
            out = []
            for s, v in self.ev(a[0], st):
                if v != ('sink',):
                    for s2, _ in self.ev(a[1], s):
                        out.append((s2, v))
                    continue
                self.line = e['l']
                out += [(s2, v) for s2 in self.written(a[1], s, e)]
            return out
        if op == '()':
            c = self.strip(a[0])
            for s, v in self.ev(c, st):
                if v[0] == 'lam':
                    return self.inline_lambda(self.lams[v[1]], a[1:], s)
        if op in ('==', '!=', '<', '>', '<=', '>=') and len(a) == 2:
            return self.compare(e, op, st)
        if op == '=':
            return self.assign(a[0], a[1], st)
        if op == '!':
            return [(s, FREE) for s, _ in self.ev(a[0], st)]
        if op in ('+=', '+') and 'basic_string' in e.get('t', ''):
            out = []
            for s, x in self.ev(a[0], st):
                for s2, y in self.ev(a[1], s):
                    v = ('s', x[1] + y[1]) if x[0] == y[0] == 's' and len(x[1]) < 200 else LOST
                    if op == '+=':
                        key = self.key(s2, a[0])
                        if key is not None and self.has(s2, key):
                            s2 = self.put(s2, key, v)
                    out.append((s2, v))
            return out
        out = [(st, FREE)]
        for x in a:
            out = [(s2, FREE) for s, _ in out for s2, _ in self.ev(x, s)]
        if op == '[]' and a:
            key = self.key(st, a[0])
            if key is not None and 'map' in strip_t(a[0].get('t', '')):
                out = [(self.put(s, key, ('c', 'N')) if self.has(s, key) else s, v) for s, v in out]
        return out

    def is_name(self, e):
        """an element of the list of variable names"""
        e = self.strip(e)
        if e['k'] in ('op', 'mcall', 'call') and (e.get('op') == '[]' or e.get('n') == 'at'):
            b = self.strip(e['a'][0] if e['k'] == 'op' else e['b'])
            return b['k'] == 'mem' and b['n'] == 'variableNames'
        return False

    def written(self, e, st, opn):
        x = self.strip(e)
        if x['k'] == 'fref':
            if x['n'] == 'endl':
                return [self.emit(st, ['\n'])]
            return [st]
        if x['k'] == 'cond':
            out = []
            for s, b in self.cond(x['c'], st):
                out += self.written(x['x'] if b else x['y'], s, opn)
            return out
        t = x.get('t', '')
        out = []
        if self.is_name(e):
            return [self.emit(s, [('NAME',)]) for s, _ in self.ev(x, st)]
        for s, v in self.ev(e, st):
            if v[0] == 's':
                out.append(self.emit(s, list(v[1])))
            elif v[0] == 'name':
                out.append(self.emit(s, [('NAME',)]))
            elif v[0] in ('n', 'b') and x['k'] == 'int':
                out.append(self.emit(s, list(x['v'])))
            elif v[0] == 'b' or strip_t(t) == 'bool':
                out += [self.emit(s, [c]) for c in (('1' if v[1] else '0') if v[0] == 'b' else '01')]
            elif is_int(t) or v[0] in ('n', 'size'):
                out.append(self.emit(s, [('INT',)]))
            else:
                self.notes.add('line %d writes a value of type %s' % (opn['l'], t))
                out.append((s[0], MON_DEAD, True))
        return out

    def uses_sink(self, f, seen=None):
        """does the function (transitively, in this class) write to a fixed stream that is a sink?"""
        seen = set() if seen is None else seen
        if f['f'] in self.mentions:
            return self.mentions[f['f']]
        if f['f'] in seen:
            return False
        seen.add(f['f'])
        r = False
        w = [f['body']]
        while w and not r:
            e = w.pop()
            if isinstance(e, dict):
                if e.get('k') == 'var' and e.get('g') and is_stream(e.get('t', '')) and self.is_sink(e):
                    r = True
                if e.get('k') == 'mcall' and self.strip(e.get('b') or {}) and (self.strip(e['b']) or {}).get('k') == 'this':
                    g = self.target(e)
                    if g is not None and self.uses_sink(g, seen):
                        r = True
                w += [v for v in e.values() if isinstance(v, (dict, list))]
            elif isinstance(e, list):
                w += [v for v in e if isinstance(v, (dict, list))]
        self.mentions[f['f']] = r
        return r

    def target(self, e):
        if e.get('virt') and not e.get('nv') and self.cls and e.get('n'):
            f = self.P.find_method(self.cls, e['n'])
            if f is not None:
                return f
        return self.P.fns.get(e.get('f'))

    def call(self, e, st):
        args = e.get('a', ())
        base = self.strip(e.get('b')) if e.get('b') else None
        n = e.get('n')
        if base is not None and base['k'] != 'this':
            key = self.key(st, base)
            if key is not None and self.has(st, key) and is_cont(base.get('t', '')):
                out = [(st, FREE)]
                for x in args:
                    out = [(s2, FREE) for s, _ in out for s2, _ in self.ev(x, s)]
                if n in GROW:
                    return [(self.put(s, key, ('c', 'N')), FREE) for s, _ in out]
                if n == 'clear':
                    return [(self.put(s, key, ('c', 'E')), FREE) for s, _ in out]
                if n in SHRINK:
                    return [(self.put(s, key, FREE), FREE) for s, _ in out]
                if n == 'empty':
                    return [(s, ('ne', key, False)) for s, _ in out]
                if n == 'size':
                    return [(s, ('size', key)) for s, _ in out]
                if n in ('begin', 'end', 'cbegin', 'cend'):
                    return [(s, (n.replace('c', ''), key)) for s, _ in out]
                return out
        f = self.target(e) if e.get('f') else None
        sinkarg = False
        for x in args:
            y = self.strip(x)
            if is_stream(y.get('t', '')) and any(v == ('sink',) for _, v in self.ev(y, st)):
                sinkarg = True
            if y['k'] == 'lambda' or y['k'] == 'var' and self.get(st, self.key(st, y))[0] == 'lam':
                sinkarg = True
        if f is not None and (sinkarg or self.touches(f, args, st) or (base is None or base['k'] == 'this') and self.uses_sink(f)):
            return self.inline(f, args, st)
        if sinkarg and f is None:
            if e.get('n') == 'operator<<' or n in ('flush', 'endl'):
                pass
            raise Undecided('stream is passed to %s, which is not analysed' % n)
        out = [(st, FREE)]
        if base is not None:
            if base['k'] != 'this':
                r = self.ev(base, st)
                if r and all(v == ('sink',) for _, v in r):
                    if n == 'put' and args:
                        return [(s2, ('sink',)) for s, _ in r for s2 in self.written(args[0], s, e)]
                    if n == 'write':
                        raise Undecided('raw writes to the stream')
                    if n == 'operator<<' and args:
                        return [(s2, ('sink',)) for s, _ in r for s2 in self.written(args[0], s, e)]
                out = [(s, FREE) for s, _ in r]
        for x in args:
            out = [(s2, FREE) for s, _ in out for s2, _ in self.ev(x, s)]
        # tracked locals passed by reference may have changed
        if f is None or True:
            for x in args:
                y = x
                if y['k'] in ('var',):
                    key = self.key(st, y)
                    if key is not None and self.has(st, key) and self.get(st, key)[0] in ('b', 'n', 's', 'c', 'free'):
                        out = [(self.put(s, key, FREE if is_cont(y.get('t', '')) else LOST), v) for s, v in out]
        return out

    def touches(self, f, args, st):
        """a helper that gets a tracked local by reference"""
        if self.depth > 6:
            return False
        for p, x in zip(f.get('p', ()), args):
            if p['t'].rstrip().endswith('&') and 'const' not in p['t']:
                key = self.key(st, x)
                if key is not None and self.has(st, key) and (self.get(st, key)[0] in ('b', 'n', 's', 'c')):
                    return True
        return False

    def inline(self, f, args, st):
        if self.depth > 8 or any(fr['f'] == f['f'] for fr in self.frames):
            raise Undecided('recursion in %s' % f['q'])
        self.functions.add(f['q'])
        fid = (self.frames[-1]['id'] if self.frames else ()) + (f['f'],)
        states = [(st, [])]
        for p, x in zip(f.get('p', ()), args):
            nxt = []
            for s, vals in states:
                ref = p['t'].rstrip().endswith('&')
                key = self.key(s, x) if ref else None
                if key is not None and (self.has(s, key) or key in self.sinks):
                    nxt.append((s, vals + [((fid, p['d']), ('ref', key))]))
                else:
                    for s2, v in self.fixed(self.ev(x, s)):
                        if is_stream(p['t']) and v == ('sink',):
                            nxt.append((s2, vals + [((fid, p['d']), ('ref', ('sinkvar',)))]))
                        else:
                            nxt.append((s2, vals + [((fid, p['d']), v)]))
            states = nxt
        return self.run_body(f, fid, [self.puts(s, vals) for s, vals in states], f['body'])

    def puts(self, s, vals):
        for k, v in vals:
            s = self.put(s, k, v)
        return s

    def inline_lambda(self, lam, args, st):
        if self.depth > 8:
            raise Undecided('nested calls')
        fr = self.frames[-1]
        states = [st]
        for p, x in zip(lam.get('p', ()), args):
            nxt = []
            for s in states:
                for s2, v in self.fixed(self.ev(x, s)):
                    nxt.append(self.put(s2, (fr['id'], p['d']), v))
            states = nxt
        return self.run_body(fr, fr['id'], states, lam['body'], keep=True)

    def run_body(self, f, fid, states, body, keep=False):
        self.depth += 1
        self.frames.append({'id': fid, 'q': f['q'], 'f': f['f'] if not keep else None, 'file': f['file']})
        r = self.stmts([body], set(states))
        self.frames.pop()
        self.depth -= 1
        out = set()
        for kd in ('n', 'ret'):
            for s in r.get(kd, ()):
                v = self.get(s, ('ret',)) if self.has(s, ('ret',)) else FREE
                env = frozenset(x for x in s[0] if x[0] != ('ret',) and (keep or x[0][0] != fid))
                out.add(((env, s[1], s[2]), v))
        return list(out)

    # ---- statements: dict kind -> set of states
    def stmts(self, body, states):
        res = {'n': set(states)}
        for b in body:
            if not res['n']:
                break
            cur, res['n'] = res['n'], set()
            for s in cur:
                for kd, xs in self.stmt(b, s).items():
                    res.setdefault(kd, set()).update(xs)
            if len(res['n']) > 3000:
                raise Undecided('too many states')
        return res

    def decl(self, v, st):
        key = (self.frames[-1]['id'], v['d'])
        t = v.get('t', '')
        i = v.get('i')
        if is_stream(t):
            if t.rstrip().endswith('&'):
                k2 = self.key(st, i) if i else None
                for s, val in self.ev(i, st):
                    return [self.put(s, key, ('ref', k2 or ('sinkvar',)) if val == ('sink',) else FREE)]
            if self.is_sink(dict(v, k='var', decl=True)):
                self.sinks.add(key)
            return [st]
        if t.rstrip().endswith('&') and 'const' not in t and i is not None:
            k2 = self.key(st, i)
            if k2 is not None and self.has(st, k2):
                return [self.put(st, key, ('ref', k2))]
        out = []
        for s, val in self.fixed(self.ev(i, st)) if i is not None else [(st, ('c', 'E') if is_cont(t) else LOST)]:
            if i is not None and self.is_name(i):
                val = ('name',)
            if val[0] == 'sink':
                val = FREE
            if is_cont(t) and val[0] != 'c':
                val = FREE
            out.append(self.put(s, key, val))
        return out

    def stmt(self, b, st):
        if b is None:
            return {'n': {st}}
        k = b['k']
        if k == 'block':
            r = self.stmts(b['b'], {st})
            # locals that go out of scope
            ds = [v['d'] for x in b['b'] if x and x['k'] == 'decl' for v in x['v']]
            if ds:
                fid = self.frames[-1]['id']
                r = {kd: {(frozenset(x for x in s[0] if not (x[0][0] == fid and len(x[0]) > 1 and x[0][1] in ds)), s[1], s[2]) for s in xs} for kd, xs in r.items()}
            return r
        if k == 'expr':
            return {'n': {s for s, _ in self.ev(b['e'], st)}}
        if k == 'decl':
            cur = [st]
            for v in b['v']:
                cur = [s2 for s in cur for s2 in self.decl(v, s)]
            return {'n': set(cur)}
        if k == 'if':
            cur = [st]
            if b.get('init'):
                cur = list(self.stmt(b['init'], st).get('n', ()))
            if b.get('cv'):
                cur = [s2 for s in cur for s2 in self.decl(b['cv'], s)]
            res = {}
            for s0 in cur:
                for s, v in self.cond(b['c'], s0):
                    for kd, xs in self.stmt(b['t'] if v else b.get('e'), s).items():
                        res.setdefault(kd, set()).update(xs)
            return res
        if k in ('while', 'for', 'do', 'forr'):
            return self.loop(b, st)
        if k == 'ret':
            return {'ret': {self.put(s, ('ret',), v if v[0] in ('b', 's') else FREE) for s, v in self.ev(b.get('e'), st)}}
        if k == 'break':
            return {'break': {st}}
        if k == 'cont':
            return {'cont': {st}}
        if k == 'null':
            return {'n': {st}}
        if k == 'try':
            return self.stmt(b['b'], st)
        raise Undecided('statement %s in line %s' % (k, b.get('l')))

    def loop(self, b, st):
        k = b['k']
        start = {st}
        if k == 'for' and b.get('i'):
            start = self.stmt(b['i'], st).get('n', set())
        res = {'n': set()}
        seen = set(start)
        work = list(start)
        first = k == 'do'
        while work:
            s0 = work.pop()
            if len(seen) > 3000:
                raise Undecided('too many states')
            if k == 'forr':
                cs = [(s, x) for s, _ in self.ev(b['r'], s0) for x in (True, False)]
                r0 = self.key(s0, b['r'])
                if r0 is not None and self.get(s0, r0) == ('c', 'E'):
                    cs = [(s, x) for s, x in cs if not x]
                cs = [(self.put(s, (self.frames[-1]['id'], b['v']['d']), ('name',) if self.strip(b['r'])['k'] == 'mem' and self.strip(b['r'])['n'] == 'variableNames' else FREE), x)
                      for s, x in cs]
            elif k == 'do':
                cs = [(s0, True)]
            else:
                cs = self.cond(b.get('c'), s0, loop=True)
            for s, v in cs:
                if not v:
                    res['n'].add(s)
                    continue
                r = self.stmt(b['b'], s)
                nxt = r.get('n', set()) | r.get('cont', set())
                res['n'] |= r.get('break', set())
                for kd in ('ret',):
                    if r.get(kd):
                        res.setdefault(kd, set()).update(r[kd])
                if k == 'for' and b.get('n'):
                    nxt = {s2 for x in nxt for s2, _ in self.ev(b['n'], x)}
                if k == 'do':
                    n2 = set()
                    for x in nxt:
                        for s2, v2 in self.cond(b['c'], x, loop=True):
                            if v2:
                                n2.add(s2)
                            else:
                                res['n'].add(s2)
                    nxt = n2
                for x in nxt:
                    if x not in seen:
                        seen.add(x)
                        work.append(x)
        if k == 'for' and b.get('i') and b['i']['k'] == 'decl':
            ds = [v['d'] for v in b['i']['v']]
            fid = self.frames[-1]['id']
            res = {kd: {(frozenset(x for x in s[0] if not (x[0][0] == fid and len(x[0]) > 1 and x[0][1] in ds)), s[1], s[2]) for s in xs} for kd, xs in res.items()}
        return res

    def scan_conditions(self, f):
        """conditions that are evaluated at several places: their outcomes are correlated"""
        import json
        by = {}
        seen = set()
        w = [f]
        while w:
            g = w.pop()
            if g['f'] in seen:
                continue
            seen.add(g['f'])
            q = [g['body']]
            while q:
                e = q.pop()
                if isinstance(e, dict):
                    if e.get('k') in ('if', 'cond') and isinstance(e.get('c'), dict):
                        self.atomic(e['c'], by)
                    if e.get('k') in ('mcall', 'call') and e.get('f') in self.P.fns and any(is_stream((self.strip(x) or {}).get('t', '')) for x in e.get('a', ())):
                        w.append(self.P.fns[e['f']])
                    q += [v for v in e.values() if isinstance(v, (dict, list))]
                elif isinstance(e, list):
                    q += [v for v in e if isinstance(v, (dict, list))]
        for xs in by.values():
            if len(xs) > 1:
                self.repeated.update(xs)

    def atomic(self, e, by):
        import json
        while e['k'] in ('icast', 'cast') or e['k'] == 'un' and e['op'] == '!':
            e = e['e']
        if e['k'] == 'bin' and e['op'] in ('&&', '||'):
            self.atomic(e['x'], by)
            self.atomic(e['y'], by)
            return
        by.setdefault(self.text(e), set()).add(id(e))

    def text(self, e):
        if isinstance(e, dict):
            return '{%s}' % ','.join('%s:%s' % (k, self.text(v)) for k, v in sorted(e.items()) if k not in ('l',))
        if isinstance(e, list):
            return '[%s]' % ','.join(map(self.text, e))
        return str(e)

    def run(self, f):
        self.sinks = {('sinkvar',)}
        self.lams = {}
        self.scan_conditions(f)
        self.functions.add(f['q'])
        self.frames = [{'id': (), 'q': '', 'f': None, 'file': f['file']}]
        start = (frozenset(), self.mon.start, False)
        vals = []
        for p in f.get('p', ()):
            vals.append((((f['f'],), p['d']), ('ref', ('sinkvar',)) if is_stream(p['t']) else FREE))
        ends = [s for s, _ in self.run_body(f, (f['f'],), [self.puts(start, vals)], f['body'])]
        return ends

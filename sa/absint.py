"""Abstract interpreter (dataflow / global value numbering) over the extracted program.

Each function body is interpreted once per calling context over *symbolic* inputs; branches are merged with gated
(ite) values, loops are summarised (fixed points, folds over containers, accumulators), user functions are inlined
through the resolved call graph (virtual calls by the dynamic class under analysis).  Values are the canonical terms
of terms.py; what is not understood becomes an uninterpreted term and is noted."""
import re
from .terms import Mgr, EMPTY

BF = 'BFBdd'
INTT = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'unsigned char',
        'signed char', 'long long', 'unsigned long long', 'size_t'}
UNS = {'unsigned int', 'unsigned long', 'unsigned short', 'unsigned char', 'unsigned long long'}


def strip_t(t):
    t = (t or '').strip()
    while True:
        o = t
        if t.endswith('&'):
            t = t[:-1].strip()
        if t.startswith('const '):
            t = t[6:].strip()
        if t.endswith(' const'):
            t = t[:-6].strip()
        if o == t:
            return t


def is_ref(t):
    return (t or '').strip().endswith('&')


def is_const_ref(t):
    t = (t or '').strip()
    return t.endswith('&') and (t.startswith('const ') or t.endswith('const &'))


def targs(t):
    """template arguments of a type string"""
    i = t.find('<')
    if i < 0:
        return []
    d = 0
    out = []
    cur = ''
    for ch in t[i + 1:]:
        if ch == '<':
            d += 1
        if ch == '>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def cont_kind(t):
    t = strip_t(t)
    for k in ('vector', 'list', 'set', 'map', 'deque', 'multimap', 'unordered_map', 'unordered_set'):
        if t.startswith('std::' + k + '<') or t.startswith('std::__cxx11::' + k + '<'):
            return k
    return None


def elem_type(t):
    k = cont_kind(t)
    a = targs(strip_t(t))
    if k in ('map', 'multimap', 'unordered_map'):
        return 'std::pair<const %s, %s>' % (a[0], a[1])
    return a[0] if a else ''


class State:
    __slots__ = ('env', 'pc')

    def __init__(self, env, pc):
        self.env = env
        self.pc = pc

    def copy(self):
        return State(dict(self.env), self.pc)


class Flow:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind = kind
        self.st = st
        self.val = val


class Frame:
    __slots__ = ('id', 'this', 'fn', 'lambdas')

    def __init__(self, id, this, fn):
        self.id = id
        self.this = this
        self.fn = fn


MAIN = ('M',)


class Interp:
    def __init__(self, P, M, dyncls, model):
        self.P, self.M, self.dyn, self.model = P, M, dyncls, model
        self.nframe = 0
        self.events = []        # (pc, stream, value, loc)
        self.throws = []        # (pc, loc, type)
        self.calls = []         # (qualified name, loc)  functions inlined
        self.notes = []
        self.stack = []
        self.types = {}
        self.loops = []
        self.lambdas = {}
        self.loopdepth = 0
        self.trystack = []
        self.on_output = None
        self.final = True
        self.hooks = {}         # qualified name -> fn(interp, st, this, args, e)
        self.fieldlog = set()
        self.writes = []
        self.classfields = {}
        self.stmts = 0
        self.warm = False
        self.looprecs = []
        self.lastx = {}
        self.warmlog = []
        self.carrylog = []
        self.symlog = {}
        self.loopmemo = {}
        self.fixedsize = {}
        M.elem_hook = lambda c, i, supp: self.elem_hook(c, i, supp)
        M.sel_hook = lambda t: self.sel(t[1], t[2], '?')
        M.size_hook = self.size
        self.callpath = []

    def elem_hook(self, cont, idx, supp):
        if cont[0] in ('cont', 'csym'):
            return None
        v = self.sel(cont, idx, '?')
        if v[0] in ('bf', 'b'):
            return v[1]
        return None

    # loop summaries found in one round of an enclosing loop are the starting point of the next round
    def memokey(self, s):
        return (tuple(self.callpath), id(s))

    def memo_in(self, key):
        if key[0] != 'L':
            return key
        for i, fr in enumerate(self.stack):
            if fr.id == key[1]:
                return ('L', i, key[2])
        return None

    def memo_out(self, key):
        if key[0] != 'L':
            return key
        return ('L', self.stack[key[1]].id, key[2]) if key[1] < len(self.stack) else None

    # ------------------------------------------------------------ notes
    def note(self, msg, e=None):
        loc = self.loc(e)
        if (msg, loc) not in self.notes:
            self.notes.append((msg, loc))

    def loc(self, e=None):
        f = self.stack[-1].fn if self.stack else None
        fn = f['file'] if f else '?'
        l = e.get('l') if isinstance(e, dict) else (f['l'] if f else 0)
        return '%s:%s' % (self.P.rel(fn), l)

    # ------------------------------------------------------------ typed symbolic values
    def typed(self, t, name, args=(), supp=None):
        """uninterpreted value of type t"""
        t = strip_t(t)
        M = self.M
        if t == BF:
            s = supp if supp is not None else self.model.allcats
            return ('bf', M.fun(name, tuple(args), frozenset(s)))
        if t == 'bool':
            return ('b', M.fun(name, tuple(args), EMPTY))
        return ('fun', name) + tuple(args)

    def default_field(self, cls, name):
        """initial symbolic value of a field of the main object"""
        f = self.field_info(cls, name)
        t = strip_t(f['t']) if f else ''
        v = self.model.field(self, cls, name, t, f)
        if v is not None:
            return v
        if t == BF:
            return ('bf', self.M.base(name, self.model.supp(name)))
        if t == 'bool':
            return ('b', self.M.base(('fld', name), EMPTY))
        if cont_kind(t):
            return ('cont', name)
        return ('s', ('fld', name))

    def field_info(self, cls, name):
        k = (cls, name)
        if k not in self.classfields:
            r = None
            c = self.P.classes.get(cls)
            if c:
                for f in c['fields']:
                    if f['n'] == name:
                        r = f
            self.classfields[k] = r
        return self.classfields[k]

    # ------------------------------------------------------------ store
    def get(self, st, key):
        v = st.env.get(key)
        if v is None:
            if key[0] == 'F':
                v = self.default_field(key[1], key[2])
                st.env[key] = v
            elif key[0] == 'G':
                g = self.P.globals.get(key[1].split('::')[-1])
                t = strip_t(g['t']) if g else ''
                v = ('s', ('glob', key[1]))
                if cont_kind(t):
                    v = ('cont', key[1])
            else:
                v = ('s', ('unbound', key))
        return v

    def read(self, st, lv):
        root, path = lv
        v = self.get(st, root)
        n = 0
        while isinstance(v, tuple) and v and v[0] == 'ref' and n < 50:
            root, p2 = v[1]
            v = self.get(st, root)
            for p in p2:
                v = self.proj(v, p)
            n += 1
        for p in path:
            v = self.proj(v, p)
        return v

    def resolve(self, st, lv):
        root, path = lv
        n = 0
        while n < 50:
            v = self.get(st, root)
            if isinstance(v, tuple) and v and v[0] == 'ref':
                root, p2 = v[1]
                path = tuple(p2) + tuple(path)
                n += 1
            else:
                break
        return root, path

    def proj(self, v, p):
        if p[0] == 'f':
            if v[0] == 'obj':
                for k, x in v[2]:
                    if k == p[1]:
                        return x
            if v[0] == 'iite':
                return self.mite(v[1][1], self.proj(v[2], p), self.proj(v[3], p))
            supp = None
            if strip_t(p[2]) == BF:
                supp = self.model.projsupp(v, p[1])
            return self.typed(p[2], 'proj', (v, p[1]), supp)
        if p[0] == 'i':
            return self.sel(v, p[1], p[2])
        return ('fun', 'proj', v, p)

    def below(self, idx, n):
        """is idx < n known from the loop ranges?"""
        d, k = self.M.lin(self.M.isub(n, idx))
        # n - idx = sum; replace -i by  -(size_i - 1)
        for _ in range(4):
            done = True
            for x, c in list(d.items()):
                if x[0] == 's' and x[1] in self.M.ranges and c < 0:
                    up = self.M.ranges[x[1]][1]
                    du, ku = self.M.lin(up)
                    del d[x]
                    for y, cy in du.items():
                        d[y] = d.get(y, 0) + c * cy
                    k += c * (ku - 1)
                    done = False
            if done:
                break
        return k > 0 and all(c >= 0 for c in d.values())

    def sel_parts(self, items, idx, t):
        """element of a concatenation, when the loop ranges tell the part it lies in"""
        off = idx
        for it in items:
            n = ('c', 1) if it[0] == 'item' else self.size(it[1]) if it[0] == 'all' else \
                it[1][1] if it[0] == 'for' and len(it[3]) == 1 and it[3][0][0] == 'item' and it[1][0] == 'range' else None
            if n is None:
                return None
            if self.below(off, n):
                if any(c < 0 for x, c in self.M.lin(off)[0].items()) or self.M.lin(off)[1] < 0:
                    return None
                if it[0] == 'item':
                    return it[1]
                if it[0] == 'all':
                    return self.sel(it[1], off, t)
                return self.M.tsubst(it[3][0][1], {('sym', ('bi', it[2])): off})
            off = self.M.isub(off, n)
            if any(c < 0 for c in self.M.lin(off)[0].values()):
                return None
        return None

    def sel(self, cont, idx, t):
        t = strip_t(t)
        M = self.M
        if idx[:2] == ('fun', 'find') and len(idx) == 4 and (t == '' or t.startswith('std::pair<')):
            return ('obj', 'pair', (('first', idx[3]), ('second', self.sel(cont, idx[3], 'unsigned int'))))
        if cont[0] == 'seq':
            items = cont[1]
            if idx[0] == 'c' and all(x[0] == 'item' for x in items[:idx[1] + 1]) and idx[1] < len(items) and idx[1] >= 0:
                return items[idx[1]][1]
            # single comprehension: element i is the body with its index replaced
            if len(items) == 1 and items[0][0] == 'for' and len(items[0][3]) == 1 and items[0][3][0][0] == 'item':
                h = items[0][2]
                return M.tsubst(items[0][3][0][1], {('sym', ('bi', h)): idx})
            if len(items) == 1 and items[0][0] == 'all':
                return self.sel(items[0][1], idx, t)
            if items and items[-1][0] == 'item' and idx == self.isub(self.size(cont), ('c', 1)):
                return items[-1][1]
            r = self.sel_parts(items, idx, t)
            if r is not None:
                return r
        if cont[0] == 'upd' and cont[2] == idx:
            return cont[3]
        if cont[0] == 'upd' and idx[0] == 'c' and cont[2][0] == 'c':
            return self.sel(cont[1], idx, t)
        if cont[0] == 'mapped':
            # ('mapped', container, dom, h, offset, body): element offset+i is body(i) for i in dom
            off = self.M.isub(idx, cont[4])
            if self.below(off, cont[2][1]) and not any(c < 0 for c in self.M.lin(off)[0].values()):
                return M.tsubst(cont[5], {('sym', ('bi', cont[3])): off})
        if cont[0] == 'fill':
            return cont[2]
        if cont[0] == 'iite':
            return self.mite(cont[1][1], self.sel(cont[2], idx, t), self.sel(cont[3], idx, t))
        if cont[0] == 'range':
            return idx
        if t == BF:
            return ('bf', M.elem(cont, idx, frozenset(self.model.contsupp(cont))))
        if t == 'bool':
            return ('b', M.fun('elem', (cont, idx), EMPTY))
        return ('elem', cont, idx)

    def write(self, st, lv, val):
        root, path = self.resolve(st, lv)
        self.writes.append((root, path))
        if not path:
            st.env[root] = val
            return
        st.env[root] = self.upd(self.get(st, root), list(path), val)

    def upd(self, v, path, val):
        p = path[0]
        if len(path) > 1:
            val = self.upd(self.proj(v, p), path[1:], val)
        if p[0] == 'f':
            if v[0] == 'obj':
                d = dict(v[2])
                d[p[1]] = val
                return ('obj', v[1], tuple(sorted(d.items(), key=lambda kv: str(kv[0]))))
            return ('obj', ('with', v), ((p[1], val),)) if v[0] != 'obj' else v
        if p[0] == 'i':
            if v[0] == 'seq' and p[1][0] == 'c' and all(x[0] == 'item' for x in v[1]) and p[1][1] < len(v[1]):
                l = list(v[1])
                l[p[1][1]] = ('item', val)
                return ('seq', tuple(l))
            if v[0] == 'upd' and v[2] == p[1]:
                return ('upd', v[1], p[1], val)
            return ('upd', v, p[1], val)
        return ('fun', 'updated', v, p, val)

    # ------------------------------------------------------------ coercions
    def tobool(self, v):
        M = self.M
        if v[0] == 'b':
            return v[1]
        if v[0] == 'c':
            return 1 if v[1] else 0
        if v[0] == 'bf':
            return M.valid(v[1])
        if v[0] == 'iite':
            return M.ite(v[1][1], self.tobool(v[2]), self.tobool(v[3]))
        return M.NOT(M.cmp('==', v, ('c', 0)))

    def tobf(self, v):
        if v[0] in ('bf', 'b'):
            return v[1]
        if v[0] == 'iite':
            return self.M.ite(v[1][1], self.tobf(v[2]), self.tobf(v[3]))
        return self.M.fun('asbf', (v,), self.model.allcats)

    def toint(self, v):
        if v[0] == 'b':
            if v[1] in (0, 1):
                return ('c', v[1])
            return ('iite', v, ('c', 1), ('c', 0))
        return v

    def size(self, cont):
        M = self.M
        if cont[0] == 'seq':
            r = ('c', 0)
            for it in cont[1]:
                if it[0] == 'item':
                    r = M.iadd(r, ('c', 1))
                elif it[0] == 'all':
                    r = M.iadd(r, self.size(it[1]))
                elif it[0] == 'for' and len(it[3]) == 1 and it[3][0][0] == 'item' and it[1][0] == 'range':
                    r = M.iadd(r, it[1][1])
                else:
                    return ('size', cont)
            return r
        if cont[0] == 'range':
            return cont[1]
        if cont[0] in ('upd', 'mapped'):
            return self.size(cont[1])
        if cont[0] == 'fill':
            return cont[1]
        if cont[0] == 'csym' and cont[1] in self.fixedsize:
            return self.fixedsize[cont[1]]
        if cont[0] == 'fun' and cont[1] == 'resize' and len(cont) >= 4:
            return cont[3]
        if cont[0] == 'iite':
            return self.mite(cont[1][1], self.size(cont[2]), self.size(cont[3]))
        if cont[0] == 'str' and isinstance(cont[1], str):
            return ('c', len(cont[1]))
        if cont[0] == 'vars' and len(cont) == 2 and isinstance(cont[1], tuple):
            pre = tuple('Pre' + k[4:] if isinstance(k, str) and k.startswith('Post') and ('Pre' + k[4:]) in self.P.enums else k for k in cont[1])
            return ('size', ('vars', pre))
        return ('size', cont)

    def isub(self, a, b):
        return self.M.isub(a, b)

    # ------------------------------------------------------------ gated merge
    def mite(self, c, a, b):
        M = self.M
        if a == b or c == 1:
            return a
        if c == 0:
            return b
        if a[0] in ('bf', 'b') and b[0] in ('bf', 'b'):
            if a[0] == 'bf' or b[0] == 'bf':
                t = M.valid(M.IFF(a[1], b[1]))
                if t not in (0, 1):
                    if M.AND(c, M.NOT(t)) == 0:
                        return b
                    if M.AND(M.NOT(c), M.NOT(t)) == 0:
                        return a
            return (a[0] if a[0] == b[0] else 'bf', M.ite(c, a[1], b[1]))
        if a[0] == 'obj' and b[0] == 'obj':
            ka = dict(a[2])
            kb = dict(b[2])
            if set(ka) == set(kb):
                return ('obj', a[1], tuple((k, self.mite(c, ka[k], kb[k])) for k, _ in a[2]))
        if a[0] == 'seq' and b[0] == 'seq':
            # common prefix, conditional rest
            i = 0
            while i < len(a[1]) and i < len(b[1]) and a[1][i] == b[1][i]:
                i += 1
            ra, rb = a[1][i:], b[1][i:]
            return ('seq', a[1][:i] + (('cond', ('b', c), ra, rb),))
        if a[0] == 'seq' and b[0] in ('cont', 'csym') and a[1] and a[1][0] == ('all', b):
            return self.mite(c, a, ('seq', (('all', b),)))
        if b[0] == 'seq' and a[0] in ('cont', 'csym') and b[1] and b[1][0] == ('all', a):
            return self.mite(c, ('seq', (('all', a),)), b)
        return ('iite', ('b', c), a, b)

    def care(self, f, c):
        """generalised cofactor of f with respect to the care set c"""
        M = self.M
        if c == 1 or f <= 1:
            return f
        if c == 0:
            return f
        if M.AND(c, M.NOT(f)) == 0:
            return 1
        if M.AND(c, f) == 0:
            return 0
        memo = {}

        def rec(f, c):
            if c == 1 or f <= 1 or c == 0:
                return f
            k = (f, c)
            if k in memo:
                return memo[k]
            a = M.top(f, c)
            f1, f0 = M.cof(f, a)
            c1, c0 = M.cof(c, a)
            if c1 == 0:
                r = rec(f0, c0)
            elif c0 == 0:
                r = rec(f1, c1)
            elif f1 == f0:
                r = rec(f1, M.OR(c1, c0))
            else:
                r = M.mk(a, rec(f1, c1), rec(f0, c0))
            memo[k] = r
            return r
        return rec(f, c)

    def merge(self, sts, keys=None):
        """merge states with disjoint path conditions"""
        M = self.M
        sts = [s for s in sts if s.pc != 0]
        if not sts:
            return None
        cur = sts[0]
        for s in sts[1:]:
            tot = M.OR(cur.pc, s.pc)
            c = self.care(cur.pc, tot)
            env = {}
            for k in cur.env:
                if k in s.env:
                    a, b = cur.env[k], s.env[k]
                    env[k] = a if a == b else self.mite(c, a, b)
                else:
                    if k[0] in ('F', 'G'):
                        env[k] = self.mite(c, cur.env[k], self.get(s, k))
                    else:
                        env[k] = cur.env[k]
            for k in s.env:
                if k not in env:
                    if k[0] in ('F', 'G'):
                        env[k] = self.mite(c, self.get(cur, k), s.env[k])
                    else:
                        env[k] = s.env[k]
            cur = State(env, tot)
        return cur

    def merge_vals(self, flows):
        M = self.M
        tot = flows[0].st.pc
        v = flows[0].val
        for f in flows[1:]:
            t2 = M.OR(tot, f.st.pc)
            c = self.care(tot, t2)
            v = self.mite(c, v, f.val) if v is not None and f.val is not None else v
            tot = t2
        return v

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """returns list of flows; at most one normal flow"""
        out = []
        cur = st
        for s in stmts:
            if cur is None or cur.pc == 0:
                break
            fl = self.stmt(s, cur)
            norm = [f.st for f in fl if f.kind == 'n']
            out += [f for f in fl if f.kind != 'n']
            cur = self.merge(norm)
        if cur is not None and cur.pc != 0:
            out.append(Flow('n', cur))
        return out

    def stmt(self, s, st):
        if s is None:
            return [Flow('n', st)]
        self.stmts += 1
        k = s['k']
        M = self.M
        if k == 'expr':
            self.ev(s['e'], st)
            return self._after(st)
        if k == 'block':
            return self.block(s['b'], st)
        if k == 'decl':
            for v in s['v']:
                self.decl(v, st)
            return self._after(st)
        if k == 'null':
            return [Flow('n', st)]
        if k == 'if':
            if s.get('init'):
                fl = self.stmt(s['init'], st)
                st = fl[0].st
            if s.get('cv'):
                self.decl(s['cv'], st)
            c = self.tobool(self.ev(s['c'], st))
            if st.pc == 0:
                return []
            return self.branch(c, st, lambda a: self.stmt(s['t'], a),
                               lambda b: self.stmt(s.get('e'), b) if s.get('e') else [Flow('n', b)])
        if k == 'ret':
            v = self.ev(s['e'], st) if s.get('e') else None
            if st.pc == 0:
                return []
            return [Flow('ret', st, v)]
        if k == 'break':
            return [Flow('brk', st)]
        if k == 'cont':
            return [Flow('cnt', st)]
        if k in ('for', 'while', 'do', 'forr'):
            return self.loop(s, st)
        if k == 'switch':
            return self.switch(s, st)
        if k == 'try':
            tr = {'h': s.get('h', []), 'depth': self.loopdepth, 'pend': []}
            n = len(self.trystack)
            self.trystack.append(tr)
            fl = self.stmt(s['b'], st)
            del self.trystack[n:]
            for st2, h in tr['pend']:
                fl = fl + self.stmt(h['b'], st2)
            return self._compact(fl) if tr['pend'] else fl
        if k in ('label', 'case', 'default'):
            return self.stmt(s['b'], st)
        self.note('statement kind %s not understood' % k, s)
        return [Flow('n', st)]

    def _after(self, st):
        return [Flow('n', st)] if st.pc != 0 else []

    def branch(self, c, st, ft, fe):
        M = self.M
        p1 = M.AND(st.pc, c)
        p0 = M.AND(st.pc, M.NOT(c))
        out = []
        if p1 != 0:
            a = st.copy() if p0 != 0 else st
            a.pc = p1
            out += ft(a)
        if p0 != 0:
            b = st
            b.pc = p0
            out += fe(b)
        return self._compact(out, c)

    def _compact(self, fl, c=None):
        norm = [f for f in fl if f.kind == 'n']
        if len(norm) <= 1:
            return fl
        rest = [f for f in fl if f.kind != 'n']
        m = self.merge([f.st for f in norm])
        return rest + ([Flow('n', m)] if m else [])

    def switch(self, s, st):
        v = self.ev(s['c'], st)
        M = self.M
        body = s['b']['b'] if s['b'] and s['b']['k'] == 'block' else [s['b']]
        # flatten into list of (labels, statements)
        groups = []
        cur = None
        for x in body:
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(x)
                x = x['b']
            if labels:
                cur = [labels, []]
                groups.append(cur)
            if cur is not None and x is not None:
                cur[1].append(x)
        conds = []
        anyc = 0
        for labels, _ in groups:
            c = 0
            isdef = False
            for l in labels:
                if l['k'] == 'case':
                    w = self.ev(l['e'], st)
                    c = M.OR(c, M.cmp('==', self.toint(v), self.toint(w)))
                else:
                    isdef = True
            conds.append([c, isdef])
            anyc = M.OR(anyc, c)
        out = []
        fall = None
        remaining = st.pc
        for (labels, stmts), (c, isdef) in zip(groups, conds):
            if isdef:
                c = M.OR(c, M.NOT(anyc))
            pc = M.AND(st.pc, c)
            ent = []
            if pc != 0:
                a = st.copy()
                a.pc = pc
                ent.append(a)
            if fall is not None:
                ent.append(fall)
            m = self.merge(ent)
            fall = None
            if m is None:
                continue
            for f in self.block(stmts, m):
                if f.kind == 'brk':
                    out.append(Flow('n', f.st))
                elif f.kind == 'n':
                    fall = f.st
                else:
                    out.append(f)
        if fall is not None:
            out.append(Flow('n', fall))
        if not any(d for _, d in conds):
            pc = M.AND(st.pc, M.NOT(anyc))
            if pc != 0:
                a = st.copy()
                a.pc = pc
                out.append(Flow('n', a))
        return self._compact(out)

    def key(self, d):
        return ('L', self.stack[-1].id, d)

    def decl(self, v, st):
        k = ('G', 'static:%s' % v['n']) if v.get('sl') else self.key(v['d'])
        t = v['t']
        self.types[k] = t
        if is_ref(t) and v.get('i') is not None:
            lv = self.lval(v['i'], st)
            if lv is not None:
                st.env[k] = ('ref', self.resolve(st, lv))
            else:
                st.env[k] = self.ev(v['i'], st)
            return
        if v.get('i') is not None:
            x = self.ev(v['i'], st)
            x = self.coerce(x, t)
            if x[0] == 'opqcont':
                x = ('seq', ())
            st.env[k] = x
        else:
            st.env[k] = self.uninit(t, v['n'])

    def uninit(self, t, name):
        t = strip_t(t)
        if t == BF:
            return ('bf', self.M.base(('uninit', name), EMPTY))
        if t == 'bool':
            return ('b', self.M.base(('uninit', name), EMPTY))
        if cont_kind(t):
            return ('seq', ())
        return ('s', ('uninit', name))

    def coerce(self, x, t):
        t = strip_t(t)
        if x is None:
            return self.uninit(t, '?')
        if t == 'bool':
            return ('b', self.tobool(x))
        if t in INTT:
            return self.toint(x)
        if t == BF and x[0] not in ('bf',):
            return ('bf', self.tobf(x))
        return x

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        if e is None:
            return ('void',)
        f = getattr(self, 'e_' + e['k'], None)
        if f is None:
            self.note('expression kind %s' % e['k'], e)
            return self.typed(e.get('t', ''), 'other:' + e['k'], (('c', e.get('l', 0)),))
        r = f(e, st)
        return r if r is not None else ('void',)

    def e_icast(self, e, st):
        return self.coerce(self.ev(e['e'], st), e['t']) if strip_t(e['t']) in INTT or strip_t(e['t']) == 'bool' else self.ev(e['e'], st)

    def e_cast(self, e, st):
        v = self.ev(e['e'], st)
        t = strip_t(e['t'])
        if t == 'bool' or t in INTT or t == BF:
            return self.coerce(v, t)
        return v

    def e_int(self, e, st): return ('c', int(e['v']))
    def e_bool(self, e, st): return ('b', 1 if e['v'] else 0)
    def e_char(self, e, st): return ('c', int(e['v']))
    def e_float(self, e, st): return ('flt', e['v'])
    def e_str(self, e, st): return ('str', e['v'])
    def e_null(self, e, st): return ('c', 0)
    def e_this(self, e, st): return ('thisptr',)
    def e_enum(self, e, st): return ('c', int(e['v']))
    def e_fref(self, e, st): return ('fref', e.get('f'))
    def e_sizeof(self, e, st): return ('s', ('sizeof', e['t']))

    def e_zero(self, e, st):
        t = strip_t(e['t'])
        if t == 'bool':
            return ('b', 0)
        return ('c', 0) if t in INTT else self.uninit(t, 'zero')

    def e_var(self, e, st):
        return self.read(st, self.lval(e, st))

    def e_mem(self, e, st):
        lv = self.lval(e, st)
        if lv is not None:
            return self.read(st, lv)
        return self.proj(self.ev(e['b'], st), ('f', e['n'], e['t']))

    def e_idx(self, e, st):
        lv = self.lval(e, st)
        if lv is not None:
            return self.read(st, lv)
        return self.sel(self.ev(e['x'], st), self.toint(self.ev(e['y'], st)), e['t'])

    def e_copy(self, e, st):
        return self.ev(e['e'], st)

    def e_list(self, e, st):
        t = strip_t(e['t'])
        vals = [self.ev(x, st) for x in e['a']]
        c = self.P.classes.get(t)
        if c and len(c['fields']) == len(vals):
            return ('obj', t, tuple(sorted(((f['n'], v) for f, v in zip(c['fields'], vals)), key=lambda kv: str(kv[0]))))
        return ('seq', tuple(('item', v) for v in vals))

    def e_lambda(self, e, st):
        key = (self.stack[-1].id, e['l'], id(e))
        self.lambdas[key] = (e, self.stack[-1])
        # by-value captures are modelled as by-reference; captured variables changed later would differ
        return ('lam', key)

    def e_stmtexpr(self, e, st):
        self.stmt(e['s'], st)
        return ('void',)

    def e_new(self, e, st):
        args = self.ev(e['e'], st) if e.get('e') else ('void',)
        return ('ptr', e['t'], args)

    def e_delete(self, e, st):
        self.ev(e['e'], st)
        return ('void',)

    def e_throw(self, e, st):
        if e.get('e'):
            self.ev(e['e'], st)
        if st.pc != 0 and self.caught(st, e):
            st.pc = 0
            return ('void',)
        self.throws.append((st.pc, self.loc(e), e.get('t'), self.loopdepth))
        st.pc = 0
        return ('void',)

    def handler_for(self, tr, t):
        t = re.sub(r'\[\d*\]$', '*', re.sub(r'\bconst\b|&|\s|class |struct |(?<=char)\[\d+\]', '', t or ''))
        if t == 'char':
            t = 'char*'
        anc = {t} | {re.sub(r'\s', '', a) for a in self.P.ancestors(t)}
        if t.startswith('std::') and t not in ('std::string',) and not t.startswith('std::basic_string'):
            anc.add('std::exception')
        if t.startswith('std::basic_string'):
            anc.add('std::string')
        for h in tr['h']:
            ht = re.sub(r'\bconst\b|&|\s|class |struct ', '', h.get('t') or '')
            if ht == '...' or ht in anc or (ht.startswith('std::basic_string') and 'std::string' in anc):
                return h
        return None

    def caught(self, st, e):
        for i in range(len(self.trystack) - 1, -1, -1):
            tr = self.trystack[i]
            h = self.handler_for(tr, e.get('t'))
            if h is None:
                continue
            if self.loopdepth == tr['depth']:
                tr['pend'].append((st.copy(), h))
            else:
                self.note('exception leaves a loop into a handler', e)
            return True
        return False

    def e_other(self, e, st):
        for x in e.get('a', []):
            self.ev(x, st)
        return self.typed(e.get('t', ''), 'other:' + str(e.get('cls')), (('c', e.get('l', 0)),))

    def e_cond(self, e, st):
        c = self.tobool(self.ev(e['c'], st))
        if c == 1:
            return self.ev(e['x'], st)
        if c == 0:
            return self.ev(e['y'], st)
        M = self.M
        a = st.copy()
        a.pc = M.AND(st.pc, c)
        b = st.copy()
        b.pc = M.AND(st.pc, M.NOT(c))
        x = self.ev(e['x'], a)
        y = self.ev(e['y'], b)
        m = self.merge([a, b])
        if m is None:
            st.pc = 0
            return x
        st.env, st.pc = m.env, m.pc
        return self.mite(c, x, y)

    def e_un(self, e, st):
        op = e['op']
        M = self.M
        if op in ('++', '--', '++p', '--p'):
            lv = self.lval(e['e'], st)
            v = self.ev(e['e'], st)
            d = 1 if op[0] == '+' else -1
            if v[0] == 'it':
                nv = ('it', v[1], M.iadd(v[2], ('c', d)))
            else:
                nv = M.iadd(self.toint(v), ('c', d))
            if lv is not None:
                self.write(st, lv, nv)
            return v if op.endswith('p') else nv
        v = self.ev(e['e'], st)
        if op == '!':
            return ('b', M.NOT(self.tobool(v)))
        if op == '-':
            return ('c', -v[1]) if v[0] == 'c' else ('neg', v)
        if op == '+':
            return v
        if op == '&':
            lv = self.lval(e['e'], st)
            return ('addr', self.resolve(st, lv)) if lv else ('fun', 'addr', v)
        if op == '*':
            lv = self.lval(e, st)
            if lv is not None:
                return self.read(st, lv)
            return self.typed(e.get('t', ''), 'deref', (v,))
        return ('fun', 'un' + op, v)

    def e_bin(self, e, st):
        op = e['op']
        M = self.M
        if op in ('&&', '||'):
            x = self.tobool(self.ev(e['x'], st))
            if (op == '&&' and x == 0) or (op == '||' and x == 1):
                return ('b', x)
            b = st.copy()
            b.pc = M.AND(st.pc, x if op == '&&' else M.NOT(x))
            a = st.copy()
            a.pc = M.AND(st.pc, M.NOT(x) if op == '&&' else x)
            if b.pc == 0:
                # right operand never evaluated
                return ('b', 0 if op == '&&' else 1)
            y = self.tobool(self.ev(e['y'], b))
            m = self.merge([a, b])
            if m is None:
                st.pc = 0
                return ('b', 0)
            st.env, st.pc = m.env, m.pc
            return ('b', M.AND(x, y) if op == '&&' else M.OR(x, y))
        if op == ',':
            self.ev(e['x'], st)
            return self.ev(e['y'], st)
        if op == '=':
            v = self.coerce(self.ev(e['y'], st), e['t'])
            lv = self.lval(e['x'], st)
            if lv is not None:
                self.write(st, lv, v)
            else:
                self.note('assignment to unresolved target', e)
            return v
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            lv = self.lval(e['x'], st)
            x = self.ev(e['x'], st)
            y = self.ev(e['y'], st)
            v = self.coerce(self.arith(op[:-1], x, y, e), e['t'])
            if lv is not None:
                self.write(st, lv, v)
            return v
        x = self.ev(e['x'], st)
        y = self.ev(e['y'], st)
        return self.arith(op, x, y, e)

    def arith(self, op, x, y, e=None):
        M = self.M
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if x[0] in ('b',) and y[0] in ('b', 'c') or y[0] == 'b' and x[0] == 'c':
                bx, by = self.tobool(x), self.tobool(y)
                if op == '==':
                    return ('b', M.IFF(bx, by))
                if op == '!=':
                    return ('b', M.XOR(bx, by))
            if x[0] == 'it' and y[0] == 'it':
                for u, v in ((x, y), (y, x)):
                    if op in ('==', '!=') and u[2][:2] == ('fun', 'find') and len(u[2]) == 4 and \
                            not (isinstance(v[2], tuple) and v[2][:1] == ('fun',)):
                        # found iterator compared with the end: absence of the key
                        b = M.cmp('==', ('fun', 'count') + u[2][2:], ('c', 0))
                        return ('b', b if op == '==' else M.NOT(b))
                return ('b', M.cmp(op, x[2], y[2]))
            x, y = self.toint(x), self.toint(y)
            return ('b', M.cmp(op, x, y))
        if op in ('&', '|', '^') and x[0] == 'b' and y[0] == 'b':
            return ('b', {'&': M.AND, '|': M.OR, '^': M.XOR}[op](x[1], y[1]))
        x, y = self.toint(x), self.toint(y)
        if x[0] == 'it' and op in ('+', '-'):
            return ('it', x[1], M.iadd(x[2], y) if op == '+' else self.isub(x[2], y))
        if op == '+':
            return M.iadd(x, y)
        if op == '-':
            return self.isub(x, y)
        if op == '*':
            if x[0] == 'c' and y[0] == 'c':
                return ('c', x[1] * y[1])
            for u, v in ((x, y), (y, x)):
                if v[0] == 'c' and u[0] not in ('it', 'iite'):
                    return self.scale(u, v[1])
            return ('mul',) + tuple(sorted((x, y), key=repr))
        if x[0] == 'c' and y[0] == 'c':
            try:
                if op == '/':
                    return ('c', int(x[1] / y[1]))
                if op == '%':
                    return ('c', x[1] % y[1])
                if op == '<<':
                    return ('c', x[1] << y[1])
                if op == '>>':
                    return ('c', x[1] >> y[1])
                if op == '&':
                    return ('c', x[1] & y[1])
                if op == '|':
                    return ('c', x[1] | y[1])
                if op == '^':
                    return ('c', x[1] ^ y[1])
            except Exception:
                pass
        if op == '&' and ('c', 0) in (x, y):
            return ('c', 0)
        if op in ('&', '%', '<<', '>>') and x[0] == 'iite' and y[0] != 'iite':
            return ('iite', x[1], self.arith(op, x[2], y), self.arith(op, x[3], y))
        if op == '&' and y[0] == 'iite' and x[0] != 'iite':
            return ('iite', y[1], self.arith(op, x, y[2]), self.arith(op, x, y[3]))
        if op == '<<' and y[0] == 'c' and 0 <= y[1] < 32 and x[0] not in ('it', 'iite'):
            return self.scale(x, 1 << y[1])
        if op in ('|', '&', '^'):
            # bitwise operations on truth values
            bx, by = self.truth01(x), self.truth01(y)
            if bx is not None and by is not None and not (x[0] == 'c' and y[0] == 'c'):
                b = M.OR(bx, by) if op == '|' else M.AND(bx, by) if op == '&' else M.OR(M.AND(bx, M.NOT(by)), M.AND(M.NOT(bx), by))
                return ('c', b) if b in (0, 1) else ('iite', ('b', b), ('c', 1), ('c', 0))
        if op == '&':
            for u, v in ((x, y), (y, x)):
                if v == ('c', 1) and u[:2] == ('fun', 'ar>>'):
                    # one bit of u
                    return ('iite', ('b', M.NOT(M.cmp('==', self.arith('&', u[2], ('fun', 'ar<<', ('c', 1), u[3])), ('c', 0)))), ('c', 1), ('c', 0))
            x, y = (x, y) if y[:2] == ('fun', 'ar<<') or x[:2] != ('fun', 'ar<<') else (y, x)
        if op == '/' and x[0] == 's' and y[0] == 's' and x[1][:1] == ('sizeof',) and y[1][:1] == ('sizeof',):
            # number of elements of an array
            m = re.fullmatch(r'(.*)\[(\d+)\]', x[1][1])
            if m and m.group(1).strip() == y[1][1].strip():
                return ('c', int(m.group(2)))
        return ('fun', 'ar' + op, x, y)

    def truth01(self, x):
        """the condition under which an integer that can only be 0 or 1 is 1"""
        M = self.M
        if x[0] == 'c' and x[1] in (0, 1):
            return x[1]
        if x[0] == 'b':
            return x[1]
        if x[0] == 'iite' and isinstance(x[1], tuple) and x[1][0] == 'b':
            t, f = self.truth01(x[2]), self.truth01(x[3])
            if t is not None and f is not None:
                return M.OR(M.AND(x[1][1], t), M.AND(M.NOT(x[1][1]), f))
        return None

    def scale(self, x, k):
        d, c = self.M.lin(x)
        return self.M.unlin({t: n * k for t, n in d.items()}, c * k)

    # ------------------------------------------------------------ lvalues
    def lval(self, e, st):
        if e is None:
            return None
        k = e['k']
        if k == 'var':
            if e.get('g') or e.get('sl'):
                return (('G', e.get('q') or 'static:' + e['n']), ())
            key = self.key(e['d'])
            if key not in st.env:
                # captured variable of an enclosing frame (lambda body)
                for fr in reversed(self.stack[:-1]):
                    k2 = ('L', fr.id, e['d'])
                    if k2 in st.env:
                        return (k2, ())
            return (key, ())
        if k == 'mem':
            b = e['b']
            if b and b['k'] == 'this':
                return self.thisfield(e)
            if e.get('g'):
                return (('G', e['n']), ())
            if b and b['k'] == 'un' and b['op'] == '*' and b['e']['k'] == 'this':
                return self.thisfield(e)
            # iterator -> field
            lv = self.lval(b, st)
            if lv is not None:
                v = self.read(st, lv) if e.get('arr') else None
                if v is not None and v[0] == 'it':
                    return (v[1][0], v[1][1] + (('i', v[2], self.basetype(b, e)), ('f', e['n'], e['t'])))
                if v is not None and v[0] == 'addr':
                    return (v[1][0], v[1][1] + (('f', e['n'], e['t']),))
                return (lv[0], lv[1] + (('f', e['n'], e['t']),))
            return None
        if k == 'op':
            op = e['op']
            if op == '[]':
                lv = self.lval(e['a'][0], st)
                if lv is None:
                    return None
                idx = self.toint(self.ev(e['a'][1], st))
                return (lv[0], lv[1] + (('i', idx, e['t']),))
            if op in ('*', '->'):
                v = self.ev(e['a'][0], st)
                if v[0] == 'it':
                    return (v[1][0], v[1][1] + (('i', v[2], e['t'] if op == '*' else ''),))
                return None
            if op in ('=', '&=', '|=', '+=', '<<', '>>', '++', '--', '^=', '-='):
                self.ev(e, st)
                return self.lval(e['a'][0], st)
            return None
        if k == 'mcall':
            n = e['n']
            if n in ('at',) and len(e['a']) == 1:
                lv = self.lval(e['b'], st)
                if lv is not None:
                    return (lv[0], lv[1] + (('i', self.toint(self.ev(e['a'][0], st)), e['t']),))
            if n == 'front':
                lv = self.lval(e['b'], st)
                if lv is not None:
                    return (lv[0], lv[1] + (('i', ('c', 0), e['t']),))
            if n == 'back':
                lv = self.lval(e['b'], st)
                if lv is not None:
                    return (lv[0], lv[1] + (('i', self.isub(self.size(self.read(st, lv)), ('c', 1)), e['t']),))
            if n.startswith('operator ') and e.get('c', '').startswith('SlugsV'):
                return self.lval(e['b'], st)
            return None
        if k == 'un' and e['op'] == '*':
            v = self.ev(e['e'], st)
            if v[0] == 'addr':
                return v[1]
            if v[0] == 'it':
                return (v[1][0], v[1][1] + (('i', v[2], e.get('t', '')),))
            if v[0] == 'thisptr':
                return self.stack[-1].this if self.stack[-1].this != MAIN else None
            if e['e']['k'] == 'mem' and strip_t(e.get('t') or '').startswith(('std::vector<', 'std::set<', 'std::map<', 'std::list<')):
                # as for p->f(): the slot of the pointer stands for the container it points to
                return self.lval(e['e'], st)
            return None
        if k == 'idx':
            lv = self.lval(e['x'], st)
            if lv is None:
                return None
            return (lv[0], lv[1] + (('i', self.toint(self.ev(e['y'], st)), e['t']),))
        if k in ('icast', 'cast', 'copy'):
            return self.lval(e['e'], st)
        if k == 'this':
            t = self.stack[-1].this
            return t if t != MAIN else None
        if k == 'cond':
            return None
        if k == 'call' and e.get('n') == 'get' and len(e['a']) == 1:
            lv = self.lval(e['a'][0], st)
            i = self.tuple_index(e)
            if lv is not None and i is not None:
                return (lv[0], lv[1] + (('f', i, e['t']),))
            return None
        return None

    def tuple_index(self, e):
        return e.get('gi')

    def basetype(self, b, e):
        return ''

    def thisfield(self, e):
        t = self.stack[-1].this
        if t == MAIN or t is None:
            return (('F', e.get('c', ''), e['n']), ())
        return (t[0], t[1] + (('f', e['n'], e['t']),))

    # ------------------------------------------------------------ calls
    def e_op(self, e, st):
        op = e['op']
        c = e.get('c')
        M = self.M
        a = e['a']
        if c == BF:
            return self.bf_op(e, st)
        if op == '()':
            v = self.ev(a[0], st)
            if v[0] == 'lam':
                return self.call_lambda(v[1], a[1:], st, e)
        if op == '[]':
            lv = self.lval(a[0], st)
            if lv is not None:
                cont = self.read(st, lv)
                idx = self.toint(self.ev(a[1], st))
                return self.sel(cont, idx, e['t'])
            return self.sel(self.ev(a[0], st), self.toint(self.ev(a[1], st)), e['t'])
        if op in ('<<', '>>'):
            return self.stream_op(e, st)
        if e.get('f') in self.P.fns:
            fn = self.P.fns[e['f']]
            if fn.get('c') and not fn.get('st'):
                lv = self.lval(a[0], st)
                if lv is None:
                    lv = self.temp(st, self.ev(a[0], st))
                return self.call(fn, lv, a[1:], st, e)
            return self.call(fn, None, a, st, e)
        if op == '=':
            v = self.ev(a[1], st)
            lv = self.lval(a[0], st)
            if v[0] == 'ctorcont':
                v = v[1]
            if lv is not None:
                self.write(st, lv, v)
            return v
        if op in ('==', '!=', '<', '>', '<=', '>='):
            x, y = self.ev(a[0], st), self.ev(a[1], st)
            return self.arith(op, x, y, e)
        if op in ('++', '--'):
            lv = self.lval(a[0], st)
            v = self.ev(a[0], st)
            d = 1 if op == '++' else -1
            if v[0] == 'it':
                nv = ('it', v[1], M.iadd(v[2], ('c', d)))
            else:
                nv = M.iadd(v, ('c', d))
            if lv is not None:
                self.write(st, lv, nv)
            return v if len(a) > 1 else nv
        if op in ('*', '->'):
            v = self.ev(a[0], st)
            if v[0] == 'it':
                return self.read(st, (v[1][0], v[1][1] + (('i', v[2], e['t']),)))
            return self.typed(e['t'], 'deref', (v,))
        if op == '+':
            x, y = self.ev(a[0], st), self.ev(a[1], st)
            if x[0] == 'it':
                return ('it', x[1], M.iadd(x[2], self.toint(y)))
            return self.strcat(x, y)
        if op == '-':
            x, y = self.ev(a[0], st), self.ev(a[1], st)
            if x[0] == 'it' and y[0] == 'it':
                return self.isub(x[2], y[2])
            return self.isub(x, y)
        if op == '+=':
            lv = self.lval(a[0], st)
            v = self.strcat(self.ev(a[0], st), self.ev(a[1], st))
            if lv is not None:
                self.write(st, lv, v)
            return v
        if op == '!':
            v = self.ev(a[0], st)
            if v[0] == 'stream' or 'stream' in c:
                return ('b', self.streamfail(v, st))
            return ('b', M.NOT(self.tobool(v)))
        vs = tuple(self.ev(x, st) for x in a)
        if op in ('|', '&') and '_Ios_Openmode' in str(e.get('t')):
            return ('fun', 'mode' + op, tuple(self.ev(a, st) for a in e['a']))
        self.note('operator %s of %s' % (op, c), e)
        return self.typed(e['t'], 'op' + op, vs)

    def strcat(self, x, y):
        def parts(v):
            if v[0] == 'cat':
                return list(v[1:])
            return [v]
        ps = parts(x) + parts(y)
        out = []
        for p in ps:
            if out and out[-1][0] == 'str' and p[0] == 'str' and isinstance(p[1], str) and isinstance(out[-1][1], str):
                out[-1] = ('str', out[-1][1] + p[1])
            elif p == ('str', ''):
                continue
            else:
                out.append(p)
        if not out:
            return ('str', '')
        return out[0] if len(out) == 1 else ('cat',) + tuple(out)

    def temp(self, st, v):
        self.nframe += 1
        k = ('L', -self.nframe, 0)
        st.env[k] = v
        return (k, ())

    def bf_op(self, e, st):
        M = self.M
        op = e['op']
        a = e['a']
        if op == '=':
            v = self.ev(a[1], st)
            v = ('bf', self.tobf(v))
            lv = self.lval(a[0], st)
            if lv is not None:
                self.write(st, lv, v)
            return v
        if op in ('&=', '|='):
            lv = self.lval(a[0], st)
            x = self.tobf(self.ev(a[0], st))
            y = self.tobf(self.ev(a[1], st))
            v = ('bf', M.AND(x, y) if op == '&=' else M.OR(x, y))
            if lv is not None:
                self.write(st, lv, v)
            return v
        x = self.tobf(self.ev(a[0], st))
        if op == '!':
            return ('bf', M.NOT(x))
        y = self.tobf(self.ev(a[1], st))
        if op == '&':
            return ('bf', M.AND(x, y))
        if op == '|':
            return ('bf', M.OR(x, y))
        if op == '^':
            return ('bf', M.XOR(x, y))
        if op == '-':
            return ('bf', M.AND(x, M.NOT(y)))
        if op == '==':
            return ('b', M.valid(M.IFF(x, y)))
        if op == '!=':
            return ('b', M.NOT(M.valid(M.IFF(x, y))))
        if op == '<=':
            return ('b', M.valid(M.IMP(x, y)))
        if op == '>=':
            return ('b', M.valid(M.IMP(y, x)))
        if op == '<':
            return ('b', M.AND(M.valid(M.IMP(x, y)), M.NOT(M.valid(M.IFF(x, y)))))
        if op == '>':
            return ('b', M.AND(M.valid(M.IMP(y, x)), M.NOT(M.valid(M.IFF(x, y)))))
        self.note('BF operator ' + op, e)
        return self.typed(e['t'], 'bfop' + op, (('bf', x), ('bf', y)))

    def cube(self, v):
        if v[0] == 'cube':
            return v[1]
        return None

    def bf_method(self, e, st):
        M = self.M
        n = e['n']
        x = self.tobf(self.ev(e['b'], st))
        av = [self.ev(a, st) for a in e['a']]
        if n == 'isTrue':
            return ('b', M.valid(x))
        if n == 'isFalse':
            return ('b', M.valid(M.NOT(x)))
        if n == 'isConstant':
            return ('b', M.OR(M.valid(x), M.valid(M.NOT(x))))
        if n in ('operator&', 'operator|', 'operator^') and len(av) == 1:
            y = self.tobf(av[0])
            return ('bf', M.AND(x, y) if n[-1] == '&' else M.OR(x, y) if n[-1] == '|' else M.OR(M.AND(x, M.NOT(y)), M.AND(M.NOT(x), y)))
        if n == 'operator!' and not av:
            return ('bf', M.NOT(x))
        if n == 'Implies':
            return ('bf', M.IMP(x, self.tobf(av[0])))
        if n in ('ExistAbstract', 'UnivAbstract'):
            c = self.cube(av[0])
            if c is not None:
                return ('bf', M.ex(c, x) if n[0] == 'E' else M.all_(c, x))
            return ('bf', M.fun(n, (('bf', x), av[0]), M.supp(x)))
        if n == 'AndAbstract':
            c = self.cube(av[1])
            y = self.tobf(av[0])
            if c is not None:
                return ('bf', M.ex(c, M.AND(x, y)))
            return ('bf', M.fun('ExistAbstract', (('bf', M.AND(x, y)), av[1]), M.supp(M.AND(x, y))))
        if n in ('ExistAbstractSingleVar', 'UnivAbstractSingleVar'):
            return ('bf', M.fun(n, (('bf', x), av[0]), M.supp(x)))
        if n == 'SwapVariables':
            ps = self.model.pairs(av[0], av[1])
            if ps is not None:
                return ('bf', M.swap(ps, x))
            self.note('swap over unknown vectors', e)
            return ('bf', M.fun('swap', (('bf', x), av[0], av[1]), self.model.allcats))
        if n == 'isValid':
            return ('b', M.fun('isValid', (('bf', x),), EMPTY))
        if n in ('getHashCode', 'getSize', 'getNofSatisfyingAssignments', 'readNodeIndex', 'getNofMinterms'):
            return ('fun', n, ('bf', x)) + tuple(av)
        if n in ('optimizeRestrict', 'minimizeUsingCareSet'):
            return ('bf', M.fun(n, (('bf', x), av[0]), M.supp(x) | M.supp(self.tobf(av[0]))))
        if n == 'ReachedLeastFixedPoint':
            return ('b', M.valid(M.IMP(x, self.tobf(av[0]))))
        if n == 'ReachedGratestFixedPoint':
            return ('b', M.valid(M.IMP(self.tobf(av[0]), x)))
        self.note('BF method ' + n, e)
        return self.typed(e['t'], 'bf.' + n, (('bf', x),) + tuple(av))

    def e_mcall(self, e, st):
        M = self.M
        c = e.get('c') or ''
        n = e.get('n') or ''
        if c == BF and (e.get('f') not in self.hooks):
            return self.bf_method(e, st)
        if c == 'BFBddManager':
            av = [self.ev(a, st) for a in e['a']]
            if n == 'constantTrue':
                return ('bf', 1)
            if n == 'constantFalse':
                return ('bf', 0)
            if n == 'computeCube':
                ct = self.model.cubeof(av)
                return ct if ct is not None else ('fun', 'computeCube') + tuple(av)
            if n in ('multiAnd', 'multiOr') and av and av[0][0] in ('cont', 'seq'):
                sym = M.fresh('m')
                el = self.tobf(self.sel(av[0], ('s', sym), BF))
                dom = ('range', self.size(av[0]))
                return ('bf', M.NOT(M.mkbig(dom, sym, M.NOT(el))) if n == 'multiAnd' else M.mkbig(dom, sym, el))
            self.events.append((st.pc, 'mgr.' + n, tuple(av), self.loc(e)))
            return self.typed(e['t'], 'mgr.' + n, tuple(av))
        if n.startswith('operator ') and c.startswith('SlugsV'):
            return self.ev(e['b'], st)
        if c.startswith('SlugsV') and n == 'size':
            return self.size(self.ev(e['b'], st))
        if cont_kind(c) or c.startswith('std::basic_string'):
            return self.cont_method(e, st)
        if c.startswith('std::') or c.startswith('boost::'):
            return self.std_method(e, st)
        q = e.get('q')
        fn = None
        b = e.get('b')
        onthis = b is None or b['k'] == 'this' or (b['k'] == 'un' and b['op'] == '*' and b['e']['k'] == 'this')
        usr = e.get('f')
        this = None
        if onthis:
            this = self.stack[-1].this
        else:
            lv = self.lval(b, st)
            if lv is None:
                bv = self.ev(b, st)
                if bv[0] == 'addr':
                    lv = bv[1]
                else:
                    lv = self.temp(st, bv)
            else:
                bv = self.read(st, lv) if e.get('virt') else None
            this = lv
        if usr in self.hooks:
            return self.hooks[usr](self, st, this, [self.ev(a, st) for a in e['a']], e)
        if q in self.hooks:
            return self.hooks[q](self, st, this, [self.ev(a, st) for a in e['a']], e)
        if e.get('virt') and not e.get('nv') and this == MAIN:
            usr2 = self.P.method(self.dyn, usr)
            if usr2:
                usr = usr2
        fn = self.P.fns.get(usr)
        if fn is not None and fn.get('body') is not None:
            return self.call(fn, this, e['a'], st, e)
        av = tuple(self.ev(a, st) for a in e['a'])
        self.note('call of unknown method %s' % q, e)
        self.havoc_args(e['a'], st, e)
        return self.typed(e['t'], 'call:' + str(q), av)

    def e_call(self, e, st):
        M = self.M
        n = e.get('n') or ''
        q = e.get('q') or ''
        if q in self.hooks:
            return self.hooks[q](self, st, None, [self.ev(a, st) for a in e['a']], e)
        if n == 'get' and len(e['a']) == 1:
            i = self.tuple_index(e)
            v = self.ev(e['a'][0], st)
            if i is not None:
                return self.proj(v, ('f', i, e['t']))
        if n == 'make_pair' and len(e['a']) == 2:
            return ('obj', 'pair', (('first', self.ev(e['a'][0], st)), ('second', self.ev(e['a'][1], st))))
        if n == 'make_tuple':
            return ('obj', 'tuple', tuple((i, self.ev(a, st)) for i, a in enumerate(e['a'])))
        if n in ('move', 'forward') and len(e['a']) == 1:
            return self.ev(e['a'][0], st)
        if n in ('min', 'max') and len(e['a']) == 2:
            return ('fun', n) + tuple(self.ev(a, st) for a in e['a'])
        fn = self.P.fns.get(e.get('f'))
        if fn is not None and fn.get('body') is not None:
            return self.call(fn, self.stack[-1].this if fn.get('c') and not fn.get('st') else None, e['a'], st, e)
        av = tuple(self.ev(a, st) for a in e['a'])
        if n == 'swap' and len(e['a']) == 2:
            l1, l2 = self.lval(e['a'][0], st), self.lval(e['a'][1], st)
            if l1 is not None and l2 is not None:
                self.write(st, l1, av[1])
                self.write(st, l2, av[0])
            return ('void',)
        if n in ('getline', 'trim', 'split', 'to_upper', 'to_lower'):
            if n == 'getline':
                lv = self.lval(e['a'][1], st)
                site = self.site(e)
                if lv is not None:
                    self.write(st, lv, ('s', ('line', site)))
                return ('b', M.fun('getline', (('s', site),), EMPTY))
            lv = self.lval(e['a'][0], st)
            if n == 'trim':
                if lv is not None:
                    self.write(st, lv, ('fun', 'trim', av[0]))
            elif lv is not None:
                self.write(st, lv, ('fun', n) + av)
            return ('void',)
        if n in ('exit', 'abort', '_exit'):
            self.throws.append((st.pc, self.loc(e), n, self.loopdepth))
            st.pc = 0
            return ('void',)
        if n in ('rand', 'time', 'random'):
            return ('s', (n, self.site(e)))
        if e.get('ce') is not None:
            v = self.ev(e['ce'], st)
            if v[0] == 'lam':
                return self.call_lambda(v[1], e['a'], st, e)
        if n == '__assert_fail':
            st.pc = 0
            return ('void',)
        if e.get('ce') is not None and not n:
            self.events.append((st.pc, 'callptr', (self.ev(e['ce'], st),) + tuple(av) + (('c', len(self.trystack)),), self.loc(e)))
            return self.typed(e['t'], 'callptr', (self.ev(e['ce'], st),) + tuple(av))
        self.havoc_args(e['a'], st, e)
        if not (e.get('c') or '').startswith('std::numeric_limits') and n not in ('nextafter', 'infinity'):
            self.note('call of unknown function %s' % q, e)
        return self.typed(e['t'], 'call:' + q, av)

    def site(self, e):
        f = self.stack[-1].fn
        return '%s@%s:%s' % (f['q'], e.get('l'), e.get('k'))

    def havoc_args(self, args, st, e):
        fn = e.get('n') or '?'
        f = e.get('f')
        # only non-const lvalue arguments of user-visible types may change; library functions called in this
        # code base take their outputs by reference rarely -- be conservative for BF / containers passed to unknown code
        return

    def e_ctor(self, e, st):
        c = strip_t(e.get('c') or e.get('t'))
        M = self.M
        if c == BF:
            if not e['a']:
                return ('bf', M.base(('uninit', 'BF'), EMPTY))
            av = [self.ev(a, st) for a in e['a']]
            return ('bf', M.fun('BFctor', tuple(av), self.model.allcats))
        if cont_kind(c):
            av = [self.ev(a, st) for a in e['a'] if not (a and a['k'] == 'ctor' and 'allocator' in (a.get('c') or ''))]
            av = [a for a in av if a != ('void',) and not (a[:1] == ('fun',) and isinstance(a[1], str) and a[1].startswith(('ctor:std::less', 'ctor:std::allocator')))]
            if not av:
                return ('seq', ())
            if len(av) == 2 and av[0][0] == 'seq' and av[1][:2] == ('add', av[0]) and av[1][2] == ('c', len(av[0][1])) and all(x[0] == 'item' for x in av[0][1]):
                return av[0]
            if len(av) == 2 and av[0][0] == 'it' and av[1][0] == 'it':
                src = self.read(st, av[0][1])
                isset = 'set<' in c.split('<', 1)[0] + '<'
                if not isset and not 'map' in c.split('<', 1)[0] and av[0][2] == ('c', 0) and av[1][2] in (('size', src), ('end',)):
                    return src
                return ('fun', 'setof' if isset else 'rangecopy', src, av[0][2], av[1][2])
            if len(av) == 1 and av[0][0] in ('seq', 'cont', 'for', 'csym', 'iite'):
                return av[0]
            if len(av) >= 1 and cont_kind(c) in ('vector', 'list', 'deque'):
                n = self.toint(av[0])
                et = elem_type(c)
                fill = av[1] if len(av) > 1 else (('bf', M.base(('uninit', 'BF'), EMPTY)) if et == BF else ('b', 0) if et == 'bool' else ('c', 0) if et in INTT else ('seq', ()) if cont_kind(et) else ('fun', 'dflt'))
                if n[0] == 'c' and n[1] <= 64:
                    return ('seq', tuple(('item', fill) for _ in range(n[1])))
                return ('fill', n, fill)
            return ('fun', 'ctor:' + cont_kind(c)) + tuple(av)
        if c.startswith('std::basic_string<'):
            av = [self.ev(a, st) for a in e['a'] if not (a and a['k'] == 'ctor' and 'allocator' in (a.get('c') or ''))]
            if not av:
                return ('str', '')
            if len(av) == 1:
                return av[0]
            return ('fun', 'string') + tuple(av)
        if '_iterator' in c and len(e['a']) == 1:
            x = self.ev(e['a'][0], st)
            if x[0] == 'it':
                return x
            return ('fun', 'ctor:' + c, x)
        if c.startswith('std::pair<'):
            av = [self.ev(a, st) for a in e['a']]
            if len(av) == 2:
                ta = targs(c)
                return ('obj', 'pair', (('first', self.coerce(av[0], ta[0])), ('second', self.coerce(av[1], ta[1]))))
            if len(av) == 1:
                return av[0]
        if 'tuple<' in c or 'tuples::cons<' in c:
            av = [self.ev(a, st) for a in e['a']]
            if len(av) == 1 and av[0][0] == 'obj':
                return av[0]
            return ('obj', 'tuple', tuple((i, a) for i, a in enumerate(av)))
        fn = self.P.fns.get(e.get('f'))
        if c.startswith('std::basic_') and 'stream' in c:
            av = [self.ev(a, st) for a in e['a']]
            self.events.append((st.pc, 'open:' + c, tuple(av), self.loc(e)))
            v = ('stream', c, tuple(av))
            self.opened(v, st, e)
            return v
        cl = self.P.classes.get(c)
        if fn is not None and cl is not None and fn.get('ctor'):
            return self.construct(fn, cl, e['a'], st, e)
        av = [self.ev(a, st) for a in e['a']]
        return ('fun', 'ctor:' + c) + tuple(av)

    def construct(self, fn, cl, args, st, e):
        av = [self.ev(a, st) for a in args]
        key = self.temp(st, ('obj', cl['n'], ()))
        fr = Frame(self.newframe(), key, fn)
        self.bind(fn, fr, args, av, st)
        self.stack.append(fr)
        flds = {}
        for f in cl['fields']:
            flds[f['n']] = self.uninit(f['t'], f['n'])
        st.env[key[0]] = ('obj', cl['n'], tuple(sorted(flds.items(), key=lambda kv: str(kv[0]))))
        for i in fn.get('inits', []):
            if 'm' in i:
                v = self.ev(i['e'], st)
                t = next((f['t'] for f in cl['fields'] if f['n'] == i['m']), '')
                self.write(st, (key[0], (('f', i['m'], t),)), self.coerce(v, t))
        fl = self.stmt(fn['body'], st)
        norm = [f.st for f in fl if f.kind in ('n', 'ret')]
        m = self.merge(norm)
        self.stack.pop()
        if m is None:
            st.pc = 0
            return ('void',)
        st.env, st.pc = m.env, m.pc
        v = st.env.pop(key[0])
        self.dropframe(st, fr.id)
        return v

    def newframe(self):
        self.nframe += 1
        return self.nframe

    def dropframe(self, st, fid):
        for k in [k for k in st.env if k[0] == 'L' and k[1] == fid]:
            del st.env[k]

    def bind(self, fn, fr, args, av, st, caller_args=True):
        for i, p in enumerate(fn['p']):
            k = ('L', fr.id, p['d'])
            self.types[k] = p['t']
            if i < len(av):
                if is_ref(p['t']) and not is_const_ref(p['t']) and i < len(args) and args[i] is not None:
                    lv = self.lval(args[i], st)
                    if lv is not None:
                        st.env[k] = ('ref', self.resolve(st, lv))
                        continue
                st.env[k] = self.coerce(av[i], p['t'])
            else:
                st.env[k] = self.uninit(p['t'], p['n'])

    def call(self, fn, this, args, st, e):
        q = fn['q']
        if q in self.hooks:
            return self.hooks[q](self, st, this, [self.ev(a, st) for a in args], e)
        depth = sum(1 for fr in self.stack if fr.fn is fn)
        av = [self.ev(a, st) for a in args]
        if st.pc == 0:
            return ('void',)
        if depth >= 1 or len(self.stack) > 40:
            self.note('recursive call of %s' % q, e)
            return self.typed(fn['rt'], 'rec:' + q, tuple(av))
        if fn.get('body') is None:
            return self.typed(fn['rt'], 'call:' + q, tuple(av))
        fr = Frame(self.newframe(), this, fn)
        self.bind(fn, fr, args, av, st)
        self.calls.append((q, self.loc(e) if e else '', fn['f']))
        self.stack.append(fr)
        self.callpath.append(id(e))
        fl = self.stmt(fn['body'], st)
        self.callpath.pop()
        self.stack.pop()
        rets = []
        for f in fl:
            if f.kind == 'n':
                rets.append(Flow('ret', f.st, None))
            elif f.kind == 'ret':
                rets.append(f)
        rets = [f for f in rets if f.st.pc != 0]
        if not rets:
            st.pc = 0
            return self.typed(fn['rt'], 'noreturn')
        m = self.merge([f.st for f in rets])
        vs = [f for f in rets if f.val is not None]
        v = self.merge_vals(vs) if vs else ('void',)
        st.env, st.pc = m.env, m.pc
        self.dropframe(st, fr.id)
        rt = strip_t(fn['rt'])
        if v != ('void',):
            v = self.coerce(v, rt)
        return v

    def call_lambda(self, key, args, st, e):
        le, fr0 = self.lambdas[key]
        av = [self.ev(a, st) for a in args]
        fn = {'p': le['p'], 'body': le['body'], 'q': 'lambda@%s' % le['l'], 'file': fr0.fn['file'], 'l': le['l'],
              'rt': e.get('t', '')}
        fr = Frame(self.newframe(), fr0.this, fn)
        self.bind(fn, fr, args, av, st)
        self.stack.append(fr)
        fl = self.stmt(le['body'], st)
        self.stack.pop()
        rets = [Flow('ret', f.st, f.val) for f in fl if f.kind in ('n', 'ret') and f.st.pc != 0]
        if not rets:
            st.pc = 0
            return ('void',)
        m = self.merge([f.st for f in rets])
        vs = [f for f in rets if f.val is not None]
        v = self.merge_vals(vs) if vs else ('void',)
        st.env, st.pc = m.env, m.pc
        self.dropframe(st, fr.id)
        return v

    # ------------------------------------------------------------ containers, strings, streams
    def seqparts(self, v):
        if v[0] == 'seq':
            return v[1]
        return (('all', v),)

    def cont_method(self, e, st):
        M = self.M
        n = e['n']
        c = e.get('c') or ''
        lv = self.lval(e['b'], st)
        v = self.read(st, lv) if lv is not None else self.ev(e['b'], st)
        if n in ('size', 'length'):
            if cont_kind(c) in ('set', 'unordered_set') and v[:2] != ('fun', 'setof') and v != ('seq', ()):
                v = ('fun', 'setof', v, ('c', 0), ('size', v))
            return self.size(v)
        if n == 'empty':
            return ('b', M.cmp('==', self.size(v), ('c', 0)))
        if n in ('push_back', 'emplace_back'):
            et = elem_type(c)
            if len(e['a']) == 1:
                x = self.ev(e['a'][0], st)
                x = self.coerce(x, et) if et in (BF, 'bool') or et in INTT else x
            else:
                av = [self.ev(a, st) for a in e['a']]
                if et.startswith('std::pair'):
                    x = ('obj', 'pair', (('first', av[0]), ('second', av[1])))
                else:
                    x = ('fun', 'emplace') + tuple(av)
            if lv is not None:
                self.write(st, lv, ('seq', self.seqparts(v) + (('item', x),)))
            return ('void',)
        if n == 'push_front':
            x = self.ev(e['a'][0], st)
            if lv is not None:
                self.write(st, lv, ('seq', (('item', x),) + self.seqparts(v)))
            return ('void',)
        if n == 'clear':
            if lv is not None:
                self.write(st, lv, ('seq', ()) if not c.startswith('std::basic_string') else ('str', ''))
            return ('void',)
        if n in ('begin', 'cbegin'):
            if lv is None:
                lv = self.temp(st, v)
            return ('it', self.resolve(st, lv), ('c', 0))
        if n in ('end', 'cend'):
            if lv is None:
                lv = self.temp(st, v)
            return ('it', self.resolve(st, lv), self.size(v))
        if n in ('rbegin', 'crbegin', 'rend', 'crend'):
            if lv is None:
                lv = self.temp(st, v)
            tmp = self.temp(st, ('rev', v))
            return ('it', tmp, ('c', 0) if 'begin' in n else self.size(v))
        if n in ('at', 'operator[]'):
            return self.sel(v, self.toint(self.ev(e['a'][0], st)), e['t'])
        if n == 'front':
            return self.sel(v, ('c', 0), e['t'])
        if n == 'back':
            if v[0] == 'seq' and v[1] and v[1][-1][0] == 'item':
                return v[1][-1][1]
            return self.sel(v, self.isub(self.size(v), ('c', 1)), e['t'])
        if n in ('pop_front', 'pop_back'):
            if lv is not None:
                if v[0] == 'seq' and v[1] and v[1][0 if n == 'pop_front' else -1][0] == 'item':
                    nv = ('seq', v[1][1:] if n == 'pop_front' else v[1][:-1])
                else:
                    nv = ('fun', n, v)
                self.write(st, lv, nv)
            return ('void',)
        if n == 'insert' and len(e['a']) == 1:
            x = self.ev(e['a'][0], st)
            if lv is not None:
                self.write(st, lv, ('seq', self.seqparts(v) + (('item', x),)))
            return ('fun', 'inserted', v, x)
        if n == 'count':
            return ('fun', 'count', v, self.ev(e['a'][0], st))
        if n == 'find':
            x = self.ev(e['a'][0], st)
            if c.startswith('std::basic_string'):
                return ('fun', 'strfind', v) + tuple(self.ev(a, st) for a in e['a'])
            if lv is None:
                lv = self.temp(st, v)
            return ('it', self.resolve(st, lv), ('fun', 'find', v, x))
        if n in ('reserve', 'shrink_to_fit'):
            for a in e['a']:
                self.ev(a, st)
            return ('void',)
        if n in ('resize', 'assign', 'insert', 'erase', 'swap', 'sort', 'unique', 'remove', 'append'):
            av = tuple(self.ev(a, st) for a in e['a'])
            if n == 'swap':
                l2 = self.lval(e['a'][0], st)
                if lv is not None and l2 is not None:
                    self.write(st, lv, av[0])
                    self.write(st, l2, v)
                return ('void',)
            if n == 'erase' and len(av) == 1 and av[0][0] == 'it' and av[0][2] == ('c', 0) and lv is not None and \
                    cont_kind(c) in ('vector', 'list', 'deque'):
                self.write(st, lv, ('seq', v[1][1:]) if v[0] == 'seq' and v[1] and v[1][0][0] == 'item' else ('fun', 'pop_front', v))
                return av[0]
            if lv is not None and cont_kind(c) in ('vector', 'list', 'deque'):
                if n == 'resize' and av[:1] == (('c', 0),):
                    self.write(st, lv, ('seq', ()))
                    return ('void',)
                if n == 'insert' and len(av) == 2 and av[0][0] == 'it' and av[0][1] == self.resolve(st, lv):
                    if av[0][2] == ('c', 0):
                        self.write(st, lv, ('seq', (('item', av[1]),) + self.seqparts(v)))
                        return av[0]
                    if av[0][2] == self.size(v):
                        self.write(st, lv, ('seq', self.seqparts(v) + (('item', av[1]),)))
                        return av[0]
            if lv is not None:
                self.write(st, lv, ('fun', n, v) + av)
            return ('fun', 'ret:' + n, v) + av
        if n in ('c_str', 'str', 'data'):
            return v
        av = tuple(self.ev(a, st) for a in e['a'])
        return self.typed(e['t'], 'm:' + n, (v,) + av)

    def stream_op(self, e, st):
        a = e['a']
        lv = self.lval(a[0], st) if a[0]['k'] in ('var', 'mem') else None
        s = self.ev(a[0], st)
        if e['op'] == '<<':
            v = self.ev(a[1], st)
            name = s
            if a[0]['k'] == 'var' and a[0].get('g'):
                name = ('stream', a[0].get('q'))
                s = name
            elif s[0] == 'stream':
                name = s
            self.events.append((st.pc, name, v, self.loc(e)))
            if name[0] == 'stream':
                self.touched(name, st, e, 'write')
            if self.on_output:
                self.on_output(st, name, v)
            return s
        # extraction
        lvr = self.lval(a[1], st)
        if lvr is not None:
            t = a[1].get('t', '')
            self.events.append((st.pc, 'extract', (s, ('s', self.site(e)), t), self.loc(e)))
            self.lastx[s] = self.site(e)
            self.write(st, lvr, self.typed(t, 'extract', (('s', self.site(e)),)))
        return s if s[0] == 'stream' else ('s', ('stream', self.site(e)))

    # state of output file streams: an error flag and whether data may still be buffered
    def isout(self, v):
        return v[:2] == ('stream', 'std::basic_ofstream<char>')

    def opened(self, v, st, e):
        if self.isout(v):
            self.types[('os', v)] = self.types[('od', v)] = 'bool'
            self.write(st, (('os', v), ()), ('b', self.M.fun('stream.fail', (v,), EMPTY)))
            self.write(st, (('od', v), ()), ('b', 0))

    def touched(self, v, st, e, how):
        """the state of an output stream may change"""
        if not self.isout(v):
            return
        if ('os', v) not in st.env:
            self.opened(v, st, e)
        err = st.env[('os', v)][1]
        dirty = st.env[('od', v)][1]
        new = self.M.fun('stream.fail', (v, ('s', self.site(e))), EMPTY)
        if how == 'write':
            self.write(st, (('os', v), ()), ('b', self.M.OR(err, new)))
            self.write(st, (('od', v), ()), ('b', 1))
        else:
            self.write(st, (('os', v), ()), ('b', self.M.OR(err, self.M.AND(dirty, new))))
            self.write(st, (('od', v), ()), ('b', 0))

    def streamfail(self, v, st, name='stream.fail'):
        if self.isout(v):
            if ('os', v) in st.env:
                return st.env[('os', v)][1]
            return self.M.fun('stream.fail', (v,), EMPTY)
        return self.M.fun(name, (v,) + ((('s', self.lastx[v]),) if v in self.lastx else ()), EMPTY)

    def std_method(self, e, st):
        n = e['n']
        v = self.ev(e['b'], st)
        av = tuple(self.ev(a, st) for a in e['a'])
        if n == 'str':
            return ('fun', 'str', v)
        if n.startswith('operator '):
            if 'bool' in n:
                if v[0] == 'stream' or v[:1] == ('s',) and v[1][:1] == ('param',):
                    return ('b', self.M.NOT(self.streamfail(v, st)))
                return ('b', self.M.fun('streamok', (v,), EMPTY))
            return v
        if n in ('good', 'is_open') and self.isout(v):
            return ('b', self.M.NOT(self.streamfail(v, st)))
        if n == 'open' and v[:1] == ('stream',) and not v[2] and av:
            lv = self.lval(e['b'], st)
            if lv is not None:
                v = ('stream', v[1], av)
                self.write(st, lv, v)
                self.events.append((st.pc, 'open:' + v[1], av, self.loc(e)))
                self.opened(v, st, e)
                return ('void',)
        if n in ('close', 'flush') and v[:1] == ('stream',):
            self.touched(v, st, e, n)
        if n in ('fail', 'eof', 'good', 'bad', 'is_open', 'operator!'):
            return ('b', self.streamfail(v, st, 'stream.' + n if n != 'operator!' else 'stream.fail'))
        self.events.append((st.pc, 'std.' + n, (v,) + av, self.loc(e)))
        return self.typed(e.get('t', ''), 'm:' + n, (v,) + av)

    # ------------------------------------------------------------ loops
    def loop(self, s, st):
        from .loops import exec_loop
        return exec_loop(self, s, st)

    # ------------------------------------------------------------ entry
    def run(self, usr_or_fn, args=(), env=None):
        fn = usr_or_fn if isinstance(usr_or_fn, dict) else self.P.fns[usr_or_fn]
        st = State(dict(env or {}), 1)
        fr = Frame(self.newframe(), MAIN, fn)
        for i, p in enumerate(fn['p']):
            k = ('L', fr.id, p['d'])
            self.types[k] = p['t']
            st.env[k] = args[i] if i < len(args) else self.symparam(p)
        self.calls.append((fn['q'], '', fn['f']))
        self.stack.append(fr)
        fl = self.stmt(fn['body'], st)
        self.stack.pop()
        rets = [Flow('ret', f.st, f.val) for f in fl if f.kind in ('n', 'ret') and f.st.pc != 0]
        if not rets:
            return None, ('void',)
        m = self.merge([f.st for f in rets])
        vs = [f for f in rets if f.val is not None]
        return m, (self.merge_vals(vs) if vs else ('void',))

    def symparam(self, p):
        t = strip_t(p['t'])
        if t == BF:
            return ('bf', self.M.base(p['n'], self.model.allcats))
        if t == 'bool':
            return ('b', self.M.base(p['n'], EMPTY))
        if cont_kind(t):
            return ('cont', p['n'])
        return ('s', ('param', p['n']))

"""Order-, location- and naming-independent normal form (digest) of analysis values.

Two values get the same digest iff they have the same canonical structure, whatever the order in which the analysis met
their atoms, the line numbers and the local names of the code they were computed by."""
import hashlib
from .terms import EMPTY


def H(*xs):
    return hashlib.sha1(repr(xs).encode()).hexdigest()[:16]


class Canon:
    def __init__(self, M, I=None):
        self.M, self.I = M, I
        self.ca, self.cn, self.ct = {}, {}, {}
        self.u = {}
        self.cu = {}
        self.markers = None

    # ------------------------------------------------ Boolean functions
    def node(self, f):
        """digest of a decision diagram node: rebuilt with atoms ordered by their own digest"""
        r = self.cn.get(f)
        if r is not None:
            return r
        if f <= 1:
            r = str(f)
        else:
            M = self.M
            ats = sorted(M.atoms_of(f), key=lambda a: self.atom(a))
            r = self._build(f, tuple(ats), 0, {})
        self.cn[f] = r
        return r

    def _build(self, f, ats, i, memo):
        M = self.M
        if f <= 1:
            return str(f)
        k = (f, i)
        if k in memo:
            return memo[k]
        inf = M.atoms_of(f)
        j = i
        while ats[j] not in inf:
            j += 1
        hi = self._build(M.restrict(f, ats[j], 1), ats, j + 1, memo)
        lo = self._build(M.restrict(f, ats[j], 0), ats, j + 1, memo)
        r = H('n', self.atom(ats[j]), hi, lo)
        memo[k] = r
        return r

    def atom(self, a):
        r = self.ca.get(a)
        if r is not None:
            return r
        k = self.M.atoms[a]
        t = k[0]
        if t == 'base':
            n = k[1]
            if isinstance(n, tuple) and n and n[0] == 'uninit':
                n = 'uninit'
            r = H('base', self.term(n) if isinstance(n, tuple) else n, sorted(map(sorted, k[-1])))
        elif t == 'phi':
            r = H('phi', sorted(k[2]), sorted(map(sorted, k[3])))
        elif t == 'bv':
            r = H('bv', repr(k[1]), sorted(k[2]), sorted(map(sorted, k[3])))
        elif t == 'ex':
            r = H('ex', sorted(k[1]), self.node(k[2]))
        elif t == 'fp':
            r = H('fp', k[1], self.node(k[2]), k[3], sorted(map(sorted, k[4])))
        elif t == 'big':
            r = H('big', self.term(k[1]), k[2], self.node(k[3]))
        elif t == 'elem':
            r = H('elem', self.term(k[1]), self.term(k[2]), sorted(map(sorted, k[-1])))
        elif t == 'fun':
            r = H('fun', self.name(k[1]), tuple(self.term(x) for x in k[2]), sorted(map(sorted, k[-1])))
        elif t == 'cmp':
            a_, b_ = self.term(k[2]), self.term(k[3])
            if k[1] == '==':
                a_, b_ = sorted((a_, b_))
            r = H('cmp', k[1], a_, b_)
        else:
            r = H('atom', repr(k))
        self.ca[a] = r
        return r

    def name(self, n):
        return n

    # ------------------------------------------------ other values
    def term(self, t):
        if not isinstance(t, tuple):
            if isinstance(t, frozenset):
                return H('set', sorted(self.term(x) for x in t))
            return repr(t)
        r = self.ct.get(t)
        if r is None:
            r = self._term(t)
            self.ct[t] = r
        return r

    def _term(self, t):
        if not t:
            return '()'
        k = t[0]
        if len(t) == 2 and k in ('bf', 'b') and isinstance(t[1], int):
            return H(k, self.node(t[1]))
        if len(t) == 2 and k == 's':
            s = t[1]
            if isinstance(s, str):
                return 'sym' if s.startswith('phi#') else \
                    H('ix', self.term(self.M.ranges[s])) if s in self.M.ranges else 'sym'
            if isinstance(s, tuple) and s:
                if s[0] in ('line', 'stream', 'rand', 'time', 'random', 'uninit', 'unbound'):
                    return 'src:' + s[0]
                if s[0] == 'L':
                    return 'local'
            if isinstance(s, tuple):
                return H('s', repr(s))
        if len(t) == 2 and k == 'csym' and isinstance(t[1], str):
            return 'csym'
        if k == 'it' and len(t) == 3:
            return H('it', self.term(t[2]))
        if k == 'lam':
            return 'lam'
        if k in ('ref', 'addr'):
            return k
        if k == 'fun' and len(t) > 1 and t[1] == 'atexit':
            return H('atexit', self.term(t[2]))
        if k == 'fun' and len(t) > 2 and t[1] in ('extract', 'getline'):
            return H('fun', t[1])
        if k == 'seq':
            return H('seq', self.items(t[1]))
        if k == 'iite':
            return H('iite', self.cases(t))
        if k == 'obj':
            return H('obj', str(t[1]), tuple((str(a), self.term(b)) for a, b in sorted(t[2], key=lambda x: str(x[0]))))
        if k in ('lin', 'mul'):
            return H(k, sorted(self.term(x) for x in t[1])) if k == 'lin' and isinstance(t[1], (tuple, frozenset)) else \
                H(k, sorted(self.term(x) for x in t[1:]))
        if k == 'add':
            return H('add', sorted(self.term(x) for x in t[1:]))
        if isinstance(k, str) and len(t) == 3 and k == 'L':
            return 'local'
        return H('t', tuple(self.term(x) if isinstance(x, (tuple, frozenset)) else repr(x) for x in t))

    def cases(self, t):
        """nested conditional values as a set of (value, guard)"""
        M = self.M
        out = {}

        def rec(x, g):
            if isinstance(x, tuple) and x and x[0] == 'iite':
                rec(x[2], M.AND(g, x[1][1]))
                rec(x[3], M.AND(g, M.NOT(x[1][1])))
            elif g != 0:
                h = self.term(x)
                out[h] = M.OR(out.get(h, 0), g)
        rec(t, 1)
        return tuple(sorted((h, self.node(g)) for h, g in out.items()))

    def flatten(self, items, g=1):
        M = self.M
        out = []
        for it in items:
            if it[0] == 'cond':
                out += self.flatten(it[2], M.AND(g, it[1][1]))
                out += self.flatten(it[3], M.AND(g, M.NOT(it[1][1])))
            elif g != 0:
                out.append((g, it))
        return out

    def items(self, items):
        """sequence parts, conditional parts flattened to guarded ones; parts with exclusive guards commute"""
        M = self.M
        fl = []
        for g, it in self.flatten(items):
            if it[0] == 'item':
                d = H('item', self.term(it[1]))
            elif it[0] == 'all':
                d = H('all', self.term(it[1]))
            elif it[0] == 'for':
                d = H('for', self.term(it[1]), it[2], self.items(it[3]))
            elif it[0] == 'iter':
                d = H('iter', self.term(it[1]), it[2], it[3], self.items(it[4]))
            else:
                d = H('other', self.term(it))
            fl.append((g, d))
        return self.guarded(fl)

    def guarded(self, fl):
        """canonical order of a guarded list: bubble exclusive neighbours by digest, merge equal exclusive neighbours"""
        M = self.M
        fl = [x for x in fl if x[0] != 0]
        ch = True
        n = 0
        keys = {}

        def key(x):
            if x not in keys:
                keys[x] = (x[1], self.node(x[0]))
            return keys[x]
        while ch and n < 60:
            ch = False
            n += 1
            i = 0
            while i + 1 < len(fl):
                a, b = fl[i], fl[i + 1]
                if M.AND(a[0], b[0]) == 0:
                    if a[1] == b[1]:
                        fl[i:i + 2] = [(M.OR(a[0], b[0]), a[1])]
                        ch = True
                        continue
                    if key(b) < key(a):
                        fl[i], fl[i + 1] = b, a
                        ch = True
                i += 1
        return tuple((self.node(g), d) for g, d in fl)

    # ------------------------------------------------ events
    def text(self, events, want):
        """guarded output pieces of the events selected by want(event) -> bool; adjacent literals under one guard joined"""
        out = []
        for pc, stream, v, loc in events:
            if not want(stream):
                continue
            parts = list(v[1:]) if v and v[0] == 'cat' else [v]
            for p in parts:
                if out and out[-1][0] == pc and p[0] == 'str' and out[-1][1][0] == 'str' and \
                        isinstance(p[1], str) and isinstance(out[-1][1][1], str):
                    out[-1] = (pc, ('str', out[-1][1][1] + p[1]))
                else:
                    out.append((pc, p))
        return [(g, self.term(v)) for g, v in out], out


def opaque(M, v, acc=None, seen=None):
    """multiset of markers of pieces the analysis did not understand inside a value"""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen

    def walkt(t):
        if isinstance(t, tuple):
            if t in seen:
                return
            seen.add(t)
            if len(t) == 2 and t[0] in ('bf', 'b') and isinstance(t[1], int):
                for a in M.atoms_of(t[1]):
                    walka(a)
                return
            if len(t) > 1 and t[0] == 'fun' and isinstance(t[1], str):
                mark(t[1])
            for x in t:
                walkt(x)

    def mark(n):
        if n in ('loop', 'fold', 'fix', 'swap', 'asbf', 'atexit') or n.startswith(('call:', 'rec:', 'other:', 'op', 'bf.', 'bfop', 'm:')):
            acc[n] = acc.get(n, 0) + 1

    def walka(a):
        if ('A', a) in seen:
            return
        seen.add(('A', a))
        k = M.atoms[a]
        if k[0] == 'fun':
            mark(k[1])
        if k[0] in ('ex', 'fp'):
            for b in M.atoms_of(k[2]):
                walka(b)
        elif k[0] == 'big':
            walkt(k[1])
            for b in M.atoms_of(k[3]):
                walka(b)
        elif k[0] in ('elem', 'fun', 'cmp'):
            walkt(k[1:])
    walkt(v)
    return acc

"""Canonical value numbers for Boolean functions.

Every Boolean-function (and every bool) value of the analysed program is represented by a node of one
hash-consed reduced ordered decision diagram over *opaque atoms*; two values with the same node denote the same
function for every specification.  Atoms are interned tuples:

  ('base', name, supp, sw)          an input of the analysis (a formula of the specification, a symbolic variable)
  ('elem', cont, idx, supp, sw)     element idx of container cont
  ('phi', sym, supp, sw)            value of a loop variable at the loop head (temporary)
  ('bv', height, supp, sw)          bound variable of a fixed point
  ('ex', cats, node)                existential quantification over variable categories
  ('fp', 'mu'|'nu', node, h, sw)    least / greatest fixed point, node mentions ('bv',h,..)
  ('big', cont, h, node)            disjunction over the elements of a container, node mentions index ('bi',h)
  ('fun', fname, args, supp, sw)    uninterpreted function of args (hashable terms)
  ('cmp', op, a, b)                 comparison of integer / opaque terms

Supports are frozensets of variable categories; bool values have empty support, "f is the constant true" is the
closed universal quantification of f.
"""
import sys
sys.setrecursionlimit(200000)

EMPTY = frozenset()


class Cats:
    """variable categories (leaves) and the present/next pairing"""

    def __init__(self):
        self.all = EMPTY


class TermError(Exception):
    pass


class Mgr:
    def __init__(self):
        self.nodes = [None, None]          # 0 false, 1 true
        self.uniq = {}
        self.atoms = []
        self.aid = {}
        self.asupp = []
        self.c_ite = {}
        self.c_supp = {0: EMPTY, 1: EMPTY}
        self.c_atoms = {0: EMPTY, 1: EMPTY}
        self.c_ex = {}
        self.c_primes = {}
        self.c_swap = {}
        self.facts = []                    # functions atomkey -> list of nodes (facts valid whenever the atom is present)
        self.allcats = EMPTY

    # ---------------------------------------------------------------- basic diagram
    def mk(self, a, hi, lo):
        if hi == lo:
            return hi
        k = (a, hi, lo)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def atom(self, key, supp):
        i = self.aid.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(key)
            self.asupp.append(supp)
            self.aid[key] = i
        return self.mk(i, 1, 0)

    def top(self, *fs):
        return min(self.nodes[f][0] for f in fs if f > 1)

    def cof(self, f, a):
        if f <= 1 or self.nodes[f][0] != a:
            return f, f
        return self.nodes[f][1], self.nodes[f][2]

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.c_ite.get(k)
        if r is not None:
            return r
        a = self.top(f, g, h)
        f1, f0 = self.cof(f, a)
        g1, g0 = self.cof(g, a)
        h1, h0 = self.cof(h, a)
        r = self.mk(a, self.ite(f1, g1, h1), self.ite(f0, g0, h0))
        self.c_ite[k] = r
        return r

    def NOT(self, f): return self.ite(f, 0, 1)
    def AND(self, f, g): return self.ite(f, g, 0)
    def OR(self, f, g): return self.ite(f, 1, g)
    def XOR(self, f, g): return self.ite(f, self.NOT(g), g)
    def IFF(self, f, g): return self.ite(f, g, self.NOT(g))
    def IMP(self, f, g): return self.ite(f, g, 1)

    def conj(self, fs):
        r = 1
        for f in fs:
            r = self.AND(r, f)
        return r

    def disj(self, fs):
        r = 0
        for f in fs:
            r = self.OR(r, f)
        return r

    def restrict(self, f, a, v):
        if f <= 1:
            return f
        t, hi, lo = self.nodes[f]
        if t > a:
            return f
        if t == a:
            return hi if v else lo
        memo = {}

        def rec(n):
            if n <= 1:
                return n
            t, hi, lo = self.nodes[n]
            if t > a:
                return n
            if t == a:
                return hi if v else lo
            if n in memo:
                return memo[n]
            r = self.mk(t, rec(hi), rec(lo))
            memo[n] = r
            return r
        return rec(f)

    def atoms_of(self, f):
        r = self.c_atoms.get(f)
        if r is None:
            a, hi, lo = self.nodes[f]
            r = frozenset([a]) | self.atoms_of(hi) | self.atoms_of(lo)
            self.c_atoms[f] = r
        return r

    def supp(self, f):
        r = self.c_supp.get(f)
        if r is None:
            s = set()
            for a in self.atoms_of(f):
                s |= self.asupp[a]
            r = frozenset(s)
            self.c_supp[f] = r
        return r

    # ---------------------------------------------------------------- prime implicants
    def primes(self, f):
        """set of prime implicants (frozensets of (atom, polarity)), or None when too many"""
        r = self.c_primes.get(f, 0)
        if r != 0:
            return r
        if f == 0:
            r = frozenset()
        elif f == 1:
            r = frozenset([frozenset()])
        else:
            a, hi, lo = self.nodes[f]
            both = self.primes(self.AND(hi, lo))
            p1 = self.primes(hi)
            p0 = self.primes(lo)
            if both is None or p1 is None or p0 is None:
                r = None
            else:
                out = set(both)
                for p, pol in ((p1, True), (p0, False)):
                    for c in p:
                        if not any(b <= c for b in both):
                            out.add(c | {(a, pol)})
                r = frozenset(out) if len(out) <= 200 else None
        self.c_primes[f] = r
        return r

    def cube(self, lits):
        r = 1
        for a, pol in lits:
            v = self.mk(a, 1, 0)
            r = self.AND(r, v if pol else self.NOT(v))
        return r

    # ---------------------------------------------------------------- quantification
    def ex(self, C, f):
        C = frozenset(C) & self.supp(f)
        if not C or f <= 1:
            return f
        k = (C, f)
        r = self.c_ex.get(k)
        if r is not None:
            return r
        ind = [a for a in sorted(self.atoms_of(f)) if not (self.asupp[a] & C)]
        if ind:
            a = ind[0]
            r = self.ite(self.mk(a, 1, 0), self.ex(C, self.restrict(f, a, 1)), self.ex(C, self.restrict(f, a, 0)))
        else:
            ps = self.primes(f)
            if ps is None:
                r = self.exatom(C, f)
            else:
                r = 0
                for p in sorted(ps, key=lambda p: sorted(p)):
                    r = self.OR(r, self.excube(C, p))
        self.c_ex[k] = r
        return r

    def all_(self, C, f):
        return self.NOT(self.ex(C, self.NOT(f)))

    def valid(self, f):
        """bool node: f is the constant true"""
        return self.all_(self.supp(f), f)

    def exatom(self, C, f):
        return self.atom(('ex', C, f), self.supp(f) - C)

    def excube(self, C, lits):
        lits = list(lits)
        # connected components by shared quantified categories
        comps = []
        for l in lits:
            cs = self.asupp[l[0]] & C
            merged = [[l], set(cs)]
            if not cs:
                comps.append([[l], set()])
                continue
            rest = []
            for c in comps:
                if c[1] & merged[1]:
                    merged[0] += c[0]
                    merged[1] |= c[1]
                else:
                    rest.append(c)
            comps = rest + [merged]
        r = 1
        for ls, cs in comps:
            r = self.AND(r, self._excomp(frozenset(cs), ls))
        return r

    def _excomp(self, C, ls):
        if not C:
            return self.cube(ls)
        # flatten nested positive existentials where no capture is possible
        for l in ls:
            key = self.atoms[l[0]]
            if l[1] and key[0] == 'ex':
                D = key[1]
                others = set()
                for m in ls:
                    if m is not l:
                        others |= self.asupp[m[0]]
                if not (D & others) and not (D & self.asupp[l[0]]):
                    rest = self.cube([m for m in ls if m is not l])
                    return self.ex(C | D, self.AND(rest, key[2]))
        if len(ls) == 1 and not ls[0][1]:
            pass
        return self.exatom(C, self.cube(ls))

    # ---------------------------------------------------------------- swap of category pairs
    # sw is a frozenset of pairs; a pair is a frozenset of two categories
    def swapcats(self, pairs, cats):
        m = {}
        for p in pairs:
            a, b = sorted(p)
            m[a] = b
            m[b] = a
        return frozenset(m.get(c, c) for c in cats)

    def swap(self, pairs, f):
        pairs = frozenset(pairs)
        if f <= 1:
            return f
        k = (pairs, f)
        r = self.c_swap.get(k)
        if r is None:
            r = self._map(f, lambda a: self.swapatom(pairs, a), {})
            self.c_swap[k] = r
        return r

    def swapatom(self, pairs, a):
        key = self.atoms[a]
        s = self.asupp[a]
        rel = frozenset(p for p in pairs if p & self._deepsupp(a))
        if not rel:
            return self.mk(a, 1, 0)
        t = key[0]
        if t == 'ex':
            return self.ex(self.swapcats(pairs, key[1]), self.swap(pairs, key[2]))
        if t == 'big':
            return self.mkbig_raw(key[1], key[2], self.swap(pairs, key[3]))
        if t in ('base', 'elem', 'phi', 'bv', 'fun', 'fp'):
            sw = key[-1]
            # pairs relevant to the *unswapped* object: track pairs touching current or original support
            nsw = frozenset(sw ^ rel)
            ns = self.swapcats(pairs, s)
            if t == 'fun':
                nk = key[:-2] + (ns, nsw)
            elif t == 'fp':
                nk = key[:-1] + (nsw,)
            else:
                nk = key[:-2] + (ns, nsw)
            return self.atom(nk, ns)
        return self.mk(a, 1, 0)

    def _deepsupp(self, a):
        key = self.atoms[a]
        if key[0] == 'ex':
            return self.asupp[a] | key[1]
        return self.asupp[a]

    def _map(self, f, fn, memo):
        if f <= 1:
            return f
        r = memo.get(f)
        if r is None:
            a, hi, lo = self.nodes[f]
            r = self.ite(fn(a), self._map(hi, fn, memo), self._map(lo, fn, memo))
            memo[f] = r
        return r

    # ---------------------------------------------------------------- generic substitution
    # smap: {('phi',sym): node | ('sym',name): int term | ('cont',name): container term}
    def subst(self, f, smap, memo=None):
        if memo is None:
            memo = {}
        return self._map(f, lambda a: self._substatom(a, smap, memo), memo.setdefault('m', {}))

    def _substatom(self, a, smap, memo):
        am = memo.setdefault('a', {})
        if a in am:
            return am[a]
        key = self.atoms[a]
        t = key[0]
        if t == 'phi':
            v = smap.get(('phi', key[1]))
            r = self.mk(a, 1, 0) if v is None else self.swap(key[3], v)
        elif t == 'base' or t == 'bv':
            v = smap.get((t, key[1]))
            r = self.mk(a, 1, 0) if v is None else self.swap(key[3], v)
        elif not self.depends(a, smap):
            r = self.mk(a, 1, 0)
        elif t == 'ex':
            r = self.ex(key[1], self.subst(key[2], smap, memo))
        elif t == 'fp':
            sym = self.fresh('ufp')
            supp = self._bvsupp(key[2], key[3])
            body = self.subst(key[2], {('bv', key[3]): self.phi(sym, supp)})
            body = self.subst(body, smap)
            r = self.swap(key[4], self.mkfp(key[1], sym, body))
        elif t == 'big':
            sym = self.fresh('ubi')
            body = self.subst(key[3], {('sym', ('bi', key[2])): ('s', sym)})
            body = self.subst(body, smap)
            cont = self.tsubst(key[1], smap, memo)
            r = self.mkbig(cont, sym, body)
        elif t == 'elem':
            r = self.elem(self.tsubst(key[1], smap, memo), self.tsubst(key[2], smap, memo), key[3], key[4])
        elif t == 'fun':
            args = self.tsubst(key[2], smap, memo)
            r = self.fun(key[1], args, key[3], key[4])
        elif t == 'cmp':
            r = self.cmp(key[1], self.tsubst(key[2], smap, memo), self.tsubst(key[3], smap, memo))
        else:
            raise TermError('subst ' + t)
        am[a] = r
        return r

    elem_hook = None
    sel_hook = None
    size_hook = None
    ranges = {}

    def elem(self, cont, idx, supp, sw=EMPTY):
        if self.elem_hook and not sw:
            r = self.elem_hook(cont, idx, supp)
            if r is not None:
                return r
        return self.atom(('elem', cont, idx, supp, sw), supp)

    fun_hook = None

    def fun(self, name, args, supp, sw=EMPTY):
        if self.fun_hook and not sw:
            r = self.fun_hook(name, args, supp)
            if r is not None:
                return r
        return self.atom(('fun', name, args, supp, sw), supp)

    def _bvsupp(self, node, h):
        for a in self.allatoms(node):
            k = self.atoms[a]
            if k[0] == 'bv' and k[1] == h:
                return self.swapcats(k[3], k[2])
        return EMPTY

    def tsubst(self, t, smap, memo=None):
        if memo is None:
            memo = {}
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] in ('bf', 'b'):
                return (t[0], self.subst(t[1], smap, memo))
            if len(t) == 2 and t[0] == 's':
                v = smap.get(('sym', t[1]))
                return t if v is None else v
            if len(t) == 2 and t[0] == 'csym':
                v = smap.get(('cont', t[1]))
                return t if v is None else v
            new = tuple(self.tsubst(x, smap, memo) for x in t)
            if new != t and t:
                if t[0] in ('add', 'sub', 'lin'):
                    if t[0] == 'lin':
                        d = {}
                        k = 0
                        for x, c in new[1]:
                            dx, kx = self.lin(x)
                            k += c * kx
                            for y, cy in dx.items():
                                d[y] = d.get(y, 0) + c * cy
                        return self.unlin(d, k)
                    return self.unlin(*self.lin(new))
                if t[0] == 'iite':
                    return self.norm_int(new)
                if t[0] == 'elem' and len(t) == 3 and self.sel_hook:
                    return self.sel_hook(new)
                if t[0] == 'size' and len(t) == 2 and self.size_hook:
                    return self.size_hook(new[1])
            return new
        return t

    def norm_int(self, t):
        if t[0] == 'add':
            return self.iadd(t[1], t[2])
        if t[0] == 'iite':
            return t[2] if t[1] == ('b', 1) else t[3] if t[1] == ('b', 0) else t[2] if t[2] == t[3] else t
        return t

    # ---- integer sums: ('c',k) | x | ('add', x, ('c',k)) with x a term or ('lin', ((term, coefficient), ..))
    def lin(self, t):
        """term -> ({term: coefficient}, constant)"""
        k = t[0]
        if k == 'c':
            return {}, t[1]
        if k == 'lin':
            return dict(t[1]), 0
        if k == 'add':
            d1, c1 = self.lin(t[1])
            d2, c2 = self.lin(t[2])
            for x, c in d2.items():
                d1[x] = d1.get(x, 0) + c
            return d1, c1 + c2
        if k == 'sub':
            d1, c1 = self.lin(t[1])
            d2, c2 = self.lin(t[2])
            for x, c in d2.items():
                d1[x] = d1.get(x, 0) - c
            return d1, c1 - c2
        return {t: 1}, 0

    def unlin(self, d, k):
        d = {x: c for x, c in d.items() if c}
        if not d:
            return ('c', k)
        if len(d) == 1 and list(d.values()) == [1]:
            r = list(d)[0]
        else:
            r = ('lin', tuple(sorted(d.items(), key=repr)))
        return r if k == 0 else ('add', r, ('c', k))

    def iadd(self, a, b):
        return self.unlin(*self.lin(('add', a, b)))

    def isub(self, a, b):
        return self.unlin(*self.lin(('sub', a, b)))

    # all atoms reachable, including nested ones
    def allatoms(self, f, seen=None, out=None):
        if out is None:
            out = set()
            seen = set()
        if f in seen:
            return out
        seen.add(f)
        for a in self.atoms_of(f):
            if a in out:
                continue
            out.add(a)
            self._nested(self.atoms[a][1:], seen, out, self.atoms[a])
        return out

    def _nested(self, t, seen, out, key=None):
        if key is not None:
            if key[0] == 'ex':
                self.allatoms(key[2], seen, out)
                return
            if key[0] == 'fp':
                self.allatoms(key[2], seen, out)
                return
            if key[0] == 'big':
                self.allatoms(key[3], seen, out)
                self._nested(key[1], seen, out)
                return
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] in ('bf', 'b') and isinstance(t[1], int):
                self.allatoms(t[1], seen, out)
                return
            for x in t:
                if isinstance(x, tuple):
                    self._nested(x, seen, out)

    def depends(self, a, smap):
        """does atom a mention one of the substituted symbols?"""
        return bool(self.symbols_atom(a) & set(smap))

    def symbols_atom(self, a):
        c = self.__dict__.setdefault('c_syma', {})
        r = c.get(a)
        if r is None:
            key = self.atoms[a]
            t = key[0]
            if t in ('phi', 'base', 'bv'):
                r = frozenset([(t, key[1])])
            elif t == 'ex':
                r = self.symbols(key[2])
            elif t == 'fp':
                r = self.symbols(key[2]) - {('bv', key[3])}
            elif t == 'big':
                r = (self.symbols(key[3]) - {('sym', ('bi', key[2]))}) | self.tsymbols(key[1])
            else:
                r = self.tsymbols(key[1:])
            c[a] = r
        return r

    def symbols(self, f):
        c = self.__dict__.setdefault('c_symf', {})
        r = c.get(f)
        if r is None:
            s = set()
            for a in self.atoms_of(f):
                s |= self.symbols_atom(a)
            r = frozenset(s)
            c[f] = r
        return r

    def tsymbols(self, t):
        c = self.__dict__.setdefault('c_symt', {})
        if not isinstance(t, tuple):
            return EMPTY
        r = c.get(t)
        if r is None:
            if len(t) == 2 and t[0] in ('bf', 'b') and isinstance(t[1], int):
                r = self.symbols(t[1])
            elif len(t) == 2 and t[0] == 's':
                r = frozenset([('sym', t[1])])
            elif len(t) == 2 and t[0] == 'csym':
                r = frozenset([('cont', t[1])])
            else:
                s = set()
                for x in t:
                    if isinstance(x, tuple):
                        s |= self.tsymbols(x)
                r = frozenset(s)
            c[t] = r
        return r

    _fresh = 0

    def fresh(self, p):
        Mgr._fresh += 1
        return '%s#%d' % (p, Mgr._fresh)

    def phi(self, sym, supp):
        return self.atom(('phi', sym, supp, EMPTY), supp)

    def base(self, name, supp):
        return self.atom(('base', name, supp, EMPTY), supp)

    # ---------------------------------------------------------------- heights
    # height of a term = largest binder height inside it; free bound variables belong to enclosing (higher) binders
    def height(self, f):
        c = self.__dict__.setdefault('c_h', {})
        if f <= 1:
            return 0
        h = c.get(f)
        if h is None:
            h = 0
            for a in self.atoms_of(f):
                h = max(h, self.aheight(a))
            c[f] = h
        return h

    def aheight(self, a):
        c = self.__dict__.setdefault('c_ah', {})
        h = c.get(a)
        if h is None:
            k = self.atoms[a]
            t = k[0]
            if t == 'fp':
                h = k[3]
            elif t == 'big':
                h = k[2]
            elif t == 'ex':
                h = self.height(k[2])
            elif t == 'bv':
                h = k[1][1] if isinstance(k[1], tuple) else 0
            elif t in ('phi', 'base'):
                h = 0
            else:
                h = max([0] + [self.theight(x) for x in k[1:] if isinstance(x, tuple)])
            c[a] = h
        return h

    def theight(self, t):
        if not isinstance(t, tuple):
            return 0
        c = self.__dict__.setdefault('c_th', {})
        h = c.get(t)
        if h is not None:
            return h
        if len(t) == 2 and t[0] in ('bf', 'b') and isinstance(t[1], int):
            h = self.height(t[1])
        elif len(t) == 2 and t[0] in ('s', 'csym') and isinstance(t[1], tuple):
            h = t[1][1] if t[1][0] == 'f' else 0
        elif len(t) == 4 and t[0] == 'for':
            h = max(t[2], self.theight(t[3]), self.theight(t[1]))
        elif len(t) == 5 and t[0] == 'iter':
            h = max(t[3], self.theight(t[1]), self.theight(t[4]))
        elif len(t) == 5 and t[0] == 'fun' and t[1] == 'first':
            h = max(t[3], self.theight(t[2]), self.theight(t[4]))
        else:
            h = max([0] + [self.theight(x) for x in t if isinstance(x, tuple)])
        c[t] = h
        return h

    # ---------------------------------------------------------------- polarity
    def polarity(self, f, sym):
        """subset of {'+','-'} of the polarities in which ('phi',sym)-like symbol occurs in f"""
        c = self.__dict__.setdefault('c_pol', {})
        k = (f, sym)
        if k in c:
            return c[k]
        out = set()
        for a in self.atoms_of(f):
            if sym not in self.symbols_atom(a):
                continue
            f1, f0 = self.restrict(f, a, 1), self.restrict(f, a, 0)
            up = self.AND(f0, self.NOT(f1)) == 0
            dn = self.AND(f1, self.NOT(f0)) == 0
            if not up and not dn:
                # the order may follow from the monotonicity of quantifiers
                up = self.below(f0, f1)
                dn = not up and self.below(f1, f0)
            if up and not dn:
                mine = {'+'}
            elif dn and not up:
                mine = {'-'}
            else:
                mine = {'+', '-'}
            inner = self._apol(a, sym)
            for x in mine:
                for y in inner:
                    out.add('+' if x == y else '-')
        r = frozenset(out)
        c[k] = r
        return r

    def _apol(self, a, sym):
        key = self.atoms[a]
        t = key[0]
        if t in ('phi', 'base', 'bv'):
            return {'+'}
        if t == 'ex':
            return self.polarity(key[2], sym)
        if t == 'fp':
            return self.polarity(key[2], sym)
        if t == 'big':
            if sym in self.tsymbols(key[1]):
                return {'+', '-'}
            return self.polarity(key[3], sym)
        return {'+', '-'}

    # ---------------------------------------------------------------- fixed points
    def mkfp(self, kind, sym, f, direct=True):
        """mu/nu over ('phi',sym) of node f (must be monotone)"""
        s = ('phi', sym)
        if kind == 'nu':
            # greatest fixed points are kept as complemented least ones, so that dual computations get one value
            ph = self._phis(f, sym)
            g = f
            for sup in ph:
                g = self.subst(g, {s: self.NOT(self.phi(sym, sup))})
                break
            return self.NOT(self.mkfp('mu', sym, self.NOT(g), direct))
        # substitute directly occurring variable
        if direct:
            for a in list(self.atoms_of(f)):
                k = self.atoms[a]
                if k[0] == 'phi' and k[1] == sym and k[3] == EMPTY:
                    f = self.restrict(f, a, 0 if kind == 'mu' else 1)
        if s not in self.symbols(f):
            return f
        # one-step unrolling identities:  mu over a constant start may collapse
        start = 0 if kind == 'mu' else 1
        if self.subst(f, {s: start}) == start:
            return start
        h = self.height(f) + 1
        supp = EMPTY
        for a in self.allatoms(f):
            k = self.atoms[a]
            if k[0] == 'phi' and k[1] == sym:
                supp |= self.swapcats(k[3], k[2])
        body = self.subst(f, {s: self.atom(('bv', h, supp, EMPTY), supp)})
        # support of the fixed point: least solution of supp equation
        fsupp = self.supp(body) - EMPTY
        cur = EMPTY
        for _ in range(10):
            nb = self.subst(f, {s: self.phi('supp', cur)})
            ns = self.supp(nb)
            if ns == cur:
                break
            cur = ns | cur
        body = self.subst(f, {s: self.atom(('bv', h, cur, EMPTY), cur)})
        return self.atom(('fp', kind, body, h, EMPTY), cur)

    def _phis(self, f, sym):
        out = set()
        for a in self.allatoms(f):
            k = self.atoms[a]
            if k[0] == 'phi' and k[1] == sym:
                out.add(self.swapcats(k[3], k[2]))
        return sorted(out, key=sorted)

    def unfold(self, a):
        """one unfolding of a fixed point atom"""
        key = self.atoms[a]
        assert key[0] == 'fp'
        me = self.atom(('fp', key[1], key[2], key[3], EMPTY), self.swapcats(key[4], self.asupp[a]))
        return self.swap(key[4], self.subst(key[2], {('bv', key[3]): me}))

    # ---------------------------------------------------------------- big disjunction
    def mkbig(self, cont, sym, f):
        """disjunction over the elements of cont; f mentions ('s',sym) as index"""
        s = ('sym', sym)
        nonempty = self.nonempty(cont)
        if cont and cont[0] == 'range' and cont[1][0] == 'c':
            r = 0
            for i in range(cont[1][1]):
                r = self.OR(r, self.subst(f, {s: ('c', i)}))
            return r
        if s not in self.symbols(f):
            return self.AND(nonempty, f)
        # pull out independent atoms
        dep = [a for a in self.atoms_of(f) if s in self.symbols_atom(a)]
        ind = [a for a in sorted(self.atoms_of(f)) if a not in dep]
        if ind:
            a = ind[0]
            return self.ite(self.mk(a, 1, 0), self.mkbig(cont, sym, self.restrict(f, a, 1)),
                            self.mkbig(cont, sym, self.restrict(f, a, 0)))
        ps = self.primes(f)
        if ps is None or len(ps) <= 1:
            return self._bigatom(cont, sym, f)
        r = 0
        for p in sorted(ps, key=lambda p: sorted(p)):
            r = self.OR(r, self._bigatom(cont, sym, self.cube(p)))
        return r

    def _bigatom(self, cont, sym, f):
        h = max(self.height(f), self.theight(cont)) + 1
        body = self.subst(f, {('sym', sym): ('s', ('bi', h))})
        return self.mkbig_raw(cont, h, body)

    def mkbig_raw(self, cont, h, body):
        return self.atom(('big', cont, h, body), self.supp(body))

    nonempty_hook = None

    def nonempty(self, cont):
        if cont and cont[0] == 'range':
            return self.NOT(self.cmp('==', cont[1], ('c', 0)))
        if cont and cont[0] == 'range2':
            return self.cmp('<', cont[1], cont[2])
        if self.nonempty_hook:
            r = self.nonempty_hook(cont)
            if r is not None:
                return r
        return self.NOT(self.cmp('==', ('size', cont), ('c', 0)))

    # ---------------------------------------------------------------- integer comparisons
    cmp_hook = None

    def cmp(self, op, a, b):
        if op == '!=':
            return self.NOT(self.cmp('==', a, b))
        if op == '>':
            return self.cmp('<', b, a)
        if op == '>=':
            return self.NOT(self.cmp('<', a, b))
        if op == '<=':
            return self.NOT(self.cmp('<', b, a))
        for x, other, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, tuple) and x and x[0] == 'iite':
                l = self.cmp(op, x[2], other) if not flip else self.cmp(op, other, x[2])
                r = self.cmp(op, x[3], other) if not flip else self.cmp(op, other, x[3])
                return self.ite(x[1][1], l, r)
        if op == '==' and ('str', '') in (a, b) and a != b:
            x = b if a == ('str', '') else a
            if x[0] in ('str', 'cat'):
                if x[0] == 'str' or any(y[:1] == ('str',) for y in x[1:]):
                    return 0
            # a string is empty iff its length is zero
            return self.cmp('==', ('size', x), ('c', 0))
        if a == b:
            return 1 if op == '==' else 0
        if a[0] == 'c' and b[0] == 'c':
            return int(a[1] == b[1]) if op == '==' else int(a[1] < b[1])
        # cancel constant offsets of the same term
        def split(t):
            if t[0] == 'add' and t[2][0] == 'c':
                return t[1], t[2][1]
            return t, 0
        if a[0] in ('lin', 'add') and b[0] in ('lin', 'add') or (a[0] == 'lin' or b[0] == 'lin' or
                                                                 (a[0] == 'add' and a[1][0] == 'lin') or (b[0] == 'add' and b[1][0] == 'lin')):
            # move the terms of negative coefficient to the other side
            d, k = self.lin(('sub', a, b))
            a = self.unlin({x: c for x, c in d.items() if c > 0}, k if k > 0 else 0)
            b = self.unlin({x: -c for x, c in d.items() if c < 0}, -k if k < 0 else 0)
            if a == b:
                return 1 if op == '==' else 0
            if a[0] == 'c' and b[0] == 'c':
                return int(a[1] == b[1]) if op == '==' else int(a[1] < b[1])
        (xa, ka), (xb, kb) = split(a), split(b)
        if xa == xb:
            return int(ka == kb) if op == '==' else int(ka < kb)
        if self.cmp_hook:
            r = self.cmp_hook(op, a, b)
            if r is not None:
                return r
        if op == '<' and b[0] == 'c' and self.unsigned(a):
            if b[1] <= 0:
                return 0
            if b[1] == 1:
                return self.cmp('==', a, ('c', 0))
        if op == '<' and a == ('c', 0) and self.unsigned(b):
            return self.NOT(self.cmp('==', b, ('c', 0)))
        if op == '==':
            # move constants to one side
            if ka and b[0] == 'c':
                a, b = xa, ('c', b[1] - ka)
            elif kb and a[0] == 'c':
                a, b = xb, ('c', a[1] - kb)
            if a[0] == 'size' and b == ('c', 0) and self.nonempty_hook:
                r = self.nonempty_hook(a[1])
                if r is not None:
                    return self.NOT(r)
            if b[0] == 'size' and a == ('c', 0) and self.nonempty_hook:
                r = self.nonempty_hook(b[1])
                if r is not None:
                    return self.NOT(r)
            a, b = sorted((a, b), key=repr)
        return self.atom(('cmp', op, a, b), EMPTY)

    def unsigned(self, t):
        return t[0] in ('size', 'usym') or (t[0] == 's' and isinstance(t[1], tuple) and t[1][0] == 'bi')

    # ---------------------------------------------------------------- entailment
    def implies(self, f, g, rounds=3):
        """sound, incomplete: f -> g using Boolean structure plus facts about atoms"""
        if self.AND(f, self.NOT(g)) == 0:
            return True
        known = set()
        facts = 1
        for _ in range(rounds):
            ats = set(self.atoms_of(f)) | set(self.atoms_of(g)) | (set(self.atoms_of(facts)) if facts > 1 else set())
            new = ats - known
            if not new:
                break
            known |= new
            for a in sorted(new):
                facts = self.AND(facts, self.atom_facts(a))
            # monotonicity between existential atoms
            exs = [a for a in known if self.atoms[a][0] == 'ex']
            for a in exs:
                for b in exs:
                    if a != b and self.atoms[a][1] <= self.atoms[b][1] and \
                            self.AND(self.atoms[a][2], self.NOT(self.atoms[b][2])) == 0:
                        facts = self.AND(facts, self.IMP(self.mk(a, 1, 0), self.mk(b, 1, 0)))
            for b in exs:
                facts = self.AND(facts, self.IMP(self.atoms[b][2], self.mk(b, 1, 0)))
            if self.AND(self.AND(f, facts), self.NOT(g)) == 0:
                return True
        return False

    def below(self, f, g, depth=3):
        """sound, incomplete: f -> g, with the monotonicity of nested quantifiers"""
        if self.AND(f, self.NOT(g)) == 0:
            return True
        if depth == 0:
            return False
        c = self.__dict__.setdefault('c_below', {})
        k = (f, g, depth)
        if k in c:
            return c[k]
        c[k] = False
        exs = [a for a in set(self.atoms_of(f)) | set(self.atoms_of(g)) if self.atoms[a][0] == 'ex']
        facts = 1
        if len(exs) <= 12:
            for a in exs:
                for b in exs:
                    if a != b and self.atoms[a][1] <= self.atoms[b][1] and self.below(self.atoms[a][2], self.atoms[b][2], depth - 1):
                        facts = self.AND(facts, self.IMP(self.mk(a, 1, 0), self.mk(b, 1, 0)))
        c[k] = self.AND(self.AND(f, facts), self.NOT(g)) == 0
        return c[k]

    def atom_facts(self, a):
        key = self.atoms[a]
        r = 1
        if key[0] == 'fp':
            r = self.AND(r, self.IFF(self.mk(a, 1, 0), self.unfold(a)))
        for fn in self.facts:
            x = fn(self, a, key)
            if x is not None:
                r = self.AND(r, x)
        return r

    # ---------------------------------------------------------------- printing
    def show(self, f, depth=6):
        if f == 0:
            return 'false'
        if f == 1:
            return 'true'
        ps = self.primes(f)
        if ps is None or len(ps) > 6:
            nps = self.primes(self.NOT(f))
            if nps is not None and (ps is None or len(nps) < len(ps)):
                return '!(' + self._sop(nps, depth) + ')'
            if ps is None:
                return '<formula with %d atoms>' % len(self.atoms_of(f))
        else:
            nps = self.primes(self.NOT(f))
            if nps is not None and len(nps) < len(ps):
                return '!(' + self._sop(nps, depth) + ')'
        return self._sop(ps, depth)

    def _sop(self, ps, depth):
        out = []
        for p in ps:
            out.append(' & '.join(('' if pol else '!') + self.showatom(a, depth) for a, pol in sorted(p)) or 'true')
        out.sort()
        return ' | '.join(out)

    def showatom(self, a, depth=6):
        k = self.atoms[a]
        t = k[0]

        def pr(sw):
            return "'" if sw else ''
        if depth <= 0:
            return '..'
        if t == 'base':
            return '%s%s' % (k[1] if isinstance(k[1], str) else self.showt(k[1], depth - 1), pr(k[3]))
        if t == 'phi':
            return '<%s>%s' % (k[1], pr(k[3]))
        if t == 'bv':
            return 'Z%s%s' % (k[1], pr(k[3]))
        if t == 'ex':
            return 'E{%s}(%s)' % (','.join(sorted(map(str, k[1]))), self.show(k[2], depth - 1))
        if t == 'fp':
            return '%s Z%s%s.(%s)' % (k[1], k[3], pr(k[4]), self.show(k[2], depth - 1))
        if t == 'big':
            return 'OR{i%d in %s}(%s)' % (k[2], self.showt(k[1], depth - 1), self.show(k[3], depth - 1))
        if t == 'elem':
            return '%s[%s]%s' % (self.showt(k[1], depth - 1), self.showt(k[2], depth - 1), pr(k[4]))
        if t == 'fun':
            return '%s(%s)%s' % (k[1], ','.join(self.showt(x, depth - 1) for x in k[2]), pr(k[4]))
        if t == 'cmp':
            return '(%s %s %s)' % (self.showt(k[2], depth - 1), k[1], self.showt(k[3], depth - 1))
        return str(k)

    def showt(self, t, depth=4):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] in ('bf', 'b') and isinstance(t[1], int):
                return self.show(t[1], depth)
            if len(t) == 2 and t[0] == 'c':
                return str(t[1])
            if len(t) == 2 and t[0] == 's':
                return ('i%s' % t[1][1] if t[1][0] == 'bi' else '.'.join(map(str, t[1]))) if isinstance(t[1], tuple) else str(t[1])
            if t and t[0] == 'cont':
                return str(t[1])
            if depth <= 0:
                return '..'
            return '(' + ' '.join(self.showt(x, depth - 1) for x in t) + ')'
        if isinstance(t, frozenset):
            return '{' + ','.join(sorted(map(str, t))) + '}'
        return str(t)

"""Reference formulas (the oracle): games written with the term combinators, independently of the code under analysis."""
from .terms import EMPTY
from .model import Model


class Ref:
    def __init__(self, M, model, extra_pairs=()):
        self.M, self.mo = M, model
        self.prepost = frozenset(frozenset([c, 'Post' + c[3:]]) for c in model.leaves if c.startswith('Pre')) | \
            frozenset(frozenset(p) for p in extra_pairs)
        self.n = 0

    # -------- vocabulary
    def f(self, name):
        return self.M.base(name, self.mo.supp(name))

    def flag(self, name):
        return self.M.base(('fld', name), EMPTY)

    def nxt(self, f):
        return self.M.swap(self.prepost, f)

    def ex(self, cats, f):
        return self.M.ex(self.mo.expand(cats), f)

    def all_(self, cats, f):
        return self.M.all_(self.mo.expand(cats), f)

    def elem(self, cont, i):
        c = ('cont', cont)
        return self.M.elem(c, i, frozenset(self.mo.contsupp(c)))

    def bigor(self, cont, fn):
        self.n += 1
        sym = 'ref#%d' % self.n
        body = fn(self.elem(cont, ('s', sym)))
        return self.M.mkbig(('range', ('size', ('cont', cont))), sym, body)

    def bigand(self, cont, fn):
        return self.M.NOT(self.bigor(cont, lambda g: self.M.NOT(fn(g))))

    def fix(self, kind, fn, cats=None):
        self.n += 1
        sym = 'refz#%d' % self.n
        supp = self.mo.expand(cats or ('PreInput', 'PreOutput'))
        for _ in range(8):
            body = fn(self.M.phi(sym, supp))
            ns = self.M.supp(body)
            if ns == supp:
                break
            supp = ns
        return self.M.mkfp(kind, sym, body)

    def mu(self, fn, cats=None): return self.fix('mu', fn, cats)
    def nu(self, fn, cats=None): return self.fix('nu', fn, cats)

    def AND(self, *a): return self.M.conj(a)
    def OR(self, *a): return self.M.disj(a)
    def NOT(self, a): return self.M.NOT(a)
    def IMP(self, a, b): return self.M.IMP(a, b)

    # -------- games
    def sys_cox(self, t):
        """positions from which, whatever next input the environment assumptions allow, some next output makes t true"""
        return self.all_(['PostInput'], self.IMP(self.f('safetyEnv'), self.ex(['PostOutput'], t)))

    def gr1(self, cox=None):
        cox = cox or self.sys_cox
        S = self.f('safetySys')
        return self.nu(lambda Z: self.bigand('livenessGuarantees', lambda G: self.mu(lambda Y: self.bigor(
            'livenessAssumptions', lambda A: self.nu(lambda X: cox(self.AND(S, self.OR(
                self.AND(G, self.nxt(Z)), self.nxt(Y), self.AND(self.NOT(A), self.nxt(X))))))))))

    def std_init(self, W):
        return self.all_(['PreInput'], self.IMP(self.f('initEnv'), self.ex(['PreOutput'], self.AND(W, self.f('initSys')))))

    def robotics_init(self, W):
        return self.all_(['PreInput', 'PreOutput'], self.IMP(self.AND(self.f('initEnv'), self.f('initSys')), W))

    def counter(self):
        """winning region of the environment: the exact complement of the system's one, as a game of its own"""
        S, E = self.f('safetySys'), self.f('safetyEnv')

        def cox(t):
            return self.ex(['PostInput'], self.AND(E, self.all_(['PostOutput'], self.IMP(S, t))))
        return self.mu(lambda Z: self.bigor('livenessGuarantees', lambda G: self.nu(lambda Y: self.bigand(
            'livenessAssumptions', lambda A: self.mu(lambda X: cox(self.AND(
                self.OR(self.NOT(G), self.nxt(Z)), self.nxt(Y), self.OR(A, self.nxt(X)))))))))

    def bias(self):
        """GR(1) game in which every ranking level first adds everything reachable without waiting"""
        S = self.f('safetySys')

        def lvl(Z, Y, G):
            B = self.mu(lambda B: self.sys_cox(self.AND(S, self.OR(self.AND(G, self.nxt(Z)), self.nxt(Y), self.nxt(B)))))
            X = self.bigor('livenessAssumptions', lambda A: self.nu(lambda X: self.sys_cox(self.AND(S, self.OR(
                self.AND(G, self.nxt(Z)), self.nxt(Y), self.AND(self.NOT(A), self.nxt(X)))))))
            return self.OR(B, X)
        return self.nu(lambda Z: self.bigand('livenessGuarantees', lambda G: self.mu(lambda Y: lvl(Z, Y, G))))

    def fastslow_safety(self):
        """safety guarantees plus: the intermediate position in which inputs and fast outputs have already changed but slow
        outputs have not is itself safe (it has a safe successor and a safe predecessor)"""
        S = self.f('safetySys')
        has_succ = self.ex(['PostInput', 'PostOutput'], S)
        has_pred = self.nxt(self.ex(['PreInput', 'PreOutput'], S))
        safe = self.AND(has_succ, has_pred)
        inter = self.M.swap(frozenset([frozenset(['PreOutputSlow', 'PostOutputSlow'])]), self.nxt(safe))
        return self.AND(S, inter)

    def fastslow(self):
        N = self.fastslow_safety()

        def cox(t):
            return self.sys_cox(t)
        G_ = lambda G, Z, Y, A, X: self.AND(N, self.OR(self.AND(G, self.nxt(Z)), self.nxt(Y), self.AND(self.NOT(A), self.nxt(X))))
        return self.nu(lambda Z: self.bigand('livenessGuarantees', lambda G: self.mu(lambda Y: self.bigor(
            'livenessAssumptions', lambda A: self.nu(lambda X: cox(G_(G, Z, Y, A, X)))))))

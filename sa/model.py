"""What the analysis assumes about the specification data an engine starts from: which variable categories exist, which
categories every input formula may mention (established by the section checks, C10), the present/next pairing, and
that liveness lists are non-empty after reading (also C10)."""
from .terms import EMPTY
from .absint import strip_t, BF
from .load import AnalysisBroken


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from walk(v)


class Registry:
    """variable categories as registered in the source: parent relation and names"""

    def __init__(self, P):
        self.parent = {}
        self.names = {}
        self.locs = {}
        for k, g in P.globals.items():
            t = strip_t(g.get('t'))
            if t not in ('RegisterVariableHierarchyClass', 'RegisterVariableTypeClass') or 'i' not in g:
                continue
            en = [e['n'] for e in walk(g['i']) if e.get('k') == 'enum']
            st = [e['v'] for e in walk(g['i']) if e.get('k') == 'str']
            loc = '%s:%s' % (P.rel(g['file']), g['l'])
            if t == 'RegisterVariableHierarchyClass' and len(en) == 2:
                if en[0] in self.parent:
                    self.locs[('dup', en[0])] = loc
                self.parent[en[0]] = en[1]
                self.locs[en[0]] = loc
            elif t == 'RegisterVariableTypeClass' and len(en) == 1 and st:
                self.names[en[0]] = st[0]
                self.locs[('name', en[0])] = loc
        if len(self.parent) < 4:
            raise AnalysisBroken('variable category registrations not found')

    def expand(self, t):
        out = {t}
        for c in self.parent:
            x = c
            n = 0
            while x in self.parent and n < 20:
                if x == t:
                    out.add(c)
                    break
                x = self.parent[x]
                n += 1
        return frozenset(out)

    def partner(self, t):
        if t.startswith('Pre'):
            return 'Post' + t[3:]
        if t.startswith('Post'):
            return 'Pre' + t[4:]
        if t.endswith('Pre'):
            return t[:-3] + 'Post'
        if t.endswith('Post'):
            return t[:-4] + 'Pre'
        return None


STD_LEAVES = ('PreInput', 'PreOutput', 'PostInput', 'PostOutput')

# categories each input formula may mention, per section (see the section checks)
STD_SUPP = {
    'initEnv': ('PreInput',),
    'initSys': ('PreInput', 'PreOutput'),
    'safetyEnv': ('PreInput', 'PreOutput', 'PostInput'),
    'safetySys': ('PreInput', 'PreOutput', 'PostInput', 'PostOutput'),
    'livenessAssumptions': ('PreInput', 'PreOutput', 'PostInput', 'PostOutput'),
    'livenessGuarantees': ('PreInput', 'PreOutput', 'PostInput', 'PostOutput'),
    'winningPositions': ('PreInput', 'PreOutput'),
}


class Model:
    def __init__(self, P, M, leaves=STD_LEAVES, supp=None, reg=None, nonempty=('livenessAssumptions', 'livenessGuarantees')):
        self.P, self.M = P, M
        self.reg = reg or Registry(P)
        self.leaves = frozenset(leaves)
        self.allcats = self.leaves
        self.supps = {}
        for k, v in dict(STD_SUPP, **(supp or {})).items():
            s = set()
            for t in v:
                s |= self.reg.expand(t)
            self.supps[k] = frozenset(s) & self.leaves
        self.ne = set(nonempty)
        M.allcats = self.allcats
        M.nonempty_hook = self.nonempty
        self.assigned = {}

    def nonempty(self, cont):
        if cont[0] == 'cont' and cont[1] in self.ne:
            return 1
        if cont[0] == 'seq':
            for it in cont[1]:
                if it[0] == 'item':
                    return 1
                if it[0] == 'all' and self.nonempty(it[1]) == 1:
                    return 1
                if it[0] == 'for' and self.dom_nonempty(it[1]) == 1 and it[3] and it[3][0][0] == 'item':
                    return 1
            if not cont[1]:
                return 0
        return None

    def dom_nonempty(self, dom):
        return self.M.nonempty(dom)

    def expand(self, ts):
        s = set()
        for t in ts:
            s |= self.reg.expand(t)
        return frozenset(s) & self.leaves

    def supp(self, name):
        return self.supps.get(name, self.allcats)

    def contsupp(self, cont):
        if cont[0] in ('cont', 'csym') and isinstance(cont[1], str):
            if cont[1] in self.supps:
                return self.supps[cont[1]]
            if cont in self.assigned:
                return self.assigned[cont]
            return self.allcats
        if cont[0] == 'upd':
            return self.contsupp(cont[1])
        if cont[0] == 'seq':
            s = frozenset()
            for it in cont[1]:
                s |= self._partsupp(it)
            return s
        if cont[0] == 'vars':
            return frozenset(cont[1])
        if cont[0] == 'fill' and cont[2][0] in ('bf', 'b'):
            return self.M.supp(cont[2][1])
        return self.allcats

    def _partsupp(self, it):
        if it[0] == 'item':
            return self.M.supp(it[1][1]) if it[1][0] in ('bf', 'b') else self.allcats
        if it[0] == 'all':
            return self.contsupp(it[1])
        if it[0] in ('for', 'cond'):
            s = frozenset()
            parts = it[3] if it[0] == 'for' else it[2] + it[3]
            for x in parts:
                s |= self._partsupp(x)
            return s
        return self.allcats

    def projsupp(self, v, f):
        return self.allcats

    def enums_in(self, init):
        return [e['n'] for e in walk(init) if e.get('k') == 'enum']

    def field(self, I, cls, name, t, f):
        if t in ('SlugsVarCube', 'SlugsVarVector', 'SlugsVectorOfVarBFs') and f is not None:
            ts = self.enums_in(f.get('i')) if f.get('i') else []
            if not ts:
                ts = self.ctor_enums(I, cls, name)
            if not ts:
                raise AnalysisBroken('no variable categories found for %s::%s' % (cls, name))
            if t == 'SlugsVarCube':
                return ('cube', self.expand(ts))
            if t == 'SlugsVarVector':
                return ('vec', tuple(ts))
            return ('vars', tuple(sorted(self.expand(ts))))
        return None

    def ctor_enums(self, I, cls, name):
        for f in self.P.fns.values():
            if f.get('ctor') and f.get('c') == cls:
                for i in f.get('inits', []):
                    if i.get('m') == name:
                        ts = self.enums_in(i['e'])
                        if ts:
                            return ts
        return []

    def pairs(self, a, b):
        if a[0] != 'vec' or b[0] != 'vec' or len(a[1]) != len(b[1]):
            return None
        out = set()
        for x, y in zip(a[1], b[1]):
            if not self._pair(x, y, out):
                return None
        # a category swapped with two different ones is not a renaming
        seen = set()
        for p in out:
            if len(p) != 2 or p & seen:
                return None
            seen |= p
        return frozenset(out)

    def _pair(self, x, y, out):
        ex, ey = self.reg.expand(x) & self.leaves, self.reg.expand(y) & self.leaves
        if len(ex) == 1 and len(ey) == 1:
            out.add(frozenset([list(ex)[0], list(ey)[0]]))
            return True
        # match by partner name; the top pair is (x,y)
        m = {}
        for c in ex:
            p = y if c == x else self.reg.partner(c)
            if p not in ey:
                return False
            m[c] = p
        if set(m.values()) != set(ey):
            return False
        for c, p in m.items():
            out.add(frozenset([c, p]))
        return True

    def cubeof(self, args):
        return None

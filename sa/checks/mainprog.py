"""The main program: one abstract run of `main` with ghost variables for what has happened so far (C13, C15)."""
from ..engine import *
from ..load import program, AnalysisBroken
from ..absint import EMPTY

GHOSTS = ('usage', 'init', 'cvi', 'execute', 'err', 'late')


class MainRun:
    def __init__(self, P):
        self.P = P
        fs = [f for f in P.fns.values() if f['q'] == 'main' and f.get('body') is not None]
        if len(fs) != 1:
            raise AnalysisBroken('main function not found')
        self.f = fs[0]
        self.calls = []
        self.left = None

        def setg(st, n):
            self.I.write(st, (('gh', n), ()), ('b', 1))

        def hook(n, then=None):
            def h(I, st, this, args, e):
                self.calls.append((n, st.pc, this, tuple(args), I.loc(e), len(I.trystack),
                                   {g: I.get(st, ('gh', g))[1] for g in GHOSTS}))
                I.events.append((st.pc, 'call:' + n, (this,) + tuple(args), I.loc(e)))
                if n == 'init':
                    lv = I.lval(e['a'][0], st) if e.get('a') else None
                    if lv is not None:
                        self.left = ('csym', 'files left')
                        I.write(st, lv, self.left)
                setg(st, n)
                return ('void',)
            return h

        def out(st, name, v):
            if name == ('stream', 'std::cerr') and st.pc != 1 and v[0] == 'str' and v[1].strip():
                setg(st, 'err')
        hooks = {'printToolUsageHelp': hook('usage'), 'GR1Context::init': hook('init'), 'GR1Context::execute': hook('execute'),
                 'SlugsVariableManager::computeVariableInformation': hook('cvi'), 'GR1Context::computeVariableInformation': hook('cvi')}
        s = Session(P, 'GR1Context', hooks=hooks)
        self.s, self.M, self.I = s, s.M, s.I
        env = {}
        for n in GHOSTS:
            env[('gh', n)] = ('b', 0)
            s.I.types[('gh', n)] = 'bool'
        s.I.on_output = out
        self.st = self.ret = None
        self.st, self.ret = s.I.run(self.f, env=env)
        # a call inside a loop is seen several times while the loop is summarised: the last one counts
        self.calls = list({(c[0], c[4]): c for c in self.calls}.values())
        if self.st is None:
            raise AnalysisBroken('main has no normal end')
        s.st = self.st
        self.where = '%s:%s' % (P.rel(self.f['file']), self.f['l'])
        self.notes = s.notes()

    def ghost(self, n):
        return self.I.get(self.st, ('gh', n))[1]

    def when(self, pred, v=None):
        """(condition that the exit status satisfies pred, all values constant?)"""
        v = self.ret if v is None else v
        M = self.M
        if v[0] == 'c':
            return (1 if pred(v[1]) else 0), True
        if v[0] == 'iite':
            a, x = self.when(pred, v[2])
            b, y = self.when(pred, v[3])
            return M.ite(v[1][1], a, b), x and y
        return 0, False

    def known_atoms(self, b, phi=False):
        """are all atoms of the condition of the vocabulary this analysis decides on?"""
        M = self.M
        for a in M.atoms_of(b):
            k = M.atoms[a]
            if k[0] == 'cmp':
                if not all(self.known_term(x) for x in k[2:4]):
                    return False
            elif k[0] == 'big':
                if not self.known_term(k[1]) or not self.known_atoms(k[3]):
                    return False
            elif not (phi and k[0] == 'phi'):
                return False
        return True

    def known_term(self, t):
        if not isinstance(t, tuple) or not t:
            return True
        if t[0] in ('c', 'str', 'bi'):
            return True
        if t[0] == 's':
            x = t[1]
            return isinstance(x, str) and x.startswith('ix#') or x[0] in ('param', 'glob', 'bi')
        if t[0] in ('range', 'elem', 'add', 'lin', 'size'):
            return all(self.known_term(x) if isinstance(x, tuple) else True for x in t[1:])
        if t[0] == 'fun' and t[1] in ('proj', 'str', 'deref'):
            return all(self.known_term(x) for x in t[2:])
        if t[0] in ('stream', 'csym', 'seq', 'for', 'item'):
            return True
        return False

    def unknown_argument(self):
        """some command line argument starts with - and is not in the list of declared options"""
        M = self.M
        arg = ('elem', ('s', ('param', 'args')), ('add', ('s', 'mp'), ('c', 1)))
        dash = M.cmp('==', ('elem', arg, ('c', 0)), ('c', ord('-')))
        n = table_strings(self.P)
        f = dash
        for i in range(0, len(n), 2):
            f = M.AND(f, M.NOT(M.cmp('==', ('elem', ('s', ('glob', 'commandLineArguments')), ('c', i)), arg)))
        return M.mkbig(('range', ('add', ('s', ('param', 'argc')), ('c', -1))), 'mp', f)

    def row_matches(self, total, n):
        M = self.M
        return [M.cmp('==', ('fun', 'proj', ('elem', ('s', ('glob', 'optionCombinations')), ('c', i)), 'params'), total) for i in range(n)]


def table_strings(P):
    g = P.globals.get('commandLineArguments')
    if g is None or 'i' not in g:
        raise AnalysisBroken('table of command line arguments not found')
    return [x['v'] for x in walk(g['i']) if x.get('k') == 'str']

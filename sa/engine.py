"""Shared analysis sessions: one abstract interpretation of a method of a mode's class."""
from . import load
from .terms import Mgr, EMPTY
from .model import Model, Registry, walk, STD_LEAVES
from .absint import Interp, strip_t
from .canon import Canon
from .refs import Ref
from .load import AnalysisBroken

_P = None


def program():
    global _P
    if _P is None:
        _P = load.program()
    return _P


# ------------------------------------------------------------------ option table
class Combo:
    __slots__ = ('params', 'cls', 'loc', 'opts')


def combos(P):
    g = P.globals.get('optionCombinations')
    if g is None or 'i' not in g:
        raise AnalysisBroken('table of option combinations not found')
    out = []
    for e in walk(g['i']):
        if e.get('k') == 'ctor' and e.get('n') == 'OptionCombination' and len(e.get('a', [])) == 2:
            st = [x['v'] for x in walk(e['a'][0]) if x.get('k') == 'str']
            fr = [x for x in walk(e['a'][1]) if x.get('k') == 'fref']
            if len(st) != 1 or len(fr) != 1:
                continue
            c = Combo()
            c.params = st[0]
            c.opts = frozenset(st[0].split())
            c.loc = '%s:%s' % (P.rel(g['file']), e['l'])
            c.cls = factory_class(P, fr[0]['f'])
            out.append(c)
    if len(out) < 30:
        raise AnalysisBroken('only %d option combinations found' % len(out))
    return out


def factory_class(P, usr):
    f = P.fns.get(usr)
    if f is None or f.get('body') is None:
        return None
    news = [x['t'] for x in walk(f['body']) if x.get('k') == 'new']
    return news[0] if len(set(news)) == 1 else None


def declared_options(P):
    g = P.globals.get('commandLineArguments')
    if g is None or 'i' not in g:
        raise AnalysisBroken('table of command line arguments not found')
    return [(x['v'], x['l']) for x in walk(g['i']) if x.get('k') == 'str' and x['v'].startswith('--')]


# ------------------------------------------------------------------ sessions
FS_LEAVES = ('PreInput', 'PostInput', 'PreOutputFast', 'PreOutputSlow', 'PostOutputFast', 'PostOutputSlow')
IL_LEAVES = ('PreInput', 'PostInput', 'PreOutputBefore', 'PreOutputAfter', 'PostOutputBefore', 'PostOutputAfter')
ND_LEAVES = ('PreInput', 'PostInput', 'PreMotionState', 'PostMotionState', 'PreMotionControlOutput',
             'PostMotionControlOutput', 'PreOtherOutput', 'PostOtherOutput')


def leaves_for(P, cls):
    anc = [cls] + list(P.ancestors(cls))
    if any(a.startswith('XIROSFS<') for a in anc):
        return FS_LEAVES
    if any(a.startswith('XInterleave<') for a in anc):
        return IL_LEAVES
    if any(a.startswith('XNonDeterministicMotion<') for a in anc):
        return ND_LEAVES
    return STD_LEAVES


def quiet_hook(I, st, this, args, e):
    return ('void',)


def event_hook(name):
    def h(I, st, this, args, e):
        I.events.append((st.pc, 'call:' + name, tuple(args), I.loc(e)))
        return ('void',)
    return h


STD_HOOKS = {
    'BF_newDumpDot': quiet_hook,
    'SlugsVariableManager::computeVariableInformation': event_hook('computeVariableInformation'),
}


class Session:
    def __init__(self, P, cls, leaves=None, supp=None, hooks=None, nonempty=None, warm=False):
        self.P, self.cls = P, cls
        self.M = Mgr()
        kw = {}
        if nonempty is not None:
            kw['nonempty'] = nonempty
        self.mo = Model(P, self.M, leaves=leaves or leaves_for(P, cls), supp=supp, **kw)
        self.I = Interp(P, self.M, cls, self.mo)
        self.I.warm = warm
        for k, v in STD_HOOKS.items():
            self.I.hooks[k] = v
        for k, v in (hooks or {}).items():
            if v is None:
                self.I.hooks.pop(k, None)
            else:
                self.I.hooks[k] = v
        self.C = Canon(self.M, self.I)
        self.R = Ref(self.M, self.mo)
        self.st = None

    def run(self, method, env=None, args=()):
        f = self.P.find_method(self.cls, method)
        if f is None:
            raise AnalysisBroken('%s has no method %s' % (self.cls, method))
        self.fn = f
        self.st, self.ret = self.I.run(f, args=args, env=env)
        return self

    def field(self, name, owner=None):
        """value of field `name` after the run (most derived class first)"""
        if self.st is None:
            return None
        order = [owner] if owner else [self.cls] + list(self.P.ancestors(self.cls))
        for c in order:
            if self.I.field_info(c, name) is not None:
                return self.I.get(self.st, ('F', c, name))
        return None

    def generic(self):
        return [n[1] for n in self.I.loops if n[0] == 'generic']

    def notes(self):
        return ['%s (%s)' % n for n in self.I.notes]

    def functions(self):
        return sorted(set(c[0] for c in self.I.calls))

    def writer(self, name):
        """functions analysed that mention the field (for reports)"""
        out = set()
        for q, _, usr in self.I.calls:
            f = self.P.fns.get(usr)
            if f is None:
                continue
            for e in walk(f.get('body')):
                if e.get('k') == 'mem' and e.get('n') == name:
                    out.add('%s (%s:%s)' % (q, self.P.rel(f['file']), f['l']))
                    break
        return sorted(out)


# ------------------------------------------------------------------ execute with an abstract realizability check
def solver_hook(I, st, this, args, e):
    """checkRealizability as an oracle: verdict and winning region become inputs (they are decided by C01..C03)"""
    M = I.M
    I.events.append((st.pc, 'call:checkRealizability', (), I.loc(e)))
    st.env[('F', 'GR1Context', 'realizable')] = ('b', M.base(('fld', 'realizable'), EMPTY))
    st.env[('F', 'GR1Context', 'winningPositions')] = ('bf', M.base('winningPositions', I.model.supp('winningPositions')))
    for c in [I.dyn] + list(I.P.ancestors(I.dyn)):
        if I.field_info(c, 'strategyDumpingData') is not None:
            st.env.pop(('F', c, 'strategyDumpingData'), None)
    return ('void',)


def exec_session(cls, method='execute', hooks=None, **kw):
    P = program()
    h = {}
    for c in [cls] + list(P.ancestors(cls)):
        h[c + '::checkRealizability'] = solver_hook
    h.update(hooks or {})
    return Session(P, cls, hooks=h, **kw).run(method)


def pick_hook(I, st, this, args, e):
    """determinize(set, variables): some element of the set, restricted in the given variables (its own contract is a
    separate obligation)"""
    M = I.M
    f = I.tobf(args[0])
    v = args[1]
    I.events.append((st.pc, 'call:pick', (('bf', f), v), I.loc(e)))
    if f == 0:
        return ('bf', 0)
    return ('bf', M.fun('pick', (('bf', f), v), M.supp(f) | frozenset(I.model.contsupp(v) if v[0] in ('vars', 'cont', 'seq') else I.model.allcats)))


PICK_HOOKS = {'GR1Context::determinize': pick_hook, 'GR1Context::determinizeRandomized': pick_hook}


def pick_facts(M, a, key):
    if key[0] == 'fun' and key[1] == 'pick':
        f = key[2][0][1]
        f = M.swap(key[4], f) if key[4] else f
        return M.IMP(M.mk(a, 1, 0), f)
    return None


def addvar_hook(I, st, this, args, e):
    """addVariable(type, name): appends to the three variable lists (its own contract is a separate obligation)"""
    M = I.M
    typ, name = args
    key = [('F', 'SlugsVariableManager', n) for n in ('variables', 'variableNames', 'variableTypes')]
    vs = [I.get(st, k) for k in key]
    num = I.size(vs[0])
    I.events.append((st.pc, 'call:addVariable', (typ, name, num), I.loc(e)))
    new = (('bf', M.base(('newvar', typ, name), I.model.allcats)), name, typ)
    for k, v, x in zip(key, vs, new):
        st.env[k] = ('seq', I.seqparts(v) + (('item', x),))
        I.writes.append((k, ()))
    return num


ADDVAR_HOOKS = {'SlugsVariableManager::addVariable': addvar_hook}

"""Reference tables for the specification readers (used by C10, C11)."""
from .readers import *
from ..canon import opaque

# section -> variable categories declared by a line (name, name')
DECL = {
    '[INPUT]': ('PreInput', 'PostInput'), '[OUTPUT]': ('PreOutput', 'PostOutput'),
    '[OUTPUT_F]': ('PreOutputFast', 'PostOutputFast'), '[OUTPUT_S]': ('PreOutputSlow', 'PostOutputSlow'),
    '[OBSERVABLE_INPUT]': ('ObservablePre', 'ObservablePost'), '[UNOBSERVABLE_INPUT]': ('UnobservablePre', 'UnobservablePost'),
    '[CONTROLLABLE_INPUT]': ('ControllablePre', 'ControllablePost'),
    '[MOTION STATE OUTPUT]': ('PreMotionState', 'PostMotionState'), '[MOTION CONTROLLER OUTPUT]': ('PreMotionControlOutput', 'PostMotionControlOutput'),
    '[OTHER OUTPUT]': ('PreOtherOutput', 'PostOtherOutput'),
}
ESTIMATION = ('EstimationPre', 'EstimationPost')      # [OUTPUT] of the incomplete-information mode
INPUTS = ('[INPUT]', '[OBSERVABLE_INPUT]', '[UNOBSERVABLE_INPUT]', '[CONTROLLABLE_INPUT]')
# section -> (part of the specification, how a line enters it)
PART = {'[ENV_INIT]': ('initEnv', 'and'), '[SYS_INIT]': ('initSys', 'and'), '[ENV_TRANS]': ('safetyEnv', 'and'), '[SYS_TRANS]': ('safetySys', 'and'),
        '[ENV_LIVENESS]': ('livenessAssumptions', 'push'), '[SYS_LIVENESS]': ('livenessGuarantees', 'push')}
CORE = set(p for p, _ in PART.values()) | {'variables', 'variableNames', 'variableTypes'}


def decl(tags):
    """{variable section: (current, next) categories} of a reader that knows the given sections"""
    d = {t: DECL[t] for t in tags if t in DECL}
    if '[OBSERVABLE_INPUT]' in d and '[OUTPUT]' in d:
        d['[OUTPUT]'] = ESTIMATION
    return d


def allowed(sec, d):
    """categories a line of the section may mention"""
    motion = '[MOTION STATE OUTPUT]' in d
    inp = [c for t, c in d.items() if t in INPUTS]
    out = [c for t, c in d.items() if t not in INPUTS and t != '[MOTION CONTROLLER OUTPUT]']
    pre = set(c[0] for c in inp)
    if sec == '[ENV_INIT]':
        # with physical motion or an unobservable plant, the state (and nothing else) belongs to the environment as well
        return pre | (set(c[0] for c in out) if motion else set())
    pre |= set(c[0] for c in out)
    if sec == '[SYS_INIT]':
        return pre
    nxt = set(c[1] for c in inp)
    if sec == '[ENV_TRANS]':
        return pre | nxt | (set(c[1] for c in out) if motion else set())
    if motion and sec == '[ENV_LIVENESS]':
        return pre | nxt
    nxt |= set(c[1] for c in out)
    if motion:
        nxt.add('PostMotionControlOutput')
    return pre | nxt


EXPECTED = ('GR1Context', 'XAnalyzeAssumptions<', 'XAnalyzeInitialPositions<', 'XIROSFS<', 'XIncompleteInformationEstimatorSynthesis<', 'XNonDeterministicMotion<')


def readers(P):
    """one class per specification reader function"""
    out = {}
    for c in sorted(P.classes):
        if not any(x == 'GR1Context' for x in [c] + list(P.ancestors(c))):
            continue
        f = P.find_method(c, 'init')
        if f is None or not reads_spec(P, f):
            continue
        key = (f['file'], f['l'])
        if key not in out or (len(c), c) < (len(out[key]), out[key]):
            out[key] = c
    return sorted(set(out.values()))


def reads_spec(P, f, depth=3, seen=None):
    seen = seen if seen is not None else set()
    if f is None or id(f) in seen:
        return False
    seen.add(id(f))
    for e in walk(f.get('body')):
        if e.get('k') == 'str' and e.get('v') in ('[ENV_INIT]', '[SYS_TRANS]'):
            return True
        if depth and e.get('k') in ('call', 'mcall') and e.get('f') and e.get('n') != 'init':
            if reads_spec(P, P.fns.get(e['f']), depth - 1, seen):
                return True
    return False


_sessions = {}


def reader(P, cls):
    if cls not in _sessions:
        _sessions[cls] = Reader(reader_session(P, None, cls))
    return _sessions[cls]

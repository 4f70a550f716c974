"""C04: verdict text and strategy output are gated by realizability."""
from ..engine import exec_session, program, combos
from ..load import AnalysisBroken
from ..canon import opaque
from .verdict import locof

import re

# modes that print a verdict
WANT = ('', '--explicitStrategy', '--symbolicStrategy', '--simpleSymbolicStrategy', '--extractExplicitPermissiveStrategy',
        '--counterStrategy', '--IROSfastslow', '--biasForAction', '--fixedPointRecycling', '--cooperativeGR1Strategy',
        '--sysInitRoboticsSemantics', '--twoDimensionalCost', '--nonDeterministicMotion')


def texts(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'str' and isinstance(v[1], str):
            yield v[1]
        else:
            for x in v:
                yield from texts(x)


def is_err(stream):
    return 'cerr' in str(stream) or 'clog' in str(stream)


def is_out(stream):
    s = str(stream)
    return 'cout' in s or 'ofstream' in s or 'fopen' in s


def check(r, tier):
    P = program()
    r.rule('along every path of execute(): the text "is realizable"/"is unrealizable" is printed exactly when the verdict '
           'computed by checkRealizability is true/false, once, and nothing is written to standard output or to an output '
           'file unless the verdict is the one the artefact needs (realizable; unrealizable for --counterStrategy)')
    n = 0
    for c in combos(P):
        if c.cls is None:
            r.undec('%s: mode' % c.params, 'factory does not create one class', c.loc)
            continue
        main = [o for o in c.opts if o not in ('--jsonOutput', '--simpleRecovery')]
        if any(o not in WANT for o in main):
            continue
        f = P.find_method(c.cls, 'execute')
        one(r, P, c, f)
        n += 1
    if n < 8:
        raise AnalysisBroken('only %d modes analysed' % n)
    r.count('modes', n)


def one(r, P, c, f):
    s = exec_session(c.cls)
    M, I = s.M, s.I
    name = c.params or '(no options)'
    real = s.R.flag('realizable')
    want = M.NOT(real) if '--counterStrategy' in c.opts else real
    where = locof(P, f)
    r.listed('functions', s.functions())
    yes = no = 0
    overlap = False
    calls = 0
    nev = 0
    for pc, stream, val, loc in I.events:
        if stream == 'call:checkRealizability':
            calls = M.OR(calls, pc)
            continue
        if is_err(stream):
            t = ' '.join(texts(val))
            if re.search(r'\bis realizable', t):
                overlap |= M.AND(yes, pc) != 0
                yes = M.OR(yes, pc)
            if re.search(r'\bis unrealizable', t):
                overlap |= M.AND(no, pc) != 0
                no = M.OR(no, pc)
        elif is_out(stream) or (isinstance(stream, str) and stream.startswith('open:') and 'ofstream' in stream):
            nev += 1
            if M.AND(pc, M.NOT(want)) != 0:
                if opaque(M, ('b', pc)) and not M.implies(pc, want):
                    # a guard that never tests the verdict can not be a gate
                    if M.atoms_of(real) & M.atoms_of(pc):
                        r.undec('%s: output at %s' % (name, loc), 'guard not understood: %s' % M.show(pc, 4), loc)
                        continue
                r.violation('%s: output at %s' % (name, loc.split(':')[0]), loc,
                            'strategy output only when the specification is %s' % ('unrealizable' if want != real else 'realizable'),
                            'output written under: %s' % M.show(pc, 5))
    for what, got, ref in (('realizable', yes, real), ('unrealizable', no, M.NOT(real))):
        nm = '%s: text "%s"' % (name, what)
        if got == ref and not overlap:
            r.ok(nm, where)
        elif opaque(M, ('b', got)):
            r.undec(nm, 'guard not understood: %s' % M.show(got, 4), where)
        else:
            r.violation(nm, where, 'verdict text printed exactly once, exactly when it is the verdict',
                        'printed under: %s%s' % (M.show(got, 6), ' (more than once)' if overlap else ''))
    if calls == 1:
        r.ok('%s: verdict computed before output' % name, where)
    elif opaque(M, ('b', calls)):
        r.undec('%s: verdict computed' % name, M.show(calls, 4), where)
    else:
        r.violation('%s: verdict computed' % name, where, 'the realizability check runs on every path of execute()', M.show(calls, 5))
    r.count('output statements (with contexts)', nev)

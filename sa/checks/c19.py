"""C19: strategies and counterstrategies are written as well-formed documents of their format."""
from ..engine import program, combos
from ..load import AnalysisBroken
from ..outlang import Exec, Regex, Json, Undecided, EXPLICIT, COUNTER, PERMISSIVE, COMMENT, MON_DEAD
from .verdict import locof

FORMATS = {
    'json': ('the JSON strategy format: an object with the variable names and one entry per state with its rank, its valuation and its successors, '
             'comma-separated', Json),
    'explicit': ('the text strategy format: one line per state with number, rank and valuation, and one line with its successors', lambda: Regex(EXPLICIT)),
    'counter': ('the text counterstrategy format: one line per state with number, ranks and valuation, and one line with its successors', lambda: Regex(COUNTER)),
    'permissive': ('the permissive strategy format: per state a header, a valuation line, one line per successor and an empty line', lambda: Regex(PERMISSIVE)),
    'symbolic': ('the header of a symbolic strategy file: comment lines only', lambda: Regex(COMMENT)),
}


def fmt(c):
    o = c.opts
    if '--explicitStrategy' in o and '--counterStrategy' in o:
        return 'counter'
    if '--explicitStrategy' in o:
        return 'json' if '--jsonOutput' in o else 'explicit'
    if any('ermissive' in x for x in o):
        return 'permissive'
    if any(x in ('--symbolicStrategy', '--simpleSymbolicStrategy') for x in o):
        return 'symbolic'
    return None


def exported_streams(P, f):
    """locals whose text is handed to the BDD file writer"""
    out = {}
    w = [(f, f['body'])]
    fns = {f['f']}
    while w:
        f, e = w.pop()
        if isinstance(e, dict):
            if e.get('k') in ('mcall', 'call') and e.get('n') == 'writeBDDToFile':
                q = list(e.get('a', ()))
                while q:
                    x = q.pop()
                    if isinstance(x, dict):
                        if x.get('k') == 'mcall' and x.get('n') == 'str':
                            b = x['b']
                            while b and b['k'] in ('icast', 'cast', 'copy'):
                                b = b['e']
                            if b and b['k'] == 'var':
                                out[b['d']] = f
                        q += [v for v in x.values() if isinstance(v, (dict, list))]
                    elif isinstance(x, list):
                        q += x
            g = P.fns.get(e.get('f')) if e.get('k') in ('mcall', 'call') else None
            if g is not None and g['f'] not in fns and g.get('c') == f.get('c'):
                fns.add(g['f'])
                w.append((g, g['body']))
            w += [(f, v) for v in e.values() if isinstance(v, (dict, list))]
        elif isinstance(e, list):
            w += [(f, v) for v in e if isinstance(v, (dict, list))]
    return out


def check(r, tier):
    P = program()
    r.rule('typestate of the output stream: every sequence of writes that the syntax tree allows (helpers inlined; flags, constant strings, small '
           'counters and emptiness of local lists tracked) stays within the prefixes of well-formed documents and ends with a complete one')
    n = 0
    for c in combos(P):
        k = fmt(c)
        if k is None or c.cls is None:
            continue
        f = P.find_method(c.cls, 'execute')
        if f is None:
            continue
        n += 1
        one(r, P, c, f, k)
    if n < 5:
        raise AnalysisBroken('strategy output modes not found')


def one(r, P, c, f, k):
    text, mk = FORMATS[k]
    where = locof(P, f)
    if k == 'symbolic':
        ds = exported_streams(P, f)
        if not ds:
            r.undec('%s: output' % c.params, 'header stream not recognised', where)
            return
        f = list(ds.values())[0]
        sink = lambda e: e.get('decl') and e['d'] in ds
    else:
        sink = lambda e: e.get('q') == 'std::cout' or e.get('decl') and 'ofstream' in e['t']
    x = Exec(P, mk(), sink, where, c.cls)
    nm = '%s: output is %s' % (c.params, k)
    try:
        ends = x.run(f)
    except Undecided as u:
        r.undec(nm, str(u), where)
        return
    r.listed('functions', sorted(x.functions))
    r.count('write operations followed', x.writes)
    if x.writes == 0:
        r.undec(nm, 'no output recognised', where)
        return
    if x.bad:
        fn, line, got, file = sorted(x.bad, key=lambda b: b[1])[0]
        r.violation('%s: %s' % (c.params, fn.split('::')[-1]), '%s:%s' % (P.rel(file), line), text[0].upper() + text[1:],
                    '%s can write %r where this is not allowed' % (fn, got[:60]))
        return
    fin = [e for e in ends if e[1] != MON_DEAD and e[1] != x.mon.start and not x.mon.done(e[1])]
    if fin and not all(e[2] for e in fin):
        r.violation('%s: end of output' % c.params, where, text[0].upper() + text[1:], 'the document can end before it is complete (%s)' % describe(x.mon, [e for e in fin if not e[2]][0][1]))
        return
    if x.notes or x.lostbad or fin:
        r.undec(nm, '; '.join(sorted(x.notes)[:2]) or 'depends on values that are not tracked', where)
        return
    good = [e for e in ends if e[1] != x.mon.start and x.mon.done(e[1])]
    if k == 'json' and not good:
        r.undec(nm, 'no complete document found', where)
        return
    r.ok(nm, where)


def describe(mon, st):
    if isinstance(mon, Json):
        return 'open at the end: %s' % ', '.join(t[0] for t in st[1:])
    return 'inside an entry'

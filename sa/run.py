"""python3-vt -m sa.run <property> [quick|thorough]"""
import sys, os, json, time, importlib, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.violations = []      # dicts: key, where, rule, detail
        self.undecided = []
        self.obligations = []     # (name, status, where)
        self.analysed = {}
        self.rules = []
        self.notes = []

    def rule(self, text):
        self.rules.append(text)

    def ok(self, name, where=''):
        self.obligations.append((name, 'holds', where))

    def violation(self, key, where, rule, detail):
        self.obligations.append((key, 'VIOLATED', where))
        self.violations.append({'key': key, 'where': where, 'rule': rule, 'detail': detail})

    def undec(self, name, why, where=''):
        self.obligations.append((name, 'undecided', where))
        self.undecided.append({'obligation': name, 'why': why, 'where': where})

    def count(self, what, n):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def listed(self, what, xs):
        self.analysed.setdefault(what, [])
        for x in xs:
            if x not in self.analysed[what]:
                self.analysed[what].append(x)


def known_findings():
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            return json.load(f)
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    r = Report(pid, tier)
    from .load import AnalysisBroken
    try:
        mod = importlib.import_module('sa.checks.' + pid.lower())
        mod.check(r, tier)
    except AnalysisBroken as ex:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, ex))
        if not r.violations:
            return 3
        r.undec('rest of the analysis', str(ex))
    except Exception as ex:
        traceback.print_exc()
        print('ANALYSIS-INCOMPLETE property=%s internal error' % pid)
        if not r.obligations:
            return 3
        r.undec('rest of the analysis', 'internal error: %r' % (ex,))
    wall = time.time() - t0
    kf = {f['key']: f for f in known_findings()['findings'] if f['property'] == pid}
    new, seen = [], set()
    for v in r.violations:
        if v['key'] in kf:
            if v['key'] not in seen:
                print('KNOWN-FINDING: property=%s %s' % (pid, kf[v['key']]['what']))
                seen.add(v['key'])
        else:
            new.append(v)
    print('%s (%s): %d obligations, %d hold, %d violated (%d known), %d undecided; %.1f s' % (
        pid, tier, len(r.obligations), sum(o[1] == 'holds' for o in r.obligations), len(r.violations),
        len(r.violations) - len(new), len(r.undecided), wall))
    for k, v in r.analysed.items():
        print('  analysed %s: %s' % (k, v if not isinstance(v, list) else '%d: %s' % (len(v), ', '.join(map(str, v))[:600])))
    for u in r.undecided[:40]:
        print('  UNDECIDED %s: %s %s' % (u['obligation'], u['why'], u['where']))
    # evidence
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source tree. Rules: ' + ' | '.join(r.rules),
            'analysed': r.analysed,
            'obligations': len(r.obligations),
            'discharged': sum(o[1] == 'holds' for o in r.obligations),
            'undecided': r.undecided,
            'obligation_list': [{'name': o[0], 'status': o[1], 'where': o[2]} for o in r.obligations][:400],
        },
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    path = os.path.join(VERIF, 'evidence', pid + '.json')
    if new:
        rp = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(rp, exist_ok=True)
        rf = os.path.join(rp, '%s.txt' % pid)
        with open(rf, 'w') as f:
            for v in new:
                f.write('property %s\nrule: %s\nwhere: %s\ninstance: %s\n%s\n\n' % (pid, v['rule'], v['where'], v['key'], v['detail']))
            f.write('reproduce: cd /verif && python3-vt -m sa.run %s %s\n' % (pid, tier))
        for v in new[:12]:
            print('  %s: %s [%s]' % (v['where'], v['rule'], v['key']))
            print('     ' + v['detail'].replace('\n', '\n     ')[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, rf))
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1)
    if not r.obligations:
        print('ANALYSIS-BROKEN property=%s no obligations' % pid)
        return 3
    return 1 if new else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

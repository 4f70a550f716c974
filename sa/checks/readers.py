"""Section tables of the specification readers: for every section tag the state the reader goes to, and for a line in that
state the variables it declares, the formula contexts it parses the line in and the specification parts it changes."""
from .verdict import *
from ..engine import *
from ..terms import EMPTY


def parse_hook(I, st, this, args, e):
    M = I.M
    I.events.append((st.pc, 'call:parse', tuple(args), I.loc(e)))
    return ('bf', M.fun('parse', tuple(args), I.model.allcats))


def reader_session(P, owner, cls):
    h = dict(PICK_HOOKS)
    h.update(ADDVAR_HOOKS)
    h['GR1Context::parseBooleanFormula'] = parse_hook
    for c in [cls] + list(P.ancestors(cls)):
        h[c + '::parseBooleanFormula'] = parse_hook
        h[c + '::parseBooleanFormulaEx'] = parse_hook
        h[c + '::computeVariableInformation'] = lambda I, st, this, args, e: ('void',)
    s = Session(P, cls, hooks=h)
    return s.run('init')


class Reader:
    """the line loop of a reader"""

    def __init__(self, s):
        self.s, self.M, self.I = s, s.M, s.I
        M = self.M
        self.rec, self.tags, self.line = None, {}, None
        for rec in self.I.looprecs:
            tags = {}
            ats = set()
            for x in rec.leafs:
                if x[5] is not None:
                    M._nested(x[5], set(), ats)
            for kind, pc, f in rec.flows:
                ats |= M.allatoms(pc)
            ats |= M.allatoms(rec.cont)
            for e in self.I.events:
                if isinstance(e[1], str) and e[1].startswith('call:'):
                    ats |= M.allatoms(e[0])
            for a in ats:
                k = M.atoms[a]
                if k[0] == 'cmp' and k[1] == '==':
                    for u, v in ((k[2], k[3]), (k[3], k[2])):
                        if isinstance(v, tuple) and v[0] == 'str' and v[1].startswith('[') and v[1].endswith(']'):
                            tags.setdefault(v[1], set()).add((u, a))
            lines = set(u for t in tags.values() for u, a in t)
            if len(tags) > len(self.tags) and len(lines) == 1:
                self.rec, self.line = rec, lines.pop()
                self.tags = {t: set(a for u, a in v) for t, v in tags.items()}
        if self.rec is None:
            return
        self.lineatoms = set()
        for a in self._atoms():
            k = M.atoms[a]
            if k[0] == 'cmp':
                self.lineatoms.add(a)
        # the section state: scalar loop variables that decide what happens to a line
        self.state = []
        for x in self.rec.leafs:
            if x[2] in ('i', 'b') and x[5] is not None and x[5] != x[4]:
                sy = self.state_sym(x)
                if sy is not None:
                    self.state.append((x, sy))

    def state_sym(self, x):
        return ('sym', x[1]) if x[2] == 'i' else ('phi', x[1])

    def _atoms(self):
        M = self.M
        ats = set()
        for x in self.rec.leafs:
            if x[5] is not None:
                M._nested(x[5], set(), ats)
        for e in self.I.events:
            ats |= M.allatoms(e[0])
        for t in self.I.throws:
            ats |= M.allatoms(t[0])
        for kind, pc, f in self.rec.flows:
            ats |= M.allatoms(pc)
        return ats

    def ev(self, t, text):
        if t == self.line:
            return text
        if t[0] == 'str' or t[0] == 'c':
            return t[1]
        if t[0] == 'size':
            v = self.ev(t[1], text)
            return len(v) if isinstance(v, str) else None
        if t[0] == 'elem':
            v, i = self.ev(t[1], text), self.ev(t[2], text)
            return ord(v[i]) if isinstance(v, str) and isinstance(i, int) and 0 <= i < len(v) else None
        if t[:2] == ('fun', 'm:substr') and len(t) == 5:
            v, i, n = (self.ev(x, text) for x in t[2:])
            if isinstance(v, str) and isinstance(i, int) and i <= len(v):
                return v[i:i + n] if isinstance(n, int) and 0 <= n < 10**6 else v[i:]
        return None

    def test(self, k, text):
        """value of a comparison for a line with the given text; text None: any line that is neither empty, tag nor comment"""
        op = k[1]
        if text is not None:
            u, v = self.ev(k[2], text), self.ev(k[3], text)
            if u is None or v is None or type(u) != type(v):
                return None
            return int({'==': u == v, '<': u < v, '<=': u <= v}[op]) if op in ('==', '<', '<=') else None
        for u, v in ((k[2], k[3]), (k[3], k[2])):
            if op == '==':
                if u == self.line and v[0] == 'str' and (not v[1] or v[1][0] in '[#'):
                    return 0
                if v == ('elem', self.line, ('c', 0)) and u[0] == 'c' and u[1] in (ord('['), ord('#')):
                    return 0
                if v == ('size', self.line) and u == ('c', 0):
                    return 0
                if v[:3] == ('fun', 'm:substr', self.line) and v[3] == ('c', 0) and u[0] == 'str' and u[1] and u[1][0] in '[#':
                    return 0
        if op == '<' and k[2] == ('c', 0) and k[3] == ('size', self.line):
            return 1
        return None

    def assume(self, text):
        """assignment of the atoms that speak about the line; text: the line itself, None for an ordinary line"""
        asg = {}
        for a in self.lineatoms:
            v = self.test(self.M.atoms[a], text)
            if v is not None:
                asg[a] = v
        return asg

    def cond(self, f, asg, sm):
        M = self.M
        if sm:
            f = M.subst(f, sm, {})
        ch = True
        while ch:
            ch = False
            for a in M.atoms_of(f):
                if a in asg:
                    f = M.restrict(f, a, asg[a])
                    ch = True
                    break
        return f

    def simp(self, v, asg, sm):
        M = self.M
        if v is None:
            return None
        if sm:
            v = M.tsubst(v, sm, {})
        return self._simp(v, asg)

    def _simp(self, v, asg):
        M = self.M
        if v[0] in ('bf', 'b'):
            return (v[0], self.cond(v[1], asg, None))
        if v[0] == 'iite':
            c = self.cond(v[1][1] if isinstance(v[1], tuple) else v[1], asg, None)
            if c == 1:
                return self._simp(v[2], asg)
            if c == 0:
                return self._simp(v[3], asg)
            return ('iite', ('b', c), self._simp(v[2], asg), self._simp(v[3], asg))
        if v[0] == 'seq':
            return ('seq', self._parts(v[1], asg))
        return v

    def _parts(self, ps, asg):
        out = []
        for p in ps:
            if p[0] == 'cond':
                c = self.cond(p[1][1] if isinstance(p[1], tuple) else p[1], asg, None)
                if c == 1:
                    out += self._parts(p[2], asg)
                elif c == 0:
                    out += self._parts(p[3], asg)
                else:
                    out.append(('cond', ('b', c), self._parts(p[2], asg), self._parts(p[3], asg)))
            else:
                out.append(p)
        return tuple(out)

    def live(self, pc, asg, sm):
        """condition of an event inside the loop under the assumptions, relative to the loop being entered"""
        M = self.M
        f = self.cond(pc, asg, sm)
        base = self.cond(M.AND(self.rec.entry, self.rec.c), asg, sm)
        return self.I.care(f, base) if f else 0

    def loop_events(self):
        lo = self.rec.loc.rsplit(':', 1)[0]
        for e in self.I.events:
            if self.M.AND(e[0], self.rec.c) == e[0] and self.rec.c not in (0, 1):
                yield e

    def after_tag(self, tag):
        """{leaf symbol: value} of the section state after a line consisting of the tag; None when it is not constant"""
        asg = self.assume(tag)
        out = {}
        for x, sy in self.state:
            v = self.simp(x[5], asg, None)
            out[x[1]] = (x, sy, v)
        return out

    def in_state(self, st, text=None):
        """what happens to an ordinary line (or the given one)"""
        asg = self.assume(text)
        sm = {}
        for x, sy, v in st.values():
            if v[0] == 'c' or (v[0] == 'b' and v[1] in (0, 1)):
                sm[sy] = v if sy[0] == 'sym' else v[1]
        ev = []
        for pc, what, val, loc in self.loop_events():
            if isinstance(what, str) and what in ('call:addVariable', 'call:parse'):
                c = self.live(pc, asg, sm)
                if c != 0:
                    ev.append((c, what, val, loc))
        th = []
        for t in self.I.throws:
            if self.M.AND(t[0], self.rec.c) == t[0]:
                c = self.live(t[0], asg, sm)
                if c != 0:
                    th.append((c, t[1]))
        ch = {}
        for x in self.rec.leafs:
            if x[5] is None or x[2] not in ('bf', 'c'):
                continue
            v = self.simp(x[5], asg, sm)
            if v != x[4] and v != ('seq', (('all', x[4]),)):
                ch[x[0].key[-1] if x[0].key[0] == 'F' else x[0].key] = (x, v)
        return ev, th, ch

    def throws_on(self, text):
        asg = self.assume(text)
        out = 0
        for t in self.I.throws:
            if self.M.AND(t[0], self.rec.c) == t[0]:
                out = self.M.OR(out, self.live(t[0], asg, None))
        return out

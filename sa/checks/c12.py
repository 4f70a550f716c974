"""C12: a formula line denotes what its prefix notation says; anything else is rejected."""
from .specread import *

RULE = 'result of the parser for each kind of token (recursive calls taken as the meaning of the next subformula) equals the meaning of the token'
ENTRY = ('parseBooleanFormula', 'parseBooleanFormulaEx')


def check(r, tier):
    P = program()
    r.rule('for each formula parser: specialise the (loop-summarised) result, the sequence of reads from the line and the rejections to every token; compare with prefix notation')
    r.rule('entry point: the whole line is parsed with an empty buffer and rejected when something is left')
    done = set()
    for c in readers(P):
        for m in ENTRY:
            f = P.find_method(c, m)
            if f is None or f.get('body') is None or (f['file'], f['l']) in done:
                continue
            done.add((f['file'], f['l']))
            rec = recursion(P, f)
            if rec is None:
                r.undec('%s::%s' % (c, m), 'recursive parsing function not recognised', '%s:%s' % (P.rel(f['file']), f['l']))
                continue
            r.listed('parsers', [f['q'], rec['q']])
            entry(r, P, c, f, rec)
            for g in family(P, rec):
                Parser(r, P, c, g).check()
    if len(done) < 2:
        r.undec('parsers', 'only %d formula parsers found' % len(done))


def callees(P, f):
    out = []
    for e in walk(f.get('body')):
        if e.get('k') in ('call', 'mcall') and e.get('f') in P.fns and e['f'] not in out:
            out.append(e['f'])
    return out


def reach(P, u):
    seen, todo = set(), [u]
    while todo:
        x = todo.pop()
        for y in callees(P, P.fns[x]):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def recursion(P, f):
    """the function called by the entry point that calls itself (possibly through helpers)"""
    for u in callees(P, f):
        if u in reach(P, u):
            return P.fns[u]
    for u in reach(P, f['f']):
        if u in reach(P, u) and 'BF' in P.fns[u].get('rt', P.fns[u].get('t', 'BF')):
            return P.fns[u]
    return None


def family(P, rec):
    return [rec]


def entry(r, P, c, f, rec):
    def sub(I, st, this, args, e):
        I.events.append((st.pc, 'call:sub', tuple(args), I.loc(e)))
        return ('bf', I.M.fun('sub', tuple(args), I.model.allcats))
    s = Session(P, c, hooks={rec['q']: sub})
    s.fn = f
    s.st, s.ret = s.I.run(f)
    M, I = s.M, s.I
    inst = f['q']
    where = '%s:%s' % (P.rel(f['file']), f['l'])
    if s.ret is None or s.ret[0] != 'bf':
        r.undec(inst, 'result not recognised', where)
        return
    ats = M.allatoms(s.ret[1])
    subs = [e for e in I.events if e[1] == 'call:sub']
    line = f['p'][0]['n']
    if len(subs) == 1 and not opaque(M, ('bf', 1)) and pure(subs[0][2][0], ('s', ('param', line))):
        pass
    elif len(subs) != 1 or opaque(M, s.ret):
        r.undec(inst, 'result not recognised: %s' % M.showt(s.ret, 4)[:200], where)
        return
    pc, _, args, loc = subs[0]
    bad = []
    a0 = args[0]
    want = ('s', ('param', line))
    if not (a0[0] == 'stream' and len(a0[2]) >= 1):
        r.undec(inst, 'stream not recognised: %s' % M.showt(a0, 4), loc)
        return
    if a0[2][0] != want:
        bad.append('the text parsed is %s' % M.showt(a0[2][0], 4))
    if s.ret[1] != M.fun('sub', args, I.model.allcats):
        bad.append('the result is %s' % M.showt(s.ret, 5))
    for p, a in zip(rec['p'][1:], args[1:]):
        if 'vector<' in p['t'].replace(' ', '') and a != ('seq', ()):
            bad.append('the buffer starts as %s' % M.showt(a, 4))
        if 'set<' in p['t'] and a != ('cont', f['p'][1]['n']):
            bad.append('the admissible categories passed on are %s' % M.showt(a, 4))
    if bad:
        r.violation(inst, loc, 'the whole line is parsed, with an empty buffer and the given categories', '; '.join(bad))
    else:
        r.ok(inst + ': parses the line', loc)
    # leftovers
    order = [e[1] for e in I.events if e[1] in ('call:sub', 'extract')]
    th = M.disj([t[0] for t in I.throws])
    ats = M.atoms_of(th)
    key = []
    ok, extra = True, False
    for a in ats:
        k = M.atoms[a]
        if k[0] == 'cmp' and k[1] == '==' and ('str', '') in k[2:4] and any(x[:2] == ('fun', 'extract') for x in k[2:4]):
            key.append((a, 0))         # rejected when the next word is not empty
        elif k[0] == 'cmp' and k[1] == '<' and k[2] == ('c', 0) and k[3][0] == 'size' and k[3][1][:2] == ('fun', 'extract'):
            key.append((a, 1))
        elif k[0] == 'cmp' and k[1] == '==' and ('c', 0) in k[2:4] and any(x[0] == 'size' and x[1][:2] == ('fun', 'extract') for x in k[2:4]):
            key.append((a, 0))
        elif k[0] == 'fun' and k[1] in ('stream.fail', 'streamok'):
            key.append((a, 0 if k[1] == 'stream.fail' else 1))
        elif k[0] == 'cmp' and understood(k[2]) and understood(k[3]):
            extra = True
        else:
            ok = False
    if th == 0:
        r.violation(inst + ': leftovers', where, 'a line with something after the formula is rejected', 'the parser never rejects')
    elif ok and len(key) == 1:
        a, v = key[0]
        if M.restrict(th, a, v) == 1 and M.restrict(th, a, 1 - v) == 0:
            if order and order[0] != 'call:sub':
                r.violation(inst + ': leftovers', where, 'the formula is parsed before checking for leftovers', 'reads: ' + ', '.join(order))
            else:
                r.ok(inst + ': leftovers', where)
        else:
            r.violation(inst + ': leftovers', where, 'a line with something after the formula (and only that) is rejected', 'rejected when %s' % M.show(th, 6))
    elif ok and extra and len(key) == 1 and M.restrict(th, key[0][0], key[0][1]) != 1:
        r.violation(inst + ': leftovers', where, 'a line with something after the formula (and only that) is rejected', 'rejected only when %s' % M.show(th, 6))
    else:
        r.undec(inst + ': leftovers', 'condition not recognised: %s' % M.show(th, 6)[:200], where)
    if s.notes():
        r.undec(inst, '; '.join(s.notes())[:200], where)


STRFUN = ('extract', 'm:substr', 'count', 'trim')


def understood(t):
    """terms over the word read, the variable tables and constants"""
    if not isinstance(t, tuple):
        return True
    if t and t[0] == 'fun':
        return t[1] in STRFUN and all(understood(x) for x in t[2:])
    if t and t[0] in ('str', 'c', 'bi', 'param', 'cont', 'sym'):
        return True
    if t and t[0] in ('s', 'elem', 'size', 'add', 'mul'):
        return all(understood(x) for x in t[1:])
    return False


def pure(t, line):
    """a stream over a fixed part of the line"""
    return t[0] == 'stream' and len(t[2]) >= 1 and t[2][0] != line and t[2][0][:2] == ('fun', 'm:substr') and t[2][0][2] == line and understood(t[2][0])


class Parser:
    def __init__(self, r, P, c, f):
        self.r, self.P, self.f = r, P, f
        cnt = [0]

        def sub(I, st, this, args, e):
            cnt[0] += 1
            v = ('bf', I.M.fun('sub', (('c', cnt[0]),) + tuple(args), I.model.allcats))
            I.events.append((st.pc, 'call:sub', (v,) + tuple(args), I.loc(e)))
            return v
        s = Session(P, c, hooks={f['q']: sub})
        s.fn = f
        s.st, s.ret = s.I.run(f)
        self.s, self.M, self.I = s, s.M, s.I
        self.where = '%s:%s' % (P.rel(f['file']), f['l'])
        ex = [e for e in self.I.events if e[1] == 'extract']
        self.tok = None
        for e in ex:
            if e[0] == 1 and 'string' in e[2][2]:
                self.tok = ('fun', 'extract', e[2][1])
                break
        self.init = {p['n']: s.I.symparam(p) for p in f['p']}
        self.stream = self.init[f['p'][0]['n']]
        self.mem = [('cont', p['n']) for p in f['p'] if 'vector<' in p['t'].replace(' ', '')]
        self.sets = [('cont', p['n']) for p in f['p'] if 'set<' in p['t']]
        self.maps = [('cont', p['n']) for p in f['p'] if 'map<' in p['t']]

    def ev(self, t, text):
        if t == self.tok:
            return text
        if t[0] in ('str', 'c'):
            return t[1]
        if t[0] == 'size':
            v = self.ev(t[1], text)
            return len(v) if isinstance(v, str) else None
        if t[0] == 'elem':
            v, i = self.ev(t[1], text), self.ev(t[2], text)
            return ord(v[i]) if isinstance(v, str) and isinstance(i, int) and 0 <= i < len(v) else 0 if isinstance(v, str) and isinstance(i, int) and i == len(v) else None
        return None

    def test(self, a, text):
        k = self.M.atoms[a]
        if k[0] != 'cmp':
            return None
        u, v = self.ev(k[2], text), self.ev(k[3], text)
        if u is None or v is None or type(u) != type(v):
            return None
        return int({'==': u == v, '<': u < v, '<=': u <= v}[k[1]]) if k[1] in ('==', '<', '<=') else None

    def cond(self, f, text):
        M = self.M
        ch = True
        while ch:
            ch = False
            for a in M.atoms_of(f):
                v = self.test(a, text)
                if v is not None:
                    f = M.restrict(f, a, v)
                    ch = True
                    break
        return f

    def val(self, v, text):
        if v is None:
            return None
        if v[0] in ('bf', 'b'):
            return (v[0], self.cond(v[1], text))
        if v[0] == 'iite':
            c = self.cond(v[1][1], text)
            if c == 1:
                return self.val(v[2], text)
            if c == 0:
                return self.val(v[3], text)
            return ('iite', ('b', c), self.val(v[2], text), self.val(v[3], text))
        return v

    def case(self, text):
        """(result, reads, rejection condition) for a token; result None when nothing is returned"""
        M, I = self.M, self.I
        reads = []
        for pc, what, val, loc in I.events:
            if what in ('extract', 'call:sub'):
                c = self.cond(pc, text)
                if c != 0:
                    reads.append((what, c, val, loc))
        th = M.disj([self.cond(t[0], text) for t in I.throws])
        return self.val(self.s.ret, text), reads, th

    def check(self):
        r, M, I = self.r, self.M, self.I
        inst = self.f['q']
        if self.tok is None or self.s.ret is None:
            r.undec(inst, 'token of the formula not recognised', self.where)
            return
        if self.s.notes():
            r.undec(inst, '; '.join(self.s.notes())[:200], self.where)
        # buffers handed in stay as they are
        for fr in self.mem:
            for e in I.events:
                pass
        for tok, op in (('|', 'or'), ('^', 'xor'), ('&', 'and')):
            self.guard(tok, self.binary, op)
        self.guard('!', self.unary)
        self.guard('1', self.const, 1)
        self.guard('0', self.const, 0)
        self.guard('$', self.buffer)
        self.guard('?', self.recall)
        self.guard('', self.empty)
        for w in ('a', 'x1', '||', '!a', '10', '0x', '?1', '$2', '&b', '^^', 'A|B', "a'", '-', '1a'):
            self.guard(w, self.name)

    def guard(self, tok, fn, *args):
        inst = "%s token '%s'" % (self.f['q'], tok)
        res, reads, th = self.case(tok)
        try:
            out = fn(tok, res, reads, th, *args)
        except Exception as ex:
            self.r.undec(inst, 'not recognised (%s)' % type(ex).__name__, self.where)
            return
        self.r.count('tokens', 1)
        if out is None:
            self.r.ok(inst, self.where)
        elif out[0] == 'V':
            loc = reads[-1][3] if reads else self.where
            self.r.violation(inst, loc, RULE, out[1])
        else:
            self.r.undec(inst, out[1][:250], self.where)

    def show(self, v):
        return self.M.showt(v, 5) if v is not None else 'nothing'

    def tokonly(self, reads):
        return [x for x in reads if not (x[0] == 'extract' and ('fun', 'extract', x[2][1]) == self.tok)]

    def subargs(self, sub, mem=None):
        """problem with the arguments of a recursive call"""
        v, *args = sub[2]
        if args[0] != self.stream:
            return 'a subformula is read from %s' % self.show(args[0])
        for p, a in zip(self.f['p'][1:], args[1:]):
            own = ('cont', p['n'])
            if own in self.mem:
                want = own if mem is None else mem
                if a != want:
                    return 'a subformula is parsed with the buffer %s' % self.show(a)
            elif a != own:
                return 'a subformula is parsed with %s instead of %s' % (self.show(a), p['n'])
        return None

    def nothing_else(self, tok, res, th):
        if th == 1:
            return ('V', 'the token is always rejected')
        if th != 0:
            return ('V', 'rejected when %s' % self.M.show(th, 5)) if not opaque(self.M, ('b', th)) else ('U', 'rejected when %s' % self.M.show(th, 5))
        if res is None or res[0] != 'bf':
            return ('U', 'result %s' % self.show(res))
        return None

    def binary(self, tok, res, reads, th, op):
        M = self.M
        e = self.nothing_else(tok, res, th)
        if e:
            return e
        rd = self.tokonly(reads)
        if any(x[0] != 'call:sub' or x[1] != 1 for x in rd):
            return ('U', 'reads: %s' % [x[0] for x in rd])
        if len(rd) != 2:
            return ('V', '%d subformulas are read' % len(rd))
        for x in rd:
            p = self.subargs(x)
            if p:
                return ('V', p)
        a, b = rd[0][2][0][1], rd[1][2][0][1]
        want = {'or': M.OR(a, b), 'and': M.AND(a, b), 'xor': M.ite(a, M.NOT(b), b)}[op]
        if res[1] != want:
            return (self.judge(res), 'the result is %s' % self.show(res))

    def judge(self, res):
        return 'U' if opaque(self.M, res) else 'V'

    def unary(self, tok, res, reads, th):
        e = self.nothing_else(tok, res, th)
        if e:
            return e
        rd = self.tokonly(reads)
        if len(rd) != 1 or rd[0][0] != 'call:sub':
            return ('V', '%d values are read' % len(rd))
        p = self.subargs(rd[0])
        if p:
            return ('V', p)
        if res[1] != self.M.NOT(rd[0][2][0][1]):
            return (self.judge(res), 'the result is %s' % self.show(res))

    def const(self, tok, res, reads, th, v):
        e = self.nothing_else(tok, res, th)
        if e:
            return e
        if self.tokonly(reads):
            return ('V', 'something is read after the constant')
        if res[1] != v:
            return (self.judge(res), 'the result is %s' % self.show(res))

    def empty(self, tok, res, reads, th):
        if th != 1:
            return ('U' if opaque(self.M, ('b', th)) else 'V', 'a line that ends too early is rejected only when %s' % self.M.show(th, 4))

    def number(self, rd):
        """the number read after the token"""
        if not rd or rd[0][0] != 'extract':
            return None
        return ('fun', 'extract', rd[0][2][1])

    def failatom(self, f, n):
        M = self.M
        for a in M.atoms_of(f):
            k = M.atoms[a]
            if k[0] == 'fun' and k[1] == 'stream.fail' and k[2][0] == self.stream:
                return a if len(k[2]) < 2 or k[2][1] == n[2] else -1
            if k[0] == 'fun' and k[1] == 'streamok':
                return a
        return None

    def recall(self, tok, res, reads, th):
        M = self.M
        rd = self.tokonly(reads)
        if len(rd) != 1 or rd[0][0] != 'extract':
            return ('V', 'reads %s after the token' % [x[0] for x in rd])
        n = self.number(rd)
        t = rd[0][2][2].replace('std::', '')
        if 'char' in t or 'float' in t or 'double' in t:
            return ('V', 'the index is read as %s' % t)
        fa = self.failatom(th, n)
        if fa is None:
            return ('V', 'an index that is not a number is not rejected')
        if fa == -1:
            return ('V', 'whether the index is a number is tested before reading it')
        bad = 1 if M.atoms[fa][1] == 'stream.fail' else 0
        if M.restrict(th, fa, bad) != 1:
            return ('V', 'an index that is not a number is not rejected')
        th2 = M.restrict(th, fa, 1 - bad)
        bound = None
        for a in M.atoms_of(th2):
            k = M.atoms[a]
            if k[0] == 'cmp' and k[1] == '<' and k[2] == n and k[3] in [('size', m) for m in self.mem]:
                bound = M.mk(a, 1, 0)
        lo = None
        if 'unsigned' not in t and 'size_t' not in t:
            lo = M.atom_cmp('<', n, ('c', 0)) if hasattr(M, 'atom_cmp') else None
            if lo is None:
                return ('U', 'signed index')
        if th2 != (M.NOT(bound) if bound is not None else -1):
            if opaque(M, ('b', th2)):
                return ('U', 'rejected when %s' % M.show(th2, 5))
            return ('V', 'a recalled element is rejected when %s (expected: when it has not been stored)' % M.show(th2, 5))
        res = self.val2(res, fa, 1 - bad)
        f = M.AND(bound, res[1]) if res[0] == 'bf' else None
        want = [M.AND(bound, M.elem(m, n, self.I.model.allcats)) if hasattr(M, 'elem') else None for m in self.mem]
        ats = [a for a in M.atoms_of(res[1]) if M.atoms[a][0] == 'elem']
        if len(ats) == 1 and M.atoms[ats[0]][1] in self.mem and M.atoms[ats[0]][2] == n and self.I.care(res[1], bound) == self.I.care(M.mk(ats[0], 1, 0), bound):
            return None
        return (self.judge(res), 'the result is %s' % self.show(res))

    def val2(self, v, a, x):
        if v[0] in ('bf', 'b'):
            return (v[0], self.M.restrict(v[1], a, x))
        return v

    def buffer(self, tok, res, reads, th):
        M, I = self.M, self.I
        rd = self.tokonly(reads)
        if not rd or rd[0][0] != 'extract':
            return ('V', 'no number of elements is read')
        n = self.number(rd)
        fa = self.failatom(th, n)
        if fa is None or fa == -1:
            return ('V', 'a number of elements that is not a number is not rejected')
        bad = 1 if M.atoms[fa][1] == 'stream.fail' else 0
        if M.restrict(th, fa, bad) != 1:
            return ('V', 'a number of elements that is not a number is not rejected')
        th2 = M.restrict(th, fa, 1 - bad)
        # a buffer without elements has no value
        za = [a for a in M.atoms_of(th2) if M.atoms[a][0] == 'cmp' and n in M.atoms[a][2:4]]
        zero = None
        for a in za:
            k = M.atoms[a]
            if k[1] == '==' and ('c', 0) in k[2:4]:
                zero = M.mk(a, 1, 0)
            elif k[1] == '<' and k[2] == ('c', 0) or k[1] == '<=' and k[2] == ('c', 1):
                zero = M.mk(a, 0, 1)
            elif k[1] == '<' and k[3] == ('c', 1) or k[1] == '<=' and k[3] == ('c', 0):
                zero = M.mk(a, 1, 0)
        subs = [x for x in rd[1:] if x[0] == 'call:sub']
        if len(subs) != len(rd) - 1:
            return ('V', 'something else is read')
        if len(subs) != 1:
            return ('U', '%d recursive calls' % len(subs))
        sub = subs[0]
        sv = sub[2][0]
        rec = None
        for x in I.looprecs:
            if x.c not in (0, 1) and any(self.has(self.norm(l[5], tok, sub[1]), self.norm(sv, tok, sub[1])) for l in x.leafs):
                rec = x
        if rec is None:
            return ('U', 'loop over the elements not recognised')
        # the list of completed elements
        leafs = []
        for l in rec.leafs:
            l = list(l)
            if l[5] is not None:
                l[5] = self.norm(l[5], tok, sub[1])
            leafs.append(tuple(l))
        sv = self.norm(sv, tok, sub[1])
        lst = [l for l in leafs if l[2] == 'c' and l[5] is not None and l[5][0] == 'seq' and l[5][1] and l[5][1][-1] == ('item', sv)]
        upd = [l for l in leafs if l[2] == 'c' and l not in lst and l[5] is not None and self.has(l[5], sv)]
        last = [l for l in leafs if l[2] == 'bf' and l[5] == sv]
        # arguments
        memarg = [a for p, a in zip(self.f['p'], sub[2][1:]) if ('cont', p['n']) in self.mem]
        p = self.subargs(sub, memarg[0] if memarg else None)
        if p:
            return ('V', p)
        if upd and not lst:
            return ('V', 'elements are recalled from a buffer that contains entries not stored yet: %s, starting as %s' % (self.show(upd[0][5]), self.show(upd[0][3])))
        if len(lst) != 1:
            return ('U', 'list of elements not recognised')
        l = lst[0]
        if l[3] != ('seq', ()):
            return ('V', 'the buffer starts as %s' % self.show(l[3]))
        if l[5] != ('seq', (('all', l[4]), ('item', sv))):
            return ('V', 'after an element the buffer is %s' % self.show(l[5]))
        if memarg and memarg[0] != l[4]:
            if memarg[0] in self.mem:
                return ('V', 'elements of a buffer are parsed with the surrounding buffer')
            return ('U', 'buffer passed on: %s' % self.show(memarg[0]))
        if any(k != 'n' and self.cond(pc, tok) != 0 for k, pc, f in rec.flows):
            return ('U', 'loop left early')
        # result: the last element
        post = rec.post.get(l[1], [])
        f = self.val2(res, fa, 1 - bad)
        if zero is not None:
            f = (f[0], I.care(f[1], M.NOT(zero)))
        lastpost = [v for x in last for v in rec.post.get(x[1], []) if v is not None and v[0] == 'bf']
        if f[0] == 'bf' and f in lastpost and zero is not None:
            ln = None
        else:
            ats = [a for a in M.atoms_of(f[1]) if M.atoms[a][0] == 'elem']
            if len(ats) != 1 or f[1] != M.mk(ats[0], 1, 0):
                return (self.judge(f), 'the result is %s' % self.show(f))
            k = M.atoms[ats[0]]
            if k[1] not in post:
                return ('U', 'the result is an element of %s' % self.show(k[1]))
            size = ('size', k[1])
            if k[2] not in (('add', size, ('c', -1)), ('add', n, ('c', -1))):
                return ('V' if not opaque(M, k[2]) or True else 'U', 'the result is element %s' % self.show(k[2]))
            ln = k[1]
        head = self.cond(rec.c, tok)
        trip = None
        for a in M.atoms_of(head):
            k = M.atoms[a]
            for ll in rec.leafs:
                if ll[2] == 'i' and ll[3] == ('c', 0) and ll[5] == ('add', ll[4], ('c', 1)) and k == ('cmp', '<', ll[4], n):
                    trip = M.mk(a, 1, 0)
            if k == ('cmp', '<', ('size', l[4]), n):
                trip = M.mk(a, 1, 0)
        dom = [p[2] for p in post if p[:2] == ('fun', 'fold')]
        if trip is not None and head != trip:
            rest = [a for a in M.atoms_of(head) if M.mk(a, 1, 0) != trip]
            if all(M.atoms[a][0] == 'cmp' and self.simple(M.atoms[a][2], rec) and self.simple(M.atoms[a][3], rec) for a in rest):
                return ('V', 'elements are read only while %s' % M.show(head, 5))
            return ('U', 'elements are read while %s' % M.show(head, 5))
        if trip is None:
            if dom and dom[0] != ('range', n):
                return ('V' if dom[0][0] == 'range' else 'U', 'the number of elements read is %s' % self.show(dom[0]))
            if not dom:
                return ('U', 'number of elements not recognised')
        if th2 == 0 or zero is None and th2 != 1:
            return ('V', 'a buffer without elements is accepted, its value is element -1')
        if th2 != zero:
            return ('V', 'rejected when %s' % M.show(th2, 5))

    def norm(self, v, tok, pc):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] in ('bf', 'b') and isinstance(v[1], int):
                return (v[0], self.I.care(self.cond(v[1], tok), pc))
            return tuple(self.norm(x, tok, pc) for x in v)
        return v

    def simple(self, t, rec):
        return t[0] == 'c' or any(t == l[4] for l in rec.leafs if l[2] == 'i') or understood(t)

    def has(self, v, x):
        if v == x:
            return True
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] in ('bf', 'b') and isinstance(v[1], int):
                return False
            return any(self.has(y, x) for y in v)
        return False

    def name(self, tok, res, reads, th):
        M, I = self.M, self.I
        if self.tokonly(reads):
            return ('V', 'something is read after a name')
        if res is None:
            return ('V', 'names are always rejected')
        named = None
        if res[0] == 'iite':
            # named sets that take precedence over variables
            c = res[1][1]
            ats = M.atoms_of(c)
            if len(ats) == 1:
                k = M.atoms[list(ats)[0]]
                if k[0] == 'cmp' and k[1] == '==' and any(x[:2] == ('fun', 'count') and x[2] in self.maps and x[3] == self.tok for x in k[2:4]):
                    absent = M.restrict(c, list(ats)[0], 1) == 1
                    got, rest = (res[3], res[2]) if absent else (res[2], res[3])
                    if got != ('elem', k[2][2] if k[2][0] == 'fun' else k[3][2], self.tok):
                        return ('V', 'the set of that name is %s' % self.show(got))
                    named = (list(ats)[0], 1 if absent else 0)
                    cc = c
                    if not absent:
                        cc = M.NOT(c)
                    res = rest
                    th = self.I.care(th, cc)
                    if M.restrict(th, named[0], 0) != M.restrict(th, named[0], 1):
                        return ('U', 'rejections depend on named sets')
            elif self.maps:
                pa = [a for a in ats if M.atoms[a][0] == 'cmp' and any(x[:2] == ('fun', 'count') and x[2] in self.maps and x[3] == self.tok for x in M.atoms[a][2:4])]
                if len(pa) == 1 and all(M.atoms[a][0] == 'cmp' and understood(M.atoms[a][2]) and understood(M.atoms[a][3]) for a in ats) and M.restrict(c, pa[0], 0) not in (0, 1):
                    return ('V', 'a named set is used only when %s' % M.show(c, 5))
        if res[0] != 'bf':
            return ('U', 'result %s' % self.show(res))
        ats = list(M.atoms_of(res[1]))
        if len(ats) != 1 or res[1] != M.mk(ats[0], 1, 0) or M.atoms[ats[0]][0] != 'elem':
            return (self.judge(res), 'the result is %s' % self.show(res))
        k = M.atoms[ats[0]]
        if k[1] != ('cont', 'variables'):
            return ('V', 'the result is taken from %s' % self.show(k[1]))
        ix = k[2]
        if ix[0] == 'add' and ix[1][:2] == ('fun', 'first') and ix[2][0] == 'c' and ix[2][1] != 0:
            return ('V', 'the result is element %s' % self.show(ix))
        if ix[:2] != ('fun', 'first') or ix[4][0] != 'b':
            return ('U', 'index %s' % self.show(ix))
        if ix[2] not in [('range', ('size', ('cont', x))) for x in ('variables', 'variableNames', 'variableTypes')]:
            return ('V' if ix[2][0] == 'range' else 'U', 'only %s variables are looked at' % self.show(ix[2]))
        b = ('s', ('bi', ix[3]))
        F = ix[4][1]
        nm = al = None
        other = False
        for a in M.atoms_of(F):
            kk = M.atoms[a]
            if kk[0] == 'cmp' and kk[1] == '==' and set(kk[2:4]) == {('elem', ('cont', 'variableNames'), b), self.tok}:
                nm = a
            elif kk[0] == 'cmp' and kk[1] == '==' and ('c', 0) in kk[2:4] and any(x[:2] == ('fun', 'count') and x[2] in self.sets and x[3] == ('elem', ('cont', 'variableTypes'), b) for x in kk[2:4]):
                al = a
            elif kk[0] == 'cmp' and understood(kk[2]) and understood(kk[3]):
                other = True
            else:
                return ('U', 'condition %s' % M.show(F, 5))
        if nm is None:
            return ('V', 'the variable is chosen by %s' % M.show(F, 5))
        checked = al is not None
        if not checked:
            # a disallowed variable must then be rejected
            if not any(M.atoms[a][0] == 'cmp' and any(x[:2] == ('fun', 'count') and x[2] in self.sets for x in M.atoms[a][2:4] if isinstance(x, tuple)) for a in M.allatoms(th)):
                return ('V', 'variables of categories that are not allowed are accepted')
        good = M.AND(M.mk(nm, 1, 0), M.mk(al, 0, 1) if checked else 1)
        if F != good:
            return ('V', 'the variable is chosen by %s' % M.show(F, 5))
        # names that do not occur are rejected
        if th == 0 or not self.covers(th, ix[2], F):
            return ('V' if th == 0 else 'U', 'unknown names are rejected only when %s' % M.show(th, 5))

    def covers(self, th, dom, F):
        """th contains the rejection of names for which no variable satisfies F"""
        M = self.M
        for a in M.atoms_of(th):
            k = M.atoms[a]
            if k[0] in ('any', 'exists', 'big', 'OR') or k[0] not in ('cmp', 'fun', 'elem'):
                if M.restrict(th, a, 0) == 1:
                    return True
        return False

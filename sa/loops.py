"""Loop summaries: folds over containers, least/greatest fixed points, accumulators, searches."""
from .terms import EMPTY
from .absint import State, Flow, strip_t, cont_kind, elem_type, is_ref, INTT, BF


class Leaf:
    __slots__ = ('key', 'path', 'sym', 'kind', 'pre', 'new', 'phi')

    def __repr__(self):
        return 'Leaf(%s,%s,%s)' % (self.key, self.path, self.kind)


class Rec:
    """one loop as analysed: head condition, loop variables (value before, symbol at the head, value at the end of an
    iteration) and the ways an iteration ends"""

    def __init__(self, L):
        I, M = L.I, L.M
        self.loc, self.kind = I.loc(L.s), L.s['k']
        self.fn = I.stack[-1].fn['q'] if I.stack else ''
        self.c, self.entry, self.pc0 = L.c, L.entrypc, L.st.pc
        ef = L.end_flow()
        self.leafs = []
        for l in L.leafs:
            new = leaf_get(ef.st.env[l.key], l.path) if ef is not None and l.key in ef.st.env else None
            self.leafs.append((l, l.sym, l.kind, l.pre, l.phi, new))
        self.post = {}
        self.flows = [(f.kind, f.st.pc, f) for f in L.flows]
        cont = M.disj([I.care(f.st.pc, L.entrypc) for f in L.flows if f.kind == 'n'])
        self.cont = M.AND(L.c, cont)

    def leaf(self, sym):
        for x in self.leafs:
            if x[1] == sym:
                return x
        return None


def kind_of(v):
    if v[0] in ('bf', 'b'):
        return v[0]
    if v[0] in ('seq', 'cont', 'csym', 'fill'):
        return 'c'
    if v[0] == 'it':
        return 'it'
    return 'i'


def leaf_get(v, path):
    for p in path:
        if v[0] != 'obj':
            return None
        d = dict(v[2])
        if p not in d:
            return None
        v = d[p]
    return v


class Loop:
    def __init__(self, I, s, st):
        self.I, self.M, self.s, self.st = I, I.M, s, st

    # ---- phi construction -------------------------------------------------
    def mkphi(self, key, v, path=()):
        M = self.M
        if v[0] == 'obj':
            return ('obj', v[1], tuple((k, self.mkphi(key, x, path + (k,))) for k, x in v[2]))
        sym = self.syms.get((key, path))
        if sym is None:
            sym = M.fresh('phi')
            self.syms[(key, path)] = sym
        kd = self.kinds.get((key, path)) or kind_of(v)
        self.kinds[(key, path)] = kd
        if kd == 'bf':
            s = self.supps.get((key, path))
            if s is None:
                s = M.supp(v[1]) if v[0] in ('bf', 'b') else self.I.model.allcats
                self.supps[(key, path)] = s
            return ('bf', M.phi(sym, s))
        if kd == 'b':
            return ('b', M.phi(sym, EMPTY))
        if kd == 'c':
            if (key, path) in self.fixsz:
                self.I.fixedsize[sym] = self.fixsz[(key, path)]
            return ('csym', sym)
        if kd == 'it':
            return ('it', v[1], ('s', sym))
        return ('s', sym)

    def leaves(self, key, phi, path=()):
        if phi[0] == 'obj':
            for k, x in phi[2]:
                yield from self.leaves(key, x, path + (k,))
        else:
            yield path, phi

    # ---- one symbolic iteration --------------------------------------------
    def iteration(self, h):
        I, s = self.I, self.s
        k = s['k']
        st = h
        flows = []
        pc0 = st.pc
        c = 1
        if k in ('for', 'while'):
            if s.get('cv'):
                I.decl(s['cv'], st)
            if s.get('c') is not None:
                c = I.tobool(I.ev(s['c'], st))
            self.headst = st.copy()
            st.pc = I.M.AND(st.pc, c)
        elif k == 'forr':
            cont = I.read(st, self.rlv)
            pos = st.env[self.ikey]
            c = I.M.cmp('<', pos, I.size(cont))
            self.headst = st.copy()
            st.pc = I.M.AND(st.pc, c)
            v = s['v']
            vk = I.key(v['d'])
            I.types[vk] = v['t']
            et = strip_t(v['t'])
            if is_ref(v['t']):
                st.env[vk] = ('ref', (self.rlv[0], self.rlv[1] + (('i', pos, et),)))
            else:
                st.env[vk] = I.coerce(I.sel(cont, pos, et), et)
        if st.pc == 0:
            return c, []
        self.entrypc = st.pc
        fl = I.stmt(s['b'], st)
        norm = [f.st for f in fl if f.kind in ('n', 'cnt')]
        flows = [f for f in fl if f.kind in ('brk', 'ret')]
        m = I.merge(norm)
        self.endc = None
        if m is not None and m.pc != 0:
            if k == 'for' and s.get('n') is not None:
                I.ev(s['n'], m)
            elif k == 'forr':
                m.env[self.ikey] = I.M.iadd(m.env[self.ikey], ('c', 1))
            # condition for another iteration, evaluated on the end state
            e2 = m.copy()
            if k in ('for', 'while') and s.get('c') is not None:
                n = len(I.events), len(I.throws)
                self.endc = I.tobool(I.ev(s['c'], e2))
                del I.events[n[0]:]
                del I.throws[n[1]:]
            elif k == 'do':
                self.endc = I.tobool(I.ev(s['c'], m))
            elif k == 'forr':
                self.endc = I.M.cmp('<', e2.env[self.ikey], I.size(I.read(e2, self.rlv)))
            else:
                self.endc = 1
            flows.append(Flow('n', m))
        return c, flows

    def run(self):
        I, M, s, st = self.I, self.M, self.s, self.st
        self.syms, self.supps, self.kinds = {}, {}, {}
        self.fixsz = {}
        if s['k'] == 'for' and s.get('i') is not None:
            fl = I.stmt(s['i'], st)
            if not fl:
                return []
            st = fl[0].st
        if s['k'] == 'forr':
            lv = I.lval(s['r'], st)
            if lv is None:
                lv = I.temp(st, I.ev(s['r'], st))
            self.rlv = I.resolve(st, lv)
            self.ikey = ('L', I.stack[-1].id, ('ri', id(s)))
            st.env[self.ikey] = ('c', 0)
        self.st = st
        # constant trip count: unroll
        u = self.try_unroll()
        if u is not None:
            return u
        if st.pc == 0:
            return []
        mods = []
        I.loopdepth += 1
        rounds = 0
        mkey = I.memokey(s)
        guess = I.loopmemo.get(mkey)
        guessed = False
        if guess is not None:
            for k in guess[0]:
                key = I.memo_out(k)
                if key is None or (key not in st.env and key[0] not in ('F', 'G')):
                    guessed = False
                    mods = []
                    self.supps, self.kinds = {}, {}
                    break
                I.get(st, key)
                mods.append(key)
                guessed = True
            if guessed:
                for (k, path), sup in guess[1].items():
                    self.supps[(I.memo_out(k), path)] = sup
                for (k, path), kd in guess[2].items():
                    self.kinds[(I.memo_out(k), path)] = kd
        while True:
            rounds += 1
            h = st.copy()
            self.phis = {}
            for key in mods:
                self.phis[key] = self.mkphi(key, I.get(st, key))
                h.env[key] = self.phis[key]
            marks = (len(I.events), len(I.throws), len(I.calls), len(I.loops), len(I.writes))
            wmark = len(I.warmlog)
            cmark = len(I.carrylog)
            rmark = len(I.looprecs)
            hh = h.copy()
            c, flows = self.iteration(hh)
            changed = False
            for f in flows:
                for key in list(f.st.env):
                    if key not in st.env:
                        if key[0] in ('F', 'G'):
                            I.get(st, key)
                            if f.st.env[key] == st.env[key]:
                                continue
                        else:
                            continue
                    if key in mods:
                        continue
                    if f.st.env[key] != st.env[key]:
                        mods.append(key)
                        changed = True
            if not changed:
                # supports and kinds
                for f in flows:
                    for key in mods:
                        nv = f.st.env.get(key)
                        for path, phi in self.leaves(key, self.phis[key]):
                            x = leaf_get(nv, path)
                            if x is None:
                                continue
                            kd = self.kinds[(key, path)]
                            if kd != kind_of(x):
                                if kd == 'i' and kind_of(x) in ('bf', 'b', 'c') and self.pre_undef(key, path):
                                    self.kinds[(key, path)] = kind_of(x)
                                    changed = True
                                continue
                            if kd == 'c' and (key, path) not in self.fixsz and I.size(x) == ('size', phi) and \
                                    x != phi and all(I.size(leaf_get(g.st.env.get(key), path)) == ('size', phi) for g in flows):
                                self.fixsz[(key, path)] = I.size(leaf_get(I.get(st, key), path))
                                changed = True
                            if kd == 'bf':
                                ns = M.supp(x[1]) | self.supps[(key, path)]
                                if ns != self.supps[(key, path)]:
                                    self.supps[(key, path)] = ns
                                    changed = True
            if guessed and not changed and rounds == 1 and not self.tight(flows, mods):
                # remembered supports are too coarse here: start over
                guessed = False
                mods = []
                self.supps, self.kinds = {}, {}
                changed = True
            if not changed or rounds > 14:
                break
            del I.events[marks[0]:]
            del I.throws[marks[1]:]
            del I.calls[marks[2]:]
            del I.loops[marks[3]:]
            del I.warmlog[wmark:]
            del I.carrylog[cmark:]
            del I.looprecs[rmark:]
        I.loopdepth -= 1
        self.mods, self.c, self.flows = mods, c, flows
        self.marks = marks
        mm = [I.memo_in(k) for k in mods]
        if None not in mm:
            I.loopmemo[mkey] = (mm, {(I.memo_in(k), p): v for (k, p), v in self.supps.items()},
                                {(I.memo_in(k), p): v for (k, p), v in self.kinds.items()})
        return self.summarise()

    def tight(self, flows, mods):
        M = self.M
        for key in mods:
            for path, phi in self.leaves(key, self.phis[key]):
                if self.kinds[(key, path)] != 'bf':
                    continue
                p = leaf_get(self.I.get(self.st, key), path)
                s = M.supp(p[1]) if p is not None and p[0] in ('bf', 'b') else EMPTY
                for f in flows:
                    x = leaf_get(f.st.env.get(key), path)
                    if x is not None and x[0] in ('bf', 'b'):
                        s = s | M.supp(x[1])
                if s != self.supps[(key, path)]:
                    return False
        return True

    def pre_undef(self, key, path):
        v = leaf_get(self.I.get(self.st, key), path)
        return v is not None and v[0] == 's'

    def try_unroll(self):
        I, M, s, st = self.I, self.M, self.s, self.st
        if s['k'] != 'for' or s.get('c') is None:
            return None
        # only when the condition folds to a constant for every iteration
        cur = st.copy()
        c = I.tobool(I.ev(s['c'], cur))
        if c == 0:
            return [Flow('n', st)]
        if c != 1:
            return None
        # is it an index loop with constant bounds?
        cc = s['c']
        if not (cc['k'] == 'bin' and cc['op'] in ('<', '<=', '!=', '>', '>=')):
            return None
        for side in ('x', 'y'):
            v = I.ev(cc[side], st.copy())
            if v[0] != 'c':
                return None
        lists = (I.events, I.throws, I.notes, I.calls, I.loops, I.writes)
        marks = [len(x) for x in lists]

        def undo():
            for x, m in zip(lists, marks):
                del x[m:]
            return None
        out = []
        st0 = st.env, st.pc
        st.env, st.pc = dict(st.env), st.pc
        cur = st
        for it in range(9):
            c = I.tobool(I.ev(s['c'], cur))
            if c == 0:
                out.append(Flow('n', cur))
                return I._compact(out)
            if c != 1 or it == 8:
                break
            fl = I.stmt(s['b'], cur)
            nm = I.merge([f.st for f in fl if f.kind in ('n', 'cnt')])
            for f in fl:
                if f.kind == 'brk':
                    out.append(Flow('n', f.st))
                elif f.kind == 'ret':
                    out.append(f)
            if nm is None:
                return I._compact(out)
            cur = nm
            if s.get('n') is not None:
                I.ev(s['n'], cur)
        st.env, st.pc = st0
        return undo()

    # ---- summary -------------------------------------------------------------
    def summarise(self):
        I, M, s, st = self.I, self.M, self.s, self.st
        flows = self.flows
        if not flows:
            # body never terminates normally
            if self.c == 0:
                return [Flow('n', st)]
            a = st.copy()
            a.pc = M.AND(st.pc, M.NOT(self.c))
            return [Flow('n', a)] if a.pc != 0 else []
        # leaves
        self.leafs = []
        for key in self.mods:
            for path, phi in self.leaves(key, self.phis[key]):
                l = Leaf()
                l.key, l.path, l.phi = key, path, phi
                l.sym = self.syms[(key, path)]
                l.kind = self.kinds[(key, path)]
                l.pre = leaf_get(I.get(st, key), path)
                l.new = None
                self.leafs.append(l)
        self.symset = {}
        for l in self.leafs:
            self.symset[('phi', l.sym)] = l
            self.symset[('sym', l.sym)] = l
            self.symset[('cont', l.sym)] = l
        rec = Rec(self)
        I.looprecs.append(rec)
        if I.warm:
            ef = self.end_flow()
            for l in self.leafs:
                I.symlog[l.sym] = (l, l.pre, leaf_get(ef.st.env[l.key], l.path) if ef is not None and l.key in ef.st.env else None,
                                   I.loc(s))
        where = [(l.sym, l.key, l.path) for l in self.leafs]
        out = self.summary()
        for f in out:
            if f.kind == 'n':
                for sym, key, path in where:
                    if key in f.st.env:
                        rec.post.setdefault(sym, []).append(leaf_get(f.st.env[key], path))
        return out

    def summary(self):
        idx = self.find_index()
        if idx is not None:
            return self.sum_foreach(idx)
        r = self.sum_fix()
        if r is not None:
            return r
        return self.sum_generic()

    def reindex(self, il, ns, expr, lo):
        I, M = self.I, self.M
        sm = {('sym', il.sym): expr}
        self.subst_all(sm, il)
        del self.symset[('sym', il.sym)]
        self.symset[('sym', ns)] = il
        self.oldisym = il.sym
        il.sym = ns

    def subst_all(self, sm, il=None):
        I, M = self.I, self.M
        memo = {}
        nf = []
        for f in self.flows:
            env = dict(f.st.env)
            for k in self.mods:
                if k in env:
                    v = env[k]
                    env[k] = v if il is not None and k == il.key and il.path == () else M.tsubst(v, sm, memo)
            nf.append(Flow(f.kind, State(env, M.subst(f.st.pc, sm, memo)), M.tsubst(f.val, sm, memo) if f.val is not None else None))
        self.flows = nf
        self.entrypc = M.subst(self.entrypc, sm, memo)
        for l in self.leafs:
            if l is not il:
                l.phi = M.tsubst(l.phi, sm, memo)
        evs = I.events[self.marks[0]:]
        I.events[self.marks[0]:] = [(M.subst(e[0], sm, memo), M.tsubst(e[1], sm, memo), M.tsubst(e[2], sm, memo), e[3]) for e in evs]
        ths = I.throws[self.marks[1]:]
        I.throws[self.marks[1]:] = [(M.subst(e[0], sm, memo),) + tuple(e[1:]) for e in ths]

    def end_flow(self):
        for f in self.flows:
            if f.kind == 'n':
                return f
        return None

    def find_index(self):
        I, M = self.I, self.M
        f = self.end_flow()
        c = self.c if self.s['k'] != 'do' else None
        if f is None or c is None:
            return None
        for l in self.leafs:
            if l.kind not in ('i', 'it'):
                continue
            new = leaf_get(f.st.env[l.key], l.path)
            pos = ('s', l.sym)
            npos = new[2] if l.kind == 'it' and new[0] == 'it' else new
            ppos = l.pre[2] if l.kind == 'it' else l.pre
            stride = 1
            if npos != M.iadd(pos, ('c', 1)):
                d, c0 = M.lin(M.isub(npos, pos))
                if d or c0 < 2 or l.kind != 'i' or ppos[0] != 'c':
                    continue
                stride = c0
            for a in M.atoms_of(c):
                k = M.atoms[a]
                if k[0] != 'cmp' or len(M.atoms_of(c)) > 1:
                    continue
                N = None
                pos_lit = M.mk(a, 1, 0) == c
                if k[1] == '<' and k[2] == pos and pos_lit:
                    N = k[3]
                elif k[1] == '==' and not pos_lit and (k[2] == pos or k[3] == pos):
                    N = k[3] if k[2] == pos else k[2]
                elif k[1] == '<' and k[3] == pos and not pos_lit:
                    N = M.iadd(k[2], ('c', 1))
                if N is None:
                    continue
                if any(x in self.symset for x in M.tsymbols(N) if x != ('cont', None)):
                    continue
                if stride > 1:
                    if N[0] != 'c' or k[1] != '<':
                        continue
                    n = max(0, -(-(N[1] - ppos[1]) // stride))
                    return (l, ('stride', ppos, stride, ('c', n)))
                dom = ('range', N) if ppos == ('c', 0) else ('range2', ppos, N)
                return (l, dom)
        return None

    def deps(self, t):
        syms = self.M.tsymbols(t)
        return [self.symset[x] for x in syms if x in self.symset]

    def final_state(self, values, pc, extra=None):
        """state after the loop; values: {leaf: value}"""
        st = self.st
        I = self.I
        out = State(dict(st.env), pc)
        bykey = {}
        for l in self.leafs:
            bykey.setdefault(l.key, {})[l.path] = values[l]

        def build(phi, path, m):
            if phi[0] == 'obj':
                return ('obj', phi[1], tuple((k, build(x, path + (k,), m)) for k, x in phi[2]))
            return m[path]
        for key, m in bykey.items():
            out.env[key] = build(self.phis[key], (), m)
        return out

    def sum_foreach(self, idx):
        I, M, st = self.I, self.M, self.st
        il, dom = idx
        isym = il.sym
        N = dom[-1]
        lo = ('c', 0)
        if dom[0] == 'range2':
            lo = dom[1]
            dom = ('range', M.isub(dom[2], dom[1]))
        stride = 1
        if dom[0] == 'stride':
            lo, stride = dom[1], dom[2]
            N = ('c', lo[1] + stride * dom[3][1])
            dom = ('range', dom[3])
        # the loop index runs over a known range: terms are re-normalised under that knowledge
        ns = M.fresh('ix')
        M.ranges[ns] = dom
        self.reindex(il, ns, M.iadd(lo, ('s', ns) if stride == 1 else M.unlin({('s', ns): stride}, 0)), lo)
        isym = ns
        endf = self.end_flow()
        exits = [f for f in self.flows if f.kind in ('brk', 'ret')]
        values = {}
        endpos = N if il.kind == 'i' else ('it', il.pre[1], N)
        for l in self.leafs:
            l.new = leaf_get(endf.st.env[l.key], l.path)
        # what no continuing iteration changes keeps its value from before the loop
        sm, inv = {}, set()
        for l in self.leafs:
            if l is not il and l.new == l.phi and l.pre is not None and (l.kind != 'it' or l.pre[0] == 'it'):
                self.bindphi(sm, l, l.pre)
                inv.add(l)
        if sm:
            keep = [(l, l.phi) for l in self.leafs]
            self.subst_all(sm)
            for l, x in keep:
                l.phi = x
        # flags that distinguish the first iteration from the others
        for l in self.leafs:
            if l is not il and l.kind == 'b' and l.pre in (('b', 0), ('b', 1)) and l.new in (('b', 0), ('b', 1)) and l.new != l.pre:
                sm = {}
                c0 = M.cmp('==', ('s', ns), ('c', 0))
                self.bindphi(sm, l, ('b', c0 if l.pre == ('b', 1) else M.NOT(c0)))
                keep = l.phi
                self.subst_all(sm)
                l.phi = keep
        endf = self.end_flow()
        for l in self.leafs:
            l.new = l.phi if l in inv else leaf_get(endf.st.env[l.key], l.path)
        exits = [f for f in self.flows if f.kind in ('brk', 'ret')]
        ne = M.nonempty(dom)
        I.loops.append(('foreach', I.loc(self.s), dom))
        if not exits:
            values[il] = endpos
            todo = [l for l in self.leafs if l is not il]
            pend = []
            for l in todo:
                v = self.fold_simple(l, il, dom, ne)
                if v is None:
                    pend.append(l)
                else:
                    values[l] = v
            if pend:
                # assignments that only depend on unchanged / folded values and loop-local ones
                for l in pend:
                    values[l] = self.fold_generic(l, il, dom)
            return [Flow('n', self.final_state(values, self.post_pc()))]
        # searches
        entry = self.entrypc
        gex = 0
        for f in exits:
            gex = M.OR(gex, I.care(f.st.pc, entry))
        ok = not any(x in self.symset and self.symset[x] is not il for x in M.symbols(gex))
        unmod = all(l.new == l.phi for l in self.leafs if l is not il)
        if ok:
            big = M.mkbig(dom, isym, gex)
            h = max(M.height(gex), M.theight(dom)) + 1
            first = ('fun', 'first', dom, h, ('b', M.subst(gex, {('sym', isym): ('s', ('bi', h))})))
            ipos = M.iadd(lo, first if stride == 1 else M.unlin({first: stride}, 0))
            sm = {('sym', isym): first}
            outs = []
            npc = M.AND(st.pc, M.NOT(big))
            normvals = {il: endpos}
            for l in self.leafs:
                if l is il:
                    continue
                if l.new == l.phi:
                    normvals[l] = l.pre
                else:
                    v = self.fold_simple(l, il, dom, ne)
                    normvals[l] = v if v is not None else self.fold_generic(l, il, dom)
            if npc != 0:
                outs.append(Flow('n', self.final_state(normvals, npc)))
            # exit states
            tot = None
            for f in exits:
                vals = {}
                for l in self.leafs:
                    x = leaf_get(f.st.env[l.key], l.path)
                    if l is il:
                        vals[l] = ('it', il.pre[1], ipos) if il.kind == 'it' and x[0] == 'it' else ipos
                        continue
                    pm = dict(sm)
                    for d in self.leafs:
                        if d is il:
                            continue
                        if d.new == d.phi:
                            self.bindphi(pm, d, d.pre)
                        else:
                            self.bindphi(pm, d, I_typed_atexit(I, d, dom))
                    vals[l] = M.tsubst(x, pm)
                g = I.care(f.st.pc, entry)
                gs = M.subst(g, sm) if len(exits) > 1 else 1
                pc = M.AND(M.AND(st.pc, big), gs)
                if pc == 0:
                    continue
                fs = self.final_state(vals, pc)
                val = f.val
                if val is not None:
                    pm = dict(sm)
                    for d in self.leafs:
                        if d is not il:
                            self.bindphi(pm, d, d.pre if d.new == d.phi else I_typed_atexit(I, d, dom))
                    val = M.tsubst(val, pm)
                outs.append(Flow('n' if f.kind == 'brk' else 'ret', fs, val))
            return I._compact(outs)
        return self.sum_generic(dom=dom, il=il)

    def bindphi(self, sm, l, v):
        if l.kind in ('bf', 'b'):
            sm[('phi', l.sym)] = self.I.tobf(v) if l.kind == 'bf' else self.I.tobool(v)
        elif l.kind == 'c':
            sm[('cont', l.sym)] = v
        elif l.kind == 'it':
            sm[('sym', l.sym)] = v[2] if v[0] == 'it' else v
        else:
            sm[('sym', l.sym)] = v

    def post_pc(self):
        return self.st.pc

    def fold_simple(self, l, il, dom, ne):
        I, M = self.I, self.M
        new, pre = l.new, l.pre
        if new == l.phi:
            return pre
        ds = [d for d in self.deps(new) if d is not il]
        others = [d for d in ds if d is not l]
        if others:
            return None
        dep_idx = il in self.deps(new)
        own = l in ds
        if not own and dep_idx and dom[0] == 'range' and l.kind in ('bf', 'b', 'i', 'c'):
            # only the last round counts
            new = M.tsubst(new, {('sym', il.sym): M.iadd(dom[1], ('c', -1))})
            dep_idx = False
        if l.kind in ('bf', 'b'):
            if new[0] not in ('bf', 'b') or pre[0] not in ('bf', 'b'):
                return None
            f = new[1]
            if not own:
                if not dep_idx:
                    return (l.kind, M.ite(ne, f, pre[1]))
                return None
            pa = [a for a in M.atoms_of(f) if M.atoms[a][0] == 'phi' and M.atoms[a][1] == l.sym and M.atoms[a][3] == EMPTY]
            if len(pa) != 1:
                return None
            f1, f0 = M.restrict(f, pa[0], 1), M.restrict(f, pa[0], 0)
            s = ('phi', l.sym)
            if s in M.symbols(f1) or s in M.symbols(f0):
                return None
            if f1 == 1:
                return (l.kind, M.OR(pre[1], M.mkbig(dom, il.sym, f0)))
            if f0 == 0:
                return (l.kind, M.AND(pre[1], M.NOT(M.mkbig(dom, il.sym, M.NOT(f1)))))
            if ('sym', il.sym) not in M.symbols(f1) and M.AND(f0, M.NOT(f1)) == 0:
                return (l.kind, M.ite(ne, M.OR(M.AND(pre[1], f1), M.mkbig(dom, il.sym, f0)), pre[1]))
            if ('sym', il.sym) not in M.symbols(f0) and M.AND(f0, M.NOT(f1)) == 0:
                # new = (phi & f1(i)) | K
                return (l.kind, M.ite(ne, M.OR(M.AND(pre[1], M.NOT(M.mkbig(dom, il.sym, M.NOT(f1)))), f0), pre[1]))
            return None
        if l.kind == 'c':
            if new[0] == 'seq' and new[1] and new[1][0] == ('all', l.phi):
                suf = new[1][1:]
                if any(x == ('cont', l.sym) for x in M.tsymbols(('seq', suf))):
                    return None
                h = max(M.theight(('seq', suf)), M.theight(dom)) + 1
                suf = M.tsubst(suf, {('sym', il.sym): ('s', ('bi', h))})
                return ('seq', I.seqparts(pre) + (('for', dom, h, suf),))
            if new[0] == 'seq' and new[1] and new[1][-1] == ('all', l.phi):
                # prepended: last round first
                suf = new[1][:-1]
                if any(x == ('cont', l.sym) for x in M.tsymbols(('seq', suf))):
                    return None
                h = max(M.theight(('seq', suf)), M.theight(dom)) + 1
                suf = M.tsubst(suf, {('sym', il.sym): ('s', ('bi', h))})
                return ('seq', (('for', ('rev', dom), h, suf),) + I.seqparts(pre))
            if new[0] == 'upd' and new[1] == l.phi and dom[0] == 'range':
                # each element is replaced by a function of itself and of its index
                ix = ('s', il.sym)
                off = M.isub(new[2], ix)
                if ('sym', il.sym) not in M.tsymbols(off):
                    cur = I.sel(pre, new[2], strip_t(elem_type(I.types.get(l.key, '')) or '?'))
                    el = I.sel(l.phi, new[2], '?')
                    body = self.repl_elem(new[3], l, new[2], pre)
                    if body is not None:
                        h = max(M.theight(body), M.theight(dom), M.theight(off)) + 1
                        return ('mapped', pre, dom, h, off, M.tsubst(body, {('sym', il.sym): ('s', ('bi', h))}))
            if not own and not dep_idx:
                return I.mite(ne, new, pre)
            return None
        if l.kind == 'i':
            if not own and not dep_idx:
                return I.mite(ne, new, pre)
            if new[0] == 'add' and new[1] == ('s', l.sym) and new[2] == ('c', 1):
                return M.iadd(pre, dom[1]) if dom[0] == 'range' else None
            return None
        return None

    def repl_elem(self, t, l, idx, pre):
        """t with reads of element idx of the loop container l replaced by reads of its value before the loop; None
        when t reads anything else of the container"""
        M, I = self.M, self.I
        r = M.tsubst(t, {('cont', l.sym): ('csym', '@pre')})
        bad = []

        def chk(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] in ('bf', 'b') and isinstance(x[1], int):
                    for a in M.allatoms(x[1]):
                        k = M.atoms[a]
                        if k[0] == 'elem' and k[1] == ('csym', '@pre'):
                            if k[2] != idx:
                                bad.append(k)
                        elif k[0] in ('fun', 'cmp', 'big', 'elem') and ('cont', '@pre') in M.tsymbols(k[1:] if k[0] != 'big' else k[1]):
                            bad.append(k)
                    return
                if x and x[0] == 'elem' and len(x) == 3 and x[1] == ('csym', '@pre'):
                    if x[2] != idx:
                        bad.append(x)
                    return
                if x == ('csym', '@pre'):
                    bad.append(x)
                    return
                for y in x:
                    chk(y)
        chk(r)
        if bad:
            return None
        return M.tsubst(r, {('cont', '@pre'): pre})

    def fold_generic(self, l, il, dom, tag='fold', extra=()):
        """uninterpreted fold over all mutually dependent leaves"""
        I, M = self.I, self.M
        comps = []
        work = [l]
        while work:
            x = work.pop()
            if x in comps:
                continue
            comps.append(x)
            if x.new is None:
                continue
            for d in self.deps(x.new):
                if d is not il and d not in comps:
                    work.append(d)
        h = M.theight(dom)
        for x in comps:
            if x.new is not None:
                h = max(h, M.theight(x.new))
            h = max(h, M.theight(x.pre))
        h += 1

        def anon(x):
            sm = {}
            if il is not None:
                sm[('sym', il.sym)] = ('s', ('bi', h))
            for d in comps:
                self.bindphi(sm, d, self.anonval(d, (-1, h)))
            return M.showt(M.tsubst(x.new, sm), 5) if x.new is not None else '?'
        rest = sorted([x for x in comps if x is not l], key=lambda x: (x.kind, anon(x), M.showt(x.pre, 4)))
        order = [l] + rest
        sm = {}
        if il is not None:
            sm[('sym', il.sym)] = ('s', ('bi', h))
        for i, d in enumerate(order):
            self.bindphi(sm, d, self.anonval(d, (h, i)))
        body = tuple(M.tsubst(x.new, sm) if x.new is not None else ('none',) for x in order)
        inits = tuple(x.pre for x in order)
        args = (dom, inits, body) + tuple(extra)
        if l.kind == 'bf':
            s = M.supp(l.pre[1]) if l.pre[0] in ('bf', 'b') else EMPTY
            if l.new is not None and l.new[0] in ('bf', 'b'):
                s = s | M.supp(l.new[1])
            node = M.fun(tag, args, frozenset(s) | self.supps.get((l.key, l.path), EMPTY))
            return ('bf', node)
        if l.kind == 'b':
            return ('b', M.fun(tag, args, EMPTY))
        if l.kind == 'it':
            return ('it', l.pre[1], ('fun', tag) + args)
        return ('fun', tag) + args

    def anonval(self, d, k):
        M = self.M
        if d.kind in ('bf', 'b'):
            s = self.supps.get((d.key, d.path), EMPTY) if d.kind == 'bf' else EMPTY
            return (d.kind, M.atom(('bv', ('f',) + tuple(k), s, EMPTY), s))
        if d.kind == 'c':
            return ('csym', ('f',) + tuple(k))
        if d.kind == 'it':
            return ('it', d.pre[1], ('s', ('f',) + tuple(k)))
        return ('s', ('f',) + tuple(k))

    # ---- convergence loops -----------------------------------------------------
    def sum_fix(self):
        I, M, st, s = self.I, self.M, self.st, self.s
        endf = self.end_flow()
        brks = [f for f in self.flows if f.kind == 'brk']
        rets = [f for f in self.flows if f.kind == 'ret']
        if rets and brks:
            return None
        exits = brks + rets
        entry = self.entrypc
        # is the loop entered?
        if s['k'] in ('for', 'while'):
            sm = {}
            for l in self.leafs:
                self.bindphi(sm, l, l.pre)
            c0 = M.subst(self.c, sm)
            if c0 != 1 and M.AND(st.pc, M.NOT(c0)) != 0:
                return None
        # facts known inside the loop body: the loop condition (cube literals)
        known = {}
        c = self.c
        f = c
        while f > 1:
            a, hi, lo = M.nodes[f]
            k = M.atoms[a]
            if k[0] == 'phi' and (hi == 0 or lo == 0):
                known[('phi', k[1])] = 1 if lo == 0 else 0
                f = hi if lo == 0 else lo
            else:
                break

        def simp(t):
            return M.tsubst(t, known) if known else t
        # exit guard
        E = 0
        contg = 0
        for x in exits:
            E = M.OR(E, M.subst(I.care(x.st.pc, entry), known))
        if endf is not None:
            g = M.subst(I.care(endf.st.pc, entry), known)
            E = M.OR(E, M.AND(g, M.NOT(M.subst(self.endc, known))))
        if E in (0, 1):
            return None
        # end-of-iteration values: merged over all flows
        alls = []
        for x in self.flows:
            alls.append(x.st)
        merged = I.merge([State({k: y.env[k] for k in self.mods if k in y.env}, y.pc) for y in alls])
        if merged is None:
            return None
        for l in self.leafs:
            v = leaf_get(merged.env[l.key], l.path)
            l.new = simp(v) if v is not None else None
        prim = []
        for l in self.leafs:
            if l.kind != 'bf' or l.new is None or l.new[0] not in ('bf', 'b'):
                continue
            if l.new == l.phi:
                continue
            conv = M.valid(M.IFF(l.phi[1], l.new[1]))
            if conv in (0, 1):
                continue
            if M.AND(E, M.NOT(conv)) == 0:
                prim.append(l)
                continue
            # one-sided test of a provably increasing / decreasing sequence
            up = M.AND(l.phi[1], M.NOT(l.new[1])) == 0
            dn = M.AND(l.new[1], M.NOT(l.phi[1])) == 0
            if up and M.AND(E, M.NOT(M.valid(M.IMP(l.new[1], l.phi[1])))) == 0:
                prim.append(l)
            elif dn and M.AND(E, M.NOT(M.valid(M.IMP(l.phi[1], l.new[1])))) == 0:
                prim.append(l)
        if not prim:
            return None
        sols = {}
        infos = []
        for l in prim:
            r = self.solve(l, known)
            if r is not None:
                sols[l] = r
        if not sols:
            return None
        Z = list(sols)[0]
        if len(sols) > 1:
            # prefer the one the others are computed from
            for z in sols:
                others = [l for l in sols if l is not z]
                if all(z in self.deps(o.new) or True for o in others):
                    Z = z
                    break
        R, inv, kindz, body = sols[Z]
        I.loops.append(('fix', I.loc(s), kindz, Z.key))
        sm = dict(known)
        sm[('phi', Z.sym)] = R
        for l, v in inv.items():
            sm[('phi', l.sym)] = M.subst(v, {('phi', Z.sym): R})
        values = {}
        for l in self.leafs:
            if l is Z:
                values[l] = ('bf', R)
                continue
            if l in sols:
                values[l] = ('bf', sols[l][0])
                continue
            if l.new is None:
                values[l] = self.fold_generic(l, None, ('loop',))
                continue
            if l.new == l.phi:
                values[l] = l.pre
                continue
            if l in inv:
                values[l] = ('bf', M.subst(l.new[1], sm))
                continue
            rest = [d for d in self.deps(M.tsubst(l.new, sm))]
            if not rest:
                values[l] = M.tsubst(l.new, sm)
                continue
            if l.kind == 'c' and l.new[0] == 'seq' and l.new[1] and ('all', l.phi) in (l.new[1][0], l.new[1][-1]):
                front = l.new[1][0] != ('all', l.phi)
                suf = l.new[1][:-1] if front else l.new[1][1:]
                sm2 = dict(known)
                for q, v in inv.items():
                    sm2[('phi', q.sym)] = v
                suf2 = M.tsubst(suf, sm2)
                if all(d is Z for d in self.deps(('seq', suf2))):
                    h = max(M.theight(suf2), M.height(body)) + 1
                    zs = self.supps[(Z.key, Z.path)]
                    bvz = M.atom(('bv', ('it', h), zs, EMPTY), zs)
                    suf3 = M.tsubst(suf2, {('phi', Z.sym): bvz})
                    # known during the iteration: growth direction of Z
                    it = (('iter', ('bf', R), 'rev' + kindz if front else kindz, h, suf3),)
                    values[l] = ('seq', it + I.seqparts(l.pre) if front else I.seqparts(l.pre) + it)
                    continue
            if l.kind == 'b':
                # flags: exit value under the exit condition
                v = M.tsubst(l.new, sm)
                ex = I.care(v[1], E) if v[0] == 'b' else None
                if ex in (0, 1):
                    values[l] = ('b', ex)
                    continue
                # flag value when converged
                E2 = M.subst(E, sm)
                if E2 != 0:
                    ex = I.care(v[1], E2)
                    if not [d for d in self.deps(('b', ex))]:
                        values[l] = ('b', ex)
                        continue
            values[l] = self.fold_generic(l, None, ('fix', kindz, ('bf', R)))
        pc = self.post_pc()
        if rets:
            fs = self.final_state(values, pc)
            v = I.merge_vals([x for x in rets]) if rets[0].val is not None else None
            if v is not None:
                v = M.tsubst(simp(v), sm)
                if self.deps(v):
                    return None
            if brks:
                return None
            return [Flow('ret', fs, v)]
        return [Flow('n', self.final_state(values, pc))]

    def solve(self, Z, known):
        """value of the loop variable at convergence: (node, invariants of accumulators, kind, body)"""
        I, M = self.I, self.M
        f = Z.new[1]
        if Z.pre[0] not in ('bf', 'b'):
            return None
        pre = Z.pre[1]
        z = ('phi', Z.sym)
        inv = {}
        for _ in range(6):
            ds = [d for d in self.deps(('bf', f)) if d is not Z and d not in inv]
            if not ds:
                break
            progress = False
            for d in ds:
                r = self.accumulator(d, Z, f, pre)
                if r is not None:
                    inv[d] = r[0]
                    f = r[1]
                    progress = True
                    break
            if not progress:
                return None
        else:
            return None
        pol = M.polarity(f, z)
        phi = Z.phi[1]
        if '-' in pol:
            return None
        if pre == 0 and not pol <= {'+'}:
            return None
        if pre == 0:
            R = M.mkfp('mu', Z.sym, f)
            return R, inv, 'mu', f
        if pre == 1:
            R = M.mkfp('nu', Z.sym, f)
            return R, inv, 'nu', f
        # the first step does not depend on the start value: the iteration runs from the bottom / top element
        fpre = M.subst(f, {z: pre})
        if fpre == M.subst(f, {z: 0}):
            return M.mkfp('mu', Z.sym, f), inv, 'mu', f
        if fpre == M.subst(f, {z: 1}):
            return M.mkfp('nu', Z.sym, f), inv, 'nu', f
        if M.AND(phi, M.NOT(f)) == 0:
            # inflationary: least fixed point above the start value
            g = f
            for a in list(M.atoms_of(f)):
                k = M.atoms[a]
                if k[0] == 'phi' and k[1] == Z.sym and k[3] == EMPTY:
                    g = M.restrict(g, a, 0)
            R = M.mkfp('mu', Z.sym, M.OR(pre, g))
            return R, inv, 'mu+', f
        if M.AND(f, M.NOT(phi)) == 0:
            g = f
            for a in list(M.atoms_of(f)):
                k = M.atoms[a]
                if k[0] == 'phi' and k[1] == Z.sym and k[3] == EMPTY:
                    g = M.restrict(g, a, 1)
            R = M.mkfp('nu', Z.sym, M.AND(pre, g))
            return R, inv, 'nu-', f
        if I.warm and pol <= {'+'} and z in M.symbols(f):
            # iteration resumed from a stored value: accepted here, the start value becomes an obligation
            I.warmlog.append((I.loc(self.s), Z, pre, f))
            return M.mkfp('nu', Z.sym, f), inv, 'nu', f
        if pol <= {'+'} and z in M.symbols(f):
            I.carrylog.append((I.loc(self.s), Z, pre, f))
        # start value known to be a post/pre fixed point: monotone iteration from pre
        f0 = M.subst(f, {z: pre})
        if z not in M.symbols(f):
            return f, inv, 'const', f
        if M.implies(pre, f0):
            R = M.fun('iterup', (('bf', pre), ('bf', M.mkfp('mu', Z.sym, f))), M.supp(f0) | M.supp(pre))
            return None
        return None

    def accumulator(self, L, Z, f, zpre):
        """L only enters f through  L | t(Z)  (or L & t(Z)) for the increasing (decreasing) sequence Z.
        Returns (value of L at the loop head as a function of Z, f with L eliminated)"""
        I, M = self.I, self.M
        if L.kind != 'bf' or L.new is None or L.new[0] not in ('bf', 'b') or L.pre[0] not in ('bf', 'b'):
            return None
        new = L.new[1]
        if any(d is not L and d is not Z for d in self.deps(('bf', new))):
            return None
        pa = [a for a in M.atoms_of(new) if M.atoms[a][0] == 'phi' and M.atoms[a][1] == L.sym and M.atoms[a][3] == EMPTY]
        if len(pa) != 1:
            return None
        phi = L.phi[1]
        n1, n0 = M.restrict(new, pa[0], 1), M.restrict(new, pa[0], 0)
        ls = ('phi', L.sym)
        if ls in M.symbols(n1) or ls in M.symbols(n0):
            return None
        z = ('phi', Z.sym)
        pre = L.pre[1]
        if n1 == 1:
            t = n0
            if '-' in M.polarity(t, z):
                return None
            # t is part of Z's own next value?  (update after Z)  or of the current one
            if zpre not in (0, 1):
                return None
            if M.subst(f, {ls: M.OR(phi, t)}) == f:
                if zpre == 1:
                    # Z decreases: the first round adds everything
                    v = M.OR(pre, M.subst(t, {z: 1}))
                    return v, M.subst(f, {ls: v})
                return M.OR(pre, t), M.subst(f, {ls: pre})
            # updated with the new value of Z at the end of the iteration: L = pre | t'(Z)
            return None
        if n0 == 0:
            t = n1
            if '-' in M.polarity(t, z):
                return None
            if zpre not in (0, 1):
                return None
            if M.subst(f, {ls: M.AND(phi, t)}) == f:
                if zpre == 0:
                    v = M.AND(pre, M.subst(t, {z: 0}))
                    return v, M.subst(f, {ls: v})
                return M.AND(pre, t), M.subst(f, {ls: pre})
            return None
        return None

    # ---- anything else ---------------------------------------------------------
    def sum_generic(self, dom=None, il=None):
        I, M, st = self.I, self.M, self.st
        flows = self.flows
        I.loops.append(('generic', I.loc(self.s), None))
        merged = I.merge([State({k: y.st.env[k] for k in self.mods if k in y.st.env}, y.st.pc) for y in flows])
        for l in self.leafs:
            l.new = leaf_get(merged.env[l.key], l.path) if merged and l.key in merged.env else None
        if dom is None:
            dom = ('loop',)
        values = {}
        for l in self.leafs:
            if l.new == l.phi:
                values[l] = l.pre
            else:
                values[l] = self.fold_generic(l, il, dom, tag='loop')
        outs = []
        rets = [f for f in flows if f.kind == 'ret']
        canexit = self.s.get('c') is not None or self.s['k'] == 'forr' or any(f.kind == 'brk' for f in flows)
        pc = st.pc
        if rets:
            g = M.fun('loopret', (dom,), EMPTY)
            vals = dict(values)
            fs = self.final_state(vals, M.AND(pc, g))
            v = None
            if rets[0].val is not None:
                v = I.typed(I.stack[-1].fn.get('rt', ''), 'loopval', (dom,))
                if all(r.val == rets[0].val for r in rets) and not self.deps(rets[0].val):
                    v = rets[0].val
            outs.append(Flow('ret', fs, v))
            pc = M.AND(pc, M.NOT(g))
        if canexit:
            outs.append(Flow('n', self.final_state(values, pc)))
        return outs


def I_typed_atexit(I, d, dom):
    if d.kind == 'bf':
        return ('bf', I.M.fun('atexit', (dom, ('s', str(d.key))), I.model.allcats))
    if d.kind == 'b':
        return ('b', I.M.fun('atexit', (dom, ('s', str(d.key))), EMPTY))
    if d.kind == 'it':
        return ('it', d.pre[1], ('fun', 'atexit', dom, ('s', str(d.key))))
    return ('fun', 'atexit', dom, ('s', str(d.key)))


def exec_loop(I, s, st):
    return Loop(I, s, st).run()

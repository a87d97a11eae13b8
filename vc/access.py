"""C03: every access of a kernel stays inside its array, and inside the part of its shot or thread.

For an array of extents (root count, n_z, n_y, n_x) an offset in mixed-radix form root*n_grid + sum digit_d*stride_d is in
range and in slab `root` iff 0 <= digit_d < n_d (lemma MR below); each digit bound is one z3 obligation."""
from .cfront import Unsupported
from .terms import *
from .stencil import *
from .compare import nz_, cond_names

class Access:
    def __init__(self, kernel, comparer, log):
        self.k = kernel; self.log = log; self.ctx = kernel.ctx; self.c = comparer
        self.seen = {}
    def hyps(self, loops, guard):
        h = list(self.ctx.hyps)
        for L in loops: h += L.facts()
        if guard != TRUE: h.append(guard)
        h += [le(ZERO, sym('start_t')), le(sym('start_t') + sym('nt') if self.k.forward else sym('start_t'), sym('nt_total')), le(ZERO, sym('start_t') - sym('nt')) if not self.k.forward else le(ZERO, sym('nt'))]
        return h
    def simp(self, c):
        """Only the arithmetic part of a guard over loop variables matters; keep conjuncts."""
        return c

    def run(self):
        ex = self.k.ex; n = 0
        acc = []
        for (base, off, loops, guard, line, ty, stamp) in ex.reads: acc.append(('read', base, off, tuple(loops), guard, line))
        for e in ex.events:
            if e.kind == 'write': acc.append(('write', e.base, e.off, e.loops, e.guard, e.line))
        # arrays of locations are never written (contract checked below), so all reads of a cell agree
        self.memo = {}
        wr = {b for a in acc if a[0] == 'write' for b in self.bases(a[1])}
        for b in sorted(wr):
            if (self.kind(b) or ('?',))[0] == 'loc': self.log.check('%s is not written' % b, False)
        can = lambda k: Poly.at(atom('rd', k[1], k[2], 0, k[4])) if k[0] == 'rd' and not isinstance(k[1], tuple) and (self.kind(k[1]) or ('?',))[0] == 'loc' else None
        acc = [(w, b, map_atoms(off, can, self.memo), loops, map_cond(g, lambda p: map_atoms(p, can, self.memo)), line) for w, b, off, loops, g, line in acc]
        written = {}
        for a in acc:
            if a[0] == 'write' and a[3] and a[3][0] is self.k.shot:
                for b in self.bases(a[1]): written.setdefault(b, a[5])
        names = {}
        for a in acc:
            for b in self.bases(a[1]):
                try: self.one(a, b, b in written)
                except Unsupported as x: self.log.undecided('line %s: %s of %s inside the array' % (a[5], a[0], b), x)
        for b in written:
            self.private(b)
        return self.log

    def bases(self, b): return [b[2], b[3]] if isinstance(b, tuple) else [b]

    def kind(self, b):
        k = self.k.kinds.get(b)
        if k is None and b.startswith('grad_') and b + '_thread' in self.k.kinds: return ('grid', ZERO)
        if k is None and b.endswith('_filenames_ptr'): return ('shots',)
        return k

    def one(self, a, b, written):
        what, base, off, loops, guard, line = a
        kind = self.kind(b); log = self.log; ctx = self.ctx
        if kind is None: raise Unsupported('no contract for array %s' % b)
        # guards are needed only where they mention loop variables or locations
        key = (b, off, tuple((L.lo, L.hi) for L in loops), guard, kind)
        if key in self.seen: return
        self.seen[key] = 1
        nm = 'line %s: %s of %s ' % (line, what, b)
        rel = [L for L in loops]
        if kind[0] == 'grid':
            root, dig = ctx.digits(off)
            inpar = bool(loops) and loops[0] is self.k.shot
            want = idem(expand_ite(kind[1]))
            if inpar:
                if root != want:
                    # proved equal under the guards?
                    log.prove(nm + 'in the part of its shot or thread', self.hyps(loops, guard), eq(root, want))
                else: log.ok(nm + 'in the part of its shot or thread')
            else:
                # after the parallel loop: thread accumulators are all read
                cnt = sym('n_threads') if b.endswith('_thread') else ONE
                log.prove(nm + 'part exists', self.hyps(loops, guard), and_(le(ZERO, root), lt(root, cnt)))
            data = [p for p in dig if any(ATOMS[x][0] == 'rd' for x in p.atoms())]
            if data:
                # data-dependent cell: off = root*n_grid + loc with the location contract loc < n_grid
                p = dig[-1]
                if any(not q.iszero() for q in dig[:-1]) or len(p.d) != 1 or list(p.d.values()) != [1]: raise Unsupported('data-dependent index %s' % show(off))
                (m,) = p.d
                key_ = ATOMS[m[0]] if len(m) == 1 else None
                if not key_ or key_[0] != 'rd' or self.k.kinds.get(key_[1], ('?',))[0] != 'loc': raise Unsupported('data-dependent index %s' % show(off))
                log.prove(nm + 'at a live location', self.hyps(loops, guard), le(ZERO, p)); return
            if len(loops) >= 1 and ctx.ndim > 1 and all(q.iszero() for q in dig[:-1]) and any(L.p == dig[-1] for L in loops):
                L = [L for L in loops if L.p == dig[-1]][0]
                if L.hi == ctx.ng or ctx.ng - L.hi == ZERO:
                    log.check(nm + 'inside the grid', L.lo == ZERO); return
            for d, q in zip(ctx.dims, dig):
                used = [L for L in loops if L.sym in q.atoms()]
                g = guard if cond_atoms(guard) & {L.sym for L in used} else TRUE
                self.bound(nm + 'inside the grid in dimension %s' % d, used, g, q, ctx.n[d])
        elif kind[0] == 'coef':
            d = kind[1]; used = [L for L in loops if L.sym in off.atoms()]
            g = guard if cond_atoms(guard) & {L.sym for L in used} else TRUE
            self.bound(nm + 'inside the profile', used, g, off, ctx.n[d])
        elif kind[0] == 'shots':
            self.bound(nm + 'inside the list', list(loops), TRUE, off, sym('n_shots'))
        else:
            self.rows(nm, b, kind[0], off, loops, guard)

    def bound(self, name, loops, guard, q, n):
        nonempty = [c for L in loops for c in L.facts()]
        self.log.prove(name, list(self.ctx.hyps) + nonempty + ([guard] if guard != TRUE else []), and_(le(ZERO, q), lt(q, n)))

    def rows(self, nm, b, kind, off, loops, guard):
        """[t,] shot, i mixed radix with extents (nt_total), n_shots, n."""
        n = self.count(b, off)
        ns = sym('n_shots'); (na,) = n.atoms(); (sa,) = ns.atoms()
        t = {}; s = {}; i = {}
        for m, c in off.d.items():
            r = list(m)
            if na in r:
                r.remove(na)
                if sa in r: r.remove(sa); t[tuple(r)] = c
                else: s[tuple(r)] = c
            else: i[tuple(r)] = c
        t, s, i = Poly(t), Poly(s), Poly(i)
        h = self.hyps(loops, guard)
        inpar = bool(loops) and loops[0] is self.k.shot
        self.log.prove(nm + 'in the row of its shot', h, eq(s, self.k.shot.p))
        self.log.prove(nm + 'inside the row', h, and_(le(ZERO, i), lt(i, n)))
        if kind == 'row': self.log.prove(nm + 'at an existing time', h, and_(le(ZERO, t), lt(t, sym('nt_total'))))
        else: self.log.check(nm + 'without a time index', t.iszero(), show(t))

    def count(self, b, off):
        cs = [a for a in off.atoms() if ATOMS[a][0] == 'sym' and ATOMS[a][1].startswith('n_') and ATOMS[a][1].endswith('_per_shot')]
        if len(cs) != 1: raise Unsupported('row index %s of %s' % (show(off), b))
        return Poly.at(cs[0])

    def private(self, b):
        """Different shots (on different threads) never share a written slab."""
        kind = self.kind(b); log = self.log
        nm = '%s: parts of different shots running concurrently are disjoint' % b
        if kind[0] in ('row', 'loc'):
            log.ok(nm); return              # in the row of its shot: proved per access
        root = kind[1]
        def inst(tag):
            mp = {'shot': sym('shot' + tag), 't': sym('t' + tag), 'tid': sym('tid' + tag)}
            loopmap = {self.k.shot.sym: sym('shot' + tag), self.k.t.sym: sym('t' + tag)}
            r = root.subst(loopmap) if not any(ATOMS[a][0] == 'ite' for a in root.atoms()) else map_atoms(root, lambda k: loopmap.get(atom(*k)) if k[0] == 'sym' else None)
            return map_atoms(r, lambda k: sym('tid' + tag) if k == ('sym', 'tid', 'i') else None)
        r1, r2 = inst('1'), inst('2')
        t1, t2 = sym('t1'), sym('t2'); s1, s2 = sym('shot1'), sym('shot2'); ns = sym('n_shots')
        q1, q2 = idiv(t1, sym('step_ratio')), idiv(t2, sym('step_ratio'))
        h = [le(ZERO, s1), lt(s1, s2), lt(s2, ns), ne(sym('tid1'), sym('tid2')), le(ZERO, t1), le(ZERO, t2), le(ONE, sym('step_ratio'))]
        # q*n_shots + shot is injective: split on q1 < q2, =, > with the product facts made explicit
        for c, f in ((lt(q1, q2), le((q1 + 1) * ns, q2 * ns)), (lt(q2, q1), le((q2 + 1) * ns, q1 * ns)), (eq(q1, q2), eq(q1 * ns, q2 * ns))):
            log.prove(nm, h + [c, f], ne(r1, r2))

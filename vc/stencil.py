"""Normal form of a propagator kernel: per array, the ordered list of stages of one time step, over shift-invariant atoms.

  ('F', array, version, shift)   value of a grid array at the current cell + shift, after `version` stages of this step
  ('C', array, dim, k)           1-D profile at the current coordinate of dim + k
Everything is derived from the events of csym (i.e. from the source text); nothing here knows the wave equations.
"""
from .cfront import Unsupported
from .terms import *
from .csym import Exec, Loop, Event
from . import terms

def ind(c):
    """0/1 polynomial of a condition, normal form: products of atomic indicators."""
    if c == TRUE: return ONE
    if c == FALSE: return ZERO
    if c[0] == 'and':
        r = ONE
        for x in c[1]: r = r * ind(x)
        return idem(r)
    if c[0] == 'or':
        r = ONE
        for x in c[1]: r = r * (ONE - ind(x))
        return idem(ONE - r)
    if c[0] == 'not': return ONE - ind(c[1])
    if c[0] == 'cmp':
        n = not_(c)
        if c[1] == '!=' or (c[1] == '<=' and show_cond(n) < show_cond(c)): return ONE - Poly.at(atom('ite', n, ONE, ZERO))
        if c[1] == '<' and show_cond(n) < show_cond(c): return ONE - Poly.at(atom('ite', n, ONE, ZERO))
    return Poly.at(atom('ite', c, ONE, ZERO))

def is_ind(a): k = ATOMS[a]; return k[0] == 'ite' and k[2] == ONE and k[3] == ZERO
def idem(p):
    out = Poly({})
    d = {}
    for m, c in p.d.items():
        if len(m) != len(set(m)):
            seen = []
            for a in m:
                if a in seen and is_ind(a): continue
                seen.append(a)
            m = tuple(seen)
        d[m] = d.get(m, 0) + c
    return Poly({m: c for m, c in d.items() if c})

def expand_ite(p):
    for _ in range(50):
        mp = {}
        for a in p.atoms():
            k = ATOMS[a]
            if k[0] == 'ite' and not (is_ind(a) and ind(k[1]) == Poly.at(a)):
                c = ind(k[1]); mp[a] = c * k[2] + (ONE - c) * k[3]
        if not mp: return idem(p)
        p = p.subst(mp)
    raise Unsupported('ite expansion')

class Ctx:
    def __init__(self, ndim, acc, slack=0):
        self.ndim = ndim; self.acc = acc; self.R = acc // 2
        self.dims = ['z', 'y', 'x'][3 - ndim:]
        self.n = {d: sym('n' + d) for d in self.dims}
        self.na = {d: next(iter(self.n[d].atoms())) for d in self.dims}
        self.p0 = {d: sym('pml_%s0' % d) for d in self.dims}
        self.p1 = {d: sym('pml_%s1' % d) for d in self.dims}
        self.ng = ONE
        for d in self.dims: self.ng = self.ng * self.n[d]
        self.hyps = []
        for d in self.dims:
            self.hyps += [le(P(self.R), self.p0[d]), le(self.p0[d], self.p1[d]), le(self.p0[d], self.n[d] - self.R), le(self.p1[d], self.n[d] - self.R + slack)]
        self.hyps += [le(ZERO, sym('n_shots')), le(ONE, sym('n_threads')), le(ZERO, sym('tid')), lt(sym('tid'), sym('n_threads')),
                      le(ONE, sym('step_ratio')), le(ZERO, sym('nt'))]
    def digits(self, off):
        """off = R*n_grid + sum_d digit_d * stride_d; returns (R, [digit_d])."""
        off = expand_ite(off); nd = self.ndim
        out = [dict() for _ in range(nd + 1)]
        idx = [self.na[d] for d in self.dims]
        for m, c in off.d.items():
            cnt = [m.count(i) for i in idx]
            # trailing ones
            j = nd
            while j > 0 and cnt[j - 1] == 1: j -= 1
            if any(x > 1 for x in cnt) or any(cnt[i] for i in range(j)): raise Unsupported('offset %s is not in mixed-radix form' % show(off))
            rest = tuple(a for a in m if a not in idx)
            out[j][rest] = out[j].get(rest, 0) + c
        # out[0]: multiplied by every extent -> root; out[j]: strides of dims j-1
        return Poly({m: c for m, c in out[0].items() if c}), [Poly({m: c for m, c in out[j].items() if c}) for j in range(1, nd + 1)]

class Piece:
    def __init__(self, ev, box, guard, val): self.ev = ev; self.box = box; self.guard = guard; self.val = val
class CStage:
    def __init__(self, kind, base): self.kind = kind; self.base = base; self.pieces = []; self.events = []

class Problem(Exception):
    """A refuted obligation found while normalising (with a name and detail)."""

class Kernel:
    """contract: dict(kinds={name: ('grid', root) | ('coef', dim) | ('row',) | ('loc',)}, pairs=[(a, b)], forward=bool)"""
    def __init__(self, ex, ctx, kinds, pairs, forward, log):
        self.ex = ex; self.ctx = ctx; self.forward = forward; self.log = log
        self.pairs = {}
        for a, b in pairs: self.pairs[(a, b)] = a; self.pairs[(b, a)] = b
        self.inpair = {x for ab in pairs for x in ab}
        self.split_phases()
        self.kinds = {n: ((k[0], k[1](self.shot.p, self.t.p)) if k[0] == 'grid' else k) for n, k in kinds.items()}
        self.build_stages()

    # -- loops ---------------------------------------------------------------------------------------------
    def split_phases(self):
        ex = self.ex
        self.shot = self.t = None
        for e in ex.events:
            if e.loops and e.loops[0].parallel and self.shot is None: self.shot = e.loops[0]
        if self.shot is None: raise Unsupported('no parallel loop over shots')
        for e in ex.events:
            if len(e.loops) > 1 and e.loops[0] is self.shot:
                self.t = e.loops[1] if self.t is None else self.t
                if e.loops[1] is not self.t: raise Unsupported('several time loops')
        if self.t is None: raise Unsupported('no time loop')
        self.pre = []; self.body = []; self.post = []; self.shotpost = []
        seen_body = False
        for e in ex.events:
            if e.loops and e.loops[0] is self.shot:
                if len(e.loops) > 1: self.body.append(e); seen_body = True
                elif seen_body: self.shotpost.append(e)
                else: self.pre.append(e)
            else: self.post.append(e)
        self.tau = self.t.p - sym('start_t') if self.forward else sym('start_t') - 1 - self.t.p
        self.par = cmp_('!=', imod(self.tau, P(2)))
        self.npar = not_(self.par)

    def loop_obligations(self):
        L = self.log; st, nt = sym('start_t'), sym('nt')
        L.eq('shot loop starts at 0', self.shot.lo, ZERO, self.ctx.hyps); L.eq('shot loop ends at n_shots', self.shot.hi, sym('n_shots'), self.ctx.hyps)
        if self.forward: lo, hi, d = st, st + nt, 1
        else: lo, hi, d = st - nt, st, -1
        L.eq('time loop: first step of the range', self.t.lo, lo, self.ctx.hyps); L.eq('time loop: last step of the range', self.t.hi, hi, self.ctx.hyps)
        L.check('time loop direction', self.t.step == d)
        for h, g, what in self.ex.side: L.prove(what, list(self.ctx.hyps) + list(h), g)

    # -- bases ---------------------------------------------------------------------------------------------
    def logical(self, base):
        if isinstance(base, tuple):
            _, c, a, b = base           # c ? a : b
            if c == self.par: p = (b, a)
            elif c == self.npar: p = (a, b)
            else:
                # not syntactically the parity of the step count: ask the solver
                h = self.ctx.hyps + self.t.facts() + [le(ZERO, sym('start_t'))]
                r1 = prove(h, or_(and_(c, self.par), and_(not_(c), self.npar)))
                r2 = prove(h, or_(and_(c, self.npar), and_(not_(c), self.par)))
                if r1[0] == 'proved': p = (b, a)
                elif r2[0] == 'proved': p = (a, b)
                elif r1[0] == 'refuted' and r2[0] == 'refuted':
                    self.log.fail('buffers alternate with the parity of the steps done', 'selected by %s; %s' % (show_cond(c), r1[1])); p = (b, a)
                else: raise Unsupported('buffer selection')
            if p not in self.pairs:
                raise Unsupported('unexpected buffer pair %s' % (p,))
            return self.pairs[p]
        if base in self.inpair:
            self.log.fail('double-buffered array %s addressed through the parity of the step' % base, 'accessed directly')
        return base

    def nest(self, e): return e.loops[2:]

    # -- stages --------------------------------------------------------------------------------------------
    def build_stages(self):
        self.stages = {}; self.records = []; self.calls = []
        for e in self.body:
            if e.kind == 'call':
                self.calls.append(e)
                for b in e.writes:
                    lb = self.logical(b)
                    if 'load' in e.name and lb.endswith('store_1'):
                        s = CStage('load', lb); s.events.append(e); self.stages.setdefault(lb, []).append(s)
                continue
            e.lbase = self.logical(e.base)
            kind = self.kinds.get(e.lbase)
            if kind is None: raise Unsupported('write to %s' % e.lbase)
            if kind[0] == 'row': self.records.append(e); continue
            if kind[0] != 'grid':
                self.log.fail('%s is not written' % e.lbase, 'written at line %s' % e.line); continue
            e.root, e.dig = self.ctx.digits(e.off)
            nest = self.nest(e)
            syms = [L.p for L in nest]
            own = []
            for p in e.dig:
                q = [s for s in syms if (p - s).isconst()]
                own.append((q[0], (p - q[0]).cval()) if q else None)
            e.foreach = all(o is not None for o in own) and len({next(iter(o[0].atoms())) for o in own}) == self.ctx.ndim and len(nest) == self.ctx.ndim
            st = self.stages.setdefault(e.lbase, [])
            if e.foreach:
                e.box = []
                for (s, k) in own:
                    L = next(L for L in nest if L.p == s)
                    e.box.append((L.lo + k, L.hi + k))
                cur = st[-1] if st and st[-1].kind == 'update' else None
                if cur is not None and not any(f.kind == 'call' and f.stamp > cur.events[0].stamp and e.lbase in map(self.logical, f.writes) for f in self.calls if False):
                    same = [x for x in cur.events if x.loops == e.loops and x.dig == e.dig]
                    if same or all(self.disjoint(e.box, x.box) for x in cur.events):
                        if same:
                            # a later write of the same cell in the same iteration
                            x = same[-1]
                            if e.guard != TRUE: e.val = ite(e.guard, e.val, x.val); e.guard = or_(e.guard, x.guard)
                            cur.events = [y for y in cur.events if y not in same]
                        cur.events.append(e); continue
                s = CStage('update', e.lbase); s.events.append(e); st.append(s)
            else:
                s = CStage('accum', e.lbase); s.events.append(e); st.append(s)
        for b, st in self.stages.items():
            for s in st:
                s.first = min(x.stamp for x in s.events); s.last = max(x.stamp for x in s.events)

    _dj = {}
    def disjoint(self, a, b):
        for (l1, h1), (l2, h2) in zip(a, b):
            k = (l1, h1, l2, h2, self.ctx.ndim, self.ctx.R)
            r = Kernel._dj.get(k)
            if r is None:
                if h1 == l2 or h2 == l1: r = True
                else: r = prove(self.ctx.hyps, or_(le(h1, l2), le(h2, l1)))[0] == 'proved'
                Kernel._dj[k] = r
            if r: return True
        return False

    # -- reads ---------------------------------------------------------------------------------------------
    def version(self, e, base, stamp, box, own):
        """Version of `base` seen by a read with this stamp in event e covering `box` (None: data dependent)."""
        v = 0
        for s in self.stages.get(base, []):
            done = [x for x in s.events if x.stamp < stamp or (x is not e and x.kind == 'write' and x.loops == e.loops and not own) or (x is e and not own)]
            if not done: break
            if len(done) == len(s.events) and not any(x.kind == 'write' and x.loops == e.loops for x in s.events): v += 1; continue
            if s.kind != 'update' or box is None:
                if s.events[0] is e: break       # own accumulation
                raise Unsupported('read of %s while it is being updated' % base)
            if own:
                d2 = [x for x in done if x.loops != e.loops]
                if all(self.disjoint(box, x.box) for x in d2): break
                if any(x.box == box for x in done): v += 1; continue
                raise Unsupported('read of partially updated %s' % base)
            if all(self.disjoint(box, x.box) for x in done): break
            raise Unsupported('line %s reads neighbours of %s while the same pass updates it' % (e.line, base))
        return v

    def resolve(self, e, p):
        """Rewrite the reads of polynomial p (value or guard of event e)."""
        memo = e.__dict__.setdefault('_memo', {})
        return map_atoms(p, lambda k: self.res_atom(e, k), memo)
    def resolve_cond(self, e, c):
        return map_cond(c, lambda p: self.resolve(e, p))

    def res_atom(self, e, k):
        if k[0] != 'rd': return None
        _, base, off, stamp, ty = k
        lb = self.logical(base)
        kind = self.kinds.get(lb)
        if kind is None: raise Unsupported('read of %s' % lb)
        if kind[0] == 'coef':
            d = kind[1]; j = self.ctx.dims.index(d)
            if getattr(e, 'foreach', False):
                q = off - e.dig[j]
                if q.isconst(): return Poly.at(atom('C', lb, d, int(q.cval())))
            raise Unsupported('profile %s indexed by %s' % (lb, show(off)))
        if kind[0] == 'grid':
            root, dig = self.ctx.digits(off)
            if root != idem(expand_ite(kind[1])):
                self.bad_root(e, lb, root, kind[1])
            if getattr(e, 'foreach', False):
                sh = []
                for a, b in zip(dig, e.dig):
                    q = a - b
                    if not q.isconst(): raise Unsupported('read of %s at %s' % (lb, show(off)))
                    sh.append(int(q.cval()))
                own = not any(sh)
                box = [(l + s, h + s) for (l, h), s in zip(e.box, sh)]
                v = self.version(e, lb, stamp, box, own)
                return Poly.at(atom('F', lb, v, tuple(sh)))
            v = self.version(e, lb, stamp, None, off == e.off and lb == e.lbase)
            return Poly.at(atom('G', lb, v, self.canon(e, off - root * self.ctx.ng)))
        return Poly.at(atom('rdi' if kind[0] == 'loc' else 'rd', lb, self.canon(e, off)))

    def canon(self, e, p):
        """Rename the loop symbols of an event to canonical ones."""
        mp = {}
        for j, L in enumerate(self.nest(e)): mp[L.sym] = sym('i%d' % j)
        mp[self.shot.sym] = sym('shot'); mp[self.t.sym] = sym('t')
        return map_atoms(p, lambda k: (mp.get(atom(*k)) if k[0] == 'sym' else (Poly.at(atom('rdi' if k[4][0] == 'int' else 'rd', k[1], k[2])) if k[0] == 'rd' and len(k) == 5 else None)))
    def canon_cond(self, e, c): return map_cond(c, lambda p: self.canon(e, p))

    def bad_root(self, e, lb, root, want):
        self.log.fail('%s: slot of the current shot/time' % lb, 'line %s uses root %s, contract: %s' % (e.line, show(root), show(want)))

    def check_roots(self):
        for b, st in self.stages.items():
            want = idem(expand_ite(self.kinds[b][1])); bad = None
            for s in st:
                for e in s.events:
                    if e.kind == 'write':
                        if e.root != want: bad = e
            if bad is not None: self.bad_root(bad, b, bad.root, self.kinds[b][1])
            else: self.log.ok('%s: every write goes to the slot of the current shot/time' % b)

"""Kernel normal form against specification: every difference is a named obligation."""
import itertools
from .cfront import Unsupported
from .terms import *
from .stencil import *
from .spec import *
from .csym import sizeof

def conds_of(p, out=None, seen=None):
    """Atomic conditions inside ite atoms of p."""
    if out is None: out = []; seen = set()
    def c_(c):
        if c[0] in ('and', 'or'):
            for x in c[1]: c_(x)
        elif c[0] == 'not': c_(c[1])
        elif c[0] == 'cmp':
            n = not_(c)
            if c not in out and n not in out: out.append(c)
            for a in c[2].atoms(): a_(a)
    def a_(a):
        if a in seen: return
        seen.add(a)
        k = ATOMS[a]
        if k[0] == 'ite': c_(k[1]); p_(k[2]); p_(k[3])
    def p_(q):
        for a in q.atoms(): a_(a)
    p_(p)
    return out

def assume(p, asg):
    """Simplify the ites of p under the truth assignment asg: {cond: bool}."""
    def cc(c):
        if c in asg: return TRUE if asg[c] else FALSE
        n = not_(c)
        if n in asg: return FALSE if asg[n] else TRUE
        if c[0] == 'and': return and_(*[cc(x) for x in c[1]])
        if c[0] == 'or': return or_(*[cc(x) for x in c[1]])
        if c[0] == 'not': return not_(cc(c[1]))
        return c
    for _ in range(30):
        mp = {}
        for a in p.atoms():
            k = ATOMS[a]
            if k[0] == 'ite':
                c = cc(k[1])
                if c == TRUE: mp[a] = k[2]
                elif c == FALSE: mp[a] = k[3]
        if not mp: return p
        p = p.subst(mp)
    return p

def cases(p, facts, limit=10):
    cs = conds_of(p)
    if not cs: yield p, facts; return
    if len(cs) > limit: raise Unsupported('too many case distinctions (%d)' % len(cs))
    def go(i, asg, fs):
        if i == len(cs): yield assume(p, asg), fs; return
        for b in (True, False):
            c = cs[i] if b else not_(cs[i])
            f2 = fs + [c]
            if satisfiable(f2) == z3.unsat: continue
            a2 = dict(asg); a2[cs[i]] = b
            yield from go(i + 1, a2, f2)
    yield from go(0, {}, list(facts))

def nz_(n): return cmp_('!=', sym(n))
def GRADFLAGS(a, k):
    """(condition 'one gradient per shot', name of the requires_grad flag) of a gradient accumulator, from its contract."""
    b = {x for x in cond_names(k.kinds[a][1]) if x.endswith('_batched')}
    n, = b
    return nz_(n), n[:-len('_batched')] + '_requires_grad'
def cond_names(p, out=None):
    if out is None: out = set()
    for x in p.atoms():
        key = ATOMS[x]
        if key[0] == 'sym': out.add(key[1])
        if key[0] == 'ite':
            for y in cond_atoms(key[1]): cond_names(Poly.at(y), out)
            cond_names(key[2], out); cond_names(key[3], out)
    return out

class Comparer:
    def __init__(self, kernel, spec, zero, domain, log, feeds=None):
        """zero(array, role) -> list of (dim, lo, hi) inside which the atom vanishes (interface contract);
        domain(dim, kind) -> (lo, hi)."""
        self.k = kernel; self.s = spec; self.zero = zero; self.domain = domain; self.log = log
        self.ctx = kernel.ctx; self._z = {}; self.zero_used = set()

    def in_range(self, lo, hi, k, zlo, zhi):
        key = (lo, hi, k, zlo, zhi)
        r = self._z.get(key)
        if r is None:
            h = self.ctx.hyps + [lt(lo, hi)]
            r = prove(h, and_(le(zlo, lo + k), le(hi - 1 + k, zhi - 1)))[0] == 'proved'
            self._z[key] = r
        return r

    def drop_zeros(self, p, box):
        """Remove the monomials with a factor that vanishes on the box by the interface contract."""
        mem = {}
        def z(a):
            r = mem.get(a)
            if r is not None: return r
            k = ATOMS[a]; r = False
            if k[0] in ('C', 'F'):
                for (d, zlo, zhi) in self.zero(k[1]):
                    j = self.ctx.dims.index(d); sh = k[3] if k[0] == 'C' else k[3][j]
                    lo, hi = box[j]
                    if self.in_range(lo, hi, sh, zlo, zhi): r = True; self.zero_used.add(k[1]); break
            mem[a] = r; return r
        return Poly({m: c for m, c in p.d.items() if not any(z(a) for a in m)})

    def box_facts(self, box):
        fs = list(self.ctx.hyps)
        for L in (self.k.shot, self.k.t): fs += L.facts()
        return fs

    def run(self):
        log = self.log; k = self.k; s = self.s
        k.loop_obligations(); k.check_roots()
        arrays = list(dict.fromkeys(list(s.stages) + list(k.stages)))
        for a in arrays:
            try: self.array(a)
            except Unsupported as e: log.undecided('%s: stages of one time step' % a, e)
        try: self.records()
        except Unsupported as e: log.undecided('records', e)
        try: self.snapshots()
        except Unsupported as e: log.undecided('snapshot calls', e)
        try: self.combine()
        except Unsupported as e: log.undecided('combination of the gradients of the threads', e)
        return log

    # -- snapshots: every save/load call passes the arguments of its contract -------------------------------
    def equiv(self, name, a, b, hyps=()):
        if a == b: self.log.ok(name); return
        self.log.prove(name, self.ctx.hyps + list(hyps), or_(and_(a, b), and_(not_(a), not_(b))))

    def leaves(self, o, c=TRUE):
        if o[0] == 'ite':
            yield from self.leaves(o[2], and_(c, o[1])); yield from self.leaves(o[3], and_(c, not_(o[1])))
        else: yield c, o

    def snapshots(self):
        log = self.log; k = self.k; ctx = self.ctx; fwd = k.forward
        shot, t = k.shot.p, k.t.p; ng = ctx.ng
        todo = [e for e in k.calls if 'snapshot' in e.name]
        for e in k.calls:
            if e not in todo: raise Unsupported('call of %s in the time loop' % e.name)
        want = {}
        if fwd:
            for c in self.s.calls: want[c.name] = (c.guard, c)
        else:
            for a, st in self.s.stages.items():
                for x in st:
                    if x.kind == 'load': want[x.name] = (x.guard, x)
        verb = 'save' if fwd else 'load'
        files = {}
        for name, (g, st) in want.items():
            what = '%s of %s: ' % (verb, name)
            mine = [e for e in todo if e.args[0][0] == 'p' and e.args[0][1].base == name + '_store_1']
            if not mine: log.fail(what + 'performed', 'no call in the time loop'); continue
            if len(mine) > 1: raise Unsupported('several %ss of %s' % (verb, name))
            e = mine[0]; todo.remove(e)
            log.check(what + 'performed', verb in e.name, e.name)
            # in terms of shot, t: the loop variables themselves
            tr = lambda q: k.resolve(e, q)
            trc = lambda c: k.resolve_cond(e, c)
            self.equiv(what + 'exactly at the sampled steps', trc(e.guard), g, k.t.facts())
            hy = ctx.hyps + [g] + k.t.facts()
            p0 = e.args[0][1]
            log.eq(what + 'buffer slot of the shot and step', idem(expand_ite(p0.off)), idem(expand_ite(k.kinds[name + '_store_1'][1] * ng)), hy)
            p1 = e.args[1][1] if e.args[1][0] == 'p' else None
            if p1 is None: raise Unsupported('compressed buffer argument')
            comp = and_(cmp_('==', sym('storage_mode')), nz_('storage_compression'))
            w1 = (shot + ite(comp, idiv(t, sym('step_ratio')) * sym('n_shots'), ZERO)) * sym('shot_bytes_comp')
            log.check(what + 'compressed buffer is that of the same quantity', p1.base == name + '_store_2', p1.base)
            u = 1 if p1.ty in (('void',),) else sizeof(p1.ty)
            log.eq(what + 'compressed slot of the shot and step', idem(expand_ite(p1.off * u)), idem(expand_ite(w1)), hy)
            if e.args[2][0] != 'o': raise Unsupported('file argument')
            disk = cmp_('==', sym('storage_mode') - 2)
            bad = None; nfile = 0
            for c, leaf in self.leaves(e.args[2][1]):
                fs = hy + [trc(c), trc(e.guard), disk]
                ok = leaf[0] == 'fopen' and leaf[1][0] == 'rdp' and leaf[1][1] == name + '_filenames_ptr' and leaf[1][2] == shot
                if ok:
                    nfile += 1; md = leaf[2][1].strip('"')
                    good = md in ('ab', 'ab+', 'a+b') if fwd else md in ('rb', 'rb+', 'r+b')
                    log.check(what + 'file opened for ' + ('appending' if fwd else 'reading'), good, md)
                    continue
                if satisfiable(fs) != z3.unsat: bad = leaf
            log.check(what + 'file of the shot and quantity', bad is None and nfile, bad)
            log.check(what + 'storage mode passed', e.args[3] == ('i', sym('storage_mode')), e.args[3])
            log.check(what + 'compression flag passed', self.k.ex.cond(e.args[4]) == nz_('storage_compression'), e.args[4])
            log.eq(what + 'sample number', e.args[5][1], idiv(t, sym('step_ratio')), hy)
            log.check(what + 'sizes passed', e.args[6] == ('i', sym('shot_bytes_uncomp')) and e.args[7] == ('i', sym('shot_bytes_comp')), '%s %s' % (e.args[6], e.args[7]))
            log.check(what + 'shape passed', [a[1] for a in e.args[8:]] == [ctx.n[d] for d in ctx.dims], e.args[8:])
            if fwd:
                ws = [x for s_ in k.stages.get(name + '_store_1', []) for x in s_.events]
                log.check(what + 'after the quantity has been stored', all(x.stamp < e.stamp for x in ws))
        for e in todo: log.fail('no other snapshot is touched', '%s at line %s' % (e.name, e.line))
        # files: everything opened is closed (flushed)
        op = [e for e in k.pre if e.kind == 'call' and e.name == 'fopen']
        cl = [e for e in k.shotpost if e.kind == 'call' and e.name == 'fclose']
        for e in k.pre + k.shotpost:
            if e.kind == 'call' and e not in op and e not in cl: raise Unsupported('call of %s' % e.name)
            if e.kind == 'write': log.fail('frame: no other write in the shot loop', 'line %s' % e.line)
        for e in op:
            f = ('fopen', e.args[0][1], e.args[1][1])
            cs = [or_(*[and_(c.guard, cc) for cc, leaf in self.leaves(c.args[0][1]) if leaf == f]) for c in cl if c.args[0][0] == 'o']
            log.prove('file %s is closed after the last step' % (e.args[0][1][1],), ctx.hyps + [e.guard], or_(*cs))

    # -- combination of per-thread gradients ----------------------------------------------------------------
    def combine(self):
        log = self.log; k = self.k; ctx = self.ctx
        post = list(k.post)
        grads = [a for a in self.s.stages if a.startswith('grad_') and a.endswith('_thread')]
        for a in grads:
            out = a[:-len('_thread')]; what = '%s: sum over the threads' % out
            ws = [e for e in post if e.kind == 'write' and e.base == out]
            root = k.kinds[a][1]; flag = None
            for n in k.ex.params:
                pass
            batched_c, req = GRADFLAGS(a, k)
            want_g = and_(nz_(req), not_(batched_c), lt(ONE, sym('n_threads')))
            if not ws: log.fail(what, 'never combined'); continue
            if len(ws) > 1: raise Unsupported('%s written in several places' % out)
            e = ws[0]; post.remove(e)
            self.equiv(what + ' exactly when several threads accumulated a shared model', e.guard, want_g)
            R, dig = ctx.digits(e.off)
            if not R.iszero(): raise Unsupported('combined gradient offset')
            loops = list(e.loops); thr = [L for L in loops if not any(L.sym in d.atoms() for d in dig) and L.sym not in e.off.atoms()]
            thr_val = None
            own = None
            memo = {}
            i = sym('threadk'); 
            def rd(key):
                if key[0] == 'rd' and key[1] == out and key[2] == e.off: return Poly.at(atom('G', out, 0, ZERO))
                if key[0] == 'rd' and key[1] == a: return Poly.at(atom('G', a, 0, key[2] - e.off))
                return None
            v = map_atoms(e.val, rd, memo); v0 = v - Poly.at(atom('G', out, 0, ZERO))
            if len(thr) == 1:
                L = thr[0]; ok = v0 == Poly.at(atom('G', a, 0, L.p * ctx.ng)); lo, hi = L.lo, L.hi
                # the inner loop accumulates in memory: each thread once
            elif not thr and len(v0.d) == 1:
                (m, c), = v0.d.items(); key = ATOMS[m[0]] if len(m) == 1 else ('?',)
                if c != 1 or key[0] != 'sum': raise Unsupported('combined value %s' % show(v0))
                ok = key[4] == Poly.at(atom('G', a, 0, Poly.at(key[1]) * ctx.ng)); lo, hi = key[2], key[3]
            else: raise Unsupported('combination loop')
            log.check(what + ': adds the accumulator of each thread', ok, show(v))
            log.eq(what + ': all threads', lo, ZERO, ctx.hyps); log.eq(what + ': all threads', hi, sym('n_threads'), ctx.hyps)
            # cells
            space = [L for L in loops if L not in thr]
            dom = self.s.stages[a][0].dom if a in self.s.stages else {d: 'i' for d in ctx.dims}
            if len(space) == 1 and ctx.ndim > 1 and e.off == space[0].p:
                log.prove(what + ': all cells', ctx.hyps, and_(eq(space[0].lo, ZERO), eq(space[0].hi, ctx.ng)))
            elif len(space) == ctx.ndim:
                for d, q in zip(ctx.dims, dig):
                    L = [L for L in space if L.p == q]
                    if not L: raise Unsupported('combination loop')
                    lo_, hi_ = self.domain(d, dom[d])
                    log.prove(what + ': all cells of dimension %s, inside the array' % d, ctx.hyps, and_(le(L[0].lo, lo_), le(hi_, L[0].hi), le(ZERO, L[0].lo), le(L[0].hi, ctx.n[d])))
            else: raise Unsupported('combination loop')
        for e in post:
            if e.kind == 'write': log.fail('frame: nothing else is written after the shot loop', '%s at line %s' % (e.base, e.line))
            else: raise Unsupported('call of %s after the loop' % e.name)

    def array(self, a):
        cs = self.k.stages.get(a, []); ss = self.s.stages.get(a, [])
        log = self.log
        if not ss: log.fail('frame: %s is unchanged by the step' % a, 'written at line %s' % cs[0].events[0].line); return
        if not cs: log.fail('%s: updated as specified' % a, 'the code never writes it'); return
        km = {'update': 'update', 'accum': 'inject', 'load': 'load'}
        ck = [km[c.kind] for c in cs]; sk = [x.kind for x in ss]
        if ck != sk:
            if sorted(ck) == sorted(sk) or ck.count('update') == sk.count('update'):
                log.fail('%s: order of updates and injections' % a, 'code %s, specification %s' % (ck, sk)); return
            raise Unsupported('%s: code has stages %s, specification %s' % (a, ck, sk))
        log.ok('%s: order of updates and injections' % a)
        i = 0
        while i < len(cs):
            if sk[i] == 'inject':
                j = i
                while j < len(cs) and sk[j] == 'inject': j += 1
                self.injects(a, cs[i:j], ss[i:j]); i = j; continue
            if sk[i] == 'update': self.update(a, cs[i], ss[i], '' if i == 0 else '#%d' % i)
            i += 1

    def dom_box(self, st): return [self.domain(d, st.dom[d]) for d in self.ctx.dims]

    def update(self, a, c, s, tag):
        log = self.log; k = self.k
        old = Poly.at(atom('F', a, s.pre, (0,) * self.ctx.ndim))
        dom = self.dom_box(s)
        boxes = []
        for e in c.events:
            name = '%s%s: new value on [%s]' % (a, tag, ', '.join('%s..%s' % (show(l), show(h)) for l, h in e.box))
            inside = and_(*[and_(le(dl, l), le(h, dh)) for (l, h), (dl, dh) in zip(e.box, dom)])
            nonempty = [lt(l, h) for l, h in e.box]
            if not all(l == dl and h == dh or prove(self.ctx.hyps + nonempty, and_(le(dl, l), le(h, dh)))[0] == 'proved' for (l, h), (dl, dh) in zip(e.box, dom)):
                log.prove('%s%s: only written inside its domain' % (a, tag), self.ctx.hyps + nonempty, inside)
            try:
                val = k.resolve(e, e.val); g = k.resolve_cond(e, e.guard)
            except Unsupported as x:
                log.undecided(name, x); boxes.append(e.box); continue
            boxes.append(e.box)
            want = s.expr
            if g == s.guard: diff = val - want
            else: diff = ite(g, val, old) - ite(s.guard, want, old)
            self.zero_diff(name, diff, e.box, e)
        self.coverage(a, tag, boxes, dom, s, old)

    def unfold(self, p, box):
        """Replace the own-cell value of an array after an (unguarded) update of this step by its specified value."""
        zero = (0,) * self.ctx.ndim
        for _ in range(8):
            mp = {}
            for a in p.atoms():
                k = ATOMS[a]
                if k[0] != 'F' or k[2] == 0 or k[3] != zero: continue
                st = self.s.stages.get(k[1], [])
                if k[2] > len(st): continue
                st = st[k[2] - 1]
                if st.kind != 'update' or st.guard != TRUE: continue
                dom = self.dom_box(st)
                if all(l == dl and h == dh or prove(self.ctx.hyps + [lt(l, h) for l, h in box], and_(le(dl, l), le(h, dh)))[0] == 'proved' for (l, h), (dl, dh) in zip(box, dom)):
                    mp[a] = st.expr
            if not mp: return p
            p = self.drop_zeros(p.subst(mp), box)
        return p

    def zero_diff(self, name, diff, box, e=None):
        diff = self.drop_zeros(diff, box)
        if not diff.iszero(): diff = self.unfold(diff, box)
        if diff.iszero(): self.log.ok(name); return
        facts = self.box_facts(box)
        # loop symbols of e range over its box
        if e is not None:
            for L in self.k.nest(e): facts += L.facts()
        bad = None; n = 0
        for p, fs in cases(diff, facts):
            p = self.drop_zeros(p, box)
            n += 1
            if not p.iszero(): bad = (p, fs); break
        if bad is None: self.log.ok(name, 'poly+z3'); return
        if satisfiable(facts + [lt(l, h) for l, h in box]) == z3.unsat: self.log.ok(name, 'z3'); return
        self.log.fail(name, 'code - specification = %s%s' % (show(bad[0], 12), (' when ' + ' and '.join(map(show_cond, bad[1][len(facts):]))) if len(bad[1]) > len(facts) else ''))

    def coverage(self, a, tag, boxes, dom, s, old):
        log = self.log; ctx = self.ctx; key = (tuple(map(tuple, boxes)), tuple(dom))
        unc = self._z.get(key)
        if unc is None:
            unc = []
            cuts = []
            for d, (lo, hi) in zip(ctx.dims, dom):
                c0 = ctx.p0[d]; c1 = ctx.p1[d]
                if s.dom[d] == 'h': c1 = ite(lt(ctx.p1[d] - 1, ctx.p0[d]), ctx.p0[d], ctx.p1[d] - 1)
                cuts.append([(lo, c0), (c0, c1), (c1, hi)])
            if tuple(map(tuple, dom)) in [tuple(map(tuple, b)) for b in boxes]: cuts = []
            for cell in itertools.product(*cuts) if cuts else []:
                cell = list(cell)
                if any(list(b) == cell for b in boxes): continue
                if all(Kernel.disjoint(self.k, cell, b) for b in boxes): unc.append(cell); continue
                xs = [sym('pt_' + d) for d in ctx.dims]
                inside = [x for q, (l, h) in zip(xs, cell) for x in (le(l, q), lt(q, h))]
                out = [or_(*[or_(lt(q, l), le(h, q)) for q, (l, h) in zip(xs, b)]) for b in boxes]
                r = satisfiable(ctx.hyps + inside + out)
                if r != z3.unsat: unc.append(cell)
            self._z[key] = unc
        for cell in unc:
            self.zero_diff('%s%s: unchanged where the code does not write [%s]' % (a, tag, ', '.join('%s..%s' % (show(l), show(h)) for l, h in cell)),
                           ite(s.guard, s.expr, old) - old, cell)
        if not unc: log.ok('%s%s: every cell of the domain written exactly once' % (a, tag), 'z3')

    # -- data-dependent accesses ---------------------------------------------------------------------------
    def row(self, arr, n): return sym('t') * sym('n_shots') * n + sym('shot') * n + sym('i0')
    def locat(self, loc, n): return Poly.at(atom('rdi', loc, sym('shot') * n + sym('i0')))

    def canon_event(self, e):
        k = self.k
        if len(k.nest(e)) != 1: raise Unsupported('loop nest of the access at line %s' % e.line)
        L = k.nest(e)[0]
        val = k.canon(e, k.resolve(e, e.val)); off = k.canon(e, k.resolve(e, e.off)); g = k.canon_cond(e, k.resolve_cond(e, e.guard))
        return dict(off=off, val=val, guard=g, lo=k.canon(e, L.lo), hi=k.canon(e, L.hi), line=e.line)

    def guard_eq(self, name, ce, n, loc):
        i = sym('i0')
        want = and_(le(ZERO, loc), le(ZERO, i), lt(i, n))
        got = and_(ce['guard'], le(ce['lo'], i), lt(i, ce['hi']))
        if want == got: self.log.ok(name); return
        h = self.ctx.hyps + [le(ZERO, n)]
        self.log.prove(name, h, or_(and_(want, got), and_(not_(want), not_(got))))

    def injects(self, a, cs, ss):
        log = self.log; todo = [self.canon_event(c.events[0]) for c in cs]
        pre = ss[0].pre
        for j, s in enumerate(ss):
            n = sym(s.n); loc = self.locat(s.loc, n)
            cell = loc; amp = Poly.at(atom('rd', s.amp, self.row(s.amp, n))) * s.scale
            name = '%s: adds %s at %s' % (a, s.amp, s.loc)
            best = None
            for c in todo:
                root = self.k.canon(None_event(self.k, cs[0].events[0]), self.k.kinds[a][1]) * self.ctx.ng
                own = [Poly.at(atom('G', a, v, c['off'] - root)) for v in range(pre, pre + len(ss) + 1)]
                d = None
                for o in own:
                    if o.atoms() <= c['val'].atoms(): d = c['val'] - o; break
                if d is None: continue
                if idem(expand_ite(c['off'] - root)) == cell and d == amp: best = c; break
            if best is None:
                c = todo[min(j, len(todo) - 1)] if todo else None
                log.fail(name, 'specification: [%s] += %s; code: [%s] = %s' % (show(cell), show(amp), show(c['off']) if c else '-', show(c['val']) if c else '-'))
                continue
            todo.remove(best); log.ok(name)
            self.guard_eq('%s: exactly for the live locations' % name, best, n, loc)

    def records(self):
        log = self.log; k = self.k
        code = []
        for e in k.records:
            code.append((e.lbase, self.canon_event(e)))
        for s in self.s.records:
            n = sym(s.n); loc = self.locat(s.loc, n)
            name = '%s: records %s at %s' % (s.out, '+'.join(a for a, v in s.arrs), s.loc)
            mine = [x for x in code if x[0] == s.out]
            if not mine: log.fail(name, 'never written'); continue
            if len(mine) > 1: raise Unsupported('%s written in %d places' % (s.out, len(mine)))
            code.remove(mine[0]); c = mine[0][1]
            want = ZERO
            for a, v in s.arrs: want = want + Poly.at(atom('G', a, v, loc))
            off = self.row(s.out, n)
            if c['off'] != off: log.fail(name + ': sample of the current time and shot', 'index %s, specification %s' % (show(c['off']), show(off)))
            else: log.ok(name + ': sample of the current time and shot')
            if c['val'] != want:
                bad = None
                for p, fs in cases(c['val'] - want, self.ctx.hyps + [c['guard']]):
                    if not p.iszero(): bad = p
                if bad is not None: log.fail(name, 'value %s, specification %s' % (show(c['val']), show(want)))
                else: log.ok(name)
            else: log.ok(name)
            self.guard_eq(name + ': exactly for the live locations', c, n, loc)
        for b, c in code: log.fail('frame: %s is unchanged by the step' % b, 'written at line %s' % c['line'])

def None_event(k, e): return e

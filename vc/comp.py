"""Contracts of simple_compress.c and storage_utils.c (all three dimensions, both types), proved from the symbolic execution of
the real functions (csym). Everything is stated per cell c = (cz, cy, cx) of the grid: a loop nest that writes at offset
f(loops) is solved for the iteration that writes the entry of cell c (a witness is guessed from c, c div K, c mod K and proved
to be an iteration; uniqueness is a separate obligation), and the values are compared at that iteration."""
import itertools
from .cfront import load, Unsupported
from .csym import Exec, sizeof, repr_key
from .terms import *
from .terms import ATOMS
from . import terms
from .log import Log
DIMS = {1: ('x',), 2: ('y', 'x'), 3: ('z', 'y', 'x')}
def symname(nd, d): return 'n' + d

def mention(p, seen=None):
    """names of the symbols in p, nested terms included"""
    out = set(); seen = set() if seen is None else seen
    def go(q):
        if isinstance(q, Poly):
            for a in q.atoms():
                if a in seen: continue
                seen.add(a); k = ATOMS[a]
                if k[0] == 'sym': out.add(k[1])
                for y in k[1:]: go(y)
        elif isinstance(q, tuple):
            for y in q: go(y)
    go(p); return out
def divisors(p, out):
    def go(q):
        if isinstance(q, Poly):
            for a in q.atoms():
                k = ATOMS[a]
                if k[0] in ('div', 'mod') and k[2].isconst(): out.add(k[2].cval())
                for y in k[1:]: go(y)
        elif isinstance(q, tuple):
            for y in q: go(y)
    go(p)

class Grid:
    def __init__(self, nd):
        self.nd = nd; self.dims = DIMS[nd]; self.n = {d: sym('n' + d) for d in self.dims}; self.c = {d: sym('c' + d) for d in self.dims}
        self.hyps = [le(1, n) for n in self.n.values()] + [h for d in self.dims for h in (le(0, self.c[d]), lt(self.c[d], self.n[d]))]
        self.N = ONE
        for n in self.n.values(): self.N = self.N * n
        self.nat = {d: next(iter(n.atoms())) for d, n in self.n.items()}
    def index(self, c):
        r = ZERO
        for d in self.dims: r = r * self.n[d] + c[d]
        return r
    def digits(self, off):
        """off as (z*ny + y)*nx + x -> {dim: digit}; the digits contain no size"""
        out = {d: {} for d in self.dims}
        for m, c in off.d.items():
            ns = sorted(a for a in m if a in self.nat.values()); rest = tuple(a for a in m if a not in self.nat.values())
            for i, d in enumerate(self.dims):
                if ns == sorted(self.nat[e] for e in self.dims[i + 1:]): out[d][rest] = c; break
            else: raise Unsupported('offset %s is not that of a cell' % show(off))
        return {d: Poly(x) for d, x in out.items()}

class Var:
    """a loop (or reduction) variable with its range"""
    def __init__(self, a, lo, hi): self.a = a; self.lo = lo; self.hi = hi; self.p = Poly.at(a)
    def facts(self): return [le(self.lo, self.p), lt(self.p, self.hi)]

def sub(x, mp):
    f = lambda k: None
    def at(p):
        return map_atoms(p, lambda k: mp.get(atom(*k)), {})
    if isinstance(x, Poly): return at(x)
    return map_cond(x, at)

class Solver:
    """finds and proves the iteration that belongs to cell c"""
    def __init__(self, g, log): self.g = g; self.log = log
    def assoc(self, vs, dig):
        names = {'n' + d: d for d in self.g.dims}; out = {}
        for v in vs:
            s = {names[x] for x in mention((v.lo, v.hi)) if x in names}
            for w, d in out.items():
                if ATOMS[w][1] in mention((v.lo, v.hi)): s.add(d)
            if not s and dig: s = {d for d, p in dig.items() if v.a in p.atoms()}
            if len(s) != 1: raise Unsupported('the loop over %s does not belong to one dimension' % ATOMS[v.a][1])
            out[v.a] = s.pop()
        return out
    def solve(self, vs, dig, what, extra=(), outer={}):
        """witness: {loop symbol: Poly over c}; extra: further conditions that hold at the witness; outer: substitution for other symbols"""
        g = self.g; K = set()
        for v in vs: divisors((v.lo, v.hi), K)
        K = sorted(K | {8}); vs = [Var(v.a, sub(v.lo, outer), sub(v.hi, outer)) for v in vs]
        by = self.assoc(vs, dig); w = dict(outer)
        for d in g.dims:
            mine = [v for v in vs if by[v.a] == d]; c = g.c[d]; cand = [c] + [f(c, P(k)) for k in K for f in (idiv, imod)]
            for combo in itertools.product(cand, repeat=len(mine)):
                mp = dict(w, **{}); mp.update({v.a: x for v, x in zip(mine, combo)})
                goal = and_(*[sub(f, mp) for v in mine for f in v.facts()], *([eq(sub(dig[d], mp), c)] if dig else []), *[sub(e, mp) for dd, e in extra if dd == d])
                if prove(g.hyps, goal)[0] == 'proved': w = mp; break
            else: raise Unsupported('%s: no iteration found for cell c%s' % (what, d))
        return w
    def unique(self, vs, dig, what):
        """two iterations that reach the same cell are the same iteration"""
        g = self.g; by = self.assoc(vs, dig); seen = []
        for d in g.dims:
            mine = [v for v in vs if by[v.a] == d]
            if not mine: continue
            mp = {v.a: sym('other_' + ATOMS[v.a][1]) for v in mine}
            fs = [f for v in mine for f in v.facts()]
            hy = g.hyps + fs + [sub(f, mp) for f in fs] + [eq(dig[d], sub(dig[d], mp))]
            self.log.prove('%s: every %s is handled by exactly one iteration' % (what, d), hy, and_(*[eq(v.p, mp[v.a]) for v in mine]))
    def inside(self, vs, dig, what, guard=TRUE):
        g = self.g
        for d in g.dims:
            self.log.prove('%s: %s inside the grid' % (what, d), g.hyps + [f for v in vs for f in v.facts()] + [guard], and_(le(0, dig[d]), lt(dig[d], g.n[d])))

def loopvars(ev): return [Var(next(iter(L.p.atoms())), L.lo, L.hi) for L in (ev if isinstance(ev, tuple) else ev.loops)]

def blocks(vs, off, what, log):
    """off is the mixed-radix number of the loop variables: distinct, in [0, product of the ranges). Returns the product."""
    for pm in itertools.permutations(vs):
        r = ZERO
        for v in pm: r = r * v.hi + v.p
        if r == off and all(v.lo.iszero() for v in vs):
            log.ok(what); t = ONE
            for v in vs: t = t * v.hi
            return t
    raise Unsupported('%s: %s' % (what, show(off)))

def verify(nd, dtype, spoil=None):
    log = Log('simple_compress %dD %s' % (nd, dtype)); g = Grid(nd); sz = sizeof(('flt', dtype))
    try: _verify(log, g, nd, dtype, sz, spoil)
    except Unsupported as x: log.undecided('functions in the supported subset', x)
    return log

def get(u, nd, dtype, fn, args):
    n = 'simple_compress_%s_cpu_%dd_%s' % (fn, nd, dtype)
    if n not in u.funcs: raise Unsupported('no function ' + n)
    want = args + ['n' + d for d in DIMS[nd]]
    if len(u.funcs[n]['params']) != len(want): raise Unsupported('parameters of ' + n)
    E = Exec(u, names=want); E.run(n)
    for h, goal, what in E.side:
        if prove(h, goal)[0] != 'proved': raise Unsupported(what)
    return E

def maxatom(p):
    out = set()
    def go(q):
        if isinstance(q, Poly):
            for a in q.atoms():
                k = ATOMS[a]
                if k[0] == 'max': out.add(a); continue
                for y in k[1:]: go(y)
        elif isinstance(q, tuple):
            for y in q: go(y)
    go(p); return out

def reads(p):
    out = set()
    def go(q):
        if isinstance(q, Poly):
            for a in q.atoms():
                k = ATOMS[a]
                if k[0] == 'rd': out.add(a)
                if k[0] != 'max':
                    for y in k[1:]: go(y)
        elif isinstance(q, tuple):
            for y in q: go(y)
    go(p); return out

def _verify(log, g, nd, dtype, sz, spoil):
    u = load('simple_compress.c', nd, 4, dtype); F = ('flt', dtype); U8 = ('int', 1, False); S = Solver(g, log)
    # ---- compression
    E = get(u, nd, dtype, 'compress', ['input', 'output'])
    for e in E.events:
        if e.kind != 'write': raise Unsupported('call of ' + e.name)
        if e.base != 'output': log.fail('compress: frame: only the output is written', repr(e)); return
    wm = [e for e in E.events if e.ty == F]; wb = [e for e in E.events if e.ty == U8]
    if len(wm) != 1 or len(wb) != 1: raise Unsupported('compress: %d and %d stores' % (len(wm), len(wb)))
    wm, wb = wm[0], wb[0]; vm, vb = loopvars(wm), loopvars(wb)
    if wm.guard != TRUE or wb.guard != TRUE: raise Unsupported('conditional store')
    loopat = {v.a for v in vb}
    H = Poly({m: c for m, c in wb.off.d.items() if not set(m) & loopat})
    db = g.digits(wb.off - H)
    S.inside(vb, db, 'compress: bytes'); S.unique(vb, db, 'compress: bytes')
    wit = S.solve(vb, db, 'compress: bytes'); log.ok('compress: bytes: every cell is written')
    # block maxima
    nb = blocks(vm, wm.off, 'compress: each block has its own maximum', log)
    log.eq('compress: the bytes follow the maxima of the blocks', H, nb * sz, g.hyps)
    want = ONE
    for d in g.dims: want = want * idiv(g.n[d] + 7, P(8))
    if nb != want:
        hs = [v.hi for v in vm]; ws = [idiv(g.n[d] + 7, P(8)) for d in g.dims]; by = S.assoc(vm, None)
        for v in vm: log.prove('compress: no more blocks than room is allocated for: ' + by[v.a], g.hyps, le(v.hi, idiv(g.n[by[v.a]] + 7, P(8))))
    else: log.ok('compress: no more blocks than room is allocated for')
    # the maximum covers the cell and stays in its block
    ms = maxatom(wm.val)
    if len(ms) != 1 or wm.val != Poly.at(next(iter(ms))): raise Unsupported('compress: maximum %s' % show(wm.val, 4))
    ma = next(iter(ms)); k = ATOMS[ma]; tup = lambda x: x if isinstance(x, tuple) else (x,)
    rv = [Var(a, lo, hi) for a, lo, hi in zip(tup(k[1]), tup(k[2]), tup(k[3]))]; body, start = k[4], k[5]
    log.check('compress: the maximum starts from zero', start.iszero(), show(start))
    rd = [a for a in reads(body)]
    if len(rd) != 1 or ATOMS[rd[0]][1] != 'input' or ATOMS[rd[0]][4] != F: raise Unsupported('compress: maximum of %s' % show(body, 4))
    dr = g.digits(ATOMS[rd[0]][2])
    x = sym('x', 'f'); bx = map_atoms(body, lambda kk: x if kk[0] == 'rd' else None)
    log.prove('compress: the maximum is over absolute values', [], and_(or_(eq(bx, x), eq(bx, -x)), le(0, bx)))
    facts_m = [f for v in vm for f in v.facts()]
    S.inside(vm + rv, dr, 'compress: maximum')
    # the block of the cell that is quantised
    if vm == vb[:len(vm)] or {v.a for v in vm} <= loopat: outer = {v.a: wit[v.a] for v in vm}
    else: outer = blockwit(S, g, vm, rv)
    ins = S.solve(rv, dr, 'compress: the maximum of the block covers the cell', outer=outer); log.ok('compress: the maximum of the block covers the cell')
    for v in rv:     # extent of a block
        lo, hi = sub(v.lo, outer), sub(v.hi, outer); log.prove('compress: a block has at most 8 cells per dimension', g.hyps, le(hi - lo, 8))
    moff = sub(wm.off, outer)
    # ---- quantised value
    val = sub(wb.val, wit); ka = [ATOMS[a] for a in val.atoms()]
    if len(ka) != 1 or ka[0][0] != 'trunc' or val != Poly.at(atom(*ka[0])): raise Unsupported('compress: stored byte %s' % show(val, 4))
    M, w, r, q = sym('M', 'f'), sym('w', 'f'), sym('r', 'f'), sym('q'); idx = g.index(g.c)
    mx = sub(Poly.at(ma), outer)
    mxa = next(iter(mx.atoms())); okread = [True]
    def rep0(kk):
        if kk[0] == 'max':
            if atom(*kk) != mxa: okread[0] = 'maximum of another block'
            return M
        return None
    def rep(kk):
        if kk[0] == 'rd' and kk[1] == 'input':
            if kk[2] != idx and prove(g.hyps, eq(kk[2], idx))[0] != 'proved': okread[0] = 'reads input[%s]' % show(kk[2])
            return r * M
        if kk[0] == 'rd' and kk[1] == 'output' and kk[4] == F:
            if kk[2] != moff and prove(g.hyps, eq(kk[2], moff))[0] != 'proved': okread[0] = 'reads output[%s]' % show(kk[2])
            return M
        if kk[0] == 'rd': okread[0] = 'reads %s' % kk[1]
        return None
    Ev = map_atoms(map_atoms(ka[0][1], rep0), rep)
    log.check('compress: a byte is made from its cell and the maximum of its block', okread[0] is True, okread[0])
    # ---- decompression
    D = get(u, nd, dtype, 'decompress', ['input', 'output'])
    for e in D.events:
        if e.kind != 'write': raise Unsupported('call of ' + e.name)
        if e.base != 'output' or e.ty != F: log.fail('decompress: frame: only the output is written', repr(e)); return
    if len(D.events) != 1: raise Unsupported('decompress: %d stores' % len(D.events))
    wo = D.events[0]; vo = loopvars(wo)
    if wo.guard != TRUE: raise Unsupported('conditional store')
    do = g.digits(wo.off); S.inside(vo, do, 'decompress: output'); S.unique(vo, do, 'decompress: output')
    wto = S.solve(vo, do, 'decompress: output'); log.ok('decompress: output: every cell is written')
    out = sub(wo.val, wto); boff = sub(wb.off, wit); okread = [True]
    def rep2(kk):
        if kk[0] == 'rd' and kk[1] == 'input' and kk[4] == F:
            if kk[2] != moff and prove(g.hyps, eq(kk[2], moff))[0] != 'proved': okread[0] = 'maximum read at %s, written at %s' % (show(kk[2]), show(moff))
            return M
        if kk[0] == 'rd' and kk[1] == 'input' and kk[4] == U8:
            if kk[2] != boff and prove(g.hyps, eq(kk[2], boff))[0] != 'proved': okread[0] = 'byte read at %s, written at %s' % (show(kk[2]), show(boff))
            return q
        if kk[0] == 'rd': okread[0] = 'reads %s' % kk[1]
        return None
    out = map_atoms(out, rep2)
    log.check('decompress: the byte of the cell and the maximum of its block are read where they were written', okread[0] is True, okread[0])
    # ---- the error
    def resolve(p, hy):
        def f(kk):
            if kk[0] == 'ite':
                if prove(hy, kk[1])[0] == 'proved': return kk[2]
                if prove(hy, not_(kk[1]))[0] == 'proved': return kk[3]
            return None
        return map_atoms(map_atoms(p, f), lambda kk: w if kk[0] == 'inv' and kk[1] == M else None)
    Ma, wa = next(iter(M.atoms())), next(iter(w.atoms()))
    def cancel(p):
        rr = {}
        for m, c in p.d.items():
            m = list(m)
            while Ma in m and wa in m: m.remove(Ma); m.remove(wa)
            m = tuple(m); rr[m] = rr.get(m, 0) + c
        return Poly({m: (c.numerator if getattr(c, 'denominator', 1) == 1 else c) for m, c in rr.items() if c})
    pos = [lt(0, M)]; e1 = cancel(resolve(Ev, pos)); o1 = resolve(out, pos)
    rng = pos + [le(-1, r), le(r, 1)]; tr = [le(q, e1), lt(e1, q + 1)]
    step = Fraction(1, 254) if not spoil else Fraction(1, 256)
    log.prove('quantised value fits into a byte', rng, and_(le(0, e1), lt(e1, 256)))
    # out is M times something: divide
    om = {}; lin = True
    for m, c in o1.d.items():
        if m.count(Ma) != 1: lin = False; break
        mm = list(m); mm.remove(Ma); om[tuple(mm)] = c
    if not lin: raise Unsupported('decompressed value %s' % show(o1))
    of = Poly(om)
    log.prove('error at most half a quantisation step', rng + tr, and_(le(of - r, step), le(-step, of - r)))
    for v in (0, 1, -1):
        log.prove('exact where the value is %s' % ('zero' if not v else 'the extreme of its block'), rng + tr + [eq(r, v)], eq(of, v))
    e0 = resolve(sub(Ev, {Ma: ZERO}), [eq(M, 0)]); o0 = sub(out, {Ma: ZERO})
    e0 = e0 if not maxatom(e0) else e0
    try: log.prove('a block of zeros: quantised value fits into a byte', [], and_(le(0, e0), lt(e0, 256)))
    except Exception as x: raise Unsupported('block of zeros: %s' % x)
    log.check('a block of zeros stays zero', o0.iszero(), show(o0))

def blockwit(S, g, vm, rv):
    """block loops of a separate loop nest: the block whose range contains the cell"""
    by = S.assoc(vm, None); w = {}
    byr = {}
    for v in rv:
        s = [by[x.a] for x in vm if ATOMS[x.a][1] in mention((v.lo, v.hi))]
        if len(s) != 1: raise Unsupported('range of the maximum')
        byr[s[0]] = v
    for d in g.dims:
        mine = [v for v in vm if by[v.a] == d]; r = byr[d]
        for k in (8, 4, 16, 32):
            mp = {v.a: idiv(g.c[d], P(k)) for v in mine}
            goal = and_(*[sub(f, mp) for v in mine for f in v.facts()], le(sub(r.lo, mp), g.c[d]), lt(g.c[d], sub(r.hi, mp)))
            if prove(g.hyps, goal)[0] == 'proved': w.update(mp); break
        else: raise Unsupported('no block found for a cell')
    return w

# ---- storage_utils.c ------------------------------------------------------------------------------------------------
NONE, DEVICE, CPU, DISK = 3, 0, 1, 2
PARAMS = ['store_1', 'store_2', 'fp', 'storage_mode', 'use_compression', 'step_idx', 'step_bytes_uncomp', 'step_bytes_comp']
def storage(nd, dtype, spoil=None):
    log = Log('storage_utils %dD %s' % (nd, dtype))
    try: _storage(log, nd, dtype, spoil)
    except Unsupported as x: log.undecided('functions in the supported subset', x)
    return log
def _storage(log, nd, dtype, spoil):
    u = load('storage_utils.c', nd, 4, dtype); P_ = PARAMS + ['n' + d for d in DIMS[nd]]; dims = [('i', sym('n' + d)) for d in DIMS[nd]]
    for verb in ('save', 'load'):
        fn = 'storage_%s_snapshot_cpu_%dd_%s' % (verb, nd, dtype)
        if fn not in u.funcs: raise Unsupported('no function ' + fn)
        if len(u.funcs[fn]['params']) != len(P_): raise Unsupported('parameters of ' + fn)
        for mode in (NONE, DEVICE, CPU, DISK):
            for comp in (0, 1):
                what = '%s, mode %d%s: ' % (verb, mode, ' compressed' if comp else '')
                E = Exec(u, names=P_, consts={'storage_mode': mode, 'use_compression': comp}); E.run(fn)
                ev = [e for e in E.events if e.guard != FALSE]
                if any(e.guard != TRUE for e in ev): raise Unsupported(what + 'conditional ' + str([e for e in ev if e.guard != TRUE][0]))
                if any(e.kind == 'write' for e in ev): log.fail(what + 'no other memory is written', str([e for e in ev if e.kind == 'write'][0])); continue
                seq = list(ev); size = sym('step_bytes_comp' if comp else 'step_bytes_uncomp'); buf = 'store_2' if comp else 'store_1'
                if spoil: size = sym('step_bytes_uncomp')
                pack = 'simple_compress_%scompress_cpu_%dd_%s' % ('' if verb == 'save' else 'de', nd, dtype)
                src = ('store_1', 'store_2') if verb == 'save' else ('store_2', 'store_1')
                ptr = lambda a: a[1].base if a[0] == 'p' and a[1].off.iszero() else None
                def packing(e): log.check(what + '%scompressed between the buffers of the snapshot, with its shape' % ('' if verb == 'save' else 'de'), e.name == pack and [ptr(a) for a in e.args[:2]] == list(src) and e.args[2:] == dims, repr(e))
                expect = []
                if mode != NONE and comp: expect.append('pack')
                if mode == DISK: expect = (expect + ['io']) if verb == 'save' else (['io'] + expect)
                got = []; pos = None
                for e in seq:
                    if e.name == 'fseek':
                        if ptr(e.args[0]) == 'fp' and e.args[2] == ('i', ZERO): pos = e.args[1][1]
                        elif ptr(e.args[0]) == 'fp': raise Unsupported(what + 'fseek relative to another position')
                        else: log.fail(what + 'file', repr(e))
                    elif e.name in ('fwrite', 'fread'):
                        got.append('io'); log.check(what + 'the file is %s' % ('written' if verb == 'save' else 'read'), e.name == ('fwrite' if verb == 'save' else 'fread'), e.name)
                        log.check(what + 'buffer of the snapshot', ptr(e.args[0]) == buf, str(e.args[0])); log.check(what + 'file of the snapshot', ptr(e.args[3]) == 'fp', str(e.args[3]))
                        log.eq(what + 'size of a snapshot', e.args[1][1] * e.args[2][1], size)
                        if verb == 'load' or pos is not None: log.check(what + 'position of the snapshot', pos is not None and pos == sym('step_idx') * size, show(pos) if pos is not None else 'the current position')
                    elif 'compress' in e.name: got.append('pack'); packing(e)
                    elif e.name in ('fflush',): pass
                    else: raise Unsupported(what + 'call of ' + e.name)
                log.check(what + 'exactly: ' + (', '.join({'pack': 'compression' if verb == 'save' else 'decompression', 'io': 'file access'}[x] for x in expect) or 'nothing'), got == expect, str(got))

if __name__ == '__main__':
    import sys, time
    for nd in (1, 2, 3):
        for dt in ('float', 'double'):
            for f in (verify, storage):
                t = time.time(); l = f(nd, dt); print(l.unit, l.counts(), '%.1fs' % (time.time() - t))
                for i in l.items:
                    if i['status'] != 'proved' or '-v' in sys.argv: print('  ', str(i)[:300])

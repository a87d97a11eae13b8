"""C12: Hicks interpolation. One-dimensional weights for every real location (contract of _get_hicks_for_one_location_dim, cache included);
assembly, source and receiver operators for concrete cell patterns and arbitrary weights, amplitudes and numbers of samples (bounded)."""
import math, itertools
from vc.pysym import *
from vc.pysym import mul as pmul
from vc import pysym, pytorch as pt
from vc.report import Report, SEED
from . import pyprop
from .c11 import split_known
BETAS = [0.0, 1.84, 3.04, 4.14, 5.26, 6.40, 7.51, 8.56, 9.56, 10.64]
EPS = Fraction(1, 100000); PI_ = P(pysym.rat(math.pi))

def weight(x, hw, mono, beta, eps=EPS):
    """Kaiser-windowed sinc (or its derivative) at offset x"""
    k = pmul(fn_('i0', beta * sqrt_(1 - x * x * Fraction(1, hw * hw))), inv(fn_('i0', beta)))
    if mono: return pmul(fn_('sinc', x), k)
    return pmul(pmul(fn_('cos', x * PI_) - fn_('sinc', x), inv(x * x + eps)) * x, k)

def loc_(tag, fl):
    k = mk(sym('k' + tag, 'i'), 'i'); ph = mk(sym('phi' + tag, 'f'), 'f')
    assume(le(0, ph.p)); assume(lt(ph.p, 1)); return k, ph

def surf(tag, kind):
    f = mk(sym('f' + tag, 'i'), 'i'); return f if kind == 'whole' else f + 0.5

def halves(ph):
    p = Path.cur
    return ph if p.decide(lt(ph.p, Fraction(1, 2))) or p.decide(lt(Fraction(1, 2), ph.p)) else S(P(Fraction(1, 2)), 'f')

def check(it, name, out, k, ph, hw, mono, beta, F0, F1, xph=None, spoil=False):
    """out = (cells, weights) for the location k + ph: every cell of the window on the near side of the free surfaces, once, with its weight minus its mirror images"""
    l, w = out; p = Path.cur; n = l.shape_[0]; xph = ph if xph is None else xph
    it.true('%s: one-dimensional' % name, len(l.shape_) == 1 and len(w.shape_) == 1); it.equal('%s: one weight per cell' % name, w.shape_[0], n)
    i = sym('i', 'i'); assume(le(0, i)); assume(lt(i, pt.sz(n)))
    c = l.at(i); lo, hi = k.p - hw + 1, k.p + hw
    first, last = l.at(ZERO), l.at(pt.sz(n) - 1)
    it.equal('%s: the cells are consecutive' % name, c, first + i)
    def lower(e): return le(lo, e) if F0 is None else and_(le(lo, e), le(pt.sz(of(F0)[0]), e))
    def upper(e): return le(e, hi) if F1 is None else and_(le(e, hi), le(e, pt.sz(of(F1)[0])))
    it.cond('%s: the first cell is inside the window and the surface' % name, and_(lower(first), not_(lower(first - 1))))
    it.cond('%s: the last cell is inside the window and the surface' % name, and_(upper(last), not_(upper(last + 1))))
    val = lambda e: weight(e - k.p - (xph.p if issym(xph) else xph), hw, mono, beta)
    inside = lambda e: and_(le(lo, e), le(e, hi))
    m0 = (2 * of(F0)[0] - c) if F0 is not None else None; m1 = (2 * of(F1)[0] - c) if F1 is not None else None
    if spoil and m0 is not None: m0 = m0 + 1
    cs = [inside(m) for m in (m0, m1) if m is not None]
    for cc in itertools.product(*[(x, not_(x)) for x in cs]):
        with p.scope(*cc) as ok:
            if not ok or p.dead(): continue
            e = val(c)
            for m, x, y in zip([m for m in (m0, m1) if m is not None], cs, cc):
                if x == y: e = e - val(m)
            it.equal('%s: weight = window of the offset minus the mirror images' % name, split_known(w.at(i)), e if not spoil or m0 is not None else e + 1)

def call(m, cache, k, ph, hw, beta, F0, F1, mono):
    # a surface that is off may be anywhere
    a = F0 if F0 is not None else mk(sym('g0', 'f'), 'f'); b = F1 if F1 is not None else mk(sym('g1', 'f'), 'f')
    return m._get_hicks_for_one_location_dim(cache, k + ph, hw, beta, [F0 is not None, F1 is not None], [a, b], mk(sym('size', 'i'), 'i'), mono, float(EPS))

def pre(k, ph, hw, F0, F1):
    """the location is not outside a free surface; the surfaces are at least a window apart; the size is positive"""
    x = k.p + ph.p
    if F0 is not None: assume(le(of(F0)[0], x))
    if F1 is not None: assume(le(x, of(F1)[0]))
    if F0 is not None and F1 is not None: assume(le(of(F0)[0] + 2 * hw, of(F1)[0]))
    assume(le(1, sym('size', 'i')))

def t_weights(hw, mono, s0, s1, spoil=False):
    m = pt.load('deepwave.location_interpolation'); it = Items('one dimension, half-width %d %s surfaces %s %s' % (hw, 'monopole' if mono else 'dipole', s0, s1), ['location_interpolation._get_hicks_for_one_location_dim']); hit = set()
    def run(p):
        k, ph = loc_('', 1); F0 = surf('0', s0) if s0 else None; F1 = surf('1', s1) if s1 else None; pre(k, ph, hw, F0, F1)
        beta = pt.array('beta', (), pt.float32); assume(le(0, beta.at())); assume(lt(0, fn_('i0', beta.at())))
        on = p.decide(lt(ph.p, EPS)) or p.decide(lt(1 - EPS, ph.p)); ph = halves(ph)
        try: out = call(m, {}, k, ph, hw, beta, F0, F1, mono)
        except RuntimeError as e: it.cond('returns normally', FALSE, str(e)[:200]); return
        if mono and on:
            hit.add('on'); l, w = out
            it.true('on the grid: one cell', l.shape_ == (1,) and w.shape_ == (1,)); it.equal('on the grid: weight one', w.at(ZERO), ONE if not spoil else ZERO)
            with p.scope(lt(ph.p, EPS)) as ok:
                if ok and not p.dead(): it.equal('on the grid: that cell', l.at(ZERO), k)
            with p.scope(lt(1 - ph.p, EPS)) as ok:
                if ok and not p.dead(): it.equal('on the grid: that cell', l.at(ZERO), k + 1)
            return
        hit.add('off'); check(it, 'off the grid', out, k, ph, hw, mono, beta.at(), F0, F1, spoil=spoil)
    paths(run)
    it.true('all cases reached', hit == ({'on', 'off'} if mono else {'off'}), str(hit))
    return it

def t_cache(hw, mono, s0, spoil=False):
    """two locations with one cache: the second is not influenced by the first beyond sharing weights of offsets that differ by less than eps"""
    m = pt.load('deepwave.location_interpolation'); it = Items('weight cache, half-width %d %s' % (hw, 'monopole' if mono else 'dipole'), ['location_interpolation._get_hicks_for_one_location_dim']); hit = set()
    def run(p):
        ka, pa = loc_('_a', 1); kb, pb = loc_('_b', 1); F0 = surf('0', s0); F1 = None
        pre(ka, pa, hw, F0, None)
        for q in (pa, pb): assume(le(EPS, q.p)); assume(le(q.p, 1 - EPS))
        assume(ne(pa.p, Fraction(1, 2))); halves(pa); pb = halves(pb)
        beta = pt.array('beta', (), pt.float32); assume(le(0, beta.at())); assume(lt(0, fn_('i0', beta.at())))
        cache = {}
        out_a = call(m, cache, ka, pa, hw, beta, F0, None, mono); la, wa = out_a
        i0 = sym('ia', 'i'); assume(le(0, i0)); assume(lt(i0, pt.sz(la.shape_[0]))); before = wa.at(i0)
        other = call(m, cache, ka, pa, hw, beta, None, None, not mono)            # another kind of point in between
        out = call(m, cache, kb, pb, hw, beta, None, None, mono)
        ok = it.true('weights are cached per offset', True)
        l, w = out; e = w.at(sym('i', 'i')); shared = any(a == next(iter(pa.p.atoms())) for a in all_atoms(e))
        if shared:
            hit.add('shared'); it.cond('shared weights: offsets closer than eps', and_(lt(pa.p - pb.p, EPS), lt(pb.p - pa.p, EPS)))
        else: hit.add('own')
        check(it, 'second location', out, kb, pb, hw, mono, beta.at(), None, None, xph=pa if shared else pb, spoil=spoil)
        it.equal('the first result is not changed later', wa.at(i0), before)
    paths(run)
    it.extra = dict(cases=sorted(hit))
    it.true('all cases reached', 'own' in hit, str(hit))
    return it

def t_assembly(case, spoil=False):
    """bounded in the numbers of shots, points and cells; exact for every weight, amplitude and number of samples"""
    import random
    m = pt.load('deepwave.location_interpolation'); it = Items('assembly, pattern %d' % case, ['location_interpolation._get_hicks_locations_and_weights', 'location_interpolation.Hicks.__init__', 'location_interpolation.Hicks.source', 'location_interpolation.Hicks.receiver', 'location_interpolation.Hicks.get_locations'])
    R = random.Random(case); ns, npt = R.choice((1, 2, 3)), R.choice((1, 2, 3)); hw = R.randint(1, 10)
    fs = [R.random() < 0.5 for _ in range(4)]; shape = [R.randint(5, 9), R.randint(5, 9)]; fl = None if R.random() < 0.5 else [R.choice((-0.5, 0.0)), shape[0] - 1.0, -0.5, shape[1] - 0.5]
    mono = R.choice((True, False, 'tensor')); dip = R.choice((0, 1, 'tensor'))
    MT = [[R.random() < 0.5 for _ in range(npt)] for _ in range(ns)]; DT = [[R.choice((0, 1)) for _ in range(npt)] for _ in range(ns)]
    mo = lambda s, i: MT[s][i] if mono == 'tensor' else mono
    di = lambda s, i: DT[s][i] if dip == 'tensor' else dip
    L = [[[float(R.randint(0, 4)) + (s * npt + i) / 16 + d / 1024 for d in range(2)] for i in range(npt)] for s in range(ns)]
    key = {L[s][i][d]: (s, i, d) for s in range(ns) for i in range(npt) for d in range(2)}
    cells = {(s, i, d): list(range(a, a + R.choice((1, 2, 3)))) for s in range(ns) for i in range(npt) for d in range(2) for a in [R.randint(0, 2)]}
    W = {k: 'w_%d_%d_%d' % k for k in cells}
    def run(p):
        calls = []
        def stub(cache, location, halfwidth, beta, free_surface, free_surface_loc, size, monopole=True, eps=1e-5):
            k = key[float(Fraction(of(location)[0].cval()))]; s, i, d = k; calls.append(k)
            it.equal('half-width passed on', halfwidth, hw); it.equal('Kaiser parameter of the half-width', beta.item(), BETAS[hw - 1])
            it.true('free surfaces of the dimension', list(free_surface) == fs[2 * d:2 * d + 2]); e = fl if fl is not None else [-0.5, shape[0] - 0.5, -0.5, shape[1] - 0.5]
            it.true('free surface locations of the dimension', [float(Fraction(of(x)[0].cval())) for x in free_surface_loc] == e[2 * d:2 * d + 2])
            it.equal('size of the dimension', size, shape[d]); it.true('dipole only along its own dimension', bool(monopole) == (mo(s, i) or di(s, i) != d), str((k, monopole)))
            it.equal('eps passed on', eps, 1e-5)
            return pt.tensor(cells[k]), pt.array(W[k], (len(cells[k]),))
        old = m._get_hicks_for_one_location_dim; m._get_hicks_for_one_location_dim = stub
        try:
            h = m.Hicks(pt.tensor(L), halfwidth=hw, free_surfaces=list(fs), free_surface_locs=None if fl is None else list(fl), model_shape=list(shape),
                        monopole=pt.tensor(MT) if mono == 'tensor' else mono, dipole_dim=pt.tensor(DT) if dip == 'tensor' else dip)
        finally: m._get_hicks_for_one_location_dim = old
        it.true('every coordinate of every point once', sorted(calls) == sorted(cells))
        loc = h.get_locations(); q = loc.shape_[1]; IG = pt.load('deepwave.common').IGNORE_LOCATION
        it.true('shape of the locations', tuple(loc.shape_) == (ns, q, 2))
        val = [[tuple(int(loc.at(P(s), P(j), P(d)).cval()) for d in range(2)) for j in range(q)] for s in range(ns)]
        for s in range(ns):
            used = [v for v in val[s] if v != (IG, IG)]
            it.true('the cells of a shot are distinct', len(set(used)) == len(used), str(val[s]))
            it.true('the cells of a shot are those of its points', set(used) == {(a, b) for i in range(npt) for a in cells[s, i, 0] for b in cells[s, i, 1]}, str(val[s]))
        w = lambda s, i, c: Poly.at(atom('sel', W[s, i, 0], 'f', (P(cells[s, i, 0].index(c[0])),))) * Poly.at(atom('sel', W[s, i, 1], 'f', (P(cells[s, i, 1].index(c[1])),))) if c[0] in cells[s, i, 0] and c[1] in cells[s, i, 1] else ZERO
        nt = mk(sym('nt', 'i'), 'i'); t = sym('t', 'i'); assume(le(0, t)); assume(lt(t, nt.p))
        for sel in (None, [R.randrange(ns) for _ in range(R.choice((1, 2)))]):
            ids = list(range(ns)) if sel is None else sel; si = None if sel is None else pt.tensor(sel)
            if sel is not None:
                g = h.get_locations(si); it.true('locations of the selected shots', all(g.at(P(a), P(j), P(d)) == loc.at(P(b), P(j), P(d)) for a, b in enumerate(ids) for j in range(q) for d in range(2)) and tuple(g.shape_) == (len(ids), q, 2))
            a = pt.array('amp', (len(ids), npt, nt)); o = h.source(a, si) if sel is not None else h.source(a)
            it.true('shape of the source amplitudes', tuple(o.shape_[:2]) == (len(ids), q)); it.equal('number of samples', o.shape_[2], nt)
            r = pt.array('rec', (len(ids), q, nt)); z = h.receiver(r, si) if sel is not None else h.receiver(r)
            it.true('shape of the recorded amplitudes', tuple(z.shape_[:2]) == (len(ids), npt)); it.equal('number of samples', z.shape_[2], nt)
            for x, s in enumerate(ids):
                for j in range(q):
                    e = ZERO
                    for i in range(npt): e = e + a.at(P(x), P(i), t) * w(s, i, val[s][j])
                    it.equal('source: every point on its cells with its weights', o.at(P(x), P(j), t), e if not spoil else e + 1)
                for i in range(npt):
                    e = ZERO
                    for j in range(q): e = e + r.at(P(x), P(j), t) * w(s, i, val[s][j])
                    it.equal('receiver: the transpose of the source operator', z.at(P(x), P(i), t), e if not spoil else e + 1)
    paths(run)
    return it

def main(prop):
    rep = Report(prop); S_ = (None, 'half', 'whole')
    tasks = [(t_weights, (hw, mono, s0, s1)) for hw in range(10, 0, -1) for mono in (True, False) for s0 in S_ for s1 in S_]
    tasks += [(t_cache, (hw, mono, s0)) for hw in range(10, 0, -1) for mono in (True, False) for s0 in ('half', 'whole')] + [(t_assembly, (c,)) for c in range(40)]
    return pyprop.decide(rep, tasks, [('hicks', dict(seed=SEED), ())], 'proof',
                         'One dimension: every location, half-widths 1 to 10, every integer or half-integer free-surface position (both at least a window apart), cache shared with other points. Assembly over points and shots: bounded to 40 patterns of up to 3 shots of 3 points with symbolic weights and amplitudes.',
                         sanity=[(t_weights, (4, True, 'half', None)), (t_weights, (3, False, None, None)), (t_cache, (2, True, 'half')), (t_assembly, (3,))],
                         trusted=['torch.sinc, i0, cos and sqrt are the functions they are named after (uninterpreted here)'], extra_conf=[('hicks', dict(seed=s), ()) for s in (2, 3)])

"""C08: absorbing-layer profiles: contracts of common.setup_pml and of set_pml_profiles of both grids (every index), and the
region indices handed to the compiled propagators. Mirror symmetry of the grid profiles follows from two contracts: every
entry is the profile function at its coordinate ('sample'), and that function is symmetric for equal widths ('mirror'); zeros between the layers and ranges in 2D and 3D follow in the same way
('zero', 'range' of setup_pml)."""
from vc.pysym import *
from vc.pysym import mul as pmul
from vc import pytorch as pt, spec
from vc.report import Report, SEED
from . import pyprop, drivers

def inputs(prefix='', w=None):
    """symbolic non-negative widths, start coordinates at least ... apart, positive physical quantities"""
    w0, w1 = w if w else (mk(sym('w0' + prefix, 'i'), 'i'), mk(sym('w1' + prefix, 'i'), 'i'))
    for v in (w0, w1):
        if issym(v): assume(le(0, v.p))
    return w0, w1

def phys():
    dt, vel, fr = (mk(sym(a, 'f'), 'f') for a in ('dt', 'max_vel', 'pml_freq'))
    assume(ne(dt.p, 0)); assume(lt(0, vel.p)); assume(le(0, fr.p))
    return dt, vel, fr

def coef(it, name, a, b):
    it.finite(name, a, b)
    it.cond('%s: decay coefficient not negative' % name, le(0, a)); it.cond('%s: decay coefficient below one' % name, lt(a, 1))
    it.cond('%s: b in (-1, 0]' % name, and_(le(b, 0), lt(-1, b)))

def t_setup(which, spoil=False):
    m = pt.load('deepwave.common'); it = Items('common.setup_pml %s' % which, ['common.setup_pml'])
    def run(p):
        w0, w1 = inputs(); dt, vel, fr = phys(); n = mk(sym('n', 'i'), 'i'); assume(le(1, n.p))
        i = sym('i', 'i'); assume(le(0, i)); assume(lt(i, n.p))
        s0, s1 = (mk(sym(a, 'f'), 'f') for a in ('s0', 's1')); mp = mk(sym('max_pml', 'f'), 'f')
        assume(le(0, mp.p)); assume(or_(lt(0, mp.p), and_(eq(w0.p, 0), eq(w1.p, 0))))    # max_pml is the largest physical width
        def F(x, sy=None, k=n, ix=i, ww=None):
            a, b = m.setup_pml([w0, w1] if ww is None else ww, [s0, s1], mp, dt, k, vel, pt.float64, pt.device('cpu'), fr, start=x)
            it.true('shape', len(a.shape_) == 1 and len(b.shape_) == 1); it.equal('length of a', a.shape_[0], k); it.equal('length of b', b.shape_[0], k)
            return a.at(ix), b.at(ix)
        if which == 'range':
            for st in (0.0, 0.5):
                a, b = F(st); coef(it, 'profile', a, b)
        elif which == 'zero':
            # pml_start[0] <= pml_start[1]: coordinates between them (both included) are interior
            for st in (0.0, 0.5):
                a, b = F(st); x = i + Fraction(st)
                with Path.cur.scope(le(s0.p, x) if not spoil else le(s0.p - 1, x), le(x, s1.p)) as ok:
                    if ok: it.equal('a is zero between the layers', a, ZERO); it.equal('b is zero between the layers', b, ZERO)
        elif which == 'sample':
            # entry i of a profile that starts at `start` is the profile function at coordinate start + i
            for st in (0.0, 0.5):
                a, b = F(st); fa, fb = F(mk(i + Fraction(st) if not spoil else i + 1, 'f'), k=1, ix=ZERO)
                it.equal('a sampled at start + i', a, fa); it.equal('b sampled at start + i', b, fb)
        elif which == 'mirror':
            # equal widths: mirror symmetric about the midpoint of the start coordinates
            x = mk(sym('x', 'f'), 'f'); ww = [w0, w0]
            if w0 == 0: return
            # s0 = x + u w, s1 = x - v w: any start coordinates
            u, v = (mk(sym(q, 'f'), 'f') for q in 'uv'); st = [x + u * w0, x - v * w0]
            def G(y): return [r.at(ZERO) for r in m.setup_pml(ww, st, mp, dt, 1, vel, pt.float64, pt.device('cpu'), fr, start=y)]
            a, b = G(x); c, d = G(x + (u - v) * w0 if not spoil else x + (u - v) * w0 - 1)
            it.equal('a mirrored', a, c); it.equal('b mirrored', b, d)
        elif which == 'depth':
            # inside a layer of positive width: a function of depth / width of that layer only (equal for both ends, whatever the other widths are)
            u = mk(sym('u', 'f'), 'f'); assume(le(0, u.p)); assume(lt(0, w0.p)); assume(le(s0.p, s1.p))
            v1, r1 = mk(sym('w1_other', 'i'), 'i'), mk(sym('r1', 'f'), 'f'); v0, r0 = mk(sym('w0_other', 'i'), 'i'), mk(sym('r0', 'f'), 'f')
            for q in (v0, v1): assume(le(0, q.p))
            assume(lt(0, v1.p)); assume(le(r0.p, r1.p))
            def G(x, ww, st): return [r.at(ZERO) for r in m.setup_pml(ww, st, mp, dt, 1, vel, pt.float64, pt.device('cpu'), fr, start=x)]
            a, b = G(s0 - u * w0, [w0, w1], [s0, s1]); c, d = G(r1 + u * v1 if not spoil else r1 + u, [v0, v1], [r0, r1])
            assume(lt(0, mp.p))
            it.equal('a depends on the fractional depth only', a, c); it.equal('b depends on the fractional depth only', b, d)
    paths(run)
    return it

def t_profiles(mod, nd, acc, which, spoil=False):
    m = pt.load('deepwave.' + mod); cm = pt.load('deepwave.common'); reg = mod == 'regular_grid'
    it = Items('%s.set_pml_profiles %dd accuracy %d %s' % (mod, nd, acc, which), [mod + '.set_pml_profiles', 'common.setup_pml'])
    R = acc // 2; fd = [R] * (2 * nd) if reg else [R, R - 1] * nd
    def run(p):
        dt, vel, fr = phys(); pw = []; h = [mk(sym('h%d' % d, 'f'), 'f') for d in range(nd)]; shape = [mk(sym('n%d' % d, 'i'), 'i') for d in range(nd)]
        for x in h: assume(lt(0, x.p))
        for d in range(nd):
            w0, w1 = inputs('_%d' % d)
            pw += [w0, w1]; assume(le(w0.p + w1.p + fd[2 * d] + fd[2 * d + 1] + 1, shape[d].p))    # at least one interior point
        prof = m.set_pml_profiles(list(pw), acc, list(fd), dt, list(h), vel, pt.float64, pt.device('cpu'), fr, list(shape))
        per = 3 if reg else 4
        it.true('number of profiles', len(prof) == per * nd)
        for d in range(nd):
            n = shape[d].p; lo = fd[2 * d] + pw[2 * d].p; hi = n - fd[2 * d + 1] - pw[2 * d + 1].p   # interior: lo <= x <= hi - 1
            i = sym('i', 'i')
            ix = lambda k: [ZERO] * (1 + d) + [k] + [ZERO] * (nd - 1 - d)
            P_ = prof[per * d:per * d + per]
            for q in P_:
                for j in range(nd + 1): it.equal('size of a profile', q.shape_[j], shape[d] if j == 1 + d else 1)
            a, b = P_[0], P_[1]
            at = lambda t, k: t.at(*ix(k))
            inr = (le(0, i), lt(i, n))
            if which == 'zero':
                with Path.cur.scope(*inr, le(lo if not spoil else lo - 1, i), lt(i, hi)) as ok:
                    if ok: it.equal('a zero at interior points', at(a, i), ZERO); it.equal('b zero at interior points', at(b, i), ZERO)
                if not reg:
                    with Path.cur.scope(*inr, le(lo, i), lt(i, hi - 1)) as ok:
                        if ok: it.equal('half-cell a zero between interior points', at(P_[2], i), ZERO); it.equal('half-cell b zero between interior points', at(P_[3], i), ZERO)
            elif which == 'range':
                with Path.cur.scope(*inr) as ok: coef(it, 'whole cells', at(a, i), at(b, i))
                if not reg:
                    with Path.cur.scope(*inr) as ok: coef(it, 'half cells', at(P_[2], i), at(P_[3], i))
            elif which == 'sample':
                # the real profile function, evaluated at one coordinate
                mp = smax([w * h[k // 2] for k, w in enumerate(pw)])
                def F(x): 
                    r = cm.setup_pml(pw[2 * d:2 * d + 2], [mk(lo, 'f'), mk(hi - 1, 'f')], mp, dt, 1, vel, pt.float64, pt.device('cpu'), fr, start=mk(x, 'f'))
                    return r[0].at(ZERO), r[1].at(ZERO)
                with Path.cur.scope(*inr) as ok:
                    fa, fb = F(i); it.equal('a is the profile function at whole cells', at(a, i), fa); it.equal('b is the profile function at whole cells', at(b, i), fb)
                    if not reg:
                        fa, fb = F(i + Fraction(1, 2) if not spoil else i)
                        it.equal('half-cell a is the profile function half a cell later', at(P_[2], i), fa); it.equal('half-cell b is the profile function half a cell later', at(P_[3], i), fb)
                if reg:
                    with Path.cur.scope(le(R, i), lt(i, n - R)) as ok:
                        if ok:
                            s = ZERO
                            for o, c in spec.fd(1, acc, 0).items(): s = s + at(b, i + o) * c
                            it.equal('third profile is the derivative of b', at(P_[2], i), pmul(s, inv(h[d].p)))
    paths(run)
    return it

def main(prop):
    rep = Report(prop)
    tasks = [(t_setup, (w,)) for w in ('range', 'zero', 'sample', 'mirror', 'depth')]
    tasks += [(t_profiles, (mod, nd, acc, w)) for nd in (3, 2, 1) for mod in ('regular_grid', 'staggered_grid') for acc in (2, 4, 6, 8) for w in ('sample', 'zero', 'range') if nd == 1 or w == 'sample']
    tasks += drivers.tasks(prop, [(e, nd, acc, dict(drivers.B)) for e in drivers.EQS for nd in (1, 2, 3) for acc in (2, 4, 6, 8)])
    return pyprop.decide(rep, tasks, [('pml', dict(seed=SEED), ())], 'proof', 'All widths per side including zero, sizes, spacings, steps, velocities and frequencies.',
                         sanity=[(t_setup, ('zero',)), (t_setup, ('depth',)), (t_profiles, ('staggered_grid', 1, 4, 'zero'))],
                         trusted=drivers.TRUST, extra_conf=[('pml', dict(seed=s), ()) for s in (2, 3)])

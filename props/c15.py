"""C15: parameter conversions and staggered-grid averages."""
from vc.pysym import *
from vc import pytorch as pt
from vc.report import Report, SEED
from . import pyprop
TINY = Fraction(1, 10 ** 18)        # values with a magnitude in (0, TINY) are below every treated magnitude: unspecified
REL = Fraction(1, 10 ** 6)

def near(x, y): return and_(le(x - y, REL * y), le(y - x, REL * y))

def t_convert(spoil=False):
    m = pt.load('deepwave.common'); it = Items('vp, vs, density <-> Lame parameters, buoyancy', ['common.vpvsrho_to_lambmubuoyancy', 'common.lambmubuoyancy_to_vpvsrho'])
    two = 2 if not spoil else 1
    def run(p):
        n = mk(sym('n', 'i'), 'i'); assume(le(1, n.p)); i = sym('i', 'i'); assume(le(0, i)); assume(lt(i, n.p))
        vp, vs, rho = (pt.array(a, (n,)) for a in ('vp', 'vs', 'rho'))
        a, b, r = vp.at(i), vs.at(i), rho.at(i)
        assume(le(1, r)); assume(le(r, 20000)); assume(le(0, b)); assume(lt(0, a))
        assume(le(2 * b * b, a * a))      # lamb >= 0 (it may be negative; then only the admissible vp^2 = lamb b + 2 vs^2 > 0 matters)
        l, mu, bu = m.vpvsrho_to_lambmubuoyancy(vp, vs, rho)
        L, M, B_ = l.at(i), mu.at(i), bu.at(i)
        it.equal('lamb = (vp^2 - 2 vs^2) rho', L, (a * a - two * b * b) * r)
        it.equal('mu = vs^2 rho', M, b * b * r)
        rb = pysym_mul(r, B_)
        it.cond('buoyancy = 1 / rho (relative 1e-6)', and_(le(rb - 1, REL), le(1 - rb, REL)))
    paths(run)
    def back(p):
        n = mk(sym('n', 'i'), 'i'); assume(le(1, n.p)); i = sym('i', 'i'); assume(le(0, i)); assume(lt(i, n.p))
        l, mu, bu = (pt.array(a, (n,)) for a in ('lamb', 'mu', 'b'))
        L, M, B_ = l.at(i), mu.at(i), bu.at(i)
        assume(le(Fraction(1, 20000), B_)); assume(le(B_, 1)); assume(le(0, M)); assume(le(0, L))
        vp, vs, rho = m.lambmubuoyancy_to_vpvsrho(l, mu, bu)
        a, b, r = vp.at(i), vs.at(i), rho.at(i)
        it.equal('vs^2 = mu buoyancy', pysym_mul(b, b), M * B_)
        it.equal('vp^2 = lamb buoyancy + 2 mu buoyancy', pysym_mul(a, a), L * B_ + two * M * B_)
        it.cond('vs is not negative', le(0, b)); it.cond('vp is not negative', le(0, a))
        rb = pysym_mul(r, B_)
        it.cond('density = 1 / buoyancy (relative 1e-6)', and_(le(rb - 1, REL), le(1 - rb, REL)))
    paths(back)
    return it
from vc.pysym import mul as pysym_mul

def points(nd, batch):
    shp = [mk(sym('n%d' % j, 'i'), 'i') for j in range(nd + 1)]
    for s in shp: assume(le(1, s.p))
    for s in shp[1:]: assume(le(2, s.p))
    ix = [sym('i%d' % j, 'i') for j in range(nd + 1)]
    for i, s in zip(ix, shp): assume(le(0, i)); assume(lt(i, s.p))
    return shp, ix

def sh(ix, d, k):
    r = list(ix); r[1 + d] = r[1 + d] + k; return r

def big(x): return and_(le(TINY, x), le(x, 10 ** 15))

def check_harm(it, name, out, mu, ix, d0, d1, nonzero, spoil):
    """out[ix] against the harmonic mean of the four cells around the edge (ix + half in d0 and d1)."""
    c = [mu.at(*ix), mu.at(*sh(ix, d0, 1)), mu.at(*sh(ix, d1, 1)), mu.at(*sh(sh(ix, d0, 1), d1, 1))]
    if spoil: c[3] = mu.at(*sh(sh(ix, d0, 1), d1, 0))
    if nonzero:
        with Path.cur.scope(*[big(x) for x in c]) as ok:
            if ok:
                s = ZERO
                for x in c: s = s + inv(x)
                it.equal('%s: harmonic mean of the four neighbouring cells' % name, pysym_mul(out, s), P(4))
    else:
        for k in range(4):
            with Path.cur.scope(eq(c[k], 0), *[or_(eq(x, 0), big(x)) for x in c]) as ok:
                if ok: it.equal('%s: zero when neighbour %d is zero' % (name, k), out, ZERO)

def t_harm(nd, which, spoil=False):
    m = pt.load('deepwave.elastic'); it = Items('elastic.prepare_parameters mu %dd %s' % (nd, which), ['elastic.prepare_parameters'])
    def run(p):
        shp, ix = points(nd, True); mu = pt.array('mu', shp); b = pt.array('b', shp)
        r = m.prepare_parameters(mu, b)
        names = ([('mu_zy', 0, 1), ('mu_zx', 0, 2)] if nd == 3 else []) + ([('mu_yx', nd - 2, nd - 1)] if nd >= 2 else [])
        for k, (nm, d0, d1) in enumerate(names):
            assume(lt(ix[1 + d0], shp[1 + d0].p - 1)) if False else None
            with Path.cur.scope(lt(ix[1 + d0], shp[1 + d0].p - 1), lt(ix[1 + d1], shp[1 + d1].p - 1)) as ok:
                if ok: check_harm(it, nm, r[k].at(*ix), mu, ix, d0, d1, which == 'nonzero', spoil)
            for j in range(nd + 1): it.equal('%s: size of axis %d' % (nm, j), r[k].shape_[j], shp[j])
    paths(run)
    return it

def t_mean(mod, nd, which, spoil=False):
    """buoyancy on the half cells: reciprocal of the mean density of the two neighbouring cells."""
    fn = 'prepare_parameters' if mod == 'elastic' else 'prepare_models'
    m = pt.load('deepwave.' + mod); it = Items('%s.%s buoyancy %dd %s' % (mod, fn, nd, which), ['%s.%s' % (mod, fn)])
    def run(p):
        shp, ix = points(nd, True)
        x = pt.array('x', shp); y = pt.array('y', shp)
        r = m.prepare_parameters(x, y) if mod == 'elastic' else m.prepare_models(x, y)
        if mod == 'acoustic': it.equal('bulk modulus = rho v^2', r[0].at(*ix), y.at(*ix) * x.at(*ix) * x.at(*ix))
        it.true('number of arrays', len(r) == {('elastic', 1): 1, ('elastic', 2): 3, ('elastic', 3): 6}.get((mod, nd), nd + 1))
        r = r[-nd:]
        for d in range(nd):
            nm = 'buoyancy_' + 'zyx'[3 - nd + d]
            for j in range(nd + 1): it.equal('%s: size of axis %d' % (nm, j), r[d].shape_[j], shp[j])
            with Path.cur.scope(lt(ix[1 + d], shp[1 + d].p - 1)) as ok:
                if not ok: continue
                c = [y.at(*ix), y.at(*sh(ix, d, 1 if not spoil else 0))]; out = r[d].at(*ix)
                if which == 'both':
                    with Path.cur.scope(*[big(v) for v in c]) as ok2:
                        if not ok2: continue
                        s = (inv(c[0]) + inv(c[1])) if mod == 'elastic' else c[0] + c[1]
                        it.equal('%s: reciprocal of the mean density of the two cells' % nm, pysym_mul(out, s), P(2))
                elif which == 'none':
                    with Path.cur.scope(*[eq(v, 0) for v in c]) as ok2:
                        if ok2: it.equal('%s: zero where both densities are zero' % nm, out, ZERO)
                else:
                    for k in (0, 1):
                        with Path.cur.scope(eq(c[k], 0), big(c[1 - k])) as ok2:
                            if ok2: it.equal('%s: one cell has zero density' % nm, pysym_mul(out, inv(c[1 - k]) if mod == 'elastic' else c[1 - k]), P(2))
    paths(run)
    return it

def main(prop):
    rep = Report(prop)
    tasks = [(t_convert, ())] + [(t_harm, (nd, w)) for nd in (3, 2, 1) for w in ('nonzero', 'zero')]
    tasks += [(t_mean, (mod, nd, w)) for mod in ('elastic', 'acoustic') for nd in (3, 2, 1) for w in ('both', 'one', 'none')]
    return pyprop.decide(rep, tasks, [('params', dict(seed=SEED), ())], 'proof',
                         'All model shapes (at least two cells per dimension) and values: densities 1 to 20000 for the conversions, non-negative values that are zero or in [1e-18, 1e15] for the averages, 1 to 3 dimensions.',
                         sanity=[(t_convert, ()), (t_harm, (2, 'nonzero')), (t_mean, ('elastic', 3, 'both')), (t_mean, ('acoustic', 2, 'both'))],
                         trusted=['the guard 1e-15 in the reciprocals is accounted for to a relative 1e-6'], extra_conf=[('params', dict(seed=s), ()) for s in (2, 3)])

"""C07: the internal time step. Contract of cfl_condition_n / cfl_condition (all inputs, real arithmetic)."""
from vc.pysym import *
from vc import pytorch as pt
from vc.report import Report, SEED, TIER
from . import pyprop

def t_cfl(name, nd, sign, spoil=False):
    m = pt.load('deepwave.common'); f = getattr(m, name); it = Items('common.%s %dd dt%s0' % (name, nd, '<>'[sign > 0]), ['common.' + name])
    n = [0]
    def run(p):
        h = [mk(sym('h%d' % j, 'f'), 'f') for j in range(nd)]; dt = mk(sym('dt', 'f'), 'f'); v = mk(sym('vmax', 'f'), 'f'); c = mk(sym('c_max', 'f'), 'f')
        for x in h: assume(lt(0, x.p))
        assume(lt(0, dt.p) if sign > 0 else lt(dt.p, 0)); assume(lt(0, v.p)); assume(lt(0, c.p))
        r = f(*h, dt, v, c_max=c) if name == 'cfl_condition' else f(list(h), dt, v, c_max=c)
        n[0] += 1
        inner, ratio = r
        rp, rk = of(ratio); ip = of(inner)[0]
        it.true('step ratio is an integer', rk == 'i')
        ad = dt.p if sign > 0 else -dt.p
        s2 = ZERO
        for x in h: s2 = s2 + inv(x.p) * inv(x.p)
        s = sqrt_(s2)                       # sqrt of the sum of 1/h^2; positive
        assume(lt(0, s))
        it.cond('step ratio is positive', le(1, rp))
        assume(le(1, rp))
        it.equal('inner step times ratio is the user step', pysym_mul(ip, rp), dt.p)
        # |inner| * s * v <= c_max (half of it in the sanity run)
        lim = c.p if not spoil else c.p * Fraction(1, 2)
        lemma(it, 'inner step within the CFL limit', le(ad * s * v.p, lim * rp))
        it.cond('sign of the inner step', lt(0, ip) if sign > 0 else lt(ip, 0)) if False else sign_(it, ip, rp, dt.p, sign)
        eps = Fraction(1, 10 ** 15)
        # one step fewer would exceed the limit (up to the 1e-15 guard added to v^2 in the divisor)
        lemma(it, 'no unnecessary steps', or_(eq(rp, 1), lt(c.p * v.p * (rp - 1), ad * s * (v.p * v.p + eps))))
    paths(run)
    it.true('returns normally', n[0] > 0)
    return it

from vc.pysym import mul as pysym_mul
def sign_(it, ip, rp, dt, sign):
    # ip * rp == dt (established) and rp >= 1, hence the sign
    d = clear(split_ites(pysym_mul(ip, rp) - dt))
    it.true('sign of the inner step', d.iszero(), 'the inner step is not dt / ratio') if d.iszero() else it.cond('sign of the inner step', lt(0, ip) if sign > 0 else lt(ip, 0))

def lemma(it, name, goal): it.cond(name, goal)

def main(prop):
    rep = Report(prop)
    tasks = [(t_cfl, ('cfl_condition_n', nd, sg)) for nd in (1, 2, 3) for sg in (1, -1)] + [(t_cfl, ('cfl_condition', 2, sg)) for sg in (1, -1)]
    return pyprop.decide(rep, tasks, [('cfl', dict(seed=SEED), ())], 'proof', 'All spacings, steps and velocities, 1 to 3 dimensions, any c_max.', sanity=[(t_cfl, ('cfl_condition_n', 2, 1))],
                         trusted=['math.sqrt, math.ceil and abs are exact (real arithmetic)'], extra_conf=[('cfl', dict(seed=s), ()) for s in (2, 3)])

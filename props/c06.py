"""C06: finite-difference operators offered in Python."""
from vc.pysym import *
from vc import pytorch as pt, spec
from vc.report import Report, SEED, TIER
from . import pyprop

def arr(name, nd, R):
    shp = [mk(sym('n%d' % j, 'i'), 'i') for j in range(nd + 1)]
    for s in shp: assume(le(1, s.p))
    return shp

def check_op(it, call, name, deriv, acc, half, nd, axis, spoil, path):
    """call(a, rd) -> derivative along array axis `axis`; contract: shape kept; at every computed point the stencil."""
    R = acc // 2
    shp = arr('a', nd, R); assume(le(2 * R + 1, shp[axis].p))
    a = pt.array('a', shp); rd = mk(sym('rd', 'f'), 'f')
    out = call(a, rd)
    for j in range(nd + 1): it.equal('%s: size of axis %d' % (name, j), out.shape_[j], shp[j])
    w = dict(spec.fd(deriv, acc, half)); lo, hi = R, max(w)
    if spoil: w[hi] = w[hi] * 2
    ix = [sym('i%d' % j, 'i') for j in range(nd + 1)]
    for i, s in zip(ix, shp): assume(le(0, i)); assume(lt(i, s.p))
    assume(le(lo, ix[axis])); assume(lt(ix[axis], shp[axis].p - hi))
    exp = ZERO
    for o, c in w.items():
        k = list(ix); k[axis] = k[axis] + o; exp = exp + a.at(*k) * rd.p * c
    it.equal('%s: value at every computed point' % name, out.at(*ix), exp)

def t_op(mod, fname, nd, dim, acc, spoil=False):
    m = pt.load('deepwave.' + mod); it = Items('%s.%s %dd dim %d accuracy %d' % (mod, fname, nd, dim, acc), ['%s.%s' % (mod, fname)])
    deriv = 2 if fname == 'diff2' or fname.endswith('2') else 1
    half = 0 if mod == 'regular_grid' else (1 if 'h1' in fname or fname.endswith('1h') else -1)
    f = getattr(m, fname)
    if fname in ('diff1', 'diff2', 'diff1h'): call = lambda a, r: f(a, dim, acc, r, nd)
    else: call = lambda a, r: f(a, acc, r)
    paths(lambda p: check_op(it, call, fname, deriv, acc, half, nd, 1 + dim, spoil, p))
    return it

def main(prop):
    rep = Report(prop); tasks = []
    for mod, names in (('regular_grid', ('diff1', 'diff2')), ('staggered_grid', ('diff1', 'diff1h'))):
        m = pt.load('deepwave.' + mod)
        for acc in (2, 4, 6, 8):
            for n in names:
                for nd in (1, 2, 3):
                    for dim in range(nd): tasks.append((t_op, (mod, n, nd, dim, acc)))
            low = ('diffz1', 'diffy1', 'diffx1') + (('diffz2', 'diffy2', 'diffx2') if mod == 'regular_grid' else ('diffzh1', 'diffyh1', 'diffxh1'))
            for n in low:
                if hasattr(m, n): tasks.append((t_op, (mod, n, 3, 'zyx'.index(n[4]), acc)))
    return pyprop.decide(rep, tasks, [('fd', dict(seed=SEED), ())], 'proof', 'All array sizes, all positions; every direction, dimension and accuracy order enumerated.',
                         sanity=[(t_op, ('regular_grid', 'diff2', 2, 1, 6)), (t_op, ('staggered_grid', 'diff1h', 3, 0, 4))], extra_conf=[('fd', dict(seed=s), ()) for s in (2, 3)])

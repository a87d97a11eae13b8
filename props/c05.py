"""C05: snapshot compression. Layout, exactness and error of simple_compress.c by symbolic execution of the real functions
(vc/comp.py); the room Python allocates by the drivers' storage obligations."""
from vc.report import Report, SEED, TIER
from . import pyprop, drivers, kernels
def t_comp(nd, dtype, spoil=False):
    from vc.comp import verify
    l = verify(nd, dtype, spoil); return l
FLT = [('scalar', nd, 2, dt) for nd in (1, 2, 3) for dt in ('float', 'double')]
def main(prop):
    rep = Report(prop); quick = TIER == 'quick'
    rep.assume = ['floating-point arithmetic is treated as real arithmetic (its overflow and rounding only in the bounded runs); 64-bit integers as mathematical integers',
                  'input and output of a call do not overlap']
    tasks = [(t_comp, (nd, dt)) for nd in (1, 2, 3) for dt in ('float', 'double')]
    tasks += drivers.tasks(prop, [c for c in drivers.storage_cfgs(('scalar',), (1, 2, 3)) if c[3].get('compress')] + [c for c in drivers.storage_cfgs(('scalar_born', 'acoustic', 'elastic'), (2,)) if c[3].get('compress') and c[3]['storage'] == 'disk'])
    return pyprop.decide(rep, tasks, [('compress', dict(seed=SEED, count=90 if quick else 900), FLT)], 'proof', 'All shapes in one to three dimensions, all values, both types.',
                         sanity=[(t_comp, (nd, 'float')) for nd in (1, 2, 3)], trusted=kernels.TRUST, extra_conf=[('compress', dict(seed=7, count=600), FLT)])

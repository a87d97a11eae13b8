"""C10: location mapping."""
from vc.report import Report, SEED, TIER
from . import pyprop, survey
from .survey import t_locations, t_lemma, t_rejects

def main(prop):
    rep = Report(prop)
    tasks = [(t_locations, (nd, dt)) for nd in (3, 2, 1) for dt in ('int64', 'float32')] + [(t_lemma, (3,))]
    tasks += [(t_rejects, (nd, w)) for nd in (1, 2, 3) for w in ('model', 'ok', 'batch', 'ndim', 'rank')]
    return pyprop.decide(rep, tasks, [('survey', dict(seed=SEED + 10), ())], 'proof', 'Every extent, padding and set of locations, integer or float dtype, 1 to 3 dimensions.',
                         sanity=[(t_locations, (2, 'int64'))], trusted=['a location is ignored in all coordinates or in none', 'torch.unique counts distinct values'], extra_conf=[('survey', dict(seed=s), ()) for s in (12, 13)])

"""C09: survey extraction."""
from vc.report import Report, SEED, TIER
from . import pyprop, survey
from .survey import t_survey, t_rejects

def main(prop):
    rep = Report(prop)
    tasks = [(t_survey, (3, 'pad', False))] + [(t_survey, (3, m, m == 'list')) for m in ('list', 'origin', 'waves', 'all')] + [(t_survey, (nd, m, m in ('pad', 'origin'))) for nd in (2, 1) for m in survey.MODES]
    tasks += [(t_survey, (2, 'all', True, ('replicate', 'constant'))), (t_survey, (2, 'origin', False, ('constant', 'replicate')))]
    tasks += [(t_rejects, (nd, w)) for nd in (1, 2, 3) for w in ('model', 'ok')]
    return pyprop.decide(rep, tasks, [('survey', dict(seed=SEED), ())], 'proof', 'extract_survey for every model size, padding, PML width, origin, survey_pad, set of distinct locations and wavefield shape (1 to 3 dimensions; one source and one receiver tensor).',
                         sanity=[(t_survey, (2, 'all', False, ('replicate',)))], trusted=['locations are ignored in all coordinates or in none, and with survey_pad at least one is active'], extra_conf=[('survey', dict(seed=s), ()) for s in (2, 3)])

"""C14: arguments of the compiled functions."""
from vc import drive
from vc.report import Report, SEED, TIER
from . import pyprop, drivers

def main(prop):
    rep = Report(prop)
    tasks = drivers.tasks(prop, drivers.args_cfgs()) + [(drive.t_types, (eq, nd)) for eq in drivers.EQS for nd in (1, 2, 3)]
    c = [[('scalar', 2, 4), ('scalar', 1, 2)], [('scalar_born', 2, 4), ('scalar_born', 1, 2)], [('acoustic', 2, 4), ('acoustic', 3, 2)], [('elastic', 2, 4), ('elastic', 3, 2)]]
    confs = [drivers.e2e(x, 60, 60, seed=SEED * 10 + i) for i, x in enumerate(c)]
    more = [drivers.e2e([(e, n, a)], 150, 100, seed=77, dtype=d) for e in drivers.EQS for n, a, d in ((1, 4, 'double'), (2, 2, 'double'), (3, 4, 'double'))]
    return pyprop.decide(rep, tasks, confs, 'proof',
                         'Four equations x forward/backward/scattered-only x 1 to 3 dimensions x accuracies: every scalar argument equals, and every array argument holds (at a generic cell, shot, time), what the parameter of that name means; arbitrary sizes, widths, shots, threads, steps, ratios; declared ctypes equal to the C types for all 108 functions.',
                         sanity=[(drive.t_types, ('scalar', 2))], trusted=drivers.TRUST, extra_conf=more)

"""C13: splitting the time range; callbacks."""
from vc.report import Report, SEED, TIER
from vc import pyloop
from . import pyprop, drivers
KEEP = r'callback|time of the step|step lies|step is step|follows the step|every range|step functions|number of results|time steps are complete|result: (dimensions|shots|size)'
def t_loop(e, nd, acc): return pyloop.t_loop(e, nd, acc, keep=KEEP)

def main(prop):
    rep = Report(prop)
    tasks = drivers.tasks(prop, drivers.loop_cfgs()) + [(t_loop, (e, nd, acc)) for e in drivers.EQS for nd, acc in ((1, 4), (1, 2), (2, 4)) + ((3, 4),) * (TIER != 'quick')]
    c = [[('scalar', 1, 4), ('scalar', 2, 2)], [('scalar_born', 1, 4), ('scalar_born', 2, 2)], [('acoustic', 1, 4), ('acoustic', 2, 2)], [('elastic', 1, 4), ('elastic', 2, 2)]]
    confs = [drivers.e2e(x, 80, 60, seed=SEED * 10 + 5 + i) for i, x in enumerate(c)]
    confs += [drivers.e2e([(e, 1, 4)], 40, 60, what='python', seed=SEED * 10 + 9) for e in drivers.EQS]
    more = [drivers.e2e([(e, n, a)], 150, 100, seed=78) for e in drivers.EQS for n, a in ((1, 2), (2, 4))]
    return pyprop.decide(rep, tasks, confs, 'proof',
                         'Compiled backends of the four equations: arbitrary number of steps, step ratio, sampling interval and callback frequency; first chunk, generic chunk and its successor, last chunk; forward and backward. The loops of the Python backends (callbacks, time levels) likewise; their steps belong to C17.',
                         trusted=drivers.TRUST, extra_conf=more)

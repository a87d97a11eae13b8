"""C17: the Python backend takes the same time step as the compiled backend."""
from vc import pystep, pyloop, pytorch
from vc.report import Report, SEED, TIER
from . import pyprop, drivers

def main(prop):
    rep = Report(prop); T = TIER != 'quick'; E = drivers.EQS; W = {'scalar': 1, 'scalar_born': 2, 'acoustic': 2, 'elastic': 5}
    tasks = [(t_loop, (e, nd, acc, give, batched)) for e in E for nd in (3, 2, 1) for acc, give, batched in
             ([(4, 'all', True), (4, 'none', True), (4, 'all', False)] + [(a, 'all', True) for a in (2, 6, 8) if T or nd == 1])
             if T or nd < 3 or (give == 'all' and batched)]
    tasks.sort(key=lambda t: -W[t[1][0]] * 3 ** t[1][1])
    tasks += [(pystep.t_step, (e, nd, acc)) for e in E for nd in (3, 2, 1) for acc in (4, 2, 6, 8)]
    tasks += [(pyloop.t_dispatch, (e,)) for e in E]
    tasks += [drivers.task(prop, e, nd, acc, python=True, **k) for e in E for nd in (1, 2, 3) for acc, k in ((4, dict()), (2, dict(batched=True)), (6, dict(give='none')), (8, dict(dtype='float64', grads=())))]
    confs = [drivers.e2e([(e, 1, 4), (e, 2, 2)], 30, 40, what='python', seed=SEED * 10 + 31 + j) for j, e in enumerate(E)]
    more = [drivers.e2e([(e, nd, acc)], 60, 60, what='python', seed=95 + nd) for e in E for nd, acc in ((1, 2), (1, 8), (2, 4), (2, 6))]
    sanity = [(pystep.t_step, (e, 1, 4)) for e in E] + [(pyloop.t_dispatch, (e,)) for e in E] + [(t_loop, (e, 1, 4, 'all', True)) for e in E]
    return pyprop.decide(rep, tasks, confs, 'proof', 'Every step function of the four Python backends meets the contract of the compiled step in every cell (1 to 3 dimensions, accuracy 2, 4, 6, 8); the propagators around them, with an arbitrary number of '
                         'steps, callback frequency, shape, sources and receivers: what each step is given, where and when sources are added and receivers recorded, what is returned; the public functions give the Python propagator what they give the compiled one.',
                         sanity=sanity, extra_conf=more,
                         trusted=[
                                  'torch.jit.script and torch.compile return a function that computes what the given function computes (python_backend "jit", "compile", True)',
                                  'in the loop the step functions are replaced by their contract (the part proved by the step obligations): new arrays, zero outside their domains',
                                  'loops over the time range by induction: first iteration, an arbitrary iteration and its successor within and across chunks, last iteration',
                                  'the profiles are zero between the layers (C08); locations are inside the model or the ignored location (C09)'] + drivers.TRUST)
def t_loop(e, nd, acc, give, batched, spoil=False): return pyloop.t_loop(e, nd, acc, give=give, batched=batched, spoil=spoil)

"""Obligations of the drivers (vc/drive.py) by property: which configurations, which obligations."""
from vc import drive
from vc.report import TIER
EQS = ('scalar', 'scalar_born', 'acoustic', 'elastic')
SUB = {'scalar': [('amplitudes',), ('wavefields',), ('v',)], 'scalar_born': [('scatter',), ('v',), ('amplitudes',), ('wavefields',), ('scatter', 'amplitudes')],
       'acoustic': [('v',), ('rho',), ('amplitudes',), ('wavefields',)], 'elastic': [('lamb',), ('mu',), ('buoyancy',), ('amplitudes',), ('wavefields',)]}
B = dict(what='backward')
def task(prop, eq, nd, acc, **kw): return (t_drive, (eq, nd, acc, KEEP.get(prop), tuple(sorted(kw.items()))))
def t_drive(eq, nd, acc, keep, kw): return drive.t_drive(eq, nd, acc, keep, **dict(kw))
KEEP = {'C04': r'room for|files|compressed|shot_bytes|storage|step_ratio|memory of its own|the same memory|start_t|storage_mode|bytes|first call|next call|type of the elements of .*store',
        'C05': r'compressed|shot_bytes|storage_compression|every case',
        'C08': r'order of the regions|is zero where the layer|is zero between the layers|^profiles|contents of ([ab][zyx]h?|db)|is zero (before|after) its domain|every case',
        'C16': r'contents of (f|fsc|v|scatter)$|setup: (models|model padding)|receiver data|^result: number|contents of (sources|receivers)|every case',
        'C03': r'room for|: size$|: dimensions$|memory of its own|points to current memory|is contiguous|different arrays|at least one thread|order of the regions|_batched$|shot_bytes|type of the elements|every case'}

def args_cfgs():
    """C14: the arguments, one call over the whole time range"""
    for eq in EQS:
        for nd in (3, 2, 1):
            for acc in (4, 2, 6, 8):
                yield eq, nd, acc, dict(B)
            yield eq, nd, 4, dict(B, batched=True, dtype='float64')
            yield eq, nd, 2, dict(B, give='none')
        for g in SUB[eq]:
            for nd in ((2,) if TIER == 'quick' else (1, 2, 3)): yield eq, nd, 4, dict(B, grads=g)
        yield eq, 2, 2, dict(storage='device', what='forward', grads=())
        yield from storage_cfgs([eq], (2,))
        if eq in ('acoustic', 'elastic'): yield eq, 1, 4, dict(valid=False)
def storage_cfgs(eqs=EQS, nds=(1, 2, 3)):
    for eq in eqs:
        for nd in nds:
            for st, co in (('disk', True), ('disk', False), ('device', True), ('cpu', False), ('cpu', True), ('none', False)):
                yield eq, nd, 4, dict(B, storage=st, compress=co)
            yield eq, nd, 2, dict(B, storage='disk', compress=True, dtype='float64')
            yield eq, nd, 2, dict(B, storage='device', compress=True, dtype='float64', batched=True)
def loop_cfgs():
    """C13: callbacks with an arbitrary frequency; the loop over the time range by induction"""
    for eq in EQS:
        for nd in (3, 2, 1):
            for acc in ((4,) if TIER == 'quick' and nd == 3 else (4, 2) if TIER == 'quick' else (2, 4, 6, 8)): yield eq, nd, acc, dict(B, cb=True)
        yield eq, 2, 4, dict(B, cb=True, batched=True)
        yield eq, 1, 4, dict(B, cb=True, give='none', storage='disk', compress=True)
        for g in SUB[eq]: yield eq, 1, 2, dict(B, cb=True, grads=g)
        yield eq, 2, 2, dict(B)
def weight(c): return (c[1] ** 2) * {'scalar': 1, 'scalar_born': 2, 'acoustic': 2, 'elastic': 5}[c[0]] * (4 if c[3].get('cb') else 1)
def tasks(prop, cfgs): return [task(prop, e, n, a, **k) for e, n, a, k in sorted(cfgs, key=weight, reverse=True)]

def e2e(cases, count, budget, what='compiled', seed=1, dtype='double'):
    return ('e2e', dict(seed=seed, cases=list(cases), count=count, what=what, budget=budget), [c + (dtype,) for c in cases])
TRUST = ['contracts assumed for the callees of the drivers: setup_propagator (C07, C09, C10, C11), PML profiles (C08), staggered averages (C15), resampling (C11), compiled functions (C01, C02, C03), each proved under its own property',
         'the loop over the time range is treated by induction; buffers up to their names; numbers carried by the loop are not supported (undecided)', 'callbacks do not modify the wavefields, models or gradients they are given']

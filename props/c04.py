"""C04: stored snapshots. Four layers of contracts: the calls made by the compiled propagators (which step, shot, buffer, file,
sizes), save_snapshot/load_snapshot themselves (storage_utils.c), the room and files allocated by the drivers, and the layout of
compressed snapshots (C05). A file is opened for appending and the saves of a shot happen in the order of the steps, once each (C13), so the k-th
save of equal size lies at k * size, where the load looks for it."""
import re
from vc import abi
from vc.report import Report, SEED, TIER
from . import kernels, pyprop, drivers
KEEP = re.compile(r'(save|load) of|^file |_store_1: |^grad_.*: new value|time loop|shot loop|supported subset|snapshot calls')
def t_kernel(eq, ndim, acc, pas, spoil=False):
    from vc.kern import verify
    def sp(s):
        st = [x for x in s.order if x.kind == 'update' and (x.arr.startswith('grad_') or x.arr.endswith('store_1'))][-1]; st.expr = st.expr * 2
    l = verify(eq, ndim, acc, pas, 'float', 'step', sp if spoil else None)
    l.items = [i for i in l.items if KEEP.search(i['name']) or (i['status'] == 'undecided' and False)]; l.unit += ' snapshots'
    return l
def t_storage(nd, dtype, spoil=False):
    from vc.comp import storage
    return storage(nd, dtype, spoil)
def main(prop):
    rep = Report(prop); rep.assume = list(kernels.ASSUME); quick = TIER == 'quick'
    tasks = [(t_kernel, c) for c in sorted(kernels.configs(None), key=lambda c: -kernels.cost(*c[:3]))] + [(t_storage, (nd, dt)) for nd in (1, 2, 3) for dt in ('float', 'double')]
    cf = list(drivers.storage_cfgs(nds=(1, 2, 3))) if not quick else list(drivers.storage_cfgs(nds=(1, 2))) + [c for c in drivers.storage_cfgs(nds=(3,)) if c[3]['storage'] == 'disk' and c[3].get('compress') and c[2] == 4]
    seen = []; cf = [c for c in cf if repr(c) not in seen and not seen.append(repr(c))]
    cf += [(e, 1, 4, dict(drivers.B, cb=True, storage='disk', compress=True)) for e in drivers.EQS] + [(e, 1, 4, dict(drivers.B, cb=True, storage='device', compress=True)) for e in ('scalar', 'elastic')]
    tasks += drivers.tasks(prop, cf)
    FLT = [('scalar', nd, 2, dt) for nd in (1, 2, 3) for dt in ('float', 'double')]
    confs = [('snapshots', dict(seed=SEED, count=60 if quick else 600), FLT), ('temporary_files', dict(seed=SEED), [('scalar', 2, 4, 'float')])]
    confs += [drivers.e2e([(e, nd, 4 if nd < 3 else 2)], 25 if quick else 200, 25 if quick else 150, seed=SEED * 10 + nd) for e in drivers.EQS for nd in ((1, 2) if quick else (1, 2, 3))]
    return pyprop.decide(rep, tasks, confs, 'proof', 'All steps, shots, sampling intervals and shapes; every compiled configuration; storage modes and compression enumerated; temporary files bounded.',
                         sanity=[(t_kernel, ('scalar', 1, 2, p)) for p in ('forward', 'backward')] + [(t_storage, (1, 'float'))],
                         trusted=kernels.TRUST + drivers.TRUST + ['uuid4 does not repeat; names of temporary files and their removal are checked by bounded runs only', 'fopen, fseek, fread, fwrite follow the C standard; a file opened with "ab" is written at its end; no failed write'])

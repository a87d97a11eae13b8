"""C01, C02, C03, C16 (kernel part): deductive verification of the compiled CPU kernels, all configurations."""
import ctypes, os, time
from vc import terms, eqs, abi
from vc.report import *

def cost(eq, ndim, acc): return {'scalar': 1, 'scalar_born': 2, 'acoustic': 2, 'elastic': 4}[eq] * 3 ** ndim * acc

def t_kernel(eq, ndim, acc, pas, what):
    from vc.kern import verify
    l = verify(eq, ndim, acc, pas, 'float', what)
    return dict(unit=l.unit + (' accesses' if what == 'access' else ''), items=l.items, funcs=[abi.capi_name(eq, ndim, acc, 'float', pas)])

def t_dtype(eq, ndim, acc):
    """The double precision kernels are the same text up to the name of the type."""
    from vc.cfront import preprocess, SRC
    from vc.log import Log
    log = Log('%s %dD accuracy %d double' % (eq, ndim, acc)); txt = {}
    f = eqs.EQS[eq]['file']
    for d in ('float', 'double'):
        t = preprocess(os.path.join(SRC, f), {'DW_NDIM': ndim, 'DW_ACCURACY': acc, 'DW_DTYPE': 'DWT', 'DW_DEVICE': 'cpu'} if d == 'x' else {'DW_NDIM': ndim, 'DW_ACCURACY': acc, 'DW_DTYPE': d, 'DW_DEVICE': 'cpu'})
        import re
        txt[d] = re.sub(r'\b%s\b' % d, 'DWT', re.sub(r'_%s_' % d, '_DWT_', re.sub(r'_%s\b' % d, '_DWT', t)))
        txt[d] = re.sub(r'\b(?:float|double)\b', 'DWT', txt[d])
    if txt['float'] == txt['double']: log.ok('same text as the single precision kernel up to the type name', 'text')
    else: log.undecided('same text as the single precision kernel up to the type name', 'differs')
    return dict(unit=log.unit, items=log.items)

def t_sanity(eq, ndim, acc, pas):
    """A wrong contract must be refuted (guards against a vacuous comparison)."""
    from vc.kern import verify
    from vc.log import Log
    log = Log('sanity %s %s' % (eq, pas))
    def spoil(s):
        st = [x for x in s.order if x.kind == 'update' and not x.arr.endswith('store_1')][-1]; st.expr = st.expr * 2
    l = verify(eq, ndim, acc, pas, 'float', 'step', spoil)
    log.check('a wrong contract is refuted', bool(l.bad()))
    return log

def t_num(eq, ndim, acc, pas, seeds, dtype='double', budget=60):
    from vc.numrun import Case
    t0 = time.time(); out = []; n = 0; nt = 0
    for s in seeds:
        c = Case(eq, ndim, acc, pas, s, dtype); bad = c.run(); n += 1; nt += bool(getattr(c, 'evaluated', False))
        if bad: out.append(dict(case=c.describe(), mismatch=bad[:8])); break
        if time.time() - t0 > budget: break
    return dict(unit='bounded %s %dD accuracy %d %s %s' % (eq, ndim, acc, pas, dtype), items=[], runs=n, nontrivial=nt, bounded=out)

def t_compile(eq, ndim, acc):
    from vc.numrun import build
    build([eqs.EQS[eq]['file'], 'storage_utils.c', 'simple_compress.c'], ndim, acc, 'double')
    return dict(unit='compile', items=[])

def configs(passes, eqn=None):
    for eq in eqn or eqs.EQS:
        for pas in abi.PASSES[eq]:
            if passes and not pas.startswith(passes): continue
            for nd in (1, 2, 3):
                for acc in (2, 4, 6, 8): yield eq, nd, acc, pas

def decide(rep, what, cfgs, budget=None, num=None):
    """Verify the configurations; replay what is refuted; stand in for what is undecided."""
    cfgs = sorted(cfgs, key=lambda c: -cost(*c[:3]))
    tasks = [(t_kernel, c + (what,)) for c in cfgs] + [(t_dtype, x) for x in sorted({c[:3] for c in cfgs})]
    tasks += [(t_sanity, x) for x in sorted({(c[0], 1, 2, c[3]) for c in cfgs})] if what == 'step' else []
    res = rep.run(tasks, 400)
    bad = [r for r in res if r['refuted']]
    und = [r for r in res if r['undecided'] and not r['refuted']]
    # conformance pass and stand-ins
    quick = TIER == 'quick'
    base = num if num is not None else ([c for c in cfgs if (c[1], c[2]) in ((1, 4), (2, 2), (2, 8), (3, 2))] if quick else cfgs)
    jobs = [(t_num, c + (list(range(SEED * 1000, SEED * 1000 + (6 if quick else 25))), 'double', 20 if quick else 90)) for c in base]
    seen = set()
    for r in bad + und:
        a = r['args']
        if r['fn'] == 't_sanity':
            # nothing can be refuted where the real configuration is itself undecided: reported there
            if any(x['fn'] == 't_kernel' and x['args'][0] == a[0] and x['args'][3] == a[3] and x['undecided'] for x in und + bad) or not r['refuted']: rep.notes.append('%s: not decided' % r['unit'])
            else: rep.errors.append('sanity check failed: %s' % r['unit'])
            continue
        if r['fn'] == 't_dtype': cs = [c for c in cfgs if c[:3] == a]; dt = ('double', 'float')
        else: cs = [a[:4]]; dt = ('double',)
        for c in cs:
            for d in dt:
                if (c, d) not in seen and len(seen) < 60:
                    seen.add((c, d)); jobs.append((t_num, c + (list(range(SEED * 5000, SEED * 5000 + 60)), d, 60)))
    nr = rep.run(jobs, 150)
    hits = {}
    for r in nr:
        for b in r['bounded']: hits.setdefault(r['args'][:4], []).append(b)
        for u in r['undecided']: (rep.notes if u['name'] == 'time limit' else rep.errors).append('%s: %s' % (r['unit'], u['detail'][-600:]))
        r['undecided'] = []; r['n'] = 0
    for r in bad:
        if r['fn'] == 't_sanity': continue
        o = r['refuted'][0]; h = hits.pop(tuple(r['args'][:4]), None)
        rep.violation('%s: %s: %s' % (r['unit'], o['name'], o['detail']), dict(failed_obligations=r['refuted'][:20], backend=o['backend'], failing_inputs=h, rerun='cd /verif && python3-vt -m vc.replay <this file>'), bool(h))
    for c, h in hits.items():
        rep.violation('%s: differs from the specification on a concrete input' % (c,), dict(failing_inputs=h, rerun='cd /verif && python3-vt -m vc.replay <this file>'), True)
    rep.viol.sort(key=lambda v: not v[2])

TRUST = ['vc/ (C front end, symbolic executor, normal form, comparison) and its stub headers for gcc -E', 'gcc preprocessor', 'z3 4.x via z3-solver', 'exact rational polynomial arithmetic (Python)']
ASSUME = ['floating-point arithmetic is treated as real arithmetic; 64-bit integers as mathematical integers',
          'pointer parameters do not overlap (the __restrict qualifiers of the declarations)',
          'OpenMP: iterations of the parallel loop over shots run concurrently on threads with ids 0 <= tid < n_threads; simd loops have the meaning of the sequential loop where the per-cell independence obligations hold',
          'interface contracts of the arguments (array extents, locations inside the grid, PML profiles zero in the interior and PML bounds ordered): obligations on the Python callers, see C08, C10, C14',
          'fopen/fseek/fread/fwrite/fclose behave as documented']

def main_step(prop, passes):
    from . import drivers, pyprop
    rep = Report(prop); rep.assume = list(ASSUME); quick = TIER == 'quick'
    decide(rep, 'step', list(configs(passes)))
    if prop == 'C01':
        cf = [(e, nd, 4, dict(what='forward', grads=(), **k)) for e in drivers.EQS for nd in (1, 2, 3) for k in (dict(), dict(batched=True))]
        confs = [drivers.e2e([(e, nd, 4 if nd < 3 else 2)], 25 if quick else 200, 20 if quick else 150, seed=SEED * 10 + 7 + nd) for e in drivers.EQS for nd in ((1, 2) if quick else (1, 2, 3))]
        return pyprop.decide(rep, drivers.tasks(prop, cf), confs, 'proof', 'All compiled forward configurations; the forward drivers of every equation and dimension.', trusted=TRUST + drivers.TRUST)
    # C02: what the drivers do around the compiled adjoint: gradient buffers, their sums, the order of the chunks, what is returned
    cf = [(e, nd, 4, dict(drivers.B, **k)) for e in drivers.EQS for nd in (1, 2, 3) for k in (dict(), dict(batched=True))]
    cf += [(e, nd, 4, dict(drivers.B, grads=g)) for e in drivers.EQS for g in drivers.SUB[e] for nd in ((1,) if quick else (1, 2, 3))]
    confs = [drivers.e2e([(e, nd, 4 if nd < 3 else 2)], 25 if quick else 200, 25 if quick else 150, seed=SEED * 10 + 5 + nd) for e in drivers.EQS for nd in ((1, 2) if quick else (1, 2, 3))]
    return pyprop.decide(rep, drivers.tasks(prop, cf), confs, 'proof', 'All compiled backward configurations; the drivers around them for every equation and dimension.', trusted=TRUST + drivers.TRUST)

def main_access(prop):
    from . import drivers, pyprop
    rep = Report(prop); rep.assume = list(ASSUME)
    decide(rep, 'access', list(configs(None)))
    cf = [(e, nd, 4, dict(drivers.B, **k)) for e in drivers.EQS for nd in (1, 2, 3) for k in (dict(), dict(batched=True), dict(give='none'))] + [(e, 2, 4, dict(drivers.B, storage=st, compress=c)) for e in drivers.EQS for st, c in (('disk', True), ('device', True), ('none', False))]
    return pyprop.decide(rep, drivers.tasks(prop, cf), [], 'proof', 'All compiled configurations; the extents they rely on are obligations on the drivers, proved for every equation and dimension.', trusted=TRUST + drivers.TRUST)

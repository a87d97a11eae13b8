"""Canonical names of the parameters of the compiled functions. The contracts speak about parameters by these names; a
function whose parameters are a permutation of the canonical names is matched by name, one whose parameters were renamed
is matched by position."""
import json, os
_HERE = os.path.dirname(os.path.abspath(__file__))
_tab = None
def table():
    global _tab
    if _tab is None: _tab = json.load(open(os.path.join(_HERE, 'abi.json')))
    return _tab
def key(eq, ndim, pas): return '%s %d %s' % (eq, ndim, pas)
def kernel_name(eq): return {'scalar': 'scalar_iso', 'scalar_born': 'scalar_born_iso', 'acoustic': 'acoustic_iso', 'elastic': 'elastic_iso'}[eq]
def capi_name(eq, ndim, acc, dtype, pas): return '%s_%dd_%d_%s_%s_cpu' % (kernel_name(eq), ndim, acc, dtype, pas)
def canonical(eq, ndim, pas, names):
    from .cfront import Unsupported
    want = table()[key(eq, ndim, pas)]
    if set(want) == set(names): return list(names)
    if len(want) == len(names): return list(want)
    raise Unsupported('parameter list of %s has %d entries, contract %d' % (key(eq, ndim, pas), len(names), len(want)))
PASSES = {'scalar': ['forward', 'backward'], 'scalar_born': ['forward', 'backward', 'backward_sc'], 'acoustic': ['forward', 'backward'], 'elastic': ['forward', 'backward']}
if __name__ == '__main__':
    from .cfront import load
    from . import eqs
    out = {}
    for eq, ps in PASSES.items():
        for nd in (1, 2, 3):
            u = load(eqs.EQS[eq]['file'], nd, 4, 'float')
            for p in ps: out[key(eq, nd, p)] = [n for n, _ in u.funcs[capi_name(eq, nd, 4, 'float', p)]['params']]
    json.dump(out, open(os.path.join(_HERE, 'abi.json'), 'w'), indent=0); print(len(out))

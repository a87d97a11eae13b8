"""Verify one compiled configuration."""
import time
from .cfront import load, Unsupported
from .csym import Exec
from .stencil import Kernel, Ctx
from .compare import Comparer
from .access import Access
from .log import Log
from .terms import sym
from . import eqs, abi

def verify(eq, ndim, acc, pas, dtype='float', what='step', spoil=None):
    E = eqs.EQS[eq]; log = Log('%s %dD accuracy %d %s %s' % (eq, ndim, acc, dtype, pas))
    fwd = pas.startswith('forward')
    try:
        u = load(E['file'], ndim, acc, dtype)
        fn = '%s_%dd_%d_%s_%s_cpu' % (E['prefix'], ndim, acc, dtype, pas)
        if fn not in u.funcs: raise Unsupported('no function %s' % fn)
        ex = Exec(u, names=abi.canonical(eq, ndim, pas, [n for n, _ in u.funcs[fn]['params']]), timeloop=(sym('start_t'), sym('start_t') + sym('nt'), 1) if fwd else (sym('start_t') - sym('nt'), sym('start_t'), -1)); ex.run(fn)
        ctx = Ctx(ndim, acc, 0 if eq.startswith('scalar') else 1)     # staggered: the last region may be one cell wider than the half-cell domain
        k = Kernel(ex, ctx, E['kinds'](ctx, fwd), E['pairs'](ctx, fwd), fwd, log)
        s = E[pas](ctx, k.t.p) if fwd else E[pas](ctx, k.t.p, log)
        if spoil: spoil(s)
        c = Comparer(k, s, E['zero'](ctx, fwd), E['dom'](ctx), log)
        if what == 'step': c.run()
        else: Access(k, c, log).run()
        log.zero_used = c.zero_used
    except Unsupported as x:
        log.undecided('kernel in the supported subset', x)
    return log
if __name__ == '__main__':
    import sys
    a = sys.argv[1:]
    t = time.time()
    l = verify(a[0], int(a[1]), int(a[2]), a[3], what='access' if '-a' in a else 'step')
    print(l.unit, l.counts(), '%.1fs' % (time.time() - t))
    for i in l.items:
        if i['status'] != 'proved' or '-v' in a: print(i)

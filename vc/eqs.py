"""Specifications of the four propagators (forward step; backward step generated by transposition)."""
from .terms import *
from .spec import *
from .stencil import Ctx

def nz_(name): return cmp_('!=', sym(name))
def every(t): return cmp_('==', imod(t, sym('step_ratio')))
def shot_root(s, t): return s
def batched(flag): return lambda s, t: ite(nz_(flag), s, ZERO)
def threaded(flag): return lambda s, t: ite(nz_(flag), s, sym('tid'))
def store_root(s, t):
    c = and_(cmp_('==', sym('storage_mode')), cmp_('==', sym('storage_compression')))
    return s + ite(c, idiv(t, sym('step_ratio')) * sym('n_shots'), ZERO)
GRID = lambda root=shot_root: ('grid', root)

class Eq: pass

# ------------------------------------------------------------------------------------------------ scalar / Born
def reg_dom(ctx):
    return lambda d, kind: (P(ctx.R), ctx.n[d] - ctx.R)

def reg_zero(ctx, forward):
    R = ctx.R
    def zero(arr):
        for d in ctx.dims:
            if arr in ('a' + d, 'b' + d): return [(d, ctx.p0[d] - R, ctx.p1[d] + R)]
            if arr == 'db%sd%s' % (d, d):
                return [(d, ctx.p0[d], ctx.p1[d])] if forward else [(d, ctx.p0[d] - R, ctx.p1[d] + R)]
            for nm in ('psi', 'zeta'):
                if arr in (nm + d, nm + d + 'n', nm + d + 'sc', nm + d + 'nsc'): return [(d, ctx.p0[d], ctx.p1[d])]
        return []
    return zero

def scalar_exprs(s, u, psi, zeta, b=None):
    """PML-modified Laplacian and memory-variable updates of wavefield u."""
    w = ZERO; ps = {}; ze = {}
    for d in s.ctx.dims:
        a_, b_, db = s.C('a' + d, d), s.C('b' + d, d), s.C('db%sd%s' % (d, d), d)
        du = s.D(d, u); tmp = (ONE + b_) * s.D(d, u, 2) + db * du + s.D(d, a_ * psi[d])
        w = w + (ONE + b_) * tmp + a_ * zeta[d]
        ps[d] = b_ * du + a_ * psi[d]
        ze[d] = b_ * tmp + a_ * zeta[d]
    return w, ps, ze

def idom(ctx): return {d: 'i' for d in ctx.dims}

def scalar_forward(ctx, t):
    s = Spec(ctx); dom = idom(ctx)
    u, up, v = s.F('wfc'), s.F('wfp'), s.F('v')
    w, ps, ze = scalar_exprs(s, u, {d: s.F('psi' + d) for d in ctx.dims}, {d: s.F('zeta' + d) for d in ctx.dims})
    new = v * v * sym('dt2', 'f') * w + 2 * u - up
    va, = v.atoms()
    g = and_(nz_('v_requires_grad'), every(t))
    s.update('w_store_1', deriv(new, va), dom, g)
    for d in ctx.dims: s.update('psi%sn' % d, ps[d], dom); s.update('zeta' + d, ze[d], dom)
    s.update('wfp', new, dom)
    s.save('w', g)
    s.inject('wfp', 'sources_i', 'f', 'n_sources_per_shot')
    s.record('r', 'receivers_i', ['wfc'], 'n_receivers_per_shot')
    return s

def scalar_kinds(ctx, forward):
    k = {'wfc': GRID(), 'wfp': GRID(), 'sources_i': ('loc',), 'receivers_i': ('loc',), 'w_store_1': GRID(store_root)}
    if forward: k.update({'v': GRID(batched('v_batched')), 'f': ('row',), 'r': ('row',)})
    else: k.update({'v2dt2': GRID(batched('v_batched')), 'grad_r': ('row',), 'grad_f': ('row',), 'grad_v_thread': GRID(threaded('v_batched'))})
    for d in ctx.dims:
        for n in ('psi%s', 'psi%sn', 'zeta%s', 'zeta%sn'): k[n % d] = GRID()
        for n in ('a%s' % d, 'b%s' % d, 'db%sd%s' % (d, d)): k[n] = ('coef', d)
    return k
def scalar_pairs(ctx, forward):
    p = [('wfc', 'wfp')] + [('psi' + d, 'psi%sn' % d) for d in ctx.dims]
    if not forward: p += [('zeta' + d, 'zeta%sn' % d) for d in ctx.dims]
    return p

def scalar_backward(ctx, t, log=None):
    s = Spec(ctx); dom = idom(ctx)
    # forward linear stages on the state c, p, psi_d, zeta_d
    st = Spec(ctx)
    c, p = st.F('c'), st.F('p')
    w, ps, ze = scalar_exprs(st, c, {d: st.F('psi' + d) for d in ctx.dims}, {d: st.F('zeta' + d) for d in ctx.dims})
    lam = {'p': s.F('wfc'), 'c': -s.F('wfp')}
    for d in ctx.dims: lam['psi' + d] = s.F('psi' + d); lam['zeta' + d] = s.F('zeta' + d)
    A = Adjoint(st, lam)
    for d in ctx.dims: A.stage('psi' + d, ps[d])
    for d in ctx.dims: A.stage('zeta' + d, ze[d])
    A.stage('p', st.F('v2dt2') * w + 2 * c - p)
    if log is not None: log.check('lemma: adjoint of the previous wavefield is minus the current adjoint (buffer wfp holds it negated)', A.lam['p'] == -s.F('wfc'))
    g = and_(nz_('v_requires_grad'), every(t))
    s.load('w', g)
    s.update('grad_v_thread', s.F('grad_v_thread') + s.F('wfc') * s.F('w_store_1') * sym('step_ratio'), dom, g)
    for d in ctx.dims: s.update('psi%sn' % d, A.lam['psi' + d], dom); s.update('zeta%sn' % d, A.lam['zeta' + d], dom)
    s.update('wfp', A.lam['c'], dom)
    s.inject('wfp', 'receivers_i', 'grad_r', 'n_receivers_per_shot')
    s.record('grad_f', 'sources_i', ['wfc'], 'n_sources_per_shot')
    return s


def or_every(t, *names): return and_(or_(*[nz_(n) for n in names]), every(t))
def ors_every(t, *names): return or_(*[and_(nz_(n), every(t)) for n in names])

def grad(s, log, what, garr, model, contribs, dom, guard, ratio=None):
    """Gradient contract: garr += sum_X lam_X * dE_X/dmodel * step_ratio, with dE_X/dmodel expressed by the stored quantities.
    contribs: (lam_X expression, E_X, [(coefficient, store name, stored expression)]). The lemma checks that
    dE_X/dmodel equals the combination of the stored expressions of the forward contract."""
    tot = ZERO
    for lam, E, parts in contribs:
        ma, = model.atoms()
        want = deriv(E, ma); have = ZERO
        for c, name, e in parts:
            have = have + c * e; tot = tot + lam * c * s.F(name + '_store_1')
        if log is not None: log.check('lemma: stored quantities give d(step)/d(%s)%s' % (show(model), what), want == have, '%s versus %s' % (show(want, 6), show(have, 6)))
    s.update(garr, s.F(garr) + tot * sym('step_ratio'), dom, guard)

# -------------------------------------------------------------------------------------------------------- Born
def born_step(s):
    ds = s.ctx.dims
    u, up, usc, upsc, v, sc = [s.F(n) for n in ('wfc', 'wfp', 'wfcsc', 'wfpsc', 'v', 'scatter')]
    w, ps, ze = scalar_exprs(s, u, {d: s.F('psi' + d) for d in ds}, {d: s.F('zeta' + d) for d in ds})
    wsc, pssc, zesc = scalar_exprs(s, usc, {d: s.F('psi%ssc' % d) for d in ds}, {d: s.F('zeta%ssc' % d) for d in ds})
    dt2 = sym('dt2', 'f')
    new = v * v * dt2 * w + 2 * u - up
    newsc = v * v * dt2 * wsc + 2 * usc - upsc + 2 * v * sc * dt2 * w
    return w, ps, ze, wsc, pssc, zesc, new, newsc

def born_forward(ctx, t):
    s = Spec(ctx); dom = idom(ctx)
    w, ps, ze, wsc, pssc, zesc, new, newsc = born_step(s)
    gw = ors_every(t, 'v_requires_grad', 'scatter_requires_grad'); gsc = and_(nz_('v_requires_grad'), every(t))
    s.update('w_store_1', w, dom, gw); s.update('wsc_store_1', wsc, dom, gsc)
    for d in ctx.dims:
        s.update('psi%sn' % d, ps[d], dom); s.update('zeta' + d, ze[d], dom)
        s.update('psi%snsc' % d, pssc[d], dom); s.update('zeta%ssc' % d, zesc[d], dom)
    s.update('wfp', new, dom); s.update('wfpsc', newsc, dom)
    s.save('w', gw); s.save('wsc', gsc)
    s.inject('wfp', 'sources_i', 'f', 'n_sources_per_shot'); s.inject('wfpsc', 'sources_i', 'fsc', 'n_sources_per_shot')
    s.record('r', 'receivers_i', ['wfc'], 'n_receivers_per_shot'); s.record('rsc', 'receiverssc_i', ['wfcsc'], 'n_receiverssc_per_shot')
    return s

def born_kinds(ctx, forward):
    k = {}
    for n in ('wfc', 'wfp', 'wfcsc', 'wfpsc'): k[n] = GRID()
    for n in ('sources_i', 'receivers_i', 'receiverssc_i'): k[n] = ('loc',)
    k['v'] = GRID(batched('v_batched')); k['scatter'] = GRID(batched('scatter_batched'))
    k['w_store_1'] = k['wsc_store_1'] = GRID(store_root)
    for n in ('f', 'fsc', 'r', 'rsc') if forward else ('grad_r', 'grad_rsc', 'grad_f', 'grad_fsc'): k[n] = ('row',)
    if not forward: k['grad_v_thread'] = GRID(threaded('v_batched')); k['grad_scatter_thread'] = GRID(threaded('scatter_batched'))
    for d in ctx.dims:
        for n in ('psi%s', 'psi%sn', 'zeta%s', 'zeta%sn'):
            for x in ('', 'sc'): k[n % d + x] = GRID()
        for n in ('a%s' % d, 'b%s' % d, 'db%sd%s' % (d, d)): k[n] = ('coef', d)
    return k
def born_pairs(ctx, forward):
    p = []
    for x in ('', 'sc'):
        p += [('wfc' + x, 'wfp' + x)] + [('psi%s' % d + x, 'psi%sn' % d + x) for d in ctx.dims]
        if not forward: p += [('zeta%s' % d + x, 'zeta%sn' % d + x) for d in ctx.dims]
    return p

def born_backward(ctx, t, log=None, sc_only=False):
    s = Spec(ctx); dom = idom(ctx); ds = ctx.dims
    st = Spec(ctx)
    w, ps, ze, wsc, pssc, zesc, new, newsc = born_step(st)
    if sc_only:
        # the background field is data: transpose with respect to the scattered state only
        newsc = Poly({m: c for m, c in newsc.d.items() if any(ATOMS[a][0] == 'F' and (ATOMS[a][1].endswith('sc')) for a in m)})
    lam = {'wfpsc': s.F('wfcsc'), 'wfcsc': -s.F('wfpsc')}
    for d in ds: lam['psi%ssc' % d] = s.F('psi%ssc' % d); lam['zeta%ssc' % d] = s.F('zeta%ssc' % d)
    if not sc_only:
        lam['wfp'] = s.F('wfc'); lam['wfc'] = -s.F('wfp')
        for d in ds: lam['psi' + d] = s.F('psi' + d); lam['zeta' + d] = s.F('zeta' + d)
    A = Adjoint(st, lam)
    for d in ds: A.stage('psi%ssc' % d, pssc[d])
    for d in ds: A.stage('zeta%ssc' % d, zesc[d])
    if not sc_only:
        for d in ds: A.stage('psi' + d, ps[d])
        for d in ds: A.stage('zeta' + d, ze[d])
    A.stage('wfpsc', newsc)
    if not sc_only: A.stage('wfp', new)
    if log is not None:
        log.check('lemma: adjoint of the previous scattered wavefield is minus the current adjoint', A.lam['wfpsc'] == -s.F('wfcsc'))
        if not sc_only: log.check('lemma: adjoint of the previous wavefield is minus the current adjoint', A.lam['wfp'] == -s.F('wfc'))
    v, sc, dt2 = st.F('v'), st.F('scatter'), sym('dt2', 'f')
    full = born_step(st)
    gsct = and_(nz_('scatter_requires_grad'), every(t)); gv = and_(nz_('v_requires_grad'), every(t))
    s.load('w', gsct if sc_only else or_every(t, 'v_requires_grad', 'scatter_requires_grad'))
    if not sc_only: s.load('wsc', gv)
    if not sc_only:
        grad(s, log, '', 'grad_v_thread', v, [(s.F('wfc'), full[6], [(2 * v * dt2, 'w', w)]),
                                              (s.F('wfcsc'), full[7], [(2 * dt2 * sc, 'w', w), (2 * v * dt2, 'wsc', wsc)])], dom, gv)
    grad(s, log, '', 'grad_scatter_thread', sc, [(s.F('wfcsc'), full[7], [(2 * v * dt2, 'w', w)])], dom, gsct)
    for x in ('sc',) if sc_only else ('', 'sc'):
        for d in ds: s.update('psi%sn' % d + x, A.lam['psi%s' % d + x], dom); s.update('zeta%sn' % d + x, A.lam['zeta%s' % d + x], dom)
        s.update('wfp' + x, A.lam['wfc' + x], dom)
        s.inject('wfp' + x, 'receivers%s_i' % x, 'grad_r' + x, 'n_receivers%s_per_shot' % x)
        s.record('grad_f' + x, 'sources_i', ['wfc' + x], 'n_sources%s_per_shot' % x)
    return s

# ---------------------------------------------------------------------------------------------- staggered grids
def stag_dom(ctx):
    return lambda d, kind: (P(ctx.R), ctx.n[d] - ctx.R + (1 if kind == 'i' else 0))
def hdom(ctx, *half): return {d: 'h' if d in half else 'i' for d in ctx.dims}
def half_end(ctx, d):
    return ite(lt(ctx.p1[d] - 1, ctx.p0[d]), ctx.p0[d], ctx.p1[d] - 1)
def mem_step(s, mem, fld, d, half):
    """Memory variable mem of d fld/d d: returns (new memory value, derivative including it)."""
    x = 'h' if half else ''
    a, b = s.C('a%s%s' % (d, x), d), s.C('b%s%s' % (d, x), d)
    g = s.D(d, s.F(fld), 1, 1 if half else -1)
    m = a * s.F(mem) + b * g
    return m, g + m
def stag_zero(mems):
    """mems(ctx) -> {memory array: (dim, half)}"""
    def zero_(ctx, forward):
        R = ctx.R; ms = mems(ctx)
        def zero(arr):
            for d in ctx.dims:
                if arr in ('a' + d, 'b' + d): return [(d, ctx.p0[d], ctx.p1[d]) if forward else (d, ctx.p0[d] - R + 1, ctx.p1[d] + R - 1)]
                if arr in ('a%sh' % d, 'b%sh' % d): return [(d, ctx.p0[d], half_end(ctx, d)) if forward else (d, ctx.p0[d] - R, ctx.p1[d] + R - 1)]
            n = arr[:-1] if arr not in ms and arr.endswith('n') else arr
            if n in ms:
                d, half = ms[n]
                return [(d, ctx.p0[d], half_end(ctx, d) if half else ctx.p1[d])]
            return []
        return zero
    return zero_

def ac_mems(ctx):
    m = {}
    for d in ctx.dims: m['phi_' + d] = (d, False); m['psi_' + d] = (d, True)
    return m
def ac_kinds(ctx, forward):
    k = {'k': GRID(batched('k_batched')), 'p': GRID(), 'k_grad_store_1': GRID(store_root)}
    comps = ['p'] + ['v' + d for d in ctx.dims]
    for c in comps:
        k['sources_i_' + c] = k['receivers_i_' + c] = ('loc',)
        for n in ('f_', 'r_') if forward else ('grad_f_', 'grad_r_'): k[n + c] = ('row',)
    if not forward: k['grad_k_thread'] = GRID(threaded('k_batched'))
    for d in ctx.dims:
        k['buoyancy_' + d] = GRID(batched('b_batched')); k['b%s_grad_store_1' % d] = GRID(store_root)
        for n in ('v' + d, 'phi_' + d, 'psi_' + d, 'psi_%sn' % d): k[n] = GRID()
        for n in 'ab':
            for h in ('', 'h'): k[n + d + h] = ('coef', d)
        if not forward: k['grad_b%s_thread' % d] = GRID(threaded('b_batched'))
    return k
def ac_pairs(ctx, forward): return [] if forward else [('psi_' + d, 'psi_%sn' % d) for d in ctx.dims]

def ac_step(s, upd):
    """upd(kind, array, expr, ...) is told every stage in order."""
    ctx = s.ctx; dt = sym('dt', 'f')
    for c in ['p'] + ['v' + d for d in ctx.dims]: upd('record', c)
    for d in ctx.dims:
        m, g = mem_step(s, 'psi_' + d, 'p', d, True)
        upd('update', 'psi_' + d, m, hdom(ctx, d))
        upd('store', 'b%s_grad' % d, g, hdom(ctx, d), 'b_requires_grad')
        upd('update', 'v' + d, s.F('v' + d) - dt * s.F('buoyancy_' + d) * g, hdom(ctx, d))
    for d in ctx.dims: upd('inject', 'v' + d)
    div = ZERO
    for d in ctx.dims:
        m, g = mem_step(s, 'phi_' + d, 'v' + d, d, False)
        upd('update', 'phi_' + d, m, hdom(ctx)); div = div + g
    upd('store', 'k_grad', div, hdom(ctx), 'k_requires_grad')
    upd('update', 'p', s.F('p') - dt * s.F('k') * div, hdom(ctx))
    upd('inject', 'p')

def ac_forward(ctx, t):
    s = Spec(ctx); saves = []
    def upd(kind, *a):
        if kind == 'record': s.record('r_' + a[0], 'receivers_i_' + a[0], [a[0]], 'n_receivers_%s_per_shot' % a[0])
        elif kind == 'inject': s.inject(a[0], 'sources_i_' + a[0], 'f_' + a[0], 'n_sources_%s_per_shot' % a[0])
        elif kind == 'update':
            s.update(a[0], a[1], a[2])
        else: s.update(a[0] + '_store_1', a[1], a[2], and_(nz_(a[3]), every(t))); saves.append((a[0], and_(nz_(a[3]), every(t))))
    ac_step(s, upd)
    for n, g in saves: s.save(n, g)
    return s

def ac_backward(ctx, t, log=None):
    s = Spec(ctx); st = Spec(ctx); E = {}; stores = {}
    ac_step(st, lambda kind, *a: E.__setitem__(a[0], a[1]) if kind == 'update' else stores.__setitem__(a[0], a[1]) if kind == 'store' else None)
    dt = sym('dt', 'f'); ds = ctx.dims
    A = Adjoint(st, {n: s.F(n) for n in ['p'] + ['v' + d for d in ds] + ['phi_' + d for d in ds] + ['psi_' + d for d in ds]})
    gk = and_(nz_('k_requires_grad'), every(t)); gb = and_(nz_('b_requires_grad'), every(t))
    s.load('k_grad', gk)
    for d in ds: s.load('b%s_grad' % d, gb)
    s.record('grad_f_p', 'sources_i_p', ['p'], 'n_sources_p_per_shot')
    k = st.F('k'); grad(s, log, '', 'grad_k_thread', k, [(A.lam['p'], E['p'], [(-dt, 'k_grad', stores['k_grad'])])], hdom(ctx), gk)
    A.simul({n: E[n] for n in ['p'] + ['phi_' + d for d in ds]})
    phi = {d: A.lam['phi_' + d] for d in ds}
    for d in ds:
        # lam[v_d] is complete; it becomes the new content of the adjoint velocity array
        s.update('v' + d, A.lam['v' + d], hdom(ctx, d)); A.lam['v' + d] = s.F('v' + d)
    for d in ds:
        b = st.F('buoyancy_' + d)
        grad(s, log, '', 'grad_b%s_thread' % d, b, [(s.F('v' + d), E['v' + d], [(-dt, 'b%s_grad' % d, stores['b%s_grad' % d])])], hdom(ctx, d), gb)
        s.record('grad_f_v' + d, 'sources_i_v' + d, ['v' + d], 'n_sources_v%s_per_shot' % d)
    for d in ds:
        A.simul({n: E[n] for n in ('v' + d, 'psi_' + d)})
        if log is not None: log.check('lemma: the velocity update keeps the adjoint velocity', A.lam['v' + d] == s.F('v' + d))
        s.update('psi_%sn' % d, A.lam['psi_' + d], hdom(ctx, d))
    for d in ds: s.update('phi_' + d, phi[d], hdom(ctx))
    s.update('p', A.lam['p'], hdom(ctx))
    for c in ['p'] + ['v' + d for d in ds]: s.inject(c, 'receivers_i_' + c, 'grad_r_' + c, 'n_receivers_%s_per_shot' % c)
    return s

# ------------------------------------------------------------------------------------------------------ elastic
PAIR = {frozen_: n for n, frozen_ in (('xy', frozenset('xy')), ('xz', frozenset('xz')), ('yz', frozenset('yz')))}
def stress(d, e): return 'sigma' + (d + d if d == e else PAIR[frozenset((d, e))])
SHEAR = [('y', 'x', 'mu_yx', 'dvydx_plus_dvxdy'), ('z', 'x', 'mu_zx', 'dvzdx_plus_dvxdz'), ('z', 'y', 'mu_zy', 'dvzdy_plus_dvydz')]
def shears(ctx): return [x for x in SHEAR if x[0] in ctx.dims and x[1] in ctx.dims]
def el_mems(ctx):
    m = {}
    for d in ctx.dims:
        for e in ctx.dims:
            m['m_' + stress(d, e) + e] = (e, d == e); m['m_v%s%s' % (d, e)] = (e, d != e)
    return m
def el_sig(ctx): return ['sigma' + d + d for d in ctx.dims] + [stress(a, b) for a, b, _, _ in shears(ctx)]
def el_stores(ctx):
    return [('dv%sdbuoyancy' % d, ('buoyancy_requires_grad',)) for d in ctx.dims] + [('dv%sd%s' % (d, d), ('lamb_requires_grad', 'mu_requires_grad')) for d in ctx.dims] + \
           [(n, ('mu_requires_grad',)) for _, _, _, n in shears(ctx)]
def el_kinds(ctx, forward):
    k = {'lamb': GRID(batched('lamb_batched')), 'mu': GRID(batched('mu_batched'))}
    for _, _, m, _ in shears(ctx): k[m] = GRID(batched('mu_batched'))
    for n, _ in el_stores(ctx): k[n + '_store_1'] = GRID(store_root)
    for n in el_sig(ctx): k[n] = GRID()
    for n in el_mems(ctx):
        k[n] = GRID()
        if n.startswith('m_sigma'): k[n + 'n'] = GRID()
    for d in ctx.dims:
        k['v' + d] = GRID(); k['buoyancy_' + d] = GRID(batched('buoyancy_batched'))
        for n in 'ab':
            for h in ('', 'h'): k[n + d + h] = ('coef', d)
    for c in ctx.dims + ['p']:
        k['sources_%s_i' % c] = k['receivers_%s_i' % c] = ('loc',)
        for n in ('f_', 'r_') if forward else ('grad_f_', 'grad_r_'): k[n + c] = ('row',)
    if not forward:
        k['grad_lamb_thread'] = GRID(threaded('lamb_batched')); k['grad_mu_thread'] = GRID(threaded('mu_batched'))
        for _, _, m, _ in shears(ctx): k['grad_%s_thread' % m] = GRID(threaded('mu_batched'))
        for d in ctx.dims: k['grad_buoyancy_%s_thread' % d] = GRID(threaded('buoyancy_batched'))
    return k
def el_pairs(ctx, forward): return [] if forward else [(n, n + 'n') for n in el_mems(ctx) if n.startswith('m_sigma')]

def el_velocity(s):
    """-> {array: (expression, domain)}, {store: (expression, domain)}"""
    ctx = s.ctx; U = {}; S = {}; dt = sym('dt', 'f')
    for d in ctx.dims:
        w = ZERO; dom = hdom(ctx, d)
        for e in ctx.dims:
            n = 'm_' + stress(d, e) + e
            m, g = mem_step(s, n, stress(d, e), e, d == e); U[n] = (m, dom); w = w + g
        S['dv%sdbuoyancy' % d] = (dt * w, dom)
        U['v' + d] = (s.F('v' + d) + s.F('buoyancy_' + d) * dt * w, dom)
    return U, S
def el_stress(s):
    ctx = s.ctx; U = {}; S = {}; dt = sym('dt', 'f'); G = {}
    for d in ctx.dims:
        n = 'm_v%s%s' % (d, d)
        m, G[d] = mem_step(s, n, 'v' + d, d, False); U[n] = (m, hdom(ctx)); S['dv%sd%s' % (d, d)] = (dt * G[d], hdom(ctx))
    tr = ZERO
    for d in ctx.dims: tr = tr + G[d]
    for d in ctx.dims: U['sigma' + d + d] = (s.F('sigma' + d + d) + dt * (s.F('lamb') * tr + 2 * s.F('mu') * G[d]), hdom(ctx))
    for a, b, mu, st in shears(ctx):
        w = ZERO; dom = hdom(ctx, a, b)
        for c, e in ((a, b), (b, a)):
            n = 'm_v%s%s' % (c, e)
            m, g = mem_step(s, n, 'v' + c, e, True); U[n] = (m, dom); w = w + g
        S[st] = (dt * w, dom)
        U[stress(a, b)] = (s.F(stress(a, b)) + dt * s.F(mu) * w, dom)
    return U, S
def el_guard(t, names): return ors_every(t, *names)

def el_forward(ctx, t):
    s = Spec(ctx); st = dict(el_stores(ctx)); normal = ['sigma' + d + d for d in ctx.dims]
    for d in ctx.dims: s.record('r_' + d, 'receivers_%s_i' % d, ['v' + d], 'n_receivers_%s_per_shot' % d)
    s.record('r_p', 'receivers_p_i', normal, 'n_receivers_p_per_shot')
    for part in (el_velocity, el_stress):
        U, S = part(s)
        for n, (e, dom) in S.items(): s.update(n + '_store_1', e, dom, el_guard(t, st[n]))
        for n, (e, dom) in U.items(): s.update(n, e, dom)
        if part is el_velocity:
            for d in ctx.dims: s.inject('v' + d, 'sources_%s_i' % d, 'f_' + d, 'n_sources_%s_per_shot' % d)
    for n in normal: s.inject(n, 'sources_p_i', 'f_p', 'n_sources_p_per_shot')
    for n, g in el_stores(ctx): s.save(n, el_guard(t, g))
    return s

def el_backward(ctx, t, log=None):
    s = Spec(ctx); st = Spec(ctx); ds = ctx.dims; dt = sym('dt', 'f'); normal = ['sigma' + d + d for d in ds]
    UV, SV = el_velocity(st); US, SS = el_stress(st)
    A = Adjoint(st, {n: s.F(n) for n in list(UV) + list(US)})
    for n, g in el_stores(ctx): s.load(n, and_(or_(*[nz_(x) for x in g]), every(t)))
    s.record('grad_f_p', 'sources_p_i', normal, 'n_sources_p_per_shot')
    one = lambda x: and_(nz_(x), every(t))
    grad(s, log, '', 'grad_lamb_thread', st.F('lamb'), [(A.lam['sigma' + d + d], US['sigma' + d + d][0], [(ONE, 'dv%sd%s' % (e, e), SS['dv%sd%s' % (e, e)][0]) for e in ds]) for d in ds], hdom(ctx), one('lamb_requires_grad'))
    grad(s, log, '', 'grad_mu_thread', st.F('mu'), [(A.lam['sigma' + d + d], US['sigma' + d + d][0], [(P(2), 'dv%sd%s' % (d, d), SS['dv%sd%s' % (d, d)][0])]) for d in ds], hdom(ctx), one('mu_requires_grad'))
    for a, b, mu, n in shears(ctx):
        grad(s, log, '', 'grad_%s_thread' % mu, st.F(mu), [(A.lam[stress(a, b)], US[stress(a, b)][0], [(ONE, n, SS[n][0])])], hdom(ctx, a, b), one('mu_requires_grad'))
    A.simul({n: e for n, (e, _) in US.items()})
    mv = {n: (A.lam[n], US[n][1]) for n in US if n.startswith('m_')}
    for d in ds: s.update('v' + d, A.lam['v' + d], hdom(ctx, d)); A.lam['v' + d] = s.F('v' + d)
    for d in ds:
        n = 'dv%sdbuoyancy' % d
        grad(s, log, '', 'grad_buoyancy_%s_thread' % d, st.F('buoyancy_' + d), [(s.F('v' + d), UV['v' + d][0], [(ONE, n, SV[n][0])])], hdom(ctx, d), one('buoyancy_requires_grad'))
        s.record('grad_f_' + d, 'sources_%s_i' % d, ['v' + d], 'n_sources_%s_per_shot' % d)
    A.simul({n: e for n, (e, _) in UV.items()})
    for n in UV:
        if n.startswith('m_'): s.update(n + 'n', A.lam[n], UV[n][1])
        elif log is not None: log.check('lemma: the velocity update keeps the adjoint velocity', A.lam[n] == s.F(n))
    for n, (e, dom) in mv.items(): s.update(n, e, dom)
    for n in US:
        if n.startswith('sigma'): s.update(n, A.lam[n], US[n][1])
    for d in ds: s.inject('v' + d, 'receivers_%s_i' % d, 'grad_r_' + d, 'n_receivers_%s_per_shot' % d)
    for n in normal: s.inject(n, 'receivers_p_i', 'grad_r_p', 'n_receivers_p_per_shot')
    return s

EQS = {'scalar': dict(file='scalar.c', prefix='scalar_iso', forward=scalar_forward, backward=scalar_backward, kinds=scalar_kinds, pairs=scalar_pairs, dom=reg_dom, zero=reg_zero),
       'scalar_born': dict(file='scalar_born.c', prefix='scalar_born_iso', forward=born_forward, backward=born_backward,
                           backward_sc=lambda ctx, t, log=None: born_backward(ctx, t, log, True), kinds=born_kinds, pairs=born_pairs, dom=reg_dom, zero=reg_zero),
       'acoustic': dict(file='acoustic.c', prefix='acoustic_iso', forward=ac_forward, backward=ac_backward, kinds=ac_kinds, pairs=ac_pairs, dom=stag_dom, zero=stag_zero(ac_mems)),
       'elastic': dict(file='elastic.c', prefix='elastic_iso', forward=el_forward, backward=el_backward, kinds=el_kinds, pairs=el_pairs, dom=stag_dom, zero=stag_zero(el_mems))}

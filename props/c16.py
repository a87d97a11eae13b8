"""C16: the Born propagator is the linearisation of the scalar propagator."""
from vc import eqs
from vc.terms import *
from vc.terms import ATOMS
from vc.spec import Spec, deriv
from vc.stencil import Ctx
from vc.log import Log
from vc.report import Report, SEED, TIER
from . import kernels, pyprop, drivers

def linearise(E, d):
    """derivative of E in the direction d: {array: array of its perturbation}; every other array (coefficients, profiles) is constant"""
    out = ZERO
    for a in E.atoms():
        k = ATOMS[a]
        if k[0] == 'F' and k[1] in d: out = out + deriv(E, a) * Poly.at(atom('F', d[k[1]], k[2], k[3]))
    return out

def t_lemma(nd, acc, spoil=False):
    """The contract of the Born step is the derivative of the contract of the scalar step (and its background is the scalar step)."""
    log = Log('linearisation %dd accuracy %d' % (nd, acc)); ctx = Ctx(nd, acc); s = Spec(ctx); ds = ctx.dims
    st = eqs.scalar_forward(ctx, sym('t')); b = eqs.born_forward(ctx, sym('t'))
    S = {x.arr: x for x in st.order if x.kind == 'update'}; B = {x.arr: x for x in b.order if x.kind == 'update'}
    D = {'wfc': 'wfcsc', 'wfp': 'wfpsc', 'v': 'scatter'}
    for d in ds: D['psi' + d] = 'psi%ssc' % d; D['zeta' + d] = 'zeta%ssc' % d
    if spoil: D['wfp'] = 'wfcsc'
    names = [('wfp', 'wfp', 'wfpsc')] + [('psi%sn' % d, 'psi%sn' % d, 'psi%snsc' % d) for d in ds] + [('zeta' + d, 'zeta' + d, 'zeta%ssc' % d) for d in ds]
    for sc, bg, pt_ in names:
        log.check('background %s: the scalar step' % bg, S[sc].expr == B[bg].expr and S[sc].dom == B[bg].dom and B[bg].guard == TRUE, show(B[bg].expr - S[sc].expr, 6))
        w = linearise(S[sc].expr, D)
        log.check('scattered %s: the derivative of the scalar step' % pt_, w == B[pt_].expr and B[pt_].dom == S[sc].dom and B[pt_].guard == TRUE, show(B[pt_].expr - w, 6))
    rec = {x.out: x.arrs for x in b.records}
    log.check('receivers: the derivative of the recorded values', rec['rsc'] == [(D[a] if a in D else a, v) for a, v in rec['r']], str(rec))
    # the source term: the propagate function adds f = -amplitude v^2 dt^2 to the background; its derivative is the scattered source term
    v, sc, a, dt2 = (s.F(n) for n in ('v', 'scatter', 'amp', 'dt2'))
    f = -a * v * v * dt2
    log.check('source term: the derivative of the scalar source term', linearise(f, {'v': 'scatter'}) == -2 * a * v * sc * dt2)
    inj = {x.arr: x for x in b.order if x.kind == 'inject'}
    log.check('both source terms are added at the same cells', inj['wfp'].loc == inj['wfpsc'].loc and inj['wfp'].n == inj['wfpsc'].n)
    return log

def main(prop):
    rep = Report(prop); rep.assume = list(kernels.ASSUME); quick = TIER == 'quick'
    kernels.decide(rep, 'step', list(kernels.configs('forward', ['scalar', 'scalar_born'])))
    tasks = [(t_lemma, (nd, acc)) for nd in (1, 2, 3) for acc in (2, 4, 6, 8)]
    tasks += drivers.tasks(prop, [(e, nd, 4, dict(k)) for e in ('scalar', 'scalar_born') for nd in (1, 2, 3) for k in (dict(), dict(batched=True), dict(give='none'))])
    confs = [drivers.e2e([('scalar_born', nd, acc)], 40, 50, seed=SEED * 10 + 3) for nd, acc in ((1, 4), (2, 2))]
    more = [drivers.e2e([('scalar_born', nd, acc)], 100, 80, seed=79) for nd, acc in ((1, 4), (2, 2), (3, 2))]
    return pyprop.decide(rep, tasks, confs, 'proof', 'All models, scattering potentials, wavefields, profiles; 1 to 3 dimensions, every accuracy: both compiled kernels meet their contracts, the Born contract is the derivative of the scalar contract, and the drivers pass the scaled source terms.',
                         sanity=[(t_lemma, (1, 4))], trusted=kernels.TRUST + drivers.TRUST, extra_conf=more)

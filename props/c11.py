"""C11: resampling. Contracts of upsample / downsample over an uninterpreted discrete Fourier transform, plus the caller-level reshaping."""
import math
from vc.pysym import *
from vc.pysym import mul as pmul
from vc import pysym, pytorch as pt
from vc.report import Report, SEED
from . import pyprop
PI_ = P(pysym.rat(math.pi)); IM = Poly.at(atom('sym', 'imaginary_unit', 'f'))

def pos(name, lo=0):
    x = mk(sym(name, 'i'), 'i'); assume(le(lo, x.p)); return x
def frac(name, zero):
    if zero: return 0.0
    x = mk(sym(name, 'f'), 'f'); assume(lt(0, x.p)); assume(le(x.p, 1)); return x
def rs(n):
    r = ONE
    for x in n: r = pmul(r, inv(sqrt_(pt.sz(x))))
    return r
def nn(n):
    r = ONE
    for x in n: r = r * pt.sz(x)
    return r
def fscale(norm, n): return {'ortho': rs(n), 'backward': ONE, None: ONE, 'forward': inv(nn(n))}[norm]
def iscale(norm, n): return {'ortho': rs(n), 'backward': inv(nn(n)), None: inv(nn(n)), 'forward': ONE}[norm]
def hann(j, n): return (ONE - fn_('cos', pmul(j * 2 * pt.PI, inv(pt.sz(n) - 1)))) * Fraction(1, 2)

def fft_pair(it):
    lg = pt._fftlog()
    ok = it.true('one forward and one inverse transform', [e[0] for e in lg] == ['rfft', 'irfft'], str([e[0] for e in lg]))
    return lg if ok else None

def check_bin(it, name, X, F, n_in, n_out, fwd, bwd, n_amp, w, extra=ONE, post=ONE, h=ONE):
    """iscale * X == (w h / n_amp) * F for one bin (post: the factor applied after the inverse transform): F is the (norm-scaled) spectrum sample the code received, fwd / bwd the norms used.
    X is linear in F: X = a F; shown as (a iscale fscale)^2 n_amp^2 = w^2 with a of the sign of w (both 0 or positive)."""
    F = ATOMS[next(iter(F.atoms()))]; own = [a for a in sorted(X.atoms()) if ATOMS[a][0] == 'sel' and ATOMS[a][1] == F[1]]
    if not it.true('%s: one bin of the spectrum' % name, len(own) == 1, show(X)[:300]): return
    fa = own[0]
    for u, v in zip(ATOMS[fa][3], F[3]): it.equal('%s: bin' % name, u, v)
    a = coefficient(X, fa)
    if a is None: it.add('refuted', '%s: spectrum is scaled' % name, 'structural', show(X)[:300]); return
    a = pmul(pmul(a, inv(extra)) if extra != ONE else a, post)
    t = pmul(pmul(a, iscale(bwd, n_out)), fscale(fwd, n_in))
    d = clear(pmul(t, pt.sz(n_amp)) - w * h)
    if d.iszero(): it.add('proved', '%s: amplitude' % name, 'polynomial identity'); return
    it.equal('%s: amplitude' % name, pmul(pmul(t, t), pt.sz(n_amp) * pt.sz(n_amp)), w * w * h * h)
    with Path.cur.scope(lt(0, w), lt(0, h)) as ok:
        if ok: it.cond('%s: amplitude is positive' % name, lt(0, a))

def coefficient(p, a):
    """p = c * atom a exactly"""
    r = {}
    for m, c in p.d.items():
        if m.count(a) != 1: return None
        k = list(m); k.remove(a); r[tuple(k)] = c
    return Poly(r)
def substitute0(p, a): return Poly({m: c for m, c in p.d.items() if a not in m})

def weight(k, L, f):
    """the factor of spectrum bin k of L bins: cosine taper of the last int(f L) bins, or (no taper) the last bin removed"""
    if isinstance(f, float): return ite(and_(eq(k, pt.sz(L) - 1), lt(1, pt.sz(L))), ZERO, ONE)
    m = pt.sz(smin(sint(f * L), L))
    if m.iszero(): return ONE
    j = k - (pt.sz(L) - m) + 1
    return ite(lt(0, j), (fn_('cos', pmul(j, inv(m)) * PI_) + 1) * Fraction(1, 2), ONE)

def select(it, X, k, conds):
    """case split helper: yields under every satisfiable combination"""
    import itertools
    for c in itertools.product(*[(x, not_(x)) for x in conds]):
        with Path.cur.scope(*c) as ok:
            if ok and not Path.cur.dead(): yield c

def bound(it, f, nt):
    L = floordiv(nt, P(2)) + 1; q = sym('q', 'f')
    with Path.cur.scope(le(1, q)) as ok: it.cond('lemma: a fraction of a length is at most the length', le(f.p * q, q))
    assume(le(f.p * L, L)); m = pt.sz(sint(f * S(L, 'i')))
    if it.cond('lemma: its integer part too', le(m, L)): assume(le(m, L))

def padding(it, tp, n):
    m = pt.sz(sint(tp * n)); it.cond('padding is not negative', le(0, m))
    return ZERO if Path.cur.prove(le(m, 0), 4000)[0] == 'proved' else m

def bins(it, taper, f, L, k, Xk, F, n_in, n_out, k1, k2, n_amp, ex, post, h, spoil):
    w = weight(k, L, f); conds = [eq(k, L.p - 1), lt(1, L.p)] if not taper else [lt(L.p - 1 - pt.sz(smin(sint(f * L), L)), k)]
    for _ in select(it, None, None, conds):
        X = split_known(Xk); ww = split_known(w)
        if ww.iszero(): it.equal('highest bin removed', X, ZERO if not spoil else F)
        else: check_bin(it, 'spectrum in the band', X, F, n_in, n_out, k1['norm'], k2['norm'], n_amp if not spoil else n_amp + 1, ww, ex, post, h)

def t_up(pad, taper, ttaper, dt='float32', spoil=False):
    m = pt.load('deepwave.common'); it = Items('upsample pad=%s freq_taper=%s time_taper=%s %s' % (pad, taper, ttaper, dt), ['common.upsample', 'common.cosine_taper_end', 'common.zero_last_element_of_final_dimension', 'common._validate_sample_args'])
    hit = set()
    def run(p):
        tr, n, r = pos('traces', 1), pos('n', 1), pos('ratio', 1)
        x = pt.array('signal', (tr, n), getattr(pt, dt)); f = frac('freq_taper_frac', not taper); tp = frac('time_pad_frac', not pad)
        i, j, k, o = (sym(q, 'i') for q in ('tr', 'j', 'k', 'o'))
        for v, s in ((i, tr),): assume(le(0, v)); assume(lt(v, s.p))
        s0 = x.reader()
        bound(it, f, n.p + (pt.sz(sint(tp * n)) if pad else ZERO)) if taper else None
        y = m.upsample(x, r, freq_taper_frac=f, time_pad_frac=tp, time_taper=ttaper)
        if p.known(eq(r.p, 1)):
            hit.add('one')
            it.equal('ratio 1: length', y.shape_[-1], n)
            with p.scope(le(0, j), lt(j, n.p)) as ok: it.equal('ratio 1: identity', y.at(i, j), s0((i, j)))
            return
        hit.add('many')
        lg = fft_pair(it)
        if not lg: return
        (_, u1, in1, sh1, k1), (_, u2, in2, sh2, k2) = lg
        np_ = padding(it, tp, n) if pad else ZERO; nt = n.p + np_
        it.equal('number of samples transformed', sh1[-1], nt); it.equal('number of samples of the inverse transform', k2['n'], nt * r.p)
        it.equal('traces', sh1[0], tr)
        with p.scope(le(0, j), lt(j, nt)) as ok:
            if ok:
                for c in select(it, None, None, [lt(j, n.p)]):
                    it.equal('input of the transform: the signal, then zeros', in1((i, j)), s0((i, j)) if c[0] == lt(j, n.p) else ZERO)
        it.equal('output length is the ratio times the input length', y.shape_[-1], n.p * r.p); it.equal('output traces', y.shape_[0], tr)
        assume(le(0, o)); assume(lt(o, n.p * r.p)); h = hann(o, n.p * r.p) if ttaper else ONE
        if p.known(eq(o, 0), True): o = ZERO
        z = pt.sel(u2, 'f', (i, o)); post = coefficient(y.at(i, o), next(iter(z.atoms())))
        if not it.true('output is the start of the inverse transform', post is not None, show(y.at(i, o))[:300]): return
        L = S(floordiv(nt, P(2)) + 1, 'i'); K = floordiv(nt * r.p, P(2)) + 1
        it.equal('length of the spectrum given to the inverse transform', sh2[-1], K)
        with p.scope(le(0, k), lt(k, K)) as ok:
            if ok:
                for c in select(it, None, None, [lt(k, L.p)]):
                    if c[0] == lt(k, L.p): bins(it, taper, f, L, k, in2((i, k)), pt.sel(u1, 'f', (i, k)), (nt,), (nt, r.p), k1, k2, nt, ONE, post, h, spoil)
                    else: it.equal('spectrum above the band is zero', in2((i, k)), ZERO)
        it.true('the argument is not changed', x.st.writes == 0)
    paths(run)
    it.true('both cases reached', hit == {'one', 'many'}, str(hit))
    return it

def split_known(p):
    """resolve the selections whose condition is known on the current path"""
    for _ in range(6):
        q = _res(p)
        if q == p: return p
        p = q
    return p
def _res(p):
    r = ZERO
    for mm, c in p.d.items():
        t = P(c)
        for a in mm:
            k = ATOMS[a]
            if k[0] == 'ite':
                v = Path.cur.known(k[1], True)
                t = t * (k[2] if v else k[3] if v is False else Poly.at(a))
            else: t = t * Poly.at(a)
        r = r + t
    return r

def t_down(pad, taper, ttaper, shift, dt='float32', spoil=False):
    m = pt.load('deepwave.common'); it = Items('downsample pad=%s freq_taper=%s time_taper=%s shift=%s %s' % (pad, taper, ttaper, shift, dt), ['common.downsample', 'common.cosine_taper_end', 'common.zero_last_element_of_final_dimension', 'common._validate_sample_args'])
    hit = set()
    def run(p):
        tr, no, r = pos('traces', 1), pos('n_out', 1), pos('ratio', 1); n = mk(no.p * r.p, 'i')
        x = pt.array('signal', (tr, n), getattr(pt, dt)); f = frac('freq_taper_frac', not taper); tp = frac('time_pad_frac', not pad)
        sf = 0.0
        if shift: sf = mk(sym('shift', 'f'), 'f'); assume(ne(sf.p, 0))
        i, j, k, o = (sym(q, 'i') for q in ('tr', 'j', 'k', 'o'))
        assume(le(0, i)); assume(lt(i, tr.p)); s0 = x.reader()
        bound(it, f, no.p + (pt.sz(sint(tp * no)) if pad else ZERO)) if taper else None
        y = m.downsample(x, r, freq_taper_frac=f, time_pad_frac=tp, time_taper=ttaper, shift=sf)
        if not shift and p.known(eq(r.p, 1)):
            hit.add('one')
            it.equal('ratio 1: length', y.shape_[-1], n)
            with p.scope(le(0, j), lt(j, n.p)) as ok: it.equal('ratio 1: identity', y.at(i, j), s0((i, j)))
            return
        hit.add('many')
        lg = fft_pair(it)
        if not lg: return
        (_, u1, in1, sh1, k1), (_, u2, in2, sh2, k2) = lg
        np_ = padding(it, tp, no) if pad else ZERO; nd = no.p + np_; nt = nd * r.p
        it.equal('number of samples transformed', sh1[-1], nt); it.equal('number of samples of the inverse transform', k2['n'], nd)
        it.equal('traces', sh1[0], tr)
        with p.scope(le(0, j), lt(j, nt)) as ok:
            if ok:
                for c in select(it, None, None, [lt(j, n.p)]):
                    e = pmul(s0((i, j)), hann(j, n)) if ttaper else s0((i, j))
                    it.equal('input of the transform: the signal (tapered), then zeros', in1((i, j)), e if c[0] == lt(j, n.p) else ZERO)
        it.equal('output length is the input length divided by the ratio', y.shape_[-1], no.p); it.equal('output traces', y.shape_[0], tr)
        assume(le(0, o)); assume(lt(o, no.p))
        if p.known(eq(o, 0), True): o = ZERO
        z = pt.sel(u2, 'f', (i, o)); post = coefficient(y.at(i, o), next(iter(z.atoms())))
        if not it.true('output is the start of the inverse transform', post is not None, show(y.at(i, o))[:300]): return
        L = S(floordiv(nd, P(2)) + 1, 'i')
        it.equal('length of the spectrum given to the inverse transform', sh2[-1], L)
        with p.scope(le(0, k), lt(k, L.p)) as ok:
            if ok:
                ex = fn_('exp', pmul(-2 * PI_ * IM * sf.p * k, inv(nt))) if shift else ONE
                bins(it, taper, f, L, k, in2((i, k)), pt.sel(u1, 'f', (i, k)), (nd, r.p), (nd,), k1, k2, nt, ex, post, ONE, spoil)
        it.true('the argument is not changed', x.st.writes == 0)
    paths(run)
    return it

def t_amplitudes(spoil=False):
    m = pt.load('deepwave.common'); it = Items('set_source_amplitudes', ['common.set_source_amplitudes', 'common.upsample']); hit = set()
    def run(p):
        nb, ns, n, n2, nb2, r, nt = (pos(x, 1) for x in ('n_batch', 'n_sources', 'n', 'n_given', 'n_batch_given', 'ratio', 'nt'))
        x = pt.array('amp', (nb2, ns, n)); b, s, t = (sym(q, 'i') for q in 'bst')
        try: out = m.set_source_amplitudes([x, None], nb, nt, r, 0.0, 0.0, False, x.device, x.dtype)
        except RuntimeError as e:
            hit.add('rejected'); it.cond('only inconsistent sizes are rejected', or_(ne(nb2.p, nb.p), ne(n.p * r.p, nt.p))); return
        hit.add('accepted')
        it.cond('batch size agrees', eq(nb2.p, nb.p)); it.cond('number of time samples agrees', eq(n.p * r.p, nt.p))
        it.true('one array per source type', len(out) == 2); y, z = out
        for q, e in zip(y.shape_, (nt, nb2, ns)): it.equal('shape is (time, shot, source)', q, e)
        it.true('source type without amplitudes: no sources', z.ndim == 3 and z.shape_[2] == 0)
        for q, e in zip(z.shape_[:2], (nt, nb)): it.equal('shape of the empty array', q, e)
        for q, hi in ((b, nb2.p), (s, ns.p), (t, nt.p)): assume(le(0, q)); assume(lt(q, hi))
        if p.known(eq(r.p, 1)): hit.add('one'); it.equal('ratio 1: the amplitudes themselves, time first', y.at(t, b, s), x.at(b, s, t) if not spoil else x.at(b, s, ZERO))
        else:
            hit.add('many'); lg = pt._fftlog(); u1 = lg[0][2]; tt = sym('tt', 'i')
            with p.scope(le(0, tt), lt(tt, n.p)) as ok: it.equal('each trace is transformed on its own', u1((b, s, tt)), x.at(b, s, tt))
            v = y.at(t, b, s); at = [ATOMS[a] for a in v.atoms() if ATOMS[a][0] == 'sel' and ATOMS[a][1] == lg[-1][1]]
            if it.true('one sample of the resampled trace', len(at) == 1):
                for u, w in zip(at[0][3], (b, s, t if not spoil else ZERO)): it.equal('sample (t, b, s) is sample t of trace (b, s)', u, w)
    paths(run)
    it.true('all cases reached', hit >= {'rejected', 'accepted', 'one', 'many'}, str(hit))
    return it

def t_movedim(spoil=False):
    m = pt.load('deepwave.common'); it = Items('downsample_and_movedim', ['common.downsample_and_movedim', 'common.downsample']); hit = set()
    def run(p):
        nb, nr, n, r = (pos(x) for x in ('n_batch', 'n_receivers', 'n', 'ratio')); assume(le(1, r.p)); nt = mk(n.p * r.p, 'i')
        x = pt.array('rec', (nt, nb, nr)); b, s, t = (sym(q, 'i') for q in 'bst')
        y = m.downsample_and_movedim(x, r, 0.0, 0.0, False)
        if p.prove(eq(nt.p * nb.p * nr.p, 0), 4000)[0] == 'proved': hit.add('empty'); return
        for q, hi in ((b, nb.p), (s, nr.p), (t, n.p)): assume(le(0, q)); assume(lt(q, hi))
        for q, e in zip(y.shape_, (nb, nr, n)): it.equal('shape is (shot, receiver, time)', q, e)
        if p.known(eq(r.p, 1)): hit.add('one'); it.equal('ratio 1: the recording itself, time last', y.at(b, s, t), x.at(t, b, s) if not spoil else x.at(ZERO, b, s))
        else:
            hit.add('many'); lg = pt._fftlog(); tt = sym('tt', 'i')
            with p.scope(le(0, tt), lt(tt, nt.p)) as ok: it.equal('each trace is transformed on its own', lg[0][2]((b, s, tt)), x.at(tt, b, s))
            v = y.at(b, s, t); at = [ATOMS[a] for a in v.atoms() if ATOMS[a][0] == 'sel' and ATOMS[a][1] == lg[-1][1]]
            if it.true('one sample of the resampled trace', len(at) == 1):
                for u, w in zip(at[0][3], (b, s, t if not spoil else ZERO)): it.equal('sample (b, s, t) is sample t of trace (b, s)', u, w)
    paths(run)
    it.true('all cases reached', hit >= {'one', 'many'}, str(hit))
    return it

def t_reject(spoil=False):
    """arguments outside the documented ranges are rejected by both functions"""
    m = pt.load('deepwave.common'); it = Items('rejection of resampling arguments', ['common._validate_sample_args'])
    for fn in ('upsample', 'downsample'):
        for which in ('step_ratio', 'freq_taper_frac', 'time_pad_frac'):
            def run(p):
                n = pos('n', 1); x = pt.array('signal', (n,)); v = mk(sym('v', 'f' if which != 'step_ratio' else 'i'), 'f' if which != 'step_ratio' else 'i')
                kw = dict(step_ratio=1); kw[which] = v
                try: getattr(m, fn)(x, **kw); bad = False
                except ValueError: bad = True
                ok = le(1, v.p) if which == 'step_ratio' else and_(le(0, v.p), le(v.p, 1))
                if spoil: ok = le(2, v.p)
                it.cond('%s: %s accepted exactly in its range' % (fn, which), not_(ok) if bad else ok)
            paths(run)
    return it

def main(prop):
    rep = Report(prop); B = (False, True)
    tasks = [(t_up, (a, b, c)) for a in B for b in B for c in B] + [(t_down, (a, b, c, d)) for a in B for b in B for c in B for d in B]
    tasks += [(t_up, (True, True, False, 'float64')), (t_down, (True, True, False, True, 'float64')), (t_amplitudes, ()), (t_movedim, ()), (t_reject, ())]
    return pyprop.decide(rep, tasks, [('resample', dict(seed=SEED), ())], 'proof',
                         'All lengths, ratios, trace counts, fractions and shifts; downsampling of lengths that are a multiple of the ratio.',
                         sanity=[(t_up, (False, False, False)), (t_down, (False, True, False, False)), (t_amplitudes, ()), (t_movedim, ()), (t_reject, ())],
                         trusted=['torch.fft.rfft / irfft are the discrete Fourier transform and its inverse along the last dimension with the documented norms; that a spectrum copied bin by bin, scaled by 1/n and '
                                  'zero above the band interpolates the samples (and its truncation inverts that) is the textbook property of the transform'],
                         extra_conf=[('resample', dict(seed=s), ()) for s in (2, 3)])

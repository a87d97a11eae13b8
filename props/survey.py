"""Shared by C09 and C10: contracts of extract_survey / extract_locations (common.py) on arbitrary inputs."""
from vc.pysym import *
from vc import pysym, pytorch as pt
from vc.pytorch import Tensor

def I(name): return mk(sym(name, 'i'), 'i')
def pos(name, lo=0):
    x = I(name); assume(le(lo, x.p)); return x

def locs(m, name, nb, nd, dt=pt.int64, within=None):
    """an arbitrary location tensor; a location is ignored in all its coordinates or in none"""
    ns = pos('n_' + name); t = pt.array(name, (nb, ns, nd), dt); IG = m.IGNORE_LOCATION
    def row(ix): return [t.reader()((ix[0], ix[1], P(d))) for d in range(nd)]
    def fact(ix):
        r = row(ix); c = [or_(and_(*[eq(x, IG) for x in r]), and_(*[ne(x, IG) for x in r]))]
        if within:
            for d in range(nd): c.append(or_(eq(r[d], IG), and_(le(within[d][0], r[d]), lt(r[d], within[d][1]))))
        return and_(*c)
    pt.add_fact((nb, ns), fact, 'locations')
    return t, ns, row

def flat(ix, shape):
    k = ZERO
    for i, s in zip(ix, shape): k = k * pt.sz(s) + i
    return k

def t_locations(nd, dt='int64', spoil=False):
    """C10: extract_locations for arbitrary extents, padding and locations inside the extents"""
    m = pt.load('deepwave.common'); it = Items('common.extract_locations %dd %s' % (nd, dt), ['common.extract_locations'])
    seen = set(); IG = m.IGNORE_LOCATION; D = getattr(pt, dt); pt.UNIQUE = pt._unique
    def run(p):
        nb = pos('n_batch', 1); e0 = [pos('e%d' % d) for d in range(nd)]; e1 = [pos('f%d' % d) for d in range(nd)]; pad = [pos('p%d' % j) for j in range(2 * nd)]
        for a, b in zip(e0, e1): assume(lt(a.p, b.p))
        t, ns, row = locs(m, 'loc', nb, nd, D, [(a.p, b.p) for a, b in zip(e0, e1)])
        b, s, s2 = (sym(x, 'i') for x in ('b', 's', 's2'))
        assume(le(0, b)); assume(lt(b, nb.p))
        for x in (s, s2): assume(le(0, x)); assume(lt(x, ns.p))
        p.loops['foreach'] = b; pt.instantiate(b, s); pt.instantiate(b, s2)
        R = row((b, s)); R2 = row((b, s2)); kind = D.name
        if kind != 'int64':      # whole numbers of cells are accepted; others are rejected or rounded to within a tenth
            cell = [mk(x, 'f') for x in R]; C = [trunc_(x) for x in R]; C2 = [trunc_(x) for x in R2]
        else: C, C2 = R, R2
        dup = and_(lt(s, s2), ne(R[0], IG), ne(R2[0], IG), *[eq(x, y) for x, y in zip(C, C2)])
        try: out, = m.extract_locations('Source', [t], list(zip(e0, e1)), pad, nb, t.device)
        except (RuntimeError, ValueError) as e:
            seen.add('raise')
            if kind == 'int64':
                # an error needs two locations in the same cell of one shot
                w = p.loops.get('uniq_wit') or []
                it.true('error only for repeated locations', bool(w), repr(e)[:200])
                if w:
                    i, j = w[0]; ri, rj = row((b, i)), row((b, j)); pt.instantiate(b, i); pt.instantiate(b, j)
                    digits_lemma([(ri[d] - e0[d].p + pad[2 * d].p, rj[d] - e0[d].p + pad[2 * d].p, e1[d].p - e0[d].p + pad[2 * d].p + pad[2 * d + 1].p) for d in range(nd)])
                    it.cond('an accepted set of locations raises only if two coincide', and_(ne(i, j), *[eq(x, y) for x, y in zip(ri, rj)]))
            return
        seen.add('ret')
        pt.instantiate(b, s, b, s2); pt.instantiate(s, s2)
        it.cond('repeated locations are rejected', not_(dup))
        for k, (x, y) in enumerate(zip(out.shape_, (nb, ns))): it.equal('shape %d' % k, x, y)
        it.true('integer type', out.dtype is pt.int64)
        it.true('rank', out.ndim == 2)
        shape = [e1[d].p - e0[d].p + pad[2 * d].p + pad[2 * d + 1].p for d in range(nd)]
        v = out.at(b, s); v2 = out.at(b, s2)
        if decide(eq(R[0], IG)):
            it.cond('ignored stays negative', lt(v, 0)); return
        cellix = [C[d] - e0[d].p + pad[2 * d + (1 if spoil else 0)].p for d in range(nd)]
        it.equal('flat index of its own cell', v, flat(cellix, shape))
        # the lemma that flat indices of in-range digits are in range and injective (mixed radix), per digit
        for d in range(nd): it.cond('cell coordinate %d in range' % d, and_(le(0, cellix[d]), lt(cellix[d], shape[d])))
    paths(run)
    it.true('some input is accepted', 'ret' in seen)
    it.true('repeated locations can be reported', 'raise' in seen)
    return it

def digits_lemma(ds):
    """instances of the mixed-radix lemma (t_lemma): equal flat indices of in-range digits have equal digits"""
    q, q2 = ds[0][0], ds[0][1]
    for a, b, m in ds[1:]:
        f, f2 = q * m + a, q2 * m + b
        assume(or_(lt(a, 0), le(m, a), lt(b, 0), le(m, b), ne(f, f2), and_(eq(q, q2), eq(a, b)))); q, q2 = f, f2

def trunc_(x): return ite(le(0, x), Poly.at(atom('floor', x)), Poly.at(atom('ceil', x)))

def t_lemma(nd):
    """mixed-radix lemma used above: in-range digits give an in-range flat index, and distinct digits distinct indices"""
    it = Items('mixed-radix lemma, %d digits' % nd)
    def run(p):
        n = [sym('n%d' % d, 'i') for d in range(nd)]; i = [sym('i%d' % d, 'i') for d in range(nd)]; j = [sym('j%d' % d, 'i') for d in range(nd)]
        # induction over the digits: q = prefix index in [0, N) ; q*n + i in [0, N*n) and q*n+i == q'*n+i' => q == q', i == i'
        q, q2, N, m, a, b = (sym(x, 'i') for x in ('q', 'q2', 'N', 'm', 'a', 'b'))
        for x, h in ((q, N), (q2, N), (a, m), (b, m)): assume(le(0, x)); assume(lt(x, h))
        it.cond('in range', and_(le(0, q * m + a), lt(q * m + a, N * m)))
        assume(eq(q * m + a, q2 * m + b))
        it.cond('injective', and_(eq(q, q2), eq(a, b)))
    paths(run)
    return it

def t_rejects(nd, what):
    """C10/C09: wrong locations raise"""
    m = pt.load('deepwave.common'); it = Items('common location checks %dd %s' % (nd, what), ['common.check_locations_are_within_model', 'common.extract_locations'])
    IG = m.IGNORE_LOCATION; outs = []; pt.UNIQUE = pt._unique
    def run(p):
        nb = pos('n_batch', 1); n = [pos('n%d' % d, 1) for d in range(nd)]
        b, s = sym('b', 'i'), sym('s', 'i')
        if what == 'model':
            t, ns, row = locs(m, 'loc', nb, nd); t2, _, _ = locs(m, 'other', nb, nd)
            assume(le(0, b)); assume(lt(b, nb.p)); assume(le(0, s)); assume(lt(s, ns.p)); pt.instantiate(b, s); R = row((b, s))
            inside = and_(*[and_(le(0, R[d]), lt(R[d], n[d].p)) for d in range(nd)])
            try: m.check_locations_are_within_model(list(n), [t2, None, t])
            except RuntimeError: outs.append('raise'); return
            outs.append('ret'); it.cond('accepted locations are inside the model', or_(eq(R[0], IG), inside))
        elif what == 'ok':
            t, ns, row = locs(m, 'loc', nb, nd, within=[(ZERO, x.p) for x in n])
            try: m.check_locations_are_within_model(list(n), [t, None]); outs.append('ret')
            except RuntimeError as e: it.true('locations inside the model are accepted', False, repr(e)); return
        else:
            ns = pos('ns'); nb2 = pos('nb2', 1); sh = {'batch': (nb2, ns, nd), 'ndim': (nb, ns, nd + 1), 'rank': (nb, nd)}[what]
            if what == 'batch': assume(ne(nb2.p, nb.p))
            t = pt.array('loc', sh, pt.int64); ext = [(0, x) for x in n]
            try: m.extract_locations('Receiver', [t], ext, [0] * 2 * nd, nb, t.device)
            except (RuntimeError, ValueError, TypeError, IndexError): outs.append('raise'); return
            it.true('a location tensor of wrong %s is rejected' % what, False, 'returned')
    paths(run)
    if what == 'model': it.true('both outcomes reachable', 'ret' in outs and 'raise' in outs)
    else: it.true('%s: outcome' % what, bool(outs))
    return it

MODES = ('all', 'pad', 'list', 'origin', 'waves')
def t_survey(nd, mode, batched, modes=('replicate',), spoil=False):
    """C09: extract_survey. mode: all (no restriction), pad (one survey_pad), list (one per side, some None), origin / waves (initial wavefields)"""
    m = pt.load('deepwave.common'); it = Items('common.extract_survey %dd %s%s' % (nd, mode, ' batched' if batched else ''), ['common.extract_survey', 'common.extract_models', 'common.extract_locations', 'common.get_survey_extents_from_locations', 'common.prepare_wavefields'])
    IG = m.IGNORE_LOCATION; seen = set()
    def run(p):
        nb = pos('n_batch', 1); n = [pos('n%d' % d, 1) for d in range(nd)]
        fd = [pos('fd%d' % j) for j in range(2 * nd)]; pml = [pos('pml%d' % j) for j in range(2 * nd)]
        models = [pt.array('model%d' % k, ((nb,) if batched else ()) + tuple(n)) for k in range(len(modes))]
        src, nsrc, srow = locs(m, 'src', nb, nd, within=[(ZERO, x.p) for x in n]); rec, nrec, rrow = locs(m, 'rec', nb, nd, within=[(ZERO, x.p) for x in n])
        b, s, r = (sym(x, 'i') for x in ('b', 's', 'r'))
        assume(le(0, b)); assume(lt(b, nb.p)); assume(le(0, s)); assume(lt(s, nsrc.p)); assume(le(0, r)); assume(lt(r, nrec.p))
        p.loops['foreach'] = b; pt.instantiate(b, s); pt.instantiate(b, r)
        pt.UNIQUE = lambda t, d=None: pt.Tensor(t.shape_, lambda ix: ZERO, t.dtype)      # locations are distinct (repeated ones: C10)
        S, Rr = srow((b, s)), rrow((b, r))
        waves = [None, None]; origin = None; sp = None; E = []
        if mode == 'pad': k = pos('pad'); sp = k; pads = [k] * 2 * nd
        elif mode == 'list': pads = [pos('pad%d' % j) if j % 2 == (nd % 2) else None for j in range(2 * nd)]; sp = list(pads)
        else: pads = [None] * 2 * nd
        if mode in ('origin', 'waves'):
            w = [pos('w%d' % d, 1) for d in range(nd)]; waves = [None, pt.array('wave', (nb,) + tuple(w))]
            if mode == 'origin': origin = [pos('o%d' % d) for d in range(nd)]
            for d in range(nd):
                o = origin[d].p if origin else ZERO
                E.append((o, o + w[d].p - pml[2 * d].p - pml[2 * d + 1].p)); assume(ne(E[d][0], E[d][1]))      # the region is not empty
        else:
            # the specified region: extreme active coordinate over all tensors, plus padding, clipped to the model
            if mode in ('pad', 'list'):
                assume(or_(ne(S[0], IG), ne(Rr[0], IG)))        # at least one active location
            for d in range(nd):
                e = []
                for side in (0, 1):
                    pd = pads[2 * d + side]
                    if pd is None: e.append(ZERO if side == 0 else n[d].p); continue
                    M = sym('ext%d%d' % (d, side), 'i'); rel = (lambda x, M=M: le(M, x)) if side == 0 else (lambda x, M=M: le(x, M)); at = []
                    for nm, t, ns_, row in (('src', src, nsrc, srow), ('rec', rec, nrec, rrow)):
                        pt.add_fact((nb, ns_), (lambda row, d, rel: lambda ix: or_(eq(row(ix)[d], IG), rel(row(ix)[d])))(row, d, rel), 'extreme')
                        w = (sym('%s_w0_%d%d' % (nm, d, side), 'i'), sym('%s_w1_%d%d' % (nm, d, side), 'i')); pt.instantiate(*w)
                        at.append(and_(le(0, w[0]), lt(w[0], nb.p), le(0, w[1]), lt(w[1], ns_.p), ne(row(w)[d], IG), eq(row(w)[d], M)))
                    assume(or_(*at))
                    x = M - pd.p if side == 0 else M + pd.p + 1
                    lo = ite(lt(x, 0), ZERO, x); e.append(ite(lt(n[d].p, lo), n[d].p, lo))
                E.append(tuple(e))
        try:
            mo, so, ro, wo = m.extract_survey(models, [src], [rec], waves, sp, origin, fd, pml, list(modes), nb, nd, src.device, pt.float32)
        except RuntimeError as e:
            seen.add('raise'); w = p.loops.get('uniq_wit') or []
            if 'unique' in str(e): return          # repeated locations: C10
            bad = []
            if mode in ('origin', 'waves'):
                # must really lose something: region outside the model, negative, or a location outside it
                for d in range(nd): bad += [lt(n[d].p, E[d][1]), lt(E[d][1], E[d][0])]
                for i in p.loops.get('pool', []):
                    if len(i) == 2:
                        for row, ns_ in ((srow, nsrc), (rrow, nrec)):
                            x = row(i)
                            for d in range(nd): bad.append(and_(le(0, i[0]), lt(i[0], nb.p), le(0, i[1]), lt(i[1], ns_.p), ne(x[d], IG), or_(lt(x[d], E[d][0]), le(E[d][1], x[d]))))
            it.cond('rejected only when something would be lost', or_(*bad) if bad else FALSE, note=repr(e)[:200])
            return
        if p.dead(): return
        seen.add('ret')
        pad = [f.p + q.p for f, q in zip(fd, pml)]
        shape = [E[d][1] - E[d][0] + pad[2 * d] + pad[2 * d + 1] for d in range(nd)]
        inside = []
        for d in range(nd):
            it.cond('region %d within the model' % d, and_(le(0, E[d][0]), le(E[d][0], E[d][1]), le(E[d][1], n[d].p)))
            for nm, X in (('source', S), ('receiver', Rr)): it.cond('region %d contains every active %s' % (d, nm), or_(eq(X[0], IG), and_(le(E[d][0], X[d]), lt(X[d], E[d][1]))))
        for nm, X, o, k in (('source', S, so[0], s), ('receiver', Rr, ro[0], r)):
            with p.scope(ne(X[0], IG)) as ok:
                if ok: it.equal('%s: its own cell in the extracted model' % nm, o.at(b, k), flat([X[d] - E[d][0] + pad[2 * d] for d in range(nd)], shape))
            with p.scope(eq(X[0], IG)) as ok:
                if ok: it.cond('%s: ignored' % nm, lt(o.at(b, k), 0))
        # contents of the extracted model at an arbitrary cell
        i = [sym('i%d' % d, 'i') for d in range(nd)]
        for d in range(nd): assume(le(0, i[d])); assume(lt(i[d], shape[d]))
        for q, o in enumerate(mo):
            it.true('model rank', o.ndim == nd + 1)
            for d in range(nd): it.equal('model %d: size %d' % (q, d), o.shape_[1 + d], mk(shape[d], 'i'))
            it.equal('model %d: batch' % q, o.shape_[0], models[q].shape_[0] if batched else 1)
            bb = b if batched else ZERO
            src_ix = []; inr = []
            for d in range(nd):
                x = i[d] - pad[2 * d] + E[d][0]; inr.append(and_(le(E[d][0], x), lt(x, E[d][1])))
                if modes[q] == 'replicate': x = ite(lt(x, E[d][0]), E[d][0], ite(lt(x, E[d][1]), x, E[d][1] - 1))
                src_ix.append(x + (1 if spoil and d == 0 else 0))
            exp = models[q].reader()(((bb,) if batched else ()) + tuple(src_ix))
            if modes[q] != 'replicate': exp = ite(and_(*inr), exp, ZERO)
            it.equal('model %d: every value comes from its (replicated) position' % q, o.at(bb, *i), exp)
        for q, o in enumerate(wo):
            if waves[q] is None: it.equal('wavefield %d absent' % q, o.numel(), 0)
            else:
                it.equal('wavefield %d: same values' % q, o.at(b, *i), waves[q].at(b, *i))
                for d in range(nd): it.cond('wavefield %d: covers the region and its PML %d' % (q, d), eq(pt.sz(o.shape_[1 + d]), E[d][1] - E[d][0] + pml[2 * d].p + pml[2 * d + 1].p))
    paths(run, limit=4000)
    it.true('some input is accepted', 'ret' in seen)
    return it

"""Bounded conformance runs (real torch, real deepwave). Each function returns (number of runs, list of mismatches)."""
import json, sys, random, math, itertools, os
import torch, warnings
warnings.simplefilter('ignore')
import deepwave
from fractions import Fraction

def fdw(deriv, acc, half=0):
    """Weights of the unique minimal central stencil from the moment equations (exact)."""
    R = acc // 2
    pos = [Fraction(o) for o in range(-R, R + 1)] if half == 0 else [Fraction(2 * o + 1, 2) for o in range(-R, R)] if half == -1 else [Fraction(2 * o - 1, 2) for o in range(-R + 1, R + 1)]
    offs = list(range(-R, R + 1)) if half == 0 else list(range(-R, R)) if half == -1 else list(range(-R + 1, R + 1))
    n = len(pos); A = [[p ** j for p in pos] + [Fraction(0)] for j in range(n)]; A[deriv][n] = Fraction(1 if deriv == 1 else 2)
    for i in range(n):
        p = next(r for r in range(i, n) if A[r][i]); A[i], A[p] = A[p], A[i]; iv = 1 / A[i][i]; A[i] = [x * iv for x in A[i]]
        for r in range(n):
            if r != i and A[r][i]: f = A[r][i]; A[r] = [a - f * b for a, b in zip(A[r], A[i])]
    return {o: float(A[i][n]) for i, o in enumerate(offs)}

def differs(a, b, tol=1e-9):
    a, b = torch.as_tensor(a, dtype=torch.float64), torch.as_tensor(b, dtype=torch.float64)
    if a.shape != b.shape: return 'shape %s instead of %s' % (tuple(a.shape), tuple(b.shape))
    if a.numel() == 0: return None
    if torch.isnan(a).any() or torch.isinf(a).any(): return 'non-finite value'
    s = max(1e-300, float(b.abs().max())); e = (a - b).abs(); m = float(e.max())
    if m <= tol * s: return None
    i = [int(x) for x in torch.nonzero(e == m)[0]] if a.ndim else []
    return 'at %s: got %r, expected %r' % (i, float(a[tuple(i)]), float(b[tuple(i)]))

def fd(seed=1, count=1):
    """C06: operators on random arrays against the moment-equation stencils."""
    from deepwave import regular_grid as rg, staggered_grid as sg
    torch.manual_seed(seed); random.seed(seed); mm = []; n = 0
    for acc in (2, 4, 6, 8):
        R = acc // 2
        for nd in (1, 2, 3):
            for dim in range(nd):
                for mod, name, der, half in ((rg, 'diff1', 1, 0), (rg, 'diff2', 2, 0), (sg, 'diff1', 1, -1), (sg, 'diff1h', 1, 1)):
                    sh = [random.randint(2 * R + 1, 2 * R + 5) for _ in range(nd)]
                    a = torch.randn(2, *sh, dtype=torch.float64); r = random.uniform(0.5, 3)
                    got = getattr(mod, name)(a, dim, acc, r, nd); n += 1
                    exp = torch.zeros_like(a); w = fdw(der, acc, half); lo, hi = R, max(w); N = sh[dim]
                    for o, c in w.items():
                        exp.narrow(1 + dim, lo, N - lo - hi).add_(c * r * a.narrow(1 + dim, lo + o, N - lo - hi))
                    # only the points the operator computes are compared (the rest is padding)
                    g = got.narrow(1 + dim, lo, N - lo - hi); e = exp.narrow(1 + dim, lo, N - lo - hi)
                    d = differs(g, e)
                    if got.shape != a.shape: d = 'shape %s' % (tuple(got.shape),)
                    if d: mm.append(dict(function='%s.%s' % (mod.__name__, name), accuracy=acc, ndim=nd, dim=dim, shape=sh, seed=seed, difference=d))
    return n, mm

def cfl(seed=1, count=3000):
    """C07: random and extreme inputs of the CFL computation (tolerances for rounding)."""
    from deepwave import common
    random.seed(seed); mm = []; n = 0
    for k in range(count):
        nd = random.choice((1, 2, 3)); h = [10 ** random.uniform(-3, 3) for _ in range(nd)]; v = 10 ** random.uniform(-3, 4)
        lim = 0.6 / math.sqrt(sum(1 / x ** 2 for x in h)) / v
        # around whole multiples of the limit (but not on them) and at random
        dt = lim * (random.randint(1, 30) + random.choice((-1e-6, 1e-6, random.uniform(-0.4, 0.4)))) * random.choice((1, -1)) if random.random() < 0.7 else random.choice((1, -1)) * 10 ** random.uniform(-6, 0)
        if dt == 0 or abs(dt) / lim > 1e6: continue
        n += 1
        try:
            if nd == 2 and random.random() < 0.3: inner, r = common.cfl_condition(h[0], h[1], dt, v)
            else: inner, r = common.cfl_condition_n(h, dt, v)
        except Exception as e: mm.append(dict(h=h, dt=dt, v=v, error=repr(e))); continue
        g = lim * v * v / (v * v + 1e-15); bad = []
        if not (isinstance(r, int) and r >= 1): bad.append('ratio %r' % (r,))
        else:
            if abs(inner * r - dt) > 1e-12 * abs(dt) or inner * dt <= 0: bad.append('inner step %r' % inner)
            if abs(inner) > lim * (1 + 1e-9): bad.append('inner step %r exceeds the limit %r' % (inner, lim))
            if r > 1 and abs(dt) / (r - 1) <= g * (1 - 1e-9): bad.append('ratio %d is larger than needed' % r)
        if bad: mm.append(dict(h=h, dt=dt, v=v, result=[inner, r], wrong=bad))
    return n, mm

def survey(seed=1, count=500):
    """C09/C10: extract_survey on random small surveys against a direct oracle."""
    from deepwave import common
    IG = common.IGNORE_LOCATION; torch.manual_seed(seed); random.seed(seed); mm = []; n = 0
    for k in range(count):
        nd = random.choice((1, 2, 2, 3)); nb = random.randint(1, 3); N = [random.randint(1, 9) for _ in range(nd)]
        fd = [random.randint(0, 4) for _ in range(2 * nd)]; pml = [random.choice((0, random.randint(0, 4))) for _ in range(2 * nd)]
        models = [torch.rand(*(([nb] if random.random() < 0.4 else [1] if random.random() < 0.3 else []) + N)) + 1 for _ in range(random.randint(1, 2))]
        modes = [random.choice(('replicate', 'constant')) for _ in models]
        cells = list(itertools.product(*[range(x) for x in N]))
        def mk():
            m = random.randint(0, min(3, len(cells))); t = torch.zeros(nb, m, nd, dtype=torch.long)
            for b in range(nb):
                for i, c in enumerate(random.sample(cells, m)): t[b, i] = torch.tensor(c) if random.random() < 0.85 else IG
            return t
        src = [mk()] + ([mk()] if random.random() < 0.3 else []); rec = [mk()] + ([None] if random.random() < 0.3 else [])
        allp = [p.tolist() for t in src + rec if t is not None for p in t.reshape(-1, nd) if int(p[0]) != IG]
        dup = badloc = False; r = random.random()
        if r < 0.1 and src[0].shape[1] >= 2: src[0][nb - 1, 1] = src[0][nb - 1, 0]; dup = int(src[0][nb - 1, 0, 0]) != IG
        elif r < 0.2 and rec[0].shape[1]:
            d = random.randrange(nd)
            if int(rec[0][0, 0, 0]) != IG: rec[0][0, 0, d] = random.choice((-1, N[d])); badloc = True
        allp = [p.tolist() for t in src + rec if t is not None for p in t.reshape(-1, nd) if int(p[0]) != IG]
        mode = random.choice(('all', 'pad', 'list', 'origin', 'waves', 'wavespad')); sp = origin = None; waves = [None]
        ext = [(0, x) for x in N]; lose = False
        if mode in ('pad', 'list', 'wavespad'):
            pads = [random.randint(0, 3)] * 2 * nd if mode != 'list' else [random.choice((None, random.randint(0, 3))) for _ in range(2 * nd)]
            if not allp: continue
            sp = pads[0] if mode != 'list' else pads
            ext = [(0 if pads[2 * d] is None else max(0, min(p[d] for p in allp) - pads[2 * d]), N[d] if pads[2 * d + 1] is None else min(N[d], max(p[d] for p in allp) + pads[2 * d + 1] + 1)) for d in range(nd)]
            if mode == 'wavespad':
                sz = [e[1] - e[0] + pml[2 * d] + pml[2 * d + 1] for d, e in enumerate(ext)]
                if random.random() < 0.4: sz[random.randrange(nd)] += 1; lose = True
                waves = [None, torch.randn(nb, *sz)]
        if mode in ('origin', 'waves'):
            lo = [0 if mode == 'waves' else random.randint(0, 2) for _ in N]
            if random.random() < 0.6 and allp: lo = [0 if mode == 'waves' else min(p[d] for p in allp) for d in range(nd)]; hi = [max(p[d] for p in allp) + 1 for d in range(nd)]
            else: hi = [random.randint(l, l + x) for l, x in zip(lo, N)]
            ext = list(zip(lo, hi)); sz = [h - l + pml[2 * d] + pml[2 * d + 1] for d, (l, h) in enumerate(ext)]
            waves = [None, torch.randn(nb, *sz)]; origin = lo if mode == 'origin' else None
            lose = any(h > x for h, x in zip(hi, N)) or any(not l <= p[d] < h for p in allp for d, (l, h) in enumerate(ext))
        if not lose and not badloc and any(h <= l for l, h in ext): continue
        case = dict(seed=seed, case=k, mode=mode, model=N, fd_pad=fd, pml=pml, sources=[t.tolist() for t in src], receivers=[t if t is None else t.tolist() for t in rec], survey_pad=sp, origin=origin, wavefield=None if waves[-1] is None else list(waves[-1].shape))
        n += 1
        try: mo, so, ro, wo = common.extract_survey(models, src, rec, waves, sp, origin, fd, pml, modes, nb, nd, torch.device('cpu'), torch.float32)
        except (RuntimeError, ValueError) as e:
            if not (dup or badloc or lose): mm.append(dict(case, wrong='rejected: %r' % e))
            continue
        except Exception as e: mm.append(dict(case, wrong='raised %r' % e)); continue
        if dup or badloc or lose: mm.append(dict(case, wrong='accepted although ' + ('two locations coincide' if dup else 'a location is outside the model' if badloc else 'the region loses something'))); continue
        pad = [a + b for a, b in zip(fd, pml)]; shape = [e[1] - e[0] + pad[2 * d] + pad[2 * d + 1] for d, e in enumerate(ext)]
        for q, (m, o) in enumerate(zip(models, mo)):
            m4 = m if m.ndim == nd + 1 else m[None]; reg = m4[(slice(None),) + tuple(slice(*e) for e in ext)]
            exp = torch.zeros(m4.shape[0], *shape) if modes[q] == 'constant' else reg[(slice(None),) + torch.meshgrid(*[(torch.arange(s) - pad[2 * d]).clamp(0, ext[d][1] - ext[d][0] - 1) for d, s in enumerate(shape)], indexing='ij')]
            if modes[q] == 'constant': exp[(slice(None),) + tuple(slice(pad[2 * d], pad[2 * d] + e[1] - e[0]) for d, e in enumerate(ext))] = reg
            df = differs(o, exp, 0)
            if df: mm.append(dict(case, wrong='model %d %s' % (q, df)))
        for nm, ts, os_ in (('source', src, so), ('receiver', rec, ro)):
            for t, o in zip(ts, os_):
                if t is None:
                    if tuple(o.shape) != (nb, 0): mm.append(dict(case, wrong='missing %s gives %s' % (nm, tuple(o.shape))))
                    continue
                if tuple(o.shape) != tuple(t.shape[:2]): mm.append(dict(case, wrong='%s shape' % nm)); continue
                for b in range(nb):
                    for i in range(t.shape[1]):
                        v = int(o[b, i])
                        if int(t[b, i, 0]) == IG: ok = v < 0
                        else:
                            f = 0
                            for d in range(nd): f = f * shape[d] + int(t[b, i, d]) - ext[d][0] + pad[2 * d]
                            ok = v == f
                        if not ok: mm.append(dict(case, wrong='%s %d of shot %d has index %d' % (nm, i, b, v)))
        for w, o in zip(waves, wo):
            if w is None:
                if o.numel(): mm.append(dict(case, wrong='missing wavefield not empty'))
            elif differs(o, w, 0): mm.append(dict(case, wrong='wavefield ' + differs(o, w, 0)))
    return n, mm

def params(seed=1, count=60):
    """C15: conversions and staggered-grid averages on random models with zeros."""
    import importlib; common, elastic, acoustic = (importlib.import_module("deepwave." + x) for x in ("common", "elastic", "acoustic"))
    torch.manual_seed(seed); random.seed(seed); mm = []; n = 0
    def bad(**k):
        mm.append(k)
    for k in range(count):
        nd = random.choice((1, 2, 3)); sh = [random.choice((1, 2))] + [random.randint(2, 6) for _ in range(nd)]; f64 = dict(dtype=torch.float64)
        vp = 1000 + 4000 * torch.rand(sh, **f64); vs = vp * torch.rand(sh, **f64) * 0.7; rho = 10 ** (torch.rand(sh, **f64) * 4.3)
        if k % 3 == 0: vs[..., 0] = 0
        l, m, b = common.vpvsrho_to_lambmubuoyancy(vp, vs, rho); n += 1
        for nm, g, e in (('lamb', l, (vp ** 2 - 2 * vs ** 2) * rho), ('mu', m, vs ** 2 * rho), ('buoyancy', b, 1 / rho)):
            d = differs(g / e.abs().clamp(min=1), e / e.abs().clamp(min=1), 1e-5) if nm != 'buoyancy' else differs(g * rho, torch.ones_like(rho), 1e-6)
            if d: bad(function='vpvsrho_to_lambmubuoyancy', output=nm, seed=seed, case=k, difference=d)
        for nm, g, e in zip(('vp', 'vs', 'rho'), common.lambmubuoyancy_to_vpvsrho(l, m, b), (vp, vs, rho)):
            d = differs(g / e.clamp(min=1), e / e.clamp(min=1), 1e-5)
            if d: bad(function='round trip', output=nm, seed=seed, case=k, difference=d)
        mu = torch.rand(sh, **f64) * 1e9 + 1e8; bu = 1 / (500 + 3000 * torch.rand(sh, **f64))
        if k % 2: mu[torch.rand(sh) < 0.2] = 0; bu[torch.rand(sh) < 0.2] = 0
        dt = random.choice((torch.float64, torch.float32)); tol = 1e-9 if dt == torch.float64 else 1e-5
        mu, bu = mu.to(dt), bu.to(dt)
        pe = elastic.prepare_parameters(mu, bu); vv = torch.rand(sh).to(dt) * 3000; rr = torch.where(bu == 0, bu, 1 / torch.where(bu == 0, torch.ones_like(bu), bu)); pa = acoustic.prepare_models(vv, rr); n += 2
        d = differs(pa[0], rr * vv ** 2, tol)
        if d: bad(function='acoustic.prepare_models', output='K', seed=seed, case=k, difference=d)
        def nb(a, *dims):
            out = a
            for x in dims: out = out.narrow(1 + x, 1, 1) if False else out.roll(-1, 1 + x)
            return out
        def crop(a, *dims):
            for x in dims: a = a.narrow(1 + x, 0, a.shape[1 + x] - 1)
            return a
        j = 0
        for d0, d1 in (((0, 1), (0, 2), (1, 2)) if nd == 3 else ((0, 1),) if nd == 2 else ()):
            c = [mu, nb(mu, d0), nb(mu, d1), nb(mu, d0, d1)]; z = (c[0] == 0) | (c[1] == 0) | (c[2] == 0) | (c[3] == 0)
            e = torch.where(z, torch.zeros_like(mu), 4 / sum(1 / torch.where(x == 0, torch.ones_like(x), x) for x in c))
            d = differs(crop(pe[j], d0, d1), crop(e, d0, d1), tol)
            if d: bad(function='elastic.prepare_parameters', output='mu %d' % j, ndim=nd, seed=seed, case=k, dtype=str(dt), difference=d)
            j += 1
        for x in range(nd):
            s = (rr + nb(rr, x)) / 2; e = torch.where(s == 0, s, 1 / torch.where(s == 0, torch.ones_like(s), s))
            for nm, g in (('elastic.prepare_parameters', pe[j + x]), ('acoustic.prepare_models', pa[1 + x])):
                d = differs(crop(g, x), crop(e, x), tol)
                if d: bad(function=nm, output='buoyancy along dimension %d' % x, ndim=nd, seed=seed, case=k, dtype=str(dt), difference=d)
    return n, mm

def pml(seed=1, count=200):
    """C08: profiles of the real code: zeros, symmetry, ranges, half-cell samples."""
    from deepwave import common, regular_grid as rg, staggered_grid as sg
    torch.manual_seed(seed); random.seed(seed); mm = []; n = 0; cpu = torch.device('cpu'); f64 = torch.float64
    for k in range(count):
        nd = random.choice((1, 2, 3)); acc = random.choice((2, 4, 6, 8)); reg = k % 2; R = acc // 2
        fd = [R] * 2 * nd if reg else [R, R - 1] * nd; pw = [random.choice((0, 0, 1, 2, 3, 5, 20)) for _ in range(2 * nd)]
        if k % 3 == 0: pw = [pw[2 * (j // 2)] for j in range(2 * nd)]
        inn = [random.randint(1, 8) for _ in range(nd)]; sh = [inn[d] + pw[2 * d] + pw[2 * d + 1] + fd[2 * d] + fd[2 * d + 1] for d in range(nd)]
        h = [random.uniform(1, 10) for _ in range(nd)]; dt = random.uniform(1e-4, 1e-2) * random.choice((1, -1)); v = random.uniform(500, 5000); fr = random.choice((0.0, 1.0, 25.0))
        pr = (rg if reg else sg).set_pml_profiles(list(pw), acc, list(fd), dt, list(h), v, f64, cpu, fr, list(sh)); n += 1; per = 3 if reg else 4
        mp = max(w * h[j // 2] for j, w in enumerate(pw))
        def bad(what, d): mm.append(dict(function=('regular_grid' if reg else 'staggered_grid') + '.set_pml_profiles', seed=seed, case=k, pml_width=pw, accuracy=acc, shape=sh, dt=dt, pml_freq=fr, dimension=d, what=what))
        if len(pr) != per * nd: bad('%d profiles' % len(pr), None); continue
        for d in range(nd):
            q = [x.reshape(-1) for x in pr[per * d:per * d + per]]; N = sh[d]; lo = fd[2 * d] + pw[2 * d]; hi = N - fd[2 * d + 1] - pw[2 * d + 1]
            if any(len(x) != N for x in q): bad('length', d); continue
            if any(not torch.isfinite(x).all() for x in q): bad('not finite', d); continue
            if q[0][lo:hi].abs().max() > 0 or q[1][lo:hi].abs().max() > 0: bad('not zero in the interior', d)
            prs = [(q[0], q[1])] + ([] if reg else [(q[2], q[3])])
            if not reg and hi - 1 > lo and (q[2][lo:hi - 1].abs().max() > 0 or q[3][lo:hi - 1].abs().max() > 0): bad('half-cell profile not zero in the interior', d)
            for a, b in prs:
                if a.min() < 0 or a.max() >= 1 or b.max() > 0 or b.min() < -1: bad('range', d)
            if pw[2 * d] and not q[0][lo - 1] > 0: bad('no layer', d)
            for j in range(N):
                for o, (a, b) in zip((0.0, 0.5), prs):
                    x = j + o; f = max((lo - x) / pw[2 * d] if pw[2 * d] else 0, (x - hi + 1) / pw[2 * d + 1] if pw[2 * d + 1] else 0); f = min(max(f, 0), 1)
                    r = common.setup_pml(pw[2 * d:2 * d + 2], [float(lo), float(hi - 1)], mp, dt, 1, v, f64, cpu, fr, start=x)
                    if abs(float(r[0][0] - a[j])) > 1e-12 or abs(float(r[1][0] - b[j])) > 1e-12: bad('entry %d is not the profile at coordinate %g' % (j, x), d); break
            if pw[2 * d] and pw[2 * d + 1]:
                u = random.uniform(0, 1); e = [common.setup_pml(pw[2 * d:2 * d + 2], [float(lo), float(hi - 1)], mp, dt, 1, v, f64, cpu, fr, start=x) for x in (lo - u * pw[2 * d], hi - 1 + u * pw[2 * d + 1])]
                if any(abs(float(a[0] - b[0])) > 1e-9 for a, b in zip(*e)): bad('different values at the same fractional depth %g of the two layers' % u, d)
            if pw[2 * d] == pw[2 * d + 1]:
                for o, (a, b) in zip((0, 1), prs):
                    for j in range(N):
                        i = lo + hi - 1 - o - j
                        if 0 <= i < N and (abs(float(a[i] - a[j])) > 1e-9 or abs(float(b[i] - b[j])) > 1e-9): bad('not symmetric', d); break
            if reg:
                w = fdw(1, acc); e = sum(c * q[1][R + o:N - R + o] for o, c in w.items()) / h[d]
                x = differs(q[2][R:N - R], e)
                if x and float((q[2][R:N - R] - e).abs().max()) > 1e-12: bad('third profile is not the derivative of b: ' + x, d)
    return n, mm

def resample(seed=1, count=250):
    """C11: against a direct (non-FFT) evaluation of the discrete spectrum."""
    from deepwave import common
    random.seed(seed); torch.manual_seed(seed); mm = []; n = 0; D = torch.float64
    def dft(x):            # (L, n) exact sums
        N = x.shape[-1]; t = torch.arange(N, dtype=D); k = torch.arange(N // 2 + 1, dtype=D)[:, None]
        w = -2 * math.pi * k * t / N
        return torch.complex((x[..., None, :] * torch.cos(w)).sum(-1), (x[..., None, :] * torch.sin(w)).sum(-1))
    def idft(X, N, Nt=None):   # real signal of N samples from bins 0..
        t = torch.arange(N, dtype=D); k = torch.arange(X.shape[-1], dtype=D)[:, None]; w = 2 * math.pi * k * t / N
        c = torch.where((k == 0) | (2 * k == N), torch.tensor(1., dtype=D), torch.tensor(2., dtype=D))
        return (c * (X.real[..., :, None] * torch.cos(w) - X.imag[..., :, None] * torch.sin(w) * ((k != 0) & (2 * k != N)))).sum(-2) / N
    def weights(L, f):
        w = torch.ones(L, dtype=D)
        if f > 0:
            q = min(int(f * L), L)
            for j in range(1, q + 1): w[L - q + j - 1] = (math.cos(math.pi * j / q) + 1) / 2
        elif L > 1: w[-1] = 0
        return w
    def hann(N): return torch.tensor([0.5 - 0.5 * math.cos(2 * math.pi * j / (N - 1)) if N > 1 else 1.0 for j in range(N)], dtype=D)
    def up(x, r, f, p, tt):
        if r == 1: return x
        N0 = x.shape[-1]; q = int(p * N0); x = torch.cat([x, torch.zeros(*x.shape[:-1], q, dtype=D)], -1); N = N0 + q
        y = idft(torch.cat([dft(x) * weights(N // 2 + 1, f) , torch.zeros(*x.shape[:-1], r * N // 2 - N // 2, dtype=torch.complex128)], -1), r * N) * r
        y = y[..., :r * N0]
        return y * hann(r * N0) if tt else y
    def down(x, r, f, p, tt, sh):
        if r == 1 and sh == 0: return x
        if tt: x = x * hann(x.shape[-1])
        M0 = x.shape[-1] // r; q = int(p * M0); x = torch.cat([x, torch.zeros(*x.shape[:-1], q * r, dtype=D)], -1); N = x.shape[-1]; M = N // r
        X = dft(x)[..., :M // 2 + 1]; X = X * weights(X.shape[-1], f)
        k = torch.arange(X.shape[-1], dtype=D)
        X = X * torch.exp(-2j * math.pi * k * sh / N)
        return idft(X, M)[..., :M0] / r
    for _ in range(count):
        N = random.choice((1, 2, 3, random.randint(4, 30))); r = random.randint(1, 5); f = random.choice((0.0, 0.0, random.random())); p = random.choice((0.0, 0.0, random.random())); tt = random.random() < 0.25; sh = random.choice((0.0, 0.5, random.uniform(-2, 2)))
        x = torch.randn(2, 3, N, dtype=D); x0 = x.clone(); kw = dict(step_ratio=r, freq_taper_frac=f, time_pad_frac=p, time_taper=tt); n += 1
        tol = 1e-6 if f > 0 or tt or sh else 1e-9      # tapers and frequencies are computed in single precision
        u = common.upsample(x, **kw); d = differs(u, up(x0, r, f, p, tt), tol)
        if d: mm.append(dict(function='common.upsample', length=N, args=kw, seed=seed, difference=d))
        z = torch.randn(2, 3, N * r, dtype=D); d = differs(common.downsample(z, shift=sh, **kw), down(z, r, f, p, tt, sh), tol)
        if d: mm.append(dict(function='common.downsample', length=N * r, args=dict(kw, shift=sh), seed=seed, difference=d))
        if f == 0 and p == 0 and not tt:
            lim = x0 if r == 1 else idft(dft(x0) * weights(N // 2 + 1, 0), N)
            for nm, got in (('samples kept by upsample', u[..., ::r]), ('downsample(upsample)', common.downsample(u, r))):
                d = differs(got, lim, tol)
                if d: mm.append(dict(function=nm, length=N, args=kw, seed=seed, difference=d))
        if not torch.equal(x, x0): mm.append(dict(function='common.upsample', args=kw, difference='the argument was changed'))
        nb, ns = random.randint(1, 3), random.randint(1, 3); a = torch.randn(nb, ns, N, dtype=D)
        sa = common.set_source_amplitudes([a, None], nb, N * r, r, f, p, tt, a.device, D)
        d = differs(sa[0].movedim(0, -1), up(a, r, f, p, tt), tol) or (None if sa[1].shape == (N * r, nb, 0) else 'shape of the empty amplitudes')
        if d: mm.append(dict(function='common.set_source_amplitudes', length=N, args=kw, seed=seed, difference=d))
        q = torch.randn(N * r, nb, ns, dtype=D); d = differs(common.downsample_and_movedim(q, shift=sh, **{k: v for k, v in kw.items()}), down(q.movedim(0, -1), r, f, p, tt, sh), tol)
        if d: mm.append(dict(function='common.downsample_and_movedim', length=N, args=kw, seed=seed, difference=d))
    # single precision, and a scalar-free trace
    x = torch.randn(4, 25); d = differs(common.downsample(common.upsample(x, 3), 3), x if 0 else torch.fft.irfft(torch.cat([torch.fft.rfft(x)[:, :-1], torch.zeros(4, 1)], -1), n=25), 1e-5); n += 1
    if d: mm.append(dict(function='float32 round trip', difference=d))
    return n, mm

def hicks(seed=1, count=400):
    """C12: against a direct double-precision evaluation of the windowed sinc, free surfaces by odd mirroring."""
    from deepwave.location_interpolation import Hicks
    random.seed(seed); torch.manual_seed(seed); mm = []; n = 0; D = torch.float64
    B = [0.0, 1.84, 3.04, 4.14, 5.26, 6.40, 7.51, 8.56, 9.56, 10.64]
    def i0(v):
        t = s = 1.0
        for k in range(1, 80): t *= (v / 2 / k) ** 2; s += t
        return s
    sinc = lambda x: 1.0 if x == 0 else math.sin(math.pi * x) / (math.pi * x)
    def one(s, h, mono, f0, f1):
        fl = math.floor(s); w = {}
        if mono and abs(s - round(s)) < 1e-5: w = {round(s): 1.0}
        else:
            for c in range(fl - h + 1, fl + h + 1):
                x = c - s; win = i0(B[h - 1] * math.sqrt(max(0., 1 - (x / h) ** 2))) / i0(B[h - 1])
                w[c] = (sinc(x) if mono else (math.cos(math.pi * x) - sinc(x)) * x / (x * x + 1e-5)) * win
            for f, out in ((f0, lambda c: c < f0), (f1, lambda c: c > f1)):
                if f is None: continue
                v = dict(w); w = {}
                for c, a in v.items():
                    if c == f: continue
                    if out(c):
                        if fl - h + 1 <= 2 * f - c <= fl + h: w[int(2 * f - c)] = w.get(int(2 * f - c), 0) - a      # images outside the window are dropped
                    else: w[c] = w.get(c, 0) + a
        return w
    def coord(lo, hi):
        while True:
            k = random.random()
            v = random.uniform(lo, hi) if k < 0.5 else float(random.randint(math.ceil(lo), math.floor(hi))) if k < 0.65 else random.randint(math.ceil(lo), math.floor(hi)) + random.choice((0.5, 0.2, 0.7, 0.1, 0.3, 0.9, 1e-4, -1e-4, 0.25))
            if lo < v < hi: return v
    def point(st, i): return tuple(float(v) for v in st[i])
    for it in range(count):
        n += 1; h = random.randint(1, 10); shape = [random.randint(2 * h + 4, 2 * h + 30) for _ in range(2)]
        if it % 20 == 0: shape = [270, 30]
        fs = [random.random() < 0.4 for _ in range(4)]; whole = random.random() < 0.5
        fl = [float(random.randint(0, 1)) if whole else random.randint(0, 1) - 0.5, None, float(random.randint(0, 1)) if whole else random.randint(0, 1) - 0.5, None]
        fl[1], fl[3] = [shape[d] - (1 if whole else 0.5) - random.randint(0, 1) for d in (0, 1)]
        dflt = not whole and random.random() < 0.3
        if dflt: fl = [-0.5, shape[0] - 0.5, -0.5, shape[1] - 0.5]
        ns, npt = random.randint(1, 3), random.randint(1, 4); dt = D if random.random() < 0.8 else torch.float32
        loc = torch.tensor([[[coord(fl[2 * d] if fs[2 * d] else -2, fl[2 * d + 1] if fs[2 * d + 1] else shape[d] + 1) for d in (0, 1)] for _ in range(npt)] for _ in range(ns)], dtype=dt)
        mono = random.choice((True, False, 'mixed')); dim = random.choice((0, 1, 'mixed'))
        mt = torch.rand(ns, npt) < 0.5 if mono == 'mixed' else torch.full((ns, npt), mono); dm = torch.randint(0, 2, (ns, npt)) if dim == 'mixed' else torch.full((ns, npt), dim)
        if it % 7 == 0 and not mt[0, 0] and fs[2 * int(dm[0, 0])] and whole: loc[0, 0, int(dm[0, 0])] = fl[2 * int(dm[0, 0]) + random.randint(0, 1) * int(fs[2 * int(dm[0, 0]) + 1])]
        case = dict(function='Hicks', seed=seed, locations=loc.tolist(), dtype=str(dt), args=dict(halfwidth=h, free_surfaces=fs, free_surface_locs=None if dflt else fl, model_shape=shape, monopole=mt.tolist(), dipole_dim=dm.tolist()))
        bad = lambda m: mm.append(dict(case, difference=m))
        kw = dict(halfwidth=h, free_surfaces=fs, model_shape=shape if any(fs) else None, dtype=dt); 
        if not dflt: kw['free_surface_locs'] = fl
        loc0 = loc.clone()
        try:
            H = Hicks(loc, monopole=mt if mono == 'mixed' else mono, dipole_dim=dm if dim == 'mixed' else dim, **kw)
            amp = torch.randn(ns, npt, 3, dtype=dt); src = H.source(amp); hl = H.get_locations()
            q = torch.randn(*hl.shape[:2], 3, dtype=dt); rec = H.receiver(q)
        except Exception as e: bad('raised %r' % (e,)); continue
        if not torch.equal(loc, loc0): bad('the locations were changed')
        tol = 3e-4 if dt == D else 1e-3
        for s in range(ns):
            want, parts = {}, []
            for i in range(npt):
                p = point(loc[s], i); ws = []
                for d in (0, 1):
                    m1 = bool(mt[s, i]) or int(dm[s, i]) != d
                    ws.append(one(p[d], h, m1, fl[2 * d] if fs[2 * d] else None, fl[2 * d + 1] if fs[2 * d + 1] else None))
                wi = {(a, b): u * v for a, u in ws[0].items() for b, v in ws[1].items()}; parts.append(wi)
                for c, v in wi.items(): want[c] = want.get(c, 0) + v * amp[s, i].double()
            cells = [tuple(c) for c in hl[s].tolist()]; used = [c for c in cells if c[0] != -2 ** 31]
            if len(set(used)) != len(used): bad('shot %d: a grid cell appears twice' % s)
            if any(c[0] == -2 ** 31 and float(src[s, k].abs().max()) for k, c in enumerate(cells)): bad('shot %d: amplitude on an unused cell' % s)
            for d in (0, 1):
                if any((fs[2 * d] and c[d] < fl[2 * d]) or (fs[2 * d + 1] and c[d] > fl[2 * d + 1]) for c in used): bad('shot %d: a cell beyond a free surface' % s)
            got = {c: src[s, k].double() for k, c in enumerate(cells) if c in set(used)}
            for c in set(want) | set(got):
                g, w = got.get(c, torch.zeros(3, dtype=D)), want.get(c, torch.zeros(3, dtype=D)); e = float((g - w).abs().max()) if torch.isfinite(g).all() else math.inf
                if e > tol * (1 + float(amp[s].abs().sum())): bad('shot %d cell %s: source %s, expected %s' % (s, c, g.tolist(), torch.as_tensor(w).tolist())); break
            at = {c: q[s, k].double() for k, c in enumerate(cells) if c in set(used)}
            for i in range(npt):
                w = sum((v * at[c] for c, v in parts[i].items() if c in at), torch.zeros(3, dtype=D))
                e = float((rec[s, i].double() - w).abs().max())
                if not e <= tol * (1 + sum(abs(v) for v in parts[i].values()) * 3): bad('shot %d receiver %d: %s, expected %s' % (s, i, rec[s, i].tolist(), w.tolist())); break
        l, r = float((src.double() * q).sum()), float((rec.double() * amp).sum())
        if abs(l - r) > (1e-9 if dt == D else 1e-3) * (1 + abs(l) + float(src.abs().sum())): bad('receiver is not the transpose of source: %r != %r' % (l, r))
        k = torch.tensor([random.randrange(ns) for _ in range(random.randint(1, 3))])
        if not (torch.equal(H.source(amp[k], k), src[k]) and torch.equal(H.receiver(q[k], k), rec[k]) and torch.equal(H.get_locations(k), hl[k])): bad('selecting shots %s differs from selecting the results' % k.tolist())
        perm = list(range(npt)); random.shuffle(perm)       # order of the points: same operator
        H2 = Hicks(loc[:, perm], monopole=mt[:, perm], dipole_dim=dm[:, perm], **kw); s2 = H2.source(amp[:, perm]); h2 = H2.get_locations()
        for s in range(ns):
            A = {tuple(c): v for c, v in zip(hl[s].tolist(), src[s].double())}; Z = {tuple(c): v for c, v in zip(h2[s].tolist(), s2[s].double())}
            if set(A) != set(Z) or any(float((A[c] - Z[c]).abs().max()) > tol * (1 + float(amp[s].abs().sum())) for c in A): bad('the order of the points changes shot %d' % s); break
    return n, mm

def _lib():
    import ctypes
    return ctypes, ctypes.CDLL(os.path.join(os.path.dirname(deepwave.__file__), 'libdeepwave_C.so'))

def compress(seed=1, count=60):
    """compress then decompress, in guarded buffers of exactly the sizes the Python side allocates; then save/load of several snapshots in a file or in memory"""
    import ctypes, struct
    from deepwave.common import StorageManager
    random.seed(seed); gen = torch.Generator().manual_seed(seed); ct, L = _lib(); n = 0; mm = []
    for k in range(count):
        nd = 1 + k % 3; dt = ('float', 'double')[k // 3 % 2]; D = {'float': torch.float32, 'double': torch.float64}[dt]; isz = D.itemsize
        shape = [random.choice((1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25)) if nd < 3 else random.choice((1, 3, 8, 9, 16, 17)) for _ in range(nd)]; ns = random.randint(1, 3)
        x = torch.randn([ns] + shape, generator=gen, dtype=D); kind = random.choice(('normal', 'sparse', 'constant', 'tiny', 'huge', 'zero', 'ties'))
        if kind == 'sparse': x = x * (torch.rand(x.shape, generator=gen) < 0.1)
        elif kind == 'constant': x = torch.full_like(x, random.choice((1.0, -3.7)))
        elif kind == 'tiny': x = x * (1e-37 if dt == 'float' else 1e-307)
        elif kind == 'huge': x = x.clamp(-3, 3) * (1e37 if dt == 'float' else 1e307)
        elif kind == 'zero': x = x * 0
        elif kind == 'ties': x = torch.randint(-254, 255, x.shape, generator=gen).to(D) / 2
        m = StorageManager(tuple(shape), D, ns, 4, 1, 2, True, '.', torch.device('cpu'), False); nb = m.shot_bytes_comp; bad = []; G = 64
        buf = torch.full((ns * nb + 2 * G,), 0xA5, dtype=torch.uint8); out = torch.full((x.numel() + 2 * G,), float('nan'), dtype=D); a = (ct.c_size_t * 1)
        sizes = [ct.c_size_t(v) for v in shape]; f = lambda w: getattr(L, 'simple_compress_%s_cpu_%dd_%s' % (w, nd, dt)); V = ct.c_void_p; before = x.clone()
        for s in range(ns): f('compress')(V(x[s].data_ptr()), V(buf.data_ptr() + G + s * nb), *sizes)
        packed = buf.clone()
        for s in reversed(range(ns)): f('decompress')(V(buf.data_ptr() + G + s * nb), V(out.data_ptr() + isz * (G + s * x[s].numel())), *sizes)
        y = out[G:-G].reshape(x.shape); n += 1
        if not torch.equal(x, before): bad.append('the input was changed')
        if not torch.equal(packed, buf): bad.append('decompression changed its input')
        if not ((buf[:G] == 0xA5).all() and (buf[-G:] == 0xA5).all() and out[:G].isnan().all() and out[-G:].isnan().all()): bad.append('write outside the buffers')
        X = x.double(); big = torch.zeros_like(X)
        for b in itertools.product(*[range(0, v, 8) for v in shape]):
            sl = (slice(None),) + tuple(slice(i, i + 8) for i in b); v = X[sl].abs().flatten(1).max(1)[0]; big[sl] = v.reshape([ns] + [1] * nd)
        err = (y.double() - X).abs(); lim = big / 254 * (1 + (1e-4 if dt == 'float' else 1e-9)) + (2e-43 if dt == 'float' else 1e-321)
        if not (err <= lim).all(): i = tuple(int(v) for v in (~(err <= lim)).nonzero()[0]); bad.append('element %s: %r became %r, largest of its block %r' % (i, float(X[i]), float(y[i]), float(big[i])))
        if (y[x == 0] != 0).any(): bad.append('a zero did not stay zero')
        ex = (X.abs() == big) & (big > 0)
        if ex.any() and not (err[ex] <= big[ex] * (1e-6 if dt == 'float' else 1e-14) + (2e-43 if dt == 'float' else 1e-321)).all(): bad.append('an extreme of a block was changed')
        if bad: mm.append(dict(shape=shape, shots=ns, dtype=dt, kind=kind, differences=bad))
        if len(mm) > 5: break
    return n, mm

def snapshots(seed=1, count=40):
    """save_snapshot_cpu / load_snapshot_cpu: several snapshots of several shots to files, read in any order"""
    import ctypes, tempfile, shutil
    from deepwave.common import StorageManager
    random.seed(seed); gen = torch.Generator().manual_seed(seed); ct, L = _lib(); n = 0; mm = []
    libc = ct.CDLL(None); libc.fopen.restype = ct.c_void_p; libc.fopen.argtypes = [ct.c_char_p, ct.c_char_p]; libc.fclose.argtypes = [ct.c_void_p]
    d = tempfile.mkdtemp()
    try:
        for k in range(count):
            nd = 1 + k % 3; dt = ('float', 'double')[k // 3 % 2]; D = {'float': torch.float32, 'double': torch.float64}[dt]; shape = [random.randint(1, 11) for _ in range(nd)]; comp = random.random() < 0.5
            steps = random.randint(1, 6); x = torch.randn([steps] + shape, generator=gen, dtype=D); m = StorageManager(tuple(shape), D, 1, steps, 1, 2, comp, '.', torch.device('cpu'), False)
            path = os.path.join(d, 'f%d' % k).encode(); sizes = [ct.c_size_t(v) for v in shape]; V = ct.c_void_p; I = ct.c_int64; w = torch.zeros(max(m.shot_bytes_comp, 1), dtype=torch.uint8); bad = []
            def call(verb, a, fp, s): getattr(L, 'storage_%s_snapshot_cpu_%dd_%s' % (verb, nd, dt))(V(a.data_ptr()), V(w.data_ptr()), V(fp), I(2), ct.c_bool(comp), I(s), ct.c_size_t(m.shot_bytes_uncomp), ct.c_size_t(m.shot_bytes_comp), *sizes)
            cut = random.randint(0, steps)
            for part in (range(cut), range(cut, steps)):       # two calls of the propagator
                fp = libc.fopen(path, b'ab')
                for s in part: call('save', x[s], fp, s)
                libc.fclose(fp)
            fp = libc.fopen(path, b'rb'); y = torch.zeros(shape, dtype=D); n += 1
            for s in random.sample(range(steps), steps):
                w.fill_(7); y.fill_(float('nan')); call('load', y, fp, s); t = x[s]
                lim = float(t.abs().max()) / 254 * (1 + 1e-4) if comp else 0
                if not float((y - t).abs().max()) <= lim: bad.append('snapshot %d is not what was saved' % s)
            libc.fclose(fp)
            if os.path.getsize(path) != steps * (m.shot_bytes_comp if comp else m.shot_bytes_uncomp): bad.append('file of %d bytes' % os.path.getsize(path))
            if bad: mm.append(dict(shape=shape, dtype=dt, compressed=comp, steps=steps, differences=bad[:4]))
    finally: shutil.rmtree(d, ignore_errors=True)
    return n, mm

def temporary_files(seed=1):
    """TemporaryStorage: names are distinct within and between instances (whatever the state of the random generators), in the requested folder, and everything is removed"""
    import tempfile, shutil, gc
    from deepwave.common import TemporaryStorage
    mm = []; n = 0; d = tempfile.mkdtemp()
    try:
        for base in (d, os.path.join(d, 'not', 'there')):
            seen = set(); keep = []
            for num in (1, 2, 11, 120, 1, 2):
                random.seed(5); torch.manual_seed(5); t = TemporaryStorage(base, num); keep.append(t); n += 1
                f = [x for x in t.get_filenames_ptr()]
                if len(f) != num or len(set(f)) != num: mm.append(dict(files=num, differences=['%d names, %d distinct' % (len(f), len(set(f)))]))
                if seen & set(f): mm.append(dict(files=num, differences=['names shared by two storages: %s' % sorted(seen & set(f))[:2]]))
                seen |= set(f)
                for x in f:
                    if not os.path.abspath(x.decode()).startswith(os.path.abspath(base) + os.sep): mm.append(dict(differences=['file %s outside %s' % (x, base)]))
                    open(x, 'ab').write(b'x')
            t = keep[0]; others = [x for s in keep[1:] for x in s.get_filenames_ptr()]; mine = list(t.get_filenames_ptr()); keep[0] = None; del t; gc.collect()
            if any(os.path.exists(x) for x in mine): mm.append(dict(differences=['the files of a discarded storage are still there']))
            if not all(os.path.exists(x) for x in others): mm.append(dict(differences=['discarding one storage removed the files of another']))
            keep[1].close(); keep[1].close(); keep = s = None; gc.collect()
            left = [f for _, _, fs in os.walk(base) for f in fs]
            if left or [x for x in os.listdir(base) if x.startswith('deepwave')]: mm.append(dict(differences=['left behind: %s' % (left[:3] or os.listdir(base))]))
        # the whole propagator, forward only and with the backward pass
        for back in (False, True):
            w = os.path.join(d, 'run%d' % back); os.makedirs(w); v = torch.full((9, 11), 1500.0, requires_grad=True)
            out = deepwave.scalar(v, 5.0, 0.001, source_amplitudes=torch.randn(3, 1, 9), source_locations=torch.tensor([[[2, 3]]] * 3), receiver_locations=torch.tensor([[[4, 5]]] * 3), pml_width=3, storage_mode='disk', storage_path=w, storage_compression=back)
            if back: out[-1].sum().backward()
            n += 1; inside = [f for _, _, fs in os.walk(w) for f in fs]
            if len(inside) != 3 and not back: mm.append(dict(differences=['%d files for 3 shots' % len(inside)]))
            del out, v; gc.collect(); left = [f for _, _, fs in os.walk(w) for f in fs]
            if left: mm.append(dict(differences=['left behind after the propagation: %s' % left[:3]]))
    finally: shutil.rmtree(d, ignore_errors=True)
    return n, mm

def e2e(**kw):
    from vc import refprop
    return refprop.e2e(**kw)

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    torch.set_num_threads(4)
    n, mm = globals()[sys.argv[1]](**json.loads(sys.argv[2]))
    print(json.dumps(dict(runs=n, mismatches=mm[:20]), default=str))

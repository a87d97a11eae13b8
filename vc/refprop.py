"""Reference propagators on whole grids (double precision, differentiable torch operations), written from the wave equations and the documented
conventions, used as the oracle of the bounded end-to-end runs. PML profiles, time step selection and resampling come from deepwave.common and the
grid modules, whose own contracts are C06, C07, C08 and C11."""
import math, random, sys
import torch
import deepwave
from deepwave import common, regular_grid, staggered_grid
from vc.conf import fdw, differs
D = torch.float64
DIMS = {1: 'x', 2: 'yx', 3: 'zyx'}
PAIR = {frozenset('xy'): 'sigmaxy', frozenset('xz'): 'sigmaxz', frozenset('yz'): 'sigmayz'}
def stress(d, e): return 'sigma' + d + d if d == e else PAIR[frozenset((d, e))]

def states(eq, nd):
    """names of the wavefield arguments, in the order in which they are returned"""
    ds = DIMS[nd]
    if eq == 'scalar': return ['wavefield_0', 'wavefield_m1'] + ['psi%s_m1' % d for d in ds] + ['zeta%s_m1' % d for d in ds]
    if eq == 'scalar_born': return states('scalar', nd) + ['wavefield_sc_0', 'wavefield_sc_m1'] + ['psi%s_sc_m1' % d for d in ds] + ['zeta%s_sc_m1' % d for d in ds]
    if eq == 'acoustic': return ['pressure_0'] + ['v%s_0' % d for d in ds] + ['phi_%s_0' % d for d in ds] + ['psi_%s_0' % d for d in ds]
    o = ['vz', 'vy', 'vx', 'sigmazz', 'sigmayz', 'sigmaxz', 'sigmayy', 'sigmaxy', 'sigmaxx', 'm_vzz', 'm_vzy', 'm_vzx', 'm_vyz', 'm_vxz', 'm_vyy', 'm_vyx', 'm_vxy', 'm_vxx', 'm_sigmazzz', 'm_sigmayzy', 'm_sigmaxzx', 'm_sigmayzz', 'm_sigmaxzz', 'm_sigmayyy', 'm_sigmaxyy', 'm_sigmaxyx', 'm_sigmaxxx']
    return [n + '_0' for n in o if not ({'z', 'y', 'x'} - set(ds)) & set(n.split('_')[-1].replace('sigma', '').replace('v', ''))]

def half(eq, name):
    """dimensions in which the quantity lives half a cell further, and the dimension of its absorbing layer (or None)"""
    n = name.rsplit('_', 1)[0]
    if eq in ('scalar', 'scalar_born'):
        n = n.replace('_sc', ''); return '', (n[-1] if n.startswith(('psi', 'zeta')) else None)
    if eq == 'acoustic':
        if n == 'pressure': return '', None
        if n[0] == 'v': return n[1], None
        return ('', n[-1]) if n.startswith('phi') else (n[-1], n[-1])
    if n[0] == 'v': return n[1], None
    if n.startswith('sigma'): return ('' if n[-1] == n[-2] else n[-2:]), None
    if n.startswith('m_v'): return ('' if n[-1] == n[-2] else n[-2:]), n[-1]
    return n[-3] if n[-3] == n[-2] and n[-1] == n[-2] else [x for x in n[-3:-1] if x != n[-1]][0], n[-1]          # m_sigma(ab)(d): where velocity a or b is updated

class Ref:
    """one propagator on the domain of the survey plus absorbing layers"""
    def __init__(self, eq, nd, acc, h, dt, pml, freq, max_vel, inner, shots):
        self.snaps = None; self.eq, self.nd, self.acc, self.h, self.pml, self.shots = eq, nd, acc, h, pml, shots; self.ds = DIMS[nd]
        self.dt, self.ratio = common.cfl_condition_n(list(h), dt, max_vel); self.N = [n + pml[2 * i] + pml[2 * i + 1] for i, n in enumerate(inner)]
        R = acc // 2; reg = eq in ('scalar', 'scalar_born'); fd = [R, R] * nd if reg else [R, R - 1] * nd
        pr = (regular_grid if reg else staggered_grid).set_pml_profiles(list(pml), acc, fd, self.dt, list(h), max_vel, D, torch.device('cpu'), freq, [n + fd[0] + fd[1] for n in self.N])
        per = 3 if reg else 4; self.C = {}
        for i, d in enumerate(self.ds):
            for nm, q in zip(('a', 'b', 'db') if reg else ('a', 'b', 'ah', 'bh'), pr[per * i:per * i + per]):
                self.C[nm + d] = q.reshape(-1)[fd[0]:fd[0] + self.N[i]].reshape([-1 if j == i else 1 for j in range(nd)])
        self.last = {d: torch.ones([self.N[i] if j == i else 1 for j in range(nd)], dtype=D) for i, d in enumerate(self.ds)}
        for i, d in enumerate(self.ds): self.last[d].select(i, self.N[i] - 1).fill_(0)
    def mask(self, name):
        hf, layer = half(self.eq, name); m = torch.ones(self.N, dtype=D)
        if layer:
            i = self.ds.index(layer); e = self.N[i] - self.pml[2 * i + 1] - (1 if layer in hf else 0)
            if e > self.pml[2 * i]: m.narrow(i, self.pml[2 * i], e - self.pml[2 * i]).fill_(0)
        for d in hf: m = m * self.last[d]
        return m
    def pad(self, m, mode):
        """(shots or none, inner) -> (.., N)"""
        p = [x for i in reversed(range(self.nd)) for x in (self.pml[2 * i], self.pml[2 * i + 1])]
        if mode == 'constant': return torch.nn.functional.pad(m, p)
        for i in range(self.nd):
            ax = m.ndim - self.nd + i; a, b = self.pml[2 * i], self.pml[2 * i + 1]; n = m.shape[ax]
            m = m.index_select(ax, torch.tensor([min(max(k - a, 0), n - 1) for k in range(n + a + b)]))
        return m
    def cells(self, loc):
        """flat cell in the padded domain, -1 where the location is ignored"""
        f = torch.zeros(loc.shape[:-1], dtype=torch.long)
        for i in range(self.nd): f = f * self.N[i] + loc[..., i] + self.pml[2 * i]
        return torch.where((loc == deepwave.IGNORE_LOCATION).any(-1), torch.tensor(-1), f)
    def get(self, u, c):
        u = u.expand(self.shots, *self.N).reshape(self.shots, -1); return torch.gather(u, 1, c.clamp(min=0)) * (c >= 0)
    def put(self, u, c, a): return u.reshape(self.shots, -1).scatter_add(1, c.clamp(min=0), a * (c >= 0)).reshape(u.shape)
    def d(self, dim, u, der=1, hf=0):
        i = self.ds.index(dim); R = self.acc // 2; p = [0, 0] * self.nd; p[2 * (self.nd - 1 - i)] = p[2 * (self.nd - 1 - i) + 1] = R
        q = torch.nn.functional.pad(u, p); ax = u.ndim - self.nd + i; r = 0
        for o, w in fdw(der, self.acc, hf).items(): r = r + w * q.narrow(ax, R + o, self.N[i])
        return r / self.h[i] ** der
    # -- models: what the time loop uses
    def models(self, ms):
        if self.eq == 'scalar': return [self.pad(ms[0], 'replicate')]
        if self.eq == 'scalar_born': return [self.pad(ms[0], 'replicate'), self.pad(ms[1], 'constant')]
        ms = [self.pad(m, 'replicate') for m in ms]
        if self.eq == 'acoustic':
            from deepwave.acoustic import prepare_models
            return prepare_models(*ms)                      # k, buoyancies
        from deepwave.elastic import prepare_parameters
        p = prepare_parameters(ms[1], ms[2]); sh = [] if self.nd == 1 else [('yx',)] if self.nd == 2 else None
        return [ms[0], ms[1]] + list(p)
    def prepared(self, M):
        """named"""
        if self.eq == 'scalar': return dict(v=M[0])
        if self.eq == 'scalar_born': return dict(v=M[0], scatter=M[1])
        if self.eq == 'acoustic': return dict(k=M[0], **{'b' + d: m for d, m in zip(self.ds, M[1:])})
        sh = {1: [], 2: ['yx'], 3: ['yx', 'zx', 'zy']}[self.nd]; n = ['lamb', 'mu'] + {1: ['bx'], 2: ['mu_yx', 'by', 'bx'], 3: ['mu_zy', 'mu_zx', 'mu_yx', 'bz', 'by', 'bx']}[self.nd]
        return dict(zip(n, M))
    def regular(self, u, psi, zeta):
        w = 0; ps, ze = {}, {}
        for d in self.ds:
            a, b, db = self.C['a' + d], self.C['b' + d], self.C['db' + d]; du = self.d(d, u)
            t = (1 + b) * self.d(d, u, 2) + db * du + self.d(d, a * psi[d]); w = w + (1 + b) * t + a * zeta[d]; ps[d] = b * du + a * psi[d]; ze[d] = b * t + a * zeta[d]
        return w, ps, ze
    def mem(self, S, name, fld, d, hf):
        x = 'h' if hf else ''; g = self.d(d, S[fld], 1, 1 if hf else -1)
        if hf: g = g * self.last[d]
        S[name] = (self.C['a' + x + d] * S[name] + self.C['b' + x + d] * g) * self.mask_h(name); return (g + S[name]) * self.mask_h(name)
    def mask_h(self, name):
        m = 1.0
        for d in half(self.eq, name)[0]: m = m * self.last[d]
        return m
    def step(self, S, m):
        """advance every state by one step (without sources)"""
        dt, ds = self.dt, self.ds
        if self.eq in ('scalar', 'scalar_born'):
            u, up = S['wavefield_0'], S['wavefield_m1']
            w, ps, ze = self.regular(u, {d: S['psi%s_m1' % d] for d in ds}, {d: S['zeta%s_m1' % d] for d in ds})
            T = {'wavefield_0': m['v'] ** 2 * dt ** 2 * w + 2 * u - up, 'wavefield_m1': u}
            if self.snaps is not None:
                e = torch.zeros_like(T['wavefield_0']).requires_grad_(); T['wavefield_0'] = T['wavefield_0'] + e; self.snaps.append((e, float((2 * m['v'] * dt ** 2 * w).detach().abs().max())))
            for d in ds: T['psi%s_m1' % d], T['zeta%s_m1' % d] = ps[d], ze[d]
            if self.eq == 'scalar_born':
                x, xp = S['wavefield_sc_0'], S['wavefield_sc_m1']
                ws, ps, ze = self.regular(x, {d: S['psi%s_sc_m1' % d] for d in ds}, {d: S['zeta%s_sc_m1' % d] for d in ds})
                T.update({'wavefield_sc_0': m['v'] ** 2 * dt ** 2 * ws + 2 * x - xp + 2 * m['v'] * m['scatter'] * dt ** 2 * w, 'wavefield_sc_m1': x})
                for d in ds: T['psi%s_sc_m1' % d], T['zeta%s_sc_m1' % d] = ps[d], ze[d]
            return T
        S = dict(S)
        if self.eq == 'acoustic':
            for d in ds: S['v%s_0' % d] = (S['v%s_0' % d] - dt * m['b' + d] * self.mem(S, 'psi_%s_0' % d, 'pressure_0', d, True)) * self.last[d]
            self.inject_v(S)
            S['pressure_0'] = S['pressure_0'] - dt * m['k'] * sum(self.mem(S, 'phi_%s_0' % d, 'v%s_0' % d, d, False) for d in ds)
            return S
        for d in ds:
            w = sum(self.mem(S, 'm_%s%s_0' % (stress(d, e), e), stress(d, e) + '_0', e, d == e) for e in ds)
            S['v%s_0' % d] = (S['v%s_0' % d] + dt * m['b' + d] * w) * self.last[d]
        self.inject_v(S)
        g = {d: self.mem(S, 'm_v%s%s_0' % (d, d), 'v%s_0' % d, d, False) for d in ds}; tr = sum(g.values())
        for d in ds: S['sigma%s%s_0' % (d, d)] = S['sigma%s%s_0' % (d, d)] + dt * (m['lamb'] * tr + 2 * m['mu'] * g[d])
        for a, b in [(a, b) for i, a in enumerate(ds) for b in ds[i + 1:]]:
            w = self.mem(S, 'm_v%s%s_0' % (a, b), 'v%s_0' % a, b, True) + self.mem(S, 'm_v%s%s_0' % (b, a), 'v%s_0' % b, a, True); n = stress(a, b) + '_0'
            S[n] = (S[n] + dt * m['mu_' + a + b] * w) * self.last[a] * self.last[b]
        return S
    def run(self, ms, src, rec, S, nt, interval=1, keep=None):
        """src {component: (amplitudes (shots, n, nt), locations)}, rec {component: locations}, S initial states; returns final states and records {component: (shots, n, nt)}"""
        r = self.ratio; full = self.prepared(self.models(ms)); dt = self.dt; amp = {}; cel = {}
        for c, (f, loc) in src.items():
            f = common.upsample(f, r, 0.0, 0.0, False); cc = cel[c] = self.cells(loc); g = lambda n: self.get(full[n], cc)[..., None]
            if self.eq in ('scalar', 'scalar_born'):
                amp[c] = [-f * g('v') ** 2 * dt ** 2] + ([-2 * f * g('v') * g('scatter') * dt ** 2] if self.eq == 'scalar_born' else [])
            elif c == 'p': amp[c] = [f * g('k') * dt] if self.eq == 'acoustic' else [-f * dt]
            else: amp[c] = [f * g('b' + c) * dt]
        rc = {c: self.cells(l) for c, l in rec.items()}; out = {c: [] for c in rec}; dn = ('z', 'y', 'x')
        S = {n: (torch.zeros(self.shots, *self.N, dtype=D) if S.get(n) is None else S[n]) * self.mask(n) for n in states(self.eq, self.nd)}
        for t in range(nt * r):
            if keep is not None: keep.append({n: x.detach().clone() for n, x in S.items()})
            for c in rec: out[c].append(self.get(self.field(S, c), rc[c]))
            q = interval * r; m = full if q == 1 else {n: (q * x - (q - 1) * x.detach()) if t % q == 0 else x.detach() for n, x in full.items()}     # the gradient integral is sampled every q steps
            def inject_v(S_, t=t):
                for c in src:
                    if c in DIMS[3]: S_['v%s_0' % c] = self.put(S_['v%s_0' % c], cel[c], amp[c][0][..., t])
            self.inject_v = inject_v; S = self.step(S, m)
            for c in src:
                a = [x[..., t] for x in amp[c]]
                if self.eq in ('scalar', 'scalar_born'):
                    for n, x in zip(('wavefield_0', 'wavefield_sc_0'), a): S[n] = self.put(S[n], cel[c], x)
                elif c == 'p':
                    for n in (['pressure_0'] if self.eq == 'acoustic' else ['sigma%s%s_0' % (d, d) for d in self.ds]): S[n] = self.put(S[n], cel[c], a[0])
        rec_out = {c: common.downsample(torch.stack(v, -1), r, 0.0, 0.0, False) for c, v in out.items()}
        if self.eq == 'elastic' and 'p' in rec_out: rec_out['p'] = -rec_out['p'] / self.nd
        return S, rec_out
    def field(self, S, c):
        if self.eq == 'scalar': return S['wavefield_0']
        if self.eq == 'scalar_born': return S['wavefield_0' if c == 'bg' else 'wavefield_sc_0']
        if c == 'p': return S['pressure_0'] if self.eq == 'acoustic' else sum(S['sigma%s%s_0' % (d, d)] for d in self.ds)
        return S['v%s_0' % c]

# ---- random cases -----------------------------------------------------------------------------------------------------------------------
API = {'scalar': lambda: deepwave.scalar, 'scalar_born': lambda: deepwave.scalar_born, 'acoustic': lambda: deepwave.acoustic, 'elastic': lambda: deepwave.elastic}
def comps(eq, nd): return {'scalar': ['p'], 'scalar_born': ['p']}.get(eq, ['p'] + list(DIMS[nd]))
def rec_order(eq, nd): return {'scalar': ['p'], 'scalar_born': ['bg', 'p']}.get(eq, ['p'] + list(DIMS[nd]))
def sname(eq, what, c): return 'source_' + what + ('' if eq in ('scalar', 'scalar_born') else '_' + c)
def rname(eq, c): return {'scalar': 'receiver_locations', 'scalar_born': 'bg_receiver_locations' if c == 'bg' else 'receiver_locations'}.get(eq, 'receiver_locations_' + c)

class Case: pass
def case(rng, eq, nd, acc, what):
    c = Case(); c.eq, c.nd, c.acc = eq, nd, acc; R = acc // 2
    c.inner = [rng.randint(2, 6 if nd < 3 else 4) + (R if rng.random() < 0.4 else 0) for _ in range(nd)]
    c.pml = [rng.choice((0, 1, 2, 3)) if nd < 3 else rng.choice((0, 1, 2)) for _ in range(2 * nd)]
    if rng.random() < 0.2: c.pml = [0] * 2 * nd
    if nd == 1 and rng.random() < 0.3: c.inner = [rng.randint(15, 30)]; c.pml = [rng.randint(2, 6) for _ in range(2)]
    c.h = [rng.uniform(4, 6) for _ in range(nd)]; c.max_vel = rng.uniform(2000, 2500); c.freq = rng.uniform(5, 25)
    lim = 0.6 / math.sqrt(sum(1 / x ** 2 for x in c.h)) / c.max_vel; c.ratio = 1 if rng.random() < 0.7 else rng.choice((2, 3)); c.dt = lim * (c.ratio - rng.uniform(0.1, 0.4))
    if rng.random() < 0.1: c.dt = -c.dt
    c.shots = rng.randint(1, 3); c.nt = rng.randint(1, 7); c.interval = 1 if rng.random() < 0.6 else rng.choice((2, 3))
    c.gen = torch.Generator().manual_seed(rng.randrange(2 ** 31)); rnd = lambda *s: torch.randn(*s, generator=c.gen, dtype=D); uni = lambda lo, hi, *s: lo + (hi - lo) * torch.rand(*s, generator=c.gen, dtype=D)
    def model(lo, hi): return uni(lo, hi, *(([c.shots] if rng.random() < 0.4 else [1] if rng.random() < 0.3 else []) + c.inner))
    if eq == 'scalar': c.models = dict(v=model(1500, 2000))
    elif eq == 'scalar_born': c.models = dict(v=model(1500, 2000), scatter=model(-100, 100))
    elif eq == 'acoustic': c.models = dict(v=model(1500, 2000), rho=model(1, 2))
    else: c.models = dict(lamb=model(1e6, 3e6), mu=model(5e5, 1e6), buoyancy=model(0.8, 1.0))
    def locs(n, comp):
        dims = [m - (1 if eq in ('acoustic', 'elastic') and comp == DIMS[nd][i] else 0) for i, m in enumerate(c.inner)]; tot = math.prod(dims); n = min(n, tot); out = torch.zeros(c.shots, n, nd, dtype=torch.long)
        for s in range(c.shots):
            for j, k in enumerate(rng.sample(range(tot), n)):
                for i in reversed(range(nd)): out[s, j, i] = k % dims[i]; k //= dims[i]
                if rng.random() < 0.1: out[s, j] = deepwave.IGNORE_LOCATION
        return out
    c.src, c.rec = {}, {}
    for k in comps(eq, nd):
        if rng.random() < 0.7: l = locs(rng.randint(1, 3), k); c.src[k] = (rnd(c.shots, l.shape[1], c.nt), l)
    for k in rec_order(eq, nd):
        if rng.random() < 0.8: c.rec[k] = locs(rng.randint(1, 3), k)
    c.N = [n + c.pml[2 * i] + c.pml[2 * i + 1] for i, n in enumerate(c.inner)]; c.S = {}
    if not c.src or rng.random() < 0.5:
        for i, n in enumerate(states(eq, nd)):
            if rng.random() < 0.8 or (i == 0 and not c.src): c.S[n] = rnd(c.shots, *c.N)
    c.cf = rng.randint(1, 4) if rng.random() < 0.6 else None; c.mode = rng.choice(('device', 'device', 'disk', 'cpu')); c.compress = eq == 'scalar' and rng.random() < 0.15
    c.threads = rng.choice((1, 2, 4)); c.what = what; c.view = rng.choice(('inner', 'pml', 'full')); c.wide = (rng.random() < 0.6)
    return c
def describe(c):
    return dict(equation=c.eq, accuracy=c.acc, shape=c.inner, pml_width=c.pml, shots=c.shots, nt=c.nt, dt=c.dt, step_ratio=c.ratio, interval=c.interval, callback_frequency=c.cf, storage=c.mode, compression=c.compress, threads=c.threads,
                models={k: list(m.shape) for k, m in c.models.items()}, sources={k: v[1].tolist() for k, v in c.src.items()}, receivers={k: v.tolist() for k, v in c.rec.items()}, wavefields=sorted(c.S))

def run_case(c, rng):
    """-> list of differences between the public function and the reference"""
    torch.set_num_threads(c.threads); bad = []; eq, nd = c.eq, c.nd
    ref = Ref(eq, nd, c.acc, c.h, c.dt, c.pml, c.freq, c.max_vel, c.inner, c.shots)
    if ref.ratio != c.ratio: return ['step ratio %d instead of %d' % (ref.ratio, c.ratio)]
    leaf = {}
    def L(n, t, p=0.7): leaf[n] = t.clone().requires_grad_(rng.random() < p); return leaf[n]
    ms = {n: L(n, m) for n, m in c.models.items()}; src = {k: (L('source ' + k, f), l) for k, (f, l) in c.src.items()}; S = {n: L(n, x, 0.5) for n, x in c.S.items()}
    if c.compress and eq == 'scalar': ref.snaps = []
    Sm = {n: x * ref.mask(n) for n, x in S.items()}; kept = []; python = c.what == 'python'
    pad = lambda m: m if m.ndim == nd else m
    Rf, Rr = ref.run([m if m.ndim > nd else m[None] for m in ms.values()], src, c.rec, Sm, c.nt, c.interval if not python else Fraction_(1, c.ratio), kept)
    kw = dict(grid_spacing=list(c.h), dt=c.dt, accuracy=c.acc, pml_width=list(c.pml), pml_freq=c.freq, max_vel=c.max_vel, model_gradient_sampling_interval=c.interval)
    for k, (f, l) in src.items(): kw[sname(eq, 'amplitudes', k)] = f; kw[sname(eq, 'locations', k)] = l.clone()
    for k, l in c.rec.items(): kw[rname(eq, k)] = l.clone()
    if not src: kw['nt'] = c.nt
    kw.update({n: x for n, x in Sm.items()})
    seen, bseen, full = [], [], []
    if c.cf:
        def fcb(st):
            seen.append(st.step); want = kept[st.step * c.ratio * c.interval] if st.step * c.ratio * c.interval < len(kept) else None
            if want is None: bad.append('forward callback at step %d' % st.step); return
            for n in want:
                if len(bad) > 5: return
                cn = n if eq in ('scalar', 'scalar_born') else n
                try: w = st.get_wavefield(cn, c.view)
                except KeyError: bad.append('callback has no wavefield ' + cn); continue
                x = want[n]
                if c.view == 'inner': x = x[(slice(None), *(slice(c.pml[2 * i], c.N[i] - c.pml[2 * i + 1]) for i in range(nd)))]
                elif c.view == 'full':
                    R = c.acc // 2; p = [R, R] if eq in ('scalar', 'scalar_born') else [R, R - 1]; x = torch.nn.functional.pad(x, p * nd)
                d = differs(w, x) if float(x.abs().max() if x.numel() else 0) > 1e-12 else (None if w.shape == x.shape else 'shape %s' % (tuple(w.shape),))
                if d: bad.append('callback step %d %s (%s view): %s' % (st.step, n, c.view, d))
        kw.update(forward_callback=fcb, callback_frequency=c.cf)
        if not python:
            def bcb(st): bseen.append(st.step); full.append({n: st.get_gradient(n, 'full').clone() for n in st._gradients if st._gradients[n].numel()})
            kw['backward_callback'] = bcb
    if python: kw['python_backend'] = 'eager'
    else: kw.update(storage_mode=c.mode, storage_compression=c.compress, storage_path='.')
    keep0 = {n: x.detach().clone() for n, x in list(leaf.items())}
    out = API[eq]()(*ms.values(), **kw)
    names = states(eq, nd) + ['receivers ' + k for k in rec_order(eq, nd)]
    if len(out) != len(names): return ['%d outputs instead of %d' % (len(out), len(names))]
    if c.cf:
        steps = -(-c.nt // c.interval) if not python else -(-c.nt // c.interval); want = list(range(0, steps, c.cf))
        if seen != want: bad.append('forward callbacks at %s instead of %s' % (seen, want))
    lossr = lossa = 0.0; used = False
    for n, o in zip(names, out):
        if n.startswith('receivers '):
            k = n[10:]
            if k not in c.rec: continue
            e = Rr[k]
        else: e = Rf[n]
        d = differs(o.detach(), e.detach(), 1e-8) if e.numel() and float(e.detach().abs().max()) > 1e-300 else (None if o.shape == e.shape and not o.detach().abs().sum() > 1e-12 else 'expected zeros')
        if d: bad.append('%s: %s' % (n, d))
        if rng.random() < (0.8 if c.wide else 0.3) and not d and o.requires_grad and e.requires_grad:
            g = torch.randn(e.shape, generator=c.gen, dtype=D) / (float(e.detach().abs().max()) or 1.0); lossr = lossr + (g * e).sum(); lossa = lossa + (g * o).sum(); used = True
    if bad: return bad[:6]
    for n, x in keep0.items():
        if not torch.equal(leaf[n].detach(), x): bad.append('the argument %s was changed' % n)
    if not used: return bad
    ls = [n for n in leaf if leaf[n].requires_grad]
    gr = torch.autograd.grad(lossr, [leaf[n] for n in ls], allow_unused=True, retain_graph=True); ga = torch.autograd.grad(lossa, [leaf[n] for n in ls], allow_unused=True)
    ismodel = lambda n: n in c.models
    for n, r, a in zip(ls, gr, ga):
        r = torch.zeros_like(leaf[n]) if r is None else r; a = torch.zeros_like(leaf[n]) if a is None else a
        if a.shape != r.shape: bad.append('gradient of %s: shape %s' % (n, tuple(a.shape))); continue
        if c.compress and not python and ismodel(n):
            # eight bit quantisation of every snapshot, over at most its whole range
            q = c.interval * c.ratio; lam = torch.autograd.grad(lossr, [x for x, _ in ref.snaps], allow_unused=True, retain_graph=True); nsh = c.shots if leaf[n].ndim == nd or leaf[n].shape[0] == 1 else 1; cells = math.prod(c.N) if c.pml else 1
            bound = sum(q * float(l.abs().max()) * w * 2 / 255 for t, (l, (_, w)) in enumerate(zip(lam, ref.snaps)) if l is not None and t % q == 0) * nsh * cells * 0.6 + 1e-9 * float(r.abs().max())
            if not float((a - r).abs().max()) <= bound: bad.append('gradient of %s (compressed snapshots): error %.3g larger than the quantisation allows (%.3g)' % (n, float((a - r).abs().max()), bound))
            continue
        if float(r.abs().max()) < 1e-300: d = 'expected zeros' if float(a.abs().max()) > 1e-12 else None
        else: d = differs(a, r, 1e-7)
        if d: bad.append('gradient of %s: %s' % (n, d))
    if c.cf and not python:
        steps = -(-c.nt // c.interval); want = []; k = steps
        while k > 0: k = max(0, k - c.cf); want.append(k)
        if bseen != want: bad.append('backward callbacks at %s instead of %s' % (bseen, want))
    return bad[:6]
class Fraction_:
    """interval * ratio == 1: the gradient is not sampled (automatic differentiation of the Python backend)"""
    def __init__(self, a, b): pass
    def __mul__(self, o): return 1
def e2e(seed=1, cases=(), count=20, what='compiled', budget=100):
    import time; t0 = time.time(); mm = []; n = 0; rng = random.Random(seed)
    for k in range(count):
        for eq, nd, acc in cases:
            if time.time() - t0 > budget: return n, mm
            s = rng.randrange(2 ** 31); r2 = random.Random(s); c = case(r2, eq, nd, acc, what); n += 1
            try: bad = run_case(c, r2)
            except Exception as e:
                import traceback
                bad = ['raised ' + traceback.format_exc()[-700:]]
            if bad: mm.append(dict(describe(c), seed=s, what=what, differences=bad))
            if len(mm) > 5: return n, mm
    return n, mm

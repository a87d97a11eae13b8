"""Contracts of the drivers: the public propagator functions and their autograd functions, executed symbolically down to the calls of the
compiled functions. Callees with contracts of their own (setup_propagator: C07, C09, C10, C11; PML profiles: C08; staggered averages: C15;
downsample: C11; the compiled functions: C01, C02, C03) are replaced by those contracts. Loops over a symbolic number of chunks are treated
inductively: the first iteration from the real initial state, and an arbitrary iteration followed by its successor (no loop-carried numbers;
buffers up to their names), with the loop invariant that each state array holds the field of its name at the time level reached and that
padding and interiors are zero."""
import sys, builtins, re
from .pysym import *
from . import pysym, pytorch as pt, abi, cfront, eqs
from .pytorch import Tensor, Ptr, sz
from .terms import *
from . import terms as _t
def num_(x): return x if isinstance(x, Poly) else of(x)[0]
def le(a, b): return _t.le(num_(a), num_(b))
def lt(a, b): return _t.lt(num_(a), num_(b))
def eq(a, b): return _t.eq(num_(a), num_(b))
def ne(a, b): return _t.ne(num_(a), num_(b))
DN = {1: 'x', 2: 'yx', 3: 'zyx'}
class Done(Infeasible): pass          # the rest of this path adds nothing

_sig = {}
def signature(fname):
    """(eq, ndim, acc, dtype, pas, parameter names, canonical names, C types) of an exported function"""
    if fname in _sig: return _sig[fname]
    m = re.match(r'(scalar_born|scalar|acoustic|elastic)_iso_(\d)d_(\d)_(float|double)_(forward|backward)(_sc)?_cpu$', fname)
    if not m: raise Unsupported('call of ' + fname)
    eq, nd, acc, dt, pas = m.group(1), int(m.group(2)), int(m.group(3)), m.group(4), m.group(5) + (m.group(6) or '')
    u = cfront.load(eqs.EQS[eq]['file'], nd, acc, dt)
    if fname not in u.funcs: raise Unsupported('call of %s, which is not defined' % fname)
    ps = u.funcs[fname]['params']; names = [n for n, _ in ps]
    _sig[fname] = eq, nd, acc, dt, pas, names, abi.canonical(eq, nd, pas, names), [t for _, t in ps]
    return _sig[fname]

# ---- tables: the public names behind the canonical parameter names ------------------------------------------------------------------
SHEAR = {1: [], 2: ['yx'], 3: ['zy', 'zx', 'yx']}
def state_of(eq, n):
    """public name of the wavefield argument behind a parameter (None: not a state)"""
    if eq in ('scalar', 'scalar_born'):
        m = re.match(r'(wfc|wfp|psi[zyx]|zeta[zyx])(sc)?$', n)
        if not m: return None
        s = '_sc' if m.group(2) else ''
        return {'wfc': 'wavefield%s_0' % s, 'wfp': 'wavefield%s_m1' % s}.get(m.group(1)) or m.group(1) + s + '_m1'
    if eq == 'acoustic':
        if n == 'p': return 'pressure_0'
        return n + '_0' if re.match(r'(v[zyx]|phi_[zyx]|psi_[zyx])$', n) else None
    return n + '_0' if re.match(r'(v[zyx]|sigma[zyx]{2}|m_v[zyx]{2}|m_sigma[zyx]{3})$', n) else None
def outputs_of(eq, nd):
    from . import names; return names.states(eq, nd)
def comp_of(eq, n):
    """component suffix of a source/receiver parameter"""
    if eq == 'scalar': return ''
    if eq == 'scalar_born': return 'sc' if 'sc' in n.replace('scatter', '') else ''
    m = re.search(r'_(v?[zyx]|p)(_i)?(_per_shot)?$', n.replace('_per_shot', '')); return m.group(1)[-1]
def pairs(names):
    """pairs of parameters that exchange roles at every time step"""
    out = []; ns = set(names)
    for n in names:
        b = None
        if n in ('wfc', 'wfcsc'): b = n.replace('wfc', 'wfp')
        elif n.endswith('sc') and n[:-2] + 'nsc' in ns: b = n[:-2] + 'nsc'
        elif n + 'n' in ns and not n.startswith('n_'): b = n + 'n'
        if b in ns: out.append((n, b))
    return out

class SRange:
    """range() with symbolic arguments: the loop over the time range, by induction"""
    def __init__(self, run, a): self.run = run; self.a = a
    def locals(self, f): return {k: v for k, v in f.f_locals.items() if isinstance(v, (bool, int, float, S, B)) or v is None}
    def __iter__(self):
        a = [x.item() if isinstance(x, Tensor) else x for x in self.a]
        a = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else tuple(a)
        (s, e, st) = (of(x)[0] for x in a); p = Path.cur; f = sys._getframe(1); R = self.run
        if R.mode is not None and R.mode != 'after': raise Unsupported('nested loops')
        if not decide(lt(s, e)) if decide(lt(0, st)) else not decide(lt(e, s)): return
        up = p.known(lt(0, st)); more = (lambda v: lt(v, e)) if up else (lambda v: lt(e, v))
        q = of(R.q)[0]
        def go_on(v, ask=True):
            """does the loop go on to v; the same for the multiples by the sampling interval (a consequence that the solver is spared)"""
            r = decide(more(v)) if ask else True; d = (e - v) if up else (v - e)
            assume(le(q, d * q) if r else le(d * q, 0)); return r
        def done():
            if R.cb and R.where == 'backward': R.after(lambda n: R.calls[-1].pas + ': ' + n, R.calls[-1])
        go_on(s, False)
        if not go_on(s + st): R.mode = 'single'; yield mk(s, 'i'); R.mode = 'after'; return
        if decide(ne(sym('base!' + R.where, 'i'), 0)):
            R.mode = 'base'; yield mk(s, 'i'); done(); raise Done()
        v = p.fresh('step', 'i'); assume((le(s, v) if up else le(v, s))); assume(le(0, (v - s if up else s - v) * q)); assume(more(v)); go_on(v, False); R.mode = 'assume'
        before = self.locals(f)
        yield mk(v, 'i')
        now = self.locals(f)
        ch = [k for k in before if k in now and now[k] is not before[k] and not (type(now[k]) is type(before[k]) and not issym(now[k]) and now[k] == before[k])]
        if ch: raise Unsupported('the loop carries ' + ', '.join(ch))
        if go_on(v + st):
            R.mode = 'check'; yield mk(v + st, 'i')
            done(); raise Done()
        R.mode = 'after'

class FakeFiles:
    """stands for TemporaryStorage"""
    made = 0
    def __init__(self, path, n): self.n = n; self.path = path; FakeFiles.made += 1; self.serial = FakeFiles.made
    def get_filenames_ptr(self): return self
    def close(self): pass

class Call:
    """one call of a compiled function: canonical name -> argument, with the tensor contents at the time of the call"""
    def __init__(self, run, f, args):
        self.run = run; self.name = f.__name__; self.args = args; self.argtypes = f.argtypes; self.restype = f.restype
        self.eq, self.nd, self.acc, self.dt, self.pas, self.cnames, self.names, self.types = signature(f.__name__)
        self.mode = run.mode; self.grads = {}; self.k = dict(zip(self.names, args)); self.fn = {n: v.t.reader() for n, v in self.k.items() if isinstance(v, Ptr)}
    def t(self, n):
        v = self.k.get(n); return v.t if isinstance(v, Ptr) else None
    def at(self, n, *ix): return self.fn[n](tuple(ix))
    def num(self, n): return of(self.k[n])[0]
    def none(self, n): return self.t(n) is None or Path.cur.known(eq(pt.sz(self.t(n).numel()), 0)) is True

PARAMS = {'scalar': ['v'], 'scalar_born': ['v', 'scatter'], 'acoustic': ['v', 'rho'], 'elastic': ['lamb', 'mu', 'buoyancy']}
def comps(eq, nd): return {'scalar': [''], 'scalar_born': ['']}.get(eq, ['p'] + list(DN[nd]))
def rcomps(eq, nd): return {'scalar': [''], 'scalar_born': ['', 'sc']}.get(eq, ['p'] + list(DN[nd]))
def pub_src(eq, what, c): return 'source_' + what + ('_' + c if c else '')
def pub_rec(eq, c): return {'scalar': 'receiver_locations', 'scalar_born': 'receiver_locations' if c == 'sc' else 'bg_receiver_locations'}.get(eq) or 'receiver_locations_' + c
MODE = {'device': 0, 'cpu': 0, 'disk': 2, 'none': 3}        # tensors on the CPU: 'cpu' is the same place as 'device'

class Drive:
    """one configuration: equation, dimension, accuracy and
    cb: forward/backward callbacks with an arbitrary frequency; give: which optional arguments are given ('all', 'none': no wavefields, only one
    source and receiver component); grads: names that require gradients ('all', or a set); batched: one model per shot; storage; compress"""
    def __init__(self, it, eq, nd, acc, cb=False, give='all', grads='all', batched=False, storage='device', compress=False, dtype='float32', what='forward', kinds=('args', 'loop', 'storage', 'values'), spoil=None, valid=True, python=False):
        self.__dict__.update(locals()); del self.__dict__['self']; self.mod = {}; self.seen = set(); self.ds = DN[nd]; self.R = acc // 2; self.reg = eq in ('scalar', 'scalar_born')
    # -- the inputs
    def begin(self, p):
        self.calls = []; self.mode = None; self.cbs = []; self.raw = []; self.stores = {}; self.cur = {}; self.tagged = {}; self.viewed = set(); self.values = True; nd = self.nd; R = self.R; self.p = p
        I = lambda n, lo: self._int(n, lo)
        self.nb = I('n_shots', 1); self.pml = [I('pml%d' % j, 0) for j in range(2 * nd)]; self.inner = [I('inner%d' % j, 1) for j in range(nd)]
        self.fd = [R, R] * nd if self.reg else [R, R - 1] * nd
        self.N = [self.inner[i] + self.pml[2 * i] + self.pml[2 * i + 1] for i in range(nd)]; self.n = [self.N[i] + self.fd[2 * i] + self.fd[2 * i + 1] for i in range(nd)]
        self.nt = I('nt', 1); self.ratio = I('step_ratio', 1); self.msi = I('interval', 1); self.q = self.ratio * self.msi if not self.cb else self.ratio * self.msi
        self.cf = I('callback_frequency', 1); self.dt = mk(sym('dt', 'f'), 'f'); self.h = [mk(sym('h' + d, 'f'), 'f') for d in self.ds]
        for h in self.h: assume(lt(0, h.p))
        assume(ne(self.dt.p, 0)); self.max_vel = mk(sym('max_vel', 'f'), 'f'); self.freq = mk(sym('pml_freq', 'f'), 'f')
        pt.NUM_THREADS = lambda: mk(sym('n_threads', 'i'), 'i')
        assume(le(1, sym('n_threads', 'i')))
        self.D = getattr(pt, self.dtype)
    def _int(self, n, lo):
        x = mk(sym(n, 'i'), 'i'); assume(le(lo, x.p)); return x
    def arr(self, name, shape, dt=None): return pt.array(name, tuple(shape), dt or self.D)
    def rg(self, name): return self.grads == 'all' or name in self.grads
    # -- setup_propagator by contract: each output is made from the input in the same place
    def setup(self, models, pad_modes, grid_spacing, dt, amps, slocs, rlocs, accuracy, fd_pad, pml_width, pml_freq, max_vel, min_vel, max_model_vel, survey_pad, waves, origin, nt, msi, ft, tp, tt, ndims):
        it, nd = self.it, self.nd; U = self.user
        it.true('setup: models', [getattr(m, 'nm', '?') for m in models] == PARAMS[self.eq], str([getattr(m, 'nm', '?') for m in models]))
        it.true('setup: model padding', list(pad_modes) == ['replicate', 'constant'][:len(models)] if self.eq == 'scalar_born' else all(x == 'replicate' for x in pad_modes) and len(pad_modes) == len(models), str(pad_modes))
        def same(name, x, u): it.true('setup: ' + name, x is u or (not issym(x) and not isinstance(x, Tensor) and not issym(u) and x == u), repr(x)[:80])
        for nm, x, u in (('grid spacing', grid_spacing, U['grid_spacing']), ('dt', dt, U['dt']), ('accuracy', accuracy, self.acc), ('pml width', pml_width, U['pml_width']), ('pml frequency', pml_freq, U['pml_freq']), ('max_vel', max_vel, U['max_vel']),
                         ('survey_pad', survey_pad, U['survey_pad']), ('origin', origin, U['origin']), ('nt', nt, U['nt']), ('model gradient sampling interval', msi, U['model_gradient_sampling_interval']), ('freq_taper_frac', ft, U['freq_taper_frac']),
                         ('time_pad_frac', tp, U['time_pad_frac']), ('time_taper', tt, U['time_taper']), ('dimensions', ndims, nd)): same(nm, x, u)
        it.true('setup: padding for the stencil', list(fd_pad) == self.fd, str(fd_pad))
        names = lambda xs: [None if x is None else x.nm for x in xs]
        w = names(waves); it.true('setup: wavefields', len(w) == len(self.states) and set(w) - {None} == {k for k in self.states if U.get(k) is not None}, str(w))
        out = lambda nm, sh, dt=None, rg=None: self._named(nm, sh, dt, rg)
        nbm = self.nb if self.batched else 1
        M = [out('model ' + m.nm, (nbm,) + tuple(self.n), rg=self.rg(m.nm)) for m in models]
        E = lambda dt=None: pt.empty(0, dtype=dt or self.D)
        A = [E() if a is None else out('amplitudes ' + a.nm, (self.nt, self.nb, self.ns[a.nm]), rg=self.rg('amplitudes')) for a in amps]
        SL = [E(pt.int64) if s is None else self.locs('cells ' + s.nm, (self.nb, self.ns[s.nm.replace('locations', 'amplitudes')])) for s in slocs]
        RL = [E(pt.int64) if s is None else self.locs('cells ' + s.nm, (self.nb, self.nr[s.nm])) for s in rlocs]
        W = [E() if a is None else out('wave ' + a.nm, (self.nb,) + tuple(self.N), rg=self.rg('wavefields')) for a in waves]
        for nm, a, s in [(pub_src(self.eq, 'amplitudes', c), pub_src(self.eq, 'locations', c), None) for c in comps(self.eq, nd)]:
            ia = names(amps).index(nm) if nm in names(amps) else None; ib = names(slocs).index(a) if a in names(slocs) else None
            it.true('setup: amplitudes and locations of %s in the same place' % nm, ia == ib, '%s %s' % (ia, ib))
        self.prep = {t.nm: t for t in M + A + SL + RL + W if hasattr(t, 'nm')}
        return (M, A, W, SL, RL, list(self.h), self.dt, self.nt, self.nb, self.ratio, self.msi, self.acc, list(self.pml), self.freq, self.max_vel, ft, tp, tt, M[0].device, self.D)
    def _named(self, nm, sh, dt=None, rg=False):
        t = self.arr(nm.replace(' ', '_'), sh, dt); t.nm = nm; t.requires_grad = bool(rg); t.noncontig = True; return t
    def locs(self, nm, sh):
        t = self._named(nm, sh, pt.int64); tot = ONE
        for x in self.n: tot = tot * pt.sz(x)
        self.tot = tot; return t
    def profiles(self, pml_width, accuracy, fd_pad, dt, grid_spacing, max_vel, dtype, device, pml_freq, shape):
        it = self.it
        it.true('profiles: widths', list(pml_width) == self.pml if False else all(a is b for a, b in zip(pml_width, self.pml)), ''); it.true('profiles: accuracy', accuracy == self.acc); it.true('profiles: stencil padding', list(fd_pad) == self.fd)
        it.equal('profiles: dt', dt, self.dt); it.equal('profiles: max_vel', max_vel, self.max_vel); it.equal('profiles: frequency', pml_freq, self.freq); it.true('profiles: type', dtype is self.D)
        for i in range(self.nd): it.equal('profiles: spacing %d' % i, grid_spacing[i], self.h[i]); it.equal('profiles: shape %d' % i, shape[i], self.n[i])
        out = []
        for i, d in enumerate(self.ds):
            for x in (('a%s', 'b%s', 'db%s') if self.reg else ('a%s', 'b%s', 'a%sh', 'b%sh')): out.append(self._named('profile ' + x % d, [1] + [self.n[i] if j == i else 1 for j in range(self.nd)]))
        self.prof = {t.nm: t for t in out}; return out
    def down(self, *a, **k):
        x = a[0] if a else k['signals']; r = x
        if not self.none_(x): r = self.arr('resampled%d' % len(self.raw), (x.shape_[1], x.shape_[2], self._int('nt_out', 1)))
        self.raw.append((a, k, x, r)); return r
    def averages(self, *ms):
        """prepare_models / prepare_parameters by contract (C15)"""
        it = self.it
        if self.eq == 'acoustic':
            it.true('averages: of the models', len(ms) == 2 and ms[0] is self.prep['model v'] and ms[1] is self.prep['model rho'])
            names = ['k'] + ['buoyancy_' + d for d in self.ds]
        else:
            it.true('averages: of the models', len(ms) == 2 and ms[0] is self.prep['model mu'] and ms[1] is self.prep['model buoyancy'])
            names = ['mu_' + s for s in SHEAR[self.nd]] + ['buoyancy_' + d for d in self.ds]
        rg = any(m.requires_grad for m in ms)
        out = [self._named('average ' + n, (self.nb if self.batched else 1,) + tuple(self.n), rg=(any(m.requires_grad for m in ms) if n == 'k' else ms[1].requires_grad) if self.eq == 'acoustic' else ms[0 if n.startswith('mu') else 1].requires_grad) for n in names]
        self.prep.update({t.nm: t for t in out}); return out
    # -- the call of the public function
    def call(self):
        eq, nd = self.eq, self.nd; U = self.user = {}; self.states = outputs_of(eq, nd); self.ns, self.nr = {}, {}
        m = pt.load('deepwave.' + eq); common = pt.load('deepwave.common')
        ms = []
        for k in PARAMS[eq]:
            t = self.arr('user_' + k, (self.nb,) * bool(self.batched) + tuple(self.inner)); t.nm = k; t.requires_grad = self.rg(k); ms.append(t)
        some = lambda i: self.give == 'all' or i == 0
        for i, c in enumerate(comps(eq, nd)):
            a, l = pub_src(eq, 'amplitudes', c), pub_src(eq, 'locations', c)
            if self.give == 'none' and i != (1 if len(comps(eq, nd)) > 1 else 0): continue
            k = self._int('ns_' + (c or 'p'), 1); self.ns[a] = k
            U[a] = self.arr('user_' + a, (self.nb, k, self.nt)); U[a].nm = a; U[l] = self.arr('user_' + l, (self.nb, k, nd), pt.int64); U[l].nm = l
        for i, c in enumerate(rcomps(eq, nd)):
            l = pub_rec(eq, c)
            if self.give == 'none' and i != len(rcomps(eq, nd)) - 1: continue
            k = self._int('nr_' + (c or 'p'), 1); self.nr[l] = k; U[l] = self.arr('user_' + l, (self.nb, k, nd), pt.int64); U[l].nm = l
        if self.give == 'all':
            for s in self.states: U[s] = self.arr('user_' + s, (self.nb,) + tuple(self.N)); U[s].nm = s
        U.update(grid_spacing=object.__new__(Token), dt=object.__new__(Token), accuracy=self.acc, pml_width=object.__new__(Token), pml_freq=object.__new__(Token), max_vel=object.__new__(Token), survey_pad=object.__new__(Token), origin=object.__new__(Token), nt=object.__new__(Token),
                 model_gradient_sampling_interval=object.__new__(Token), freq_taper_frac=object.__new__(Token), time_pad_frac=object.__new__(Token), time_taper=object.__new__(Token), storage_mode=self.storage, storage_compression=self.compress, storage_path='PATH', callback_frequency=self.cf)
        if self.cb: U['forward_callback'] = self.fcb; U['backward_callback'] = self.bcb
        sv = {}
        def put(mod, n, v):
            if n in mod.__dict__: sv[(mod.__name__, n)] = mod.__dict__[n]; mod.__dict__[n] = v
        self.real_down = common.downsample_and_movedim
        put(common, 'setup_propagator', self.setup); put(common, 'downsample_and_movedim', self.down); put(common, 'TemporaryStorage', FakeFiles)
        for g in ('regular_grid', 'staggered_grid'): put(pt.load('deepwave.' + g), 'set_pml_profiles', self.profiles)
        put(common, 'lambmubuoyancy_to_vpvsrho', lambda *a: tuple(self.arr('velocity%d' % i, a[0].shape_) for i in range(3)))
        put(m, 'prepare_models', self.averages); put(m, 'prepare_parameters', self.averages)
        if self.python: U['python_backend'] = 'eager'; real = getattr(m, eq + '_python'); put(m, eq + '_python', lambda *a: self.on_python(real, a))
        pt.RANGE = lambda *a: SRange(self, a); pt.CALL = self.on_call
        F = getattr(m, {'scalar': 'ScalarForwardFunc', 'scalar_born': 'ScalarBornForwardFunc', 'acoustic': 'AcousticForwardFunc', 'elastic': 'ElasticForwardFunc'}[eq]); self.F = F; F.last_ctx = None
        orig = pt.Function.__dict__['apply']; D = self
        try:
            self.where = 'forward'; Path.prefer = self.prefer if self.valid else None
            try: self.out = getattr(m, eq)(*ms, **U)
            except RuntimeError as e:
                if self.calls or 'location' not in str(e): raise
                raise Done()          # locations outside the model are rejected
            if Path.cur.dead(): raise Infeasible()
            if self.python: self.finish_python(); self.completed = getattr(self, 'completed', 0) + 1; return
            self.finish_forward(); self.completed = getattr(self, 'completed', 0) + 1
            if self.what == 'backward': self.where = 'backward'; self.backward()
        finally:
            for (mn, n), v in sv.items(): pt.load(mn).__dict__[n] = v
            pt.RANGE = None; Path.prefer = None
    # -- the Python propagator: what it is given (the precondition of vc/pyloop.py) and what becomes of its results
    def on_python(self, f, args):
        import inspect
        from .pyloop import arg_states
        it, ds, eq_ = self.it, self.ds, self.eq; pr = inspect.signature(f).parameters; fixed = [n for n, q in pr.items() if q.kind != q.VAR_POSITIONAL]
        nm = lambda n: 'propagator: ' + n; k = dict(zip(fixed, args)); rest = list(args[len(fixed):]); self.calls.append(None)
        fp = [n for n, q in inspect.signature(self.F.forward).parameters.items() if q.kind != q.VAR_POSITIONAL]
        it.true(nm('the parameters are those of the compiled propagator'), fp[1:] == fixed, '%s; %s' % (fp[1:], fixed))
        W = arg_states(eq_, self.nd); M = {'scalar': ['v'], 'scalar_born': ['v', 'scatter'], 'acoustic': ['k'] + ['buoyancy_' + d for d in ds]}.get(eq_) or ['lamb', 'mu'] + ['mu_' + x for x in SHEAR[self.nd]] + ['buoyancy_' + d for d in ds]
        cs = {'scalar': [''], 'scalar_born': [''], 'acoustic': ['p'] + list(ds), 'elastic': list(ds) + ['p']}[eq_]
        if self.reg:
            slots = [(n, ('model', n)) for n in M] + [('source_amplitudes', ('amp', ''))] + [('source_amplitudessc', ('amp', 'sc'))] * (eq_ == 'scalar_born') + [('sources_i', ('loc', '')), ('receivers_i', ('rloc', ''))] + [('receiverssc_i', ('rloc', 'sc'))] * (eq_ == 'scalar_born')
            if any(n not in k for n, _ in slots): raise Unsupported('parameters of %s' % f.__name__)
            what = [(w, k[n]) for n, w in slots]; want = len(W)
        else:
            o = [('model', n) for n in M] + [('amp', c) for c in cs] + [('loc', c) for c in cs] + [('rloc', c) for c in cs]; what = list(zip(o, rest)); want = len(o) + len(W); rest = rest[len(o):]
        if not it.true(nm('number of arguments'), len(args) == len(fixed) + want, '%d' % len(args)): raise Enough()
        what += [(('state', n), t) for n, t in zip(W, rest)]
        for n, v in (('dt', self.dt), ('nt', self.nt), ('step_ratio', self.q), ('n_shots', self.nb), ('callback_frequency', self.cf)): it.equal(nm(n), k[n], v)
        it.true(nm('accuracy'), k['accuracy'] == self.acc); it.true(nm('pml_width: number'), len(k['pml_width']) == len(self.pml)); it.true(nm('grid_spacing: number'), len(k['grid_spacing']) == len(self.h))
        for a, b in zip(k['pml_width'], self.pml): it.equal(nm('pml_width'), a, b)
        for a, b in zip(k['grid_spacing'], self.h): it.equal(nm('grid_spacing'), a, b)
        for n in ('forward_callback', 'backward_callback'): it.true(nm(n), k[n] is self.user.get(n) or k[n] == self.user.get(n))
        s, ix = self.idx(); prof = list(self.prof.values())
        if it.true(nm('pml_profiles: number'), len(k['pml_profiles']) == len(prof)):
            for j, (a, b) in enumerate(zip(k['pml_profiles'], prof)):
                self.shape(nm('pml_profiles'), a, b.shape_)
                z = [ZERO if not issym(n) else i for n, i in zip(b.shape_, [ZERO] + ix)]; it.equal(nm('pml_profiles: contents'), a.at(*z), b.at(*z))
        for (kind, n), t in what: self.python_array(nm, kind, n, t, s, ix)
        self.python_out = []
        for n in W: self.python_out.append(('state', n, self._named('final ' + n, [self.nb] + list(self.N))))
        for c in {'scalar': [''], 'scalar_born': ['', 'sc']}.get(eq_, cs):
            r = self.n_rec(c); self.python_out.append(('rec', c, pt.empty(0, dtype=self.D) if not issym(r) and r == 0 else self._named('recorded ' + c, [self.nt, self.nb, r])))
        return tuple(t for _, _, t in self.python_out)
    def python_array(self, nm, kind, n, t, s, ix):
        it, p, e, P_ = self.it, Path.cur, self.eq, self.prep; nm_ = nm('%s %s' % (kind, n)); mb = s if self.batched and p.known(eq(self.nb, 1)) is not True else ZERO
        if self.spoil: n = {'vx_0': 'vy_0', 'vy_0': 'vx_0', 'psiy_m1': 'psix_m1', 'psix_m1': 'zetax_m1', 'zetax_m1': 'psix_m1'}.get(n, n)
        if kind == 'model':
            M = P_[('average ' if n == 'k' or '_' in n else 'model ') + n]; self.shape(nm_, t, M.shape_); it.equal(nm_, t.at(mb, *ix), M.at(mb, *ix))
        elif kind == 'state':
            w = P_.get('wave ' + n)
            if w is None: it.equal(nm_ + ' is empty', sz(t.numel()), 0); return
            self.shape(nm_, t, w.shape_)
            with p.scope(*[lt(i, sz(x)) for i, x in zip(ix, self.N)]) as ok: it.equal(nm_, t.at(s, *ix), w.at(s, *ix))
        else:
            k = self.n_rec(n) if kind == 'rloc' else self.n_src(n)
            if not issym(k) and k == 0: it.equal(nm_ + ' is empty', sz(t.numel()), 0); return
            if kind == 'amp':
                class C: pass
                c = C(); c.t = lambda _: t; c.at = lambda _, *i: t.at(*i); self.source(c, lambda _: nm_, {'': 'f', 'sc': 'fsc'}.get(n, 'f_' + n), s); return
            w = P_['cells ' + (pub_src(e, 'locations', n) if kind == 'loc' else pub_rec(e, n))]; self.shape(nm_, t, w.shape_); j = p.fresh('j', 'i')
            with p.scope(le(0, j), lt(j, sz(k))) as ok: it.equal(nm_, t.at(s, j), w.at(s, j))
    def finish_python(self):
        it, p = self.it, Path.cur; nm = lambda n: 'result: ' + n; names = self.states; want = self.rec_order(); out = list(self.out)
        if not it.true(nm('the Python propagator is called once'), len(self.calls) == 1): return
        if not it.true(nm('number of results'), len(out) == len(names) + len(want), '%d' % len(out)): return
        have = {(a, b): t for a, b, t in self.python_out}
        for u, t in zip(names, out): it.true(nm('%s is returned in its place' % u), t is have['state', u], str(getattr(t, 'nm', '?')))
        for cp, t in zip(want, out[len(names):]):
            k = self.n_rec(cp); w = have['rec', cp]
            if not issym(k) and k == 0: it.equal(nm('receiver data %s is empty' % cp), sz(t.numel()), 0); continue
            r = next((r for r in self.raw if r[2] is w), None)
            if not it.true(nm('receiver data %s are resampled' % cp), r is not None): continue
            self.downargs(nm, r); self.shape(nm('receiver data ' + cp), t, r[3].shape_); tt, j = p.fresh('t', 'i'), p.fresh('j', 'i')
            with p.scope(le(0, tt), lt(tt, sz(r[3].shape_[2])), le(0, j), lt(j, sz(k))) as ok: it.equal(nm('receiver data %s: scale' % cp), t.at(s_ := p.fresh('s', 'i'), j, tt), r[3].at(s_, j, tt) * (Fraction(-1, self.nd) if self.eq == 'elastic' and cp == 'p' else 1))
    def prefer(self, c):
        """precondition: locations lie inside the model (others are rejected: C09) and not all are the ignored location; some velocities are nonzero"""
        if self.calls or c[0] != 'cmp': return None
        _, op, p = c; at = [(a, ATOMS[a][1]) for a in p.atoms() if ATOMS[a][0] == 'sym']
        for a, n in at:
            k = p.d.get((a,))
            if k is None: continue
            if n.startswith('nsel!'): return {'<': k < 0, '<=': k < 0, '==': False, '!=': True}[op]
            if n.startswith('red_max!') and op in ('<', '<=') and any(m.startswith('inner') for b, m in at) and not any(m.startswith('red_m') for b, m in at if b != a): return k > 0
        return None
    def fcb(self, state): self.cbs.append(state)
    def bcb(self, state): self.cbs.append(state)
    # -- the calls of the compiled functions
    def ctx_sub(self, c):
        """contract context with the symbols replaced by the actual arguments of the call"""
        from .stencil import Ctx
        x = Ctx(self.nd, self.acc, 0 if self.reg else 1); mp = {}
        def put(p, v): a, = p.atoms(); mp[ATOMS[a]] = of(v)[0]
        for i, d in enumerate(self.ds): put(x.p0[d], c.k['pml_%s0' % d]); put(x.p1[d], c.k['pml_%s1' % d]); put(x.n[d], self.n[i])
        return x, (lambda p: map_atoms(P(p), lambda k: mp.get(k)))
    def geometry(self, c):
        fwd = c.pas == 'forward'; E = eqs.EQS[self.eq]; x, sub = self.ctx_sub(c)
        s = E[c.pas](x, sym('t')); dom = {}
        for st in s.order:
            if st.kind == 'update': dom[st.arr] = st.dom
        pr = [q for q in E['pairs'](x, fwd) if q[0] in c.k]
        for a, b in pr:
            if a in dom or b in dom: dom[a] = dom[b] = dom.get(a) or dom.get(b)
        z = E['zero'](x, fwd); df = E['dom'](x)
        def domain(n): return [tuple(sub(v) for v in df(d, dom[n][d])) for d in self.ds]
        def box(n): return [(d, sub(lo), sub(hi)) for d, lo, hi in z(n)]
        return dom, pr, domain, box
    def on_call(self, f, args):
        c = Call(self, f, args); it = self.it; nm = lambda n: '%s: %s' % (c.pas, n); self.calls.append(c)
        if not it.true(nm('number of arguments'), len(args) == len(c.names), '%d arguments for %s, which takes %d' % (len(args), c.name, len(c.names))): raise Enough()
        it.true(nm('the function for this equation, dimension, accuracy and type'), (c.eq, c.nd, c.acc) == (self.eq, self.nd, self.acc) and c.dt == {'float32': 'float', 'float64': 'double'}[self.dtype] and c.pas.startswith(self.where), c.name)
        for n, v, ty in zip(c.names, args, c.types): self.argtype(c, nm, n, v, str(ty))
        prev = self.calls[-2] if len(self.calls) > 1 and self.calls[-2].pas == c.pas else None
        if self.mode != 'check': self.scalars(c, nm)
        if self.mode != 'check' and self.values: self.contents(c, nm)
        self.order(c, nm, prev); self.state(c, nm, prev); self.callback(c, nm)
        self.effect(c); return 0
    def argtype(self, c, nm, n, v, ty):
        it = self.it
        if n == 'unused': return
        if "'ptr'" in ty:
            ok = isinstance(v, Ptr) or (n.endswith('filenames_ptr') and (isinstance(v, FakeFiles) or not isinstance(v, (int, float, S))))
            if not it.true(nm('%s is an array' % n), ok, repr(v)[:100]): raise Enough()
            if isinstance(v, Ptr):
                it.true(nm('%s points to current memory' % n), v.st is v.t.st); it.true(nm('%s is contiguous' % n), not v.t.noncontig and v.t.is_identity())
                w = 'int64' if "'int', 8" in ty else self.dtype
                if self.mode != 'check': it.true(nm('type of the elements of %s' % n), v.t.dtype.name == w or self.none_(v.t), '%s: %s, expected %s' % (n, v.t.dtype, w))
        else: it.true(nm('%s is a number' % n), isinstance(v, (int, float, S, B)) and not (of(v)[1] == 'f' and "'int'" in ty), repr(v)[:100])
    def none_(self, t): return Path.cur.known(eq(sz(t.numel()), 0)) is True
    def rgs(self, n):
        """does the (averaged) model behind a parameter need a gradient"""
        e = self.eq
        if e == 'acoustic': return (self.rg('v') or self.rg('rho')) if n == 'k' else self.rg('rho')
        if e == 'elastic': return self.rg('lamb') if n == 'lamb' else self.rg('mu') if n.startswith('mu') else self.rg('buoyancy')
        return self.rg(n)
    def src_rg(self, c):
        """do the (scaled) source amplitudes need a gradient"""
        if self.rg('amplitudes'): return True
        if self.eq == 'scalar': return self.rg('v')
        if self.eq == 'scalar_born': return self.rg('v') or (c == 'sc' and self.rg('scatter'))
        if self.eq == 'acoustic': return self.rgs('k' if c == 'p' else 'b')
        return c != 'p' and self.rg('buoyancy')
    def n_src(self, c):
        k = pub_src(self.eq, 'amplitudes', '' if self.eq == 'scalar_born' else c); return self.ns.get(k, 0)
    def n_rec(self, c): return self.nr.get(pub_rec(self.eq, c), 0)
    @property
    def none_mode(self): return self.storage == 'none'
    def scalars(self, c, nm):
        it, ds, p = self.it, self.ds, Path.cur; E = lambda n, v: it.equal(nm(n), c.num(n), v)
        isz = 4 if self.dtype == 'float32' else 8
        tot = ONE
        for x in self.n: tot = tot * of(x)[0]
        for n in c.names:
            m = re.match(r'rd([zyx])(2?)$', n)
            if m: h = self.h[ds.index(m.group(1))].p; E(n, inv(h * h) if m.group(2) else inv(h))
            elif n == 'dt': E(n, self.dt)
            elif n == 'dt2': E(n, self.dt.p * self.dt.p)
            elif n == 'n_shots': E(n, self.nb)
            elif n in ('nz', 'ny', 'nx'): E(n, self.n[ds.index(n[1])])
            elif n == 'step_ratio': E(n, self.q)
            elif n == 'storage_mode': E(n, MODE[self.storage])
            elif n == 'storage_compression': E(n, int(self.compress))
            elif n == 'shot_bytes_uncomp': E(n, tot * isz)
            elif n.startswith('n_sources'):
                k = self.n_src(comp_of(self.eq, n)); E(n, (k if self.src_rg(comp_of(self.eq, n)) else 0) if c.pas != 'forward' else k)
            elif n.startswith('n_receivers'): E(n, self.n_rec(comp_of(self.eq, n)))
            elif n.endswith('_requires_grad'): E(n, int(bool(self.rgs(n[:-14]) and not self.none_mode)))
            elif n.endswith('_batched'):
                if self.batched: it.cond(nm(n), or_(ne(c.num(n), 0), eq(self.nb, 1)))
                else: E(n, 0)
            elif n == 'n_threads': it.cond(nm('at least one thread'), le(1, c.num(n)))
        R = self.R
        for i, d in enumerate(ds):
            p0, p1 = c.num('pml_%s0' % d), c.num('pml_%s1' % d)
            it.cond(nm('order of the regions of %s' % d), and_(le(R, p0), le(p0, p1), le(p0, self.n[i] - R), le(p1, self.n[i] - R + (0 if self.reg else 1))))
        dom, pr, domain, box = self.geometry(c)
        for n in c.names:
            if c.t(n) is None or re.match(r'(ay|by|ax|bx|az|bz)$|[ab][zyx]h$|db([zyx])d', n) is None: continue
            d = re.search(r'[zyx]', n).group(0); i = ds.index(d)
            lo, hi = self.fd[2 * i] + self.pml[2 * i], self.n[i] - self.fd[2 * i + 1] - self.pml[2 * i + 1]
            if n.startswith('db'): lo, hi = lo + R, hi - R
            if n.endswith('h'): hi = hi - 1
            for _, x, y in box(n):
                with p.scope(lt(c.num('pml_%s0' % d), c.num('pml_%s1' % d))) as ok:
                    if ok: it.cond(nm('%s is zero where the layer terms are skipped' % n), and_(le(lo, x), le(y, hi)))
        # stored snapshots
        flags = {n: self.rgs(n) for n in PARAMS[self.eq]}
        steps = floordiv(of(self.nt + self.q - 1)[0], of(self.q)[0]); nb = of(self.nb)[0]
        for n in c.names:
            m = re.match(r'(.*)_store_1$', n)
            if not m or self.none_mode: continue
            nmx = m.group(1)
            need = {'w': self.rg('v') or self.rg('scatter') if self.eq == 'scalar_born' else self.rg('v'), 'wsc': self.rg('v'), 'k_grad': self.eq == 'acoustic' and self.rgs('k')}.get(nmx)
            if need is None: need = self.rgs('b') if self.eq == 'acoustic' else self.rg('buoyancy') if 'buoyancy' in nmx else self.rg('mu') or ('plus' not in nmx and self.rg('lamb'))
            if not need or (c.pas != 'forward' and not self.need_store(c, nmx)): continue
            T = lambda k: of(c.t('%s_store_%s' % (nmx, k)).numel())[0]; comp = c.num('shot_bytes_comp')
            if self.storage == 'disk':
                fl = c.k[nmx + '_filenames_ptr']; it.true(nm('%s: files' % nmx), isinstance(fl, FakeFiles), repr(fl))
                if isinstance(fl, FakeFiles): it.equal(nm('%s: one file per shot' % nmx), fl.n, self.nb)
                it.cond(nm('%s: room for a snapshot of every shot' % nmx), le(nb * tot, T('1')))
                if self.compress: it.cond(nm('%s: room for a compressed snapshot of every shot' % nmx), le(nb * comp, T('2') * isz))
            elif self.compress:
                it.cond(nm('%s: room for a snapshot of every shot' % nmx), le(nb * tot, T('1')))
                it.cond(nm('%s: room for all compressed snapshots' % nmx), le(steps * nb * comp, T('2') * isz))
            else: it.cond(nm('%s: room for all snapshots' % nmx), le(steps * nb * tot, T('1')))
        if self.compress and not self.none_mode:
            nbk = ONE
            for x in self.n: nbk = nbk * floordiv(of(x + 7)[0], P(8))
            it.cond(nm('bytes of a compressed snapshot'), le(tot + nbk * isz, c.num('shot_bytes_comp')))
            it.cond(nm('compressed snapshots stay aligned'), eq(c.num('shot_bytes_comp') - floordiv(c.num('shot_bytes_comp'), P(isz)) * isz, 0))
    def need_store(self, c, nmx): return True
    def idx(self):
        p = Path.cur; s = p.fresh('s', 'i'); ix = [p.fresh('i' + d, 'i') for d in self.ds]
        assume(le(0, s)); assume(lt(s, of(self.nb)[0]))
        for i, n in zip(ix, self.n): assume(le(0, i)); assume(lt(i, of(n)[0]))
        return s, ix
    def shape(self, name, t, want):
        self.it.true(name + ': dimensions', len(t.shape_) == len(want), '%s, expected %s' % (t.shape_, want))
        if len(t.shape_) == len(want):
            for a, b in zip(t.shape_, want): self.it.equal(name + ': size', sz(a), sz(b))
    def contents(self, c, nm):
        """read-only arrays hold what their names say"""
        it, ds, p = self.it, self.ds, Path.cur; s, ix = self.idx(); P_ = self.prep; mb = lambda t: (s if self.batched else ZERO)
        if self.batched and Path.cur.known(eq(self.nb, 1)) is True: mb = lambda t: ZERO
        def model(n, key, f=lambda x: x):
            t = c.t(n); M = P_[key]; self.shape(nm(n), t, M.shape_); it.equal(nm('contents of ' + n), c.at(n, mb(t), *ix), f(M.at(mb(t), *ix)))
        for n in c.names:
            t = c.t(n)
            if t is None: continue
            if n in ('v', 'scatter', 'lamb', 'mu'): model(n, 'model ' + n)
            elif n == 'v2dt2': model(n, 'model v', lambda x: x * x * self.dt.p * self.dt.p)
            elif n == 'k' or n.startswith('mu_') or n.startswith('buoyancy_'): model(n, 'average ' + n)
            elif re.match(r'[ab][zyx]h?$|db', n):
                d = re.search(r'[zyx]', n).group(0); i = ds.index(d); it.equal(nm(n + ': size'), sz(t.numel()), sz(self.n[i])); w = self.prof['profile ' + ('db' + d if n.startswith('db') else n)]
                z = lambda t: [ix[i] if len(t.shape_) == 1 else ZERO] if len(t.shape_) == 1 else [ZERO] * (len(t.shape_) - len(ds)) + [ix[i] if j == i else ZERO for j in range(len(ds))]
                it.equal(nm('contents of ' + n), c.at(n, *z(t)), w.at(*z(w)))
            elif n.startswith('sources') or n.startswith('receivers'):
                cp = comp_of(self.eq, n); src = n.startswith('sources'); k = self.n_src(cp) if src else self.n_rec(cp)
                if not issym(k) and k == 0: it.equal(nm(n + ' is empty'), sz(t.numel()), 0); continue
                w = P_['cells ' + (pub_src(self.eq, 'locations', '' if self.eq == 'scalar_born' else cp) if src else pub_rec(self.eq, cp))]; self.shape(nm(n), t, w.shape_); j = p.fresh('j', 'i')
                with p.scope(le(0, j), lt(j, sz(k))) as ok: it.equal(nm('contents of ' + n), c.at(n, s, j), w.at(s, j))
            elif re.match(r'f(sc)?$|f_', n): self.source(c, nm, n, s)
            elif n.startswith('grad_r'):
                cp = comp_of(self.eq, n); k = self.n_rec(cp)
                if not issym(k) and k == 0: continue
                w = self.gr[cp]; self.shape(nm(n), t, w.shape_); tt, j = p.fresh('t', 'i'), p.fresh('j', 'i')
                with p.scope(le(0, tt), lt(tt, sz(self.nt)), le(0, j), lt(j, sz(k))) as ok: it.equal(nm('contents of ' + n), c.at(n, tt, s, j), w.at(tt, s, j))
    def source(self, c, nm, n, s):
        it, p, e = self.it, Path.cur, self.eq; cp = comp_of(e, n); k = self.n_src(cp); t = c.t(n)
        if not issym(k) and k == 0: it.equal(nm(n + ' is empty'), sz(t.numel()), 0); return
        A = self.prep['amplitudes ' + pub_src(e, 'amplitudes', '' if e == 'scalar_born' else cp)]; L = self.prep['cells ' + pub_src(e, 'locations', '' if e == 'scalar_born' else cp)]
        self.shape(nm(n), t, (self.nt, self.nb, k)); tt, j = p.fresh('t', 'i'), p.fresh('j', 'i'); l = L.at(s, j)
        with p.scope(le(0, tt), lt(tt, sz(self.nt)), le(0, j), lt(j, sz(k)), le(0, l), lt(l, self.tot)) as ok:
            a = A.at(tt, s, j); dt = self.dt.p
            def M(key):
                m = self.prep[key]; return m.reshape(m.shape_[0], mk(self.tot, 'i')).at(s if self.batched else ZERO, l)
            if e == 'scalar': w = -a * M('model v') * M('model v') * dt * dt
            elif e == 'scalar_born': w = -2 * a * M('model v') * M('model scatter') * dt * dt if cp == 'sc' else -a * M('model v') * M('model v') * dt * dt
            elif e == 'acoustic': w = a * M('average k' if cp == 'p' else 'average buoyancy_' + cp) * dt
            else: w = -a * dt if cp == 'p' else a * M('average buoyancy_' + cp) * dt
            it.equal(nm('contents of ' + n), c.at(n, tt, s, j), w)
    def order(self, c, nm, prev):
        """the calls cover the time steps once, in order"""
        it = self.it; t0, n = c.num('start_t'), c.num('nt')
        if c.pas == 'forward': c.end = t0 + n; first = ZERO
        else: c.end = t0 - n; first = of(self.nt)[0]
        if self.mode in ('single', 'base'): it.equal(nm('the first call starts at the first time step'), t0, first); it.true(nm('one call before the loop continues'), prev is None)
        elif self.mode == 'check': it.equal(nm('the next call starts where the last one ended'), t0, prev.end)
        elif self.mode is None: raise Unsupported('a compiled function is called outside the time loop')
        if self.mode != 'check': it.cond(nm('every call makes at least one step'), le(1, n)); it.cond(nm('no step beyond the range'), le(c.end, self.nt) if c.pas == 'forward' else le(0, c.end))
    def written(self, c, dom):
        for n in c.names:
            if c.t(n) is None: continue
            if n in dom and not n.endswith('_store_1') and not n.endswith('_thread'): yield n, 'state'
            elif (re.match(r'r(sc)?$|r_', n) if c.pas == 'forward' else n.startswith('grad_f')): yield n, 'record'
            elif c.pas != 'forward' and n.startswith('grad_') and not n.startswith('grad_r') : yield n, ('thread' if n.endswith('_thread') else 'model')
            elif re.search(r'_store_(1|2|3)$', n): yield n, 'store'
    def state(self, c, nm, prev):
        it, p = self.it, Path.cur; dom, pr, domain, box = self.geometry(c); aux = {b for a, b in pr} - {'wfp', 'wfpsc'}
        s, ix = self.idx(); fwd = c.pas == 'forward'; c.dom = dom; ds = self.ds
        isz = len(ds); seen = {}
        for n, kind in self.written(c, dom):
            t = c.t(n); st = t.st
            if kind == 'state':
                if self.mode != 'check' : self.shape(nm(n), t, [self.nb] + self.n)
                if id(st) in seen: it.true(nm('%s and %s are different arrays' % (n, seen[id(st)])), False)
                seen[id(st)] = n
                if self.mode == 'assume': continue
                D = domain(n); X = box(n); v = c.at(n, s, *ix)
                with p.scope(*[c2 for i, (lo, hi) in zip(ix, D) for c2 in ()]):
                    for i, d, (lo, hi) in zip(ix, ds, D):
                        for side, q in (('before', lt(i, lo)), ('after', le(hi, i))):
                            with p.scope(q) as ok:
                                if ok and not p.dead(): it.equal(nm('%s is zero %s its domain in %s' % (n, side, d)), c.at(n, s, *ix), ZERO)
                    for d, lo, hi in X:
                        i = ix[ds.index(d)]
                        with p.scope(lt(c.num('pml_%s0' % d), c.num('pml_%s1' % d)), le(lo, i), lt(i, hi)) as ok:
                            if ok and not p.dead(): it.equal(nm('%s is zero between the layers of %s' % (n, d)), c.at(n, s, *ix), ZERO)
                if self.mode in ('single', 'base'): self.initial(c, nm, n, s, ix, D, X, aux)
                elif n not in aux:
                    with p.scope(*[x for i, (lo, hi) in zip(ix, D) for x in (le(lo, i), lt(i, hi))]) as ok:
                        if ok: it.equal(nm('%s continues from the last call' % n), c.at(n, s, *ix), self.cur[n](tuple([s] + ix)))
            elif kind == 'record':
                k = self.n_rec(comp_of(self.eq, n)) if fwd else self.n_src(comp_of(self.eq, n))
                if not fwd and not self.src_rg(comp_of(self.eq, n)): k = 0
                if not issym(k) and k == 0: continue
                if self.mode != 'check': self.shape(nm(n), t, (self.nt, self.nb, k))
                if self.mode == 'assume': continue
                tt, j = p.fresh('t', 'i'), p.fresh('j', 'i')
                with p.scope(le(0, tt), lt(tt, sz(self.nt)), le(0, j), lt(j, sz(k))) as ok: it.equal(nm('%s: %s' % (n, 'starts at zero' if self.mode != 'check' else 'kept between calls')), c.at(n, tt, s, j), ZERO if self.mode != 'check' else self.cur[n]((tt, s, j)))
            elif kind == 'store':
                if self.mode == 'check' or (not fwd and self.mode != 'assume'): it.true(nm('%s: the same memory in every call' % n), self.stores.get(n) is st)
                if fwd: self.stores[n] = st
                if fwd and n.endswith('_store_1') and not self.none_(t):
                    it.true(nm('%s: memory of its own' % n), [m for m, x in self.stores.items() if x is st] == [n], str([m for m, x in self.stores.items() if x is st]))
            elif kind in ('model', 'thread'):
                m = n.replace('grad_', '').replace('_thread', ''); m = {'by': 'buoyancy_y', 'bx': 'buoyancy_x', 'bz': 'buoyancy_z'}.get(m, m)
                if not self.rgs(m if self.eq != 'acoustic' or m == 'k' else 'b') or self.none_mode: continue
                if kind == 'model':
                    c.grads[n] = m
                    if self.mode != 'check': self.shape(nm(n), t, self.prep[('model ' if 'model ' + m in self.prep else 'average ') + m].shape_)
                    if self.mode != 'assume': it.equal(nm('%s: %s' % (n, 'starts at zero' if self.mode != 'check' else 'kept between calls')), c.at(n, s if self.batched else ZERO, *ix), ZERO if self.mode != 'check' else self.cur[n](tuple([s if self.batched else ZERO] + ix)))
                else:
                    g = c.t(n[:-7])
                    one = self.batched or decide(le(c.num('n_threads'), 1))
                    if self.batched and not decide(lt(1, of(self.nb)[0])): one = None
                    if one is None: continue
                    if one: it.true(nm('%s: the gradient itself' % n), st is g.st)
                    else:
                        it.true(nm('%s: memory of its own' % n), st is not g.st)
                        it.cond(nm('%s: room for every thread' % n), le(c.num('n_threads') * self.tot, sz(t.numel())))
                        k = p.fresh('tid', 'i')
                        if self.mode != 'assume':
                            with p.scope(le(0, k), lt(k, c.num('n_threads'))) as ok: it.equal(nm('%s is zero at the start of every call' % n), c.at(n, k, *ix), ZERO)
    def initial(self, c, nm, n, s, ix, D, X, aux):
        """the state before the first step: the given wavefields (backward: the gradients of the returned wavefields)"""
        it, p, ds = self.it, Path.cur, self.ds
        if n in aux: return
        u = state_of(self.eq, n); sign = 1
        if c.pas == 'forward': W = self.prep.get('wave ' + u) if self.user.get(u) is not None else None
        else:
            W = self.gw[u]; sign = -1 if n in ('wfp', 'wfpsc') else 1
        with p.scope(*[x for i, (lo, hi) in zip(ix, D) for x in (le(lo, i), lt(i, hi))]) as ok:
            if not ok: return
            v = c.at(n, s, *ix); jx = [i - self.fd[2 * k] for k, i in enumerate(ix)]
            if W is None: it.equal(nm('%s starts at zero' % n), v, ZERO); return
            w = W.at(s, *jx) * sign
            if not X: it.equal(nm('%s starts from the given values' % n), v, w)
            for d, _, _ in X:
                k = ds.index(d); half = 1 if c.dom[n][d] == 'h' else 0; i = ix[k]
                lo, hi = self.fd[2 * k] + self.pml[2 * k], self.n[k] - self.fd[2 * k + 1] - self.pml[2 * k + 1] - half
                for q in (lt(i, sz(lo)), le(sz(hi), i)):
                    with p.scope(q) as ok:
                        if ok and not p.dead(): it.equal(nm('%s starts from the given values in the layers' % n), c.at(n, s, *ix), w)
    def effect(self, c):
        p = Path.cur; dom, pr, domain, box = self.geometry(c); odd = None; self.ncalls = getattr(self, 'ncalls', 0) + 1
        if pr: odd = not decide(eq(c.num('nt') - 2 * floordiv(c.num('nt'), P(2)), 0))
        new = {}; uid = '%s%d' % (c.pas, len(self.calls))
        part = {a: b for a, b in pr}; part.update({b: a for a, b in pr})
        for n, kind in self.written(c, dom):
            t = c.t(n)
            if kind == 'store': continue
            if kind in ('model', 'thread') :
                m = n.replace('grad_', '').replace('_thread', ''); m = {'by': 'b', 'bx': 'b', 'bz': 'b'}.get(m, m)
                if not self.rgs(m) or self.none_mode: continue
            if kind == 'thread' and t.st is c.t(n[:-7]).st: continue
            if kind == 'record':
                k = self.n_rec(comp_of(self.eq, n)) if c.pas == 'forward' else self.n_src(comp_of(self.eq, n))
                if self.none_(t): continue
            fn = (lambda nmx: lambda ix: Poly.at(atom('sel', nmx, 'f', tuple(map(num_, ix)))))('%s:%s' % (uid, n))
            if kind == 'state':
                D = domain(n); X = [x for x in box(n)]
                cz = [or_(lt(P(0), P(0)))] if False else []
                def mkfn(fn, D, X):
                    def g(ix):
                        inside = and_(*[and_(le(lo, i), lt(i, hi)) for i, (lo, hi) in zip(ix[1:], D)])
                        bx = or_(*[and_(lt(c.num('pml_%s0' % d), c.num('pml_%s1' % d)), le(lo, ix[1 + self.ds.index(d)]), lt(ix[1 + self.ds.index(d)], hi)) for d, lo, hi in X]) if X else FALSE
                        return pt.ite_val(and_(inside, not_(bx)), fn(ix), ZERO)
                    return g
                fn = mkfn(fn, D, X)
            new[n] = (t, fn)
        for n, (t, fn) in new.items(): t.st.write(fn)
        self.cur = dict(getattr(self, 'cur', {}))
        for n, (t, fn) in new.items():
            m = part[n] if n in part and odd else n      # after an odd number of steps the two buffers of a pair have exchanged roles
            self.cur[m] = fn
    def callback(self, c, nm):
        it = self.it
        if not self.cb: it.true(nm('no callback was given'), not self.cbs); return
        if c.pas == 'forward':
            if not it.true(nm('one callback before every call'), len(self.cbs) == 1, '%d callbacks' % len(self.cbs)): return
            st = self.cbs.pop(); self.cbstate(c, nm, st, 'forward'); it.equal(nm('step number of the callback'), of(st.step)[0] * of(self.q)[0], c.num('start_t'))
            if self.mode in ('single', 'base'): it.equal(nm('first callback at step 0'), of(st.step)[0], 0)
            if self.mode == 'check': it.equal(nm('callbacks every callback_frequency steps'), of(st.step)[0] - self.laststep, of(self.cf)[0])
            self.laststep = of(st.step)[0]
        else:
            if self.mode == 'check': self.after(nm, self.calls[-2])
    def after(self, nm, c):
        """a backward callback follows the call"""
        it = self.it
        if not it.true(nm('one callback after every call'), len(self.cbs) == 1, '%d callbacks' % len(self.cbs)): return
        st = self.cbs.pop(); self.cbstate(c, nm, st, 'backward')
        it.equal(nm('step number of the callback'), of(st.step)[0] * of(self.q)[0], c.end)
    def cbstate(self, c, nm, st, where):
        it = self.it; names = {state_of(self.eq, n): n for n in c.names if state_of(self.eq, n)}
        have = {}
        for u in names:
            try: have[u] = st.get_wavefield(u, 'full')
            except KeyError: pass
        it.true(nm('callback: the wavefields'), set(have) == set(names), str(sorted(set(have) ^ set(names))))
        p = Path.cur; s, ix = self.idx()
        for u, n in names.items():
            if u not in have: continue
            t = have[u]; self.it.true(nm('callback: %s covers the grid' % u), len(t.shape_) == 1 + self.nd)
            want = c.fn[n](tuple([s] + ix)) if where == 'forward' else self.cur[n](tuple([s] + ix))
            it.equal(nm('callback: %s' % u), t.at(s, *ix), want)
        self.view(nm, 'wavefield', u, st.get_wavefield, s, ix)
        it.equal(nm('callback: dt'), num_(st.dt), num_(self.dt))
        pub = {'k': 'K'}; pub.update({'buoyancy_' + d: 'B' + d for d in 'zyx'}) if self.eq == 'acoustic' else None
        bm = s if self.batched else ZERO
        for n in [n for n in c.names if n in ('v', 'scatter', 'lamb', 'mu', 'k') or re.match(r'(mu|buoyancy)_[zyx]+$', n)]:
            if c.pas == 'backward_sc' and n == 'v': continue
            q = pub.get(n, n)
            try: t = st.get_model(q, 'full')
            except KeyError: it.true(nm('callback: model ' + q), False, 'not there'); continue
            it.equal(nm('callback: model ' + q), t.at(bm, *ix), c.fn[n](tuple([bm] + ix)))
            self.view(nm, 'model', q, st.get_model, bm, ix)
        if where == 'backward':
            for g, n in self.gnames(c).items():
                if not self.rgs(n if self.eq != 'acoustic' or n == 'k' else 'b') or self.none_mode: continue
                q = pub.get(n, n)
                try: t = st.get_gradient(q, 'full')
                except KeyError: it.true(nm('callback: gradient ' + q), False, 'not there'); continue
                it.equal(nm('callback: gradient ' + q), t.at(bm, *ix), self.cur[g](tuple([bm] + ix)))
                self.view(nm, 'gradient', q, st.get_gradient, bm, ix)
    def view(self, nm, what, u, get, s, ix):
        """the views of one array"""
        if (what, self.mode) in self.viewed: return
        self.viewed.add((what, self.mode)); it = self.it; full = get(u, 'full'); p = Path.cur
        for v, off, size in (('inner', [self.fd[2 * k] + self.pml[2 * k] for k in range(self.nd)], self.inner), ('pml', self.fd[::2], self.N)):
            t = get(u, v); self.shape(nm('callback: %s view of a %s' % (v, what)), t, [full.shape_[0]] + size)
            with p.scope(*[lt(i, z) for i, z in zip(ix, size)]) as ok:
                if ok: it.equal(nm('callback: %s view of a %s' % (v, what)), t.at(s, *ix), full.at(s, *[i + num_(o) for i, o in zip(ix, off)]))
        self.shape(nm('callback: default view of a ' + what), get(u), [full.shape_[0]] + self.inner)
    def finish_forward(self):
        it, p = self.it, Path.cur; nm = lambda n: 'result: ' + n
        fc = [c for c in self.calls if c.pas == 'forward']
        if not it.true(nm('the compiled function is called'), bool(fc)): return
        c = fc[-1]; it.equal(nm('the calls reach the last time step'), c.end, of(self.nt)[0])
        names = self.states; R = rcomps(self.eq, self.nd); out = list(self.out)
        if not it.true(nm('number of results'), len(out) == len(names) + len(R), '%d' % len(out)): return
        s = p.fresh('s', 'i'); assume(le(0, s)); assume(lt(s, sz(self.nb))); jx = [p.fresh('j' + d, 'i') for d in self.ds]
        for j, n in zip(jx, self.N): assume(le(0, j)); assume(lt(j, sz(n)))
        back = {state_of(self.eq, n): n for n in c.names if state_of(self.eq, n)}
        for u, t in zip(names, out):
            self.shape(nm(u), t, [self.nb] + self.N)
            it.equal(nm(u), t.at(s, *jx), self.cur[back[u]](tuple([s] + [j + self.fd[2 * k] for k, j in enumerate(jx)])))
        rc = [n for n in c.names if re.match(r'r(sc)?$|r_', n)]; order = {comp_of(self.eq, n): n for n in rc}
        want = self.rec_order(); isn = lambda t, k: any(ATOMS[x][0] == 'sel' and ATOMS[x][1] == 'resampled%d' % k for x in t.at(ZERO, ZERO, ZERO).atoms())
        for cp, t in zip(want, out[len(names):]):
            k = self.n_rec(cp); n = order[cp]
            if not issym(k) and k == 0: it.equal(nm('%s is empty' % n), sz(t.numel()), 0); self.tagged['rec', cp] = next((r[2] for r in self.raw if r[3] is t), t); continue
            r = next((r for j, r in enumerate(self.raw) if not self.none_(r[2]) and isn(t, j)), None)
            if not it.true(nm('receiver data %s are resampled' % n), r is not None): continue
            self.downargs(nm, r); self.tagged['rec', cp] = x = r[2]
            self.shape(nm(n), x, (self.nt, self.nb, k)); self.shape(nm(n), t, r[3].shape_); tt, j = p.fresh('t', 'i'), p.fresh('j', 'i')
            with p.scope(le(0, tt), lt(tt, sz(self.nt)), le(0, j), lt(j, sz(k))) as ok: it.equal(nm('receiver data ' + n), x.at(tt, s, j), self.cur[n]((tt, s, j)))
            with p.scope(le(0, tt), lt(tt, sz(r[3].shape_[2])), le(0, j), lt(j, sz(k))) as ok: it.equal(nm('receiver data %s: scale' % n), t.at(s, j, tt), r[3].at(s, j, tt) * (Fraction(-1, self.nd) if self.eq == 'elastic' and cp == 'p' else 1))
        for u, t in zip(self.states, self.out): self.tagged[('state', u)] = t
    def rec_order(self): return {'scalar': [''], 'scalar_born': ['', 'sc'], 'acoustic': ['p'] + list(self.ds), 'elastic': ['p'] + list(self.ds)}[self.eq]
    def downargs(self, nm, ak):
        import inspect
        a, k = ak[:2]; f = self.real_down; b = inspect.signature(f).bind(*a, **k).arguments; U = self.user; it = self.it
        it.equal(nm('resampling by the step ratio'), of(b['step_ratio'])[0], of(self.ratio)[0])
        for x in ('freq_taper_frac', 'time_pad_frac', 'time_taper'): it.true(nm('resampling with ' + x), b.get(x) is U[x], repr(b.get(x)))
    def backward(self):
        it, p = self.it, Path.cur; eq_, nd = self.eq, self.nd; F = self.F; ctx = F.last_ctx; fargs = F.last_args
        if not any(isinstance(a, Tensor) and a.requires_grad for a in fargs): return
        fc = self.calls[-1]; nm = lambda n: 'gradient: ' + n
        # which input of the autograd function became which argument of the compiled function
        who = {}
        for i, a in enumerate(fargs):
            if not isinstance(a, Tensor): continue
            for n in fc.names:
                t = fc.t(n)
                if t is not None and (t is a or getattr(t, 'origin', None) is a) and not self.none_(a): who[i] = n
            for u in self.states:
                if self.prep.get('wave ' + u) is not None and a is self.prep['wave ' + u]: who[i] = [n for n in fc.names if state_of(eq_, n) == u][0]
        self.gw, self.gr, grads = {}, {}, []
        for u in self.states:
            g = self.arr('grad_of_' + u, [self.nb] + self.N); g.noncontig = True; self.gw[u] = g
        order = {state_of(eq_, n): n for n in fc.names if state_of(eq_, n)}
        for cp in rcomps(eq_, nd):
            k = self.n_rec(cp); g = self.arr('grad_of_r' + cp, (self.nt, self.nb, k)) if issym(k) or k else pt.empty(0, dtype=self.D); g.noncontig = True; self.gr[cp] = g
        raw = F.last_out
        for t in raw:
            u = next((n for n, o in self.tagged.items() if o is t), None)
            if u is None and isinstance(t, Tensor) and self.none_(t): grads.append(pt.empty(0, dtype=self.D)); continue
            if u is None: raise Unsupported('output of the autograd function')
            grads.append(self.gw[u[1]] if u[0] == 'state' else self.gr[u[1]])
        self.mode = None
        res = F.backward(ctx, *grads)
        bc = [c for c in self.calls if c.pas != 'forward']
        if not it.true(nm('the compiled function is called'), bool(bc)): return
        c = bc[-1]; it.equal(nm('the calls reach the first time step'), c.end, ZERO)
        if self.cb: self.mode = 'after'; self.after(lambda n: c.pas + ': ' + n, c)
        res = list(res); it.true(nm('one result per input'), len(res) == len(fargs), '%d results, %d inputs' % (len(res), len(fargs)))
        if c.pas == 'backward_sc': it.true(nm('the scattered-only pass only when nothing else needs a gradient'), not self.rg('v') and not self.rg('amplitudes') and not self.rg('wavefields'))
        s, ix = self.idx(); jx = [p.fresh('j' + d, 'i') for d in self.ds]
        for j, n in zip(jx, self.N): assume(le(0, j)); assume(lt(j, sz(n)))
        for i, (a, r) in enumerate(zip(fargs, res)):
            n = who.get(i)
            if not isinstance(a, Tensor) or not a.requires_grad:
                if not isinstance(a, Tensor): it.true(nm('no gradient for input %d' % i), r is None, repr(r)[:60])
                continue
            if n is None: raise Unsupported('input %d of the autograd function' % i)
            if not it.true(nm('%s has one' % n), isinstance(r, Tensor)): continue
            self.shape(nm(n), r, a.shape_)
            if state_of(eq_, n):
                if n not in c.k: continue
                w = self.cur[n](tuple([s] + [j + self.fd[2 * k] for k, j in enumerate(jx)])); it.equal(nm('initial ' + n), r.at(s, *jx), -w if n in ('wfp', 'wfpsc') else w)
            elif re.match(r'f(sc)?$|f_', n):
                tt, j = p.fresh('t', 'i'), p.fresh('j', 'i'); g = 'grad_' + n
                with p.scope(le(0, tt), lt(tt, sz(self.nt)), le(0, j), lt(j, sz(a.shape_[2]))) as ok: it.equal(nm(n), r.at(tt, s, j), self.cur[g]((tt, s, j)))
            else:
                g = next((x for x, m in self.gnames(c).items() if m == n), None)
                b = s if self.batched else ZERO
                if self.none_mode: it.equal(nm(n + ' is zero without stored snapshots'), r.at(b, *ix), ZERO)
                elif g is None: it.true(nm('%s is returned by the compiled function' % n), False)
                else: it.equal(nm(n), r.at(b, *ix), self.cur[g](tuple([b] + ix)))
    def gnames(self, c):
        o = {}
        for n in c.names:
            if n.startswith('grad_') and not re.match(r'grad_(r|f)(_|sc|$)', n) and not n.endswith('_thread'):
                m = n[5:]; o[n] = {'by': 'buoyancy_y', 'bx': 'buoyancy_x', 'bz': 'buoyancy_z'}.get(m, m)
        return o
class Token:
    def __repr__(self): return 'token'

class Kept(Items):
    """the obligations whose name matches `keep` (the others belong to other properties); proved ones are only counted"""
    def __init__(self, unit, funcs, keep): Items.__init__(self, unit, funcs); self.keep = re.compile(keep) if keep else None; self.idx = {}
    def add(self, status, name, backend, detail=''):
        if status == 'proved':
            i = self.idx.get((name, backend))
            if i is not None: i['k'] += 1; return
            i = self.idx[name, backend] = dict(status=status, name=name, backend=backend, detail='', k=1); self.items.append(i); return
        Items.add(self, status, name, backend, detail)
    def skip(self, name): return self.keep is not None and not self.keep.search(name)
    def cond(self, name, *a, **k): return True if self.skip(name) else Items.cond(self, name, *a, **k)
    def equal(self, name, *a, **k): return True if self.skip(name) else Items.equal(self, name, *a, **k)
    def true(self, name, ok, detail=''): return ok if self.skip(name) else Items.true(self, name, ok, detail)

FUNCS = {'scalar': ['ScalarForwardFunc', 'ScalarBackwardFunc'], 'scalar_born': ['ScalarBornForwardFunc', 'ScalarBornBackwardFunc'], 'acoustic': ['AcousticForwardFunc', 'AcousticBackwardFunc'], 'elastic': ['ElasticForwardFunc', 'ElasticBackwardFunc']}
def t_drive(eq, nd, acc, keep=None, spoil=None, **kw):
    it = Kept('driver %s %dd accuracy %d %s' % (eq, nd, acc, ' '.join('%s=%s' % x for x in sorted(kw.items()))), ['deepwave.%s.%s' % (eq, f) for f in [eq] + FUNCS[eq]], keep)
    D = Drive(it, eq, nd, acc, spoil=spoil, **kw); modes = set()
    def run(p):
        D.begin(p)
        try: D.call()
        finally: modes.update((c.pas[:8], c.mode) for c in D.calls if c)
    pysym.paths(run)
    want = {(w, m) for w in (('forward', 'backward') if kw.get('what') == 'backward' else ('forward',)) for m in (('single', 'base', 'assume', 'check') if kw.get('cb') else ('single',))}
    missing = sorted(want - modes) if not kw.get('python') else []
    if missing or not getattr(D, 'completed', 0): it.add('undecided', 'every case of the time loop was reached', 'structural', str(missing))
    else: it.add('proved', 'every case of the time loop was reached', 'structural')
    return it

# ---- the declared argument types --------------------------------------------------------------------------------------------------
def t_types(eq, nd, spoil=False):
    """the types that Python declares for the compiled functions are those of the C parameters; the function for every configuration exists"""
    it = Items('declared types %s %dd' % (eq, nd), ['deepwave.backend_utils.get_backend_function', 'deepwave.backend_utils._assign_argtypes']); bu = pt.load('deepwave.backend_utils')
    import ctypes
    for acc in (2, 4, 6, 8):
        for dt, td in (('float', pt.float32), ('double', pt.float64)):
            for pas in abi.PASSES[eq]:
                name = abi.capi_name(eq, nd, acc, dt, pas)
                f = bu.get_backend_function(eq, nd, pas[:8].rstrip('_'), acc, td, pt.device('cpu'), '_sc' if pas.endswith('_sc') else '')
                if not it.true('%s: function' % name, f.__name__ == name, f.__name__): continue
                names, types = signature(name)[5], signature(name)[7]; at = f.argtypes
                if not it.true('%s: number of declared arguments' % name, at is not None and len(at) == len(types), '%s declared, %d parameters' % (len(at) if at else None, len(types))): continue
                it.true('%s: result' % name, f.restype is ctypes.c_int, str(f.restype))
                for n, a, t in zip(names, at, types):
                    if t[0] == 'ptr': ok = a is ctypes.c_void_p or hasattr(a, '_type_') and isinstance(a._type_, type) or a is ctypes.c_char_p
                    elif t[0] == 'flt': ok = a is (ctypes.c_float if t[1] == ('float' if not spoil else 'double') else ctypes.c_double)
                    else: ok = isinstance(a, type) and issubclass(a, ctypes._SimpleCData) and a._type_ not in 'fdgPzZO' and ctypes.sizeof(a) == t[1] and ((a(-1).value < 0) == bool(t[2]) or t[1] == 1)
                    it.true('%s: type of %s' % (name, n), ok, '%s declared for %s' % (a, t))
    return it

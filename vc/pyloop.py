"""Contracts of the Python propagators (<equation>_python) around their step functions: what each step is given, where the sources are added,
where and when the receivers are recorded, what is returned. The step functions are replaced by their contract (vc/pystep.py: new arrays, zero
outside their domains). Loops over the time range are treated by induction: the first iteration from the real initial state, an arbitrary iteration
followed by its successor (within a chunk and across chunks), and the last iteration followed by what is returned."""
import sys, inspect, re
from .pysym import *
from . import pysym, pytorch as pt, eqs, names
from .pytorch import sel, sz
from .terms import *
from .drive import Kept, Done, state_of, DN, SHEAR, comps
from .pystep import Py
from .cfront import Unsupported
IGN = -2 ** 31
MODES = ('inner', 'outer', 'last', 'first')

def arg_states(eq, nd):
    """public names of the wavefields in the order in which the propagators take and return them"""
    n = names.states(eq, nd)
    if eq != 'elastic': return n
    o = ['vz', 'sigmazz', 'sigmayz', 'sigmaxz', 'm_vzz', 'm_vzy', 'm_vzx', 'm_vyz', 'm_vxz', 'm_sigmazzz', 'm_sigmayzy', 'm_sigmaxzx', 'm_sigmayzz', 'm_sigmaxzz',
         'vy', 'sigmayy', 'sigmaxy', 'm_vyy', 'm_vyx', 'm_vxy', 'm_sigmayyy', 'm_sigmaxyy', 'm_sigmaxyx', 'vx', 'sigmaxx', 'm_vxx', 'm_sigmaxxx']
    return [x + '_0' for x in o if x + '_0' in n]

def scratch(frame):
    """names that the body of the loop that is being executed assigns before it reads them"""
    import ast, textwrap, inspect
    try: src, first = inspect.getsourcelines(frame.f_code); tree = ast.parse(textwrap.dedent(''.join(src)))
    except Exception: return set()
    best = None
    for n in ast.walk(tree):
        if isinstance(n, ast.For) and n.lineno <= frame.f_lineno - first + 1 <= n.body[0].lineno and (best is None or n.lineno >= best.lineno): best = n
    if best is None: return set()
    done = set(); read = set()
    def ex(n):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in done: read.add(x.id)
    def tgt(t, sure):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                if sure: done.add(x.id)
            elif isinstance(x, ast.Name) and x.id not in done: read.add(x.id)
    def st(b, sure):
        for n in b:
            if isinstance(n, ast.Assign):
                ex(n.value)
                for t in n.targets: tgt(t, sure)
            elif isinstance(n, ast.AnnAssign):
                if n.value: ex(n.value)
                tgt(n.target, sure)
            elif isinstance(n, ast.For):
                ex(n.iter); sv = set(done); tgt(n.target, True); st(n.body, True); st(n.orelse, True); done.clear(); done.update(sv)
            elif isinstance(n, (ast.If, ast.While)):
                ex(n.test); sv = set(done); st(n.body, True); a = set(done); done.clear(); done.update(sv); st(n.orelse, True); b_ = set(done); done.clear(); done.update(sv | (a & b_ if isinstance(n, ast.If) else set()))
            elif isinstance(n, ast.With):
                for i in n.items: ex(i.context_expr)
                st(n.body, sure)
            else: ex(n)
    st(best.body, True)
    return {x.id for x in ast.walk(best) if isinstance(x, ast.Name)} - read

class LoopShape(Unsupported): pass     # the time loop has a form that the induction does not know: nothing that was found stands
class Loop:
    """range() over the time steps; nested loops (chunks, steps of a chunk) or a single one"""
    def __init__(self, run, a): self.run = run; self.a = a
    def __iter__(self):
        R = self.run; a = [x.item() if isinstance(x, pt.Tensor) else x for x in self.a]
        a = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else tuple(a)
        (s, e, st) = (of(x)[0] for x in a); p = Path.cur; f = sys._getframe(1); depth = R.depth; mode = R.mode
        if st != ONE or depth > 1: raise LoopShape('the loops over the time steps')
        if depth == 0:
            R.tops += 1
            if R.tops > 1: raise LoopShape('more than one loop over the time steps')
        q = R.ratio.p
        def lemma(v): assume(le(0, (e - 1 - v) * q)); assume(le(0, (v - s) * q))     # consequences of s <= v < e that the solver is spared
        loc = lambda: {k: v for k, v in f.f_locals.items() if isinstance(v, (bool, int, float, S, B))}
        def same(before):
            now = loc(); scr = scratch(f); ch = [k for k in before if k not in scr and k in now and now[k] is not before[k] and not (type(now[k]) is type(before[k]) and not issym(now[k]) and now[k] == before[k])]
            if ch: raise LoopShape('the loop carries ' + ', '.join(ch))
        if depth == 0: R.inner = False
        R.depth = depth + 1
        if depth == 1: R.inner = True
        try:
            def start(v):
                if depth == 0: R.outer = v; R.once = False; R.called = 0
                return mk(v, 'i')
            if mode == 'first':
                lemma(s); R.it.cond('every range of time steps has a first one', lt(s, e)); assume(lt(s, e))
                yield start(s); return
            if mode == 'last' or (depth == 1 and mode == 'outer' and not R.second):
                v = e - 1; R.it.cond('every range of time steps has a last one', le(s, v)); assume(le(s, v)); lemma(s)
                yield start(v); return
            if depth == 1 and mode == 'outer':
                assume(lt(s, e)); yield start(s); return
            v = p.fresh('step', 'i'); assume(le(s, v)); assume(lt(v + 1, e)) if (depth == 1) == (mode == 'inner') else assume(lt(v, e)); lemma(v); b = loc()
            yield start(v)
            if mode == 'inner' and depth == 0:
                if R.inner: return
                assume(lt(v + 1, e))
            same(b)
            if depth == 0 and mode == 'outer' and not R.inner: return
            lemma(v + 1); R.second = True
            yield start(v + 1)
        finally: R.depth = depth

class Run(Py):
    def __init__(self, it, eq, nd, acc, mode, give='all', batched=True, spoil=None):
        Py.__init__(self, it, eq, nd, acc); self.mode = mode; self.give = give; self.batched = batched; self.bad = spoil
    def begin(self):
        nd, R = self.nd, self.R
        self.depth = 0; self.tops = 0; self.second = False; self.inner = False
        self.pml = [self._int('pml%d' % j, 0) for j in range(2 * nd)]; self.inn = [self._int('inner%d' % j, 1) for j in range(nd)]
        self.fd = [R, R] * nd if self.reg else [R, R - 1] * nd
        self.N = [self.inn[i] + self.pml[2 * i] + self.pml[2 * i + 1] for i in range(nd)]
        Py.begin(self)
        for i in range(nd): assume(eq(self.n[i].p, (self.N[i] + self.fd[2 * i] + self.fd[2 * i + 1]).p))
        self.n = [self.N[i] + self.fd[2 * i] + self.fd[2 * i + 1] for i in range(nd)]; self.nsub = {next(iter(self.ctx.n[d].atoms())): n.p for d, n in zip(self.ds, self.n)}
        self.nt = self._int('nt', 1); self.ratio = self._int('step_ratio', 1); self.cf = self._int('callback_frequency', 1)
        self.j = sym('j', 'i'); assume(le(0, self.j)); self.T = {}; self.scat = []; self.k = -1; self.rec = {}; self.nfresh = 0; self.part = 0; self.pending = {}; self.outer = None; self.once = False; self.called = 0
    # -- names: kernel parameter <-> position
    def knames(self):
        """kernel parameter of every wavefield argument, in the order of the arguments"""
        n = arg_states(self.eq, self.nd); e = eqs.EQS[self.eq]; ks = [k for k in e['kinds'](self.ctx, True)] + list(self.dom)
        mp = {}
        for k in ks:
            s = state_of(self.eq, k)
            if s: mp.setdefault(s, k)
        return [mp[x] for x in n]
    def call(self, m):
        nd, eqn, ds = self.nd, self.eq, self.ds; self.m = m; f = getattr(m, eqn + '_python'); sg = list(inspect.signature(f).parameters)
        self.h_ = [self.h[d] for d in ds]; nbm = self.nb if self.batched else 1
        model = lambda n: self._model(n, nbm)
        self.models = {'scalar': ['v'], 'scalar_born': ['v', 'scatter'], 'acoustic': ['k'] + ['buoyancy_' + d for d in ds]}.get(eqn) or ['lamb', 'mu'] + ['mu_' + x for x in SHEAR[nd]] + ['buoyancy_' + d for d in ds]
        M = [model(n) for n in self.models]; self.M = M
        cs = {'scalar': [''], 'scalar_born': [''], 'acoustic': ['p'] + list(ds), 'elastic': list(ds) + ['p']}[eqn]
        rs = {'scalar': [''], 'scalar_born': ['', 'sc']}.get(eqn, cs)
        some = lambda i: self.give == 'all' or i == 0
        E = lambda dt=pt.float32: pt.empty(0, dtype=dt)
        self.amp = {}; self.loc = {}; self.rloc = {}; A = []; SL = []; RL = []
        for i, c in enumerate(cs):
            ns = self._int('ns_' + (c or 'w'), 1)
            acs = ['', 'sc'] if eqn == 'scalar_born' else [c]
            for ac in acs: A.append(pt.array('amp_' + ac, (self.nt, self.nb, ns)) if some(i) else E()); self.amp[ac] = A[-1]
            SL.append(pt.array('loc_' + c, (self.nb, ns), pt.int64) if some(i) else E(pt.int64))
            for ac in acs: self.loc[ac] = SL[-1]
        for i, c in enumerate(rs):
            nr = self._int('nr_' + (c or 'w'), 1); RL.append(pt.array('rloc_' + c, (self.nb, nr), pt.int64) if some(i) else E(pt.int64)); self.rloc[c] = RL[-1]
        self.cs, self.rs = list(self.amp), rs
        self.kn = self.knames(); W = []
        self.user = {}
        for i, k in enumerate(self.kn):
            t = pt.array('user_' + k, (self.nb,) + tuple(self.N)) if self.give == 'all' else E(); W.append(t); self.user[k] = t
        pr, _, _ = self.lists(False); self.prof = pr
        kw = dict(pml_profiles=pr, grid_spacing=self.h_, dt=self.dt, nt=self.nt, step_ratio=self.ratio, accuracy=self.acc, pml_width=list(self.pml), n_shots=self.nb, forward_callback=self.callback, backward_callback=None, callback_frequency=self.cf,
                  storage_mode_str='device', storage_path='.', storage_compression=False)
        rest = []
        if self.reg:
            kw.update(v=M[0], source_amplitudes=A[0], sources_i=SL[0], receivers_i=RL[0])
            if eqn == 'scalar_born': kw.update(scatter=M[1], source_amplitudessc=A[1], unused_tensor=E(pt.int64), receiverssc_i=RL[1])
            rest = W
        else: rest = M + A + SL + RL + W
        var = [n for n, q in inspect.signature(f).parameters.items() if q.kind == q.VAR_POSITIONAL]
        if len(var) != 1 or any(n not in kw for n in sg if n not in var): raise Unsupported('parameters of %s' % f.__name__)
        self.cur = {k: ('init', k) for k in self.kn}
        stubs = {}
        for n in ('_forward_step', 'update_velocities', 'update_pressure', 'update_stresses'):
            if hasattr(m, n):
                o = (n if n.startswith('_') else '_' + n) + '_opt'
                if not hasattr(m, o): raise Unsupported('no ' + o)
                stubs[o] = (n, inspect.signature(getattr(m, n)))
        sv = {o: getattr(m, o) for o in stubs}
        for o, (n, s) in stubs.items(): setattr(m, o, self.stub(n, s))
        pt.RANGE = lambda *a: Loop(self, a); pt.SCATTER = self.scat
        try:
            out = f(*[kw[n] for n in sg if n not in var], *rest)
            if Path.cur.dead(): raise Infeasible()
            self.result(out)
        finally:
            for o, v in sv.items(): setattr(m, o, v)
            pt.RANGE = None; pt.SCATTER = None
    def _model(self, n, nbm): return pt.array(n, (nbm,) + tuple(self.n))
    # -- expected content of a state array at an index
    def inside(self, arr, ix): return and_(*[and_(le(lo, x), lt(x, hi)) for x, (lo, hi) in zip(ix[1:], self.range(arr))])
    def only(self, c, v):
        k = Path.cur.known(c); return v if k is True else ZERO if k is False else pt.ite_val(c, v, ZERO)
    def at(self, what, ix):
        """value of a state: ('init', array) before the first step; ('new', number, array) result of a step; ('val', reader) content seen before"""
        if what[0] == 'val': return what[1](ix)
        if what[0] == 'init':
            k = what[1]
            return self.only(self.inside(k, ix), sel('user_' + k, 'f', (ix[0],) + tuple(x - self.fd[2 * q] for q, x in enumerate(ix[1:])))) if self.user[k].ndim > 1 else ZERO
        return self.only(self.inside(what[2], ix), sel('new%d_%s' % what[1:], 'f', ix))
    def fresh(self, arr):
        self.nfresh += 1; w = ('new', self.nfresh, arr); self.cur[arr] = w
        return pt.Tensor((self.nb,) + tuple(self.n), lambda ix: self.at(w, ix))
    def flat(self, ix):
        k = ZERO
        for i, n in zip(ix[1:], self.n): k = k * n.p + i
        return k
    def scats(self, p): return [a for a in sorted(all_atoms(p)) if ATOMS[a][0] == 'sel' and ATOMS[a][1].startswith('scatter!')]
    def take(self, what, k, t):
        """tensor t holds the current content of state k, with the amplitudes of the sources of this step where they are due"""
        it = self.it
        if not isinstance(t, pt.Tensor) or len(t.shape_) != self.nd + 1: it.true('%s: %s is an array' % (what, k), False, repr(t)[:80]); raise Enough()
        for q, x in enumerate((self.nb,) + tuple(self.n)): it.equal('%s: size of axis %d of %s' % (what, q, k), t.shape_[q], x)
        self.content(what, k, t, t.reader(), self.i)
        self.cur[k] = ('val', t.reader())
    def content(self, what, k, t, rd, i, at=None):
        """rd(at): the value that belongs to cell i of state k"""
        it = self.it; ix = (self.s,) + tuple(i); at = at or ix; injected, step = self.pending.pop(k, ((), None))
        exp = self.at(self.cur[k], ix); v = rd(at); old = self.scats(exp); found = [a for a in self.scats(v) if a not in old]
        want = [c for c in injected if self.amp[c].ndim > 1]
        it.true('%s: sources added to %s' % (what, k), len(found) == len(want), '%d additions, expected %s' % (len(found), want))
        for a in found:
            it.equal('%s: cell of the amplitudes added to %s' % (what, k), ATOMS[a][3][1], self.flat(ix)); it.equal('%s: shot of the amplitudes added to %s' % (what, k), ATOMS[a][3][0], self.s)
            self.added(what, k, int(ATOMS[a][1].split('!')[1]), injected, step)
        cs = [self.inside(k, ix)]
        if self.cur[k][0] == 'init' and self.mem(k):
            # between the layers the profiles are zero (C08) and the initial content of a memory variable has no effect: it may be kept or cleared
            q, lo, hi = self.mem(k); box = and_(le(lo, ix[1 + q]), lt(ix[1 + q], hi)); cs.append(not_(box))
            with Path.cur.scope(cs[0], box) as ok:
                if ok:
                    v = rd(at); it.equal('%s: content of %s between the layers' % (what, k), v, self.total(k, ix, found) if clear(v - self.total(k, ix, found)).iszero() else ZERO)
        with Path.cur.scope(*cs) as ok:
            if ok: it.equal('%s: content of %s' % (what, k), rd(at), self.total(k, ix, found))
        if not found and not old:
            for q, (lo, hi) in enumerate(self.range(k)):
                for c in (lt(ix[1 + q], lo), le(hi, ix[1 + q])):
                    with Path.cur.scope(c) as ok:
                        if ok: it.equal('%s: %s is zero outside its domain' % (what, k), rd(at), ZERO)
    def mem(self, k):
        """(dimension, first, end) of the cells between the layers, for a memory variable"""
        z = eqs.EQS[self.eq]['zero'](self.ctx, True)(k if not self.reg or not k.startswith('psi') else k)
        if not z: return None
        d = z[0][0]; q = self.ds.index(d); lo = of(self.fd[2 * q] + self.pml[2 * q])[0]; return q, lo, lo + of(self.inn[q])[0] - (1 if self.dom[k][d] == 'h' else 0)
    def total(self, k, ix, found):
        e = self.at(self.cur[k], ix)
        for a in found: e = e + Poly.at(a)
        return e * 2 if self.bad == k else e
    def added(self, what, k, n, injected, step):
        it = self.it; idx, src = self.scat[n]; s, j = self.s, self.j
        x = src.at(s, j); T = [ATOMS[a] for a in all_atoms(x) if ATOMS[a][0] == 'sel' and ATOMS[a][1].startswith('amp_')]
        comp = {t[1][4:] for t in T}
        if not it.true('%s: amplitudes added to %s' % (what, k), len(comp) == 1 and comp <= set(injected), '%s, expected %s' % (comp, injected)): return
        c = comp.pop(); t = T[0][3][0]; self.time(what, t, step); L = self.loc[c]
        it.equal('%s: number of sources added to %s' % (what, k), idx.shape_[1], L.shape_[1]); it.equal('%s: number of amplitudes added to %s' % (what, k), src.shape_[1], L.shape_[1])
        cell = L.at(s, j); inr = lt(j, sz(L.shape_[1]))
        with Path.cur.scope(inr, eq(cell, IGN)) as ok:
            if ok: it.equal('%s: an ignored source adds nothing to %s' % (what, k), src.at(s, j), ZERO)
        with Path.cur.scope(inr, ne(cell, IGN)) as ok:
            if ok:
                it.equal('%s: cells of the sources added to %s' % (what, k), idx.at(s, j), cell); it.equal('%s: amplitudes added to %s at this time' % (what, k), src.at(s, j), self.amp[c].at(t, s, j))
    def time(self, what, t, step):
        """t is the time level of the step; the first mention defines it for an arbitrary step"""
        it = self.it
        if step in self.T: it.equal('%s: time of the step' % what, t, self.T[step]); return
        self.T[step] = t; it.cond('%s: the step lies in the range' % what, and_(le(0, t), lt(t, self.nt.p)))
        if self.mode == 'first': it.equal('the first step is step 0', t, ZERO)
        if self.mode == 'last': it.equal('the last step is step nt - 1', t, self.nt.p - 1)
        if step - 1 in self.T: it.equal('a step follows the step before it', t, self.T[step - 1] + 1)
    # -- the step functions by contract
    def stub(self, name, sig):
        def call(*a, **k): return self.on_step(name, sig.bind(*a, **k).arguments)
        return call
    def common_args(self, name, b):
        it = self.it; w = name
        for x, y in zip(b['grid_spacing'], self.h_): it.equal('%s: spacing' % w, x, y)
        it.equal('%s: dt' % w, b['dt'], self.dt); it.true('%s: accuracy' % w, b['accuracy'] == self.acc)
        it.true('%s: profiles' % w, len(b['pml_profiles']) == len(self.prof) and all(x is y for x, y in zip(b['pml_profiles'], self.prof)))
        ms = b['models'] if 'models' in b else [b['v']] + ([b['scatter']] if 'scatter' in b else [])
        it.true('%s: models' % w, len(ms) == len(self.M) and all(x is y for x, y in zip(ms, self.M)))
    def begin_step(self):
        self.k += 1
        if not self.once:
            self.once = True
            if self.inner and self.outer is not None:
                c = pysym.condof(mk(self.outer, 'i') % self.cf == 0); due = Path.cur.known(c)
                self.it.true('a callback exactly every callback_frequency steps', due is not None and bool(self.called) == due, 'due %s, called %s' % (due, self.called))
    def recorded(self, name):
        """what the receivers record at this step: the current content, by component"""
        self.rec[self.k] = dict(self.cur)
    def on_step(self, name, b):
        it = self.it; ds = self.ds; S_ = eqs.stress; nd = self.nd; k = None
        if self.depth == 0: raise LoopShape('a step outside the loops over range()')
        first = name in ('_forward_step', 'update_velocities')
        if first != (self.part == 0): it.true('order of the step functions', False, name); raise Enough()
        if first: self.begin_step()
        self.common_args(name, b)
        def many(ns, ts):
            if not it.true('%s: number of arrays' % name, len(ns) == len(ts)): raise Enough()
            for n, t in zip(ns, ts): self.take(name, n, t)
        def sq(nm, T):
            for i, d in enumerate(ds):
                for j, e in enumerate(ds):
                    if i != j: self.take(name, nm(d, e), T[i][j])
        if name == '_forward_step':
            ws = b['wavefields']; many(self.kn, ws); self.recorded(name); r = []; old = dict(self.cur)
            for kn in self.kn:
                if kn.startswith('wfp'): c = kn.replace('wfp', 'wfc'); r.append(ws[self.kn.index(c)]); self.cur[kn] = old[c]
                else: r.append(self.fresh(kn))
            self.pending['wfc'] = (('',), self.k)
            if self.eq == 'scalar_born': self.pending['wfcsc'] = (('sc',), self.k)
            return r
        V = ['v' + d for d in ds]; NS = [S_(d, d) for d in ds]; self.part = 1 - self.part; E = lambda: pt.empty(0)
        if self.eq == 'acoustic':
            if first:
                many(['p'] + V + ['psi_' + d for d in ds], [b['p'], *b['velocities'], *b['psi']])
                self.recorded(name); r = ([self.fresh(v) for v in V], [self.fresh('psi_' + d) for d in ds])
            else:
                many(['p'] + V + ['phi_' + d for d in ds], [b['p'], *b['velocities'], *b['phi']])
                r = (self.fresh('p'), [self.fresh('phi_' + d) for d in ds])
        else:
            many(V + NS, [*b['velocities'], *b['normal_stresses']]); sq(S_, b['shear_stresses'])
            ms = lambda a, c: 'm_' + S_(a, c) + c; mv = lambda a, c: 'm_v%s%s' % (a, c)
            grid = lambda nm: [[E() if i == j else self.fresh(nm(d, e)) for j, e in enumerate(ds)] for i, d in enumerate(ds)]
            if first:
                many([ms(d, d) for d in ds], b['s_mem_vars_normal']); sq(ms, b['s_mem_vars_shear'])
                self.recorded(name); r = ([self.fresh(v) for v in V], [self.fresh(ms(d, d)) for d in ds], grid(ms))
            else:
                many([mv(d, d) for d in ds], b['v_mem_vars_normal']); sq(mv, b['v_mem_vars_shear'])
                sh = {}
                for i, d in enumerate(ds):
                    for j, e in enumerate(ds):
                        if i < j: sh[i, j] = sh[j, i] = self.fresh(S_(d, e))
                r = ([self.fresh(x) for x in NS], [[E() if i == j else sh[i, j] for j in range(nd)] for i in range(nd)], [self.fresh(mv(d, d)) for d in ds], grid(mv))
        if first:
            for d in ds: self.pending['v' + d] = ((d,), self.k)
        else:
            for x in (['p'] if self.eq == 'acoustic' else NS): self.pending[x] = (('p',), self.k)
        return r
    # -- callbacks
    def callback(self, st):
        if self.depth == 0: raise LoopShape('a callback outside the loops over range()')
        it = self.it; self.called += 1
        it.true('callback: before the step', self.part == 0 and not self.once); it.equal('callback: dt', st.dt, self.dt)
        if self.outer is not None: it.equal('callback: step', st.step, self.outer)
        for u, kn in zip(arg_states(self.eq, self.nd), self.kn):
            try: t = st.get_wavefield(u, 'full')
            except KeyError: it.true('callback: wavefield %s' % u, False, 'missing'); continue
            self.take('callback', kn, t)
        pub = {'k': 'K'}
        if self.eq == 'acoustic': pub.update({'buoyancy_' + d: 'B' + d for d in 'zyx'})
        for n, M in zip(self.models, self.M):
            try: t = st.get_model(pub.get(n, n), 'full')
            except KeyError: it.true('callback: model %s' % n, False, 'missing'); continue
            it.equal('callback: model %s' % n, t.at(*[ZERO if not issym(x) else v for x, v in zip(M.shape_, [self.s] + self.i)]), M.at(*[ZERO if not issym(x) else v for x, v in zip(M.shape_, [self.s] + self.i)]))
        for v, off, size in (('inner', [self.fd[2 * q] + self.pml[2 * q] for q in range(self.nd)], self.inn), ('pml', self.fd[::2], self.N)):
            t = st.get_wavefield(names.states(self.eq, self.nd)[0], v)
            for q in range(self.nd): it.equal('callback: size of axis %d of the %s view' % (q, v), t.shape_[1 + q], size[q])
            ix = [i + of(o)[0] for i, o in zip(self.i, off)]
            with Path.cur.scope(*[lt(i, sz(x)) for i, x in zip(self.i, size)]) as ok:
                if ok: it.equal('callback: %s view' % v, t.at(self.s, *self.i), self.at(self.cur[self.kn[0]], (self.s,) + tuple(ix)))
    # -- what is returned
    def result(self, out):
        it = self.it; out = list(out); s = self.s; j = self.j
        if not it.true('number of results', len(out) == len(self.kn) + len(self.rs), '%d results' % len(out)): return
        it.true('the time steps are complete', self.part == 0 and self.k >= 0)
        for kn, t in zip(self.kn, out):
            if len(t.shape_) != self.nd + 1: it.true('result: dimensions of %s' % kn, False, str(len(t.shape_))); continue
            it.equal('result: shots of %s' % kn, t.shape_[0], self.nb)
            for q in range(self.nd): it.equal('result: size of axis %d of %s' % (q, kn), t.shape_[1 + q], self.N[q])
            with Path.cur.scope(*[lt(i, sz(x)) for i, x in zip(self.i, self.N)]) as ok:
                if ok: self.content('result', kn, t, t.reader(), [i + self.fd[2 * q] for q, i in enumerate(self.i)], (s,) + tuple(self.i))
        fl = pt.prod_(self.n)
        for c, t in zip(self.rs, out[len(self.kn):]):
            L = self.rloc[c]
            if L.ndim == 1: it.equal('result: no data without receivers %s' % c, t.numel(), 0); continue
            if not it.true('result: dimensions of the data %s' % c, len(t.shape_) == 3): continue
            for q, x in enumerate((self.nt, self.nb, L.shape_[1])): it.equal('result: size of axis %d of the data %s' % (q, c), t.shape_[q], x)
            src = self.source_of(c); cell = L.at(s, j); inr = lt(j, sz(L.shape_[1])); row = sym('row', 'i')
            for k in self.rec:
                if k not in self.T: raise Unsupported('time of a step without sources')
                for nm, cc in (('recorded data %s' % c, ne(cell, IGN)), ('data %s of an ignored receiver' % c, eq(cell, IGN))):
                    with Path.cur.scope(inr, cc, implies_(ne(cell, IGN), and_(le(0, cell), lt(cell, sz(fl))))) as ok:
                        if not ok: continue
                        if cc[1] == '==' : e = ZERO
                        else:
                            e = ZERO
                            for kn in src:
                                w = self.rec[k][kn]; g = pt.Tensor((self.nb,) + tuple(self.n), lambda ix, w=w: self.at(w, ix)); e = e + g.reshape(-1, fl).at(s, cell)
                        v = t.at(self.T[k], s, j)
                        if cc[1] == '==':
                            # cell 0 lies outside the model: no source is there (precondition: cells of sources lie inside, C09)
                            v = v.subst({a: ZERO for a in self.scats(v) if ATOMS[a][3][1] == ZERO})
                        it.equal('result: ' + nm, v, e * (2 if self.bad == 'r' else 1))
            with Path.cur.scope(inr, le(0, row), lt(row, self.nt.p), *[ne(row, self.T[k]) for k in self.rec]) as ok:
                if ok: it.equal('result: the data %s of the other steps are left as they are' % c, t.at(row, s, j), ZERO)
    def source_of(self, c):
        """the arrays whose sum a receiver component records"""
        if self.eq == 'scalar': return ['wfc']
        if self.eq == 'scalar_born': return ['wfc' + c]
        if c != 'p': return ['v' + c]
        return ['p'] if self.eq == 'acoustic' else [eqs.stress(d, d) for d in self.ds]

def t_loop(eq, nd, acc, give='all', batched=True, spoil=False, keep=None):
    m = pt.load('deepwave.' + eq); it = Kept('%s_python %dd accuracy %d, %s%s' % (eq, nd, acc, 'everything given' if give == 'all' else 'only one component given', '' if batched else ', one model'), ['%s.%s_python' % (eq, eq)], keep)
    for mode in MODES:
        def run(p):
            r = Run(it, eq, nd, acc, mode, give, batched, {'scalar': 'wfc', 'scalar_born': 'r', 'acoustic': 'p', 'elastic': 'r'}[eq] if spoil else None); r.begin()
            try: r.call(m)
            except Done: raise Unsupported('the loop was left early')
        try: paths(run)
        except LoopShape:
            for i in it.items:
                if i['status'] == 'refuted': i['status'] = 'undecided'
            raise
    return it

# ---- choice of the backend -----------------------------------------------------------------------------------------------------------
STEPS = {'scalar': ['_forward_step'], 'scalar_born': ['_forward_step'], 'acoustic': ['update_velocities', 'update_pressure'], 'elastic': ['update_velocities', 'update_stresses']}
def t_dispatch(eq, spoil=False):
    """<equation>_func: every python_backend value runs the propagator with the step functions of this module (as they are, or as torch.jit / torch.compile return them), with the same arguments"""
    m = pt.load('deepwave.' + eq); it = Items('%s_func' % eq, ['deepwave.%s.%s_func' % (eq, eq)]); d = m.__dict__; torch = d['torch']; bu = pt.load('deepwave.backend_utils')
    class Same:
        def __init__(self, kind, f): self.kind, self.f = kind, f
    names = {n: (n if n.startswith('_') else '_' + n) for n in STEPS[eq]}; F = getattr(m, eq.title().replace('_', '') + 'ForwardFunc')
    if any(n not in d or o + '_opt' not in d for n, o in names.items()): raise Unsupported('step functions of ' + eq)
    saved = dict(d); jit, comp = torch.jit.script, torch.__dict__.get('compile'); openmp = bu.USE_OPENMP; args = tuple(object() for _ in range(5)); seen = []; ap = F.__dict__.get('apply')
    d[eq + '_python'] = lambda *a, **k: (seen.append(('python', a, k, {n: d[o + '_opt'] for n, o in names.items()})), 'python result')[1]
    F.apply = staticmethod(lambda *a, **k: (seen.append(('compiled', a, k, None)), 'compiled result')[1])
    torch.jit.script = lambda f, *a, **k: Same('jit', f); torch.compile = lambda f, *a, **k: Same('compile', f)
    try:
        seq = ['eager', 'jit', 'compile', False, 'jit', 'Compile', 'eager', 'JIT', True, 'EAGER', False, True]
        for j, mode in enumerate(seq):
            for mp in (True, False) if mode is True else (openmp,):
                bu.USE_OPENMP = mp; seen.clear(); nm = 'python_backend=%r (call %d): ' % (mode, j + 1); out = getattr(m, eq + '_func')(mode, *args)
                if not it.true(nm + 'one propagator is called', len(seen) == 1, '%d' % len(seen)): continue
                who, a, k, st = seen[0]; it.true(nm + 'the propagator', who == ('compiled' if mode is False else 'python'), who)
                it.true(nm + 'the arguments are passed on as they are', len(a) == len(args) and all(x is y for x, y in zip(a, args)) and not k); it.true(nm + 'its result is returned', out == who + ' result')
                if st is None: continue
                for n, f in st.items():
                    g, kind = (f.f, f.kind) if isinstance(f, Same) else (f, 'eager')
                    if not (g is None or any(g is saved[x] for x in STEPS[eq])): it.add('undecided', nm + 'the step function is ' + n, 'structural', repr(g)); continue
                    it.true(nm + 'the step function is ' + n, g is saved[n if not spoil else STEPS[eq][0]] and not (spoil and eq in ('scalar', 'scalar_born')), getattr(g, '__name__', repr(g)))
                    if mode is not True: it.true(nm + 'the requested form of ' + n, kind == mode.lower(), kind)
        for bad in ('eagre', '', 'c'):
            if bad:
                try: getattr(m, eq + '_func')(bad, *args); ok = False
                except ValueError: ok = True
                it.true('python_backend=%r is rejected' % bad, ok)
        try: getattr(m, eq + '_func')(7, *args); ok = False
        except TypeError: ok = True
        it.true('a python_backend that is neither bool nor str is rejected', ok)
    finally:
        for k in list(d):
            if k in saved: d[k] = saved[k]
            else: del d[k]
        torch.jit.script = jit; bu.USE_OPENMP = openmp
        if comp is None: del torch.compile
        else: torch.compile = comp
        if ap is None: del F.apply
        else: F.apply = ap
    return it

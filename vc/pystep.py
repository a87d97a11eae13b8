"""Contracts of the step functions of the Python propagators: at every cell of its domain each array gets the value of the same stage of the
same contract (vc/eqs.py) that the compiled kernels are proved against (C01); outside its domain it stays zero."""
from .pysym import *
from . import pysym, pytorch as pt, eqs
from .stencil import Ctx
from .terms import *
from .pytorch import sel
import re
DN = {1: 'x', 2: 'yx', 3: 'zyx'}

class Py:
    def __init__(self, it, eq, nd, acc, spoil=None):
        self.it = it; self.eq = eq; self.nd = nd; self.acc = acc; self.ds = DN[nd]; self.R = acc // 2; self.reg = eq in ('scalar', 'scalar_born'); self.spoil = spoil
    def begin(self):
        nd, R = self.nd, self.R
        self.nb = self._int('n_shots', 1); self.n = [self._int('n' + d, 2 * R + 1) for d in self.ds]
        self.h = {d: mk(sym('h' + d, 'f'), 'f') for d in self.ds}; self.dt = mk(sym('dt', 'f'), 'f')
        for d in self.ds: assume(lt(0, self.h[d].p))
        self.ctx = Ctx(nd, self.acc, 0 if self.reg else 1); self.s = sym('s', 'i'); assume(le(0, self.s)); assume(lt(self.s, self.nb.p))
        self.i = [sym('i' + d, 'i') for d in self.ds]
        for i, n in zip(self.i, self.n): assume(le(0, i)); assume(lt(i, n.p))
        self.spec = eqs.EQS[self.eq]['forward'](self.ctx, sym('t')); self.nsub = {next(iter(self.ctx.n[d].atoms())): n.p for d, n in zip(self.ds, self.n)}
        self.stage = {}; ver = {}
        for st in self.spec.order:
            if st.kind in ('update', 'inject'):
                if st.kind == 'update': self.stage.setdefault(st.arr, []).append((ver.get(st.arr, 0), st, dict(ver)))
                ver[st.arr] = ver.get(st.arr, 0) + 1
        self.dom = {a: l[0][1].dom for a, l in self.stage.items()}
        if self.reg:
            for n in self.lists(False)[1]: self.dom[n] = eqs.idom(self.ctx)
    def _int(self, n, lo): x = mk(sym(n, 'i'), 'i'); assume(le(lo, x.p)); return x
    def range(self, arr):
        """(lo, hi) of the domain of an array in every dimension"""
        df = eqs.EQS[self.eq]['dom'](self.ctx)
        return [tuple(P(v).subst(self.nsub) for v in df(d, self.dom[arr][d])) for d in self.ds]
    def field(self, name, masked=False):
        """the array behind a kernel parameter; masked: zero outside its domain"""
        shape = (self.nb,) + tuple(self.n)
        if not masked or name not in self.dom: return pt.array(name, shape)
        rg = self.range(name)
        def f(ix):
            c = and_(*[and_(le(lo, x), lt(x, hi)) for x, (lo, hi) in zip(ix[1:], rg)]); k = Path.cur.known(c)
            return ZERO if k is False else pt.ite_val(c, sel(name, 'f', ix), ZERO)
        return pt.Tensor(shape, f)
    def profile(self, name, d): return pt.array('profile_' + name, tuple([1] + [self.n[j] if e == d else 1 for j, e in enumerate(self.ds)]))
    def expected(self, arr, start, at):
        """contract value of the first stage of arr that begins with the versions `start`, at the index at"""
        v, st, vers = next(x for x in self.stage[arr] if x[0] == start.get(arr, 0))
        e = st.expr
        if self.spoil == arr: e = e + self.spec.F(arr, 0) * Fraction(1, 1000)
        mp = {}
        for a in e.atoms():
            k = ATOMS[a]
            if k[0] == 'F':
                assert k[2] == start.get(k[1], 0), (arr, k, start)
                nm = self.alias.get(k[1], k[1])
                mp[a] = sel(nm, 'f', (at[0],) + tuple(x + o for x, o in zip(at[1:], k[3])))
            elif k[0] == 'C':
                j = self.ds.index(k[2]); mp[a] = sel('profile_' + k[1], 'f', tuple([ZERO] + [(at[1 + q] + k[3]) if q == j else ZERO for q in range(self.nd)]))
            elif k[0] == 'sym':
                m = re.match(r'rd([zyx])(2?)$', k[1])
                if m: h = self.h[m.group(1)].p; mp[a] = inv(h * h) if m.group(2) else inv(h)
                elif k[1] == 'dt2': mp[a] = self.dt.p * self.dt.p
                elif k[1] == 'dt': mp[a] = self.dt.p
        return e.subst(mp)
    alias = {}
    def compare(self, what, out, start):
        """out: {array: tensor}"""
        for arr, t in out.items():
            if not isinstance(t, pt.Tensor): self.it.true('%s: %s is an array' % (what, arr), False, repr(t)[:80]); continue
            for j, x in enumerate((self.nb,) + tuple(self.n)): self.it.equal('%s: size of axis %d of %s' % (what, j, arr), t.shape_[j], x)
            with Path.cur.scope(*[and_(le(lo, x), lt(x, hi)) for x, (lo, hi) in zip(self.i, self.range(arr))]) as ok:
                if ok: self.it.equal('%s: %s at every cell of its domain' % (what, arr), t.at(self.s, *self.i), self.expected(arr, start, (self.s,) + tuple(self.i)))
    def zero(self, what, out):
        for arr, t in out.items():
            for d, x, (lo, hi) in zip(self.ds, self.i, self.range(arr)):
                for side, c in (('before', lt(x, lo)), ('after', le(hi, x))):
                    with Path.cur.scope(c) as ok:
                        if ok: self.it.equal('%s: %s stays zero %s its domain in %s' % (what, arr, side, d), t.at(self.s, *self.i), ZERO)
    # -- the four equations
    def lists(self, masked):
        f = lambda n: self.field(n, masked); ds = self.ds
        if self.reg:
            pr = [self.profile(x % d, d) for d in ds for x in ('a%s', 'b%s', 'db%sd' + d)]
            w = []
            for sc in ('', 'sc')[:1 + (self.eq == 'scalar_born')]:
                w += ['wfc' + sc, 'wfp' + sc] + ['psi%s' % d + sc for d in ds] + ['zeta%s' % d + sc for d in ds]
            return pr, w, [f(n) for n in w]
        return [self.profile(x % d, d) for d in ds for x in ('a%s', 'b%s', 'a%sh', 'b%sh')], None, None
    def pairs(self): return dict(eqs.EQS[self.eq]['pairs'](self.ctx, True))
    def steps(self, m, masked):
        """runs the step functions; yields (function name, {array: new value}, versions at its start)"""
        ds = self.ds; f = lambda n: self.field(n, masked); hs = [self.h[d] for d in ds]; start1 = {}
        pr, wn, w = self.lists(masked)
        if self.reg:
            # the kernel writes the new wavefield over the previous one and psi into its twin
            tw = {}
            for n in wn: tw[n] = {'wfc': 'wfp', 'wfcsc': 'wfpsc'}.get(n)
            twin = lambda n: n[:-2] + 'nsc' if n.endswith('sc') else n + 'n'
            a = (self.field('v'),) + ((self.field('scatter'),) if self.eq == 'scalar_born' else ())
            r = m._forward_step(*a, hs, self.dt, self.acc, pr, w)
            if not self.it.true('number of results', len(r) == len(wn), '%d' % len(r)): return
            out = {}
            for n, t in zip(wn, r):
                if n in ('wfc', 'wfcsc'): out[n.replace('wfc', 'wfp')] = t
                elif n in ('wfp', 'wfpsc'):
                    self.it.equal('%s: the current wavefield becomes the previous one' % n, t.at(self.s, *self.i), self.field(n.replace('wfp', 'wfc'), masked).at(self.s, *self.i))
                else: out[twin(n) if n.startswith('psi') else n] = t
            yield '_forward_step', out, {}
        elif self.eq == 'acoustic':
            models = [self.field('k')] + [self.field('buoyancy_' + d) for d in ds]
            v, ps = m.update_velocities(models, f('p'), [f('v' + d) for d in ds], [f('psi_' + d) for d in ds], pr, hs, self.dt, self.acc)
            yield 'update_velocities', dict([('v' + d, t) for d, t in zip(ds, v)] + [('psi_' + d, t) for d, t in zip(ds, ps)]), {}
            p, ph = m.update_pressure(models, f('p'), [f('v' + d) for d in ds], [f('phi_' + d) for d in ds], pr, hs, self.dt, self.acc)
            yield 'update_pressure', dict([('p', p)] + [('phi_' + d, t) for d, t in zip(ds, ph)]), {**{'v' + d: 2 for d in ds}, **{'psi_' + d: 1 for d in ds}}
        else:
            S = eqs.stress; nd = self.nd
            models = [self.field('lamb'), self.field('mu')] + [self.field('mu_' + x) for x in {1: [], 2: ['yx'], 3: ['zy', 'zx', 'yx']}[nd]] + [self.field('buoyancy_' + d) for d in ds]
            E = lambda: pt.empty(0)
            sq = lambda nm: [[E() if i == j else f(nm(ds[i], ds[j])) for j in range(nd)] for i in range(nd)]
            normal = lambda: [f(S(d, d)) for d in ds]
            v, mn, ms = m.update_velocities(models, normal(), sq(S), [f('v' + d) for d in ds], [f('m_' + S(d, d) + d) for d in ds], sq(lambda a, b: 'm_' + S(a, b) + b), pr, hs, self.dt, self.acc)
            out = {}
            for i, d in enumerate(ds):
                out['v' + d] = v[i]; out['m_' + S(d, d) + d] = mn[i]
                for j, e in enumerate(ds):
                    if i != j: out['m_' + S(d, e) + e] = ms[i][j]
            yield 'update_velocities', out, {}
            st = {n: 1 for n in out}; st.update({'v' + d: 2 for d in ds})
            n_, sh, vn, vs = m.update_stresses(models, [f('v' + d) for d in ds], normal(), sq(S), [f('m_v%s%s' % (d, d)) for d in ds], sq(lambda a, b: 'm_v%s%s' % (a, b)), pr, hs, self.dt, self.acc)
            out = {}
            for i, d in enumerate(ds):
                out[S(d, d)] = n_[i]; out['m_v%s%s' % (d, d)] = vn[i]
                for j, e in enumerate(ds):
                    if i != j:
                        out['m_v%s%s' % (d, e)] = vs[i][j]
                        if i < j: out[S(d, e)] = sh[i][j]
                        else: self.it.true('the two views of %s are the same array' % S(d, e), sh[i][j] is sh[j][i] or sh[i][j].st is sh[j][i].st)
            yield 'update_stresses', out, st

def t_step(eq, nd, acc, spoil=False):
    m = pt.load('deepwave.' + eq); it = Items('%s python step %dd accuracy %d' % (eq, nd, acc), ['%s.%s' % (eq, x) for x in (['_forward_step'] if eq.startswith('scalar') else ['update_velocities', 'update_pressure' if eq == 'acoustic' else 'update_stresses'])])
    sp = {'scalar': 'wfp', 'scalar_born': 'wfpsc', 'acoustic': 'p', 'elastic': 'vx'}[eq] if spoil else None
    def run(p, masked):
        y = Py(it, eq, nd, acc, sp); y.begin()
        for name, out, start in y.steps(m, masked):
            if masked: y.zero(name, out)
            else: y.compare(name, out, start)
    paths(lambda p: run(p, False))
    if not spoil: paths(lambda p: run(p, True))
    return it

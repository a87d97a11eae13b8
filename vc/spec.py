"""Specification of one time step: an ordered list of stages over shift-invariant atoms (see stencil), built in Python.
The finite-difference coefficients are derived here from the moment equations, not copied from the code."""
from fractions import Fraction
from functools import lru_cache
from .terms import *
from . import terms

def solve_exact(A, b):
    n = len(A); M = [list(map(Fraction, r)) + [Fraction(x)] for r, x in zip(A, b)]
    for i in range(n):
        p = next(r for r in range(i, n) if M[r][i] != 0); M[i], M[p] = M[p], M[i]
        iv = 1 / M[i][i]; M[i] = [x * iv for x in M[i]]
        for r in range(n):
            if r != i and M[r][i] != 0:
                f = M[r][i]; M[r] = [a - f * c for a, c in zip(M[r], M[i])]
    return [M[i][n] for i in range(n)]

@lru_cache(None)
def fd(deriv, acc, half=0):
    """Offsets -> exact coefficient of the minimal-width central stencil of order `acc` for the deriv-th derivative.
    half=0: regular grid; half=-1: value at i from samples at half points i-1/2, i+1/2,...; half=+1: value at i+1/2."""
    R = acc // 2
    if half == 0: offs = list(range(-R, R + 1)); pos = [Fraction(o) for o in offs]
    elif half == -1: offs = list(range(-R, R)); pos = [Fraction(2 * o + 1, 2) for o in offs]
    else: offs = list(range(-R + 1, R + 1)); pos = [Fraction(2 * o - 1, 2) for o in offs]
    n = len(offs)
    A = [[p ** j for p in pos] for j in range(n)]
    b = [0] * n; b[deriv] = 1 if deriv == 1 else 2
    c = solve_exact(A, b)
    return {o: x for o, x in zip(offs, c) if x}

def rename(p, f, memo):
    """Rename atoms by f(id)->id (no simplification needed)."""
    d = {}
    for m, c in p.d.items():
        k = []
        for a in m:
            b = memo.get(a)
            if b is None: b = memo[a] = f(a)
            k.append(b)
        k = tuple(sorted(k)); d[k] = d.get(k, 0) + c
    return Poly({m: c for m, c in d.items() if c})

class Stage:
    def __init__(self, kind, **kw): self.kind = kind; self.__dict__.update(kw)

class Spec:
    def __init__(self, ctx):
        self.ctx = ctx; self.ver = {}; self.stages = {}; self.order = []; self._sh = {}
        self.records = []; self.calls = []
    # -- atoms
    def F(self, arr, ver=None):
        v = self.ver.get(arr, 0) if ver is None else ver
        return Poly.at(atom('F', arr, v, (0,) * self.ctx.ndim))
    def C(self, arr, d): return Poly.at(atom('C', arr, d, 0))
    def shift(self, p, d, k):
        """p at the point k cells further in dimension d."""
        if not k: return p
        j = self.ctx.dims.index(d)
        memo = self._sh.setdefault((d, k), {})
        def f(a):
            key = ATOMS[a]
            if key[0] == 'F':
                s = list(key[3]); s[j] += k
                return atom('F', key[1], key[2], tuple(s))
            if key[0] == 'C' and key[2] == d: return atom('C', key[1], d, key[3] + k)
            return a
        return rename(p, f, memo)
    def D(self, d, p, deriv=1, half=0):
        scale = sym('rd' + d, 'f') if deriv == 1 else sym('rd%s2' % d, 'f')
        r = ZERO
        for k, c in fd(deriv, self.ctx.acc, half).items(): r = r + self.shift(p, d, k) * c
        return r * scale
    # -- stages
    def _add(self, arr, st):
        self.stages.setdefault(arr, []).append(st); self.ver[arr] = self.ver.get(arr, 0) + 1
        self.order.append(st)
    def update(self, arr, expr, dom, guard=TRUE):
        """arr(x) := expr(x) for all x of the domain dom (dict dim -> 'i' or 'h')."""
        self._add(arr, Stage('update', arr=arr, expr=expr, dom=dom, guard=guard, pre=self.ver.get(arr, 0)))
    def inject(self, arr, loc, amp, n, row=None, scale=1):
        self._add(arr, Stage('inject', arr=arr, loc=loc, amp=amp, n=n, pre=self.ver.get(arr, 0), scale=scale))
    def record(self, out, loc, arrs, n):
        st = Stage('record', out=out, loc=loc, arrs=[(a, self.ver.get(a, 0)) for a in arrs], n=n)
        self.records.append(st); self.order.append(st)
    def load(self, name, guard):
        self._add(name + '_store_1', Stage('load', arr=name + '_store_1', name=name, guard=guard))
    def save(self, name, guard):
        st = Stage('save', name=name, arr=name + '_store_1', ver=self.ver.get(name + '_store_1', 0), guard=guard)
        self.calls.append(st); self.order.append(st)

# ---- transposition ----------------------------------------------------------------------------------------
class Adjoint:
    """Adjoint of a sequence of linear stages. lam[arr] is the current adjoint value of arr as an expression of the
    backward kernel's arrays; stages are fed in reverse order of the forward step."""
    def __init__(self, spec, lam): self.s = spec; self.lam = dict(lam)
    def stage(self, X, E, models=()):
        """Forward stage X := E (E linear in F atoms of state arrays); replaces lam accordingly."""
        s = self.s; nd = s.ctx.ndim
        lx = self.lam[X]; add = {}
        for m, c in E.d.items():
            st = [a for a in m if ATOMS[a][0] == 'F' and ATOMS[a][1] in self.lam]
            assert len(st) == 1, show(Poly({m: c}))
            key = ATOMS[st[0]]
            rest = list(m); rest.remove(st[0])
            t = Poly({tuple(rest): c}) * lx
            for d, k in zip(s.ctx.dims, key[3]): t = s.shift(t, d, -k)
            add[key[1]] = add.get(key[1], ZERO) + t
        new = dict(self.lam)
        new[X] = ZERO
        for Y, t in add.items(): new[Y] = new[Y] + t
        self.lam = new

    def simul(self, E):
        """Transpose of a simultaneous assignment {X: E_X} (all E read the values before it)."""
        keep = {X: self.lam[X] for X in E}
        base = {Y: (ZERO if Y in E else l) for Y, l in self.lam.items()}
        for X, e in E.items():
            self.lam = {Y: ZERO for Y in base}; self.lam[X] = keep[X]
            self.stage(X, e)
            for Y, l in self.lam.items(): base[Y] = base[Y] + l
        self.lam = base

def deriv(p, a):
    """d p / d atom a"""
    d = {}
    for m, c in p.d.items():
        k = m.count(a)
        if k:
            r = list(m); r.remove(a); r = tuple(r)
            d[r] = d.get(r, 0) + c * k
    return Poly({m: c for m, c in d.items() if c})

"""Symbolic execution of the Python sources: symbolic scalars, path exploration by re-execution, obligations.

The functions of /repo/src/deepwave are imported unchanged and called with symbolic arguments. A branch on a symbolic
condition is decided by z3 under the path condition or, when both sides are feasible, explored on both sides by
running the function again. Python floats are treated as the rationals they round (real arithmetic)."""
from fractions import Fraction
import contextlib, itertools, math as _math, time, warnings
warnings.simplefilter('ignore')
import z3
from . import terms
from .terms import *

class Unsupported(Exception): pass
class Infeasible(BaseException): pass

def rat(x):
    """The rational a float literal or a quotient of small integers rounds."""
    if isinstance(x, int): return x
    if isinstance(x, Fraction): return x
    if x != x or x in (_math.inf, -_math.inf): raise Unsupported('non-finite float')
    f = Fraction(x).limit_denominator(10 ** 6)
    if f and abs(Fraction(x) - f) <= abs(f) * Fraction(1, 10 ** 14): return f
    if not f and not x: return f
    return Fraction(repr(x))        # the shortest decimal that rounds to x

# ---- z3 translation with the atoms used here --------------------------------------------------------------
class PyCtx(Z3Ctx):
    def kind(self, a):
        k = ATOMS[a]
        if k[0] == 'sel': return k[2]
        if k[0] in ('fdiv', 'ceil', 'floor', 'round', 'b2i', 'count'): return 'i'
        if k[0] == 'mul': return 'f'
        return super().kind(a)
    def at(self, a):
        v = self.m.get(a)
        if v is not None: return v
        k = ATOMS[a]
        if k[0] == 'sel':
            ix = [self.p(i) for i in k[3]]
            srt = z3.RealSort() if k[2] == 'f' else z3.IntSort()
            if ix: v = z3.Function(k[1], *[z3.IntSort()] * len(ix), srt)(*ix)
            else: v = z3.Const(k[1], srt)
        elif k[0] == 'fdiv':
            x, y = self.p(k[1]), self.p(k[2]); v = z3.Int('q!%d' % a)
            self.axioms.append(z3.Implies(y > 0, z3.And(v * y <= x, x < v * y + y)))
        elif k[0] in ('ceil', 'floor'):
            x = self.p(k[1]); x = z3.ToReal(x) if x.is_int() else x; v = z3.Int('r!%d' % a)
            self.axioms.append(z3.And(z3.ToReal(v) >= x, z3.ToReal(v) < x + 1) if k[0] == 'ceil' else z3.And(z3.ToReal(v) <= x, z3.ToReal(v) > x - 1))
        elif k[0] == 'round':
            x = self.p(k[1]); x = z3.ToReal(x) if x.is_int() else x; v = z3.Int('r!%d' % a); h = z3.Q(1, 2)
            self.axioms.append(z3.And(z3.ToReal(v) <= x + h, z3.ToReal(v) >= x - h))
        elif k[0] == 'inv':
            x = self.p(k[1]); x = z3.ToReal(x) if x.is_int() else x; v = z3.Real('v!%d' % a)
            self.axioms.append(z3.Implies(x != 0, v * x == 1)); self.axioms.append(z3.Implies(x > 0, v > 0))
        elif k[0] == 'fn':
            ar = [self.p(i) for i in k[2:]]; ar = [z3.ToReal(i) if i.is_int() else i for i in ar]
            f = z3.Function('fn!' + k[1], *[z3.RealSort()] * (len(ar) + 1)); v = f(*ar); x = ar[0]
            if k[1] == 'sqrt': self.axioms.append(z3.Implies(x >= 0, z3.And(v >= 0, v * v == x, z3.Implies(x > 0, v > 0))))
            if k[1] == 'exp': self.axioms.append(z3.And(v > 0, z3.Implies(x < 0, v < 1), z3.Implies(x == 0, v == 1), z3.Implies(x > 0, v > 1)))
        elif k[0] == 'b2i': v = z3.If(self.c(k[1]), z3.IntVal(1), z3.IntVal(0))
        else: return super().at(a)
        self.m[a] = v
        return v

class Shared:
    """Memoised translation shared by all paths: every term and condition carries the axioms it needs."""
    def _setup(self): self.cm = {}; self.pm = {}; self.ad = {}; self.stack = []
    def at(self, a):
        if a in self.ad and a in self.m:
            if self.stack: self.stack[-1].update(self.ad[a])
            return self.m[a]
        n = len(self.axioms); self.stack.append(set())
        v = self._at(a); d = self.stack.pop(); d.update(range(n, len(self.axioms))); self.ad[a] = d
        if self.stack: self.stack[-1].update(d)
        return v
    def p(self, p):
        r = self.pm.get(p)
        if r is None:
            self.stack.append(set()); n = len(self.axioms); v = self._p(p); d = self.stack.pop(); d.update(range(n, len(self.axioms))); r = self.pm[p] = (v, d)
        if self.stack: self.stack[-1].update(r[1])
        return r[0]
    def tr(self, c):
        """-> (z3 condition, indices of the axioms it needs)"""
        r = self.cm.get(c)
        if r is None: self.stack.append(set()); g = self.c(c); r = self.cm[c] = (g, self.stack.pop())
        return r
class FullCtx(Shared, PyCtx):
    def __init__(self): PyCtx.__init__(self); self._setup()
    def _at(self, a): return PyCtx.at(self, a)
    def _p(self, p): return PyCtx.p(self, p)

class FastCtx(Shared, PyCtx):
    def __init__(self): PyCtx.__init__(self); self._setup()
    """Products of unknowns are opaque (linear arithmetic): what this solver refutes is refuted."""
    def _p(self, p):
        if not any(len(m) > 1 for m in p.d): return PyCtx.p(self, p)
        real = self.pkind(p) == 'f'; ts = []
        for m, c in p.d.items():
            if len(m) > 1:
                k = ('mono', m); t = self.m.get(k)
                if t is not None: self.stack[-1].update(self.ad[k])
                else:
                    n0 = len(self.axioms)
                    xs = [self.at(a) for a in m]; r = any(x.is_real() for x in xs)
                    t = self.m[k] = (z3.Real if r else z3.Int)('m!' + '_'.join(map(str, m)))
                    self.axioms.append(z3.Implies(z3.And([x >= 0 for x in xs]), t >= 0))
                    if not r: self.axioms.append(z3.Implies(z3.And([x >= 1 for x in xs]), z3.And([t >= x for x in xs])))
                    self.ad[k] = set(range(n0, len(self.axioms))).union(*[self.ad[a] for a in m])
            elif m: t = self.at(m[0])
            else: t = None
            if t is not None and real and t.is_int(): t = z3.ToReal(t)
            cc = (z3.RealVal(str(c)) if real else z3.IntVal(int(c)))
            ts.append(cc if t is None else (t if c == 1 else cc * t))
        return ts[0] if len(ts) == 1 else z3.Sum(ts)
    def _at(self, a):
        v = self.m.get(a)
        if v is not None: return v
        k = ATOMS[a]
        if k[0] == 'inv':
            x = self.p(k[1]); v = z3.Real('v!%d' % a); self.axioms.append(z3.Implies(x > 0, v > 0)); self.m[a] = v; return v
        if k[0] == 'fn' and k[1] == 'sqrt':
            x = self.p(k[2]); v = z3.Real('s!%d' % a); self.axioms.append(z3.Implies(x >= 0, v >= 0)); self.axioms.append(z3.Implies(x > 0, v > 0)); self.m[a] = v; return v
        if k[0] == 'fdiv' and not k[2].isconst():
            x, y = self.p(k[1]), self.p(k[2]); v = z3.Int('q!%d' % a);
            self.axioms.append(z3.Implies(z3.And(x >= 0, y > 0), z3.And(v >= 0, v <= x))); self.m[a] = v; return v
        return PyCtx.at(self, a)

FZ = FastCtx(); Z = FullCtx()

# ---- path exploration -------------------------------------------------------------------------------------
class Path:
    cur = None
    prefer = None         # precondition chosen at a branch: condition -> True / False / None (explore both)
    def __init__(self, trail=(), timeout=4000):
        self.trail = list(trail); self.pos = 0; self.hyps = []; self.hk = (); self.forks = 0
        self.s = z3.Solver(); self.s.set('timeout', timeout); self.z = Z; self.nax = set()
        self.f = z3.Solver(); self.f.set('timeout', timeout); self.fz = FZ; self.fax = set(); self.pend = []; self.nonlin = False
        self.facts = []; self.loops = {}; self.log = []; self.divs = {}
        self.fresh_n = 0
    def _g(self, c, full):
        """the translated condition; the axioms it needs are given to the solver"""
        z, have, s = (self.z, self.nax, self.s) if full else (self.fz, self.fax, self.f)
        g, ax = z.tr(c)
        for i in ax - have: s.add(z.axioms[i])
        have |= ax
        return g
    def assume(self, c):
        if c == TRUE or c in self.hyps: return
        if c == FALSE: raise Infeasible()
        if c[0] == 'and':
            for x in c[1]: self.assume(x)
            return
        self.hyps.append(c); self.pend.append(c); self.f.add(self._g(c, False)); self.hk = hash((self.hk, ckey(c)))
    def _flush(self):
        """hand the hypotheses to the full (nonlinear) solver"""
        for c in self.pend: self.s.add(self._g(c, True))
        self.pend = []
    def _check(self, c, full=True):
        """is c satisfiable here?"""
        t = time.time()
        if not full:
            g = self._g(c, False); self.f.push(); self.f.add(g); r = self.f.check(); self.f.pop()
        else:
            self._flush(); g = self._g(c, True); self.s.push(); self.s.add(g); r = self.s.check()
            self.model = self.s.model() if r == z3.sat else None
            self.s.pop()
        terms.STATS['z3_calls'] += 1; terms.STATS['z3_time'] += time.time() - t
        return r
    CACHE = {}
    def known(self, c, full=False):
        """True / False / None"""
        if c == TRUE: return True
        if c == FALSE: return False
        if c in self.hyps: return True
        if not_(c) in self.hyps: return False
        k = (self.hk, c, full); r = Path.CACHE.get(k, 0)
        if r != 0: return r
        if self._check(not_(c), False) == z3.unsat: r = True
        elif self._check(c, False) == z3.unsat: r = False
        elif full:
            self.s.set('timeout', 1500)
            if self._check(not_(c)) == z3.unsat: r = True
            elif self._check(c) == z3.unsat: r = False
            else: r = None
            self.s.set('timeout', 4000)
        else: r = None
        Path.CACHE[k] = r
        return r
    def decide(self, c):
        r = self.known(c, True)
        if r is not None: return r
        if Path.prefer is not None:
            r = Path.prefer(c)
            if r is not None: self.assume(c if r else not_(c)); return r
        if self.pos < len(self.trail): v = self.trail[self.pos]
        else: v = True; self.trail.append(True)
        self.pos += 1; self.forks += 1
        if self.forks > 60: raise Unsupported('too many branches on one path')
        self.assume(c if v else not_(c))
        return v
    def dead(self): return self._check(TRUE, False) == z3.unsat
    def prove(self, c, timeout=10000):
        r = self.known(c)
        if r: return ('proved', None)
        self.s.set('timeout', timeout); x = self._check(not_(c)); self.s.set('timeout', 4000)
        if x == z3.unsat: return ('proved', None)
        if x == z3.sat:
            m = self.model; out = {}
            for a, v in self.z.m.items():
                if not isinstance(a, int) or ATOMS[a][0] != 'sym': continue
                try:
                    e = m.eval(v)
                    if not e.eq(v): out[show_atom_py(a)] = str(e)
                except Exception: pass
            return ('refuted', out)
        return ('unknown', self.s.reason_unknown())
    @contextlib.contextmanager
    def scope(self, *cs):
        """additional hypotheses for the obligations stated inside; a contradiction makes them vacuous"""
        self._flush(); sv = (list(self.hyps), self.hk, len(self.facts), len(self.loops.get('pool', [])))
        n1, n2 = set(self.nax), set(self.fax)
        self.s.push(); self.f.push()
        try:
            ok = True
            try:
                for c in cs: self.assume(c)
            except Infeasible: ok = False
            yield ok
        finally:
            self.s.pop(); self.f.pop(); self.hyps, self.hk = sv[0], sv[1]; self.pend = []; del self.facts[sv[2]:]
            if 'pool' in self.loops: del self.loops['pool'][sv[3]:]
            self.nax, self.fax = n1, n2     # axioms added inside the scope are given again
    def fresh(self, name, kind):
        self.fresh_n += 1
        return sym('%s!%d' % (name, self.fresh_n), kind)

def show_atom_py(a):
    k = ATOMS[a]
    if k[0] == 'sel': return '%s[%s]' % (k[1], ','.join(show(i) for i in k[3]))
    return show_atom(a)

def explore(fn, limit=400, deadline=None):
    """Runs fn() on every feasible path. Yields (path, outcome) with outcome ('ret', value) or ('exc', exception).
    The path is still current while the caller handles the outcome; conditions decided then fork as well: use `paths`."""
    raise NotImplementedError

def paths(fn, limit=2000):
    """fn(path): runs the code and states its obligations; executed once per feasible path. Returns number of paths."""
    stack = [[]]; n = 0
    while stack:
        tr = stack.pop(); p = Path(tr); Path.cur = p
        try: fn(p)
        except Infeasible: pass
        finally: Path.cur = None
        n += 1
        if n > limit: raise Unsupported('more than %d paths' % limit)
        for i in range(len(tr), len(p.trail)): stack.append(p.trail[:i] + [False])
    return n

def decide(c): return Path.cur.decide(c)
def assume(c): Path.cur.assume(c)

_warn = {}
def warn_only():
    """The branch being decided is an `if` of the code under verification whose body only issues a warning: both sides
    continue with the same state, so no case split is needed."""
    import sys, ast
    f = sys._getframe(2)
    fn = f.f_code.co_filename
    if '/deepwave/' not in fn: return False
    t = _warn.get(fn)
    if t is None:
        t = _warn[fn] = set()
        for n in ast.walk(ast.parse(open(fn).read())):
            if isinstance(n, ast.If) and not n.orelse and all(isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and ast.unparse(b.value.func) == 'warnings.warn' for b in n.body):
                t.update(range(n.test.lineno, n.test.end_lineno + 1))
    return f.f_lineno in t

# ---- symbolic scalars -------------------------------------------------------------------------------------
class B:
    __slots__ = ('c',)
    def __init__(self, c): self.c = c
    def __bool__(self): return False if warn_only() and Path.cur.known(self.c) is None else decide(self.c)
    def __and__(self, o): return B(and_(self.c, condof(o)))
    __rand__ = __and__
    def __or__(self, o): return B(or_(self.c, condof(o)))
    __ror__ = __or__
    def __invert__(self): return B(not_(self.c))
    def __eq__(self, o):
        c = condof(o); return mkb(or_(and_(self.c, c), and_(not_(self.c), not_(c))))
    def __ne__(self, o): return mkb(not_(condof(self == o)))
    def __mul__(self, o):
        p, k = of(o); return mk(ite(self.c, p, ZERO), k)
    __rmul__ = __mul__
    def __add__(self, o): return mk(b2p(self.c), 'i') + o
    __radd__ = __add__
    def __hash__(self): return hash(self.c)
    def __repr__(self): return 'B(%s)' % show_cond(self.c)
def condof(x):
    if isinstance(x, B): return x.c
    if isinstance(x, S): return ne(x.p, 0)
    if isinstance(x, tuple): return x
    return TRUE if x else FALSE
def mkb(c):
    if c == TRUE: return True
    if c == FALSE: return False
    return B(c)
def b2p(c):
    if Path.cur is not None and c not in (TRUE, FALSE):
        k = Path.cur.known(c)
        if k is not None: return ONE if k else ZERO
    return ite(c, ONE, ZERO)

def of(x):
    """-> (Poly, kind)"""
    if isinstance(x, S): return x.p, x.k
    if isinstance(x, bool): return P(int(x)), 'i'
    if isinstance(x, int): return P(x), 'i'
    if isinstance(x, float): return P(rat(x)), 'f'
    if isinstance(x, complex): return P(rat(x.real)) + P(rat(x.imag)) * Poly.at(atom('sym', 'imaginary_unit', 'f')), 'f'
    if isinstance(x, Fraction): return P(x), 'f'
    if isinstance(x, B): return b2p(x.c), 'i'
    if isinstance(x, Poly): return x, 'f'
    if hasattr(x, 'item') and getattr(x, 'shape', None) == (): return of(x.item())
    raise TypeError('not a number: %r' % (type(x),))
def mk(p, k):
    if k == 'i' and p.isconst() and type(p.cval()) is int: return p.cval()
    return S(p, k)

def inv(p):
    if p.isconst():
        if not p.cval(): raise ZeroDivisionError('division by zero')
        return P(Fraction(1) / Fraction(p.cval()))
    if len(p.d) == 1:
        (m, c), = p.d.items(); r = P(Fraction(1) / Fraction(c))
        for a in m:
            k = ATOMS[a]
            r = r * (k[1] if k[0] == 'inv' else Poly.at(atom('inv', Poly.at(a))))
        return r
    # pull out the common monomial and the leading coefficient
    ms = list(p.d); com = list(ms[0])
    for m in ms[1:]:
        c2 = []; r = list(m)
        for a in com:
            if a in r: r.remove(a); c2.append(a)
        com = c2
    if com:
        d = {}
        for m, c in p.d.items():
            r = list(m)
            for a in com: r.remove(a)
            d[tuple(r)] = c
        return inv(Poly({tuple(com): 1})) * inv(Poly(d))
    lead = p.d[min(p.d)]
    q = p * (Fraction(1) / Fraction(lead))
    return Poly.at(atom('inv', q)) * (Fraction(1) / Fraction(lead))

def div_(a, b):
    """a / b in the code under verification: the divisor must be shown non-zero (Items.divisions)"""
    if not b.isconst() and Path.cur is not None: Path.cur.divs.setdefault(b, None)
    return mul(a, inv(b))

def cancel(p):
    """Cancel x * inv(x) of single atoms inside monomials (requires x != 0, which the division already requires)."""
    out = {}; ch = False
    for m, c in p.d.items():
        r = list(m)
        for a in m:
            k = ATOMS[a]
            if k[0] == 'inv' and len(k[1].d) == 1 and a in r:
                (mm, cc), = k[1].d.items()
                if len(mm) == 1 and cc == 1 and mm[0] in r: r.remove(a); r.remove(mm[0]); ch = True
        r = tuple(r); s = out.get(r, 0) + c
        if s: out[r] = s
        else: out.pop(r, None)
    return Poly({m: terms._norm(c) for m, c in out.items()}) if ch else p

def mul(a, b):
    r = a * b
    return cancel(r) if any(ATOMS[x][0] == 'inv' for m in r.d for x in m) else r

def sqrt_(p):
    if p.isconst() and p.cval() >= 0:
        c = Fraction(p.cval()); n, d = _math.isqrt(c.numerator), _math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator: return P(Fraction(n, d))
    return Poly.at(atom('fn', 'sqrt', p))

def fn_(name, *ps):
    if name == 'exp' and ps[0].iszero(): return ONE
    if name in ('sin', 'sinc') and ps[0].iszero(): return ZERO if name == 'sin' else ONE
    if name == 'cos' and ps[0].iszero(): return ONE
    if name == 'sqrt': return sqrt_(ps[0])
    return Poly.at(atom('fn', name, *ps))

def floordiv(a, b):
    if a.isconst() and b.isconst() and b.cval(): return P(Fraction(a.cval()) // Fraction(b.cval()))
    if b.isconst() and b.cval() == 1: return a
    if len(b.d) == 1:
        (mb, cb), = b.d.items(); q = {}; r = {}
        for m, c in a.d.items():
            l = list(m); ok = Fraction(c) % cb == 0
            for x in mb:
                if x in l: l.remove(x)
                else: ok = False
            if ok: q[tuple(l)] = terms._norm(Fraction(c) / cb)
            else: r[m] = c
        if q:
            r = Poly(r); return Poly(q) + (floordiv(r, b) if not r.iszero() else ZERO)
    if a.iszero(): return ZERO
    if Path.cur is not None and Path.cur.known(and_(le(0, a), lt(a, b))) is True: return ZERO
    if b.isconst() and b.cval() > 0 and Fraction(b.cval()).denominator == 1 and all(Fraction(c).denominator == 1 for c in a.d.values()):
        k = int(b.cval()); r = int(a.d.get((), 0)); q = r // k; a = a - r; m = a.d[min(a.d)]; r -= q * k     # one form: remainder of the constant, leading coefficient positive
        if m < 0: a, r = -a, k - 1 - r; return P(q) - Poly.at(atom('fdiv', a + r, b))
        return P(q) + Poly.at(atom('fdiv', a + r, b))
    return Poly.at(atom('fdiv', a, b))

class S:
    __slots__ = ('p', 'k')
    __array_priority__ = 100
    def __init__(self, p, k): self.p = p; self.k = k
    def _b(self, o, f):
        try: q, k = of(o)
        except TypeError: return NotImplemented
        return mk(f(self.p, q), 'f' if 'f' in (self.k, k) else 'i')
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, mul)
    __rmul__ = __mul__
    def __neg__(self): return mk(-self.p, self.k)
    def __pos__(self): return self
    def __truediv__(self, o):
        try: q, k = of(o)
        except TypeError: return NotImplemented
        return mk(div_(self.p, q), 'f')
    def __rtruediv__(self, o): return mk(div_(of(o)[0], self.p), 'f')
    def __floordiv__(self, o): return self._b(o, floordiv)
    def __rfloordiv__(self, o): return self._b(o, lambda a, b: floordiv(b, a))
    def __mod__(self, o): return self._b(o, lambda a, b: a - floordiv(a, b) * b)
    def __rmod__(self, o): return self._b(o, lambda a, b: b - floordiv(b, a) * a)
    def __pow__(self, n):
        if n == 0.5: return mk(sqrt_(self.p), 'f')
        if isinstance(n, float) and n == int(n): n = int(n)
        if not isinstance(n, int): return NotImplemented
        r = ONE
        for _ in range(abs(n)): r = mul(r, self.p)
        return mk(r, self.k) if n >= 0 else mk(inv(r), 'f')
    def __and__(self, o):
        if type(o) is int and o > 0 and o & (o + 1) == 0 and self.k == 'i': return self % (o + 1)
        return NotImplemented
    __rand__ = __and__
    def __rshift__(self, o): return self // (1 << o) if type(o) is int and o >= 0 and self.k == 'i' else NotImplemented
    def __lshift__(self, o): return self * (1 << o) if type(o) is int and o >= 0 and self.k == 'i' else NotImplemented
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self
    def __abs__(self): return mk(ite(le(0, self.p), self.p, -self.p), self.k) if Path.cur.known(le(0, self.p)) is None else (self if Path.cur.known(le(0, self.p)) else -self)
    def _c(self, o, f):
        try: q, k = of(o)
        except TypeError: return NotImplemented
        return mkb(f(self.p, q))
    def __lt__(self, o): return self._c(o, lt)
    def __le__(self, o): return self._c(o, le)
    def __gt__(self, o): return self._c(o, lambda a, b: lt(b, a))
    def __ge__(self, o): return self._c(o, lambda a, b: le(b, a))
    def __eq__(self, o): return self._c(o, eq)
    def __ne__(self, o): return self._c(o, ne)
    def __bool__(self): return False if warn_only() and Path.cur.known(ne(self.p, 0)) is None else decide(ne(self.p, 0))
    def __hash__(self): return 0          # equal values must collide: the dictionary then compares, which forks
    def __index__(self):
        if self.p.isconst() and type(self.p.cval()) is int: return self.p.cval()
        raise Unsupported('a concrete integer is needed here')
    def __float__(self):
        if self.p.isconst(): return float(self.p.cval())
        raise Unsupported('a concrete number is needed here')
    def __int__(self): return self.__index__()
    def __round__(self, n=None): return mk(rnd(self.p), 'i')
    def __ceil__(self): return ceil(self)
    def __floor__(self): return floor(self)
    def item(self): return self
    def is_integer(self): return self.k == 'i'
    def __repr__(self): return 'S(%s)' % show(self.p)
    def __format__(self, f): return repr(self)
    def __deepcopy__(self, m): return self

def _whole(p):
    """p = integer part (integer combination of integer atoms) + rest"""
    a, b = {}, {}
    for m, c in p.d.items():
        if not m: q = Fraction(c) // 1; a[m] = q; b[m] = terms._norm(Fraction(c) - q)
        elif type(c) is int and all(Z.kind(x) == 'i' for x in m): a[m] = c
        else: b[m] = c
    return Poly({m: terms._norm(c) for m, c in a.items() if c}), Poly({m: c for m, c in b.items() if c})
def flr(p):
    i, r = _whole(p)
    if r.iszero(): return i
    if r.isconst(): return i + (Fraction(r.cval()) // 1)
    if Path.cur is not None:
        if Path.cur.known(and_(le(0, r), lt(r, 1))) is True: return i
        if Path.cur.known(and_(le(-1, r), lt(r, 0))) is True: return i - 1
    return i + Poly.at(atom('floor', r))
def cil(p):
    i, r = _whole(p)
    if r.iszero(): return i
    if r.isconst(): return i - ((-Fraction(r.cval())) // 1)
    if Path.cur is not None:
        if Path.cur.known(and_(lt(0, r), le(r, 1))) is True: return i + 1
        if Path.cur.known(and_(lt(-1, r), le(r, 0))) is True: return i
    return i + Poly.at(atom('ceil', r))
def rnd(p):
    """nearest integer; which one at a tie is left open unless the value is a constant"""
    i, r = _whole(p)
    if p.isconst(): return P(round(Fraction(p.cval())))
    if r.iszero(): return i
    if r.isconst() and Fraction(r.cval()) != Fraction(1, 2): return i + round(Fraction(r.cval()))
    if r.isconst(): return ite(eq(Poly.at(atom('sel', 'tie', 'i', (i,))), 0), i, i + 1)
    if Path.cur is not None:
        if Path.cur.known(and_(lt(-Fraction(1, 2), r), lt(r, Fraction(1, 2)))) is True: return i
        if Path.cur.known(and_(lt(Fraction(1, 2), r), lt(r, Fraction(3, 2)))) is True: return i + 1
    return Poly.at(atom('round', p))
def ceil(x):
    p, k = of(x)
    return x if k == 'i' else mk(cil(p), 'i')
def floor(x):
    p, k = of(x)
    return x if k == 'i' else mk(flr(p), 'i')
def trunc(x):
    p, k = of(x)
    if k == 'i': return x
    if p.isconst(): return int(Fraction(p.cval()))
    return floor(x) if Path.cur.decide(le(0, p)) else ceil(x)

def issym(x): return isinstance(x, (S, B))
def smin(*a, **kw):
    if len(a) == 1: a = list(a[0])
    if kw.get('key') or not any(issym(x) for x in a): return min(*a, **kw) if len(a) > 1 else a[0]
    return _ext(a, lambda x, r: lt(x, r))
def smax(*a, **kw):
    if len(a) == 1: a = list(a[0])
    if kw.get('key') or not any(issym(x) for x in a): return max(*a, **kw) if len(a) > 1 else a[0]
    return _ext(a, lambda x, r: lt(r, x))
def _ext(a, better):
    r, k = of(a[0])
    for x in a[1:]:
        p, kx = of(x); c = better(p, r); kn = Path.cur.known(c)
        r = p if kn is True else r if kn is False else ite(c, p, r); k = 'f' if 'f' in (k, kx) else 'i'
    return mk(r, k)
class _intmeta(type):
    def __instancecheck__(cls, x): return (isinstance(x, S) and x.k == 'i') or isinstance(x, (int,))
    def __call__(cls, x=0, *a): return trunc(x) if isinstance(x, S) else (mk(b2p(x.c), 'i') if isinstance(x, B) else (trunc(x.item()) if hasattr(x, '_is_sym_tensor') else int(x, *a)))
class sint(metaclass=_intmeta): pass
class _floatmeta(type):
    def __instancecheck__(cls, x): return (isinstance(x, S) and x.k == 'f') or isinstance(x, float)
    def __call__(cls, x=0.0): return S(x.p, 'f') if isinstance(x, S) else (float_item(x) if hasattr(x, '_is_sym_tensor') else float(x))
class sfloat(metaclass=_floatmeta): pass
def float_item(x):
    v = x.item(); return S(v.p, 'f') if isinstance(v, S) else float(v)
def slen(x):
    if hasattr(x, '_is_sym_tensor'): return x.shape[0]
    return len(x)
def sbool(x=False): return bool(x)

# ---- equality of rational expressions ---------------------------------------------------------------------
def clear(p):
    """Multiply out the inverses and reduce squares of square roots: zero iff p is identically zero (inverted terms non-zero)."""
    for _ in range(40):
        p = cancel(p)
        iv = [a for a in p.atoms() if ATOMS[a][0] == 'inv']
        if iv:
            a = max(iv, key=lambda x: x); b = ATOMS[a][1]
            n = max(m.count(a) for m in p.d); r = ZERO
            pw = [ONE]
            for _ in range(n): pw.append(pw[-1] * b)
            for m, c in p.d.items():
                k = m.count(a); r = r + Poly({tuple(x for x in m if x != a): c}) * pw[n - k]
            p = r; continue
        sq = [a for a in p.atoms() if ATOMS[a][0] == 'fn' and ATOMS[a][1] == 'sqrt' and any(m.count(a) > 1 for m in p.d)]
        if sq:
            a = max(sq); r = ZERO
            for m, c in p.d.items():
                k = m.count(a); l = [x for x in m if x != a] + [a] * (k % 2); t = Poly({tuple(sorted(l)): c})
                for _ in range(k // 2): t = t * ATOMS[a][2]
                r = r + t
            p = r; continue
        return p
    return p

def split_ites(p):
    """Decide the conditionals inside p on the current path (forking where needed)."""
    for _ in range(200):
        it = _find_ite(p)
        if it is None: return p
        v = decide(ATOMS[it][1])
        p = map_atoms(p, lambda k: None, {it: split_ites(ATOMS[it][2] if v else ATOMS[it][3])})
    raise Unsupported('conditionals')
def merge_ites(p):
    """Conditionals of p that are provably equal to another one, or to one of their alternatives, are replaced."""
    at = sorted(a for a in p.atoms() if Path.cur.fz.kind(a) == 'i'); mp = {}; reps = []
    if len(at) > 40: return p
    for a in at:
        x = Poly.at(a)
        if ATOMS[a][0] == 'ite':
            for r in ATOMS[a][2:4]:
                if not any(ATOMS[y][0] == 'ite' for y in r.atoms()) and Path.cur.known(eq(x, r)) is True: mp[a] = r; break
            if a in mp: continue
        for r in reps:
            if Path.cur.known(eq(x, r)) is True: mp[a] = r; break
        else: reps.append(x)
    return p.subst(mp) if mp else p
def all_atoms(p, seen=None):
    seen = set() if seen is None else seen
    for a in p.atoms():
        if a in seen: continue
        seen.add(a)
        for x in ATOMS[a][1:]:
            if isinstance(x, Poly): all_atoms(x, seen)
    return seen


def congruent(d):
    """use the equalities known on the path between the (linear) arguments of uninterpreted functions in d, solved for an unknown integer"""
    for _ in range(4):
        args = {}
        for a in all_atoms(d):
            k = ATOMS[a]
            if k[0] == 'fn' and len(k) == 3 and all(len(m) < 2 for m in k[2].d): args.setdefault(k[1], []).append(k[2])
        sol = None
        for name, l in sorted(args.items()):
            for x, y in itertools.combinations(sorted(set(l), key=lambda q: q.key())[:24], 2):
                e = x - y; v = next((m[0] for m, c in sorted(e.d.items()) if len(m) == 1 and ATOMS[m[0]][0] == 'sym' and ATOMS[m[0]][2] == 'i' and all((Fraction(q) / Fraction(c)).denominator == 1 for q in e.d.values())), None)
                if v is not None and all(ATOMS[m[0]][0] == 'sym' for m in e.d if m) and Path.cur.known(cmp_('==', e)) is True: sol = (v, Poly.at(v) - e * (Fraction(1) / Fraction(e.d[(v,)]))); break
            if sol: break
        if sol is None: return d
        kv = ATOMS[sol[0]]
        try: d = clear(map_atoms(d, lambda k: sol[1] if k == kv else None))
        except ZeroDivisionError: return d
    return d

def _find_ite(p, depth=0):
    for a in sorted(p.atoms()):
        k = ATOMS[a]
        if k[0] == 'ite': return a
        for x in k[1:]:
            if isinstance(x, Poly):
                r = _find_ite(x)
                if r is not None: return r
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Poly):
                        r = _find_ite(y)
                        if r is not None: return r
    return None

# ---- obligations ------------------------------------------------------------------------------------------
class Enough(BaseException): """enough obligations of one task failed"""
class Items:
    last = None; MAXBAD = 6
    def __init__(self, unit, funcs=()): Items.last = self; self.bad = 0; self.unit = unit; self.items = []; self.funcs = list(funcs); self.extra = None
    def add(self, status, name, backend, detail=''):
        self.items.append(dict(status=status, name=name, backend=backend, detail=detail))
        if status != 'proved':
            self.bad += 1
            if self.bad >= self.MAXBAD: raise Enough()
    def cond(self, name, c, note=''):
        """c must hold on the current path"""
        p = Path.cur
        if c == TRUE: self.add('proved', name, 'normal form'); return True
        r, d = p.prove(c)
        st = {'proved': 'proved', 'refuted': 'refuted', 'unknown': 'undecided'}[r]
        self.add(st, name, 'z3', '' if r == 'proved' else 'goal %s; path %s; %s %s' % (show_cond(c)[:600], [show_cond(h)[:120] for h in p.hyps][-12:], str(d)[:800], note))
        return st == 'proved'
    def equal(self, name, a, b, note=''):
        """two scalar values (Poly or number) are equal on the current path"""
        a, b = (of(x)[0] if not isinstance(x, Poly) else x for x in (a, b))
        d = clear(a - b)
        if not d.iszero(): d = congruent(d)
        if not d.iszero() and _find_ite(d) is not None:
            for _ in range(3): d = merge_ites(d)
        if not d.iszero() and _find_ite(d) is not None:
            if Path.cur.prove(cmp_('==', d), 4000)[0] == 'proved': self.add('proved', name, 'z3'); return True
            d = clear(split_ites(d))
        if d.iszero(): self.add('proved', name, 'polynomial identity'); return True
        return self.cond(name, cmp_('==', d), note='difference %s %s' % (show(d, 8)[:500], note))
    def divisions(self):
        """every division evaluated on this path has a non-zero divisor"""
        for b in list(Path.cur.divs): self.cond('divisor is not zero', ne(split_ites(b), 0), note=show(b)[:200])
        Path.cur.divs = {}
    def finite(self, name, *ps):
        """every division that the value depends on (under the conditions that select it) has a non-zero divisor"""
        seen = set()
        def walk(p, depth=0):
            for a in sorted(p.atoms()):
                k = ATOMS[a]
                if k[0] == 'ite':
                    for c, q in ((k[1], k[2]), (not_(k[1]), k[3])):
                        if any(ATOMS[x][0] in ('inv', 'ite', 'fn', 'mul') for x in q.atoms()):
                            with Path.cur.scope(c) as ok:
                                if ok and not Path.cur.dead(): walk(q, depth + 1)
                    continue
                if k[0] == 'inv' and (depth or a not in seen):
                    seen.add(a); self.cond('%s: divisor is not zero' % name, ne(k[1], 0), note=show(k[1])[:200])
                for x in k[1:]:
                    if isinstance(x, Poly): walk(x, depth)
        for p in ps: walk(p)
    def true(self, name, ok, detail=''):
        self.add('proved' if ok else 'refuted', name, 'structural', '' if ok else detail); return ok

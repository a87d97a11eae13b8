"""Terms shared by the engines: exact polynomials over interned atoms, boolean conditions, translation to z3."""
from fractions import Fraction
import itertools

_ids = {}
ATOMS = []          # id -> key tuple

def atom(*key):
    i = _ids.get(key)
    if i is None:
        i = len(ATOMS); _ids[key] = i; ATOMS.append(key)
    return i

def _norm(c):
    if type(c) is Fraction and c.denominator == 1: return c.numerator
    return c

class Poly:
    __slots__ = ('d', '_h')
    def __init__(self, d): self.d = d; self._h = None
    @staticmethod
    def const(c): return Poly({(): _norm(c)} if c else {})
    @staticmethod
    def at(i): return Poly({(i,): 1})
    def key(self):
        if self._h is None: self._h = frozenset(self.d.items())
        return self._h
    def __hash__(self): return hash(self.key())
    def __eq__(self, o): return isinstance(o, Poly) and self.d == o.d
    def isconst(self): return not self.d or (len(self.d) == 1 and () in self.d)
    def cval(self): return self.d.get((), 0)
    def iszero(self): return not self.d
    def __add__(self, o):
        o = P(o)
        a, b = (self.d, o.d) if len(self.d) >= len(o.d) else (o.d, self.d)
        r = dict(a)
        for m, c in b.items():
            s = r.get(m, 0) + c
            if s: r[m] = _norm(s)
            else: r.pop(m, None)
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.d.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) + (-self)
    def __mul__(self, o):
        o = P(o)
        if len(self.d) > len(o.d): a, b = o.d, self.d
        else: a, b = self.d, o.d
        if len(a) == 1:
            (m0, c0), = a.items()
            if not m0: return Poly({m: _norm(c * c0) for m, c in b.items()})
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                s = r.get(m, 0) + c1 * c2
                if s: r[m] = _norm(s)
                else: r.pop(m, None)
        return Poly(r)
    __rmul__ = __mul__
    def atoms(self):
        s = set()
        for m in self.d: s.update(m)
        return s
    def subst(self, mp):
        """mp: atom id -> Poly"""
        if not any(a in mp for m in self.d for a in m): return self
        r = Poly({})
        acc = {}
        for m, c in self.d.items():
            if any(a in mp for a in m):
                t = Poly({(): c}); rest = []
                for a in m:
                    if a in mp: t = t * mp[a]
                    else: rest.append(a)
                if rest: t = t * Poly({tuple(rest): 1})
                r = r + t
            else: acc[m] = c
        return r + Poly(acc) if acc else r
    def __repr__(self): return show(self)

def P(x):
    if isinstance(x, Poly): return x
    return Poly.const(x if isinstance(x, (int, Fraction)) else Fraction(x))

def sym(name, kind='i'): return Poly.at(atom('sym', name, kind))
ZERO = P(0); ONE = P(1)

def frozen(p): return p            # Polys are hashable

# ---- conditions -------------------------------------------------------------------------------------------
TRUE = ('true',); FALSE = ('false',)
def cmp_(op, p):
    """p op 0, op in < <= == != ; p integer or real polynomial"""
    if p.isconst():
        c = p.cval()
        return TRUE if {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op] else FALSE
    if op in ('==', '!='):
        m = min(p.d)          # normalise the sign
        if p.d[m] < 0: p = -p
        # boolean-valued integer symbols
    return ('cmp', op, p)
def not_(c):
    if c == TRUE: return FALSE
    if c == FALSE: return TRUE
    k = c[0]
    if k == 'not': return c[1]
    if k == 'cmp':
        op, p = c[1], c[2]
        if op == '==': return ('cmp', '!=', p)
        if op == '!=': return ('cmp', '==', p)
        if op == '<': return ('cmp', '<=', -p)
        if op == '<=': return ('cmp', '<', -p)
    if k == 'and': return or_(*[not_(x) for x in c[1]])
    if k == 'or': return and_(*[not_(x) for x in c[1]])
    return ('not', c)
def and_(*cs):
    s = []
    for c in cs:
        if c == TRUE: continue
        if c == FALSE: return FALSE
        for x in (c[1] if c[0] == 'and' else (c,)):
            if x not in s: s.append(x)
    for x in s:
        if not_(x) in s: return FALSE
    if not s: return TRUE
    if len(s) == 1: return s[0]
    return ('and', tuple(sorted(s, key=ckey)))
def or_(*cs):
    s = []
    for c in cs:
        if c == FALSE: continue
        if c == TRUE: return TRUE
        for x in (c[1] if c[0] == 'or' else (c,)):
            if x not in s: s.append(x)
    for x in s:
        if not_(x) in s: return TRUE
    if not s: return FALSE
    if len(s) == 1: return s[0]
    return ('or', tuple(sorted(s, key=ckey)))
def implies_(a, b): return or_(not_(a), b)
_ck = {}
def ckey(c):
    k = _ck.get(c)
    if k is None: k = len(_ck); _ck[c] = k
    return k

def ite(c, a, b):
    if c == TRUE: return a
    if c == FALSE: return b
    if a == b: return a
    return Poly.at(atom('ite', c, a, b))

def cond_atoms(c, out=None):
    if out is None: out = set()
    if c[0] == 'cmp': out |= c[2].atoms()
    elif c[0] in ('and', 'or'):
        for x in c[1]: cond_atoms(x, out)
    elif c[0] == 'not': cond_atoms(c[1], out)
    return out

def map_cond(c, f):
    if c[0] == 'cmp': return cmp_(c[1], f(c[2]))
    if c[0] == 'and': return and_(*[map_cond(x, f) for x in c[1]])
    if c[0] == 'or': return or_(*[map_cond(x, f) for x in c[1]])
    if c[0] == 'not': return not_(map_cond(c[1], f))
    return c

def map_atoms(p, f, memo=None):
    """Rebuild p with every atom (recursively, inside nested terms first) replaced by f(key) -> Poly or None (=keep)."""
    if memo is None: memo = {}
    mp = {}
    for a in p.atoms():
        q = map_atom(a, f, memo)
        if q is not None: mp[a] = q
    return p.subst(mp) if mp else p

def map_atom(a, f, memo):
    if a in memo: return memo[a]
    key = ATOMS[a]
    def mk(x):
        if isinstance(x, Poly): return map_atoms(x, f, memo)
        if isinstance(x, tuple) and x and x[0] in ('cmp', 'and', 'or', 'not', 'true', 'false'):
            return map_cond(x, lambda q: map_atoms(q, f, memo))
        if isinstance(x, tuple): return tuple(mk(y) for y in x)
        return x
    nk = tuple(mk(x) for x in key)
    r = f(nk)
    if r is None:
        if nk != key: r = mkatom(nk)
    memo[a] = r
    return r

def mkatom(k):
    """Rebuild a compound atom with simplification."""
    if k[0] == 'ite': return ite(k[1], k[2], k[3])
    if k[0] == 'div': return idiv(k[1], k[2])
    if k[0] == 'mod': return imod(k[1], k[2])
    if k[0] == 'inv' and k[1].isconst() and k[1].cval(): return P(Fraction(1) / k[1].cval())
    return Poly.at(atom(*k))

def idiv(a, b):
    if a.isconst() and b.isconst() and b.cval():
        x, y = a.cval(), b.cval(); q = abs(x) // abs(y); return P(q if (x < 0) == (y < 0) else -q)
    if b.isconst() and b.cval() == 1: return a
    return Poly.at(atom('div', a, b))
def imod(a, b):
    if a.isconst() and b.isconst() and b.cval():
        return a - idiv(a, b) * b
    return Poly.at(atom('mod', a, b))

# ---- printing ---------------------------------------------------------------------------------------------
def show_atom(a):
    k = ATOMS[a]
    if k[0] == 'sym': return k[1]
    if k[0] == 'F': return '%s%s%s' % (k[1], ("'" + str(k[2])) if k[2] else '', '[%s]' % ','.join(map(str, k[3])))
    if k[0] == 'C': return '%s[%+d]' % (k[1], k[3])
    if k[0] == 'rd': return '%s[%s]%s' % (k[1], show(k[2]), '@%s' % k[3] if len(k) > 3 else '')
    if k[0] == 'ite': return '(%s ? %s : %s)' % (show_cond(k[1]), show(k[2]), show(k[3]))
    return '%s(%s)' % (k[0], ', '.join(show(x) if isinstance(x, Poly) else str(x) for x in k[1:]))
def show(p, limit=40):
    if not p.d: return '0'
    ts = []
    for m, c in sorted(p.d.items(), key=lambda t: (len(t[0]), t[0]))[:limit]:
        s = '*'.join(show_atom(a) for a in m)
        ts.append(('%s*%s' % (c, s) if c != 1 else s) if s else str(c))
    if len(p.d) > limit: ts.append('... (%d terms)' % len(p.d))
    return ' + '.join(ts)
def show_cond(c):
    if c[0] == 'cmp': return '%s %s 0' % (show(c[2]), c[1])
    if c[0] in ('and', 'or'): return '(' + (' && ' if c[0] == 'and' else ' || ').join(map(show_cond, c[1])) + ')'
    if c[0] == 'not': return '!' + show_cond(c[1])
    return c[0]

# ---- z3 ---------------------------------------------------------------------------------------------------
import z3
class Z3Ctx:
    """Translates polynomials/conditions to z3. Integer atoms are Int, float atoms Real. div/mod get defining axioms."""
    def __init__(self, signed_div=False):
        self.m = {}; self.axioms = []; self.signed = signed_div
    def kind(self, a):
        k = ATOMS[a]
        if k[0] == 'sym': return k[2]
        if k[0] in ('div', 'mod', 'bitand', 'floor', 'rdi', 'b2i'): return 'i'
        if k[0] == 'ite':
            return 'f' if 'f' in (self.pkind(k[2]), self.pkind(k[3])) else 'i'
        if k[0] == 'rd' and len(k) == 5: return 'i' if k[4][0] == 'int' else 'f'
        if k[0] in ('call', 'trunc'): return 'i'
        return 'f'
    def pkind(self, p):
        return 'f' if any(self.kind(x) == 'f' for x in p.atoms()) or any(type(c) is Fraction for c in p.d.values()) else 'i'
    def at(self, a):
        v = self.m.get(a)
        if v is not None: return v
        k = ATOMS[a]
        if k[0] == 'ite':
            x, y = self.p(k[2]), self.p(k[3])
            if x.is_real() != y.is_real(): x, y = (z3.ToReal(x) if x.is_int() else x), (z3.ToReal(y) if y.is_int() else y)
            v = z3.If(self.c(k[1]), x, y)
        elif k[0] in ('div', 'mod'):
            # C truncating division; q, r fresh
            x, y = self.p(k[1]), self.p(k[2])
            q = z3.Int('q!%d_%d' % (atom('div', k[1], k[2]), 0)); r = x - q * y
            self.axioms.append(z3.Implies(z3.And(x >= 0, y > 0), z3.And(r >= 0, r < y, q >= 0)))
            self.m[atom('div', k[1], k[2])] = q; self.m[atom('mod', k[1], k[2])] = r
            v = self.m[a]
        else:
            v = (z3.Real if self.kind(a) == 'f' else z3.Int)('a!%d' % a if k[0] != 'sym' else k[1])
        self.m[a] = v
        return v
    def p(self, p):
        real = self.pkind(p) == 'f'
        ts = []
        for m, c in p.d.items():
            t = None
            for a in m:
                x = self.at(a)
                if real and x.is_int(): x = z3.ToReal(x)
                t = x if t is None else t * x
            cc = (z3.RealVal(str(c)) if real else z3.IntVal(int(c)))
            ts.append(cc if t is None else (t if c == 1 else cc * t))
        if not ts: return z3.IntVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)
    def c(self, c):
        if c == TRUE: return z3.BoolVal(True)
        if c == FALSE: return z3.BoolVal(False)
        if c[0] == 'cmp':
            x = self.p(c[2])
            return {'<': x < 0, '<=': x <= 0, '==': x == 0, '!=': x != 0}[c[1]]
        if c[0] == 'and': return z3.And([self.c(x) for x in c[1]])
        if c[0] == 'or': return z3.Or([self.c(x) for x in c[1]])
        if c[0] == 'not': return z3.Not(self.c(c[1]))
        raise ValueError(c)

STATS = {'z3_calls': 0, 'z3_time': 0.0}
_cache = {}
def prove(hyps, goal, timeout=10000):
    """-> ('proved',None) | ('refuted',model-dict) | ('unknown',reason); hyps, goal are conditions."""
    import time
    if goal == TRUE or goal in hyps: return ('proved', None)
    ck = (frozenset(hyps), goal)
    if ck in _cache: return _cache[ck]
    z = Z3Ctx(); s = z3.Solver(); s.set('timeout', timeout)
    h = [z.c(x) for x in hyps]; g = z.c(goal)
    s.add(h); s.add(z3.Not(g)); s.add(z.axioms)
    t = time.time(); r = s.check(); STATS['z3_calls'] += 1; STATS['z3_time'] += time.time() - t
    if r == z3.unsat: res = ('proved', None)
    elif r == z3.sat:
        m = s.model(); res = ('refuted', {show_atom(a): str(m.eval(v, model_completion=True)) for a, v in z.m.items()})
    else: res = ('unknown', s.reason_unknown())
    _cache[ck] = res
    return res
def satisfiable(hyps, timeout=5000):
    z = Z3Ctx(); s = z3.Solver(); s.set('timeout', timeout)
    s.add([z.c(x) for x in hyps]); s.add(z.axioms)
    STATS['z3_calls'] += 1
    return s.check()
# comparison helpers
def lt(a, b): return cmp_('<', P(a) - P(b))
def le(a, b): return cmp_('<=', P(a) - P(b))
def eq(a, b): return cmp_('==', P(a) - P(b))
def ne(a, b): return cmp_('!=', P(a) - P(b))

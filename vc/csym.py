"""Symbolic executor for the C subset (see cfront). Machine integers are mathematical integers, floats are reals.

One call of `Exec(unit).run(fname)` executes the real function body once with every parameter symbolic and every
unbounded loop replaced by one generic iteration, and yields the list of memory events (guarded writes, calls) in program
order, each with its enclosing loops. Reads are atoms ('rd', base, offset, stamp) resolved later against the events.
"""
from .cfront import Unsupported
from .terms import *
from . import terms

class Ptr:
    __slots__ = ('base', 'off', 'ty')          # off counts elements of ty (Poly)
    def __init__(self, base, off, ty): self.base = base; self.off = off; self.ty = ty
    def __eq__(self, o): return isinstance(o, Ptr) and (self.base, self.off, self.ty) == (o.base, o.off, o.ty)
    def __hash__(self): return hash((self.base, self.off, self.ty))
    def __repr__(self): return 'Ptr(%s+%s)' % (self.base, self.off)

class Loop:
    def __init__(self, sym, lo, hi, step, pragmas, line, var, depth):
        self.sym = sym; self.lo = lo; self.hi = hi; self.step = step   # lo <= v < hi as a set; step +1/-1 order
        self.pragmas = pragmas; self.line = line; self.var = var; self.depth = depth; self.p = Poly.at(sym)
        self.parallel = any('parallel' in p for p in pragmas)
    def facts(self): return [le(self.lo, self.p), lt(self.p, self.hi)]
    def __repr__(self): return 'for %s in [%s, %s)%s' % (self.var, self.lo, self.hi, '' if self.step > 0 else ' descending')

class Event:
    def __init__(self, kind, loops, guard, line, stamp, **kw):
        self.kind = kind; self.loops = loops; self.guard = guard; self.line = line; self.stamp = stamp
        self.__dict__.update(kw)
    def __repr__(self):
        if self.kind == 'write': return '#%d L%s %s[%s] = %s  if %s' % (self.stamp, self.line, self.base, show(self.off), show(self.val, 6), show_cond(self.guard))
        return '#%d call %s%s' % (self.stamp, self.name, self.args)

SIZES = {('flt', 'float'): 4, ('flt', 'double'): 8}
def sizeof(ty):
    if ty in SIZES: return SIZES[ty]
    if ty[0] == 'int': return ty[1]
    if ty[0] == 'ptr': return 8
    raise Unsupported('sizeof %s' % (ty,))

class Frame:
    def __init__(self, func): self.func = func; self.ret = None; self.dead = FALSE

class Exec:
    def __init__(self, unit, opaque=(), names=None, consts=None, hyps=(), timeloop=None):
        self.u = unit; self.opaque = set(opaque); self.events = []; self.stamp = 0
        self.names = names or {}; self.consts = consts or {}
        self.guards = []; self.loops = []; self.scopes = []; self.frames = []
        self.dead = []            # per active loop body / function: condition under which the rest is skipped
        self.hyps = list(hyps); self.side = []      # side conditions needed for soundness: (hyps, goal, what)
        self.reads = []           # every array read: (base, off, loops, guard, line, ty)
        self.nsym = 0; self.calls = []
        self.elemtype = {}; self.timeloop = timeloop

    # ---- running
    def run(self, fname):
        f = self.u.funcs[fname]; args = []
        self.params = []
        for i, (n, ty) in enumerate(f['params']):
            nm = self.names.get(i, n) if isinstance(self.names, dict) else self.names[i]
            self.params.append(nm)
            args.append(self.param(nm, ty))
        self.ret = self.inline(f, args)
        return self

    def param(self, nm, ty):
        if nm in self.consts: return ('i', P(self.consts[nm]))
        if ty[0] == 'ptr':
            self.elemtype[nm] = ty[1]
            return ('p', Ptr(nm, ZERO, ty[1]))
        if ty[0] == 'int':
            if ty[1] == 1: return ('b', cmp_('!=', sym(nm)))
            return ('i', sym(nm))
        if ty[0] == 'flt': return ('f', sym(nm, 'f'))
        return ('o', ('param', nm))

    def inline(self, f, args):
        if len(self.frames) > 20: raise Unsupported('recursion')
        fr = Frame(f['name']); self.frames.append(fr)
        saved = self.scopes; self.scopes = [dict()]
        for (n, ty), a in zip(f['params'], args): self.declare(n, ty, self.conv(a, ty))
        self.dead.append(FALSE)
        self.stmt(f['body'])
        self.dead.pop()
        self.scopes = saved; self.frames.pop()
        return fr.ret

    def guard(self):
        return and_(*self.guards, *[not_(d) for d in self.dead if d != FALSE])

    # ---- environment
    def declare(self, n, ty, v): self.scopes[-1][n] = [ty, v]
    def lookup(self, n):
        for s in reversed(self.scopes):
            if n in s: return s[n]
        if n in self.u.globals:
            ty, init = self.u.globals[n]
            return [ty, self.init_val(ty, init)]
        raise Unsupported('unknown name ' + n)

    def init_val(self, ty, init):
        if init is None: return None
        if init[0] == 'init':
            if ty[0] != 'arr': raise Unsupported('initialiser')
            return ('a', [self.conv(self.ev(x), ty[1]) for x in init[1]])
        return self.conv(self.ev(init), ty)

    # ---- conversions
    def conv(self, v, ty):
        if v is None: return None
        k = v[0]
        if ty is None or ty[0] == 'void': return v
        if ty[0] == 'flt':
            if k == 'f': return v
            return ('f', self.num(v))
        if ty[0] == 'int':
            if ty[1] == 1 and k in ('b', 'i', 'o', 'p') and not (k == 'i' and getattr(self, '_u8', False)):
                return ('b', self.cond(v)) if k != 'i' or True else v
            if k == 'f':
                if v[1].isconst() and getattr(v[1].cval(), 'denominator', 1) == 1: return ('i', v[1])
                return ('i', Poly.at(atom('trunc', v[1], ty[1])))
            if k in ('i', 'b'): return ('i', self.num(v))
            raise Unsupported('convert %s to integer' % k)
        if ty[0] == 'ptr':
            if k == 'p':
                p = v[1]
                if ty[1] == p.ty or ty[1] == ('void',): return v if ty[1] == p.ty else ('p', Ptr(p.base, p.off, p.ty))
                if p.ty == ('void',): return ('p', Ptr(p.base, p.off, ty[1])) if p.off.iszero() else ('p', self.rescale(p, ty[1]))
                return ('p', self.rescale(p, ty[1]))
            if k == 'i' and v[1].iszero(): return ('o', ('null',))
            return v
        return v

    def rescale(self, p, ty):
        if p.off.iszero(): return Ptr(p.base, ZERO, ty)
        a = 1 if p.ty == ('void',) else sizeof(p.ty); b = sizeof(ty)
        off = p.off * a
        if b == 1: return Ptr(p.base, off, ty)
        q = Poly({m: c // b if type(c) is int and c % b == 0 else None for m, c in off.d.items()})
        if any(c is None for c in q.d.values()): raise Unsupported('pointer cast not a multiple of the element size')
        return Ptr(p.base, q, ty)

    def num(self, v):
        if v[0] in ('i', 'f'): return v[1]
        if v[0] == 'b': return ite(v[1], ONE, ZERO)
        raise Unsupported('number expected, got ' + str(v[0]))

    def cond(self, v):
        if v[0] == 'b': return v[1]
        if v[0] in ('i', 'f'):
            p = v[1]
            # ite(c,1,0) used as a condition
            if len(p.d) == 1:
                (m, c), = p.d.items()
                if len(m) == 1 and c == 1 and ATOMS[m[0]][0] == 'ite' and ATOMS[m[0]][2] == ONE and ATOMS[m[0]][3] == ZERO:
                    return ATOMS[m[0]][1]
            return cmp_('!=', p)
        if v[0] == 'o': return self.otrue(v[1])
        if v[0] == 'p': return ('not', ('isnull', v[1].base))
        raise Unsupported('condition')
    def otrue(self, o):
        if o == ('null',): return FALSE
        if o[0] == 'ite':
            a, b = self.otrue(o[2]), self.otrue(o[3])
            return or_(and_(o[1], a), and_(not_(o[1]), b))
        return TRUE if o[0] == 'fopen' else ('opq', o)

    # ---- statements
    def stmt(self, s):
        k = s[0]
        if self.guards and self.guards[-1] == FALSE: return
        if self.dead and self.dead[-1] == TRUE: return
        if k == 'block':
            self.scopes.append({})
            for x in s[1]: self.stmt(x)
            self.scopes.pop()
        elif k == 'decl':
            for n, ty, init in s[1]:
                if ty[0] == 'arr' and init is None:
                    n_ = self.ev(ty[2]) if ty[2] else None
                    if n_ is None or not n_[1].isconst(): raise Unsupported('local array of symbolic size')
                    self.declare(n, ty, ('a', [None] * n_[1].cval())); continue
                self.declare(n, ty, self.init_val(ty, init))
        elif k == 'expr': self.ev(s[1], s[2])
        elif k == 'empty': pass
        elif k == 'if': self.do_if(s)
        elif k == 'for': self.do_for(s)
        elif k == 'return':
            v = self.ev(s[1]) if s[1] is not None else None
            fr = self.frames[-1]
            g = self.local_guard()
            fr.ret = v if fr.ret is None else self.merge(g, v, fr.ret) if v is not None else None
            if self.in_loop(): raise Unsupported('return inside a loop')
            self.dead[-1] = or_(self.dead[-1], g)
        elif k == 'continue':
            if not self.in_loop(): raise Unsupported('continue')
            self.dead[-1] = or_(self.dead[-1], self.local_guard())
        elif k == 'break': raise Unsupported('break')
        else: raise Unsupported(k)

    def in_loop(self): return getattr(self, '_lmark', [])[-1:] and self._lmark[-1][1] == len(self.frames)
    def local_guard(self):
        """Guards opened since the innermost loop body or function was entered."""
        base = self._gmark[-1] if getattr(self, '_gmark', None) else 0
        return and_(*self.guards[base:], not_(self.dead[-1]))

    def assigned(self, s, out, local=()):
        """Names assigned in statement s that are not declared inside it."""
        def ex(e, loc):
            if not isinstance(e, tuple): return
            if e[0] == 'assign' and e[2][0] == 'id' and e[2][1] not in loc: out.add(e[2][1])
            if e[0] in ('pre', 'post') and e[2][0] == 'id' and e[2][1] not in loc: out.add(e[2][1])
            for x in e[1:]:
                if isinstance(x, tuple): ex(x, loc)
                elif isinstance(x, list):
                    for y in x: ex(y, loc)
        def st(s, loc):
            k = s[0]
            if k == 'block':
                loc = set(loc)
                for x in s[1]: loc = st(x, loc)
                return None
            if k == 'decl':
                for n, ty, init in s[1]:
                    if init is not None: ex(init, loc)
                    loc = loc | {n}
                return loc
            if k == 'expr': ex(s[1], loc)
            elif k == 'if':
                ex(s[1], loc); st(s[2], set(loc))
                if s[3]: st(s[3], set(loc))
            elif k == 'for':
                l2 = set(loc)
                if s[1][0] == 'decl': l2 = st(s[1], l2)
                elif s[1][0] == 'expr': ex(s[1][1], l2)
                if s[2]: ex(s[2], l2)
                if s[3]: ex(s[3], l2)
                st(s[4], l2)
            elif k == 'return' and s[1] is not None: ex(s[1], loc)
            return loc
        st(s, set(local)); return out

    def merge(self, c, a, b):
        if a == b: return a
        if c == TRUE or b is None: return a          # b undefined on the other branch: reading it there is undefined
        if c == FALSE or a is None: return b
        ka, kb = a[0], b[0]
        if 'o' in (ka, kb): return ('o', ('ite', c, a[1] if ka == 'o' else a, b[1] if kb == 'o' else b))
        if ka == 'b' and kb == 'b': return ('b', or_(and_(c, a[1]), and_(not_(c), b[1])))
        if ka == 'p' and kb == 'p': return ('p', self.psel(c, a[1], b[1]))
        if ka == 'a' or kb == 'a': 
            return ('a', [self.merge(c, x, y) for x, y in zip(a[1], b[1])])
        return ('f' if 'f' in (ka, kb) else 'i', ite(c, self.num(a), self.num(b)))

    def psel(self, c, a, b):
        if a.ty != b.ty: raise Unsupported('pointer types differ')
        if a.base == b.base: return Ptr(a.base, ite(c, a.off, b.off), a.ty)
        if a.off != b.off: raise Unsupported('selection between pointers with different offsets')
        c = self.norm_parity(c)
        n = not_(c)
        # canonical orientation: the smaller key is the condition
        if repr_key(n) < repr_key(c): c, a, b = n, b, a
        return Ptr(('sel', c, a.base, b.base), a.off, a.ty)

    def norm_parity(self, c): return c

    def snapshot(self):
        return [{n: list(x) for n, x in s.items()} for s in self.scopes]
    def restore(self, snap): self.scopes = [{n: list(x) for n, x in s.items()} for s in snap]

    def do_if(self, s):
        c = self.cond(self.ev(s[1]))
        if c == TRUE: self.stmt(s[2]); return
        if c == FALSE:
            if s[3]: self.stmt(s[3])
            return
        before = self.snapshot()
        self.guards.append(c); self.scoped(s[2]); self.guards.pop()
        after_a = self.scopes
        if s[3]:
            self.restore(before)
            self.guards.append(not_(c)); self.scoped(s[3]); self.guards.pop()
            after_b = self.scopes
        else: after_b = before
        out = []
        for sa, sb in zip(after_a, after_b):
            d = {}
            for n in sa: d[n] = [sa[n][0], self.merge(c, sa[n][1], sb[n][1])]
            out.append(d)
        self.scopes = out

    def scoped(self, s):
        self.scopes.append({}); self.stmt(s); self.scopes.pop()

    def do_for(self, s):
        _, init, cnd, step, body, pragmas, ln = s
        self.scopes.append({})
        if init[0] == 'decl': self.stmt(init); var = init[1][0][0] if len(init[1]) == 1 else None
        elif init[0] == 'expr': self.ev(init[1], ln); var = init[1][2][1] if init[1][0] == 'assign' and init[1][2][0] == 'id' else None
        else: var = None
        if cnd is None: raise Unsupported('loop without condition')
        # constant unrolling
        first = self.cond(self.ev(cnd))
        if first in (TRUE, FALSE):
            n = 0
            while True:
                c = self.cond(self.ev(cnd))
                if c == FALSE: break
                if c != TRUE or n > 200: raise Unsupported('loop bound')
                self.body(body)
                if step is not None: self.ev(step, ln)
                n += 1
            self.scopes.pop(); return
        if var is None or step is None:
            var, step, body = self.while_form(cnd, body)
        lo, hi, d, up = self.range_of(var, cnd, step)
        carried = self.assigned(body, set())
        if var in carried: raise Unsupported('loop variable assigned in the body')
        declared = {n for sc in self.scopes for n in sc}
        carried &= declared
        sn = atom('sym', 'i%d_%s' % (self.nsym, var), 'i'); self.nsym += 1
        L = Loop(sn, lo, hi, d, pragmas, ln, var, len(self.loops))
        val = L.p
        if self.timeloop is not None and len(self.loops) == 1 and not (lo == self.timeloop[0] and hi == self.timeloop[1]) and hi - lo == self.timeloop[1] - self.timeloop[0]:
            # the same number of iterations over another range: counted by the time step, the variable being an affine function of it
            L.lo, L.hi, L.step = self.timeloop
            val = L.p + (lo - L.lo) if d == L.step else lo + (L.hi - 1 - L.p)
        cell = self.lookup(var)
        entry = {n: self.lookup(n)[1] for n in carried}
        fresh = {}
        for n in carried:
            v = self.lookup(n); k = v[0]
            if v[1] is None: continue
            if v[1][0] in ('f', 'i'):
                fs = Poly.at(atom('sym', 'carry%d_%s' % (self.nsym, n), v[1][0])); self.nsym += 1
                fresh[n] = fs; v[1] = (v[1][0], fs)
            else: raise Unsupported('loop-carried %s' % n)
        cell[1] = ('i', val)
        self.loops.append(L)
        self.body(body)
        self.loops.pop()
        for n in carried:
            v = self.lookup(n)
            if n in fresh:
                after = v[1][1]
                if after == fresh[n]: v[1] = entry[n]; continue
                v[1] = (v[1][0], self.reduction(L, n, fresh[n], after, entry[n][1]))
            else: v[1] = None         # assigned before use in each iteration: unknown afterwards
        if up is not None and any(var in sc for sc in self.scopes[:-1]): self.lookup(var)[1] = ('i', Poly.at(atom('sym', 'after%d_%s' % (self.nsym, var), 'i')))
        self.scopes.pop()

    def while_form(self, cnd, body): raise Unsupported('while loop')

    def reduction(self, L, n, f, after, start):
        """Recognise s = s + g(k) (f not in g) and m = max(m, g(k))."""
        g = after - f
        fa, = f.atoms()
        if not self.mentions(g, fa): return start + Poly.at(atom('sum', L.sym, L.lo, L.hi, g))
        # ite(g > m, g, m)
        if len(after.d) == 1:
            (m, c), = after.d.items()
            if c == 1 and len(m) == 1 and ATOMS[m[0]][0] == 'ite':
                _, cc, x, y = ATOMS[m[0]]
                for cond, gx, fy in ((cc, x, y), (not_(cc), y, x)):
                    if fy == f and not self.mentions(gx, fa) and cond in (lt(f, gx), le(f, gx)):
                        return Poly.at(atom('max', L.sym, L.lo, L.hi, gx, start))
            if c == 1 and len(m) == 1 and ATOMS[m[0]][0] == 'max' and ATOMS[m[0]][5] == f:
                k = ATOMS[m[0]]       # nested reduction
                return Poly.at(atom('max', (k[1], L.sym) if not isinstance(k[1], tuple) else k[1] + (L.sym,),
                                    (k[2], L.lo) if not isinstance(k[2], tuple) else k[2] + (L.lo,),
                                    (k[3], L.hi) if not isinstance(k[3], tuple) else k[3] + (L.hi,), k[4], start))
        raise Unsupported('loop-carried variable %s' % n)

    def mentions(self, p, a):
        seen = set()
        def go(q):
            for x in q.atoms():
                if x == a: return True
                if x in seen: continue
                seen.add(x)
                for y in ATOMS[x][1:]:
                    if isinstance(y, Poly) and go(y): return True
                    if isinstance(y, tuple) and y and y[0] in ('cmp', 'and', 'or', 'not') and go(Poly({(z,): 1 for z in cond_atoms(y)})): return True
            return False
        return go(p)

    def body(self, body):
        if not hasattr(self, '_gmark'): self._gmark = []; self._lmark = []
        self._gmark.append(len(self.guards)); self._lmark.append((1, len(self.frames)))
        self.dead.append(FALSE)
        self.scoped(body)
        self.dead.pop(); self._gmark.pop(); self._lmark.pop()

    def range_of(self, var, cnd, step):
        d = None
        if step[0] in ('pre', 'post') and step[2] == ('id', var, step[2][2]): d = 1 if step[1] == '++' else -1
        elif step[0] == 'assign' and step[2][0] == 'id' and step[2][1] == var:
            if step[1] in ('+=', '-='):
                k = self.ev(step[3])
                if k[1].isconst(): d = k[1].cval() * (1 if step[1] == '+=' else -1)
            elif step[1] == '=':
                cell = self.lookup(var); sv = cell[1]; s0 = sym('tmpvar'); cell[1] = ('i', s0)
                k = self.num(self.ev(step[3])) - s0; cell[1] = sv
                if k.isconst(): d = k.cval()
        if d not in (1, -1): raise Unsupported('loop step')
        start = self.num(self.lookup(var)[1])
        cell = self.lookup(var); sv = cell[1]; s0 = sym('tmpvar'); cell[1] = ('i', s0)
        c = self.cond(self.ev(cnd)); cell[1] = sv
        if c[0] != 'cmp': raise Unsupported('loop condition')
        p = c[2]; (a,) = s0.atoms()
        co = p.d.get((a,), 0)
        if co not in (1, -1) or any(a in m and m != (a,) for m in p.d): raise Unsupported('loop condition')
        rest = p - s0 * co
        if c[1] == '!=':       # v != e with unit step
            e = -rest * co
            self.side.append((self.hyps[:], le(start, e) if d == 1 else le(e, start), 'loop with != terminates'))
            return (start, e, 1, 1) if d == 1 else (e + 1, start + 1, -1, 1)
        if d == 1 and co == 1:      # v + rest < 0
            hi = -rest + (1 if c[1] == '<=' else 0)
            return start, hi, 1, 1
        if d == -1 and co == -1:    # -v + rest < 0   i.e. v > rest
            lo = rest + (0 if c[1] == '<=' else 1)
            return lo, start + 1, -1, 1
        raise Unsupported('loop direction')

    # ---- expressions
    def ev(self, e, ln=None):
        k = e[0]
        if k == 'int': return ('i', P(e[1]))
        if k == 'flt': return ('f', P(e[1]))
        if k == 'str': return ('o', ('str', e[1]))
        if k == 'id':
            if e[1] in ('NULL', '__null'): return ('o', ('null',))
            v = self.lookup(e[1])[1]
            if v is None: raise Unsupported('use of undefined %s' % e[1])
            return v
        if k == 'idx': return self.read(*self.place(e), ln=e[3])
        if k == 'cast': 
            v = self.ev(e[2], ln)
            if e[1] == ('int', 1, False) and v[0] in ('f', 'i'):      # (uint8_t) of a number
                return ('i', Poly.at(atom('trunc', v[1], 1))) if v[0] == 'f' else v
            return self.conv(v, e[1])
        if k == 'cond':
            c = self.cond(self.ev(e[1], ln))
            if c == TRUE: return self.ev(e[2], ln)
            if c == FALSE: return self.ev(e[3], ln)
            self.guards.append(c); a = self.ev(e[2], ln); self.guards.pop()
            self.guards.append(not_(c)); b = self.ev(e[3], ln); self.guards.pop()
            return self.merge(c, a, b)
        if k == 'comma': self.ev(e[1], ln); return self.ev(e[2], ln)
        if k == 'sizeof': return ('i', P(sizeof(e[1])))
        if k == 'un': return self.unary(e, ln)
        if k == 'bin': return self.binary(e, ln)
        if k == 'assign': return self.assign(e)
        if k in ('pre', 'post'):
            old = self.ev(e[2], e[3])
            one = ('i', ONE)
            new = self.arith('+' if e[1] == '++' else '-', old, one)
            self.store(e[2], new, e[3])
            return new if k == 'pre' else old
        if k == 'call': return self.call(e)
        raise Unsupported(k)

    def unary(self, e, ln):
        op = e[1]
        if op == '*': 
            p = self.ev(e[2], ln)
            if p[0] != 'p': raise Unsupported('dereference')
            return self.read(p[1], ln=ln)
        if op == '&':
            if e[2][0] == 'idx':
                pl = self.place(e[2])
                if isinstance(pl[0], Ptr): return ('p', pl[0])
            if e[2][0] == 'un' and e[2][1] == '*': return self.ev(e[2][2], ln)
            raise Unsupported('address of')
        v = self.ev(e[2], ln)
        if op == '-': return ('f' if v[0] == 'f' else 'i', -self.num(v))
        if op == '+': return v
        if op == '!': return ('b', not_(self.cond(v)))
        raise Unsupported('unary ' + op)

    def arith(self, op, a, b):
        if a[0] == 'p' and b[0] in ('i', 'b') and op in '+-':
            o = self.num(b); p = a[1]
            return ('p', Ptr(p.base, p.off + o if op == '+' else p.off - o, p.ty))
        if b[0] == 'p' and a[0] in ('i', 'b') and op == '+': return self.arith('+', b, a)
        if 'p' in (a[0], b[0]): raise Unsupported('pointer arithmetic')
        f = 'f' in (a[0], b[0]); x, y = self.num(a), self.num(b)
        if op == '+': r = x + y
        elif op == '-': r = x - y
        elif op == '*': r = x * y
        elif op == '/':
            if f: r = fdiv(x, y)
            else:
                r = idiv(x, y)
        elif op == '%': r = imod(x, y)
        else: raise Unsupported(op)
        return ('f' if f else 'i', r)

    def binary(self, e, ln):
        op = e[1]
        if op in ('&&', '||'):
            a = self.cond(self.ev(e[2], ln))
            if a == (FALSE if op == '&&' else TRUE): return ('b', a)
            self.guards.append(a if op == '&&' else not_(a))
            b = self.cond(self.ev(e[3], ln)); self.guards.pop()
            return ('b', and_(a, b) if op == '&&' else or_(a, b))
        a = self.ev(e[2], ln); b = self.ev(e[3], ln)
        if op in ('+', '-', '*', '/', '%'): return self.arith(op, a, b)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if 'o' in (a[0], b[0]) or 'p' in (a[0], b[0]):
                if op in ('==', '!='):
                    o, n = (a, b) if a[0] in 'op' and not (a == ('o', ('null',))) else (b, a)
                    if n == ('o', ('null',)) or (n[0] == 'i' and n[1].iszero()):
                        c = self.cond(o); return ('b', not_(c) if op == '==' else c)
                raise Unsupported('pointer comparison')
            if a[0] == 'b' and b[0] in ('b', 'i') or b[0] == 'b' and a[0] in ('b', 'i'):
                if a[0] == 'b' and b[0] == 'b' and op in ('==', '!='):
                    c = or_(and_(a[1], b[1]), and_(not_(a[1]), not_(b[1])))
                    return ('b', c if op == '==' else not_(c))
                x, y = (a, b) if a[0] == 'b' else (b, a)
                if y[0] == 'i' and y[1].isconst() and op in ('==', '!=') and y[1].cval() in (0, 1):
                    c = x[1] if (y[1].cval() == 1) == (op == '==') else not_(x[1])
                    return ('b', c)
            x, y = self.num(a), self.num(b)
            if op == '<': return ('b', cmp_('<', x - y))
            if op == '<=': return ('b', cmp_('<=', x - y))
            if op == '>': return ('b', cmp_('<', y - x))
            if op == '>=': return ('b', cmp_('<=', y - x))
            return ('b', cmp_(op, x - y))
        if op == '&':
            if b[0] == 'i' and b[1] == ONE and a[0] == 'i':
                self.side.append((self.facts(), le(ZERO, a[1]), 'operand of "& 1" is non-negative'))
                return ('i', imod(a[1], P(2)))
            if a[0] == 'b' and b[0] == 'b': return ('b', and_(a[1], b[1]))
        if op == '|' and a[0] == 'b' and b[0] == 'b': return ('b', or_(a[1], b[1]))
        if op == '^' and a[0] == 'b' and b[0] == 'b':
            return ('b', or_(and_(a[1], not_(b[1])), and_(not_(a[1]), b[1])))
        raise Unsupported('operator ' + op)

    def facts(self):
        return self.hyps + [f for L in self.loops for f in L.facts()] + [g for g in [self.guard()] if g != TRUE]

    # ---- memory
    def place(self, e):
        """e is an 'idx' expression -> (Ptr,) or ('local', list, index)"""
        if e[1][0] == 'id':
            c = self.lookup(e[1][1])
            if c[1] is not None and c[1][0] == 'a':
                i = self.ev(e[2], e[3])
                if not self.num(i).isconst(): raise Unsupported('symbolic index into a local array')
                return ('local', c[1][1], int(self.num(i).cval()))
        b = self.ev(e[1], e[3]); i = self.ev(e[2], e[3])
        if b[0] != 'p': raise Unsupported('index of non-pointer')
        p = b[1]
        return (Ptr(p.base, p.off + self.num(i), p.ty),)

    def read(self, p, *rest, ln=None):
        if p == 'local':
            lst, i = rest
            if not 0 <= i < len(lst): raise Unsupported('local array index %d out of range' % i)
            v = lst[i]
            if v is None: raise Unsupported('undefined local array element')
            return v
        self.reads.append((p.base, p.off, tuple(self.loops), self.guard(), ln, p.ty, self.stamp))
        # store-to-load forwarding inside the same iteration
        g = self.guard()
        val = None
        a = atom('rd', p.base, p.off, self.stamp, p.ty)
        res = Poly.at(a) if p.ty[0] != 'ptr' else None
        if p.ty[0] == 'ptr': return ('o', ('rdp', p.base, p.off))
        if p.ty[0] == 'opaque' or p.ty == ('void',): raise Unsupported('read through %s' % (p.ty,))
        cur = None; chain = []
        for ev in reversed(self.events):
            if len(ev.loops) < len(self.loops) or ev.loops[:len(self.loops)] != tuple(self.loops): break
            if ev.kind == 'call': 
                if p.base in ev.writes: break
                continue
            if ev.base == p.base and ev.off == p.off and len(ev.loops) == len(self.loops):
                chain.append(ev)
                if implies_known(g, ev.guard): break
        if chain:
            if not implies_known(g, chain[-1].guard):
                first = chain[-1]
                res = Poly.at(atom('rd', p.base, p.off, first.stamp, p.ty))
                lst = list(reversed(chain))
            else: lst = list(reversed(chain)); res = None
            for ev in lst:
                res = ev.val if res is None else ite(ev.guard, ev.val, res)
        if p.ty[0] == 'flt': return ('f', res)
        return ('i', res)

    def assign(self, e):
        _, op, l, r, ln = e
        v = self.ev(r, ln)
        if op != '=':
            old = self.ev(l, ln)
            v = self.arith(op[0], old, v) if op[0] in '+-*/%' else self.binary_val(op[:-1], old, v)
        return self.store(l, v, ln)

    def binary_val(self, op, a, b): raise Unsupported('compound ' + op)

    def store(self, l, v, ln):
        if l[0] == 'id':
            c = self.lookup(l[1]); v = self.conv(v, c[0])
            g = self.dead[-1] if self.dead else FALSE
            if g != FALSE: v = self.merge(not_(g), v, c[1])
            c[1] = v; return v
        if l[0] == 'idx': pl = self.place(l)
        elif l[0] == 'un' and l[1] == '*': pl = (self.ev(l[2], ln)[1],)
        else: raise Unsupported('assignment target')
        if pl[0] == 'local':
            pl[1][pl[2]] = v; return v
        p = pl[0]
        if p.ty[0] == 'flt': v = ('f', self.num(v))
        elif p.ty == ('int', 1, False) and v[0] == 'f': v = ('i', Poly.at(atom('trunc', v[1], 1)))
        elif p.ty[0] == 'int': v = ('i', self.num(v))
        else: raise Unsupported('store through %s' % (p.ty,))
        self.events.append(Event('write', tuple(self.loops), self.guard(), ln, self.stamp, base=p.base, off=p.off, val=v[1], ty=p.ty))
        self.stamp += 1
        return v

    # ---- calls
    EXTERN = {'fopen', 'fclose', 'fseek', 'fwrite', 'fread', 'memset', 'memcpy', 'printf', 'fprintf', 'omp_get_thread_num', 'fabs', 'fabsf'}
    def call(self, e):
        if e[1][0] != 'id': raise Unsupported('indirect call')
        n = e[1][1]
        args = [self.ev(a, e[3]) for a in e[2]]
        if n in self.u.funcs and n not in self.opaque:
            r = self.inline(self.u.funcs[n], args)
            ty = self.u.funcs[n]['ret']
            return self.conv(r, ty) if r is not None else ('o', ('void',))
        if n == 'omp_get_thread_num': return ('i', sym('tid'))
        if n == 'omp_get_max_threads' or n == 'omp_get_num_threads': return ('i', sym('omp_n'))
        if n in ('fabs', 'fabsf'):
            x = self.num(args[0]); return ('f', ite(le(ZERO, x), x, -x))
        if n in self.u.funcs or n in self.u.protos:
            ps = (self.u.funcs.get(n) or self.u.protos[n])['params']
            if len(ps) == len(args): args = [self.conv(a, t) for a, (_, t) in zip(args, ps)]
        ev = Event('call', tuple(self.loops), self.guard(), e[3], self.stamp, name=n, args=args, writes=set())
        for a in args:
            if a[0] == 'p': ev.writes.add(a[1].base)
        self.events.append(ev); self.stamp += 1
        if n == 'fopen': return ('o', ('fopen', args[0][1], args[1][1]))
        return ('o', ('ret', n, self.stamp))

def repr_key(c): return show_cond(c)

def implies_known(g, h):
    if h == TRUE or g == h: return True
    gs = set(g[1]) if g[0] == 'and' else {g}
    hs = set(h[1]) if h[0] == 'and' else {h}
    return hs <= gs

def fdiv(x, y):
    if y.isconst():
        if not y.cval(): raise Unsupported('division by zero')
        return x * (Fraction(1) / y.cval())
    if len(y.d) == 1:
        (m, c), = y.d.items()
        r = x * (Fraction(1) / c)
        for a in m:
            k = ATOMS[a]
            r = r * (k[1] if k[0] == 'inv' else Poly.at(atom('inv', Poly.at(a))))
        return r
    return x * Poly.at(atom('inv', y))

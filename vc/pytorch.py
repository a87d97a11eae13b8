"""A symbolic stand-in for the parts of torch that /repo/src/deepwave uses. A tensor is a shape (ints or symbolic) and a
storage whose elements are given by a function of the index; views share the storage, in-place writes replace the
storage's function by a conditional one. Elements are evaluated only at the (symbolic) indices an obligation asks for,
so every statement about an element is a statement about all elements. Each operation's contract is the documented
torch semantics (trusted)."""
import sys, types, math as _math, importlib, os
from fractions import Fraction
from . import pysym
from .pysym import *
from .terms import *

class SymTorchError(RuntimeError): pass

# ---- dtypes, devices --------------------------------------------------------------------------------------
class dtype:
    def __init__(self, name, size, fl, cx=False): self.name = name; self.itemsize = size; self.is_floating_point = fl; self.is_complex = cx
    def __repr__(self): return 'torch.' + self.name
    def __reduce__(self): return (str, (self.name,))
float32 = dtype('float32', 4, True); float64 = dtype('float64', 8, True); float16 = dtype('float16', 2, True)
int64 = dtype('int64', 8, False); int32 = dtype('int32', 4, False); uint8 = dtype('uint8', 1, False); bool_ = dtype('bool', 1, False); complex64 = dtype('complex64', 8, False, True); complex128 = dtype('complex128', 16, False, True)
def dkind(d): return 'f' if d.is_floating_point or d.is_complex else ('b' if d is bool_ else 'i')
class device:
    def __init__(self, type='cpu', index=None):
        if isinstance(type, device): type = type.type
        self.type = type.split(':')[0]; self.index = index
    def __eq__(self, o): return str(self) == str(o) if isinstance(o, (device, str)) else NotImplemented
    def __hash__(self): return hash(self.type)
    def __repr__(self): return self.type
class Size(tuple):
    def numel(self): return prod_(self)
    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return Size(r) if isinstance(i, slice) else r
    def __add__(self, o): return Size(tuple.__add__(self, tuple(o)))
    def __eq__(self, o):
        if not isinstance(o, (tuple, list)): return False
        if len(self) != len(o): return False
        for a, b in zip(self, o):
            if not (a == b): return False
        return True
    def __ne__(self, o): return not self.__eq__(o)
    __hash__ = tuple.__hash__
def prod_(xs):
    r = 1
    for x in xs: r = r * x
    return r

# ---- storage ----------------------------------------------------------------------------------------------
class Storage:
    n = 0
    def __init__(self, shape, fn, kind):
        self.shape = shape; self.fn = memo(fn); self.kind = kind; self.tag = None; self.writes = 0
        Storage.n += 1; self.id = Storage.n
        if Path.cur is not None: L = Path.cur.loops.setdefault('storages', []); self.serial = len(L); L.append(self)
    def write(self, fn): self.fn = memo(fn); self.writes += 1
def memo(f):
    c = {}
    def g(ix):
        k = (ix, Path.cur.hk if Path.cur else 0)
        r = c.get(k)
        if r is None: r = c[k] = f(ix)
        return r
    return g

def ixp(i): return i.p if isinstance(i, S) else (P(i) if not isinstance(i, Poly) else i)
def sz(x): return ixp(x)
def dim_(p): return mk(p, 'i')
def quotient(n, k):
    """n // k where k divides n (the missing size of a view)"""
    a, b = sz(n), sz(k)
    if b.iszero(): return n // k
    lead = lambda p: max(p.d, key=lambda m: (len(m), m))
    lb = lead(b); q = ZERO; r = a; left = 60
    while not r.iszero() and left:
        left -= 1; m = list(lead(r))
        for x in lb:
            if x not in m: return n // k
            m.remove(x)
        t = Poly({tuple(m): Fraction(r.d[lead(r)]) / b.d[lb]}); q = q + t; r = r - t * b
    if not r.iszero(): return n // k
    return int(next(iter(q.d.values()))) if q.isconst() else mk(q, 'i')

def ite_val(c, a, b):
    """conditional value, decided when the path condition settles it"""
    k = Path.cur.known(c) if c not in (TRUE, FALSE) else (c == TRUE)
    if k is True: return a
    if k is False: return b
    if isinstance(a, tuple) or isinstance(b, tuple): return or_(and_(c, a), and_(not_(c), b))
    return ite(c, a, b)

def lists_(key):
    """lists in an index are integer index tensors"""
    if isinstance(key, list): key = (tensor(key),)
    if not isinstance(key, tuple): key = (key,)
    return tuple(tensor(k) if isinstance(k, list) else k for k in key)
class Tensor:
    _is_sym_tensor = True
    def __init__(self, shape, fn=None, dt=float32, st=None, map=None, masked=None):
        self.shape_ = tuple(shape); self.dtype = dt; self.requires_grad = False; self.device = device('cpu'); self.masked = masked; self.grad = None
        if st is None: st = Storage(self.shape_, fn, dkind(dt)); map = tuple(('d', j, ZERO, 1) for j in range(len(self.shape_)))
        self.st = st; self.map = map
    # -- element access
    def reader(self):
        f = self.st.fn; mp = self.map
        def r(ix):
            return f(tuple((m[2] + ix[m[1]] * m[3]) if m[0] == 'd' else m[1] for m in mp))
        return r
    def at(self, *ix):
        ix = tuple(ixp(i) for i in ix)
        assert len(ix) == len(self.shape_), (ix, self.shape_)
        return self.reader()(ix)
    def write(self, val):
        """val: function of the view index -> value; the whole view is overwritten"""
        old = self.st.fn; mp = self.map; shp = self.shape_
        def f(sx):
            ix = [ZERO] * len(shp); cs = []
            for m, s in zip(mp, sx):
                if m[0] == 'c': cs.append(eq(s, m[1]))
                else:
                    d = s - m[2]
                    if m[3] == 1: ix[m[1]] = d
                    elif m[3] == -1: ix[m[1]] = -d
                    else:
                        q = floordiv(d, P(m[3])); cs.append(eq(d - q * m[3], 0)); ix[m[1]] = q
                    cs.append(le(0, ix[m[1]])); cs.append(lt(ix[m[1]], sz(shp[m[1]])))
            c = and_(*cs); k = Path.cur.known(c)
            if k is False: return old(sx)
            if k is True: return val(tuple(ix))
            return ite_val(c, val(tuple(ix)), old(sx))
        self.st.write(f)
    # -- shape
    @property
    def shape(self): return Size(self.shape_)
    def size(self, d=None): return self.shape if d is None else self.shape_[d]
    @property
    def ndim(self): return len(self.shape_)
    def dim(self): return len(self.shape_)
    def numel(self): return prod_(self.shape_)
    def nelement(self): return self.numel()
    def element_size(self): return self.dtype.itemsize
    @property
    def is_cuda(self): return False
    @property
    def itemsize(self): return self.dtype.itemsize
    def is_contiguous(self, **k): return not self.noncontig and self.is_identity()
    def is_floating_point(self): return self.dtype.is_floating_point
    def is_complex(self): return self.dtype.is_complex
    def __len__(self): return self.shape_[0].__index__() if isinstance(self.shape_[0], S) else self.shape_[0]
    def _new(self, shape, fn, dt=None): t = Tensor(shape, fn, dt or self.dtype); t.requires_grad = False; return t
    def _view(self, shape, map):
        t = Tensor(shape, None, self.dtype, self.st, tuple(map)); t.requires_grad = self.requires_grad; return t
    def item(self):
        if len(self.shape_): 
            assert all(s == 1 for s in self.shape_)
        v = self.reader()(tuple(ZERO for _ in self.shape_))
        return mkb(v) if isinstance(v, tuple) else mk(v, dkind(self.dtype) if dkind(self.dtype) != 'b' else 'i')
    def __bool__(self):
        v = self.item()
        return bool(v)
    def __index__(self): return self.item().__index__()
    def __int__(self):
        v = self.item(); return v.__index__()
    def __float__(self): return float(self.item())
    def tolist(self):
        if not self.shape_: return self.item()
        return [self[i].tolist() for i in range(self.shape_[0].__index__())]
    def __iter__(self):
        for i in range(self.shape_[0].__index__()): yield self[i]
    def is_identity(self): return len(self.map) == len(self.shape_) == len(self.st.shape) and all(m == ('d', j, ZERO, 1) for j, m in enumerate(self.map)) and all(sz(a) == sz(b) for a, b in zip(self.shape_, self.st.shape))
    noncontig = False
    def contiguous(self, **k):
        if not self.noncontig and self.is_identity(): return self
        r = self.clone(); r.requires_grad = self.requires_grad; r.origin = getattr(self, 'origin', self); return r
    def detach(self): return self._alias()
    def _alias(self): t = Tensor(self.shape_, None, self.dtype, self.st, self.map, self.masked); t.requires_grad = False; return t
    def clone(self): r = self._new(self.shape_, self.reader()); r.masked = self.masked; r.st.tag = self.st.tag; return r
    def cpu(self): return self
    def cuda(self): return self
    def requires_grad_(self, v=True): self.requires_grad = v; return self
    def type(self, dt): return self.to(dt)
    def to(self, *a, **kw):
        dt = kw.get('dtype')
        for x in a:
            if isinstance(x, dtype): dt = x
            elif isinstance(x, Tensor): dt = x.dtype
        if dt is None or dt is self.dtype: return self
        return cast_(self, dt)
    def float(self): return self.to(float32)
    def double(self): return self.to(float64)
    def long(self): return self.to(int64)
    def int(self): return self.to(int32)
    def bool(self): return self.to(bool_)
    def data_ptr(self): return Ptr(self)
    def stride(self, d=None):
        st = [];
        for j in range(len(self.shape_)): st.append(prod_(self.shape_[j + 1:]))
        return tuple(st) if d is None else st[d]
    # -- views
    def __getitem__(self, key):
        t = self._index(key)
        return t
    def _index(self, key):
        key = list(lists_(key))
        if len(key) == 1 and isinstance(key[0], Tensor) and key[0].dtype is bool_ and key[0].ndim == self.ndim and self.ndim: return Masked(self, key[0])
        nd = sum(1 for k in key if k is not None and k is not Ellipsis)
        n = len(self.shape_)
        if any(k is Ellipsis for k in key):
            i = next(i for i, k in enumerate(key) if k is Ellipsis); key[i:i + 1] = [slice(None)] * (n - nd)
        else: key += [slice(None)] * (n - nd)
        pm = self._partial(key)
        if pm is not None: return Masked(self, pm)
        adv = [(i, k) for i, k in enumerate(key) if isinstance(k, Tensor) and k.ndim]
        if adv: return self._adv(key)
        shape = []; new = {}     # view dim -> ('d', newdim, off, step) / ('c', off)
        j = 0
        for k in key:
            if k is None: shape.append(1); continue
            if j >= n: raise IndexError('too many indices')
            s = self.shape_[j]
            if isinstance(k, slice):
                st, ln, step = slice_(k, s)
                new[j] = ('d', len(shape), st, step); shape.append(ln)
            else:
                if isinstance(k, Tensor): k = k.item()
                p = of(k)[0]
                if p.isconst() and p.cval() < 0: p = p + sz(s)
                elif not p.isconst() and Path.cur.known(le(0, p)) is None and decide(lt(p, 0)): p = p + sz(s)
                c = and_(le(0, p), lt(p, sz(s)))
                if not decide(c): raise IndexError('index out of range')
                new[j] = ('c', p)
            j += 1
        mp = []
        for m in self.map:
            if m[0] == 'c': mp.append(m); continue
            q = new.get(m[1])
            if q[0] == 'c': mp.append(('c', m[2] + q[1] * m[3]))
            else: mp.append(('d', q[1], m[2] + q[2] * m[3], m[3] * q[3]))
        return self._view(shape, mp)
    def _partial(self, key):
        """x[:, ..., mask] with a boolean mask of the trailing dimensions: the mask over all of x"""
        ks = [k for k in key if not (isinstance(k, slice) and k == slice(None))]
        if len(ks) != 1 or not isinstance(ks[0], Tensor) or ks[0].dtype is not bool_ or not isinstance(key[0], slice): return None
        i = next(i for i, k in enumerate(key) if k is ks[0]); m = ks[0]
        if i + m.ndim != len(self.shape_): return None
        mr = m.reader(); return Tensor(self.shape_, lambda ix: mr(tuple(ix[i:])), bool_)
    def _adv(self, key):
        key = list(key)
        if any(k is None for k in key): raise Unsupported('None with index tensors')
        ti = [i for i, k in enumerate(key) if isinstance(k, Tensor) and k.ndim]
        # a single boolean mask on leading dims is not supported; integer index tensors are broadcast together
        ints = [i for i, k in enumerate(key) if not isinstance(k, slice)]
        bs = ()
        for i in ti:
            if key[i].dtype is bool_: raise Unsupported('partial mask index')
            bs = bshape(bs, key[i].shape_)
        rd = self.reader(); contig = ints == list(range(ints[0], ints[-1] + 1)); pos = ints[0] if contig else 0
        sl = {}; shape = []; 
        for i, k in enumerate(key):
            if isinstance(k, slice): sl[i] = slice_(k, self.shape_[i])
        out = []; order = []
        for i in range(len(key)):
            if i == (pos if contig else 0) and not (not contig and False): pass
        res = []
        if not contig: res += [('b', b) for b in range(len(bs))]
        for i, k in enumerate(key):
            if contig and i == pos: res += [('b', b) for b in range(len(bs))]
            if isinstance(k, slice): res.append(('s', i))
        shape = [bs[r[1]] if r[0] == 'b' else sl[r[1]][1] for r in res]
        kr = {i: (breader(key[i], len(bs)) if isinstance(key[i], Tensor) and key[i].ndim else (lambda v: lambda ix: v)(of(key[i].item() if isinstance(key[i], Tensor) else key[i])[0])) for i in ints}
        ss = self.shape_
        def f(ix):
            b = tuple(ix[n] for n, r in enumerate(res) if r[0] == 'b'); full = []
            for i, k in enumerate(key):
                if isinstance(k, slice): n = res.index(('s', i)); full.append(sl[i][0] + ix[n] * sl[i][2])
                else:
                    v = kr[i](b); full.append(v if Path.cur.known(le(0, v)) else ite_val(lt(v, 0), v + sz(ss[i]), v))
            return rd(tuple(full))
        return self._new(shape, f)
    def __setitem__(self, key, val):
        if isinstance(key, (tuple, list)): key = lists_(key)
        if isinstance(key, (tuple, list)) and any(isinstance(k, Tensor) for k in key):
            pm = self._partial(list(key))
            if pm is not None: key = pm
        if isinstance(key, Tensor) and key.dtype is bool_ and key.ndim == self.ndim:
            rd = self.reader(); m = key.reader()
            if isinstance(val, Masked):
                vr = val.src.reader()
            else:
                if isinstance(val, Tensor): raise Unsupported('mask assignment of a tensor')
                p = of(val)[0]; vr = lambda ix: p
            if self.dtype is not float32 and self.dtype.is_floating_point is False and isinstance(val, Masked) and val.dtype.is_floating_point: raise SymTorchError('dtype of masked assignment')
            self.write(lambda ix: ite_val(m(ix), vr(ix), rd(ix)) if True else None); return
        v = self[key]
        if isinstance(key, Tensor) or (isinstance(key, tuple) and any(isinstance(k, Tensor) and k.ndim for k in key)): return self._advset(key, val)
        v.copy_(val)
    def _advset(self, key, val):
        key = list(key) if isinstance(key, tuple) else [key]
        ti = [i for i, k in enumerate(key) if isinstance(k, Tensor) and k.ndim]
        if len(ti) != 1 or key[ti[0]].ndim != 1 or issym(key[ti[0]].shape_[0]) or any(k is None or k is Ellipsis for k in key): raise Unsupported('assignment through index tensors')
        i = ti[0]; n = key[i].shape_[0]; tgt = self._adv(key + [slice(None)] * (len(self.shape_) - len(key)))
        ints = [j for j, k in enumerate(key) if not isinstance(k, slice)]; contig = ints == list(range(ints[0], ints[-1] + 1))
        pos = sum(1 for k in key[:ints[0]] if isinstance(k, slice)) if contig else 0
        if isinstance(val, Tensor):
            if len(bshape(tgt.shape_, val.shape_)) != len(tgt.shape_): raise SymTorchError('shape of assignment')
            val = val.clone(); r = breader(val, len(tgt.shape_))
        for q in range(n):
            sub = list(key); sub[i] = mk(key[i].at(P(q)), 'i'); v = self[tuple(sub)]
            if isinstance(val, Tensor):
                w = Tensor(v.shape_, (lambda q: lambda ix: r(tuple(ix[:pos]) + (P(q),) + tuple(ix[pos:])))(q), val.dtype); v.copy_(w)
            else: v.copy_(val)
    def copy_(self, val):
        k = dkind(self.dtype)
        if isinstance(val, Tensor):
            bs = bshape(self.shape_, val.shape_)
            if len(bs) != len(self.shape_): raise SymTorchError('shape of assignment')
            r = breader(val, len(self.shape_)); vk = dkind(val.dtype)
            if vk != k: r0 = r; r = lambda ix: conv(r0(ix), vk, k)
        else:
            p = conv(val.c if isinstance(val, B) else of(val)[0], 'b' if isinstance(val, B) else of(val)[1], k); r = lambda ix: p
        self.write(r); return self
    def fill_(self, v): return self.copy_(v)
    def zero_(self): self.st.zero_tag = True; return self.copy_(0)
    def unsqueeze(self, d):
        d = d % (self.ndim + 1); return self[tuple([slice(None)] * d + [None])]
    def squeeze(self, d=None):
        ds = [i for i, s in enumerate(self.shape_) if not issym(s) and s == 1] if d is None else ([d % self.ndim] if self.shape_[d] == 1 else [])
        return self[tuple(0 if i in ds else slice(None) for i in range(self.ndim))] if ds else self
    def expand(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        ex = len(shape) - self.ndim; out = []; mp = list(self.map)
        for j, s in enumerate(shape):
            if j < ex: out.append(s); continue
            o = self.shape_[j - ex]
            if (not issym(s) and s == -1): out.append(o)
            else: out.append(s)
        nm = []
        for m in self.map:
            if m[0] == 'c': nm.append(m)
            else:
                o = self.shape_[m[1]]; s = out[m[1] + ex]
                if not issym(o) and o == 1 and not (not issym(s) and s == 1): nm.append(('c', m[2]))
                else:
                    if not (o == s): raise SymTorchError('expand of a dimension of size %s to %s' % (o, s))
                    nm.append(('d', m[1] + ex, m[2], m[3]))
        return self._view(out, nm)
    def repeat(self, *n):
        if len(n) == 1 and isinstance(n[0], (tuple, list)): n = tuple(n[0])
        ex = len(n) - self.ndim; r = self.reader(); ss = (1,) * ex + self.shape_
        def f(ix):
            o = []
            for j, i in enumerate(ix):
                if j < ex: continue
                s = ss[j]; m = n[j]
                if not issym(m) and m == 1: o.append(i)
                elif not issym(s) and s == 1: o.append(ZERO)
                else: o.append(i - floordiv(i, sz(s)) * sz(s))
            return r(tuple(o))
        return self._new([s * m for s, m in zip(ss, n)], f)
    def movedim(self, a, b):
        o = list(range(self.ndim)); a %= self.ndim; b %= self.ndim; o.remove(a); o.insert(b, a)
        return self.permute(*o)
    def permute(self, *o):
        if len(o) == 1 and isinstance(o[0], (tuple, list)): o = tuple(o[0])
        return self._view([self.shape_[i] for i in o], [m if m[0] == 'c' else ('d', o.index(m[1]), m[2], m[3]) for m in self.map])
    def transpose(self, a, b):
        o = list(range(self.ndim)); o[a], o[b] = o[b], o[a]; return self.permute(*o)
    def t(self): return self.transpose(0, 1)
    def flatten(self): return self.reshape(-1)
    def view(self, *s): return self.reshape(*s)
    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)): s = tuple(s[0])
        n = self.numel()
        if any(not issym(x) and x == -1 for x in s):
            k = prod_([x for x in s if issym(x) or x != -1]); s = tuple(quotient(n, k) if (not issym(x) and x == -1) else x for x in s)
        old = self.shape_; r = self.reader()
        # common prefix stays, the rest is ravelled
        pre = 0
        while pre < min(len(old), len(s)) and sz(old[pre]) == sz(s[pre]): pre += 1
        def f(ix):
            k = ZERO
            for i, d in zip(ix[pre:], s[pre:]): k = k * sz(d) + i
            o = []
            rest = old[pre:]
            for j in range(len(rest)):
                m = sz(prod_(rest[j + 1:]))
                if j == len(rest) - 1: o.append(k)
                else: q = floordiv(k, m); o.append(q); k = k - q * m
            if not rest: o = []
            return r(tuple(ix[:pre]) + tuple(o))
        if len(old) == len(s) == pre: return self
        fo = getattr(self, 'flat_of', None)
        if fo and self.st.writes != getattr(self, 'nscat', 0): raise Unsupported('write to a flattened view')
        if fo and fo[0] is not None and len(fo[0].shape_) == len(s) and all(sz(a) == sz(b) for a, b in zip(fo[0].shape_, s)): return fo[0]._new(s, fo[0].reader()) if not fo[1] else fo[0]._alias()
        r_ = self._new(s, f)
        if len(s) == 2 and pre == 1 and len(old) > 2 and self.is_identity(): r_.flat_of = (self, True)
        return r_
    def split(self, n, dim=0):
        dim %= self.ndim; s = self.shape_[dim]
        if isinstance(n, (list, tuple)):
            out = []; o = 0
            for k in n: out.append(self[tuple([slice(None)] * dim + [slice(o, o + k)])]); o = o + k
            return tuple(out)
        raise Unsupported('split')
    def unbind(self, dim=0): return tuple(self[tuple([slice(None)] * dim + [i])] for i in range(self.shape_[dim].__index__()))
    def resize_(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)): s = tuple(s[0])
        nm = sname('resized', s)
        self.shape_ = tuple(s); self.st = Storage(self.shape_, array_fn(nm, len(s), dkind(self.dtype)), dkind(self.dtype)); self.map = tuple(('d', j, ZERO, 1) for j in range(len(s)))
        return self
    # -- reductions
    def _red(self, name, dim=None, keepdim=False):
        if name == 'sum' and type(dim) is int and not keepdim and not issym(self.shape_[dim]) and dkind(self.dtype) == 'f':
            d = dim % len(self.shape_); r = self.reader(); n = self.shape_[d]; sh = self.shape_[:d] + self.shape_[d + 1:]
            return self._new(sh, lambda ix: sum((r(ix[:d] + (P(j),) + ix[d:]) for j in range(n)), ZERO))
        return reduce_(self, name, dim, keepdim)
    def min(self, dim=None, keepdim=False): return self._red('min', dim, keepdim)
    def max(self, dim=None, keepdim=False): return self._red('max', dim, keepdim)
    def amin(self, dim=None, keepdim=False): return self._red('min', ('a', dim), keepdim)
    def amax(self, dim=None, keepdim=False): return self._red('max', ('a', dim), keepdim)
    def sum(self, dim=None, keepdim=False, **k): return self._red('sum', dim, keepdim)
    def prod(self, dim=None, keepdim=False): return self._red('prod', dim, keepdim)
    def any(self, dim=None, keepdim=False): return self._red('any', dim, keepdim)
    def all(self, dim=None, keepdim=False): return self._red('all', dim, keepdim)
    # -- element-wise
    def abs(self): return unary(self, abs_)
    __abs__ = abs
    def sqrt(self): return unary(self, lambda p: fn_('sqrt', p), fl=True)
    def exp(self): return unary(self, lambda p: fn_('exp', p), fl=True)
    def cos(self): return unary(self, lambda p: fn_('cos', p), fl=True)
    def neg(self): return -self
    def flip(self, *d):
        d = tuple(d[0]) if len(d) == 1 and isinstance(d[0], (tuple, list)) else d; r = self.reader(); sh = self.shape_; dd = {x % len(sh) for x in d}
        return self._new(sh, lambda ix: r(tuple(sz(sh[j]) - 1 - i if j in dd else i for j, i in enumerate(ix))))
    def neg_(self): return self.copy_(-self)
    def __neg__(self): return unary(self, lambda p: -p)
    def __invert__(self): return unary(self, not_)
    def round(self): return unary(self, lambda p: p if self.dtype.is_floating_point is False else pysym.rnd(p))
    def floor(self): return unary(self, lambda p: floor(S(p, 'f')).p if not p.isconst() else P(floor(S(p, 'f'))))
    def ceil(self): return unary(self, lambda p: ceil(S(p, 'f')).p if not p.isconst() else P(ceil(S(p, 'f'))))
    def square(self): return self * self
    def mul(self, o): return self * o
    def add(self, o, alpha=1): return self + o * alpha
    def sub(self, o, alpha=1): return self - o * alpha
    def div(self, o): return self / o
    def eq(self, o): return self == o
    def ne(self, o): return self != o
    def lt(self, o): return self < o
    def le(self, o): return self <= o
    def gt(self, o): return self > o
    def ge(self, o): return self >= o
    def pow(self, n): return self ** n
    def clamp(self, min=None, max=None): return clamp(self, min, max)
    def isfinite(self): return unary(self, lambda p: TRUE, dt=bool_)
    def reciprocal(self): return 1 / self
    def __add__(s, o): return binary(s, o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(s, o): return binary(s, o, lambda a, b: a - b)
    def __rsub__(s, o): return binary(s, o, lambda a, b: b - a)
    def __mul__(s, o): return binary(s, o, pysym.mul)
    __rmul__ = __mul__
    def __truediv__(s, o): return binary(s, o, lambda a, b: pysym.mul(a, safe_inv(b)), fl=True)
    def __rtruediv__(s, o): return binary(s, o, lambda a, b: pysym.mul(b, safe_inv(a)), fl=True)
    def __floordiv__(s, o): return binary(s, o, floordiv)
    def __mod__(s, o): return binary(s, o, lambda a, b: a - floordiv(a, b) * b)
    def __pow__(s, n): return unary(s, lambda p: of(S(p, 'f') ** n)[0])
    def __iadd__(s, o): return s.copy_(s + o)
    def __isub__(s, o): return s.copy_(s - o)
    def __imul__(s, o): return s.copy_(s * o)
    def __itruediv__(s, o): return s.copy_(s / o)
    def add_(s, o): return s.copy_(s + o)
    def mul_(s, o): return s.copy_(s * o)
    def sub_(s, o): return s.copy_(s - o)
    def div_(s, o): return s.copy_(s / o)
    add = __add__; mul = __mul__; sub = __sub__; div = __truediv__
    def __lt__(s, o): return binary(s, o, lt, dt=bool_)
    def __le__(s, o): return binary(s, o, le, dt=bool_)
    def __gt__(s, o): return binary(s, o, lambda a, b: lt(b, a), dt=bool_)
    def __ge__(s, o): return binary(s, o, lambda a, b: le(b, a), dt=bool_)
    def __eq__(s, o):
        if o is None: return False
        return binary(s, o, eqv, dt=bool_)
    def __ne__(s, o):
        if o is None: return True
        return binary(s, o, lambda a, b: not_(eqv(a, b)), dt=bool_)
    def logical_or(s, o): return s | o
    def logical_and(s, o): return s & o
    def __or__(s, o): return binary(s, o, or_, dt=bool_)
    def __and__(s, o): return binary(s, o, and_, dt=bool_)
    __hash__ = object.__hash__
    def masked_fill(self, m, v): return where(m, v, self)
    def masked_fill_(self, m, v): return self.copy_(where(m, v, self))
    def scatter_add_(self, dim, index, src):
        """the sum added is written as an unknown function of (row, cell) whose summands are logged for the obligations"""
        if SCATTER is None or dim % self.ndim != 1 or self.ndim != 2 or index.ndim != 2 or src.ndim != 2: raise Unsupported('scatter_add_')
        n = len(SCATTER); SCATTER.append((index._alias_(), src._alias_())); nm = 'scatter!%d' % n
        base = getattr(self, 'flat_of', None)
        old = self.reader(); self.st.write((lambda f: lambda ix: f(ix) + sel(nm, 'f', ix))(self.st.fn)) if self.is_identity() and len(self.st.shape) == 2 else None
        if base is not None and base[1]:
            b = base[0]; sh = b.shape_
            if not b.is_identity(): raise Unsupported('scatter_add_ through a view of a view')
            def f(ix, g=b.st.fn):
                k = ZERO
                for i, d in zip(ix[1:], sh[1:]): k = k * sz(d) + i
                return g(ix) + sel(nm, 'f', (ix[0], k))
            b.st.write(f)
        elif not (self.is_identity() and len(self.st.shape) == 2): raise Unsupported('scatter_add_ to a view')
        self.nscat = self.st.writes; return self
    def scatter_add(self, dim, index, src): c = self.clone(); c.flat_of = (self.flat_of[0].clone(), True) if getattr(self, 'flat_of', None) else None; return c.scatter_add_(dim, index, src)
    def _alias_(self): r = self.reader(); return Tensor(self.shape_, r, self.dtype)
    def gather(self, dim, index):
        dim %= self.ndim; r = self.reader(); ir = index.reader()
        return self._new(index.shape_, lambda ix: r(ix[:dim] + (ir(ix),) + ix[dim + 1:]))
    def index_select(self, dim, index):
        dim %= self.ndim; r = self.reader(); ir = index.reader(); s = list(self.shape_); s[dim] = index.shape_[0]
        return self._new(s, lambda ix: r(ix[:dim] + (ir((ix[dim],)),) + ix[dim + 1:]))
    def __repr__(self): return 'Tensor(shape=%s, %s)' % (self.shape_, self.dtype)
    def __deepcopy__(self, m): return self.clone()
    def save_for(self): return self

class Masked(Tensor):
    """x[mask] for a full-shape mask: a bag of the selected elements."""
    def __init__(self, src, mask):
        Tensor.__init__(self, (mk(Path.cur.fresh('nsel', 'i'), 'i'),), lambda ix: (_ for _ in ()).throw(Unsupported('order of masked elements')), src.dtype)
        n = sz(self.shape_[0]); assume(le(0, n)); mr = mask.reader()
        self.src = src; self.mask = mask; self.masked = (src, mask)
        # the number selected is zero exactly when no element is
        add_fact(mask.shape_, lambda ix: implies_(mr(ix), le(1, n)), 'mask')
        w = tuple(Path.cur.fresh('wit', 'i') for _ in mask.shape_)
        instantiate(*w); assume(implies_(le(1, n), and_(*[and_(le(0, i), lt(i, sz(d))) for i, d in zip(w, mask.shape_)], mr(w))))
    def clone(self): return Masked(self.src.clone(), self.mask)

class Ptr:
    def __init__(self, t): self.t = t; self.st = t.st      # the memory pointed to: stale after a later resize_
    def __eq__(self, o): return isinstance(o, Ptr) and self.t.st is o.t.st
    def __hash__(self): return id(self.t.st)
    def __add__(self, o): raise Unsupported('pointer arithmetic')

def eqv(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        a = a if isinstance(a, tuple) else ne(a, 0); b = b if isinstance(b, tuple) else ne(b, 0)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    return eq(a, b)
def safe_inv(b):
    if b.iszero(): return Poly.at(atom('fn', 'infinite', ZERO))
    if not b.isconst(): Path.cur.divs.setdefault(b, None)
    return inv(b)
def abs_(p):
    k = Path.cur.known(le(0, p))
    if k is True: return p
    if k is False: return -p
    return ite(le(0, p), p, -p)

def slice_(k, s):
    """-> (start Poly, length, step)"""
    n = sz(s); step = 1 if k.step is None else k.step
    if not isinstance(step, int) or step <= 0: raise Unsupported('slice step')
    def norm(v, dflt):
        if v is None: return dflt
        if isinstance(v, Tensor): v = v.item()
        p = of(v)[0]
        if p.isconst() and n.isconst():
            x = p.cval(); m = n.cval(); x = x + m if x < 0 else x; return P(max(0, min(m, x)))
        neg = Path.cur.decide(lt(p, 0))
        if neg:
            p = p + n
            if not decide(le(0, p)): return ZERO
            return p
        if not decide(le(p, n)): return n
        return p
    a = norm(k.start, ZERO); b = norm(k.stop, n)
    if a == b: return a, 0, step
    ln = b - a
    if not (decide(le(0, ln))): ln = ZERO
    if step != 1: ln = floordiv(ln + (step - 1), P(step))
    return a, dim_(ln), step

def bdim(a, b):
    if not issym(a) and a == 1: return b
    if not issym(b) and b == 1: return a
    if issym(a) or issym(b):
        if sz(a) == sz(b): return a
        if decide(eq(sz(a), sz(b))): return b if issym(a) else a
        if issym(a) and decide(eq(sz(a), 1)): return b
        if issym(b) and decide(eq(sz(b), 1)): return a
        raise SymTorchError('The size of tensor a (%s) must match the size of tensor b (%s)' % (a, b))
    if a != b: raise SymTorchError('The size of tensor a (%s) must match the size of tensor b (%s)' % (a, b))
    return a
def bshape(s, t):
    n = max(len(s), len(t)); s = (1,) * (n - len(s)) + tuple(s); t = (1,) * (n - len(t)) + tuple(t)
    return tuple(bdim(a, b) for a, b in zip(s, t))
def breader(t, n):
    """reader taking an index of rank n, broadcasting"""
    r = t.reader(); ss = t.shape_; ex = n - len(ss)
    one = [(not issym(s) and s == 1) or (issym(s) and Path.cur.known(eq(sz(s), 1)) is True) for s in ss]
    return lambda ix: r(tuple(ZERO if one[j] else ix[ex + j] for j in range(len(ss))))
def conv(v, k0, k1):
    if k0 == k1: return v
    if k1 == 'b': return v if isinstance(v, tuple) else ne(v, 0)
    if k0 == 'b': v = b2p(v) if isinstance(v, tuple) else v; return v
    if k1 == 'f': return v
    # float -> integer truncation
    if v.isconst(): return P(int(Fraction(v.cval())))
    r = _as_int(v)
    if r is not None: return r
    k = Path.cur.known(le(0, v))
    if k is True: return pysym.flr(v)
    if k is False: return pysym.cil(v)
    return ite(le(0, v), pysym.flr(v), pysym.cil(v))
def _as_int(p):
    """p is an integer combination of integer atoms"""
    z = Path.cur.z
    if all(type(c) is int for c in p.d.values()) and all(z.kind(a) == 'i' for a in p.atoms()): return p
    return None
def cast_(t, dt):
    r = t.reader(); k0, k1 = dkind(t.dtype), dkind(dt)
    if isinstance(t, Masked): return Masked(cast_(t.src, dt), t.mask)
    return Tensor(t.shape_, lambda ix: conv(r(ix), k0, k1), dt)
def rdtype(a, b, fl=False):
    """result dtype of a binary operation"""
    ks = []
    def cat(x):
        if isinstance(x, Tensor): return dkind(x.dtype)
        if isinstance(x, (B, bool)): return 'b'
        return of(x)[1]
    ta, tb = isinstance(a, Tensor), isinstance(b, Tensor)
    o = 'bif'; ka, kb = cat(a), cat(b); k = max(ka, kb, key=o.index)
    if fl and k != 'f': return float32
    # a dimensioned tensor wins over a 0-dim one of the same or lower category
    c = [x.dtype for x in (a, b) if isinstance(x, Tensor) and cat(x) == k and x.ndim] or [x.dtype for x in (a, b) if isinstance(x, Tensor) and cat(x) == k]
    if c: return max(c, key=lambda d: d.itemsize)
    return {'f': float32, 'i': int64, 'b': bool_}[k]
def val_(x, k=None):
    if isinstance(x, B): return x.c
    return of(x)[0]
def binary(a, b, f, dt=None, fl=False):
    for x in (a, b):
        if not isinstance(x, (Tensor, S, B, int, float, complex, Fraction, bool)): return NotImplemented
    if isinstance(a, Masked) or isinstance(b, Masked):
        m = a.mask if isinstance(a, Masked) else b.mask
        if isinstance(a, Masked) and isinstance(b, Masked) and a.mask is not b.mask: raise Unsupported('operation on two masks')
        if any(isinstance(x, Tensor) and not isinstance(x, Masked) and x.ndim for x in (a, b)): raise Unsupported('mask with tensor')
        return Masked(binary(a.src if isinstance(a, Masked) else a, b.src if isinstance(b, Masked) else b, f, dt, fl), m)
    d = dt or rdtype(a, b, fl)
    sh = bshape(a.shape_ if isinstance(a, Tensor) else (), b.shape_ if isinstance(b, Tensor) else ())
    n = len(sh)
    ra = breader(a, n) if isinstance(a, Tensor) else (lambda v: lambda ix: v)(val_(a))
    rb = breader(b, n) if isinstance(b, Tensor) else (lambda v: lambda ix: v)(val_(b))
    arith = d is not bool_ or f is lt or f is le
    def g(ix):
        x, y = ra(ix), rb(ix)
        if d is not bool_:
            x = b2p(x) if isinstance(x, tuple) else x; y = b2p(y) if isinstance(y, tuple) else y
        elif f in (or_, and_):
            x = x if isinstance(x, tuple) else ne(x, 0); y = y if isinstance(y, tuple) else ne(y, 0)
        return f(x, y)
    return Tensor(sh, g, d)
def unary(a, f, fl=False, dt=None):
    if isinstance(a, Masked): return Masked(unary(a.src, f, fl, dt), a.mask)
    r = a.reader(); return Tensor(a.shape_, lambda ix: f(r(ix)), dt or (float32 if fl and not a.dtype.is_floating_point else a.dtype))

def _rg(f):
    import functools
    @functools.wraps(f)
    def g(*a, **k):
        r = f(*a, **k)
        if isinstance(r, Tensor) and not r.requires_grad and r.dtype.is_floating_point:
            for x in a:
                if (isinstance(x, Tensor) and x.requires_grad) or (isinstance(x, (list, tuple)) and any(isinstance(y, Tensor) and y.requires_grad for y in x)): r.requires_grad = True; break
        return r
    return g
# ---- reductions -------------------------------------------------------------------------------------------
class Fact:
    """A universally quantified fact about the elements of a tensor: for every index ix in range, cond(ix)."""
    def __init__(self, shape, cond, name): self.shape = shape; self.cond = cond; self.name = name
    def inst(self, ix): 
        ix = tuple(ixp(i) for i in ix)
        r = and_(*[and_(le(0, i), lt(i, sz(s))) for i, s in zip(ix, self.shape)])
        assume(implies_(r, self.cond(ix)))

def add_fact(shape, cond, name):
    f = Fact(tuple(shape), cond, name); Path.cur.facts.append(f)
    for pool in Path.cur.loops.get('pool', []):
        if len(pool) == len(f.shape): f.inst(pool)
def instantiate(*ix):
    """Use the quantified facts known so far (and from now on) at this index."""
    ix = tuple(ixp(i) for i in ix)
    Path.cur.loops.setdefault('pool', []).append(ix)
    for f in Path.cur.facts:
        if len(f.shape) == len(ix): f.inst(ix)

def reduce_(t, name, dim, keepdim):
    amin = isinstance(dim, tuple) and dim and dim[0] == 'a'
    if amin: dim = dim[1]
    msk = None
    if isinstance(t, Masked):
        if dim is not None: raise Unsupported('reduction of masked elements')
        msk = t.mask.reader(); t0 = t; t = t.src
    if isinstance(dim, int) and dim < 0: dim += t.ndim
    dims = tuple(range(t.ndim)) if dim is None else ((dim,) if isinstance(dim, int) else tuple(d % t.ndim for d in dim))
    keep = [j for j in range(t.ndim) if j not in dims]; oshape = [t.shape_[j] for j in keep]
    r = t.reader(); k = dkind(t.dtype)
    odt = bool_ if name in ('any', 'all') else (int64 if name in ('sum', 'prod') and k != 'f' else t.dtype)
    rs = [t.shape_[d] for d in dims]
    def full(ix, rx):
        o = [None] * t.ndim
        for j, i in zip(keep, ix): o[j] = i
        for j, i in zip(dims, rx): o[j] = i
        return tuple(o)
    if all(not issym(s) for s in rs) and prod_(rs) <= 64 and msk is None:
        import itertools
        pts = list(itertools.product(*[range(s) for s in rs]))
        if not pts:
            if name in ('min', 'max'): raise SymTorchError('%s(): reduction of an empty tensor' % name)
            e = {'sum': ZERO, 'prod': ONE, 'any': FALSE, 'all': TRUE}[name]
            f = lambda ix: e
        else:
            def f(ix):
                vs = [r(full(ix, tuple(map(P, q)))) for q in pts]
                if name in ('any', 'all'):
                    vs = [v if isinstance(v, tuple) else ne(v, 0) for v in vs]; return or_(*vs) if name == 'any' else and_(*vs)
                vs = [b2p(v) if isinstance(v, tuple) else v for v in vs]
                a = vs[0]
                for v in vs[1:]:
                    a = a + v if name == 'sum' else pysym.mul(a, v) if name == 'prod' else ite_val(lt(v, a) if name == 'min' else lt(a, v), v, a)
                return a
        vs = f
    else:
        if oshape and name in ('sum', 'prod'):
            f = lambda ix: Poly.at(atom('fn', name + 'over', P(hash_id(t.st)), *ix))
        else:
            if name in ('min', 'max'):
                nz = and_(*[lt(0, sz(s)) for s in rs])
                if msk is not None:
                    # empty selections raise
                    if not decide(lt(0, sz(t0.shape_[0]))): raise SymTorchError('%s(): Expected reduction dim to be specified for an empty tensor' % name)
                elif not decide(nz): raise SymTorchError('%s(): Expected reduction dim to be specified for an empty tensor' % name)
            if not oshape:
                if name in ('min', 'max'):
                    v = Path.cur.fresh('red_' + name, k)
                    rel = (lambda x: le(v, x)) if name == 'min' else (lambda x: le(x, v))
                    add_fact(rs, lambda ix: implies_(msk(full((), ix)), rel(r(full((), ix)))) if msk else rel(r(full((), ix))), name)
                    w = tuple(Path.cur.fresh('wit', 'i') for _ in rs)
                    for i, s in zip(w, rs): assume(le(0, i)); assume(lt(i, sz(s)))
                    instantiate(*w)
                    if msk: assume(msk(full((), w)))
                    assume(eq(r(full((), w)), v)); f = lambda ix: v
                elif name in ('any', 'all'):
                    b = Path.cur.fresh('red_' + name, 'i'); c = ne(b, 0)
                    tb = lambda ix: (lambda x: x if isinstance(x, tuple) else ne(x, 0))(r(full((), ix)))
                    w = tuple(Path.cur.fresh('wit', 'i') for _ in rs)
                    inr = and_(*[and_(le(0, i), lt(i, sz(s))) for i, s in zip(w, rs)])
                    if name == 'any':
                        add_fact(rs, lambda ix: or_(c, not_(tb(ix))), name); instantiate(*w); assume(or_(not_(c), and_(inr, tb(w))))
                    else:
                        add_fact(rs, lambda ix: or_(not_(c), tb(ix)), name); instantiate(*w); assume(or_(c, and_(inr, not_(tb(w)))))
                    f = lambda ix: c
                else:
                    v = Path.cur.fresh('red_' + name, k); f = lambda ix: v
            else:
                # per-row reductions: a function symbol of the kept index, with row-wise facts
                nm = sname('red_' + name, ())
                if name in ('min', 'max'):
                    fn = lambda ix: sel(nm, k, ix)
                    rel = (lambda x, v: le(v, x)) if name == 'min' else (lambda x, v: le(x, v))
                    add_fact([t.shape_[j] for j in keep] + rs, lambda fx: rel(r(full(fx[:len(keep)], fx[len(keep):])), fn(fx[:len(keep)])), name)
                    f = fn
                else:
                    fn = lambda ix: ne(sel(nm, 'i', ix), 0)
                    tb = lambda fx: (lambda x: x if isinstance(x, tuple) else ne(x, 0))(r(full(fx[:len(keep)], fx[len(keep):])))
                    if name == 'any': add_fact(oshape + rs, lambda fx: or_(fn(fx[:len(keep)]), not_(tb(fx))), name)
                    else: add_fact(oshape + rs, lambda fx: or_(not_(fn(fx[:len(keep)])), tb(fx)), name)
                    f = fn
        vs = f
    if keepdim:
        sh = [1 if j in dims else t.shape_[j] for j in range(t.ndim)]
        return Tensor(sh, lambda ix: vs(tuple(ix[j] for j in keep)), odt)
    res = Tensor(oshape, vs, odt)
    if name in ('min', 'max') and dim is not None and not amin: return types.SimpleNamespace(values=res, indices=None)
    return res

_hid = {}
def hash_id(o): return _hid.setdefault(id(o), (len(_hid), o))[0]
_sn = [0]
def sname(base, s): 
    Path.cur.fresh_n += 1
    return '%s!%d' % (base, Path.cur.fresh_n)
def sel(name, kind, ix): return Poly.at(atom('sel', name, kind, tuple(ix)))
def array_fn(name, n, kind):
    if kind == 'b': return lambda ix: ne(sel(name, 'i', ix), 0)
    return lambda ix: sel(name, kind, ix)
def array(name, shape, dt=float32):
    """an arbitrary tensor"""
    return Tensor(shape, array_fn(name, len(shape), dkind(dt)), dt)

# ---- functions --------------------------------------------------------------------------------------------
def shp(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)): a = a[0]
    return tuple(x.item() if isinstance(x, Tensor) else x for x in a)
def _dt(kw, d=None): return kw.get('dtype') or d or float32
def full_(shape, v, dt): return Tensor(shape, lambda ix: v, dt)
def zeros(*s, **kw): 
    if 'size' in kw: s = (kw['size'],)
    d = _dt(kw); return full_(shp(s), FALSE if d is bool_ else ZERO, d)
def ones(*s, **kw): d = _dt(kw); return full_(shp(s), TRUE if d is bool_ else ONE, d)
def full(s, v, **kw): return full_(shp((s,)), of(v)[0], kw.get('dtype') or (float32 if of(v)[1] == 'f' else int64))
def empty(*s, **kw):
    if 'size' in kw: s = (kw['size'],)
    s = shp(s); d = _dt(kw)
    if Path.cur is None: return zeros(s, dtype=d)
    return Tensor(s, array_fn(sname('uninitialised', s), len(s), dkind(d)), d)
def zeros_like(t, **kw): return zeros(t.shape_, dtype=kw.get('dtype') or t.dtype)
def ones_like(t, **kw): return ones(t.shape_, dtype=kw.get('dtype') or t.dtype)
def empty_like(t, **kw): return empty(t.shape_, dtype=kw.get('dtype') or t.dtype)
def full_like(t, v, **kw): return full(t.shape_, v, dtype=kw.get('dtype') or t.dtype)
def arange(*a, **kw):
    a = [x.item() if isinstance(x, Tensor) else x for x in a]
    start, end, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    p0, k0 = of(start); p1, k1 = of(end); ps, k2 = of(step)
    d = kw.get('dtype') or (float32 if 'f' in (k0, k1, k2) else int64)
    n = mul(p1 - p0, inv(ps)); n = ceil(S(n, 'i' if _as_int(n) is not None else 'f')) if not n.isconst() else -(-Fraction(n.cval()) // 1)
    n = smax(n, 0) if not issym(n) else (n if decide(le(0, n.p)) else 0)
    return Tensor((n,), lambda ix: p0 + ix[0] * ps, d)
def tensor(v, **kw):
    if isinstance(v, Tensor): return v.clone() if kw.get('dtype') in (None, v.dtype) else cast_(v, kw['dtype'])
    def sh(x): return (len(x),) + sh(x[0]) if isinstance(x, (list, tuple)) and x else ((0,) if isinstance(x, (list, tuple)) else ())
    s = sh(v); flat = []
    def fl(x):
        if isinstance(x, (list, tuple)):
            for y in x: fl(y)
        else: flat.append(x)
    fl(v)
    flat = [x.item() if isinstance(x, Tensor) else x for x in flat]
    isb = flat and all(isinstance(x, (bool, B)) for x in flat)
    d = kw.get('dtype') or (bool_ if isb else float32 if any(of(x)[1] == 'f' for x in flat) or not flat else int64)
    vals = [conv(x.c if isinstance(x, B) else of(x)[0], 'b' if isinstance(x, B) else of(x)[1], dkind(d)) if not (dkind(d) == 'b' and isinstance(x, bool)) else (TRUE if x else FALSE) for x in flat]
    def f(ix):
        k = ZERO
        for i, n in zip(ix, s): k = k * n + i
        if k.isconst(): return vals[k.cval()]
        for j, v in enumerate(vals):
            if j == len(vals) - 1 or decide(eq(k, j)): return v
    return Tensor(s, f, d)
def as_tensor(v, **kw): return v if isinstance(v, Tensor) and kw.get('dtype') in (None, v.dtype) else tensor(v, **kw)
def where(c, a=None, b=None):
    if a is None: raise Unsupported('where with one argument')
    sh = c.shape_
    for x in (a, b):
        if isinstance(x, Tensor): sh = bshape(sh, x.shape_)
    d = rdtype(a, b); n = len(sh); rc = breader(c, n)
    ra = breader(a, n) if isinstance(a, Tensor) else (lambda v: lambda ix: v)(val_(a))
    rb = breader(b, n) if isinstance(b, Tensor) else (lambda v: lambda ix: v)(val_(b))
    def f(ix):
        q = rc(ix); q = q if isinstance(q, tuple) else ne(q, 0)
        k = Path.cur.known(q)
        if k is True: return ra(ix)
        if k is False: return rb(ix)
        return ite_val(q, ra(ix), rb(ix))
    return Tensor(sh, f, d)
def clamp(t, min=None, max=None):
    r = t
    if min is not None: r = maximum(r, min if isinstance(min, Tensor) else tensor(min, dtype=t.dtype))
    if max is not None: r = minimum(r, max if isinstance(max, Tensor) else tensor(max, dtype=t.dtype))
    return r
def maximum(a, b): return binary(a, b, lambda x, y: ite_val(lt(x, y), y, x))
def minimum(a, b): return binary(a, b, lambda x, y: ite_val(lt(y, x), y, x))
def stack(ts, dim=0):
    ts = list(ts); s = ts[0].shape_; d = dim % (len(s) + 1)
    for t in ts[1:]:
        if len(t.shape_) != len(s): raise SymTorchError('stack')
        for a, b in zip(t.shape_, s):
            if not (a == b): raise SymTorchError('stack expects each tensor to be equal size')
    rs = [t.reader() for t in ts]
    def f(ix):
        i = ix[d]; o = ix[:d] + ix[d + 1:]
        if i.isconst(): return rs[i.cval()](o)
        for j, r in enumerate(rs):
            if j == len(rs) - 1 or decide(eq(i, j)): return r(o)
    return Tensor(s[:d] + (len(ts),) + s[d:], f, ts[0].dtype)
def cat(ts, dim=0):
    ts = list(ts); d = dim % ts[0].ndim; rs = [t.reader() for t in ts]; offs = [0]
    for t in ts: offs.append(offs[-1] + t.shape_[d])
    def f(ix):
        i = ix[d]
        for j, r in enumerate(rs):
            if j == len(rs) - 1 or decide(lt(i, sz(offs[j + 1]))): return r(ix[:d] + (i - sz(offs[j]),) + ix[d + 1:])
    s = list(ts[0].shape_); s[d] = offs[-1]
    return Tensor(s, f, ts[0].dtype)
def pad(input, pad, mode='constant', value=0):
    t = input; pads = list(pad); n = t.ndim; lo = [0] * n; hi = [0] * n
    for j in range(len(pads) // 2): lo[n - 1 - j], hi[n - 1 - j] = pads[2 * j], pads[2 * j + 1]
    lo = [x.item() if isinstance(x, Tensor) else x for x in lo]; hi = [x.item() if isinstance(x, Tensor) else x for x in hi]
    for j in range(n):
        if not decide(le(0, sz(t.shape_[j] + lo[j] + hi[j]))): raise SymTorchError('negative size in pad')
    sh = [t.shape_[j] + lo[j] + hi[j] for j in range(n)]; r = t.reader(); v = of(value or 0)[0]; ss = t.shape_
    def f(ix):
        o = []; out = []
        for j in range(n):
            i = ix[j]
            if not issym(lo[j]) and lo[j] == 0 and not issym(hi[j]) and hi[j] == 0: o.append(i); continue
            k = i - sz(lo[j])
            if mode == 'constant': out.append(and_(le(0, k), lt(k, sz(ss[j]))))
            elif mode == 'replicate': k = ite_val(lt(k, 0), ZERO, ite_val(lt(k, sz(ss[j])), k, sz(ss[j]) - 1))
            else: raise Unsupported('pad mode ' + mode)
            o.append(k)
        c = and_(*out); kn = True if c == TRUE else Path.cur.known(c)
        return v if kn is False else r(tuple(o)) if kn else ite_val(c, r(tuple(o)), v)
    if mode == 'replicate':
        for j in range(n):
            if issym(ss[j]) and not decide(lt(0, sz(ss[j]))): raise SymTorchError('replicate of an empty dimension')
    return Tensor(sh, f, t.dtype)
def flip(t, d): return t.flip(d)
def movedim(t, a, b): return t.movedim(a, b)
def cartesian_prod(*ts):
    if len(ts) == 1: return ts[0]
    rs = [t.reader() for t in ts]; ns = [t.shape_[0] for t in ts]
    def f(ix):
        k, j = ix
        for m in range(len(ts)):
            if m == len(ts) - 1 or (j == P(m) if j.isconst() else decide(eq(j, m))):
                rest = sz(prod_(ns[m + 1:])); q = floordiv(k, rest); return rs[m]((q - floordiv(q, sz(ns[m])) * sz(ns[m]),))
    return Tensor((prod_(ns), len(ts)), f, ts[0].dtype)
def meshgrid(*ts, indexing='ij'):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)): ts = tuple(ts[0])
    sh = tuple(t.shape_[0] for t in ts)
    return tuple(Tensor(sh, (lambda r, j: lambda ix: r((ix[j],)))(t.reader(), j), t.dtype) for j, t in enumerate(ts))
def unique(t, dim=None, **kw):
    return UNIQUE(t, dim)
def _unique(t, dim=None):
    # number of distinct values: equal to the number of elements exactly when they are pairwise distinct
    if dim is not None: raise Unsupported('unique along a dimension')
    src, mr = (t.src, t.mask.reader()) if isinstance(t, Masked) else (t, lambda ix: TRUE)
    n = sz(t.shape_[0]) if t.ndim else P(1); r = src.reader(); d = src.ndim; shp = src.shape_
    u = Path.cur.fresh('nuniq', 'i'); assume(le(0, u)); assume(le(u, n)); assume(or_(eq(n, 0), le(1, u)))
    def differ(ix):
        i, j = ix[:d], ix[d:]
        return or_(not_(mr(i)), not_(mr(j)), and_(*[eq(a, b) for a, b in zip(i, j)]), ne(r(i), r(j)))
    add_fact(tuple(shp) * 2, lambda ix: or_(ne(u, n), differ(ix)), 'unique')
    w = tuple(Path.cur.fresh('wit', 'i') for _ in shp * 2)
    assume(or_(eq(u, n), and_(*[and_(le(0, i), lt(i, sz(s))) for i, s in zip(w, tuple(shp) * 2)], not_(differ(w)))))
    Path.cur.loops.setdefault('uniq_wit', []).append(w)
    return Tensor((mk(u, 'i'),), lambda ix: (_ for _ in ()).throw(Unsupported('order of unique elements')), t.dtype)
UNIQUE = _unique
def i0(t): return unary(t, lambda p: fn_('i0', p), fl=True)
def sinc(t): return unary(t, lambda p: fn_('sinc', p), fl=True)
def hann_window(n, periodic=True, **kw):
    n_ = n; d = n if periodic else n - 1
    return Tensor((n,), lambda ix: (ONE - fn_('cos', mul(ix[0] * 2 * PI, inv(sz(d))))) * Fraction(1, 2), _dt(kw))
PI = Poly.at(atom('sym', 'pi', 'f'))
class finfo:
    def __init__(self, d): self.eps = Fraction(1, 2 ** 23) if d.itemsize == 4 else Fraction(1, 2 ** 52); self.eps = float(self.eps); self.max = 3.4028234663852886e38 if d.itemsize == 4 else 1.7976931348623157e308; self.tiny = 1e-38; self.smallest_normal = 1e-38; self.min = -self.max
def is_tensor(x): return isinstance(x, Tensor)
def numel(t): return t.numel()

binary = _rg(binary); unary = _rg(unary); where = _rg(where); pad = _rg(pad); stack = _rg(stack); cat = _rg(cat); cast_ = _rg(cast_); RFFT_RG = None
for _n in ('reshape', 'gather', 'repeat', '_adv', 'clone'): setattr(Tensor, _n, _rg(getattr(Tensor, _n)))

class Ctx:
    def save_for_backward(self, *t): self.saved_tensors = t
    def mark_non_differentiable(self, *t): pass
    def mark_dirty(self, *t): pass
    def set_materialize_grads(self, v): pass
    needs_input_grad = ()
class Function:
    @classmethod
    def apply(cls, *a):
        ctx = Ctx(); cls.last_ctx = ctx; cls.last_args = a
        if hasattr(cls, 'setup_context') and 'setup_context' in cls.__dict__:
            o = cls.forward(*a); cls.setup_context(ctx, a, o); cls.last_out = o; return o
        o = cls.forward(ctx, *a); cls.last_out = o; return o
class Module:
    def __init__(self): pass
    def __call__(self, *a, **k): return self.forward(*a, **k)
    def register_buffer(self, n, v): setattr(self, n, v)
    def parameters(self): return []
class Parameter(Tensor):
    def __new__(cls, t, requires_grad=True):
        r = t._alias(); r.requires_grad = bool(requires_grad); return r

def _ident(f=None, **kw):
    if f is None: return lambda g: g
    return f

def build():
    """Returns the stub modules."""
    me = sys.modules[__name__]
    t = types.ModuleType('torch')
    for n in ('Tensor', 'Size', 'device', 'dtype', 'float32', 'float64', 'float16', 'int64', 'int32', 'uint8', 'zeros', 'ones', 'full', 'empty', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'arange', 'tensor', 'as_tensor',
              'where', 'clamp', 'maximum', 'minimum', 'stack', 'cat', 'movedim', 'cartesian_prod', 'meshgrid', 'unique', 'sinc', 'i0', 'flip', 'hann_window', 'finfo', 'is_tensor', 'numel', 'complex64', 'complex128'):
        setattr(t, n, getattr(me, n))
    t.float = float32; t.double = float64; t.long = int64; t.int = int32; t.bool = bool_; t.half = float16
    t.exp = lambda x: x.exp(); t.cos = lambda x: x.cos(); t.sqrt = lambda x: x.sqrt(); t.abs = lambda x: x.abs()
    t.sum = lambda x, dim=None, **k: x.sum(dim); t.prod = lambda x, dim=None, **k: x.prod(dim); t.any = lambda x, *a: x.any(*a); t.all = lambda x, *a: x.all(*a)
    t.min = lambda x, *a: minimum(x, *a) if a and isinstance(a[0], Tensor) else x.min(*a); t.max = lambda x, *a: maximum(x, *a) if a and isinstance(a[0], Tensor) else x.max(*a)
    t.square = lambda x: x * x; t.pi = _math.pi; t.zeros_ = zeros; t.isfinite = lambda x: x.isfinite(); t.neg = lambda x: -x; t.reciprocal = lambda x: 1 / x
    t.broadcast_shapes = lambda *s: Size(__import__('functools').reduce(bshape, [tuple(x) for x in s]))
    t.nn = types.ModuleType('torch.nn'); t.nn.Module = Module; t.nn.Parameter = Parameter
    t.nn.functional = types.ModuleType('torch.nn.functional'); t.nn.functional.pad = pad
    t.fft = types.ModuleType('torch.fft')
    t.fft.rfft = lambda *a, **k: me.RFFT(*a, **k); t.fft.irfft = lambda *a, **k: me.IRFFT(*a, **k); t.fft.rfftfreq = lambda *a, **k: me.RFFTFREQ(*a, **k)
    t.autograd = types.ModuleType('torch.autograd'); t.autograd.Function = Function
    t.autograd.function = types.ModuleType('torch.autograd.function'); t.autograd.function.once_differentiable = lambda f: f
    t.jit = types.ModuleType('torch.jit'); t.jit.script = _ident; t.jit.is_scripting = lambda: False
    t.compile = _ident
    t.utils = types.ModuleType('torch.utils'); t.utils.checkpoint = types.ModuleType('torch.utils.checkpoint'); t.utils.checkpoint.checkpoint = lambda f, *a, **k: f(*a)
    t._C = types.ModuleType('torch._C'); t._C._functorch = types.ModuleType('torch._C._functorch')
    t._C._functorch.is_functorch_wrapped_tensor = lambda x: False; t._C._functorch.is_batchedtensor = lambda x: False; t._C._functorch.is_gradtrackingtensor = lambda x: False
    t._C._functorch.maybe_get_level = lambda x: -1
    t.mul = t.multiply = lambda a, b: a * b; t.add = lambda a, b, alpha=1: a + b * alpha; t.sub = t.subtract = lambda a, b, alpha=1: a - b * alpha; t.div = t.divide = t.true_divide = lambda a, b: a / b
    t.pow = lambda a, n: a ** n; t.round = lambda a: a.round(); t.floor = lambda a: a.floor(); t.ceil = lambda a: a.ceil(); t.special = types.ModuleType('torch.special'); t.special.i0 = i0; t.special.sinc = sinc
    t.outer = lambda a, b: a.reshape(-1, 1) * b.reshape(1, -1); t.logical_or = lambda a, b: a | b; t.logical_and = lambda a, b: a & b; t.logical_not = lambda a: ~a; t.permute = lambda a, o: a.permute(*o); t.reshape = lambda a, s: a.reshape(*s)
    t.cuda = types.ModuleType('torch.cuda'); t.cuda.is_available = lambda: False
    t.get_num_threads = lambda: me.NUM_THREADS()
    t.no_grad = lambda: __import__('contextlib').nullcontext(); t.enable_grad = t.no_grad
    t.Stream = object; t.is_grad_enabled = lambda: True
    t.manual_seed = lambda s: None; t.__version__ = '2.0-symbolic'; t.Generator = object; t.autocast = None
    t.get_default_dtype = lambda: float32; t.set_default_dtype = lambda d: None; t.default_generator = None
    t.multiprocessing = None; t.library = types.ModuleType('torch.library')
    return t
NUM_THREADS = lambda: mk(sym('n_threads', 'i'), 'i')
# The discrete Fourier transform is uninterpreted: spectra are tensors of atoms, the calls are logged.
def _fftlog(): return Path.cur.loops.setdefault('fft', [])
def RFFT(x, n=None, dim=-1, norm=None):
    if dim not in (-1, x.ndim - 1): raise Unsupported('rfft along another dimension')
    if n is not None and not (n == x.shape_[-1]): raise Unsupported('rfft with padding')
    uid = sname('rfft', ()); r = Tensor(x.shape_[:-1] + (x.shape_[-1] // 2 + 1,), lambda ix: sel(uid, 'f', ix), complex64 if x.dtype is float32 else complex128)
    _fftlog().append(('rfft', uid, x.reader(), x.shape_, dict(norm=norm))); return r
def IRFFT(x, n=None, dim=-1, norm=None):
    if dim not in (-1, x.ndim - 1): raise Unsupported('irfft along another dimension')
    m = n if n is not None else 2 * (x.shape_[-1] - 1)
    uid = sname('irfft', ()); r = Tensor(x.shape_[:-1] + (m,), lambda ix: sel(uid, 'f', ix), float32 if x.dtype is complex64 else float64)
    _fftlog().append(('irfft', uid, x.reader(), x.shape_, dict(norm=norm, n=m))); return r
def RFFTFREQ(n, d=1.0, **kw):
    q = div_(ONE, pysym.mul(sz(n), of(d)[0])); return Tensor((n // 2 + 1,), lambda ix: pysym.mul(ix[0], q), _dt(kw))

# ---- importing the code under verification ----------------------------------------------------------------
class FakeFunc:
    def __init__(self, name): self.__name__ = name; self.argtypes = None; self.restype = None
    def __call__(self, *a): return CALL(self, a)
class FakeDLL:
    def __init__(self, path): self._path = path; self._f = {}
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        f = self._f.get(n)
        if f is None:
            if EXPORTED is not None and n not in EXPORTED: raise AttributeError(n)
            f = self._f[n] = FakeFunc(n)
        return f
EXPORTED = None
CALLS = []
def CALL(f, a): CALLS.append((f, a)); return 0
REPO = os.environ.get('VERIF_REPO', '/repo')
_mods = {}
def smath():
    m = types.ModuleType('math')
    for n in dir(_math): setattr(m, n, getattr(_math, n))
    m.ceil = lambda x: ceil(x) if isinstance(x, (S, Tensor)) else _math.ceil(x)
    m.floor = lambda x: floor(x) if isinstance(x, S) else _math.floor(x)
    m.sqrt = lambda x: mk(sqrt_(x.p), 'f') if isinstance(x, S) else _math.sqrt(x)
    m.exp = lambda x: mk(fn_('exp', x.p), 'f') if isinstance(x, S) else _math.exp(x)
    m.log = lambda x: mk(fn_('log', x.p), 'f') if isinstance(x, S) else _math.log(x)
    m.prod = lambda x, start=1: prod_(list(x))
    m.isclose = lambda a, b, **k: (a == b) if issym(a) or issym(b) else _math.isclose(a, b, **k)
    m.isfinite = lambda x: True if isinstance(x, S) else _math.isfinite(x)
    def hyp(*a):
        if not any(issym(x) for x in a): return _math.hypot(*a)
        return mk(sqrt_(of(sum(x * x for x in a))[0]), 'f')
    m.hypot = hyp
    return m
class ForEach:
    """for x in range(n) with symbolic n over a body that changes no tensor that existed before: one arbitrary iteration."""
    def __init__(self, *a): self.a = a
    def __iter__(self):
        a = [x.item() if isinstance(x, Tensor) else x for x in self.a]
        s, e, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else tuple(a)
        if st != 1: raise Unsupported('range step')
        s, e = of(s)[0], of(e)[0]
        if not decide(lt(s, e)): return
        n = Storage.n; live = list(Path.cur.loops.get('storages', [])); w = [x.writes for x in live]
        i = Path.cur.loops.get('foreach')
        if i is None or Path.cur.known(and_(le(s, i), lt(i, e))) is not True: i = Path.cur.fresh('it', 'i')
        assume(le(s, i)); assume(lt(i, e))
        yield mk(i, 'i')
        if [x.writes for x in live] != w: raise Unsupported('a loop over a symbolic range changes a tensor')
RANGE = None
SCATTER = None
def prange(*a):
    if any(issym(x) or isinstance(x, Tensor) for x in a): return (RANGE or ForEach)(*a)
    return range(*a)
INJECT = dict(range=prange, min=smin, max=smax, int=sint, float=sfloat, len=slen)
def load(name='deepwave'):
    """Import deepwave from the working tree with the symbolic torch."""
    if name in _mods: return _mods[name]
    if 'deepwave' not in sys.modules:
        t = build()
        for n, m in {'torch': t, 'torch.nn': t.nn, 'torch.nn.functional': t.nn.functional, 'torch.fft': t.fft, 'torch._C': t._C, 'torch._C._functorch': t._C._functorch, 'torch.autograd': t.autograd, 'torch.autograd.function': t.autograd.function,
                     'torch.jit': t.jit, 'torch.utils': t.utils, 'torch.utils.checkpoint': t.utils.checkpoint, 'torch.cuda': t.cuda}.items(): sys.modules[n] = m
        import ctypes
        real = ctypes.CDLL; ctypes.CDLL = FakeDLL
        sys.path.insert(0, os.path.join(REPO, 'src'))
        sys.dont_write_bytecode = True
        import importlib.machinery
        try:
            p = os.path.join(REPO, 'src', 'deepwave')
            spec = importlib.util.spec_from_file_location('deepwave', os.path.join(p, '__init__.py'), submodule_search_locations=[p])
            m = importlib.util.module_from_spec(spec); sys.modules['deepwave'] = m; spec.loader.exec_module(m)
        finally: ctypes.CDLL = real
        mm = smath()
        for n, m in list(sys.modules.items()):
            if n.startswith('deepwave'):
                for k, v in INJECT.items():
                    if k not in m.__dict__: m.__dict__[k] = v
                if 'math' in m.__dict__: m.__dict__['math'] = mm
                _mods[n] = m
    return _mods[name]

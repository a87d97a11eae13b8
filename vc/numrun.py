"""Bounded conformance and replay: compile the kernels from the current sources, run them on concrete inputs and compare
with a numerical evaluation of the specification (eqs). Used to replay refuted obligations on the real code, and as the
bounded stand-in where an obligation cannot be decided. Never counted as proof."""
import ctypes, itertools, json, os, shutil, subprocess, sys, tempfile, hashlib
import numpy as np
from .terms import *
from .spec import Spec
from .stencil import Ctx
from . import eqs
from .abi import canonical, kernel_name, capi_name
from .cfront import load, REPO

_libs = {}
SCRATCH = None
def scratch():
    global SCRATCH
    if SCRATCH is None:
        import atexit
        SCRATCH = tempfile.mkdtemp(prefix='verif-num-'); atexit.register(shutil.rmtree, SCRATCH, True)
    return SCRATCH

def build(files, ndim, acc, dtype='double', flags=()):
    """Shared library of the given sources in one configuration; path or raises with the compiler output."""
    key = (tuple(files), ndim, acc, dtype, tuple(flags))
    if key in _libs: return _libs[key]
    src = os.path.join(REPO, 'src', 'deepwave'); out = os.path.join(scratch(), 'l%d.so' % len(_libs))
    cmd = ['gcc', '-O1', '-mavx2', '-fopenmp', '-fPIC', '-shared', '-w', '-DDW_NDIM=%d' % ndim, '-DDW_ACCURACY=%d' % acc, '-DDW_DTYPE=%s' % dtype, '-DDW_DEVICE=cpu', '-I' + src, *flags]
    r = subprocess.run(cmd + [os.path.join(src, f) for f in files] + ['-o', out, '-lm'], capture_output=True, text=True)
    if r.returncode: raise RuntimeError('compilation failed: ' + r.stderr[:2000])
    _libs[key] = out
    return out

MARGIN = 64
class Guarded:
    """An array surrounded by poisoned cells."""
    def __init__(self, data):
        data = np.ascontiguousarray(data); self.n = data.size
        self.poison = np.nan if data.dtype.kind == 'f' else -(1 << 40) if data.dtype.itemsize == 8 else 0xA5
        self.buf = np.full(data.size + 2 * MARGIN, self.poison, data.dtype); self.buf[MARGIN:MARGIN + data.size] = data.ravel()
        self.shape = data.shape; self.before = self.buf.copy()
    @property
    def a(self): return self.buf[MARGIN:MARGIN + self.n].reshape(self.shape)
    def ptr(self): return ctypes.c_void_p(self.buf.ctypes.data + MARGIN * self.buf.itemsize)
    def intact(self):
        f = lambda x: x.view(np.uint8)
        return np.array_equal(f(self.buf[:MARGIN]), f(self.before[:MARGIN])) and np.array_equal(f(self.buf[-MARGIN:]), f(self.before[-MARGIN:]))

# ---- scalar evaluation of integer terms ----
def iev(p, env):
    tot = 0
    for m, c in p.d.items():
        t = c
        for a in m: t = t * iat(a, env)
        tot += t
    return tot
def iat(a, env):
    k = ATOMS[a]
    if k[0] == 'sym': return env[k[1]]
    if k[0] == 'ite': return iev(k[2] if cev(k[1], env) else k[3], env)
    if k[0] == 'div': x, y = iev(k[1], env), iev(k[2], env); return int(x / y) if x * y < 0 else x // y
    if k[0] == 'mod': x, y = iev(k[1], env), iev(k[2], env); return x % y
    raise KeyError(k)
def cev(c, env):
    if c == TRUE: return True
    if c == FALSE: return False
    if c[0] == 'and': return all(cev(x, env) for x in c[1])
    if c[0] == 'or': return any(cev(x, env) for x in c[1])
    if c[0] == 'not': return not cev(c[1], env)
    x = iev(c[2], env)
    return {'<': x < 0, '<=': x <= 0, '==': x == 0, '!=': x != 0}[c[1]]

# ---- compression codec of the contract (C05) ----
def blocks(shape): return itertools.product(*[range(0, n, 8) for n in shape])
def codec_sizes(shape, item): nb = int(np.prod([(n + 7) // 8 for n in shape])); return nb * item, nb * item + int(np.prod(shape))
def encode(x):
    mx = []; q = np.zeros(x.shape, np.uint8)
    for b in blocks(x.shape):
        s = tuple(slice(i, i + 8) for i in b); m = np.abs(x[s]).max(); mx.append(m)
        q[s] = np.clip(np.floor(128 + (x[s] * (127 / m) if m > 0 else 0 * x[s]) + 0.5), 0, 255)
    return np.array(mx, x.dtype).tobytes() + q.tobytes()
def decode(raw, shape, dtype):
    nb = codec_sizes(shape, np.dtype(dtype).itemsize)[0]; mx = np.frombuffer(raw[:nb], dtype); q = np.frombuffer(raw[nb:], np.uint8).reshape(shape)
    out = np.zeros(shape, dtype)
    for m, b in zip(mx, blocks(shape)):
        s = tuple(slice(i, i + 8) for i in b); out[s] = (q[s].astype(dtype) - 128) * (m / 127)
    return out

class Case:
    """One concrete input of a kernel."""
    def __init__(self, eq, ndim, acc, pas, seed, dtype='double', **over):
        self.eq, self.ndim, self.acc, self.pas, self.seed, self.dtype, self.over = eq, ndim, acc, pas, seed, dtype, over
        self.fwd = pas.startswith('forward'); self.E = eqs.EQS[eq]
        self.ctx = Ctx(ndim, acc); ctx = self.ctx
        # acoustic/elastic/Born specifications are parametrised by the time symbol only through guards
        self.t = sym('t'); self.shot = sym('shot')
        self.spec = self.E[pas](ctx, self.t)
        self.kinds = self.E['kinds'](ctx, self.fwd); self.pairs = self.E['pairs'](ctx, self.fwd)
        self.zero = self.E['zero'](ctx, self.fwd)
        self.np = np.float64 if dtype == 'double' else np.float32
        self.sig = capi_name(eq, ndim, acc, dtype, pas)
        self.params = load(self.E['file'], ndim, acc, dtype).funcs[self.sig]['params']
        self.canon = canonical(eq, ndim, pas, [n for n, _ in self.params])
        self.pairs = [(a, b) for a, b in self.pairs if a in self.canon and b in self.canon]
        self.generate()

    def generate(self):
        r = np.random.default_rng(self.seed); ctx = self.ctx; R = ctx.R; o = self.over
        env = {}
        pick = lambda k, *xs: o.get(k, xs[r.integers(len(xs))])
        for d in ctx.dims:
            n = int(2 * R + r.integers(1, 6 if self.ndim > 2 else 12)) if 'n' + d not in o else o['n' + d]
            lo, hi = R, n - R
            p = sorted(int(x) for x in r.integers(lo, hi + 1, 2))
            env['n' + d] = n; env['pml_%s0' % d] = o.get('pml_%s0' % d, p[0]); env['pml_%s1' % d] = o.get('pml_%s1' % d, p[1])
            h = 0.6 + 0.8 * r.random(); env['rd' + d] = h; env['rd%s2' % d] = h * h
        env['dt'] = 0.11; env['dt2'] = 0.0121
        env['n_shots'] = pick('n_shots', 1, 2, 3); env['step_ratio'] = pick('step_ratio', 1, 2, 3)
        ch = pick('samples', 1, 2, 3); env['nt'] = o.get('nt', ch * env['step_ratio']); env['nt_total'] = env['nt'] + env['step_ratio'] * 2
        st = pick('start_samples', 0, 1, 2) * env['step_ratio']
        env['start_t'] = o.get('start_t', st if self.fwd else st + env['nt'])
        env['n_threads'] = pick('n_threads', 1, 2, 4)
        env['storage_mode'] = pick('storage_mode', 0, 0, 2, 3); env['storage_compression'] = pick('storage_compression', 0, 0, 1)
        for n in self.canon:
            if n.endswith('_requires_grad'): env[n] = pick(n, 1, 1, 0) if env['storage_mode'] != 3 else 0
            if n.endswith('_batched'): env[n] = int(pick(n, 0, 1) and env['n_shots'] > 1)
            if n.startswith('n_') and n.endswith('_per_shot'): env[n] = pick(n, 0, 1, 3)
        if 'n_sourcessc_per_shot' in env: env['n_sourcessc_per_shot'] = env['n_sources_per_shot'] = max(env.get('n_sources_per_shot', 0), env['n_sourcessc_per_shot'])
        self.env = env
        self.shape = tuple(env['n' + d] for d in ctx.dims); self.ncell = int(np.prod(self.shape))
        item = 8 if self.dtype == 'double' else 4
        env['shot_bytes_uncomp'] = self.ncell * item; env['shot_bytes_comp'] = codec_sizes(self.shape, item)[1]
        self.comp = bool(env['storage_compression']); ns = env['n_shots']; self.nsamp = env['nt_total'] // env['step_ratio']
        self.arrays = {}; self.samples = {}; self.files = {}
        for n in self.canon:
            k = self.kinds.get(n)
            if k is None and n.endswith('_thread') is False and n.startswith('grad_') and n + '_thread' in self.kinds:
                b = iev(self.kinds[n + '_thread'][1](P(1), P(0)), dict(env, tid=0)) if env['n_threads'] > 0 else 0
                self.arrays[n] = r.standard_normal((self.rootcount(n + '_thread', True),) + self.shape).astype(self.np); continue
            if k is None: continue
            if k[0] == 'grid':
                if k[1] is eqs.store_root: continue
                x = r.standard_normal((self.rootcount(n),) + self.shape)
                if n in ('v', 'v2dt2', 'k', 'lamb', 'mu') or n.startswith(('buoyancy', 'mu_')): x = 0.5 + np.abs(x) / 4
                self.arrays[n] = self.zeroed(n, x).astype(self.np)
            elif k[0] == 'coef':
                x = r.standard_normal(env['n' + k[1]]) * 0.4
                self.arrays[n] = self.zeroed(n, x, k[1]).astype(self.np)
        for n in self.canon:
            k = self.kinds.get(n)
            if k is None: continue
            if k[0] == 'row': self.arrays[n] = r.standard_normal((env['nt_total'], ns, env[self.rowcount(n)])).astype(self.np)
            elif k[0] == 'loc':
                m = env[self.rowcount(n)]; inner = [np.arange(self.ctx.R, s - self.ctx.R) for s in self.shape]
                cells = np.ravel_multi_index(np.meshgrid(*inner, indexing='ij'), self.shape).ravel()
                x = np.array([r.permutation(cells)[:m] if len(cells) >= m else np.resize(cells, m) for _ in range(ns)], np.int64).reshape(ns, m)
                x[r.random(x.shape) < 0.2] = -1 - (1 << 30)
                self.arrays[n] = x
        # snapshots
        for n in self.canon:
            if n.endswith('_store_1') and n in self.kinds: self.store(n[:-8], r)

    def rowcount(self, n):
        cs = {}
        for s in list(self.spec.records) + [x for st in self.spec.stages.values() for x in st if x.kind == 'inject']:
            if s.kind == 'record': cs[s.out] = cs[s.loc] = s.n
            else: cs[s.amp] = cs[s.loc] = s.n
        return cs[n]
    def rootcount(self, n, plain=False):
        f = self.kinds[n][1]; e = dict(self.env, tid=self.env['n_threads'] - 1, shot=self.env['n_shots'] - 1, t=0)
        if f.__qualname__.startswith('threaded'):
            b = iev(f(P(1), P(0)), dict(e, tid=0))
            return self.env['n_shots'] if b else (1 if plain else self.env['n_threads'])
        return iev(f(sym('shot'), sym('t')), e) + 1
    def zeroed(self, n, x, d=None):
        for (dd, lo, hi) in self.zero(n):
            s = slice(max(0, iev(lo, self.env)), max(0, iev(hi, self.env)))
            if d is not None: x[s] = 0
            else: x[(slice(None),) * (1 + self.ctx.dims.index(dd)) + (s,)] = 0
        return x

    def store(self, name, r):
        env = self.env; ns = env['n_shots']; m = env['storage_mode']
        S = r.standard_normal((self.nsamp, ns) + self.shape).astype(self.np) * 3
        S[:, :, ...][r.random(S.shape) < 0.05] = 0
        cb = env['shot_bytes_comp']
        raw = None
        if self.comp:
            raw = [[encode(S[q, s]) for s in range(ns)] for q in range(self.nsamp)]
            S = np.array([[decode(raw[q][s], self.shape, self.np) for s in range(ns)] for q in range(self.nsamp)])
        self.samples[name] = S
        dev = m == 0
        s1 = S if dev and not self.comp else r.standard_normal((1, ns) + self.shape).astype(self.np)
        self.arrays[name + '_store_1'] = s1.reshape((-1,) + self.shape).copy()
        n2 = (self.nsamp if dev else 1) * ns if self.comp else 0
        s2 = np.zeros((n2, cb), np.uint8)
        if self.comp and dev: s2[:] = np.array([np.frombuffer(raw[q][s], np.uint8) for q in range(self.nsamp) for s in range(ns)])
        self.arrays[name + '_store_2'] = s2
        if m == 2:
            d = tempfile.mkdtemp(dir=scratch()); fs = []
            for s in range(ns):
                p = os.path.join(d, 's%d' % s); fs.append(p)
                if not self.fwd:
                    with open(p, 'wb') as f:
                        for q in range(self.nsamp): f.write(raw[q][s] if self.comp else S[q, s].tobytes())
                else:
                    with open(p, 'wb') as f:          # what earlier calls have appended
                        for q in range(env['start_t'] // env['step_ratio']): f.write(b'\1' * (cb if self.comp else env['shot_bytes_uncomp']))
            self.files[name] = fs

    # ---- specification ----
    def expected(self):
        """Logical contents after the call: arrays by (canonical) name, plus saved samples."""
        env = dict(self.env); S = {n: a.copy() for n, a in self.arrays.items() if a.dtype.kind == 'f'}
        for a in list(S):
            if a.endswith('_store_1'): S[a] = S[a]
        saved = {}; nt, st = env['nt'], env['start_t']; pairmap = {}
        steps = range(st, st + nt) if self.fwd else range(st - 1, st - nt - 1, -1)
        for t in steps:
            env['t'] = t
            for shot in range(env['n_shots']):
                env['shot'] = shot; env['tid'] = 0
                self.step(S, env, saved)
            for a, b in self.pairs: S[a], S[b] = S[b], S[a]
        return S, saved

    def root(self, n, env): return iev(self.kinds[n][1](self.shot, self.t), env)

    def step(self, S, env, saved):
        ctx = self.ctx; vers = {}
        def view(n, ver):
            if n in vers and ver < len(vers[n]): return vers[n][ver]
            return S[n][self.root(n, env)]
        def begin(n): vers.setdefault(n, []).append(S[n][self.root(n, env)].copy())
        for st in self.spec.order:
            if st.kind == 'update':
                begin(st.arr)
                if not cev(st.guard, env): continue
                box = [(iev(l, env), iev(h, env)) for l, h in (self.E['dom'](ctx)(d, st.dom[d]) for d in ctx.dims)]
                if any(l >= h for l, h in box): continue
                self.evaluated = True
                S[st.arr][self.root(st.arr, env)][tuple(slice(l, h) for l, h in box)] = self.pev(st.expr, view, box, env, S)
            elif st.kind == 'inject':
                begin(st.arr); A = S[st.arr][self.root(st.arr, env)].reshape(-1)
                sh, t = env['shot'], env['t']
                for i in range(env[st.n]):
                    l = self.arrays[st.loc][sh, i]
                    if l >= 0: A[l] += self.arrays[st.amp][t, sh, i] * st.scale
            elif st.kind == 'record':
                sh, t = env['shot'], env['t']
                for i in range(env[st.n]):
                    l = self.arrays[st.loc][sh, i]
                    if l >= 0: S[st.out][t, sh, i] = sum(view(a, v).reshape(-1)[l] for a, v in st.arrs)
            elif st.kind == 'load':
                begin(st.arr)
                if cev(st.guard, env): S[st.arr][self.root(st.arr, env)] = self.samples[st.name][env['t'] // env['step_ratio'], env['shot']]
            elif st.kind == 'save':
                if cev(st.guard, env): saved.setdefault(st.name, {})[(env['t'] // env['step_ratio'], env['shot'])] = S[st.arr][self.root(st.arr, env)].copy()

    def pev(self, p, view, box, env, S):
        cache = {}; ctx = self.ctx
        def at(a):
            r = cache.get(a)
            if r is not None: return r
            k = ATOMS[a]
            if k[0] == 'F': r = view(k[1], k[2])[tuple(slice(l + s, h + s) for (l, h), s in zip(box, k[3]))]
            elif k[0] == 'C':
                j = ctx.dims.index(k[2]); l, h = box[j]; x = S[k[1]][l + k[3]:h + k[3]]
                r = x.reshape((-1,) + (1,) * (len(box) - 1 - j))
            elif k[0] == 'sym': r = env[k[1]]
            else: raise KeyError(k)
            cache[a] = r; return r
        tot = np.zeros(tuple(h - l for l, h in box))
        for m, c in p.d.items():
            t = float(c)
            for a in m: t = t * at(a)
            tot = tot + t
        return tot

    # ---- the code ----
    def call(self, lib=None, chunks=None):
        env = self.env
        if lib is None: lib = ctypes.CDLL(build([self.E['file'], 'storage_utils.c', 'simple_compress.c'], self.ndim, self.acc, self.dtype))
        fn = getattr(lib, self.sig); G = {n: Guarded(a) for n, a in self.arrays.items()}
        keep = []
        args = []
        for (pn, ty), n in zip(self.params, self.canon):
            if ty[0] == 'ptr':
                if n in G: args.append(G[n].ptr())
                elif n.endswith('_filenames_ptr'):
                    fs = self.files.get(n[:-len('_filenames_ptr')])
                    arr = (ctypes.c_char_p * max(1, env['n_shots']))(*([f.encode() for f in fs] if fs else [b''] * env['n_shots'])); keep.append(arr); args.append(arr)
                else: args.append(None)
            elif ty[0] == 'flt': args.append((ctypes.c_double if self.dtype == 'double' else ctypes.c_float)(env[n]))
            elif ty[1] == 1: args.append(ctypes.c_bool(env[n]))
            else: args.append(ctypes.c_int64(env[n]))
        for g in G.values(): g.before = g.buf.copy()
        self.rc = fn(*args)
        return G

    def describe(self): return {'equation': self.eq, 'ndim': self.ndim, 'accuracy': self.acc, 'pass': self.pas, 'dtype': self.dtype, 'seed': self.seed, 'over': self.over, 'env': {k: v for k, v in self.env.items()}}

    def run(self, lib=None):
        """-> list of mismatch strings."""
        out = []; env = self.env
        exp, saved = self.expected(); G = self.call(lib)
        if self.rc: out.append('return code %s' % self.rc)
        for n, g in G.items():
            if not g.intact(): out.append('%s: cells outside the array were changed' % n)
        tol = 1e-9 if self.dtype == 'double' else 2e-4
        def cmp(name, got, want, lim=None):
            sc = np.abs(want).max(initial=0); sc = max(sc, 1e-30) if np.isfinite(sc) else 1.0
            d = np.abs(got - want); bad = ~(d <= (tol * sc if lim is None else lim))
            if bad.any():
                i = tuple(int(x) for x in np.argwhere(bad)[0])
                out.append('%s%s = %r, specification %r (%d cells differ)' % (name, list(i), float(got[i]), float(want[i]), int(bad.sum())))
        swap = {}
        if env['nt'] % 2:
            for a, b in self.pairs: swap[a] = b; swap[b] = a
        stores = set()
        for n in G:
            if n.endswith('_store_1'): stores.add(n)
        for n, g in G.items():
            if g.buf.dtype.kind != 'f':
                if n.endswith('_store_2'): continue
                if not np.array_equal(g.buf, g.before): out.append('%s was changed' % n)
                continue
            if n in stores or n.endswith('_thread') or n + '_thread' in self.kinds: continue
            src = exp[swap.get(n, n)]
            got = g.a
            if n in swap and n not in self.spec.ver and swap[n] not in self.spec.ver: continue
            cmp(n, got, src)
        # gradients
        for n in list(G):
            if not n.endswith('_thread'): continue
            o = n[:-7]; batched = self.rootcount(n, True) > 1 or iev(self.kinds[n][1](P(1), P(0)), dict(env, tid=0)) == 1
            flag = [x for x in self.canon if x.endswith('_requires_grad')]
            inner = (slice(None),) + tuple(slice(self.ctx.R, s - self.ctx.R + (0)) for s in self.shape)
            if batched: cmp(n, G[n].a, exp[n]); continue
            contrib = exp[n].sum(0, keepdims=True)
            cmp(n + ' (all threads)', G[n].a.sum(0, keepdims=True), contrib)
            if o in G:
                from .compare import GRADFLAGS
                req = self.req(n)
                if env['n_threads'] > 1 and env[req]: cmp(o, G[o].a[inner], (self.arrays[o] + contrib)[inner])
                else: cmp(o, G[o].a, self.arrays[o])
        # snapshots
        for n in stores:
            name = n[:-8]
            if self.fwd and name in saved or not self.fwd: pass
            got1 = G[n].a
            if self.fwd:
                cmp(n, got1, exp[n])
                for (q, s), x in saved.get(name, {}).items():
                    mode = env['storage_mode']
                    if not self.comp and mode == 0: cmp('%s sample %d shot %d' % (name, q, s), got1[q * env['n_shots'] + s], x); continue
                    if mode == 3: continue
                    if mode == 2:
                        size = env['shot_bytes_comp'] if self.comp else env['shot_bytes_uncomp']
                        with open(self.files[name][s], 'rb') as f: f.seek(q * size); raw = f.read(size)
                        if len(raw) != size: out.append('%s: sample %d of shot %d missing in the file' % (name, q, s)); continue
                    else: raw = G[name + '_store_2'].a[(q if mode == 0 else 0) * env['n_shots'] + s].tobytes()
                    if self.comp:
                        if mode == 1: continue
                        y = decode(raw, self.shape, self.np); lim = np.zeros(self.shape)
                        for b in blocks(self.shape):
                            sl = tuple(slice(i, i + 8) for i in b); lim[sl] = np.abs(x[sl]).max() / 254 * (1 + 1e-5) + 1e-300
                        cmp('%s sample %d shot %d (decompressed)' % (name, q, s), y, x, lim)
                    else: cmp('%s sample %d shot %d (file)' % (name, q, s), np.frombuffer(raw, self.np).reshape(self.shape), x)
        for name, fs in self.files.items():
            if self.fwd:
                size = env['shot_bytes_comp'] if self.comp else env['shot_bytes_uncomp']
                for s, p in enumerate(fs):
                    want = (env['start_t'] // env['step_ratio'] + len({q for q, ss in saved.get(name, {}) if ss == s})) * size
                    if os.path.getsize(p) != want: out.append('%s: file of shot %d has %d bytes instead of %d' % (name, s, os.path.getsize(p), want))
        return out

    def req(self, n):
        from .compare import cond_names
        b = [x for x in cond_names(self.kinds[n][1](self.shot, self.t)) if x.endswith('_batched')]
        return b[0][:-len('_batched')] + '_requires_grad'

if __name__ == '__main__':
    import time
    a = sys.argv[1:]; t0 = time.time(); nbad = 0
    for seed in range(int(a[4]), int(a[5])):
        c = Case(a[0], int(a[1]), int(a[2]), a[3], seed)
        bad = c.run()
        if bad:
            nbad += 1
            if nbad < 4: print(seed, bad[:4], {k: v for k, v in c.env.items() if not k.startswith('rd')})
    print(a, 'bad', nbad, '%.1fs' % (time.time() - t0))

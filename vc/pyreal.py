"""Bounded conformance runs of the real Python code on the real torch, with the compiled library rebuilt from the working
tree (only the configurations a run needs) in a scratch copy of the package."""
import concurrent.futures as cf, json, os, subprocess, sys, tempfile, shutil, atexit
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
_scr = []
def scratch():
    if not _scr:
        d = tempfile.mkdtemp(prefix='vcpy'); _scr.append(d); me = os.getpid()
        atexit.register(lambda: os.getpid() == me and shutil.rmtree(d, ignore_errors=True))
    return _scr[0]

def package(configs=()):
    """configs: (file, ndim, accuracy, dtype). Returns a directory for PYTHONPATH."""
    d = tempfile.mkdtemp(dir=scratch()); pk = os.path.join(d, 'deepwave'); os.mkdir(pk)
    src = os.path.join(REPO, 'src', 'deepwave')
    for f in os.listdir(src):
        if f.endswith('.py'): shutil.copy(os.path.join(src, f), pk)
    base = ['gcc', '-O1', '-mavx2', '-fopenmp', '-fPIC', '-w', '-I' + src, '-c']
    def cc(j):
        n, (f, nd, acc, dt) = j; o = os.path.join(d, 'o%d.o' % n)
        r = subprocess.run(base + (['-DDW_NDIM=%d' % nd, '-DDW_ACCURACY=%d' % acc, '-DDW_DTYPE=%s' % dt, '-DDW_DEVICE=cpu'] if nd else []) + [os.path.join(src, f), '-o', o], capture_output=True, text=True)
        if r.returncode: raise RuntimeError('compilation failed: ' + r.stderr[:1500])
        return o
    jobs = [(f, nd, acc, dt) for f in ('simple_compress.c', 'storage_utils.c') for nd, acc, dt in sorted({(nd, 2, dt) for _, nd, _, dt in configs}) or [(0, 0, '')]] + [(f + '.c', nd, acc, dt) for f, nd, acc, dt in configs]
    with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(cc, enumerate(jobs)))
    r = subprocess.run(['gcc', '-shared', '-fopenmp', *objs, '-o', os.path.join(pk, 'libdeepwave_C.so'), '-lm'], capture_output=True, text=True)
    if r.returncode: raise RuntimeError('link failed: ' + r.stderr[:1500])
    return d

def run(pkg, func, timeout=600, **kw):
    """Runs conf.<func>(**kw); returns dict(runs, mismatches)."""
    env = dict(os.environ, PYTHONPATH=pkg, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='4', TMPDIR=scratch())
    r = subprocess.run([PY, os.path.join(HERE, 'conf.py'), func, json.dumps(kw)], capture_output=True, text=True, timeout=timeout, env=env, cwd=scratch())
    try: return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception: return dict(runs=0, mismatches=[], crash='%s exit %d: %s' % (func, r.returncode, r.stderr[-1500:]), code=r.returncode)

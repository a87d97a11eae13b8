"""Running the obligations of one property: task pool, decision policy, replay, evidence."""
import json, os, signal, sys, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = os.path.join(HERE, 'evidence')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

class Timeout(BaseException): pass
BUDGET = float(os.environ.get('VERIF_BUDGET', '560' if TIER == 'quick' else '800'))    # wall seconds for all tasks of a check
def _alarm(*a): raise Timeout()

def _task(fn, args, limit, deadline):
    """Run one task in a worker; returns a compact dict."""
    from . import terms, pysym
    limit = max(2, min(limit, deadline - time.time())); pysym.Items.last = None
    def part(): return pysym.Items.last.items if pysym.Items.last else []
    t0 = time.time(); c0, z0 = terms.STATS['z3_calls'], terms.STATS['z3_time']
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(int(limit))
    try: r = fn(*args)
    except Timeout: r = dict(unit='%s%s' % (fn.__name__, args), items=part() + [dict(status='undecided', name='time limit', backend='-', detail='%d s' % limit)])
    except pysym.Enough: r = pysym.Items.last
    except Exception as e:
        r = dict(unit='%s%s' % (fn.__name__, args), items=part() + [dict(status='undecided', name='engine', backend='-', detail=traceback.format_exc()[-1500:])])
    finally: signal.alarm(0)
    if not isinstance(r, dict): r = dict(unit=r.unit, items=r.items, funcs=getattr(r, 'funcs', []), extra=getattr(r, 'extra', None))
    items = r['items']; by = {}
    for i in items:
        if i['status'] == 'proved': by[i['backend']] = by.get(i['backend'], 0) + i.get('k', 1)
    return dict(unit=r['unit'], n=sum(i.get('k', 1) for i in items), by=by, refuted=[i for i in items if i['status'] == 'refuted'], undecided=[i for i in items if i['status'] == 'undecided'],
                names=sorted({i['name'] for i in items if i['status'] == 'proved'})[:400], bounded=r.get('bounded', []), runs=r.get('runs', 0), nontrivial=r.get('nontrivial', r.get('runs', 0)),
                funcs=r.get('funcs', []), args=args, fn=fn.__name__, wall=time.time() - t0, z3=terms.STATS['z3_calls'] - c0, z3t=terms.STATS['z3_time'] - z0, extra=r.get('extra'))

def pool(tasks, limit, deadline, workers, errors):
    """one forked process per task, at most `workers` at a time; a process that outlives its limit (a solver call can ignore it) is ended"""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork'); res = [None] * len(tasks); live = {}; todo = list(enumerate(tasks)); todo.reverse()
    def child(c, f, a):
        try: c.send(_task(f, a, limit, deadline))
        except BaseException as e: c.send(repr(e)[-1500:])
        c.close(); os._exit(0)
    def lost(i, why):
        f, a = tasks[i]; res[i] = dict(unit='%s%s' % (f.__name__, a), n=1, by={}, refuted=[], undecided=[dict(status='undecided', name=why, backend='-', detail='')], names=[], bounded=[], runs=0, nontrivial=0, funcs=[], args=a, fn=f.__name__, wall=0, z3=0, z3t=0, extra=None)
    while todo or live:
        while todo and len(live) < workers:
            i, (f, a) = todo.pop(); r, w = ctx.Pipe(False); p = ctx.Process(target=child, args=(w, f, a)); p.start(); w.close()
            live[r] = (i, p, time.time() + max(2, min(limit, deadline - time.time())) + 15)
        ready = wait(list(live), timeout=max(0.1, min(x[2] for x in live.values()) - time.time()))
        for r in list(live):
            i, p, end = live[r]
            if r in ready:
                try: v = r.recv()
                except EOFError: v = 'the worker ended early'
                if isinstance(v, dict): res[i] = v
                else: lost(i, 'engine'); res[i]['undecided'][0]['detail'] = v
            elif time.time() > end: p.kill(); lost(i, 'time limit')
            else: continue
            p.join(); r.close(); del live[r]
    return res

class Report:
    def __init__(self, prop): self.prop = prop; self.t0 = time.time(); self.res = []; self.assume = []; self.notes = []; self.known = []; self.viol = []; self.funcs = set(); self.errors = []
    def run(self, tasks, limit=300, workers=8):
        """tasks: list of (fn, args)."""
        out = pool(tasks, limit, self.t0 + BUDGET, workers, self.errors)
        self.res += out
        for r in out: self.funcs.update(r['funcs'])
        return out
    def violation(self, name, replay, found):
        """replay: dict written to the replay file."""
        d = os.path.join(EV, 'replay'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.prop, len(self.viol)))
        replay = dict(property=self.prop, obligation=name, **replay)
        with open(p, 'w') as f: json.dump(replay, f, indent=1, default=str)
        self.viol.append((name, p, found))
    def finish(self, level, checker_cmd, trusted, extra=None):
        R = self.res
        ob = sum(r['n'] for r in R); dis = sum(sum(r['by'].values()) for r in R); by = {}
        for r in R:
            for k, v in r['by'].items(): by[k] = by.get(k, 0) + v
        und = [dict(unit=r['unit'], **u) for r in R for u in r['undecided']]; ref = [dict(unit=r['unit'], **u) for r in R for u in r['refuted']]
        names = []
        for r in R:
            for n in r['names'][:3]: names.append('%s: %s' % (r['unit'], n))
        cov = dict(obligations=ob, discharged=dis, checker_cmd=checker_cmd, trusted_base=trusted, discharged_by_back_end=by, solver_calls=sum(r['z3'] for r in R), solver_s=round(sum(r['z3t'] for r in R), 2),
                   units=len(R), functions_under_contract=sorted(self.funcs), obligation_samples=names[:40], undecided=und[:20], undecided_count=len(und), refuted=ref[:20],
                   bounded_runs=sum(r['runs'] for r in R), bounded_runs_nontrivial=sum(r['nontrivial'] for r in R), bounded_note='bounded runs are a labelled stand-in / conformance pass on the compiled or imported code; they are not counted as obligations', notes=self.notes)
        if extra: cov.update(extra)
        os.makedirs(EV, exist_ok=True)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        with open(os.path.join(EV, self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations, %d discharged (%s), %d undecided, %d bounded runs, %.1f s' % (self.prop, ob, dis, ', '.join('%s %d' % x for x in sorted(by.items())), len(und), cov['bounded_runs'], time.time() - self.t0))
        for u in und[:5]: print('  undecided: %s: %s: %s' % (u['unit'], u['name'], str(u['detail'])[-200:].replace('\n', ' ')))
        for k in self.known: print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        for name, p, found in self.viol: print('  %s' % name[:300])
        for name, p, found in self.viol[:5]: print('VIOLATION property=%s replay=%s%s' % (self.prop, p, '' if found else ' no-failing-input-found'))
        for e in self.errors: print('ERROR', e)
        if self.viol: return 1
        if self.errors: return 2
        if not ob and not cov['bounded_runs']: print('ERROR nothing was checked'); return 2
        return 0

"""Deciding a property of the Python sources: symbolic contract tasks plus bounded conformance runs of the real code."""
import os, sys
from vc import report, pyreal
from vc.report import Report, TIER, SEED
CMD = 'python3-vt -m vc.check %s (path conditions and element obligations by z3 %s; polynomial and rational identities by exact normal form)'
TRUST_PY = ['symbolic execution of the Python subset used (vc/pysym.py): z3, exact rational arithmetic',
            'contracts of the torch operations used (vc/pytorch.py): indexing, views, in-place writes, pad, where, comparisons, reductions, casts follow the torch documentation',
            'floating point treated as real arithmetic: a float constant stands for the rational it rounds; integers are mathematical']

def t_conf(func, kw, configs):
    """worker: one bounded conformance run"""
    pkg = pyreal.package(configs); r = pyreal.run(pkg, func, **kw)
    return dict(unit='bounded %s %s' % (func, kw), items=[], runs=r.get('runs', 0), extra=dict(mismatches=r['mismatches'], crash=r.get('crash'), func=func, kw=kw, configs=configs))

def t_spoil(fn, args):
    """the same task against a deliberately wrong contract: it must be refuted"""
    from vc import pysym
    try: r = fn(*args, spoil=True)
    except pysym.Enough: r = pysym.Items.last
    ok = any(i['status'] == 'refuted' for i in r.items)
    return dict(unit='sanity ' + r.unit, items=[], extra=dict(sanity=ok, detail=[i for i in r.items if i['status'] == 'undecided'][:2]))

def decide(rep, tasks, confs, level, note, sanity=(), trusted=(), extra_conf=None, limit=400):
    """tasks: [(fn, args)]; confs: [(func, kw, configs)]; sanity: [(fn, args)] rerun with a wrong contract."""
    prop = rep.prop
    res = rep.run([(f, a) for f, a in tasks] + [(t_conf, c) for c in confs] + [(t_spoil, s) for s in sanity], limit=limit)
    n = len(tasks); main = res[:n] if len(res) >= n else res
    sym = [r for r in res if r['fn'] not in ('t_conf', 't_spoil')]; cr = [r for r in res if r['fn'] == 't_conf']
    ref = [dict(unit=r['unit'], **i) for r in sym for i in r['refuted']]
    und = [dict(unit=r['unit'], **i) for r in sym for i in r['undecided']]
    if (ref or und or os.environ.get('VERIF_EXTRA')) and extra_conf:
        cr += [r for r in rep.run([(t_conf, c) for c in extra_conf], limit=limit) if r['fn'] == 't_conf']
    mism = []
    for r in cr:
        x = r['extra'] or {}
        for m in x.get('mismatches') or []: mism.append(dict(function=x['func'], arguments=x['kw'], configs=x['configs'], mismatch=m))
        if x.get('crash'): rep.notes.append('bounded run did not finish: ' + x['crash']); mism_crash = x['crash']; 
        if x.get('crash'):
            mism.append(dict(function=x['func'], arguments=x['kw'], configs=x['configs'], mismatch='the run ended abnormally: ' + x['crash'][-600:]))
    for r in res:
        if r['fn'] == 't_spoil' and not (r['extra'] or {}).get('sanity'):
            rep.notes.append('sanity: wrong contract not refuted in %s' % r['unit']); print('  note: wrong contract not refuted: %s %s' % (r['unit'], str(r['extra'] or r['undecided'])[:300]))
    if mism or ref:
        name = ('%s: %s' % (ref[0]['unit'], ref[0]['name'])) if ref else 'bounded conformance: %s' % mism[0]['function']
        rep.violation(name, dict(refuted=ref[:10], failing_inputs=[dict(case=m) for m in mism[:5]], note='' if mism else 'the verifier refuted the obligation; bounded runs of the real code found no failing input'), bool(mism))
    rep.undecided_standin = bool(und)
    import z3
    return rep.finish(level, CMD % (prop, z3.get_version_string()), TRUST_PY + list(trusted), dict(bounded_standins=['%s: %s' % (u['unit'], u['name']) for u in und][:20], note=note))

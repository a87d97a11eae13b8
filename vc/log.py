"""Obligation log of one verification run."""
import time
from .terms import *
from . import terms

class Log:
    def __init__(self, unit): self.unit = unit; self.items = []; self.t0 = time.time()
    def add(self, status, name, backend='poly', detail=''):
        self.items.append(dict(status=status, name=name, backend=backend, detail=str(detail)[:1500]))
    def ok(self, name, backend='poly'): self.add('proved', name, backend)
    def fail(self, name, detail='', backend='poly'): self.add('refuted', name, backend, detail)
    def undecided(self, name, detail=''): self.add('undecided', name, '-', detail)
    def check(self, name, c, detail=''): (self.ok(name) if c else self.fail(name, detail)); return c
    def prove(self, name, hyps, goal, timeout=10000, detail=''):
        if goal == TRUE or goal in hyps: self.ok(name); return True
        r, m = prove(hyps, goal, timeout)
        if r == 'proved': self.ok(name, 'z3'); return True
        if r == 'refuted': self.fail(name, '%s fails, e.g. %s %s' % (show_cond(goal), m, detail), 'z3')
        else: self.undecided(name, m)
        return False
    def eq(self, name, a, b, hyps=()):
        if a == b: self.ok(name); return True
        return self.prove(name, list(hyps), eq(a, b))
    def counts(self):
        c = {'proved': 0, 'refuted': 0, 'undecided': 0}
        for i in self.items: c[i['status']] += 1
        return c
    def bad(self): return [i for i in self.items if i['status'] == 'refuted']
    def unknown(self): return [i for i in self.items if i['status'] == 'undecided']

"""C front end: gcc -E on the real file, then a recursive-descent parser for the C subset used.

Dropped by the extraction: the text of the standard headers (replaced by the stub declarations in stubinc/),
`inline`/`static`/`const`/`__restrict`/attributes (restrict is turned into a separation precondition),
and `#pragma` lines other than `omp parallel for` / `omp simd` (kept as loop annotations).
"""
import os, re, subprocess
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src/deepwave'

class Unsupported(Exception):
    """The code left the subset the engine supports: undecided, never a violation."""

class ParseError(Unsupported):
    pass

def preprocess(path, defines, openmp=True):
    cmd = ['gcc', '-E', '-P', '-nostdinc', '-I', os.path.join(HERE, 'stubinc'), '-I', os.path.dirname(path), '-x', 'c']
    if openmp: cmd.append('-fopenmp')
    cmd += ['-D%s=%s' % kv for kv in defines.items()]
    r = subprocess.run(cmd + [path], capture_output=True, text=True)
    if r.returncode: raise ParseError('preprocessor: ' + r.stderr[:500])
    return r.stdout

TOK = re.compile(r'''
  (?P<ws>[ \t\r\f\v]+|//[^\n]*|/\*.*?\*/)|(?P<nl>\n)|
  (?P<pragma>\#[^\n]*)|
  (?P<flt>(?:\d+\.\d*|\.\d+)(?:[eE][+-]?\d+)?[fFlL]?|\d+[eE][+-]?\d+[fFlL]?)|
  (?P<int>0[xX][0-9a-fA-F]+[uUlL]*|\d+[uUlL]*)|
  (?P<id>[A-Za-z_]\w*)|
  (?P<str>"(?:\\.|[^"\\])*")|(?P<chr>'(?:\\.|[^'\\])+')|
  (?P<op>\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|[-+*/%&|^~!<>=?:;,.(){}\[\]])
''', re.X | re.S)

def tokenize(text):
    out = []; pos = 0; n = len(text); line = 1
    while pos < n:
        m = TOK.match(text, pos)
        if not m: raise ParseError('bad character %r' % text[pos:pos+20])
        k = m.lastgroup; v = m.group(); pos = m.end()
        if k == 'nl': line += 1; continue
        if k == 'ws': line += v.count('\n'); continue
        if k == 'pragma' and not v.startswith('#pragma'): continue
        out.append((k, v, line))
    out.append(('eof', '', line))
    return out

QUAL = {'const', 'volatile', 'restrict', '__restrict', '__restrict__', 'static', 'inline', 'extern', '__inline', '__inline__', 'register', 'auto', '_Noreturn', '__extension__'}
BASE = {'void', 'char', 'short', 'int', 'long', 'float', 'double', 'signed', 'unsigned', '_Bool'}

class Parser:
    def __init__(self, text):
        self.t = tokenize(text); self.p = 0
        self.typedefs = {'__builtin_va_list': ('int', 8)}
        self.funcs = {}; self.protos = {}; self.globals = {}

    # --- helpers
    def pk(self, o=0): return self.t[self.p + o]
    def isop(self, v, o=0): x = self.t[self.p + o]; return x[1] == v and x[0] in ('op', 'id')
    def acc(self, v):
        if self.isop(v): self.p += 1; return True
        return False
    def exp(self, v):
        if not self.acc(v): raise ParseError('line %d: expected %r, got %r' % (self.pk()[2], v, self.pk()[1]))
    def skip_attr(self):
        while self.isop('__attribute__') or self.isop('__declspec') or self.isop('__asm__'):
            self.p += 1; d = 0
            while True:
                if self.isop('('): d += 1
                if self.isop(')'):
                    d -= 1
                    if d == 0: self.p += 1; break
                self.p += 1

    # --- types: ('int',size,signed) ('flt',name) ('void',) ('ptr',t) ('arr',t,n) ('opaque',name) ('struct',..)
    def is_type_start(self, o=0):
        k, v, _ = self.pk(o)
        return k == 'id' and (v in QUAL or v in BASE or v in self.typedefs or v in ('struct', 'enum', 'union', 'typedef', '__attribute__'))

    def parse_specs(self):
        names = []; typedef = False; ty = None; static = False
        while True:
            k, v, ln = self.pk()
            if k != 'id': break
            if v == '__attribute__' or v == '__declspec': self.skip_attr(); continue
            if v == 'typedef': typedef = True; self.p += 1; continue
            if v in QUAL: self.p += 1; continue
            if v in BASE: names.append(v); self.p += 1; continue
            if v in ('struct', 'union', 'enum'):
                self.p += 1; nm = ''
                if self.pk()[0] == 'id': nm = self.pk()[1]; self.p += 1
                if self.isop('{'): raise ParseError('line %d: %s definition' % (ln, v))
                ty = ('opaque', nm); continue
            if v in self.typedefs and ty is None and not names:
                ty = self.typedefs[v]; self.p += 1; continue
            break
        if ty is None:
            if not names: raise ParseError('line %d: type expected at %r' % (self.pk()[2], self.pk()[1]))
            s = set(names)
            if 'void' in s: ty = ('void',)
            elif 'float' in s: ty = ('flt', 'float')
            elif 'double' in s: ty = ('flt', 'double')
            elif 'char' in s: ty = ('int', 1, 'unsigned' not in s)
            elif 'short' in s: ty = ('int', 2, 'unsigned' not in s)
            elif 'long' in s: ty = ('int', 8, 'unsigned' not in s)
            elif '_Bool' in s: ty = ('int', 1, False)
            else: ty = ('int', 4, 'unsigned' not in s)
        return ty, typedef

    def parse_declarator(self, ty, abstract=False):
        while True:
            if self.acc('*'): ty = ('ptr', ty); continue
            if self.pk()[1] in QUAL: self.p += 1; continue
            if self.isop('__attribute__'): self.skip_attr(); continue
            break
        name = None
        if self.isop('(') and (self.isop('*', 1)):
            raise ParseError('function pointer declarator')
        if self.pk()[0] == 'id' and not self.is_type_start():
            name = self.pk()[1]; self.p += 1
        dims = []
        while self.acc('['):
            if self.isop(']'): dims.append(None)
            else: dims.append(self.parse_expr())
            self.exp(']')
        for d in reversed(dims): ty = ('arr', ty, d)
        self.skip_attr()
        return name, ty

    def parse_params(self):
        ps = []
        self.exp('(')
        if self.acc(')'): return ps
        while True:
            if self.acc('...'): ps.append(('...', None))
            else:
                ty, _ = self.parse_specs()
                n, ty = self.parse_declarator(ty)
                if ty[0] == 'arr': ty = ('ptr', ty[1])
                if not (ty == ('void',) and n is None): ps.append((n, ty))
            if self.acc(')'): return ps
            self.exp(',')

    def parse_unit(self):
        while self.pk()[0] != 'eof':
            if self.pk()[0] == 'pragma': self.p += 1; continue
            if self.acc(';'): continue
            ty, typedef = self.parse_specs()
            if self.acc(';'): continue
            name, ty = self.parse_declarator(ty)
            if typedef:
                self.typedefs[name] = ty
                while self.acc(','):
                    n2, t2 = self.parse_declarator(ty); self.typedefs[n2] = t2
                self.exp(';'); continue
            if self.isop('('):
                ps = self.parse_params(); self.skip_attr()
                if self.isop('{'):
                    self.funcs[name] = dict(name=name, params=ps, ret=ty, body=self.parse_block())
                else:
                    self.protos[name] = dict(name=name, params=ps, ret=ty); self.exp(';')
                continue
            init = None
            if self.acc('='): init = self.parse_init()
            self.globals[name] = (ty, init)
            self.exp(';')
        return self

    def parse_init(self):
        if self.acc('{'):
            xs = []
            while not self.acc('}'):
                xs.append(self.parse_init())
                if not self.isop('}'): self.exp(',')
            return ('init', xs)
        return self.parse_assign()

    # --- statements
    def parse_block(self):
        self.exp('{'); ss = []
        while not self.acc('}'): ss.append(self.parse_stmt())
        return ('block', ss)

    def parse_stmt(self):
        k, v, ln = self.pk()
        pragmas = []
        while self.pk()[0] == 'pragma':
            pragmas.append(self.pk()[1]); self.p += 1
        k, v, ln = self.pk()
        if v == '{': return self.parse_block()
        if v == ';': self.p += 1; return ('empty',)
        if v == 'if':
            self.p += 1; self.exp('('); c = self.parse_expr(); self.exp(')')
            a = self.parse_stmt(); b = None
            if self.acc('else'): b = self.parse_stmt()
            return ('if', c, a, b, ln)
        if v == 'for':
            self.p += 1; self.exp('(')
            if self.acc(';'): init = ('empty',)
            elif self.is_type_start(): init = self.parse_decl()
            else:
                e = self.parse_expr(); self.exp(';'); init = ('expr', e, ln)
            c = None if self.isop(';') else self.parse_expr(); self.exp(';')
            s = None if self.isop(')') else self.parse_expr(); self.exp(')')
            return ('for', init, c, s, self.parse_stmt(), pragmas, ln)
        if v == 'while':
            self.p += 1; self.exp('('); c = self.parse_expr(); self.exp(')')
            return ('for', ('empty',), c, None, self.parse_stmt(), pragmas, ln)
        if v == 'do':
            raise ParseError('do loop')
        if v == 'switch': raise ParseError('switch')
        if v == 'goto': raise ParseError('goto')
        if v == 'return':
            self.p += 1; e = None if self.isop(';') else self.parse_expr(); self.exp(';'); return ('return', e, ln)
        if v == 'continue': self.p += 1; self.exp(';'); return ('continue',)
        if v == 'break': self.p += 1; self.exp(';'); return ('break',)
        if self.is_type_start(): return self.parse_decl()
        e = self.parse_expr(); self.exp(';'); return ('expr', e, ln)

    def parse_decl(self):
        ln = self.pk()[2]
        base, typedef = self.parse_specs()
        ds = []
        if self.acc(';'): return ('decl', ds, ln)
        while True:
            n, ty = self.parse_declarator(base)
            if typedef: self.typedefs[n] = ty
            init = None
            if self.acc('='): init = self.parse_init()
            ds.append((n, ty, init))
            if self.acc(';'): break
            self.exp(',')
        return ('decl', [] if typedef else ds, ln)

    # --- expressions
    def parse_expr(self):
        e = self.parse_assign()
        while self.acc(','): e = ('comma', e, self.parse_assign())
        return e

    ASG = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
    def parse_assign(self):
        l = self.parse_cond()
        k, v, ln = self.pk()
        if k == 'op' and v in self.ASG:
            self.p += 1; r = self.parse_assign()
            return ('assign', v, l, r, ln)
        return l

    def parse_cond(self):
        c = self.parse_bin(0)
        if self.acc('?'):
            a = self.parse_expr(); self.exp(':'); b = self.parse_cond()
            return ('cond', c, a, b)
        return c

    PREC = [{'||'}, {'&&'}, {'|'}, {'^'}, {'&'}, {'==', '!='}, {'<', '>', '<=', '>='}, {'<<', '>>'}, {'+', '-'}, {'*', '/', '%'}]
    def parse_bin(self, lvl):
        if lvl == len(self.PREC): return self.parse_unary()
        e = self.parse_bin(lvl + 1); ops = self.PREC[lvl]
        while self.pk()[0] == 'op' and self.pk()[1] in ops:
            v = self.pk()[1]; self.p += 1
            e = ('bin', v, e, self.parse_bin(lvl + 1))
        return e

    def parse_unary(self):
        k, v, ln = self.pk()
        if k == 'op':
            if v in ('-', '+', '!', '~', '*', '&'):
                self.p += 1; return ('un', v, self.parse_unary())
            if v in ('++', '--'):
                self.p += 1; return ('pre', v, self.parse_unary(), ln)
            if v == '(' and self.is_type_start(1):
                self.p += 1; ty, _ = self.parse_specs(); _, ty = self.parse_declarator(ty); self.exp(')')
                return ('cast', ty, self.parse_unary())
        if v == 'sizeof':
            self.p += 1
            if self.isop('(') and self.is_type_start(1):
                self.p += 1; ty, _ = self.parse_specs(); _, ty = self.parse_declarator(ty); self.exp(')')
                return ('sizeof', ty)
            raise ParseError('sizeof expr')
        return self.parse_postfix()

    def parse_postfix(self):
        k, v, ln = self.pk()
        if k == 'op' and v == '(':
            self.p += 1; e = self.parse_expr(); self.exp(')')
        elif k == 'int':
            self.p += 1; e = ('int', int(re.sub('[uUlL]+$', '', v), 0))
        elif k == 'flt':
            self.p += 1; e = ('flt', Fraction(re.sub('[fFlL]$', '', v)))
        elif k == 'str':
            self.p += 1; e = ('str', v)
        elif k == 'id':
            self.p += 1; e = ('id', v, ln)
        else:
            raise ParseError('line %d: unexpected %r' % (ln, v))
        while True:
            if self.acc('['):
                i = self.parse_expr(); self.exp(']'); e = ('idx', e, i, ln)
            elif self.isop('('):
                self.p += 1; a = []
                if not self.acc(')'):
                    while True:
                        a.append(self.parse_assign())
                        if self.acc(')'): break
                        self.exp(',')
                e = ('call', e, a, ln)
            elif self.isop('++') or self.isop('--'):
                op = self.pk()[1]; self.p += 1; e = ('post', op, e, ln)
            elif self.isop('.') or self.isop('->'):
                raise ParseError('member access')
            else: return e

def load(fname, ndim, accuracy, dtype='float', device='cpu', openmp=True, src=None):
    path = os.path.join(src or SRC, fname)
    text = preprocess(path, {'DW_NDIM': ndim, 'DW_ACCURACY': accuracy, 'DW_DTYPE': dtype, 'DW_DEVICE': device}, openmp)
    return Parser(text).parse_unit()

if __name__ == '__main__':
    import sys, time
    for f in ['scalar.c', 'scalar_born.c', 'acoustic.c', 'elastic.c', 'storage_utils.c', 'simple_compress.c']:
        for nd in (1, 2, 3):
            t = time.time(); u = load(f, nd, 8); print(f, nd, [ (k, len(v['params'])) for k, v in u.funcs.items()], '%.2fs' % (time.time() - t))

"""Run time of the symbolic interpreter: scalars, truth, journal of mutations, path decisions."""
from fractions import Fraction as Q
from . import terms as T
from .terms import (P, Poly, Cond, ZERO, ONE, TRUE, FALSE, VerifierError, fresh, symatom, const_of, int_of, mk_ge, mk_gt,
                    mk_eq, mk_not, mk_and, mk_or, ind, subst, cond_subst, is_real)
from .prove import Ctx, simp, prove_zero

class PyExc(Exception):
    """An exception raised by the interpreted program."""
    def __init__(self, cls, args=()):
        self.cls, self.cargs = cls, args      # cls: interpreter class or Python exception class
        Exception.__init__(self, cls, args)
    @property
    def name(self): return getattr(self.cls, '__name__', None) or self.cls.name
    def __str__(self): return '%s(%s)' % (self.name, ', '.join(map(repr, self.cargs)))

class PathEnd(Exception):
    """the current path is infeasible or was cut by an assumption"""

class NeedBound(VerifierError):
    """outside of the subset for symbolic shapes"""

class Runtime:
    def __init__(self):
        self.ctx = Ctx()
        self.prefix = []
        self.pos = 0
        self.pending = []
        self.journal = None
        self.local = None
        self.warnings = []
        self.notes = set()
        self.draws = {}

    # --- decisions ------------------------------------------------------------------------------
    def decide(self, c):
        d = self.ctx.decide(c)
        if d is not None: return d
        if self.ctx.infeasible(): raise PathEnd()
        st = self.local[-1] if self.local else self
        if st.pos < len(st.prefix):
            v = st.prefix[st.pos]
        else:
            v = True
            st.pending.append(st.prefix + [False])
            st.prefix = st.prefix + [True]
        st.pos += 1
        cc = c if v else mk_not(c)
        self.ctx.add(cc)
        if self.local: st.conds.append(cc)
        if len(st.prefix) > 60: raise VerifierError('too many decisions on one path')
        return v

    def assume(self, c):
        self.ctx.add(c)
        if self.ctx.infeasible(): raise PathEnd()

    # --- journal --------------------------------------------------------------------------------
    def log(self, kind, obj, undo):
        if self.journal is not None: self.journal.append((kind, obj, undo))

R = Runtime()

class Local:
    """local path exploration inside of a loop body"""
    def __init__(self, prefix):
        self.prefix, self.pos, self.pending, self.conds = prefix, 0, [], []

def run_local(fn):
    """Run fn along all paths; every run is undone. Yields list of (conds, result)."""
    out = []
    todo = [[]]
    if R.local is None: R.local = []
    while todo:
        pre = todo.pop()
        l = Local(pre)
        R.local.append(l)
        mk = R.ctx.mark()
        j0, R.journal = R.journal, []
        try:
            try:
                res = fn()
            except PathEnd:
                res = None
            if res is not None: out.append((list(l.conds), res))
        finally:
            for kind, obj, undo in reversed(R.journal): undo()
            R.journal = j0
            R.ctx.restore(mk)
            R.local.pop()
        todo.extend(l.pending)
        if len(out) > 16: raise VerifierError('too many paths in a loop body')
    return out

# --- scalars --------------------------------------------------------------------------------------
RANK = {'bool': 0, 'int': 1, 'real': 2, 'complex': 3}
def join_sort(*ss):
    return max(ss, key=lambda s: RANK[s]) if ss else 'real'

class Num:
    """symbolic scalar"""
    __slots__ = ('p', 'sort', 'np')
    def __init__(self, p, sort, np=False):
        self.p, self.sort, self.np = p, sort, np
    def __repr__(self): return 'Num(%s:%s)' % (self.p, self.sort)
    def __add__(self, o): return arith('+', self, o)
    def __radd__(self, o): return arith('+', o, self)
    def __sub__(self, o): return arith('-', self, o)
    def __rsub__(self, o): return arith('-', o, self)
    def __mul__(self, o): return arith('*', self, o)
    def __rmul__(self, o): return arith('*', o, self)
    def __truediv__(self, o): return arith('/', self, o)
    def __rtruediv__(self, o): return arith('/', o, self)
    def __floordiv__(self, o): return arith('//', self, o)
    def __rfloordiv__(self, o): return arith('//', o, self)
    def __mod__(self, o): return arith('%', self, o)
    def __rmod__(self, o): return arith('%', o, self)
    def __pow__(self, o): return arith('**', self, o)
    def __rpow__(self, o): return arith('**', o, self)
    def __neg__(self): return mknum(-self.p, self.sort, self.np)
    def __pos__(self): return self
    def __abs__(self): return num_abs(self)
    def __lt__(self, o): return compare('<', self, o)
    def __le__(self, o): return compare('<=', self, o)
    def __gt__(self, o): return compare('>', self, o)
    def __ge__(self, o): return compare('>=', self, o)
    def __eq__(self, o):
        if not isnum(o): return NotImplemented
        return compare('==', self, o)
    def __ne__(self, o):
        if not isnum(o): return NotImplemented
        return compare('!=', self, o)
    def __hash__(self): return hash(self.p)
    def __bool__(self): return bool(compare('!=', self, 0))
    def __index__(self):
        n = int_of(R.ctx.rw(self.p))
        if n is None: raise VerifierError('symbolic value used as a concrete index: %s' % self.p)
        return n
    # numpy scalar interface
    @property
    def real(self): return mknum(T.real(self.p), 'real' if self.sort == 'complex' else self.sort, self.np)
    @property
    def imag(self): return mknum(T.imag(self.p), 'real' if self.sort == 'complex' else self.sort, self.np)
    def conj(self): return mknum(T.conj(self.p), self.sort, self.np)
    conjugate = conj
    def item(self): return self
    def copy(self): return self
    @property
    def T(self): return self
    @property
    def ndim(self): return 0
    @property
    def shape(self): return ()
    @property
    def size(self): return 1

def mknum(p, sort, np=False):
    p = P(p)
    if sort == 'bool': sort = 'int'
    if sort == 'int':
        n = int_of(p)
        if n is not None: return n
    return Num(p, sort, np)

def isnum(x):
    return isinstance(x, (int, float, complex, Num, SBool, Q)) and not isinstance(x, str)

def parts(x):
    """(poly, sort) of a scalar"""
    if isinstance(x, Num): return x.p, x.sort
    if isinstance(x, bool): return P(int(x)), 'int'
    if isinstance(x, int): return P(x), 'int'
    if isinstance(x, SBool): return ind(x.c), 'int'
    if isinstance(x, float):
        if x == float('inf'): return T.INF, 'real'
        if x == float('-inf'): return -T.INF, 'real'
        if x != x: return T.NAN, 'real'
        return P(x), 'real'
    if isinstance(x, complex): return P(x), 'complex'
    if isinstance(x, Q): return P(x), 'real'
    if isinstance(x, Poly): return x, 'real'
    raise VerifierError('not a scalar: %r' % (x,))

class SBool:
    """symbolic truth value; using it as a Python truth value forks the path"""
    __slots__ = ('c',)
    def __init__(self, c): self.c = c
    def __bool__(self): return R.decide(self.c)
    def __repr__(self): return 'SBool(%s)' % self.c
    def __and__(self, o): return mkbool(mk_and(self.c, cond_of(o)))
    __rand__ = __and__
    def __or__(self, o): return mkbool(mk_or(self.c, cond_of(o)))
    __ror__ = __or__
    def __invert__(self): return mkbool(mk_not(self.c))
    def __eq__(self, o): return mkbool(mk_or(mk_and(self.c, cond_of(o)), mk_and(mk_not(self.c), mk_not(cond_of(o)))))
    def __hash__(self): return hash(self.c)
    def __add__(self, o): return arith('+', self, o)
    __radd__ = __add__
    def __mul__(self, o): return arith('*', self, o)
    __rmul__ = __mul__
    def __sub__(self, o): return arith('-', self, o)
    def __rsub__(self, o): return arith('-', o, self)
    @property
    def ndim(self): return 0
    @property
    def shape(self): return ()
    def all(self): return self
    def any(self): return self

def mkbool(c):
    if c.kind == 'true': return True
    if c.kind == 'false': return False
    return SBool(c)

def cond_of(x):
    if isinstance(x, SBool): return x.c
    if isinstance(x, Cond): return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if isnum(x):
        p, _ = parts(x)
        return mk_not(mk_eq(p))
    raise VerifierError('no truth value: %r' % (x,))

def inf_sign(p):
    """+1/-1 when p is dominated by the symbol inf, None otherwise"""
    ia = symatom(T.INF)
    if ia not in p.fv: return None
    s = None
    for (f, e, b), c in p.terms.items():
        if any(a is ia for a, _ in f):
            if len(f) != 1 or e is not None or b or c[1] or f[0][1] != 1: raise VerifierError('arithmetic on inf')
            s = 1 if c[0] > 0 else -1
    return s

def cmp_cond(op, a, b):
    """condition a op b over polynomials"""
    if op == '>': return cmp_cond('<', b, a)
    if op == '>=': return cmp_cond('<=', b, a)
    d = b - a
    s = inf_sign(d)
    if s is not None:
        if op in ('<', '<='): return TRUE if s > 0 else FALSE
        return FALSE if op == '==' else TRUE
    if op == '<': return mk_gt(d)
    if op == '<=': return mk_ge(d)
    if op == '==': return mk_eq(d)
    return mk_not(mk_eq(d))

def compare(op, x, y):
    if not isnum(y) or not isnum(x):
        return NotImplemented
    a, s = parts(x)
    b, t = parts(y)
    return mkbool(cmp_cond(op, a, b))

def arith(op, x, y):
    if not isnum(x) or not isnum(y): return NotImplemented
    a, s = parts(x)
    b, t = parts(y)
    np = getattr(x, 'np', False) or getattr(y, 'np', False)
    j = join_sort(s, t)
    return mknum(*arith_poly(op, a, b, j, s, t), np)

def arith_poly(op, a, b, j, s=None, t=None):
    """(poly, sort)"""
    if op == '+': return a + b, j
    if op == '-': return a - b, j
    if op == '*': return a * b, j
    if op == '/': return a * T.recip(b), ('real' if j == 'int' else j)
    if op == '//':
        if j == 'int': return int_div('fdiv', a, b), 'int'
        return T.fn('floor', a * T.recip(b)), 'real'
    if op == '%':
        if j == 'int': return int_div('mod', a, b), 'int'
        return a - b * T.fn('floor', a * T.recip(b)), 'real'
    if op == '**':
        n = int_of(b)
        if n is not None: return T.ppow(a, n), (j if (n >= 0 or j != 'int') else 'real')
        if j == 'int': j = 'int'
        return T.power(a, b), j
    raise VerifierError('operator ' + op)

def int_div(kind, a, b):
    n = int_of(b)
    if n is not None and n < 0:
        if kind == 'fdiv': return int_div('fdiv', -a, P(-n))
        return -int_div('mod', -a, P(-n))
    if n is None and not R.ctx.prove(mk_gt(b)): raise VerifierError('integer division by a quantity of unknown sign')
    r = T.fdiv(a, b) if kind == 'fdiv' else T.pmod(a, b)
    return simp(r, R.ctx)

def num_abs(x):
    p, s = parts(x)
    if s != 'complex':
        d = R.ctx.decide(mk_ge(p))
        if d is not None: return mknum(p if d else -p, s)
    return mknum(T.absval(p), 'real' if s == 'complex' else s)

def smin(a, b):
    """min of two polynomials, decided when possible"""
    d = R.ctx.decide(mk_ge(b - a))
    if d is True: return a
    if d is False: return b
    return T.fn('min', a, b) if a.id < b.id else T.fn('min', b, a)

def smax(a, b):
    d = R.ctx.decide(mk_ge(b - a))
    if d is True: return b
    if d is False: return a
    return T.fn('max', a, b) if a.id < b.id else T.fn('max', b, a)

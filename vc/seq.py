"""Python sequences and maps of symbolic length."""
from . import terms as T
from .terms import (P, Poly, Cond, ZERO, ONE, TRUE, FALSE, VerifierError, fresh, symatom, int_of, mk_ge, mk_eq, mk_not, mk_and,
                    mk_or, mk_ex, mk_all, ind, psum, subst, cond_subst)
from .rt import R, Num, SBool, mknum, mkbool, isnum, parts, cond_of, PyExc, cmp_cond

def exc(name, msg=''):
    import builtins
    return PyExc(getattr(builtins, name), (msg,))

class SRange:
    """range(start, stop, step) with a symbolic length"""
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        if not isinstance(step, int) or step == 0: raise VerifierError('range step')
    def length(self):
        a, b = parts(self.start)[0], parts(self.stop)[0]
        from .rt import int_div
        d = (b - a) if self.step > 0 else (a - b)
        s = abs(self.step)
        n = d if s == 1 else int_div('fdiv', d + (s - 1), P(s))
        if not (R.ctx.prove(mk_ge(n)) or R.decide(mk_ge(n))): n = ZERO
        return mknum(n, 'int')
    def get(self, i): return self.start + i * self.step
    def member(self, x):
        p = parts(x)[0]
        n = parts(self.length())[0]
        a = parts(self.start)[0]
        d = p - a
        if self.step == 1: return mk_and(mk_ge(d), mk_ge(n - d - 1))
        if self.step == -1: return mk_and(mk_ge(-d), mk_ge(n + d - 1))
        q = T.fdiv(d if self.step > 0 else -d, P(abs(self.step)))
        return mk_and(mk_eq(q * self.step - d), mk_ge(q), mk_ge(n - q - 1))
    def __iter__(self): raise VerifierError('iteration over a symbolic range in contract code')

class SList:
    """list of symbolic length: get(i) for i in [0,length)"""
    def __init__(self, n, getter):
        self.n = n               # Num or int
        self.getter = getter     # i (int or Num) -> value
        self.tag = None
    def length(self): return self.n
    def get(self, i): return self.getter(i)
    def __repr__(self): return 'SList(%s)' % (self.n,)
    def index(self, i):
        """python indexing with bounds check"""
        n = parts(self.n)[0]
        p = parts(i)[0]
        if not (R.ctx.prove(mk_ge(p)) or R.decide(mk_ge(p))): p = p + n
        ok = mk_and(mk_ge(p), mk_ge(n - p - 1))
        if not (R.ctx.prove(ok) or R.decide(ok)): raise exc('IndexError', 'list index out of range')
        return self.get(mknum(p, 'int'))
    def __getitem__(self, k):
        if isinstance(k, slice): return slice_seq(self, k)
        return self.index(k)

class FilterList(SList):
    """ascending list of the integers i in [0,N) with c(i)"""
    def __init__(self, N, c):
        self.N, self.c = N, c
        self.tag = None
    def length(self):
        v = fresh('s')
        return mknum(psum(symatom(v), 0, self.N, ind(self.c(v))), 'int')
    @property
    def n(self): return self.length()
    def get(self, i): raise VerifierError('element of a filtered list')
    getter = get
    def member(self, x):
        p = parts(x)[0]
        return mk_and(mk_ge(p), mk_ge(self.N - p - 1), self.c(p))
    def as_farr(self):
        from .nparr import FArr
        r = FArr(self.N, self.c, lambda i: i, 'int')
        r.is_index = True
        return r
    def same(self, o):
        v = fresh('x')
        return (self.N is o.N or R.ctx.prove(mk_eq(self.N - o.N))) and self.c(v) is o.c(v)

class GroupMap:
    """dict grouping the positions t in [0,N) by key(t): key -> ascending list of positions"""
    def __init__(self, N, key):
        self.N, self.key = N, key
        self.tag = None
    def contains(self, x):
        p = parts(x)[0]
        w = symatom(fresh('x'))
        return mk_ex(w, 0, self.N, mk_eq(self.key(P(w)) - p))
    def get(self, x):
        p = parts(x)[0]
        return FilterList(self.N, lambda i: mk_eq(self.key(i) - p))
    def lookup(self, x):
        if not R.decide(self.contains(x)): raise exc('KeyError', x)
        return self.get(x)
    def lam(self): return T.mk_lam((self.N,), lambda ix: self.key(ix[0]))
    def length(self):
        return mknum(T.op('ndistinct', (self.lam(),), (), (), 'int'), 'int')
    def keys(self): return DistinctKeys(self)

class DistinctKeys(SList):
    """the distinct keys of a GroupMap, in order of first occurrence or sorted"""
    def __init__(self, gm, order='first'):
        self.gm, self.order = gm, order
        self.tag = None
    def length(self): return self.gm.length()
    @property
    def n(self): return self.length()
    def get(self, i):
        p = parts(i)[0]
        v = T.op('distinct_' + self.order, (self.gm.lam(),), (), (p,), 'int')
        return mknum(v, 'int')
    def getter(self, i): return self.get(i)
    def sorted(self): return DistinctKeys(self.gm, 'sorted')

def length_of(x):
    """python len()"""
    if isinstance(x, (SList, SRange, GroupMap)): return x.length()
    return None

def slice_seq(x, k):
    from .nparr import slice_range
    n = parts(x.length())[0]
    if k.start is None and k.stop is None and k.step is None:
        if isinstance(x, FilterList): return FilterList(x.N, x.c)
        if isinstance(x, DistinctKeys): return SList(x.n, x.get)
        return SList(x.n, x.getter)
    st, step, l = slice_range(k, n)
    g = x.get
    return SList(mknum(l, 'int'), lambda i: g(mknum(st + parts(i)[0] * step, 'int')))

def seq_view(x):
    """(length, getter) of any sequence value"""
    if isinstance(x, (list, tuple)): return len(x), (lambda i: x[i.__index__()] if not isinstance(i, int) else x[i])
    if isinstance(x, range): return len(x), (lambda i: x[i])
    if isinstance(x, (SList, SRange)): return x.length(), x.get
    from .nparr import Arr
    if isinstance(x, Arr):
        return mknum(x.sh[0], 'int'), (lambda i: x[i])
    raise VerifierError('not a sequence: %r' % type(x))

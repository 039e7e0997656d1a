"""Contract library for numpy: arrays with symbolic shapes, functions from index terms to element terms."""
import itertools
from . import terms as T
from .terms import (P, Poly, Cond, ZERO, ONE, TRUE, FALSE, VerifierError, fresh, symatom, const_of, int_of, mk_ge, mk_gt,
                    mk_eq, mk_not, mk_and, mk_or, mk_ex, mk_all, ind, ite, psum, subst, cond_subst, is_real)
from .prove import CONSULT
from .rt import (R, Num, SBool, mknum, mkbool, isnum, parts, cond_of, PyExc, RANK, join_sort, arith_poly, cmp_cond,
                 int_div, smin, smax, num_abs)

T.SUM_GUARD[0] = lambda hi: R.ctx.prove(mk_ge(hi))

def exc(name, msg=''):
    import builtins
    return PyExc(getattr(builtins, name), (msg,))

class LinAlgError(ValueError): pass

def memo_get(memo, f, idx):
    r = memo.get(idx)
    if r is not None: return r
    key = (idx, R.ctx.key)
    r = memo.get(key)
    if r is not None: return r
    n = CONSULT[0]
    r = f(idx)
    if CONSULT[0] == n: memo[idx] = r
    else: memo[key] = r
    return r

# --- buffers and views ------------------------------------------------------------------------------
class Buf:
    _n = 0
    __slots__ = ('f', 'shape', 'sort', 'id', 'memo', 'wc', 'tag')
    def __init__(self, shape, sort, f, tag=None):
        self.shape, self.sort, self.f = shape, sort, f
        self.memo = {}
        self.wc = None
        self.tag = tag        # name of the caller-owned object (frame conditions)
        Buf._n += 1
        self.id = Buf._n

    def get(self, idx):
        return memo_get(self.memo, self.f, idx)

    def snapshot(self):
        f, memo = self.f, self.memo
        return lambda idx: memo_get(memo, f, idx)

    def setf(self, f, cond):
        """new content; cond(idx): where it was written"""
        old = (self.f, self.memo, self.wc)
        def undo(): self.f, self.memo, self.wc = old
        R.log('buf', self, undo)
        self.f, self.memo = f, {}
        if self.wc is not None:
            w = self.wc
            self.wc = lambda x: mk_or(w(x), cond(x))
        if self.tag is not None: MUTATED.append(self.tag)

MUTATED = []

def tup(p): return tuple(P(x) for x in p)

class Arr:
    __slots__ = ('buf', 'sh', 'fwd', 'inv', 'order')
    def __init__(self, buf, sh=None, fwd=None, inv=None, order='C'):
        self.buf, self.sh, self.fwd, self.inv, self.order = buf, (buf.shape if sh is None else sh), fwd, inv, order

    # --- reading -------------------------------------------------------------------------------
    @property
    def sort(self): return self.buf.sort
    def ent(self):
        """entry function, frozen at this moment"""
        g = self.buf.snapshot()
        if self.fwd is None: return g
        fwd = self.fwd
        return lambda ix: g(fwd(ix))
    def at(self, *ix):
        ix = tup(ix)
        return self.buf.get(ix if self.fwd is None else self.fwd(ix))

    @property
    def shape(self): return tuple(mknum(s, 'int') for s in self.sh)
    @shape.setter
    def shape(self, s):
        a = reshape(self, s)
        self.sh, self.fwd, self.inv, self.order = a.sh, a.fwd, a.inv, a.order
    @property
    def ndim(self): return len(self.sh)
    @property
    def size(self):
        r = ONE
        for s in self.sh: r = r * s
        return mknum(r, 'int')
    @property
    def dtype(self): return DType(self.sort)
    @property
    def T(self): return transpose(self)
    @property
    def real(self): return real(self)
    @property
    def imag(self): return imag(self)
    @property
    def flat(self): return self.ravel()
    def __len__(self):
        raise VerifierError('len() of a symbolic array in contract code')
    def __repr__(self): return 'Arr(%s,%s)' % (','.join(map(str, self.sh)), self.sort)
    def __bool__(self):
        if all(int_of(s) == 1 for s in self.sh):
            x = self.at(*[ZERO] * self.ndim)
            return R.decide(x if isinstance(x, Cond) else mk_not(mk_eq(x)))
        raise exc('ValueError', 'truth value of an array is ambiguous')
    def __hash__(self): return id(self)

    # --- operators -------------------------------------------------------------------------------
    def __add__(self, o): return binop('+', self, o)
    def __radd__(self, o): return binop('+', o, self)
    def __sub__(self, o): return binop('-', self, o)
    def __rsub__(self, o): return binop('-', o, self)
    def __mul__(self, o): return binop('*', self, o)
    def __rmul__(self, o): return binop('*', o, self)
    def __truediv__(self, o): return binop('/', self, o)
    def __rtruediv__(self, o): return binop('/', o, self)
    def __floordiv__(self, o): return binop('//', self, o)
    def __rfloordiv__(self, o): return binop('//', o, self)
    def __mod__(self, o): return binop('%', self, o)
    def __rmod__(self, o): return binop('%', o, self)
    def __pow__(self, o): return binop('**', self, o)
    def __rpow__(self, o): return binop('**', o, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def __neg__(self): return ew1(lambda x: -x, self)
    def __pos__(self): return self.copy()
    def __abs__(self): return absolute(self)
    def __lt__(self, o): return cmpop('<', self, o)
    def __le__(self, o): return cmpop('<=', self, o)
    def __gt__(self, o): return cmpop('>', self, o)
    def __ge__(self, o): return cmpop('>=', self, o)
    def __eq__(self, o): return cmpop('==', self, o)
    def __ne__(self, o): return cmpop('!=', self, o)
    def __and__(self, o): return boolop('and', self, o)
    __rand__ = __and__
    def __or__(self, o): return boolop('or', self, o)
    __ror__ = __or__
    def __xor__(self, o): return boolop('xor', self, o)
    def __invert__(self): return logical_not(self)
    def __getitem__(self, k): return getitem(self, k)
    def __setitem__(self, k, v): setitem(self, k, v)

    # --- methods -----------------------------------------------------------------------------------
    def copy(self, order='C'):
        return mk(self.sh, self.sort, self.ent())
    def __copy__(self): return self.copy()
    def conj(self): return conj(self)
    conjugate = conj
    def reshape(self, *s, order='C'):
        return reshape(self, s[0] if len(s) == 1 else s, order=order)
    def flatten(self, order='C'): return reshape(self, (-1,), order=order).copy()
    def ravel(self, order='C'): return reshape(self, (-1,), order=order)
    def transpose(self, *a): return transpose(self, *a)
    def swapaxes(self, a, b): return swapaxes(self, a, b)
    def squeeze(self, axis=None): return squeeze(self, axis)
    def astype(self, d, copy=True): return astype(self, d, copy)
    def sum(self, axis=None, dtype=None, out=None, keepdims=False): return sum_(self, axis=axis, keepdims=keepdims)
    def mean(self, axis=None, keepdims=False): return mean(self, axis=axis, keepdims=keepdims)
    def var(self, axis=None, ddof=0): return var(self, axis=axis, ddof=ddof)
    def prod(self, axis=None): return prod(self, axis)
    def max(self, axis=None): return amax(self, axis)
    def min(self, axis=None): return amin(self, axis)
    def argmax(self, axis=None): return argmax(self, axis)
    def argmin(self, axis=None): return argmin(self, axis)
    def argsort(self, axis=-1): return argsort(self, axis)
    def any(self, axis=None): return any_(self, axis)
    def all(self, axis=None): return all_(self, axis)
    def dot(self, o): return dot(self, o)
    def diagonal(self, offset=0): return diag_of(self, offset)
    def trace(self): return trace(self)
    def cumsum(self, axis=None): return cumsum(self, axis)
    def repeat(self, n, axis=None): return repeat(self, n, axis)
    def round(self, decimals=0): return opaque_ew('round', self)
    def fill(self, v): assign(self, v)
    def nonzero(self): return nonzero(self)
    def tolist(self): return to_list(self)
    def item(self, *a):
        if a: return self[a if len(a) > 1 else a[0]]
        if all(R.ctx.prove(mk_eq(s - 1)) for s in self.sh): return self[tuple([0] * self.ndim)]
        raise exc('ValueError', 'can only convert an array of size 1')
    def sort_inplace(self, axis=-1, kind=None):
        if self.ndim == 0: raise exc('ValueError', 'sort')
        s = sort_(self, axis)
        assign(self, s)

    def getcell(self, ix):
        x = self.at(*ix)
        if self.sort == 'obj': return x
        if self.sort == 'bool': return mkbool(x)
        return mknum(x, self.sort, True)

# --- dtypes ------------------------------------------------------------------------------------------
class DType:
    def __init__(self, sort): self.sort = sort
    def __eq__(self, o):
        try: return self.sort == sort_of_dtype(o)
        except VerifierError: return False
    def __hash__(self): return hash(self.sort)
    def __repr__(self): return 'dtype(%s)' % self.sort
    @property
    def kind(self): return {'bool': 'b', 'int': 'i', 'real': 'f', 'complex': 'c', 'obj': 'O'}[self.sort]
    @property
    def type(self): return NPTYPES[self.sort]
    @property
    def name(self): return {'bool': 'bool', 'int': 'int64', 'real': 'float64', 'complex': 'complex128', 'obj': 'object'}[self.sort]
    def __call__(self, x): return cast_scalar(x, self.sort)

class NPType:
    """numpy scalar types: np.float64 etc."""
    def __init__(self, name, sort): self.__name__, self.sort = name, sort
    def __call__(self, x=0):
        if isinstance(x, Arr): return astype(x, self)
        return cast_scalar(x, self.sort)
    def __repr__(self): return 'np.' + self.__name__

NPTYPES = {'bool': NPType('bool_', 'bool'), 'int': NPType('int64', 'int'), 'real': NPType('float64', 'real'), 'complex': NPType('complex128', 'complex'), 'obj': NPType('object_', 'obj')}
ABSTRACT = {'floating': ('real',), 'complexfloating': ('complex',), 'integer': ('int',), 'signedinteger': ('int',), 'inexact': ('real', 'complex'), 'number': ('int', 'real', 'complex'), 'generic': ('bool', 'int', 'real', 'complex')}

def sort_of_dtype(d):
    if d is None: return None
    if isinstance(d, DType): return d.sort
    if isinstance(d, NPType): return d.sort
    if d is float: return 'real'
    if d is int: return 'int'
    if d is complex: return 'complex'
    if d is bool: return 'bool'
    if d is object: return 'obj'
    if isinstance(d, str):
        s = d.lower().lstrip('<>=|')
        if s.startswith(('float', 'f8', 'f4')) or s in ('d', 'f', 'double'): return 'real'
        if s.startswith(('complex', 'c16', 'c8')): return 'complex'
        if s.startswith(('int', 'uint', 'i8', 'i4')): return 'int'
        if s.startswith(('bool', '?')): return 'bool'
    n = getattr(d, 'name', None) or getattr(d, '__name__', None)
    raise VerifierError('dtype %r' % (d,))

def cast_scalar(x, sort):
    if sort == 'bool': return mkbool(cond_of(x))
    if isinstance(x, SBool): x = mknum(ind(x.c), 'int')
    p, s = parts(x)
    if sort == 'int' and s in ('real', 'complex'): p = T.fn('trunc', p)
    if sort == 'real' and s == 'complex': p = T.real(p)
    return mknum(p, sort, True) if sort != 'real' else Num(p, 'real', True)

# --- constructing ---------------------------------------------------------------------------------------
def mk(shape, sort, f, tag=None):
    return Arr(Buf(tup(shape), sort, f, tag))

def named(name, shape, sort, tag=None):
    """symbolic input array"""
    if sort == 'bool': return mk(shape, sort, lambda ix: T.batom(name, ix), tag)
    return mk(shape, sort, lambda ix: T.app(name, ix, sort), tag)

def dimp(n):
    """dimension value -> Poly; raises for negative dimensions"""
    if isinstance(n, bool): n = int(n)
    if isinstance(n, int):
        if n < 0: raise exc('ValueError', 'negative dimensions are not allowed')
        return P(n)
    if isinstance(n, Num):
        if n.sort != 'int': raise exc('TypeError', 'float cannot be interpreted as an integer')
        if not R.ctx.prove(mk_ge(n.p)):
            if not R.decide(mk_ge(n.p)): raise exc('ValueError', 'negative dimensions are not allowed')
        return R.ctx.rw(n.p)
    if isinstance(n, Poly): return n
    if n is None or isinstance(n, (str, float)): raise exc('TypeError', 'bad dimension')
    if isinstance(n, Arr) and n.ndim == 0 and n.sort == 'int': return dimp(mknum(n.at(), 'int'))
    raise VerifierError('dimension %r' % (n,))

def shape_arg(s):
    from .seq import SList
    if isinstance(s, Arr):
        if s.ndim == 0: return (dimp(s),)
        if s.sort != 'int': raise exc('TypeError', 'expected a sequence of integers')
        n = int_of(s.sh[0])
        if n is None: raise VerifierError('shape from a symbolic vector')
        return tuple(dimp(mknum(s.at(P(i)), 'int')) for i in range(n))
    if isinstance(s, (tuple, list)): return tuple(dimp(x) for x in s)
    return (dimp(s),)

def dims_equal(a, b):
    """decide equality of dimensions (may fork)"""
    if a is b: return True
    return R.decide(mk_eq(a - b))

def is1(p): return int_of(R.ctx.rw(p)) == 1

def as_arr(x):
    if isinstance(x, Arr): return x
    if isinstance(x, FArr): return x
    if isinstance(x, SBool) or isinstance(x, bool):
        c = cond_of(x)
        return mk((), 'bool', lambda ix: c)
    if isnum(x):
        p, s = parts(x)
        return mk((), s, lambda ix: p)
    from .seq import SList, SRange
    if isinstance(x, (list, tuple, SList, SRange)): return array(x)
    if hasattr(x, '__array_model__'): return x.__array_model__()
    raise VerifierError('cannot convert %s to an array' % type(x).__name__)

def array(x, dtype=None, copy=True, ndmin=0, order=None):
    from .seq import SList, SRange
    srt = sort_of_dtype(dtype)
    if isinstance(x, FArr): return x
    if isinstance(x, Arr):
        r = x.copy()
        if srt is not None and srt != x.sort: r = astype(r, srt_t(srt))
    elif isinstance(x, (SList, SRange)):
        r = from_slist(x)
        if isinstance(r, FArr): return r
        if srt is not None and srt != r.sort: r = astype(r, srt_t(srt))
    elif isinstance(x, (list, tuple)) or type(x).__name__ in ('dict_keys', 'dict_values'):
        r = from_nested(list(x))
        if srt is not None and srt != r.sort: r = astype(r, srt_t(srt))
    elif isnum(x) or isinstance(x, bool):
        r = as_arr(x)
        if srt is not None and srt != r.sort: r = astype(r, srt_t(srt))
    elif type(x).__name__ == 'GroupMap':
        raise VerifierError('array of a map')
    else:
        raise VerifierError('array(%s)' % type(x).__name__)
    while r.ndim < ndmin: r = expand_dims(r, 0)
    return r

def srt_t(s): return NPTYPES[s]

def from_slist(x):
    if hasattr(x, 'as_farr'): return x.as_farr()
    n = P(parts(x.length())[0])
    e = x.get(mknum(fresh('x'), 'int'))
    if isnum(e) or isinstance(e, SBool):
        srt = 'bool' if isinstance(e, (bool, SBool)) else parts(e)[1]
        if srt == 'bool': return mk((n,), 'bool', lambda ix: cond_of(x.get(mknum(ix[0], 'int'))))
        return mk((n,), srt, lambda ix: parts(x.get(mknum(ix[0], 'int')))[0])
    if isinstance(e, (list, tuple)) and all(isnum(y) for y in e):
        k = len(e)
        srt = join_sort(*[parts(y)[1] for y in e]) if e else 'real'
        def f(ix):
            row = x.get(mknum(ix[0], 'int'))
            c = int_of(ix[1])
            vals = [parts(y)[0] for y in row]
            if c is not None: return vals[c]
            r = vals[-1]
            for i in range(len(vals) - 1): r = ite(mk_eq(ix[1] - i), vals[i], r)
            return r
        return mk((n, P(k)), srt, f)
    if isinstance(e, Arr):
        return mk((n,) + e.sh, e.sort, lambda ix: x.get(mknum(ix[0], 'int')).at(*ix[1:]))
    raise VerifierError('array of %s' % type(e).__name__)

def pick(vals, i):
    """vals[i] for a symbolic index"""
    c = int_of(i)
    if c is not None: return vals[c]
    if isinstance(vals[0], Cond):
        return mk_or(*[mk_and(mk_eq(i - k), v) for k, v in enumerate(vals)])
    # disjoint brackets keep the term linear
    r = vals[-1]
    for k in range(len(vals) - 1):
        if vals[k] is not vals[-1]: r = r + T.ind(mk_eq(i - k)) * (vals[k] - vals[-1])
    return r

def from_nested(x):
    if len(x) == 0: return mk((ZERO,), 'real', lambda ix: ZERO)
    parts_ = [as_arr(y) if not isinstance(y, (list, tuple)) else from_nested(list(y)) for y in x]
    if any(isinstance(y, FArr) for y in parts_): raise VerifierError('array of selections')
    nd = {y.ndim for y in parts_}
    if len(nd) != 1: raise exc('ValueError', 'inhomogeneous shape')
    sh = parts_[0].sh
    for y in parts_[1:]:
        for a, b in zip(sh, y.sh):
            if not dims_equal(a, b): raise exc('ValueError', 'inhomogeneous shape')
    if all(y.sort == 'bool' for y in parts_): srt = 'bool'
    else: srt = join_sort(*['int' if y.sort == 'bool' else y.sort for y in parts_])
    es = [y.ent() for y in parts_]
    if srt != 'bool': es = [num_ent(y, e) for y, e in zip(parts_, es)]
    return mk((P(len(x)),) + tuple(sh), srt, lambda ix: pick([e(ix[1:]) for e in es], ix[0]) if int_of(ix[0]) is None else es[int_of(ix[0])](ix[1:]))

def num_ent(a, e):
    """entry function returning polynomials even for boolean arrays"""
    if a.sort == 'bool': return lambda ix: ind(e(ix))
    return e

def astype(a, d, copy=True):
    s = sort_of_dtype(d)
    if s == a.sort: return a.copy() if copy else a
    e = a.ent()
    if s == 'bool': return mk(a.sh, 'bool', lambda ix: mk_not(mk_eq(e(ix))))
    if a.sort == 'bool': return mk(a.sh, s, lambda ix: ind(e(ix)))
    if s == 'int' and a.sort != 'int': return mk(a.sh, 'int', lambda ix: T.fn('trunc', T.real(e(ix)) if a.sort == 'complex' else e(ix)))
    if s == 'real' and a.sort == 'complex': return mk(a.sh, 'real', lambda ix: T.real(e(ix)))
    return mk(a.sh, s, e)

# --- broadcasting -----------------------------------------------------------------------------------------
def broadcast_shapes(*shs):
    n = max((len(s) for s in shs), default=0)
    out = []
    for k in range(n):
        ds = []
        for s in shs:
            j = k - (n - len(s))
            if j >= 0: ds.append(s[j])
        cur = None
        for d in ds:
            if is1(d): continue
            if cur is None: cur = d
            elif cur is d or R.ctx.prove(mk_eq(cur - d)): pass
            elif int_of(d) is not None and int_of(cur) is not None:
                raise exc('ValueError', 'operands could not be broadcast together')
            elif R.decide(mk_eq(cur - d)): pass
            elif R.decide(mk_eq(cur - 1)): cur = d
            elif R.decide(mk_eq(d - 1)): pass
            else: raise exc('ValueError', 'operands could not be broadcast together')
        out.append(cur if cur is not None else ONE)
    return tuple(out)

def bidx(sh, out):
    """function mapping an output index to an index of an operand of shape sh"""
    off = len(out) - len(sh)
    one = [is1(s) and not is1(out[k + off]) or int_of(s) == 1 for k, s in enumerate(sh)]
    def f(ix):
        return tuple(ZERO if one[k] else ix[k + off] for k in range(len(sh)))
    return f

def ew(f, sort, *args, scalar_ok=True):
    """elementwise function of the arguments (f gets Polys)"""
    if any(isinstance(a, FArr) for a in args): return FArr.lift(f, sort, args)
    sc = all(isnum(a) for a in args)
    if sc and scalar_ok:
        vals = [parts(a)[0] for a in args]
        r = f(*vals)
        if isinstance(r, Cond): return mkbool(r)
        return mknum(r, sort, True)
    ar = [as_arr(a) for a in args]
    sh = broadcast_shapes(*[a.sh for a in ar])
    es = [num_ent(a, a.ent()) for a in ar]
    maps = [bidx(a.sh, sh) for a in ar]
    g = lambda ix: f(*[e(m(ix)) for e, m in zip(es, maps)])
    if len(sh) == 0:
        r = g(())
        return mkbool(r) if isinstance(r, Cond) else mknum(r, sort, True)
    return mk(sh, sort, g)

def sort_of(x):
    if isinstance(x, (Arr, FArr)): return x.sort
    if isinstance(x, (SBool, bool)): return 'bool'
    if isnum(x): return parts(x)[1]
    return as_arr(x).sort

def ew1(f, a, sort=None):
    s = sort_of(a)
    return ew(f, sort or ('int' if s == 'bool' else s), a)

def okarg(x):
    from .seq import SList, SRange
    return isnum(x) or isinstance(x, (Arr, FArr, list, tuple, SList, SRange)) or hasattr(x, '__array_model__')

def binop(op, a, b):
    if not okarg(a) or not okarg(b): return NotImplemented
    s, t = sort_of(a), sort_of(b)
    if 'obj' in (s, t): raise VerifierError('object arrays')
    j = join_sort('int' if s == 'bool' else s, 'int' if t == 'bool' else t)
    rs = j
    if op == '/' and j == 'int': rs = 'real'
    if op == '**':
        if isnum(b):
            p, sb = parts(b)
            n = int_of(p)
            if n is not None and n < 0 and j == 'int': raise exc('ValueError', 'Integers to negative integer powers are not allowed.')
    return ew(lambda x, y: arith_poly(op, x, y, j)[0], rs, a, b)

def cmpop(op, a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str): return op == '!='
    if not okarg(a) or not okarg(b): return NotImplemented
    return ew(lambda x, y: cmp_cond(op, x, y), 'bool', a, b)

def bool_ent(a):
    e = a.ent()
    if a.sort == 'bool': return e
    return lambda ix: mk_not(mk_eq(e(ix)))

def boolop(op, a, b):
    if isinstance(a, FArr) or isinstance(b, FArr): raise VerifierError('boolean operation on a selection')
    x, y = as_arr(a), as_arr(b)
    sh = broadcast_shapes(x.sh, y.sh)
    e, f, m, n = bool_ent(x), bool_ent(y), bidx(x.sh, sh), bidx(y.sh, sh)
    if op == 'and': g = lambda ix: mk_and(e(m(ix)), f(n(ix)))
    elif op == 'or': g = lambda ix: mk_or(e(m(ix)), f(n(ix)))
    else: g = lambda ix: mk_or(mk_and(e(m(ix)), mk_not(f(n(ix)))), mk_and(mk_not(e(m(ix))), f(n(ix))))
    if not sh: return mkbool(g(()))
    return mk(sh, 'bool', g)

def logical_not(a):
    if isnum(a): return mkbool(mk_not(cond_of(a)))
    a = as_arr(a)
    e = bool_ent(a)
    return mk(a.sh, 'bool', lambda ix: mk_not(e(ix)))

# --- writing ------------------------------------------------------------------------------------------------
def check_cast(dst, src, what):
    """in-place operations need same-kind casting"""
    if RANK.get(src, 9) > RANK.get(dst, 9) and not (dst == 'bool' and src == 'bool'):
        raise exc('TypeError', 'Cannot cast ufunc %s output from %s to %s' % (what, src, dst))

def assign(dst, val, inplace=False, cond=None):
    """dst[...] = val (broadcast); cond: only where the view index satisfies it"""
    v = as_arr(val)
    if isinstance(v, FArr): raise VerifierError('assignment from a selection')
    # shape check
    vs = v.sh
    if len(vs) > dst.ndim:
        ex = len(vs) - dst.ndim
        if not all(is1(s) for s in vs[:ex]): raise exc('ValueError', 'could not broadcast input array')
        v = reshape(v, tuple(vs[ex:]))
        vs = v.sh
    off = dst.ndim - len(vs)
    for k, s in enumerate(vs):
        d = dst.sh[k + off]
        if is1(s) or s is d: continue
        if not R.decide(mk_eq(s - d)):
            if not R.decide(mk_eq(s - 1)): raise exc('ValueError', 'could not broadcast input array from shape')
    if dst.sort == 'real' and v.sort == 'complex' or dst.sort == 'int' and v.sort in ('complex',):
        # numpy: ComplexWarning and the imaginary part is discarded (scalars: TypeError)
        if isnum(val): raise exc('TypeError', "can't convert complex to float")
    e = v.ent()
    m = bidx(vs, dst.sh)
    conv = converter(v.sort, dst.sort)
    val_f = lambda ix: conv(e(m(ix)))
    write(dst, val_f, cond)

def converter(src, dst):
    if src == dst: return lambda x: x
    if dst == 'obj': return lambda x: x
    if dst == 'bool': return lambda x: mk_not(mk_eq(x))
    if src == 'bool':
        return ind
    if dst == 'int': return lambda x: T.fn('trunc', T.real(x) if src == 'complex' else x)
    if dst == 'real' and src == 'complex': return T.real
    return lambda x: x

def merge(c, a, b):
    if c.kind == 'true': return a
    if c.kind == 'false': return b
    if isinstance(a, Cond): return mk_or(mk_and(c, a), mk_and(mk_not(c), b))
    if not isinstance(a, Poly):
        raise VerifierError('conditional object')
    return ite(c, a, b)

def write(dst, val_f, cond=None):
    """write val_f(view index) through the view"""
    buf = dst.buf
    old = buf.snapshot()
    if dst.fwd is None:
        if cond is None: buf.setf(val_f, lambda x: TRUE)
        else: buf.setf(lambda x: merge(cond(x), val_f(x), old(x)), cond)
        return
    if dst.inv is None: raise VerifierError('write through this view')
    inv = dst.inv
    def f(x):
        c, y = inv(x)
        if cond is not None: c = mk_and(c, cond(y))
        if c.kind == 'false': return old(x)
        return merge(c, val_f(y), old(x))
    def w(x):
        c, y = inv(x)
        if cond is not None: c = mk_and(c, cond(y))
        return c
    buf.setf(f, w)

def inplace(op, dst, val):
    """dst op= val"""
    if op == '@':
        r = matmul(dst, val)
    else:
        r = binop(op, dst, val)
    if r is NotImplemented: return r
    r = as_arr(r)
    check_cast(dst.sort if dst.sort != 'bool' else 'bool', r.sort, op)
    sh = broadcast_shapes(dst.sh, r.sh)
    if len(sh) != dst.ndim: raise exc('ValueError', 'non-broadcastable output operand')
    for a, b in zip(sh, dst.sh):
        if a is not b and not R.decide(mk_eq(a - b)): raise exc('ValueError', 'non-broadcastable output operand')
    e = r.ent()
    m = bidx(r.sh, dst.sh)
    write(dst, lambda ix: e(m(ix)))
    return dst

# --- views ------------------------------------------------------------------------------------------------
def view(a, sh, fwd, inv, order='N'):
    """fwd: new index -> a index; inv: a index -> (cond, new index)"""
    sh = tup(sh)
    if a.fwd is None: return Arr(a.buf, sh, fwd, inv, order)
    f0, i0 = a.fwd, a.inv
    nf = lambda ix: f0(fwd(ix))
    if i0 is None or inv is None: ni = None
    else:
        def ni(x):
            c, y = i0(x)
            if c.kind == 'false': return FALSE, None
            c2, z = inv(y)
            return mk_and(c, c2), z
    return Arr(a.buf, sh, nf, ni, order)

def transpose(a, *axes):
    a = as_arr(a)
    n = a.ndim
    if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))): axes = axes[0] or ()
    if not axes: axes = tuple(range(n))[::-1]
    axes = [int(x) % n for x in axes]
    back = [axes.index(k) for k in range(n)]
    fwd = lambda ix: tuple(ix[back[k]] for k in range(n))
    inv = lambda x: (TRUE, tuple(x[axes[k]] for k in range(n)))
    o = 'N'
    if axes == list(range(n))[::-1]: o = {'C': 'F', 'F': 'C'}.get(a.order, 'N')
    if axes == list(range(n)): o = a.order
    if n == 1: o = a.order
    return view(a, [a.sh[k] for k in axes], fwd, inv, o)

def swapaxes(a, i, j):
    ax = list(range(a.ndim))
    ax[i], ax[j] = ax[j], ax[i]
    return transpose(a, *ax)

def moveaxis(a, s, d):
    n = a.ndim
    s, d = int(s) % n, int(d) % n
    ax = [k for k in range(n) if k != s]
    ax.insert(d, s)
    return transpose(a, *ax)

def expand_dims(a, axis):
    a = as_arr(a)
    n = a.ndim + 1
    axis = int(axis) % n
    sh = list(a.sh)
    sh.insert(axis, ONE)
    fwd = lambda ix: ix[:axis] + ix[axis + 1:]
    inv = lambda x: (TRUE, x[:axis] + (ZERO,) + x[axis:])
    return view(a, sh, fwd, inv, a.order)

def squeeze(a, axis=None):
    a = as_arr(a)
    if axis is None:
        keep = []
        for k, s in enumerate(a.sh):
            n = int_of(s)
            if n is not None:
                if n != 1: keep.append(k)
            elif not R.decide(mk_eq(s - 1)): keep.append(k)
    else:
        ax = axis if isinstance(axis, tuple) else (axis,)
        ax = [int(x) % a.ndim for x in ax]
        for k in ax:
            if not R.decide(mk_eq(a.sh[k] - 1)): raise exc('ValueError', 'cannot select an axis to squeeze out')
        keep = [k for k in range(a.ndim) if k not in ax]
    n = a.ndim
    def fwd(ix):
        r = [ZERO] * n
        for j, k in enumerate(keep): r[k] = ix[j]
        return tuple(r)
    inv = lambda x: (TRUE, tuple(x[k] for k in keep))
    return view(a, [a.sh[k] for k in keep], fwd, inv, a.order)

def prodp(sh):
    r = ONE
    for s in sh: r = r * s
    return r

def unflatten(k, sh):
    """C-order multi-index of the flat index k"""
    if not sh: return ()
    if len(sh) == 1: return (k,)
    out = []
    rest = k
    for d in range(len(sh) - 1, 0, -1):
        s = sh[d]
        out.append(sdiv('mod', rest, s))
        rest = sdiv('fdiv', rest, s)
    out.append(rest)
    return tuple(reversed(out))

def sdiv(kind, p, q):
    if q is ONE: return p if kind == 'fdiv' else ZERO
    r = T.fdiv(p, q) if kind == 'fdiv' else T.pmod(p, q)
    return r

def flatten_index(ix, sh):
    r = ZERO
    for i, s in zip(ix, sh): r = r * s + i
    return r

def reshape(a, shape, *more, order='C'):
    a = as_arr(a)
    if isinstance(a, FArr): return a.reshape(shape)
    if more: shape = (shape,) + more
    if not isinstance(shape, (tuple, list, Arr)): shape = (shape,)
    if isinstance(shape, Arr): shape = [mknum(x, 'int') for x in shape_arg(shape)]
    shape = list(shape)
    total = prodp(a.sh)
    neg = [k for k, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if len(neg) > 1: raise exc('ValueError', 'can only specify one unknown dimension')
    sh = [None if k in neg else dimp(s) for k, s in enumerate(shape)]
    if neg:
        rest = prodp([s for s in sh if s is not None])
        q, r = T.split_multiple(total, rest) if rest is not ONE else (total, ZERO)
        if r.terms or (not q.terms and total.terms):
            qc, tc = int_of(rest), int_of(total)
            if qc is not None and tc is not None:
                if qc == 0 or tc % qc: raise exc('ValueError', 'cannot reshape array')
                q = P(tc // qc)
            else:
                # undecidable divisibility: fork on it
                q = T.fdiv(total, rest)
                if not R.decide(mk_eq(q * rest - total)): raise exc('ValueError', 'cannot reshape array')
        sh[neg[0]] = q
    else:
        tot2 = prodp(sh)
        if tot2 is not total and not R.decide(mk_eq(tot2 - total)): raise exc('ValueError', 'cannot reshape array')
    sh = tuple(sh)
    ash = a.sh
    if order == 'F':
        # F-order reshape: transpose, C-order reshape reversed, transpose
        at = transpose(a)
        r = reshape(at, tuple(reversed([mknum(s, 'int') for s in sh])))
        return transpose(r)
    # pure insertion/removal of unit dimensions
    na = [s for s in ash if not is1(s)]
    ns = [s for s in sh if not is1(s)]
    if len(na) == len(ns) and all(x is y or R.ctx.prove(mk_eq(x - y)) for x, y in zip(na, ns)):
        ka = [k for k, s in enumerate(ash) if not is1(s)]
        kn = [k for k, s in enumerate(sh) if not is1(s)]
        def fwd(ix):
            r = [ZERO] * len(ash)
            for p, q in zip(ka, kn): r[p] = ix[q]
            return tuple(r)
        def inv(x):
            r = [ZERO] * len(sh)
            for p, q in zip(ka, kn): r[q] = x[p]
            return TRUE, tuple(r)
        return view(a, sh, fwd, inv, a.order)
    fwd = lambda ix: unflatten(flatten_index(ix, sh), ash)
    inv = lambda x: (TRUE, unflatten(flatten_index(x, ash), sh))
    if a.order != 'C':
        e = a.ent()
        return mk(sh, a.sort, lambda ix: e(fwd(ix)))
    return view(a, sh, fwd, inv, 'C')

# --- indexing ----------------------------------------------------------------------------------------------
def idx_norm(i, n):
    """python index -> Poly in [0,n); raises IndexError"""
    p, s = parts(i)
    if s != 'int': raise exc('IndexError', 'only integers, slices ... are valid indices')
    if R.ctx.prove(mk_ge(p)): nn = p
    elif R.decide(mk_ge(p)): nn = p
    else: nn = p + n
    ok = mk_and(mk_ge(nn), mk_ge(n - nn - 1))
    if not R.ctx.prove(ok):
        if not R.decide(ok): raise exc('IndexError', 'index out of bounds')
    return nn

def clamp(v, n, default):
    """slice bound -> [0,n]"""
    if v is None: return default
    if isinstance(v, Arr) and v.ndim == 0: v = v.item()
    p, s = parts(v)
    if s != 'int': raise exc('TypeError', 'slice indices must be integers')
    if not (R.ctx.prove(mk_ge(p)) or R.decide(mk_ge(p))):
        p = p + n
        if not (R.ctx.prove(mk_ge(p)) or R.decide(mk_ge(p))): return ZERO
    if R.ctx.prove(mk_ge(n - p)) or R.decide(mk_ge(n - p)): return p
    return n

def slice_range(sl, n):
    """(start, step, length)"""
    step = sl.step
    if step is None: step = 1
    if isinstance(step, Num): step = step.__index__()
    if step == 0: raise exc('ValueError', 'slice step cannot be zero')
    if step > 0:
        a = clamp(sl.start, n, ZERO)
        b = clamp(sl.stop, n, n)
        if step == 1:
            l = b - a
        else:
            l = int_div('fdiv', b - a + (step - 1), P(step))
        if not (R.ctx.prove(mk_ge(l)) or R.decide(mk_ge(l))): l = ZERO
        return a, step, l
    # negative step
    a = n - 1 if sl.start is None else clamp_neg(sl.start, n)
    b = -ONE if sl.stop is None else clamp_neg(sl.stop, n)
    l = a - b if step == -1 else int_div('fdiv', a - b + (-step - 1), P(-step))
    if not (R.ctx.prove(mk_ge(l)) or R.decide(mk_ge(l))): l = ZERO
    return a, step, l

def clamp_neg(v, n):
    p, s = parts(v)
    if not (R.ctx.prove(mk_ge(p)) or R.decide(mk_ge(p))):
        p = p + n
        if not (R.ctx.prove(mk_ge(p)) or R.decide(mk_ge(p))): return -ONE
    if R.ctx.prove(mk_ge(n - 1 - p)) or R.decide(mk_ge(n - 1 - p)): return p
    return n - 1

def is_idx_seq(k):
    from .seq import SList, SRange, FilterList
    return isinstance(k, (list, SList, SRange, FilterList, FArr)) or hasattr(k, 'as_farr') or (isinstance(k, Arr) and k.ndim > 0) or isinstance(k, range)

def split_key(a, key):
    """expand the key to one entry per axis (None for newaxis kept)"""
    key = key if isinstance(key, tuple) else (key,)
    key = list(key)
    if any(k is Ellipsis for k in key):
        i = [k is Ellipsis for k in key].index(True)
        used = sum(1 for k in key if k is not None and k is not Ellipsis)
        key[i:i + 1] = [slice(None)] * (a.ndim - used)
    used = sum((k.ndim if isinstance(k, Arr) and k.sort == 'bool' and k.ndim > 0 else 1) for k in key if k is not None)
    if used > a.ndim: raise exc('IndexError', 'too many indices for array')
    key += [slice(None)] * (a.ndim - used)
    return key

def getitem(a, key):
    from .seq import FilterList
    # single boolean mask of full rank
    if isinstance(key, Arr) and key.sort == 'bool' and key.ndim > 0:
        return mask_select(a, key)
    key = split_key(a, key)
    if any(is_idx_seq(k) for k in key): return adv_get(a, key)
    v = basic_view(a, key)
    if v.ndim == 0: return v.getcell(())
    return v

def basic_view(a, key):
    """basic indexing: ints, slices, newaxis"""
    sh, plan = [], []     # plan per source axis: ('i', p) | ('s', start, step, out axis)
    newax = []
    for k in key:
        if k is None:
            newax.append(len(sh))
            sh.append(ONE)
            continue
        ax = len(plan)
        n = a.sh[ax]
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                plan.append(('s', ZERO, 1, len(sh)))
                sh.append(n)
            else:
                st, step, l = slice_range(k, n)
                plan.append(('s', st, step, len(sh)))
                sh.append(l)
        elif isinstance(k, (bool, SBool)):
            raise VerifierError('boolean scalar index')
        elif isnum(k):
            plan.append(('i', idx_norm(k, n)))
        elif isinstance(k, Arr) and k.ndim == 0:
            plan.append(('i', idx_norm(mknum(k.at(), k.sort), n)))
        else:
            raise exc('IndexError', 'only integers, slices (`:`), ellipsis (`...`), numpy.newaxis and integer or boolean arrays are valid indices')
    nd = len(sh)
    def fwd(ix):
        r = []
        for pl in plan:
            if pl[0] == 'i': r.append(pl[1])
            else:
                i = ix[pl[3]]
                r.append(pl[1] + i * pl[2] if pl[2] != 1 or pl[1].terms else i)
        return tuple(r)
    def inv(x):
        c = []
        y = [ZERO] * nd
        for p, pl in zip(x, plan):
            if pl[0] == 'i': c.append(mk_eq(p - pl[1]))
            else:
                st, step, o = pl[1], pl[2], pl[3]
                d = p - st
                if step == 1: q = d
                elif step == -1: q = -d
                else:
                    q = T.fdiv(d if step > 0 else -d, P(abs(step)))
                    c.append(mk_eq(q * step - d))
                y[o] = q
                if st.terms or step != 1: c.append(mk_ge(q))
                if sh[o] is not None: c.append(mk_ge(sh[o] - q - 1))
        return mk_and(*c), tuple(y)
    full = all(pl[0] == 's' and not pl[1].terms and pl[2] == 1 for pl in plan) and all(sh[pl[3]] is s for pl, s in zip(plan, a.sh))
    if full:
        inv_full = lambda x: (TRUE, unplace(x, plan, nd))
        return view(a, sh, fwd, inv_full, a.order)
    # contiguity: leading ints then full slices keep C order
    order = 'N'
    if a.order == 'C':
        ok, seen = True, False
        for ax, pl in enumerate(plan):
            if pl[0] == 'i':
                if seen: ok = False
            else:
                isfull = not pl[1].terms and pl[2] == 1 and sh[pl[3]] is a.sh[ax]
                if not isfull and seen: ok = False
                if pl[2] != 1: ok = False
                seen = True
        order = 'C' if ok else 'N'
    return view(a, sh, fwd, inv, order)

def unplace(x, plan, nd):
    y = [ZERO] * nd
    for p, pl in zip(x, plan): y[pl[3]] = p
    return tuple(y)

def as_index(k):
    """index sequence -> int array / FArr"""
    from .seq import FilterList
    if hasattr(k, 'as_farr'): return k.as_farr()
    if isinstance(k, (FArr, Arr)): return k
    k = array(list(k) if isinstance(k, range) else k)
    if k.ndim == 1 and int_of(k.sh[0]) == 0: k = astype(k, NPTYPES['int'])
    return k

def adv_get(a, key):
    """advanced indexing (result is a copy)"""
    key = [as_index(k) if is_idx_seq(k) else k for k in key]
    # boolean masks inside of the key
    for j, k in enumerate(key):
        if isinstance(k, Arr) and k.sort == 'bool':
            if k.ndim != 1: raise VerifierError('boolean mask in a tuple')
            key[j] = mask_to_farr(k, a, j, key)
    if any(isinstance(k, FArr) for k in key):
        return farr_get(a, key)
    for k in key:
        if isinstance(k, Arr) and k.sort not in ('int',):
            raise exc('IndexError', 'arrays used as indices must be of integer (or boolean) type')
    advpos = [j for j, k in enumerate(key) if isinstance(k, Arr)]
    # scalars act as 0-d advanced indices
    src_axis = []
    ax = 0
    for k in key:
        src_axis.append(None if k is None else ax)
        if k is not None: ax += 1
    allpos = [j for j, k in enumerate(key) if isinstance(k, Arr) or isnum(k)]
    bsh = broadcast_shapes(*[key[j].sh for j in advpos])
    contiguous = allpos == list(range(allpos[0], allpos[-1] + 1))
    # bounds
    ents = {}
    for j in allpos:
        k = key[j]
        n = a.sh[src_axis[j]]
        if isnum(k):
            p = idx_norm(k, n)
            ents[j] = (lambda p: lambda ix: p)(p)
        else:
            e = k.ent()
            mp = bidx(k.sh, bsh)
            ents[j] = norm_index_ent(e, mp, n, k.sh)
    # result shape
    sh, plan = [], {}
    where = None
    for j, k in enumerate(key):
        if j in allpos:
            if where is None and contiguous:
                where = len(sh)
                sh.extend(bsh)
            continue
        if k is None: sh.append(ONE); continue
        st, step, l = slice_range(k, a.sh[src_axis[j]])
        plan[j] = (st, step, len(sh))
        sh.append(l)
    if where is None:
        where = 0
        sh = list(bsh) + sh
        plan = {j: (s, t, o + len(bsh)) for j, (s, t, o) in plan.items()}
    nb = len(bsh)
    e = a.ent()
    def f(ix):
        b = ix[where:where + nb]
        src = []
        for j, k in enumerate(key):
            if k is None: continue
            if j in allpos: src.append(ents[j](b))
            else:
                st, step, o = plan[j]
                src.append(st + ix[o] * step)
        return e(tuple(src))
    return mk(sh, a.sort, f)

def norm_index_ent(e, mp, n, sh):
    """entry function of an index array; entries must be in bounds"""
    fr = tuple(fresh('x') for _ in sh)
    mk_ = R.ctx.mark()
    for i, s in zip(fr, sh):
        R.ctx.add(mk_ge(i))
        R.ctx.add(mk_ge(s - i - 1))
    v = e(fr)
    try:
        empty = R.ctx.infeasible()
        ok_lo = empty or R.ctx.prove(mk_ge(v))
        ok_hi = empty or R.ctx.prove(mk_ge(n - v - 1))
        ok_neg = empty or (not ok_lo and R.ctx.prove(mk_ge(-v - 1)) and R.ctx.prove(mk_ge(v + n)))
        bad = not empty and (R.ctx.prove(mk_ge(v - n)) or R.ctx.prove(mk_ge(-v - n - 1)))
    finally:
        R.ctx.restore(mk_)
    if ok_lo and ok_hi: return lambda ix: e(mp(ix))
    if ok_neg: return lambda ix: e(mp(ix)) + n
    if bad and all(R.ctx.prove(mk_ge(s - 1)) for s in sh): raise exc('IndexError', 'index out of bounds')
    if all(int_of(s) is not None for s in sh):
        # decide each entry (may fork)
        vals = {}
        for t in itertools.product(*[range(int_of(s)) for s in sh]):
            vals[t] = idx_norm(mknum(e(tup(t)), 'int'), n)
        def g(ix):
            y = mp(ix)
            c = tuple(int_of(i) for i in y)
            if None not in c: return vals[c]
            r = None
            for t, v in vals.items():
                r = v if r is None else ite(mk_and(*[mk_eq(i - k) for i, k in zip(y, t)]), v, r)
            return r
        return g
    # quantified bounds
    vs = [symatom(fresh('x')) for _ in sh]
    v = e(tuple(P(x) for x in vs))
    c = mk_and(mk_ge(v + n), mk_ge(n - v - 1))
    for x, s in zip(reversed(vs), reversed(sh)): c = mk_all(x, 0, s, c)
    if not R.decide(c): raise exc('IndexError', 'index out of bounds')
    return lambda ix: (lambda v: ite(mk_ge(v), v, v + n))(e(mp(ix)))

def setitem(a, key, val):
    from .seq import FilterList
    if isinstance(key, Arr) and key.sort == 'bool' and key.ndim > 0:
        if key.ndim > a.ndim: raise exc('IndexError', 'too many indices for array')
        c = key.ent()
        nd = key.ndim
        v = as_arr(val)
        if v.ndim > 0 and not all(is1(s) for s in v.sh): raise VerifierError('masked assignment of an array')
        e = v.ent()
        conv = converter(v.sort, a.sort)
        z = tuple(ZERO for _ in v.sh)
        write(a, lambda ix: conv(e(z)), lambda ix: c(ix[:nd]))
        return
    key = split_key(a, key)
    if not any(is_idx_seq(k) for k in key):
        v = basic_view(a, key)
        if v.ndim == 0:
            if isinstance(val, Arr) and val.ndim > 0:
                if not all(R.ctx.prove(mk_eq(s - 1)) for s in val.sh): raise exc('ValueError', 'setting an array element with a sequence.')
                val = val[tuple([0] * val.ndim)]
        assign(v, val)
        return
    key = [as_index(k) if is_idx_seq(k) else k for k in key]
    for j, k in enumerate(key):
        if isinstance(k, Arr) and k.sort == 'bool': key[j] = mask_to_farr(k, a, j, key)
    adv = [j for j, k in enumerate(key) if isinstance(k, (Arr, FArr))]
    if any(k is None for k in key): raise VerifierError('newaxis in an advanced assignment')
    # view with full slices on the advanced axes, then a condition on these
    base = basic_view(a, [slice(None) if j in adv else k for j, k in enumerate(key)])
    kept = [j for j, k in enumerate(key) if j in adv or isinstance(k, slice)]
    pos = {j: kept.index(j) for j in adv}
    if len(adv) == 1:
        j = adv[0]
        k = key[j]
        o = pos[j]
        if isinstance(k, FArr):
            v = as_arr(val)
            if v.ndim and not all(is1(s) for s in v.sh): raise VerifierError('assignment of an array to a selection')
            e = v.ent()
            z = tuple(ZERO for _ in v.sh)
            conv = converter(v.sort, a.sort)
            write(base, lambda ix: conv(e(z)), lambda ix: k.member(ix[o]))
            return
        if k.ndim != 1: raise VerifierError('multi-dimensional index assignment')
        if k.sort != 'int': raise exc('IndexError', 'arrays used as indices must be of integer (or boolean) type')
        n = a.sh[j]
        ke = norm_index_ent(k.ent(), lambda ix: ix, n, k.sh)
        L = k.sh[0]
        v = as_arr(val)
        conv = converter(v.sort, a.sort)
        e = v.ent()
        nL = int_of(L)
        if nL is not None and nL <= 16:
            for t in range(nL):
                kk = list(slice(None) for _ in range(base.ndim))
                kk[o] = mknum(ke((P(t),)), 'int')
                sub = basic_view(base, kk)
                if v.ndim == 0: assign(sub, val)
                elif v.ndim == base.ndim:
                    vk = list(slice(None) for _ in range(v.ndim))
                    vk[o] = 0 if is1(v.sh[o]) else t
                    assign(sub, v[tuple(vk)])
                elif o == base.ndim - 1 and v.ndim >= 1:
                    assign(sub, v[(Ellipsis, t)])
                else:
                    assign(sub, v)
            return
        if v.ndim == 0:
            w = symatom(fresh('x'))
            write(base, lambda ix: conv(e(())), lambda ix: mk_ex(w, 0, L, mk_eq(ke((P(w),)) - ix[o])))
            return
        raise VerifierError('assignment to a symbolic index vector')
    # several index vectors: like x[i, j] = v
    ks = [key[j] for j in adv]
    if any(isinstance(k, FArr) for k in ks) or len(adv) != base.ndim: raise VerifierError('advanced assignment')
    bsh = broadcast_shapes(*[k.sh for k in ks])
    ents = [norm_index_ent(k.ent(), bidx(k.sh, bsh), a.sh[j], bsh) if True else None for j, k in zip(adv, ks)]
    v = as_arr(val)
    conv = converter(v.sort, a.sort)
    ve, vm = v.ent(), bidx(v.sh, bsh)
    if len(bsh) == 1:
        n = int_of(bsh[0])
        if n is not None and n <= 16:
            for t in range(n):
                basic = tuple(mknum(e((P(t),)), 'int') for e in ents)
                assign(basic_view(a, list(basic)), mknum(ve(vm((P(t),))), v.sort))
            return
        # injective first index vector: x[arange, j] style
        w = fresh('x')
        q = ents[0]((w,)) 
        s = T.solve_linear(q - fresh('y'), symatom(w))
        if s is not None:
            def cond(ix):
                t = T.solve_linear(q - ix[0], symatom(w))
                return mk_and(mk_ge(t), mk_ge(bsh[0] - t - 1), *[mk_eq(e((t,)) - ix[d]) for d, e in enumerate(ents) if d])
            def valf(ix):
                t = T.solve_linear(q - ix[0], symatom(w))
                return conv(ve(vm((t,))))
            write(base, valf, cond)
            return
    raise VerifierError('advanced assignment')

# --- selections of data dependent size --------------------------------------------------------------------
class FArr:
    """1D array of the entries e(i), i in [0,n) ascending, for which c(i) holds."""
    def __init__(self, n, c, e, sort, tail=()):
        self.n, self.c, self.e, self.sort, self.tail = n, c, e, sort, tail
        self.is_index = False
    @staticmethod
    def lift(f, sort, args):
        base = None
        for a in args:
            if isinstance(a, FArr):
                if base is None: base = a
                elif not same_sel(base, a): raise VerifierError('operands with different selections')
        fs = []
        for a in args:
            if isinstance(a, FArr):
                fs.append(a.e if a.sort != 'bool' else (lambda i, a=a: ind(a.e(i))))
            elif isnum(a):
                p = parts(a)[0]
                fs.append(lambda i, p=p: p)
            else:
                a = as_arr(a)
                if a.ndim == 0 or all(is1(s) for s in a.sh):
                    p = a.at(*[ZERO] * a.ndim)
                    fs.append(lambda i, p=p: p)
                else: raise VerifierError('selection combined with an array')
        return FArr(base.n, base.c, lambda i: f(*[g(i) for g in fs]), sort)
    def count(self):
        v = fresh('s')
        return psum(symatom(v), 0, self.n, ind(self.c(v)))
    def member(self, x):
        """x is one of the (integer) entries"""
        if self.is_index: return mk_and(self.c(x), mk_ge(x), mk_ge(self.n - x - 1))
        w = symatom(fresh('x'))
        return mk_ex(w, 0, self.n, mk_and(self.c(P(w)), mk_eq(self.e(P(w)) - x)))
    @property
    def sh(self): return (self.count(),)
    @property
    def shape(self): return (mknum(self.count(), 'int'),)
    @property
    def size(self): return mknum(self.count(), 'int')
    @property
    def ndim(self): return 1
    @property
    def dtype(self): return DType(self.sort)
    def ent(self): raise VerifierError('entry of a selection')
    def at(self, *i): raise VerifierError('entry of a selection')
    def sum(self, axis=None):
        v = fresh('s')
        g = self.e if self.sort != 'bool' else (lambda i: ind(self.e(i)))
        return mknum(psum(symatom(v), 0, self.n, ind(self.c(v)) * g(v)), 'int' if self.sort == 'bool' else self.sort, True)
    def mean(self, axis=None):
        s = self.sum()
        return mknum(parts(s)[0] * T.recip(self.count()), 'real' if self.sort in ('int', 'bool') else self.sort, True)
    def conj(self): return FArr(self.n, self.c, lambda i: T.conj(self.e(i)), self.sort)
    def copy(self):
        r = FArr(self.n, self.c, self.e, self.sort)
        r.is_index = self.is_index
        return r
    def flatten(self): return self.copy()
    ravel = flatten
    def reshape(self, *a): raise VerifierError('reshape of a selection')
    def any(self, axis=None):
        w = symatom(fresh('x'))
        return mkbool(mk_ex(w, 0, self.n, mk_and(self.c(P(w)), self.e(P(w)) if self.sort == 'bool' else mk_not(mk_eq(self.e(P(w)))))))
    def all(self, axis=None):
        w = symatom(fresh('x'))
        return mkbool(mk_all(w, 0, self.n, mk_or(mk_not(self.c(P(w))), self.e(P(w)) if self.sort == 'bool' else mk_not(mk_eq(self.e(P(w)))))))
    def _op(op, sw=False):
        def f(self, o): return binop(op, o, self) if sw else binop(op, self, o)
        return f
    __add__, __radd__ = _op('+'), _op('+', True)
    __sub__, __rsub__ = _op('-'), _op('-', True)
    __mul__, __rmul__ = _op('*'), _op('*', True)
    __truediv__, __rtruediv__ = _op('/'), _op('/', True)
    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and isnum(k[1]): return self
        raise VerifierError('indexing a selection')
    def astype(self, d, copy=True): return self.copy()

def same_sel(a, b):
    if a.n is not b.n: return False
    v = fresh('x')
    return a.c(v) is b.c(v)

def mask_to_farr(k, a, j, key):
    n = k.sh[0]
    e = k.ent()
    r = FArr(n, lambda i: e((i,)), lambda i: i, 'int')
    r.is_index = True
    return r

def mask_select(a, m):
    if m.ndim != 1:
        if m.ndim == a.ndim:
            return mask_select(a.ravel(), m.ravel())
        raise VerifierError('boolean mask of several dimensions')
    if not dims_equal(m.sh[0], a.sh[0]): raise exc('IndexError', 'boolean index did not match')
    n = int_of(m.sh[0])
    c = m.ent()
    if n is not None and n <= 8:
        # concrete size: decide every entry
        rows = [i for i in range(n) if R.decide(c((P(i),)))]
        return adv_get(a, [mk((P(len(rows)),), 'int', lambda ix: pick([P(r) for r in rows], ix[0]) if rows else ZERO)] + [slice(None)] * (a.ndim - 1))
    e = a.ent()
    if a.ndim != 1:
        # an opaque enumeration of the selected rows in ascending order
        from .npfun import _simplam
        l = _simplam(T.mk_lam(m.sh, lambda ix: ind(c(ix))))
        k = T.op('nnz', (l,), (), (), 'int')
        return adv_get(a, [mk((k,), 'int', lambda ix: T.op('nz0', (l,), (), (ix[0],), 'int'))] + [slice(None)] * (a.ndim - 1))
    return FArr(m.sh[0], lambda i: c((i,)), lambda i: e((i,)), a.sort)

def farr_get(a, key):
    """x[..., selection]: only for a single selection and scalars elsewhere"""
    js = [j for j, k in enumerate(key) if isinstance(k, FArr)]
    if len(js) != 1: raise VerifierError('several selections')
    j = js[0]
    F = key[j]
    others = [k for i, k in enumerate(key) if i != j]
    unit = []
    e = a.ent()
    src = []
    for i, k in enumerate(key):
        if i == j: src.append(None)
        elif isnum(k): src.append(idx_norm(k, a.sh[i]))
        elif isinstance(k, slice) and k == slice(None) and is1(a.sh[i]): src.append(ZERO)   # column vectors
        else: raise VerifierError('selection of several rows')
    n = a.sh[j]
    # bounds of the selected indices
    v = fresh('x')
    mkk = R.ctx.mark()
    R.ctx.add(mk_ge(v)); R.ctx.add(mk_ge(F.n - v - 1)); R.ctx.add(F.c(v))
    x = F.e(v)
    ok = R.ctx.infeasible() or R.ctx.prove(mk_and(mk_ge(x), mk_ge(n - x - 1)))
    R.ctx.restore(mkk)
    if not ok: raise VerifierError('bounds of a selection')
    def g(i):
        ix = list(src)
        ix[j] = F.e(i)
        return e(tuple(ix))
    return FArr(F.n, F.c, g, a.sort)

from .npfun import *          # noqa: F401,F403  (numpy functions; shares this module's classes)

"""Contracts of the numpy functions."""
import vc.nparr as _A
from fractions import Fraction as Q
globals().update({k: v for k, v in vars(_A).items() if not k.startswith('__')})

# --- reductions -------------------------------------------------------------------------------------------
def _axes(a, axis):
    if axis is None: return list(range(a.ndim))
    if isinstance(axis, (tuple, list)): return [int(x) % a.ndim for x in axis]
    axis = axis.__index__() if isinstance(axis, Num) else axis
    if not -a.ndim <= axis < a.ndim: raise exc('ValueError', 'axis out of bounds')
    return [axis % a.ndim]

def _reduce(a, axis, keepdims, f, sort):
    """f(vars with ranges, entry function index) : builds the reduced entry"""
    ax = _axes(a, axis)
    keep = [k for k in range(a.ndim) if k not in ax]
    e = num_ent(a, a.ent())
    sh = [a.sh[k] for k in keep]
    def g(ix):
        vs = [fresh('s') for _ in ax]
        full = [None] * a.ndim
        for k, i in zip(keep, ix): full[k] = i
        for k, v in zip(ax, vs): full[k] = v
        return f([(symatom(v), a.sh[k]) for k, v in zip(ax, vs)], e(tuple(full)))
    if not sh and not keepdims: return mknum(g(()), sort, True)
    r = mk(sh, sort, g)
    if keepdims:
        for k in sorted(ax): r = expand_dims(r, k)
        if r.ndim == 0: return r
    return r

def sums(binders, p):
    for v, n in reversed(binders): p = psum(v, 0, n, p)
    return p

def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    if isinstance(a, FArr): return a.sum()
    from .seq import SList
    a = as_arr(a)
    if where is not None: raise VerifierError('sum(where=)')
    return _reduce(a, axis, keepdims, sums, 'int' if a.sort == 'bool' else a.sort)

def count_of(a, axis):
    n = ONE
    for k in _axes(a, axis): n = n * a.sh[k]
    return n

def mean(a, axis=None, dtype=None, out=None, keepdims=False):
    if isinstance(a, FArr): return a.mean()
    a = as_arr(a)
    s = sum_(a, axis, keepdims=keepdims)
    r = binop('/', s, mknum(count_of(a, axis), 'int'))
    return r

def average(a, axis=None, weights=None):
    if weights is None: return mean(a, axis)
    w = as_arr(weights)
    return sum_(binop('*', a, w), axis) / sum_(w, axis)

def var(a, axis=None, ddof=0, keepdims=False):
    a = as_arr(a)
    if a.ndim == 1 and a.sort != 'complex' and int_of(a.sh[0]) is None and int_of(parts(ddof)[0]) == 0:
        # left folded: the variance of a list of symbolic length, nonnegative
        return mknum(T.op('var', (_simplam(lam1(a)),), (), (), 'real'), 'real', True)
    m = mean(a, axis, keepdims=True) if a.ndim > (1 if axis is not None else 0) and axis is not None else mean(a, axis)
    d = a - m
    d2 = d * conj(d) if a.sort == 'complex' else d * d
    s = sum_(d2, axis, keepdims=keepdims)
    return s / (mknum(count_of(a, axis), 'int') - ddof)

def std(a, axis=None, ddof=0): return sqrt(var(a, axis, ddof))

def prod(a, axis=None, dtype=None, keepdims=False):
    a = as_arr(a)
    if axis is not None and a.ndim > 1: raise VerifierError('prod along an axis')
    r = a.ravel() if a.ndim > 1 else a
    e = num_ent(r, r.ent())
    n = int_of(r.sh[0]) if r.ndim else None
    if r.ndim == 0: return mknum(e(()), a.sort, True)
    if n is not None:
        p = ONE
        for i in range(n): p = p * e((P(i),))
        return mknum(p, a.sort, True)
    return mknum(T.op('prod', (lam1(r),), (), (), a.sort), a.sort, True)

def lam1(a):
    e = num_ent(a, a.ent())
    return T.mk_lam(a.sh, e)

def any_(a, axis=None, keepdims=False):
    if isnum(a): return mkbool(cond_of(a))
    if isinstance(a, FArr): return a.any()
    a = as_arr(a)
    e = bool_ent(a)
    ax = _axes(a, axis)
    keep = [k for k in range(a.ndim) if k not in ax]
    def g(ix):
        vs = [symatom(fresh('x')) for _ in ax]
        full = [None] * a.ndim
        for k, i in zip(keep, ix): full[k] = i
        for k, v in zip(ax, vs): full[k] = P(v)
        c = e(tuple(full))
        for v, k in reversed(list(zip(vs, ax))): c = mk_ex(v, 0, a.sh[k], c)
        return c
    if not keep: return mkbool(g(()))
    return mk([a.sh[k] for k in keep], 'bool', g)

def all_(a, axis=None, keepdims=False):
    if isnum(a): return mkbool(cond_of(a))
    if isinstance(a, FArr): return a.all()
    r = any_(logical_not(as_arr(a)), axis)
    if isinstance(r, Arr): return logical_not(r)
    return mkbool(mk_not(cond_of(r)))

def count_nonzero(a, axis=None): return sum_(astype(as_arr(a), NPTYPES['bool']), axis)

def trace(a, offset=0):
    return sum_(diag_of(as_arr(a), offset))

def cumsum(a, axis=None):
    a = as_arr(a)
    if axis is None and a.ndim != 1: a = a.ravel()
    ax = 0 if axis is None else int(axis) % a.ndim
    e = num_ent(a, a.ent())
    def f(ix):
        v = fresh('s')
        full = list(ix)
        full[ax] = v
        return psum(symatom(v), 0, ix[ax] + 1, e(tuple(full)))
    return mk(a.sh, 'int' if a.sort == 'bool' else a.sort, f)

def diff(a, n=1, axis=-1):
    a = as_arr(a)
    for _ in range(int(n)):
        ax = int(axis) % a.ndim
        lo = [slice(None)] * a.ndim
        hi = [slice(None)] * a.ndim
        lo[ax], hi[ax] = slice(None, -1), slice(1, None)
        a = binop('-', a[tuple(hi)], a[tuple(lo)])
    return a

# opaque extrema -----------------------------------------------------------------------------------------
def _op_range(name):
    """index operators: 0 <= value < size"""
    from . import prove
    def ax(a):
        l = a.args[0][0]
        n = ONE
        for s in l.shape: n = n * s
        x = P(a)
        return [mk_or(mk_not(mk_ge(n - 1)), mk_and(mk_ge(x), mk_ge(n - x - 1)))]
    prove.OPAX[name] = ax
for _n in ('argmin', 'argmax', 'argsort', 'lexsort'): _op_range(_n)

def flat_lam(a):
    """canonical content of the flattened array"""
    if a.ndim == 1: return lam1(a)
    return lam1(a.ravel())

def _simplam(l):
    from .prove import simp_lam
    return simp_lam(l, R.ctx)

def argext(name, a, axis=None):
    if isinstance(a, FArr): raise VerifierError('argmin of a selection')
    a = as_arr(a)
    if axis is not None and a.ndim > 1: return arg_axis(name, a, int(axis) % a.ndim)
    n = prodp(a.sh)
    if not (R.ctx.prove(mk_ge(n - 1)) or R.decide(mk_ge(n - 1))): raise exc('ValueError', 'attempt to get %s of an empty sequence' % name)
    return mknum(T.op(name, (_simplam(flat_lam(a)),), (), (), 'int'), 'int', True)

def arg_axis(name, a, ax):
    e = a.ent()
    def f(ix):
        def g(t):
            full = list(ix)
            full.insert(ax, t[0])
            return e(tuple(full))
        return T.op(name, (T.mk_lam((a.sh[ax],), g),), (), (), 'int')
    return mk([s for k, s in enumerate(a.sh) if k != ax], 'int', f)

def argmin(a, axis=None): return argext('argmin', a, axis)
def argmax(a, axis=None): return argext('argmax', a, axis)

def ext(name, a, axis=None, keepdims=False):
    if isinstance(a, FArr):
        return mknum(T.op(name + 'sel', (T.mk_lam((a.n,), lambda ix: a.e(ix[0])), T.mk_lam((a.n,), lambda ix: ind(a.c(ix[0])))), (), (), a.sort), a.sort, True)
    a = as_arr(a)
    if axis is None:
        n = prodp(a.sh)
        if not (R.ctx.prove(mk_ge(n - 1)) or R.decide(mk_ge(n - 1))): raise exc('ValueError', 'zero-size array to reduction operation')
        k = int_of(n)
        if k is not None and k <= 8:
            fl = a.ravel()
            r = fl.at(ZERO)
            for i in range(1, k): r = (smin if name == 'amin' else smax)(r, fl.at(P(i)))
            return mknum(r, a.sort, True)
        return mknum(T.op(name, (_simplam(flat_lam(a)),), (), (), a.sort), a.sort, True)
    ax = int(axis) % a.ndim
    e = a.ent()
    def f(ix):
        def g(t):
            full = list(ix)
            full.insert(ax, t[0])
            return e(tuple(full))
        return T.op(name, (T.mk_lam((a.sh[ax],), g),), (), (), a.sort)
    sh = [s for k, s in enumerate(a.sh) if k != ax]
    if not sh: return ext(name, a)
    return mk(sh, a.sort, f)

def nanmin(a, axis=None): return ext('amin', a, axis)      # no NaN: floats are reals
def nanmax(a, axis=None): return ext('amax', a, axis)
def amin(a, axis=None, keepdims=False): return ext('amin', a, axis)
def amax(a, axis=None, keepdims=False): return ext('amax', a, axis)

def _ext_ax(name, sgn):
    from . import prove
    def ax(a):
        """bounds of extrema, stated for every entry"""
        l = a.args[0][0]
        x = P(a)
        vs = [symatom(fresh('x')) for _ in l.shape]
        v = T.lam_app(l, tuple(P(w) for w in vs))
        c = mk_ge((v - x) if sgn > 0 else (x - v))
        for w, s in reversed(list(zip(vs, l.shape))): c = mk_all(w, 0, s, c)
        return [c]
    prove.OPAX[name] = ax
_ext_ax('amin', 1)
_ext_ax('amax', -1)

def ptp(a): return amax(a) - amin(a)

def sort_(a, axis=-1, kind=None):
    if isinstance(a, FArr): raise VerifierError('sort of a selection')
    a = as_arr(a)
    ax = int(axis) % a.ndim
    e = a.ent()
    def f(ix):
        def g(t):
            full = list(ix)
            full[ax] = t[0]
            return e(tuple(full))
        return T.op('sort', (T.mk_lam((a.sh[ax],), g),), (), (ix[ax],), a.sort)
    if a.ndim == 1:
        k = int_of(a.sh[0])
        if k is not None and k <= 64:
            cs = [T.const_of(e((P(i),))) for i in range(k)]
            if all(c is not None and not c[1] for c in cs):
                cs = [P(x) for x in sorted(c[0] for c in cs)]
                from .nparr import pick
                return mk(a.sh, a.sort, lambda ix: pick(cs, ix[0]))
        l = _unsorted(_simplam(lam1(a)))
        d = distinct_of(l)
        if d is not None: return mk(a.sh, a.sort, lambda ix: T.op('distinct_sorted', (d,), (), (ix[0],), 'int'))
        n = a.sh[0]
        r = _simplam(T.mk_lam(l.shape, lambda ix: T.lam_app(l, (n - 1 - ix[0],))))      # a sort forgets the order
        if r.id < l.id: l = r
        return mk(a.sh, a.sort, lambda ix: T.op('sort', (l,), (), (ix[0],), a.sort))
    return mk(a.sh, a.sort, f)

def _unsorted(l):
    """a sort forgets that its entries were computed one by one from a sorted array: g(sort(X)[i]) -> g(X[i])"""
    from .prove import map_ops, has_op
    if not has_op(l.body): return l
    i, s, seen = fresh('l'), fresh('u', 'real'), []
    def f(a):
        if a.name != 'sort' or len(a.args[0]) != 1 or len(a.args[2]) != 1 or (a.args[2][0] - i).terms: return None
        x = a.args[0][0]
        if len(x.shape) != 1 or (x.shape[0] - l.shape[0]).terms or seen and seen[0] is not x: return None
        seen.append(x)
        return s
    b = map_ops(T.lam_app(l, (i,)), f)
    if not seen or symatom(i) in b.fv: return l
    x = T.lam_app(seen[0], (i,))
    return _simplam(T.close_lam(l.shape, (i,), T.subst(b, {symatom(s): x})))

def distinct_of(l):
    """the lambda whose distinct values (in any order) are the entries of l, all of them"""
    b = l.body
    if len(b.terms) != 1: return None
    (m, c), = b.terms.items()
    if c != T.C1 or m[1] is not None or m[2] or len(m[0]) != 1 or m[0][0][1] != 1: return None
    a = m[0][0][0]
    if a.kind != 'op' or a.name not in ('distinct_first', 'distinct_sorted') or a.args[2][0] is not l.params[0]: 
        if a.kind != 'op' or a.name not in ('distinct_first', 'distinct_sorted') or not (a.args[2][0] - l.params[0]).terms == {}: return None
    d = a.args[0][0]
    if (l.shape[0] - T.op('ndistinct', (d,), (), (), 'int')).terms: return None
    return d

def distinct_ax(a):
    """every listed value occurs, in ascending order without repetition"""
    l, i = a.args[0][0], a.args[2][0]
    n = T.op('ndistinct', (l,), (), (), 'int')
    w = symatom(fresh('x'))
    rng = T.mk_and(mk_ge(i), mk_ge(n - i - 1))
    return [T.mk_or(T.mk_not(rng), T.mk_ex(w, 0, l.shape[0], mk_eq(T.lam_app(l, (P(w),)) - P(a))))]
def ndistinct_ax(a):
    l = a.args[0][0]
    return [mk_ge(P(a)), mk_ge(l.shape[0] - P(a)) if True else None, T.mk_or(T.mk_not(mk_ge(l.shape[0] - 1)), mk_ge(P(a) - 1))]

def sort_ax(a):
    """sorted entries are entries of the input: range facts carry over"""
    l = a.args[0][0]
    i = a.args[2][0]
    s = T.op('argsort', (l,), (), (i,), 'int')
    return [mk_eq(P(a) - T.lam_app(l, (s,)))]
def _reg():
    from . import prove
    prove.OPAX['sort'] = sort_ax
    prove.OPAX['distinct_sorted'] = prove.OPAX['distinct_first'] = distinct_ax
    prove.OPAX['ndistinct'] = ndistinct_ax
_reg()

def argsort(a, axis=-1, kind=None):
    a = as_arr(a)
    if a.ndim != 1: raise VerifierError('argsort of a matrix')
    l = _simplam(lam1(a))
    # the order does not depend on a common offset or a positive factor; a negative factor reverses it
    # (ties: the order of equal keys is not specified by the default sort)
    v = symatom(fresh('i'))
    body = T.lam_app(l, (P(v),))
    if T.is_real(body) and kind is None:
        var = [(m, c) for m, c in body.terms.items() if v in T.mono_fv(*m)[0]]
        if var:
            lead = min(var, key=lambda t: T.mono_order(t[0]))[1][0]
            k = Q(1) / abs(lead)
            neg = lead < 0 and all(c[0] < 0 for _, c in var)
            q = T.pscale(T.padd_many([T.mk_poly({m: c}) for m, c in var]), ((-k if neg else k), Q(0)))
            if q is not body:
                l = _simplam(T.mk_lam(l.shape, lambda ix: T.subst(q, {v: ix[0]})))
                n = a.sh[0]
                if neg: return mk(a.sh, 'int', lambda ix: T.op('argsort', (l,), (), (n - 1 - ix[0],), 'int'))
    return mk(a.sh, 'int', lambda ix: T.op('argsort', (l,), (), (ix[0],), 'int'))

def lexsort(keys):
    if not isinstance(keys, Arr): keys = array(list(keys))
    k, n = int_of(keys.sh[0]), int_of(keys.sh[1])
    if k is not None and n is not None and k * n <= 12:     # few keys: a stable insertion sort, the last key first
        def before(i, j):
            for q in range(k - 1, -1, -1):
                a, b = keys.at(P(q), P(i)), keys.at(P(q), P(j))
                if R.decide(mk_gt(b - a)): return True
                if not R.decide(mk_eq(b - a)): return False
            return i < j
        out = []
        for i in range(n):
            p = len(out)
            while p and before(i, out[p - 1]): p -= 1
            out.insert(p, i)
        return array(list(out))
    l = lam1(keys)
    return mk((keys.sh[1],), 'int', lambda ix: T.op('lexsort', (l,), (), (ix[0],), 'int'))

# --- elementwise ------------------------------------------------------------------------------------------
def _float(s): return 'real' if s in ('int', 'bool') else s
def exp(a): return ew(T.exp, _float(sort_of(a)), a)
def sin(a): return ew(T.sin, _float(sort_of(a)), a)
def cos(a): return ew(T.cos, _float(sort_of(a)), a)
def tan(a): return ew(lambda x: T.sin(x) * T.recip(T.cos(x)), _float(sort_of(a)), a)
def arcsin(a): return ew(T.arcsin, _float(sort_of(a)), a)
def arccos(a): return ew(lambda x: T.PI / 2 - T.arcsin(x), _float(sort_of(a)), a)
def arctan2(y, x): return ew(lambda u, v: T.fn('arctan2', u, v), 'real', y, x)
def arctan(a): return ew(lambda x: T.fn('arctan2', x, ONE), 'real', a)
def sqrt(a): return ew(T.sqrt, _float(sort_of(a)), a)
def log(a): return ew(T.log, _float(sort_of(a)), a)
def log10(a): return ew(lambda x: T.log(x) * T.recip(T.log(P(10))), _float(sort_of(a)), a)
def log2(a): return ew(lambda x: T.log(x) * T.recip(T.log(P(2))), _float(sort_of(a)), a)
def square(a): return ew1(lambda x: x * x, a)
def reciprocal(a):
    if sort_of(a) == 'int': raise VerifierError('integer reciprocal')
    return ew1(T.recip, a)
def negative(a): return ew1(lambda x: -x, a)
def positive(a): return ew1(lambda x: x, a)
def hypot(a, b): return ew(lambda x, y: T.sqrt(x * x + y * y), 'real', a, b)
def deg2rad(a): return ew(lambda x: x * T.PI / 180, _float(sort_of(a)), a)
def rad2deg(a): return ew(lambda x: x * 180 / T.PI, _float(sort_of(a)), a)
def floor(a): return ew(lambda x: T.fn('floor', x), _float(sort_of(a)), a)
def ceil(a): return ew(lambda x: -T.fn('floor', -x), _float(sort_of(a)), a)
def absolute(a):
    s = sort_of(a)
    if isnum(a): return num_abs(a)
    if s != 'complex':
        def f(x):
            d = R.ctx.decide(mk_ge(x))
            if d is not None: return x if d else -x
            return T.absval(x)
        return ew(f, 'int' if s == 'bool' else s, a)
    return ew(T.absval, 'real', a)
def conj(a):
    if isnum(a): return mknum(T.conj(parts(a)[0]), parts(a)[1], True)
    return ew1(T.conj, a)
def real(a):
    if sort_of(a) != 'complex' and isinstance(a, Arr): return a
    return ew(T.real, 'real' if sort_of(a) in ('complex', 'real') else sort_of(a), a)
def imag(a):
    return ew(T.imag, 'real' if sort_of(a) in ('complex', 'real') else sort_of(a), a)
def angle(a, deg=False):
    r = ew(T.angle, 'real', a)
    return rad2deg(r) if deg else r
def sign(a): return ew(lambda x: ind(mk_gt(x)) - ind(mk_gt(-x)), sort_of(a), a)
def power(a, b): return binop('**', a, b)
def maximum(a, b):
    return ew(lambda x, y: minmax('max', x, y), join_sort(sort_of(a), sort_of(b)), a, b)
def minimum(a, b):
    return ew(lambda x, y: minmax('min', x, y), join_sort(sort_of(a), sort_of(b)), a, b)
def minmax(n, x, y):
    d = R.ctx.decide(mk_ge(x - y))
    if d is not None: return x if d == (n == 'max') else y
    return T.fn(n, x, y)
def clip(a, lo, hi):
    r = a
    if lo is not None: r = maximum(r, lo)
    if hi is not None: r = minimum(r, hi)
    return r
def isnan(a): return ew(lambda x: FALSE, 'bool', a)
def isfinite(a): return ew(lambda x: mk_and(cmp_cond('<', x, T.INF), cmp_cond('>', x, -T.INF)) if is_real(x) else TRUE, 'bool', a)
def isinf(a): return ew(lambda x: mk_not(mk_and(cmp_cond('<', x, T.INF), cmp_cond('>', x, -T.INF))) if is_real(x) else FALSE, 'bool', a)
def opaque_ew(name, a): return ew(lambda x: T.fn(name, x), sort_of(a), a)
def round_(a, decimals=0): return opaque_ew('round', a)
def isclose(a, b, rtol=1e-5, atol=1e-8):
    return cmpop('<=', absolute(binop('-', a, b)), binop('+', atol, binop('*', rtol, absolute(b))))
def allclose(a, b, rtol=1e-5, atol=1e-8): return all_(isclose(a, b, rtol, atol))
def where(c, *xy):
    if not xy: return nonzero(as_arr(c))
    x, y = xy
    if isinstance(c, (bool, SBool)): c = as_arr(c)
    cc, ax, ay = as_arr(c), as_arr(x), as_arr(y)
    sh = broadcast_shapes(cc.sh, ax.sh, ay.sh)
    srt = join_sort(*['int' if q.sort == 'bool' else q.sort for q in (ax, ay)])
    if ax.sort == ay.sort == 'bool': srt = 'bool'
    e = bool_ent(cc)
    f, g = (ax.ent(), ay.ent()) if srt == 'bool' else (num_ent(ax, ax.ent()), num_ent(ay, ay.ent()))
    m, n, o = bidx(cc.sh, sh), bidx(ax.sh, sh), bidx(ay.sh, sh)
    h = lambda ix: merge(e(m(ix)), f(n(ix)), g(o(ix)))
    if not sh: return mknum(h(()), srt, True)
    return mk(sh, srt, h)

def nonzero(a):
    a = as_arr(a)
    c = bool_ent(a)
    if a.ndim == 1:
        n = int_of(a.sh[0])
        if n is not None and n <= 8:
            rows = [i for i in range(n) if R.decide(c((P(i),)))]
            return (array(rows, dtype=NPTYPES['int']),)
        r = FArr(a.sh[0], lambda i: c((i,)), lambda i: i, 'int')
        r.is_index = True
        return (r,)
    # several dimensions: an opaque enumeration of the true positions in C order
    l = _simplam(T.mk_lam(a.sh, lambda ix: ind(c(ix))))
    n = T.op('nnz', (l,), (), (), 'int')
    return tuple(mk((n,), 'int', (lambda d: lambda ix: T.op('nz%d' % d, (l,), (), (ix[0],), 'int'))(d)) for d in range(a.ndim))

def _nz_ax():
    from . import prove
    def nn(a): return [mk_ge(P(a))]
    prove.OPAX['nnz'] = nn
    prove.OPAX['npeaks'] = nn
    prove.OPAX['ndistinct'] = nn
    def mkr(d):
        def ax(a):
            l = a.args[0][0]
            x = P(a)
            return [mk_ge(x), mk_ge(l.shape[d] - x - 1)]
        return ax
    for d in range(4): prove.OPAX['nz%d' % d] = mkr(d)
    def pk(a):
        x = P(a)
        return [mk_ge(x), mk_ge(a.args[0][0].shape[0] - x - 1)]
    prove.OPAX['peak'] = pk
_nz_ax()

def flatnonzero(a): return nonzero(as_arr(a).ravel())[0]
def argwhere(a):
    a = as_arr(a)
    if a.ndim == 1: raise VerifierError('argwhere')
    return column_stack(nonzero(a))

# --- creation ----------------------------------------------------------------------------------------------
def zeros(shape, dtype=None, order='C'): return const(shape, ZERO, dtype)
def ones(shape, dtype=None, order='C'): return const(shape, ONE, dtype)
def const(shape, v, dtype=None):
    s = sort_of_dtype(dtype) or 'real'
    sh = shape_arg(shape)
    if s == 'bool': return mk(sh, s, lambda ix: TRUE if v is ONE else FALSE)
    return mk(sh, s, lambda ix: v)
def empty(shape, dtype=None, order='C'):
    s = sort_of_dtype(dtype) or 'real'
    sh = shape_arg(shape)
    nm = 'uninit%d' % next(T._fresh)
    if s == 'bool': return mk(sh, s, lambda ix: T.batom(nm, ix))
    return mk(sh, s, lambda ix: T.app(nm, ix, s))
def full(shape, v, dtype=None):
    sh = shape_arg(shape)
    a = as_arr(v)
    s = sort_of_dtype(dtype) or a.sort
    conv = converter(a.sort, s)
    if a.ndim == 0:
        x = conv(a.at())
        return mk(sh, s, lambda ix: x)
    r = mk(sh, s, lambda ix: ZERO)
    assign(r, a)
    return r
def zeros_like(a, dtype=None): a = as_arr(a); return zeros(a.shape, dtype or a.dtype)
def ones_like(a, dtype=None): a = as_arr(a); return ones(a.shape, dtype or a.dtype)
def empty_like(a, dtype=None): a = as_arr(a); return empty(a.shape, dtype or a.dtype)
def full_like(a, v, dtype=None): a = as_arr(a); return full(a.shape, v, dtype or a.dtype)
def eye(n, m=None, k=0, dtype=None):
    n = dimp(n)
    m = n if m is None else dimp(m)
    s = sort_of_dtype(dtype) or 'real'
    kk = parts(k)[0]
    f = lambda ix: mk_eq(ix[1] - ix[0] - kk)
    if s == 'bool': return mk((n, m), s, f)
    return mk((n, m), s, lambda ix: ind(f(ix)))
def identity(n, dtype=None): return eye(n, dtype=dtype)
def tri(n, m=None, k=0): return mk((dimp(n), dimp(m or n)), 'real', lambda ix: ind(mk_ge(ix[0] + parts(k)[0] - ix[1])))
def tril(a, k=0):
    e = a.ent()
    return mk(a.sh, a.sort, lambda ix: ind(mk_ge(ix[0] + parts(k)[0] - ix[1])) * e(ix))
def triu(a, k=0):
    e = a.ent()
    return mk(a.sh, a.sort, lambda ix: ind(mk_ge(ix[1] - ix[0] - parts(k)[0])) * e(ix))
def arange(start, stop=None, step=1, dtype=None):
    if stop is None: start, stop = 0, start
    a, s1 = parts(start)
    b, s2 = parts(stop)
    st, s3 = parts(step)
    srt = join_sort(s1, s2, s3)
    if srt != 'int': raise VerifierError('arange with real arguments')
    n = int_of(st)
    if n is None:
        if R.ctx.prove(mk_ge(st - 1)) or R.decide(mk_ge(st - 1)): d, k = b - a, st
        elif R.ctx.prove(mk_ge(-st - 1)) or R.decide(mk_ge(-st - 1)): d, k = a - b, -st
        else: raise exc('ZeroDivisionError', 'division by zero')
        from .prove import simp
        L = simp(int_div('fdiv', d + (k - 1), k), R.ctx)
    else:
        if n == 0: raise exc('ZeroDivisionError', 'division by zero')
        d = (b - a) if n > 0 else (a - b)
        L = d if abs(n) == 1 else int_div('fdiv', d + (abs(n) - 1), P(abs(n)))
    if not (R.ctx.prove(mk_ge(L)) or R.decide(mk_ge(L))): L = ZERO
    r = mk((L,), 'int', lambda ix: a + ix[0] * st)
    return astype(r, dtype) if dtype is not None and sort_of_dtype(dtype) != 'int' else r
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = dimp(num)
    e = R.decide(cond_of(endpoint)) if not isinstance(endpoint, bool) else endpoint
    a, b = as_arr(start), as_arr(stop)
    if a.ndim or b.ndim: raise VerifierError('linspace of arrays')
    x, y = a.at(), b.at()
    if e:
        if R.ctx.prove(mk_ge(n - 2)) or R.decide(mk_ge(n - 2)): h = (y - x) * T.recip(n - 1)
        else: h = ZERO
    else:
        h = (y - x) * T.recip(n)
    srt = _float(join_sort(a.sort, b.sort))
    r = mk((n,), srt, lambda ix: x + ix[0] * h)
    if retstep: return r, mknum(h, srt, True)
    return r
def fromiter(it, dtype=None, count=-1):
    from .seq import SList, DistinctKeys
    if isinstance(it, SList):
        if not isinstance(count, int) or count != -1:
            n = parts(it.length())[0]
            c = parts(count)[0]
            if c is not n and not R.decide(mk_eq(c - n)): raise VerifierError('fromiter count')
        if isinstance(it, DistinctKeys):
            # opaque content; sorting is handled by the operator
            r = mk((parts(it.length())[0],), 'int', lambda ix: parts(it.get(mknum(ix[0], 'int')))[0])
            r.buf.wc = None
            return r
        return array(it, dtype)
    return array(list(it), dtype)
def asarray(a, dtype=None, order=None):
    if isinstance(a, Arr):
        s = sort_of_dtype(dtype)
        return a if s is None or s == a.sort else astype(a, dtype)
    return array(a, dtype)
def meshgrid(*xs, indexing='xy', sparse=False, copy=True):
    xs = [as_arr(x) for x in xs]
    n = len(xs)
    if indexing not in ('xy', 'ij'): raise exc('ValueError', "Valid values for `indexing` are 'xy' and 'ij'.")
    xs = [x.ravel() for x in xs]
    sh = [x.sh[0] for x in xs]
    order = list(range(n))
    if indexing == 'xy' and n >= 2: order[0], order[1] = 1, 0
    osh = [None] * n
    for k in range(n): osh[order[k]] = sh[k]
    out = []
    for k, x in enumerate(xs):
        e = x.ent()
        out.append(mk(osh, x.sort, (lambda e, p: lambda ix: e((ix[p],)))(e, order[k])))
    return out
def indices(dims): return array([g for g in meshgrid(*[arange(d) for d in dims], indexing='ij')])
def diag(v, k=0):
    v = as_arr(v)
    if v.ndim == 1:
        kk = parts(k)[0]
        e = v.ent()
        n = int_of(kk)
        if n is None: raise VerifierError('diag with a symbolic offset')
        m = v.sh[0] + abs(n)
        lo = P(max(-n, 0))
        if v.sort == 'bool': raise VerifierError('diag of booleans')
        return mk((m, m), v.sort, lambda ix: ind(mk_eq(ix[1] - ix[0] - kk)) * e((ix[0] - (lo if n < 0 else ZERO),)))
    if v.ndim == 2: return diag_of(v, k)
    raise exc('ValueError', 'Input must be 1- or 2-d.')
def diagflat(v): return diag(as_arr(v).ravel())
def diag_of(a, k=0):
    kk = parts(k)[0]
    n, m = a.sh
    if int_of(kk) == 0:
        L = n if n is m else smin(n, m)
        r0, c0 = ZERO, ZERO
    elif R.ctx.prove(mk_ge(kk)) or R.decide(mk_ge(kk)):
        L = smin(n, m - kk)
        r0, c0 = ZERO, kk
    else:
        L = smin(n + kk, m)
        r0, c0 = -kk, ZERO
    if not (R.ctx.prove(mk_ge(L)) or R.decide(mk_ge(L))): L = ZERO
    return view(a, (L,), lambda ix: (ix[0] + r0, ix[0] + c0),
                lambda x: (mk_and(mk_eq(x[0] - r0 - x[1] + c0), mk_ge(x[0] - r0), mk_ge(L - x[0] + r0 - 1)), (x[0] - r0,)), 'N')
def fill_diagonal(a, val):
    v = as_arr(val)
    e = v.ent()
    conv = converter(v.sort, a.sort)
    if v.ndim > 1: raise VerifierError('fill_diagonal')
    write(a, lambda ix: conv(e(()) if v.ndim == 0 else e((ix[0],))), lambda ix: mk_eq(ix[0] - ix[1]))
def diag_indices(n, ndim=2): return (arange(n),) * ndim
def diag_indices_from(a): return diag_indices(mknum(a.sh[0], 'int'), a.ndim)
def vander(x, N=None, increasing=False):
    e = x.ent()
    n = x.sh[0] if N is None else dimp(N)
    raise VerifierError('vander')

# --- joining -----------------------------------------------------------------------------------------------
def seq_items(xs):
    from .seq import SList
    if isinstance(xs, Arr):
        n = int_of(xs.sh[0])
        if n is None: raise VerifierError('joining a symbolic number of arrays')
        return [xs[i] if xs.ndim > 1 else as_arr(xs[i]) for i in range(n)]
    if isinstance(xs, SList): raise VerifierError('joining a symbolic number of arrays')
    return [as_arr(x) for x in xs]

def symbolic_items(xs):
    """a list with a symbolic number of equally shaped arrays, as one array with a leading axis"""
    from .seq import SList
    if not isinstance(xs, SList): return None
    r = array(xs)
    if isinstance(r, FArr): return None
    if not (R.ctx.prove(mk_ge(r.sh[0] - 1)) or R.decide(mk_ge(r.sh[0] - 1))): raise exc('ValueError', 'need at least one array to concatenate')
    return r

def concatenate(xs, axis=0, dtype=None):
    r = symbolic_items(xs)
    if r is not None:
        if axis is None or r.ndim == 2: return reshape(r, (-1,))
        ax = int(axis) % (r.ndim - 1)
        r = moveaxis(r, 0, ax)
        sh = list(r.sh[:ax]) + [r.sh[ax] * r.sh[ax + 1]] + list(r.sh[ax + 2:])
        return reshape(r, tuple(mknum(x, 'int') for x in sh))
    xs = seq_items(xs)
    if not xs: raise exc('ValueError', 'need at least one array to concatenate')
    if axis is None:
        xs, axis = [x.ravel() for x in xs], 0
    nd = xs[0].ndim
    if any(isinstance(x, FArr) for x in xs): raise VerifierError('concatenating selections')
    if nd == 0: raise exc('ValueError', 'zero-dimensional arrays cannot be concatenated')
    if any(x.ndim != nd for x in xs): raise exc('ValueError', 'all the input array dimensions must match')
    ax = int(axis) % nd
    for x in xs[1:]:
        for k in range(nd):
            if k != ax and not dims_equal(x.sh[k], xs[0].sh[k]): raise exc('ValueError', 'all the input array dimensions except for the concatenation axis must match exactly')
    allb = all(x.sort == 'bool' for x in xs)
    srt = 'bool' if allb else join_sort(*['int' if x.sort == 'bool' else x.sort for x in xs])
    es = [x.ent() if allb else num_ent(x, x.ent()) for x in xs]
    offs = [ZERO]
    for x in xs: offs.append(offs[-1] + x.sh[ax])
    sh = list(xs[0].sh)
    sh[ax] = offs[-1]
    zero = [int_of(x.sh[ax]) == 0 for x in xs]
    def f(ix):
        i = ix[ax]
        r = None
        for k in reversed(range(len(xs))):
            if zero[k]: continue
            # decided positions
            y = ix[:ax] + (i - offs[k],) + ix[ax + 1:]
            if r is None:
                r = es[k](y)
                last = k
                continue
            c = mk_ge(offs[k + 1] - i - 1)
            d = quick(c)
            if d is True: r = es[k](y)
            elif d is False: pass
            else: r = merge(c, es[k](y), r)
        return r if r is not None else ZERO
    return mk(sh, srt, f)

def quick(c):
    if c.kind == 'true': return True
    if c.kind == 'false': return False
    return R.ctx.decide(c)

def stack(xs, axis=0):
    r = symbolic_items(xs)
    if r is not None: return moveaxis(r, 0, int(axis) % r.ndim)
    xs = seq_items(xs)
    return concatenate([expand_dims(x, axis) for x in xs], axis)
def hstack(xs):
    r = symbolic_items(xs)
    if r is not None: return reshape(r, (-1,)) if r.ndim <= 2 else concatenate(xs, 1)
    xs = [x if x.ndim else reshape(x, (1,)) for x in seq_items(xs)]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)
def vstack(xs):
    r = symbolic_items(xs)
    if r is not None: return (reshape(r, (-1, 1)) if r.ndim == 1 else r) if r.ndim <= 2 else concatenate(xs, 0)
    return concatenate([atleast_2d(x) for x in seq_items(xs)], 0)
def dstack(xs): return concatenate([atleast_3d(x) for x in seq_items(xs)], 2)
def column_stack(xs):
    r = symbolic_items(xs)
    if r is not None: return (reshape(r, (1, -1)) if r.ndim == 1 else r.T) if r.ndim <= 2 else concatenate(xs, 1)
    return concatenate([reshape(x, (-1, 1)) if x.ndim < 2 else x for x in seq_items(xs)], 1)
def block(rows):
    def lev(x):
        return 1 + lev(x[0]) if isinstance(x, list) else 0
    d = lev(rows)
    if d == 0: return array(rows)
    if d == 1: return hstack([atleast_1d(x) for x in rows])
    if d == 2:
        return concatenate([concatenate([atleast_2d(as_arr(x)) for x in r], 1) for r in rows], 0)
    raise VerifierError('block')
def append(a, v, axis=None):
    if axis is None: return concatenate([as_arr(a).ravel(), as_arr(v).ravel()])
    return concatenate([a, v], axis)
def atleast_1d(a):
    a = as_arr(a)
    return reshape(a, (1,)) if a.ndim == 0 else a
def atleast_2d(a):
    a = as_arr(a)
    if a.ndim == 0: return reshape(a, (1, 1))
    return expand_dims(a, 0) if a.ndim == 1 else a
def atleast_3d(a):
    a = as_arr(a)
    while a.ndim < 3: a = expand_dims(a, a.ndim)
    return a
def tile(a, reps):
    a = as_arr(a)
    reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    while len(reps) < a.ndim: reps.insert(0, 1)
    while a.ndim < len(reps): a = expand_dims(a, 0)
    rp = [dimp(r) for r in reps]
    e = a.ent()
    ash = a.sh
    sh = [r * s for r, s in zip(rp, ash)]
    def f(ix):
        return e(tuple(i if int_of(r) == 1 else (ZERO if int_of(s) == 1 else sdiv('mod', i, s)) for i, r, s in zip(ix, rp, ash)))
    return mk(sh, a.sort, f)
def repeat(a, n, axis=None):
    a = as_arr(a)
    if not isnum(n): raise VerifierError('repeat with a vector')
    n = dimp(n)
    if axis is None:
        a = a.ravel() if a.ndim != 1 else a
        axis = 0
    ax = int(axis) % a.ndim
    e = a.ent()
    sh = list(a.sh)
    one = int_of(sh[ax]) == 1
    sh[ax] = sh[ax] * n
    return mk(sh, a.sort, lambda ix: e(ix[:ax] + ((ZERO if one else sdiv('fdiv', ix[ax], n)),) + ix[ax + 1:]))
def pad(a, width, mode='constant', constant_values=0):
    if mode != 'constant': raise VerifierError('pad mode')
    a = as_arr(a)
    if isnum(width): width = ((width, width),) * a.ndim
    elif len(width) == 2 and isnum(width[0]): width = (tuple(width),) * a.ndim
    w = [(dimp(x), dimp(y)) for x, y in width]
    e = a.ent()
    ash = a.sh
    cv = parts(constant_values)[0]
    sh = [x + s + y for (x, y), s in zip(w, ash)]
    def f(ix):
        c = []
        y = []
        for i, (p, q), s in zip(ix, w, ash):
            y.append(i - p)
            if p.terms: c.append(mk_ge(i - p))
            if q.terms: c.append(mk_ge(s - 1 - (i - p)))
        return merge(mk_and(*c), e(tuple(y)), cv)
    return mk(sh, a.sort, f)
def broadcast_to(a, shape):
    a = as_arr(a)
    sh = shape_arg(shape)
    broadcast_shapes(a.sh, sh)
    e, m = a.ent(), bidx(a.sh, sh)
    return mk(sh, a.sort, lambda ix: e(m(ix)))
def broadcast_arrays(*xs):
    xs = [as_arr(x) for x in xs]
    sh = broadcast_shapes(*[x.sh for x in xs])
    return [broadcast_to(x, tuple(mknum(s, 'int') for s in sh)) for x in xs]
def flip(a, axis=None):
    a = as_arr(a)
    ax = _axes(a, axis)
    key = tuple(slice(None, None, -1) if k in ax else slice(None) for k in range(a.ndim))
    return a[key] if a.ndim else a
def fliplr(a): return flip(a, 1)
def flipud(a): return flip(a, 0)
def roll(a, shift, axis=None): raise VerifierError('roll')
def split(a, n, axis=0):
    a = as_arr(a)
    if not isinstance(n, (list, tuple)):
        k = int(n)
        s = int_div('fdiv', a.sh[axis], P(k))
        cuts = [mknum(s * i, 'int') for i in range(1, k)]
    else: cuts = list(n)
    cuts = [0] + cuts + [mknum(a.sh[axis], 'int')]
    return [a[tuple(slice(x, y) if d == axis else slice(None) for d in range(a.ndim))] for x, y in zip(cuts, cuts[1:])]

# --- products ----------------------------------------------------------------------------------------------
def outer(a, b, out=None):
    a, b = as_arr(a), as_arr(b)
    a = a if a.ndim == 1 else a.ravel()
    b = b if b.ndim == 1 else b.ravel()
    e, f = num_ent(a, a.ent()), num_ent(b, b.ent())
    return mk((a.sh[0], b.sh[0]), join_sort(a.sort, b.sort), lambda ix: e((ix[0],)) * f((ix[1],)))
def matmul(a, b):
    if not okarg(a) or not okarg(b): return NotImplemented
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0: raise exc('ValueError', 'matmul: Input operand does not have enough dimensions')
    srt = join_sort('int' if a.sort == 'bool' else a.sort, 'int' if b.sort == 'bool' else b.sort)
    e, f = num_ent(a, a.ent()), num_ent(b, b.ent())
    A, B = a.sh, b.sh
    n1 = A[-1]
    n2 = B[0] if b.ndim == 1 else B[-2]
    if n1 is not n2 and not R.ctx.prove(mk_eq(n1 - n2)):
        if not R.decide(mk_eq(n1 - n2)): raise exc('ValueError', 'matmul: Input operand 1 has a mismatch in its core dimension')
    def contract(g):
        v = fresh('s')
        return psum(symatom(v), 0, n1, g(v))
    if a.ndim == 1 and b.ndim == 1: return mknum(contract(lambda v: e((v,)) * f((v,))), srt, True)
    if a.ndim == 2 and b.ndim == 1: return mk((A[0],), srt, lambda ix: contract(lambda v: e((ix[0], v)) * f((v,))))
    if a.ndim == 1 and b.ndim == 2: return mk((B[1],), srt, lambda ix: contract(lambda v: e((v,)) * f((v, ix[0]))))
    if a.ndim == 2 and b.ndim == 2: return mk((A[0], B[1]), srt, lambda ix: contract(lambda v: e((ix[0], v)) * f((v, ix[1]))))
    # stacks
    if a.ndim == 1: return squeeze(matmul(expand_dims(a, 0), b), -2)
    if b.ndim == 1: return squeeze(matmul(a, expand_dims(b, 1)), -1)
    bs = broadcast_shapes(A[:-2], B[:-2])
    ma, mb = bidx(A[:-2], bs), bidx(B[:-2], bs)
    return mk(bs + (A[-2], B[-1]), srt, lambda ix: contract(lambda v: e(ma(ix[:-2]) + (ix[-2], v)) * f(mb(ix[:-2]) + (v, ix[-1]))))
def dot(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0: return binop('*', a, b)
    if a.ndim <= 2 and b.ndim <= 2: return matmul(a, b)
    raise VerifierError('dot of tensors')
def inner(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 1 and b.ndim == 1: return matmul(a, b)
    return matmul(a, transpose(b))
def vdot(a, b): return matmul(conj(as_arr(a).ravel()), as_arr(b).ravel())
def multi_dot(xs):
    r = xs[0]
    for x in xs[1:]: r = matmul(r, x)
    return r
def kron(a, b):
    a, b = as_arr(a), as_arr(b)
    while a.ndim < b.ndim: a = expand_dims(a, 0)
    while b.ndim < a.ndim: b = expand_dims(b, 0)
    e, f = num_ent(a, a.ent()), num_ent(b, b.ent())
    bsh, ash = b.sh, a.sh
    def g(ix):
        hi, lo = [], []
        for i, s, t in zip(ix, ash, bsh):
            if int_of(s) == 1: hi.append(ZERO); lo.append(i)
            else: hi.append(sdiv('fdiv', i, t)); lo.append(sdiv('mod', i, t))
        return e(tuple(hi)) * f(tuple(lo))
    return mk([s * t for s, t in zip(ash, bsh)], join_sort(a.sort, b.sort), g)
def tensordot(a, b, axes=2): raise VerifierError('tensordot')
def einsum(spec, *ops, optimize=None):
    if not isinstance(spec, str): raise VerifierError('einsum form')
    ops = [as_arr(o) for o in ops]
    spec = spec.replace(' ', '')
    if '...' in spec: raise VerifierError('einsum ellipsis')
    if '->' in spec: ins, out = spec.split('->')
    else:
        ins = spec
        cnt = {}
        for ch in ins.replace(',', ''): cnt[ch] = cnt.get(ch, 0) + 1
        out = ''.join(sorted(ch for ch in cnt if cnt[ch] == 1))
    ins = ins.split(',')
    dims = {}
    for t, o in zip(ins, ops):
        if len(t) != o.ndim: raise exc('ValueError', 'einsum operand dimensions')
        for ch, s in zip(t, o.sh):
            if ch in dims:
                if is1(dims[ch]): dims[ch] = s
                elif not is1(s) and not dims_equal(dims[ch], s): raise exc('ValueError', 'einsum dimension mismatch')
            else: dims[ch] = s
    es = [num_ent(o, o.ent()) for o in ops]
    ones_ = [[is1(s) and not is1(dims[ch]) for ch, s in zip(t, o.sh)] for t, o in zip(ins, ops)]
    srt = join_sort(*[o.sort for o in ops])
    inner_ = [ch for ch in dims if ch not in out]
    def f(ix):
        env = dict(zip(out, ix))
        vs = []
        for ch in inner_:
            v = fresh('s')
            env[ch] = v
            vs.append((symatom(v), dims[ch]))
        p = ONE
        for t, e, on in zip(ins, es, ones_): p = p * e(tuple(ZERO if z else env[ch] for ch, z in zip(t, on)))
        return sums(vs, p)
    sh = [dims[ch] for ch in out]
    if not sh: return mknum(f(()), srt, True)
    return mk(sh, srt, f)

# --- indices -----------------------------------------------------------------------------------------------
def ravel_multi_index(mi, dims, mode='raise', order='C'):
    dims = shape_arg(dims)
    mi = list(mi) if isinstance(mi, (tuple, list)) else [mi[i] for i in range(int_of(mi.sh[0]))]
    if len(mi) != len(dims): raise exc('ValueError', 'parameter multi_index must be a sequence of length %d' % len(dims))
    if order == 'F': mi, dims = mi[::-1], dims[::-1]
    return ew(lambda *ix: flatten_index(ix, dims), 'int', *mi)
def unravel_index(i, shape, order='C'):
    dims = shape_arg(shape)
    if order == 'F': dims = dims[::-1]
    out = []
    for d in range(len(dims)):
        out.append(ew((lambda d: lambda k: unflatten(k, dims)[d])(d), 'int', i))
    if order == 'F': out = out[::-1]
    return tuple(out)
def take(a, idx, axis=None):
    a = as_arr(a)
    if axis is None: return a.ravel()[idx]
    return a[tuple(idx if k == int(axis) % a.ndim else slice(None) for k in range(a.ndim))]
def copyto(dst, src):
    a = as_arr(src)
    check_cast(dst.sort, a.sort, 'copyto')
    assign(dst, a)
def array_equal(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim: return False
    for x, y in zip(a.sh, b.sh):
        if not dims_equal(x, y): return False
    return all_(cmpop('==', a, b))
def unique(a, return_index=False, return_counts=False, return_inverse=False, axis=None):
    raise VerifierError('unique')

def to_list(a):
    from .seq import SList
    n = int_of(a.sh[0])
    if n is not None:
        return [a[i] if a.ndim == 1 else to_list(a[i]) for i in range(n)]
    e, b = a.ent(), a.copy()
    def get(i):          # lists check the index themselves
        if a.ndim == 1:
            x = e((parts(i)[0],))
            return SBool(x) if a.sort == 'bool' else mknum(x, a.sort)
        return to_list(b[i])
    return SList(mknum(a.sh[0], 'int'), get)

# --- queries -----------------------------------------------------------------------------------------------
def isscalar(x): return isnum(x) or isinstance(x, (str, bool))
def iscomplexobj(x): return sort_of(x) == 'complex' if okarg(x) else False
def isrealobj(x): return not iscomplexobj(x)
def shape(x):
    if isnum(x): return ()
    return as_arr(x).shape
def ndim(x): return 0 if isnum(x) else as_arr(x).ndim
def size(x, axis=None):
    if isnum(x): return 1
    a = as_arr(x)
    return a.size if axis is None else mknum(a.sh[int(axis)], 'int')
def result_type(*xs):
    ss = []
    for x in xs:
        if isinstance(x, (DType, NPType)) or x in (int, float, complex, bool): ss.append(sort_of_dtype(x))
        else: ss.append(sort_of(x))
    return DType(max(ss, key=lambda s: RANK[s]))
def promote_types(a, b): return result_type(a, b)
def issubdtype(d, k):
    s = sort_of_dtype(d)
    if isinstance(k, Abstract): return s in ABSTRACT[k.__name__]
    return s == sort_of_dtype(k)
class Abstract:
    def __init__(self, n): self.__name__, self.sorts = n, ABSTRACT[n]
def dtype(x): return DType(sort_of_dtype(x))
def can_cast(a, b, casting='safe'): return RANK[sort_of_dtype(a)] <= RANK[sort_of_dtype(b)]
def may_share_memory(a, b): return a.buf is b.buf
def ascontiguousarray(a): return a if a.order == 'C' else a.copy()

# --- linear algebra ------------------------------------------------------------------------------------------
def mat_lam(a):
    if a.ndim != 2: raise VerifierError('stacked matrices in linear algebra')
    return _simplam(lam1(a))

def _square(a):
    if a.ndim < 2: raise PyExc(LinAlgError, ('%d-dimensional array given. Array must be at least two-dimensional' % a.ndim,))
    if not dims_equal(a.sh[-1], a.sh[-2]): raise PyExc(LinAlgError, ('Last 2 dimensions of the array must be square',))

def inv(a):
    a = as_arr(a)
    _square(a)
    l = mat_lam(a)
    R.notes.add('np.linalg.inv: argument is invertible')
    s = _float(a.sort)
    return mk(a.sh, s, lambda ix: T.op('inv', (l,), (), ix, s))
def pinv(a, rcond=None, hermitian=False):
    """Moore-Penrose inverse; for full column rank (A^H A)^-1 A^H"""
    a = as_arr(a)
    R.notes.add('np.linalg.pinv: argument has full column rank')
    ah = transpose(conj(a))
    return matmul(inv(matmul(ah, a)), ah)
def solve(a, b):
    a, b = as_arr(a), as_arr(b)
    _square(a)
    return matmul(inv(a), b)
def lstsq(a, b, rcond=None):
    """least squares; for square invertible a the solution of a x = b"""
    a, b = as_arr(a), as_arr(b)
    if a.sh[0] is a.sh[1] or R.ctx.prove(mk_eq(a.sh[0] - a.sh[1])): x = solve(a, b)
    else: x = matmul(pinv(a), b)
    return (x, None, None, None)
def eigh(a, UPLO='L'):
    a = as_arr(a)
    _square(a)
    l = mat_lam(a)
    s = _float(a.sort)
    n = a.sh[0]
    return (mk((n,), 'real', lambda ix: T.op('eigh_w', (l,), (), ix, 'real')), mk((n, n), s, lambda ix: T.op('eigh_v', (l,), (), ix, s)))
def eigvalsh(a): return eigh(a)[0]
def eigvals(a):
    a = as_arr(a)
    _square(a)
    l = mat_lam(a)
    return mk((a.sh[0],), 'complex', lambda ix: T.op('eigvals', (l,), (), ix, 'complex'))
def eig(a):
    a = as_arr(a)
    _square(a)
    l = mat_lam(a)
    n = a.sh[0]
    return (eigvals(a), mk((n, n), 'complex', lambda ix: T.op('eig_v', (l,), (), ix, 'complex')))
def svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    a = as_arr(a)
    l = mat_lam(a)
    m, n = a.sh
    k = smin(m, n)
    s = _float(a.sort)
    sv = mk((k,), 'real', lambda ix: T.op('svd_s', (l,), (), ix, 'real'))
    if not R.decide(cond_of(compute_uv)): return sv
    fm = R.decide(cond_of(full_matrices))
    return (mk((m, m if fm else k), s, lambda ix: T.op('svd_u', (l,), (), ix, s)), sv,
            mk((n if fm else k, n), s, lambda ix: T.op('svd_vh', (l,), (), ix, s)))
def slogdet(a):
    a = as_arr(a)
    _square(a)
    l = mat_lam(a)
    s = _float(a.sort)
    if s == 'complex':       # the determinant of a Hermitian matrix is real
        h = T.lam_conj(T.lam_T(l))
        from . import prove
        if h is l or prove.lam_equal(l, h, R.ctx): s = 'real'
    return (mknum(T.op('slogdet_sgn', (l,), (), (), s), s, True), mknum(T.op('slogdet_log', (l,), (), (), 'real'), 'real', True))
def det(a):
    a = as_arr(a)
    _square(a)
    l = mat_lam(a)
    s = _float(a.sort)
    n = int_of(a.sh[0])
    return mknum(T.op('det', (l,), (), (), s), s, True)
def matrix_rank(a): return mknum(T.op('rank', (mat_lam(as_arr(a)),), (), (), 'int'), 'int', True)
def cholesky(a):
    a = as_arr(a)
    _square(a)
    l = mat_lam(a)
    s = _float(a.sort)
    return mk(a.sh, s, lambda ix: ind(mk_ge(ix[0] - ix[1])) * T.op('cholesky', (l,), (), ix, s))
def matrix_power(a, n):
    n = int(n)
    if n < 0: a, n = inv(a), -n
    r = eye(mknum(a.sh[0], 'int'))
    for _ in range(n): r = matmul(r, a)
    return r
def norm(a, ord=None, axis=None, keepdims=False):
    a = as_arr(a)
    o = None if ord is None else ord if isinstance(ord, str) else ('inf' if parts(ord)[0] is T.INF else int_of(parts(ord)[0]))
    sq = lambda x: x * T.conj(x) if a.sort == 'complex' else x * x
    if axis is None and a.ndim == 2 and o not in (None, 'fro'): raise VerifierError('matrix norm %r' % (ord,))
    if o in (None, 'fro', 2):
        if axis is not None and isinstance(axis, (tuple, list)) and o == 2: raise VerifierError('matrix norm')
        return sqrt(sum_(ew(sq, _float('real') if a.sort == 'complex' else a.sort, a), axis, keepdims=keepdims))
    if o == 1: return sum_(absolute(a), axis, keepdims=keepdims)
    if o == 'inf': return amax(absolute(a), axis)
    raise VerifierError('norm %r' % (ord,))
def roots(p):
    p = as_arr(p)
    if p.ndim != 1: raise exc('ValueError', 'Input must be a rank-1 array.')
    l = _simplam(lam1(p))
    R.notes.add('np.roots: leading and trailing coefficients are nonzero')
    n = p.sh[0] - 1
    return mk((n,), 'complex', lambda ix: T.op('roots', (l,), (), ix, 'complex'))
def polyval(p, x): raise VerifierError('polyval')
def convolve(a, b, mode='full'): raise VerifierError('convolve')
def correlate(a, b, mode='valid'): raise VerifierError('correlate')

# --- random --------------------------------------------------------------------------------------------------
def draw(kind, sh, args=(), sort='real'):
    """the n-th draw of the program is an arbitrary array"""
    k = len(R.draws)
    nm = 'draw%d_%s' % (k, kind)
    R.draws[nm] = (kind, sh, args)
    if kind == 'uniform':
        from . import prove
        lo, hi = args
        prove.ELEMAX[nm] = lambda ix: [mk_ge(T.app(nm, ix, 'real') - lo), mk_gt(hi - T.app(nm, ix, 'real'))]
    if not sh: return mknum(T.app(nm, (), sort), sort, True)
    return mk(sh, sort, lambda ix: T.app(nm, ix, sort))
def randn(*sh): return draw('randn', tuple(dimp(s) for s in sh))
def standard_normal(size=None): return draw('randn', () if size is None else shape_arg(size))
def normal(loc=0.0, scale=1.0, size=None):
    return binop('+', loc, binop('*', scale, draw('randn', () if size is None else shape_arg(size))))
def uniform(low=0.0, high=1.0, size=None):
    return draw('uniform', () if size is None else shape_arg(size), (parts(low)[0], parts(high)[0]))
def rand(*sh): return draw('uniform', tuple(dimp(s) for s in sh), (ZERO, ONE))
def random_sample(size=None): return draw('uniform', () if size is None else shape_arg(size), (ZERO, ONE))

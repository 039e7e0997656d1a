"""Contracts standing in for external packages (assumed, listed in the evidence as trusted)."""
import math as _math, copy as _copy
from fractions import Fraction as Q
from . import terms as T
from .terms import (P, Poly, Cond, ZERO, ONE, TRUE, FALSE, VerifierError, fresh, symatom, int_of, mk_ge, mk_gt, mk_eq, mk_not, mk_and, mk_or,
                    mk_ex, mk_all, ind, ite, psum, subst)
from .rt import R, Num, SBool, mknum, mkbool, isnum, parts, cond_of, PyExc, PathEnd
from . import nparr as A
from . import npfun as F
from .nparr import Arr, FArr, mk, as_arr
from . import interp as IP
from .interp import UNDEF, Cls, Obj, Func, PKG, newlist
from .prove import OPAX

class Space:
    """module-like object"""
    def __init__(self, name, d): self._name, self._d = name, d
    def _model_getattr(self, k, default=UNDEF):
        if k in self._d: return self._d[k]
        if default is not UNDEF: return default
        raise VerifierError('%s.%s is not modelled' % (self._name, k))
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        return self._model_getattr(k)

HOOKS = {}          # name -> function installed by a contract
RECORD = []         # calls of recorded externals

# --- numpy -------------------------------------------------------------------------------------------------
RENAME = {'sum': F.sum_, 'any': F.any_, 'all': F.all_, 'sort': F.sort_, 'abs': F.absolute, 'amax': F.amax, 'amin': F.amin, 'max': F.amax, 'min': F.amin,
          'conjugate': F.conj, 'round': F.round_, 'around': F.round_, 'array': A.array, 'transpose': A.transpose, 'reshape': A.reshape, 'squeeze': A.squeeze,
          'expand_dims': A.expand_dims, 'swapaxes': A.swapaxes, 'moveaxis': A.moveaxis, 'diagonal': F.diag_of, 'asanyarray': F.asarray, 'atan2': F.arctan2,
          'asin': F.arcsin, 'acos': F.arccos, 'atan': F.arctan, 'radians': F.deg2rad, 'degrees': F.rad2deg, 'var': F.var, 'std': F.std, 'mean': F.mean}
class NDArrayType:
    is_ndarray = True
    __name__ = 'ndarray'
IP.BUILTINS['%ndarray'] = NDArrayType()

def multiply(a, b): return A.binop('*', as_arr(a) if not isnum(a) else a, b)
def ufunc(op): return lambda a, b: A.binop(op, a, b)
def cmpf(op): return lambda a, b: A.cmpop(op, a, b)

class ErrState:
    def __init__(self, **k): pass
    def _model_enter(self): return None

def make_numpy():
    d = {}
    for k in dir(F):
        v = getattr(F, k)
        if callable(v) and not k.startswith('_') and getattr(v, '__module__', '').endswith('npfun'): d[k] = v
    d.update(RENAME)
    lin = {k: getattr(F, k) for k in ('inv', 'pinv', 'solve', 'lstsq', 'eigh', 'eigvalsh', 'eigvals', 'eig', 'svd', 'slogdet', 'det', 'matrix_rank', 'cholesky',
                                      'matrix_power', 'norm', 'multi_dot')}
    lin['LinAlgError'] = A.LinAlgError
    d['linalg'] = Space('numpy.linalg', lin)
    rnd = {k: getattr(F, k) for k in ('randn', 'standard_normal', 'normal', 'uniform', 'rand', 'random_sample')}
    rnd['random'] = F.random_sample
    rnd['seed'] = lambda *a: None
    d['random'] = Space('numpy.random', rnd)
    nt = A.NPTYPES
    d.update({'float64': nt['real'], 'float_': nt['real'], 'double': nt['real'], 'complex128': nt['complex'], 'complex_': nt['complex'], 'cdouble': nt['complex'],
              'int64': nt['int'], 'int_': nt['int'], 'intp': nt['int'], 'int32': nt['int'], 'bool_': nt['bool'], 'object_': nt['obj']})
    for k in A.ABSTRACT: d[k] = F.Abstract(k)
    d.update({'pi': Num(T.PI, 'real'), 'e': Num(T.exp(ONE), 'real'), 'inf': Num(T.INF, 'real'), 'Inf': Num(T.INF, 'real'), 'infty': Num(T.INF, 'real'),
              'nan': Num(T.NAN, 'real'), 'newaxis': None, 'ndarray': IP.BUILTINS['%ndarray'], 'PINF': Num(T.INF, 'real'), 'NINF': Num(-T.INF, 'real'),
              'multiply': multiply, 'add': ufunc('+'), 'subtract': ufunc('-'), 'divide': ufunc('/'), 'true_divide': ufunc('/'), 'mod': ufunc('%'), 'remainder': ufunc('%'),
              'floor_divide': ufunc('//'), 'float_power': ufunc('**'), 'equal': cmpf('=='), 'not_equal': cmpf('!='), 'less': cmpf('<'), 'less_equal': cmpf('<='),
              'greater': cmpf('>'), 'greater_equal': cmpf('>='), 'logical_and': lambda a, b: A.boolop('and', a, b), 'logical_or': lambda a, b: A.boolop('or', a, b),
              'logical_not': A.logical_not, 'errstate': ErrState, 'finfo': finfo, 'isscalar': F.isscalar, 'copy': lambda a: as_arr(a).copy(),
              'ravel': lambda a, order='C': as_arr(a).ravel(order), 's_': SIndex(), 'r_': None, 'ndindex': ndindex, 'shares_memory': F.may_share_memory})
    d.pop('r_')
    return Space('numpy', {k: v for k, v in d.items() if v is not None or k == 'newaxis'})

def _abstract_by_name():
    try: F.Abstract('floating'); return True
    except Exception: return False

class SIndex:
    def _model_getitem(self, k): return k

def ndindex(*sh):
    if len(sh) == 1 and isinstance(sh[0], tuple): sh = sh[0]
    import itertools
    ns = [int_of(R.ctx.rw(parts(s)[0])) for s in sh]
    if None in ns: raise VerifierError('ndindex')
    return list(itertools.product(*[range(n) for n in ns]))

class finfo:
    def __init__(self, d):
        self.eps = Num(T.sym('eps', 'real', 'pos'), 'real')
    def _model_getattr(self, k, default=UNDEF):
        if k == 'eps': return self.eps
        raise VerifierError('finfo.' + k)

# --- scipy ---------------------------------------------------------------------------------------------------
def find_peaks(x, *a, **k):
    """ascending positions of the local maxima"""
    if a or k: raise VerifierError('find_peaks options')
    x = as_arr(x)
    if x.ndim != 1: raise A.exc('ValueError', '`x` must be a 1-D array')
    l = T.mk_lam(x.sh, x.ent())
    n = T.op('npeaks', (l,), (), (), 'int')
    return (mk((n,), 'int', lambda ix: T.op('peak', (l,), (), (ix[0],), 'int')), {})

def maximum_filter(x, size=None, **k):
    x = as_arr(x)
    l = T.mk_lam(x.sh, x.ent())
    s = parts(size)[0] if size is not None and not isinstance(size, (tuple, list)) else ZERO
    return mk(x.sh, x.sort, lambda ix: T.op('maxfilter', (l,), (s,), ix, x.sort))

def _npeaks_ax(a): return [mk_ge(P(a))]
def _peak_ax(a):
    lams = [x for x in a.args if isinstance(x, T.Lam)] or [x for y in a.args if isinstance(y, tuple) for x in y if isinstance(x, T.Lam)]
    n = lams[0].shape[0]
    return [mk_ge(P(a)), mk_ge(n - P(a) - 1)]
OPAX['npeaks'] = _npeaks_ax
OPAX['peak'] = _peak_ax

def sqrtm(a):
    a = as_arr(a)
    A_ = a
    l = F.mat_lam(a)
    return mk(a.sh, 'complex' if a.sort == 'complex' else 'real', lambda ix: T.op('sqrtm', (l,), (), ix, 'complex' if a.sort == 'complex' else 'real'))

def cdist(x, y, metric='euclidean'):
    x, y = as_arr(x), as_arr(y)
    if metric not in ('euclidean', 'sqeuclidean', 'cityblock'): raise VerifierError('cdist metric')
    if x.ndim != 2 or y.ndim != 2: raise A.exc('ValueError', 'XA must be a 2-dimensional array.')
    if not A.dims_equal(x.sh[1], y.sh[1]): raise A.exc('ValueError', 'XA and XB must have the same number of columns')
    e, f = x.ent(), y.ent()
    d = x.sh[1]
    def g(ix):
        v = fresh('s')
        df = e((ix[0], v)) - f((ix[1], v))
        if metric == 'cityblock': return psum(symatom(v), 0, d, T.absval(df))
        s = psum(symatom(v), 0, d, df * df)
        n = int_of(d)
        if n is not None:
            s = ZERO
            for k in range(n):
                df = e((ix[0], P(k))) - f((ix[1], P(k)))
                s = s + df * df
        return T.sqrt(s) if metric == 'euclidean' else s
    return mk((x.sh[0], y.sh[0]), 'real', g)

def toeplitz(c, r=None):
    c = as_arr(c).ravel()
    r = c.conj() if r is None else as_arr(r).ravel()
    e, f = c.ent(), r.ent()
    from .rt import join_sort
    return mk((c.sh[0], r.sh[0]), join_sort(c.sort, r.sort), lambda ix: ite(mk_ge(ix[0] - ix[1]), e((ix[0] - ix[1],)), f((ix[1] - ix[0],))))

class OptResult:
    def __init__(self, x, success): self.x, self.success = x, success
    def _model_getattr(self, k, default=UNDEF):
        if k == 'x': return self.x
        if k == 'success': return self.success
        raise VerifierError('OptimizeResult.' + k)
    def _model_getitem(self, k): return self._model_getattr(k)

def minimize(fun, x0, *args, **kw):
    if 'scipy.optimize.minimize' not in HOOKS: raise VerifierError('minimize without contract')
    x, ok = HOOKS['scipy.optimize.minimize'](fun, x0, args, kw)
    return OptResult(x, ok)

# --- cvxpy -----------------------------------------------------------------------------------------------------
class CvxVal:
    """expression: evaluated when the problem is solved"""
    def __init__(self, f, sh=None): self.f, self._sh = f, sh
    def val(self): return self.f()
    def __add__(s, o): return CvxVal(lambda: IP.binary('+', s.val(), cval(o)))
    def __radd__(s, o): return CvxVal(lambda: IP.binary('+', cval(o), s.val()))
    def __sub__(s, o): return CvxVal(lambda: IP.binary('-', s.val(), cval(o)))
    def __rsub__(s, o): return CvxVal(lambda: IP.binary('-', cval(o), s.val()))
    def __mul__(s, o): return CvxVal(lambda: cmul(s.val(), cval(o)))
    def __rmul__(s, o): return CvxVal(lambda: cmul(cval(o), s.val()))
    def __matmul__(s, o): return CvxVal(lambda: A.matmul(s.val(), cval(o)))
    def __rmatmul__(s, o): return CvxVal(lambda: A.matmul(cval(o), s.val()))
    def __truediv__(s, o): return CvxVal(lambda: IP.binary('/', s.val(), cval(o)))
    def __pow__(s, o): return CvxVal(lambda: IP.binary('**', s.val(), o))
    def __neg__(s): return CvxVal(lambda: -s.val())
    def __le__(s, o): return CvxCons(s, o, '<=')
    def __ge__(s, o): return CvxCons(s, o, '>=')
    def __eq__(s, o): return CvxCons(s, o, '==')
    def __hash__(s): return id(s)
    def _model_compare(s, op, o):
        if op not in ('<=', '>='): raise PyExc(NotImplementedError, ('Strict inequalities are not allowed.',))
        return CvxCons(s, o, op)
    def _model_getattr(self, k, default=UNDEF):
        if k == 'T': return CvxVal(lambda: A.transpose(self.val()))
        if k == 'H': return CvxVal(lambda: F.conj(A.transpose(self.val())))
        raise VerifierError('cvxpy expression.' + k)

def cmul(a, b):
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == 2 and b.ndim == 2: return A.matmul(a, b)
    return IP.binary('*', a, b)
def cval(o): return o.val() if isinstance(o, CvxVal) else o

class CvxCons:
    def __init__(self, a, b, op): self.a, self.b, self.op = a, b, op
    def values(self):
        """(op, difference) with difference >= 0 or == 0"""
        a, b = cval(self.a), cval(self.b)
        return (self.op, IP.binary('-', b, a) if self.op == '<=' else IP.binary('-', a, b))

class CvxLeaf(CvxVal):
    def __init__(self, shape, attrs, kind):
        self.kind, self.attrs = kind, attrs
        self.shp = () if shape is None or shape == () else (shape if isinstance(shape, tuple) else (shape,))
        self.value_ = None
        CvxVal.__init__(self, self.get)
    def get(self):
        if self.value_ is None: raise PyExc(ValueError, ('parameter without a value',))
        return self.value_
    def _model_getattr(self, k, default=UNDEF):
        if k == 'value': return self.value_
        if k == 'shape': return self.shp
        if k == 'size':
            r = 1
            for s in self.shp: r = r * s
            return r
        return CvxVal._model_getattr(self, k)
    def _model_setattr(self, k, v):
        if k != 'value': raise VerifierError('cvxpy leaf.' + k)
        v_sh = F.shape(v) if isinstance(v, (Arr,)) else () if isnum(v) else None
        if isinstance(v, Arr):
            if v.ndim != len(self.shp) or not all(R.decide(mk_eq(x - parts(y)[0])) for x, y in zip(v.sh, self.shp)): raise A.exc('ValueError', 'Invalid dimensions for Parameter value.')
            if v.sort == 'complex' and not self.attrs.get('complex'): raise A.exc('ValueError', 'Parameter value must be real.')
            v = v.copy()
        elif isnum(v):
            if self.shp: raise A.exc('ValueError', 'Invalid dimensions for Parameter value.')
            if self.attrs.get('nonneg') and not R.decide(mk_ge(parts(v)[0])): raise A.exc('ValueError', 'Parameter value must be nonnegative.')
        else: raise VerifierError('cvxpy parameter value')
        old = self.value_
        def undo(): self.value_ = old
        R.log('cvx', self, undo)
        self.value_ = v

def flat(v): return as_arr(v).ravel() if not isnum(v) else as_arr(v).reshape(1)
def c_norm(x, p=2, axis=None):
    def f():
        v = as_arr(cval(x))
        q = {'fro': 2, 'nuc': None, 'inf': None}.get(p, p) if isinstance(p, str) else p
        if axis is None:
            if v.ndim == 2 and q == 2 and p != 'fro':
                if not any(int_of(s) == 1 for s in v.sh): raise VerifierError('spectral norm')
            if q == 1: return F.sum_(F.absolute(v))
            if q == 2: return F.sqrt(F.sum_(F.absolute(v) ** 2))
            raise VerifierError('cvxpy norm')
        if q == 1: return F.sum_(F.absolute(v), axis=axis)
        if q == 2: return F.sqrt(F.sum_(F.absolute(v) ** 2, axis=axis))
        raise VerifierError('cvxpy norm')
    return CvxVal(f)

def c_mixed_norm(x, p=2, q=1):
    def f():
        v = as_arr(cval(x))
        if p == 2 and q == 1: return F.sum_(F.sqrt(F.sum_(F.absolute(v) ** 2, axis=1)))
        raise VerifierError('mixed_norm')
    return CvxVal(f)

class CvxProblem:
    def __init__(self, obj, cons=()):
        self.obj, self.cons = obj, list(cons)
        self.status = None
    def _model_getattr(self, k, default=UNDEF):
        if k == 'solve': return self.solve
        if k == 'status':
            return self.status
        if k == 'value': return self.val
        if k in ('constraints',): return self.cons
        if k == 'objective': return self.obj
        raise VerifierError('cvxpy problem.' + k)
    def solve(self, *a, **kw):
        """the objective and the constraints are evaluated at an arbitrary point, which then is the solution"""
        leaves = list(CVXVARS[-1]) if CVXVARS else []
        n = sum(r['kind'] == 'cvx' for r in RECORD)
        feas = []
        for k, v in enumerate(leaves):
            sh = tuple(parts(s)[0] for s in v.shp)
            c = v.attrs.get('complex')
            v.value_ = mk(sh, 'complex' if c else 'real', lambda ix, c=c, nm='cvxsol%d_%d' % (n, k): T.app(nm, ix, 'complex' if c else 'real'))
            if v.attrs.get('nonneg'): feas.append(('>=', v.value_))
        sense, obj = self.obj
        RECORD.append({'kind': 'cvx', 'sense': sense, 'objective': cval(obj), 'feasible': feas + [c.values() for c in self.cons], 'x': leaves[-1].value_ if leaves else None, 'kwargs': kw})
        if bool(mkbool(T.batom('cvxok%d' % n, ()))): self.status = 'optimal'
        else:
            self.status = 'optimal_inaccurate' if bool(mkbool(T.batom('cvxnear%d' % n, ()))) else 'infeasible'
        RECORD[-1]['status'] = self.status
        if self.status == 'infeasible':
            for v in leaves: v.value_ = None
        self.val = cval(obj) if self.status != 'infeasible' else None
        return self.val

CVXVARS = []
def c_variable(shape=(), **kw):
    v = CvxLeaf(shape, kw, 'var')
    if not CVXVARS: CVXVARS.append([])
    CVXVARS[-1].append(v)
    return v

def make_cvx():
    return Space('cvxpy', {
        'Parameter': lambda shape=(), **kw: CvxLeaf(shape, kw, 'par'), 'Variable': c_variable,
        'matmul': lambda a, b: CvxVal(lambda: A.matmul(cval(a), cval(b))), 'multiply': lambda a, b: CvxVal(lambda: IP.binary('*', cval(a), cval(b))),
        'sum_squares': lambda e: CvxVal(lambda: F.sum_(F.absolute(as_arr(cval(e))) ** 2)),
        'square': lambda e: CvxVal(lambda: IP.binary('**', cval(e), 2)),
        'norm1': lambda e: c_norm(e, 1), 'norm2': lambda e: c_norm(e, 2), 'norm': c_norm, 'pnorm': c_norm, 'mixed_norm': c_mixed_norm,
        'sum': lambda e, axis=None: CvxVal(lambda: F.sum_(as_arr(cval(e)), axis=axis)), 'abs': lambda e: CvxVal(lambda: F.absolute(as_arr(cval(e)))),
        'Minimize': lambda e: ('min', e), 'Maximize': lambda e: ('max', e), 'Problem': CvxProblem, 'OPTIMAL': 'optimal', 'OPTIMAL_INACCURATE': 'optimal_inaccurate'})

# --- matplotlib --------------------------------------------------------------------------------------------------
class Rec:
    """records every method call"""
    def __init__(self, name, lims=None): self._name, self._lims = name, lims
    def _model_getattr(self, k, default=UNDEF):
        if k.startswith('get_') and k.endswith('lim'): 
            def lim(*a, **kw):
                RECORD.append({'kind': 'call', 'on': self._name, 'name': k, 'args': a, 'kw': kw})
                if self._lims is not None: return self._lims
                v = fresh('lim', 'real'); w = fresh('lim', 'real')
                return (Num(v, 'real'), Num(w, 'real'))
            return lim
        def f(*a, **kw):
            r = Rec('%s.%s()' % (self._name, k))
            if k in ('xlim', 'ylim', 'zlim'): r = (Num(fresh('lim', 'real'), 'real'), Num(fresh('lim', 'real'), 'real'))
            RECORD.append({'kind': 'call', 'on': self._name, 'name': k, 'args': a, 'kw': kw, 'result': r})
            return r
        return f
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return self._model_getattr(k)
    def _model_truth(self): return True
    def _model_getitem(self, k): return Rec('%s[%s]' % (self._name, k))

# --- standard library ----------------------------------------------------------------------------------------------
def warn(msg, *a, **k): R.warnings.append(msg)

def copy_(x):
    if isinstance(x, Obj):
        f, _ = x._cls.lookup('__copy__')
        if f is not None: return IP.call(f, (x,), {})
        o = Obj(x._cls)
        o._attrs.update(x._attrs)
        return o
    if isinstance(x, Arr): return x.copy()
    if isinstance(x, list): return newlist(list(x))
    if isinstance(x, dict): return newlist(dict(x))
    return x

def deepcopy_(x, memo=None):
    memo = {} if memo is None else memo
    if id(x) in memo: return memo[id(x)]
    if isinstance(x, Obj):
        o = Obj(x._cls)
        memo[id(x)] = o
        for k, v in x._attrs.items(): o._attrs[k] = deepcopy_(v, memo)
        return o
    if isinstance(x, Arr):
        r = memo[id(x)] = x.copy()
        return r
    if isinstance(x, list): return newlist([deepcopy_(y, memo) for y in x])
    if isinstance(x, tuple): return tuple(deepcopy_(y, memo) for y in x)
    if isinstance(x, dict): return newlist({k: deepcopy_(v, memo) for k, v in x.items()})
    return x

def gcd(*xs):
    if all(isinstance(x, int) for x in xs): return _math.gcd(*xs)
    a, b = sorted([parts(x)[0] for x in xs], key=lambda p: p.id)
    return mknum(T.op('gcd', (), (a, b), (), 'int'), 'int')
OPAX['gcd'] = lambda a: [mk_ge(P(a) - 1)]

def mlog(x, *b):
    p, s = parts(x)
    if b: raise VerifierError('log base')
    if not R.ctx.prove(mk_gt(p)) and not R.decide(mk_gt(p)): raise A.exc('ValueError', 'math domain error')
    return Num(T.log(p), 'real')
def msqrt(x):
    p, s = parts(x)
    if not R.ctx.prove(mk_ge(p)) and not R.decide(mk_ge(p)): raise A.exc('ValueError', 'math domain error')
    return Num(T.sqrt(p), 'real')
def mceil(x):
    if isinstance(x, int): return x
    p, s = parts(x)
    if s == 'int': return x
    return mknum(-T.fn('floor', -p), 'int')
def mfloor(x):
    if isinstance(x, int): return x
    p, s = parts(x)
    if s == 'int': return x
    return mknum(T.fn('floor', p), 'int')
def mfun(f): return lambda x: Num(f(parts(x)[0]), 'real')

def make_math():
    return Space('math', {'gcd': gcd, 'log': mlog, 'sqrt': msqrt, 'ceil': mceil, 'floor': mfloor, 'pi': Num(T.PI, 'real'), 'inf': Num(T.INF, 'real'), 'nan': Num(T.NAN, 'real'),
                          'sin': mfun(T.sin), 'cos': mfun(T.cos), 'exp': mfun(T.exp), 'asin': mfun(T.arcsin), 'atan2': lambda y, x: Num(T.fn('arctan2', parts(y)[0], parts(x)[0]), 'real'),
                          'prod': mprod, 'fabs': IP.b_abs, 'isnan': lambda x: False, 'isinf': lambda x: IP.compare_(_ast.Eq(), IP.b_abs(x), Num(T.INF, 'real')), 'hypot': lambda a, b: msqrt(a * a + b * b),
                          'radians': lambda x: IP.binary('/', IP.binary('*', x, Num(T.PI, 'real')), 180), 'degrees': lambda x: IP.binary('/', IP.binary('*', x, 180), Num(T.PI, 'real'))})
import ast as _ast
def mprod(xs, start=1):
    r = start
    for x in IP.iter_native(xs): r = IP.binary('*', r, x)
    return r

class NTType:
    def __init__(self, name, fields): self.__name__, self.fields = name, fields
    def __call__(self, *a, **k):
        vals = list(a)
        for f in self.fields[len(a):]:
            if f not in k: raise PyExc(TypeError, ('missing argument %s' % f,))
            vals.append(k.pop(f))
        if k or len(vals) != len(self.fields): raise PyExc(TypeError, ('wrong arguments',))
        return NT(self, vals)
    def _model_instancecheck(self, o): return isinstance(o, NT) and o._t is self
class NT(tuple):
    def __new__(cls, t, vals):
        o = tuple.__new__(cls, vals)
        o._t = t
        return o
    def __getattr__(self, k):
        if k in self._t.fields: return self[self._t.fields.index(k)]
        raise AttributeError(k)
def namedtuple(name, fields, **k):
    if isinstance(fields, str): fields = fields.replace(',', ' ').split()
    return NTType(name, list(fields))

class EnumMember:
    def __init__(self, cls, name, value): self.cls, self.name, self.value = cls, name, value
    def __repr__(self): return '%s.%s' % (self.cls, self.name)
class EnumBase:
    """class hook for enum.Enum"""
    @staticmethod
    def class_hook(st, env):
        e = IP.Env(env, env.mod)
        for s in st.body: IP.exec_stmt(s, e)
        return EnumCls(st.name, {k: EnumMember(st.name, k, v) for k, v in e.vars.items() if not isinstance(v, (Func, IP.Prop, IP.Static)) and not k.startswith('_')})
class EnumCls:
    def __init__(self, name, members): self.__name__, self.members = name, members
    def _model_getattr(self, k, default=UNDEF):
        if k in self.members: return self.members[k]
        raise PyExc(AttributeError, (k,))
    def __getattr__(self, k):
        if k.startswith('_') or k == 'members': raise AttributeError(k)
        return self._model_getattr(k)
    def _model_getitem(self, k):
        if k in self.members: return self.members[k]
        raise PyExc(KeyError, (k,))
    def _model_iter(self): return list(self.members.values())
    def _model_instancecheck(self, o): return isinstance(o, EnumMember) and o.cls == self.__name__
    def __call__(self, v):
        for m in self.members.values():
            if IP.truth(IP.equal(m.value, v)): return m
        raise PyExc(ValueError, (v,))

class FactoryDict(dict):
    pass
def defaultdict(factory=None, *a):
    d = FactoryDict(*a)
    if factory is not None: d.factory = factory
    return newlist(d)

def make_itertools():
    import itertools as it
    def nat(f):
        def g(*xs, **k):
            return list(f(*[x if isinstance(x, int) else IP.iter_native(x) for x in xs], **k))
        return g
    def chain(*xs): 
        out = []
        for x in xs: out.extend(IP.iter_native(x))
        return newlist(out)
    c = Space('chain', {'from_iterable': lambda xs: chain(*IP.iter_native(xs))})
    class Chain:
        def __call__(self, *xs): return chain(*xs)
        def _model_getattr(self, k, default=UNDEF): return c._model_getattr(k)
    def count(start=0, step=1): raise VerifierError('itertools.count')
    return Space('itertools', {'product': nat(it.product), 'combinations': nat(it.combinations), 'permutations': nat(it.permutations), 'chain': Chain(), 'count': count,
                               'accumulate': lambda xs, f=None: accumulate(xs, f), 'repeat': lambda x, n: binary_rep(x, n), 'zip_longest': None,
                               'combinations_with_replacement': nat(it.combinations_with_replacement), 'starmap': lambda f, xs: newlist([IP.call(f, tuple(x), {}) for x in IP.iter_native(xs)])})
def binary_rep(x, n): return IP.binary('*', newlist([x]), n)
def accumulate(xs, f):
    out, acc = [], None
    for i, x in enumerate(IP.iter_native(xs)):
        acc = x if i == 0 else (IP.binary('+', acc, x) if f is None else IP.call(f, (acc, x), {}))
        out.append(acc)
    return newlist(out)

def make_functools():
    def reduce(f, xs, *init):
        items = list(IP.iter_native(xs))
        if init: acc = init[0]
        else:
            if not items: raise PyExc(TypeError, ('reduce() of empty iterable with no initial value',))
            acc = items.pop(0)
        for x in items: acc = IP.call(f, (acc, x), {})
        return acc
    def partial(f, *a, **k): return lambda *b, **kk: IP.call(f, a + b, {**k, **kk})
    return Space('functools', {'reduce': reduce, 'partial': partial, 'wraps': lambda f: (lambda g: g)})

def make_operator():
    d = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/', 'matmul': '@', 'mod': '%', 'floordiv': '//', 'pow': '**'}
    r = {k: (lambda a, b, o=o: IP.binary(o, a, b)) for k, o in d.items()}
    r['itemgetter'] = lambda *ks: (lambda o: IP.getitem_(o, ks[0]) if len(ks) == 1 else tuple(IP.getitem_(o, k) for k in ks))
    r['attrgetter'] = lambda n: (lambda o: IP.getattr_(o, n))
    return Space('operator', r)

class Number:
    @staticmethod
    def _model_instancecheck(o): return isnum(o)
class Iterable_:
    @staticmethod
    def _model_instancecheck(o): return isinstance(o, (list, tuple, dict, str, set, Arr, IP.SList, IP.GroupMap))
class Sequence_:
    @staticmethod
    def _model_instancecheck(o): return isinstance(o, (list, tuple, str, IP.SList, range))
class Integral:
    @staticmethod
    def _model_instancecheck(o): return isinstance(o, int) or isinstance(o, Num) and o.sort == 'int'

class Abc(IP.AbcBase): pass

def build():
    np = make_numpy()
    plt = Rec('plt')
    sp = {'scipy.signal': Space('scipy.signal', {'find_peaks': find_peaks}), 'scipy.ndimage': Space('scipy.ndimage', {'maximum_filter': maximum_filter}),
          'scipy.linalg': Space('scipy.linalg', dict(np._d['linalg']._d, sqrtm=sqrtm, toeplitz=toeplitz)), 'scipy.optimize': Space('scipy.optimize', {'minimize': minimize}),
          'scipy.spatial.distance': Space('scipy.spatial.distance', {'cdist': cdist})}
    sp['scipy.spatial'] = Space('scipy.spatial', {'distance': sp['scipy.spatial.distance'], 'distance_matrix': cdist})
    sp['scipy'] = Space('scipy', {k.split('.')[1]: v for k, v in sp.items() if k.count('.') == 1})
    mods = {'numpy': np, 'numpy.linalg': np._d['linalg'], 'numpy.random': np._d['random'], 'cvxpy': make_cvx(), 'matplotlib.pyplot': plt,
            'matplotlib': Space('matplotlib', {'pyplot': plt}), 'matplotlib.colors': Space('matplotlib.colors', {'LogNorm': lambda *a, **k: Rec('LogNorm'), 'Normalize': lambda *a, **k: Rec('Normalize')}),
            'mpl_toolkits.mplot3d': Space('mpl_toolkits.mplot3d', {'Axes3D': Rec('Axes3D')}), 'mpl_toolkits': Space('mpl_toolkits', {}),
            'warnings': Space('warnings', {'warn': warn, 'catch_warnings': ErrState, 'simplefilter': lambda *a, **k: None, 'filterwarnings': lambda *a, **k: None}),
            'copy': Space('copy', {'copy': copy_, 'deepcopy': deepcopy_}), 'math': make_math(),
            'abc': Space('abc', {'ABC': Abc, 'abstractmethod': lambda f: f, 'ABCMeta': Abc}),
            'collections': Space('collections', {'namedtuple': namedtuple, 'OrderedDict': IP.BUILTINS['dict'], 'defaultdict': defaultdict, 'abc': None}),
            'collections.abc': Space('collections.abc', {'Iterable': Iterable_, 'Sequence': Sequence_}),
            'enum': Space('enum', {'Enum': EnumBase, 'IntEnum': EnumBase, 'unique': lambda c: c, 'auto': lambda: object()}),
            'itertools': make_itertools(), 'functools': make_functools(), 'operator': make_operator(),
            'numbers': Space('numbers', {'Number': Number, 'Real': Number, 'Integral': Integral, 'Complex': Number}),
            'typing': Space('typing', {k: None for k in ()})}
    mods.update(sp)
    mods['numpy']._d['random'] = mods['numpy.random']
    def resolve(dotted):
        if dotted in mods: return mods[dotted]
        if dotted.split('.')[0] in ('typing', '__future__'): return Any_()
        raise VerifierError('import of %s' % dotted)
    return resolve

class Any_:
    def _model_getattr(self, k, default=UNDEF): return Any_()
    def _model_getitem(self, k): return Any_()

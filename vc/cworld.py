"""Concrete reading of a contract: the same contract evaluated on the real package (CPython, numpy) on sampled inputs.
Bounded: it is used to replay failed obligations and as a labelled stand-in, never counted as a proof."""
import os, sys, json, random, warnings, math, traceback, copy, itertools, importlib, zlib
import numpy as np

class Skip(Exception): pass
class Fail(Exception): pass

class Draws:
    def __init__(self): self.items = []

class Rec:
    def __init__(self, name, log): self.__dict__['_name'], self.__dict__['_log'] = name, log
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        def f(*a, **kw):
            r = Rec('%s.%s()' % (self._name, k), self._log)
            if k.startswith('get_') and k.endswith('lim') or k in ('xlim', 'ylim', 'zlim'): r = (0.0, 1.0)
            self._log.append({'kind': 'call', 'on': self._name, 'name': k, 'args': a, 'kw': kw, 'result': r})
            return r
        return f
    def __getitem__(self, k): return Rec('%s[%s]' % (self._name, k), self._log)

LOG = []
HOOK = {}
WARN = []
DRAWS = []

def install(repo):
    """import the real package from the working tree with recorders in place of the optimiser and of pyplot"""
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.path.insert(0, repo)
    import scipy.optimize as so
    real = so.minimize
    def minimize(fun, x0, *a, **kw):
        h = HOOK.get('scipy.optimize.minimize')
        if h is None: return real(fun, x0, *a, **kw)
        x, ok = h(fun, np.array(x0, copy=True), a, kw)
        return so.OptimizeResult(x=x, success=bool(ok))
    so.minimize = minimize
    import numpy.random as nr
    for k, kind in (('randn', 'randn'), ('standard_normal', 'randn'), ('uniform', 'uniform'), ('rand', 'uniform'), ('random_sample', 'uniform'), ('random', 'uniform')):
        f = getattr(nr, k)
        def g(*a, _f=f, _k=kind, _u=k == 'uniform', **kw):
            r = _f(*a, **kw)
            iv = () if _k == 'randn' else (0.0, 1.0) if not _u else ((a[0] if a else kw.get('low', 0.0)), (a[1] if len(a) > 1 else kw.get('high', 1.0)))
            DRAWS.append((_k, np.array(r) if np.ndim(r) else float(r), iv))
            return r
        setattr(nr, k, g)
    f = nr.normal
    def normal(loc=0.0, scale=1.0, size=None):
        r = nr.standard_normal(size)
        return loc + scale * r
    nr.normal = normal
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    for k in [k for k in dir(plt) if not k.startswith('_') and callable(getattr(plt, k)) and not isinstance(getattr(plt, k), type)]:
        if k in ('figure', 'subplots', 'subplot', 'gca', 'gcf', 'axes', 'plot', 'semilogy', 'ylim', 'xlim', 'scatter', 'stem', 'imshow', 'show', 'xlabel', 'ylabel', 'title', 'legend', 'grid', 'colorbar', 'contourf', 'pcolormesh', 'close', 'sca', 'setp'):
            def g(*a, _k=k, **kw): return getattr(Rec('plt', LOG), _k)(*a, **kw)
            setattr(plt, k, g)
    try:
        import cvxpy
        cvxsolve = cvxpy.Problem.solve
        def solve(self, *a, **kw):
            h = HOOK.get('cvxpy.solve')
            if h is None: return cvxsolve(self, *a, **kw)
            for v in self.variables():
                x = h[0](v.shape, v.is_complex())
                v.value = abs(x) if v.attributes.get('nonneg') else x
            LOG.append({'kind': 'cvx', 'sense': 'min' if type(self.objective).__name__ == 'Minimize' else 'max', 'objective': float(np.real(self.objective.expr.value)),
                        'feasible': all(np.all(c.value()) for c in self.constraints), 'x': [np.array(v.value) for v in self.variables()][-1], 'kwargs': kw})
            LOG[-1]['status'] = self._status = h[1]()
            if self._status == 'infeasible':
                for v in self.variables(): v.save_value(None)
            return self.objective.expr.value
        cvxpy.Problem.solve = solve
    except ImportError: pass
    import doatools
    assert os.path.realpath(doatools.__file__).startswith(os.path.realpath(repo)), doatools.__file__
    warnings.simplefilter('ignore')
    w0 = warnings.warn
    def warn(msg, *a, **kw): WARN.append(str(msg))
    warnings.warn = warn

LITS = {'int': [], 'float': []}
def harvest(repo):
    import ast, glob
    ints, fls = set(), set()
    for f in sorted(glob.glob(os.path.join(repo, 'doatools', '**', '*.py'), recursive=True)):
        if '/tests/' in f: continue
        try: t = ast.parse(open(f).read())
        except SyntaxError: continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant):
                if type(n.value) is int and 2 < n.value <= 40: ints.add(n.value)
                elif type(n.value) is float and abs(n.value) < 1e4: fls.add(n.value)
    LITS['int'] = sorted(ints)
    LITS['float'] = sorted(fls)

TOL = [1e-6]         # relative tolerance of the comparisons in the concrete reading
EXACT = {'C01', 'C05', 'C08', 'C09', 'C10', 'C11', 'C17'}     # no cancellation in what these compare

class ConWorld:
    symbolic = False
    np = np
    pi, j, inf = math.pi, 1j, float('inf')
    def __init__(self, seed, hint=None, big=False):
        self.rng = random.Random(seed)
        self.nrng = np.random.RandomState(seed & 0x7fffffff)
        np.random.seed((seed * 7919 + 13) & 0x7fffffff)
        self.hint = hint or {}
        self.vals = dict(self.hint.get('vals') or {})
        self.hpicks = dict(self.hint.get('picks') or {})
        self.inputs = {}
        self.fails = []
        self.checks = 0
        self.big = big
        LOG.clear(); HOOK.clear(); WARN.clear(); DRAWS.clear()

    # --- inputs
    def _rec(self, k, v): self.inputs[k] = v; return v
    def _int(self, name, lo, hi):
        if name in self.vals:
            try:
                v = int(float(self.vals[name]))
                if (lo is None or v >= lo) and (hi is None or v <= hi) and abs(v) <= 60: return self._rec(name, v)
            except (ValueError, TypeError, OverflowError): pass
        l = -4 if lo is None else int(lo)
        h = l + (5 if not self.big else 9) if hi is None else int(hi)
        if lo is None: h = max(h, 6)
        r = self.rng.random()
        if r < 0.15 and LITS['int'] and (hi is None or hi > 8):
            c = [x + d for x in LITS['int'] for d in (-1, 0, 1) if x <= (24 if self.big else 13) and x + d >= l and (hi is None or x + d <= hi)]
            if c: return self._rec(name, self.rng.choice(c))
        if r < 0.3: return self._rec(name, l if hi is None or self.rng.random() < .6 else h)
        if hi is not None and h - l > 12 and r < 0.75: h = l + 8
        return self._rec(name, self.rng.randint(l, h))
    def dim(self, name, lo=1, hi=None): return self._int(name, lo, hi)
    def int(self, name, lo=None, hi=None): return self._int(name, lo, hi)
    def scalar(self, name, lo=None, hi=None, pos=False, nonneg=False, closed=False, np=False):
        if name in self.vals:
            try:
                v = self.vals[name]
                v = float(eval(v.replace('?', ''), {'__builtins__': {}})) if isinstance(v, str) else float(v)
                if abs(v) < 1e6 and (lo is None or v >= lo) and (hi is None or v <= hi) and (v > 0 or not pos): return self._rec(name, v)
            except Exception: pass
        if pos and lo is None: lo = 0.05
        if nonneg and lo is None: lo, closed = 0.0, True
        l = -3.0 if lo is None else float(lo)
        h = (l + 4.0) if hi is None else float(hi)
        r = self.rng.random()
        if closed and r < 0.1: return self._rec(name, l if lo is not None else h)
        if closed and r < 0.2 and hi is not None: return self._rec(name, h)
        if r < 0.3:
            c = [x for x in [0.0, 0.5, 1.0, 2.0, -1.0] + LITS['float'] if l < x < h]
            if c: return self._rec(name, float(self.rng.choice(c)))
        return self._rec(name, l + (h - l) * (0.02 + 0.96 * self.rng.random()))
    def cscalar(self, name): return self._rec(name, complex(self.rng.gauss(0, 1), self.rng.gauss(0, 1)))
    def arr(self, name, shape, sort='real', lo=None, hi=None, closed=False, pos=False, nonneg=False, hermitian=False, tag=True, generic=False, spread=None, injective=False, spaced=False):
        if not isinstance(shape, tuple): shape = (shape,)
        g = self.nrng
        if pos: lo, hi = (0.05 if lo is None else lo), (4.0 if hi is None else hi)
        if nonneg: lo, hi = (0.0 if lo is None else lo), (4.0 if hi is None else hi)
        if sort == 'bool': a = g.rand(*shape) < .5
        elif sort == 'int': a = g.randint(-4 if lo is None else lo, (6 if hi is None else hi) + 1, size=shape)
        elif sort == 'complex':
            a = g.randn(*shape) + 1j * g.randn(*shape)
            if hermitian:
                n = shape[0]
                b = g.randn(n, 2 * n + 3) + 1j * g.randn(n, 2 * n + 3)
                a = b @ b.conj().T / (2 * n + 3)
                if spread: a = a + np.diag(np.arange(n))
                a = (a + a.conj().T) / 2
        elif hermitian:
            n = shape[0]
            b = g.randn(n, 2 * n + 3)
            a = b @ b.T / (2 * n + 3)
        elif lo is not None or hi is not None:
            l = -3.0 if lo is None else lo
            h = l + 4.0 if hi is None else hi
            a = l + (h - l) * (0.01 + 0.98 * g.rand(*shape))
            if not generic and closed and self.rng.random() < .2 and a.size: a.flat[self.rng.randrange(a.size)] = self.rng.choice([l, h] if hi is not None and lo is not None else [l if lo is not None else h])
        else: a = g.randn(*shape) * self.rng.choice([1.0, 1.0, 3.0])
        a = np.asarray(a)
        if not generic and not hermitian and a.size and sort in ('real', 'int', 'complex') and self.rng.random() < .2:
            k = self.rng.random()
            if k < .3 and a.size > 1: a.flat[-1] = a.flat[0]
            elif k < .5 and lo is None and hi is None and not pos: a.flat[self.rng.randrange(a.size)] = 0
            elif k < .7 and sort == 'real' and lo is None and hi is None and not pos: a = np.round(a)
            elif k < .85 and a.ndim == 1: a = np.sort(a)
            elif a.ndim == 1: a = np.sort(a)[::-1].copy()
        if spaced:       # well separated values
            n = a.size
            a = lo + (hi - lo) * (0.1 + 0.8 * (np.arange(n) + 0.5 + 0.4 * (g.rand(n) - 0.5)) / n)[g.permutation(n) if self.rng.random() < .5 else slice(None)]
        if injective: a = self.np.asarray(sorted(self.rng.sample(range(-5, 12), a.size), key=lambda x: self.rng.random() if self.rng.random() < .3 else x)).reshape(a.shape)
        self.inputs[name] = a
        return a.copy()
    def pick(self, name, options):
        options = list(options)
        k = self.hpicks.get(name)
        if k is None or k >= len(options): k = self.rng.randrange(len(options))
        self.inputs['pick:' + name] = k
        return options[k]
    def flag(self, name): return self.pick(name, [False, True])
    def assume(self, c):
        if not c: raise Skip()
    def case(self, c): return bool(c)
    def get(self, path):
        ps = path.split('.')
        for k in range(len(ps), 0, -1):
            try: m = importlib.import_module('.'.join(ps[:k]))
            except ModuleNotFoundError: continue
            for a in ps[k:]: m = getattr(m, a)
            return m
        raise ImportError(path)
    def call(self, f, *a, **kw): return f(*a, **kw)
    def attr(self, o, k): return getattr(o, k)
    def setattr(self, o, k, v): setattr(o, k, v)
    def list(self, *xs): return list(xs)
    def dict(self, d): return dict(d)
    def seq(self, n, f): return [f(i) for i in range(n)]

    # --- terms
    def at(self, a, *ix):
        for i in ix:
            if i < 0: raise IndexError('negative index in a contract')
        if isinstance(a, (list, tuple)): return self.at(a[ix[0]], *ix[1:]) if len(ix) > 1 else a[ix[0]]
        if not ix: return a if np.isscalar(a) else a[()]
        return a[ix] if isinstance(a, np.ndarray) else a[ix[0]]
    def mat(self, shape, f, sort=None):
        if not isinstance(shape, tuple): shape = (shape,)
        vals = [f(*ix) for ix in itertools.product(*[range(s) for s in shape])]
        a = np.array(vals) if vals else np.zeros(0)
        if any(isinstance(v, complex) or np.iscomplexobj(v) for v in vals): a = a.astype(complex)
        if not vals and sort == 'complex': a = a.astype(complex)
        return a.reshape(shape)
    def sum(self, n, f):
        r = 0
        for i in range(n): r = r + f(i)
        return r
    def prod(self, n, f):
        r = 1
        for i in range(n): r = r * f(i)
        return r
    def ite(self, c, a, b): return a if c else b
    def ind(self, c): return 1 if c else 0
    def exp(self, x): return np.exp(x)
    def sin(self, x): return np.sin(x)
    def cos(self, x): return np.cos(x)
    def sqrt(self, x): return np.sqrt(x)
    def log(self, x): return np.log(x)
    def arcsin(self, x): return np.arcsin(x)
    def angle(self, x): return np.angle(x)
    def conj(self, x): return np.conj(x)
    def re(self, x): return np.real(x)
    def im(self, x): return np.imag(x)
    def abs(self, x): return abs(x)
    def abs2(self, x): return np.real(x * np.conj(x))
    def eq_(self, a, b): return a == b
    def and_(self, *c): return all(c)
    def or_(self, *c): return any(c)
    def not_(self, c): return not c
    def forall(self, n, f): return all(f(i) for i in range(n))
    def exists(self, n, f): return any(f(i) for i in range(n))
    def gcd(self, a, b): return math.gcd(a, b)
    def distinct_values(self, a, top=False, low=False):
        """skip inputs where a choice by value is not unique"""
        b = np.sort(np.asarray(a).ravel())
        d = np.diff(b)
        if top: d = d[-1:]
        if low: d = d[:1]
        if (d < 1e-9 * (1 + abs(b[-1:]).sum())).any(): raise Skip()
    def lib(self, name, *a, **kw): return self.get(name)(*a, **kw)
    def len(self, x): return len(x)
    def max(self, xs): return max(xs)
    def positions(self, n, f): return [i for i in range(n) if f(i)]
    def distinct(self, n, f): return np.array(sorted({f(i) for i in range(n)}))
    def isinstance(self, o, t): return isinstance(o, t)
    def shape(self, x): return np.shape(x)
    def index(self, a, k): return a[k]

    # --- obligations
    def _ob(self, name, ok, detail=''):
        self.checks += 1
        if not ok: self.fails.append((name, str(detail)[:1200]))
        return ok
    def true(self, name, c): return self._ob(name, bool(c), 'condition is False')
    def eq(self, name, a, b, tol=None):
        ok, why = self._same(a, b, tol or TOL[0])
        return self._ob(name, ok, why)
    def _same(self, a, b, tol):
        if isinstance(b, np.ndarray) or isinstance(a, np.ndarray):
            if a is None or b is None or isinstance(a, (list, tuple, str)): return False, '%s instead of %s' % (type(a).__name__, type(b).__name__)
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape: return False, 'shape %s instead of %s' % (a.shape, b.shape)
            if a.size == 0: return True, ''
            if a.dtype == object or b.dtype == object:
                for x, y in zip(a.flat, b.flat):
                    r = self._same(x, y, tol)
                    if not r[0]: return r
                return True, ''
            if (a.dtype == bool) != (b.dtype == bool): return False, 'dtype %s instead of %s' % (a.dtype, b.dtype)
            if a.dtype == bool: return bool(np.array_equal(a, b)), 'got %s expected %s' % (a, b)
            fa, fb = np.isfinite(a), np.isfinite(b)
            if not np.array_equal(fa, fb): return False, 'got %s expected %s' % (a, b)
            if not fb.all() and not np.array_equal(np.nan_to_num(a[~fa]), np.nan_to_num(b[~fb])): return False, 'got %s expected %s' % (a, b)
            if not fb.any(): return True, ''
            sc = max(1e-3, float(np.max(np.abs(b[fb]))))
            d = np.abs(a[fa].astype(complex) - b[fb])
            if d.max() <= tol * sc: return True, ''
            return False, 'got %s expected %s (max difference %.3g)' % (np.array2string(a, threshold=30), np.array2string(b, threshold=30), d.max())
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) and not (isinstance(a, list) and isinstance(b, list)): return False, '%s instead of %s' % (type(a).__name__, type(b).__name__)
            if len(a) != len(b): return False, 'length %d instead of %d' % (len(a), len(b))
            for k, (x, y) in enumerate(zip(a, b)):
                ok, why = self._same(x, y, tol)
                if not ok: return ok, '[%d] %s' % (k, why)
            return True, ''
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b): return False, 'keys %r instead of %r' % (list(a), list(b))
            for k in a:
                ok, why = self._same(a[k], b[k], tol)
                if not ok: return ok, '[%r] %s' % (k, why)
            return True, ''
        num = (int, float, complex, np.number, np.bool_)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)): return bool(a) == bool(b), 'got %r expected %r' % (a, b)
            a, b = complex(a), complex(b)
            if not np.isfinite(b): return (a == b or (np.isnan(a) and np.isnan(b))), 'got %r expected %r' % (a, b)
            if not np.isfinite(a): return False, 'got %r expected %r' % (a, b)
            return abs(a - b) <= tol * max(1e-3, abs(b)), 'got %r expected %r' % (a, b)
        if a is b: return True, ''
        try: return bool(a == b), 'got %r expected %r' % (a, b)
        except Exception: return False, 'got %r expected %r' % (a, b)
    def all(self, name, shape, f):
        if not isinstance(shape, tuple): shape = (shape,)
        for ix in itertools.product(*[range(s) for s in shape]):
            if not f(*ix): return self._ob(name, False, 'fails at %s' % (ix,))
        return self._ob(name, True)
    def is_(self, name, a, b): return self._ob(name, a is b, '%r is not %r' % (a, b))
    def raises(self, name, exc, f):
        try: r = f()
        except (Skip, Fail): raise
        except Exception as e: return self._ob(name, isinstance(e, exc), 'raised %s: %s instead of %s' % (type(e).__name__, e, exc.__name__))
        return self._ob(name, False, 'no %s raised (returned %r)' % (exc.__name__, r))
    def trying(self, f):
        try: return f(), None
        except (Skip, Fail): raise
        except Exception as e: return None, type(e).__name__

    # --- frames
    def frame(self, **roots):
        seen = {}
        snaps = []
        def walk(path, o):
            if id(o) in seen: return
            seen[id(o)] = o
            if isinstance(o, np.ndarray): snaps.append(('arr', path, o, o.copy()))
            elif isinstance(o, (list, dict)):
                snaps.append(('list' if isinstance(o, list) else 'dict', path, o, copy.copy(o)))
                for k, v in (enumerate(o) if isinstance(o, list) else o.items()): walk('%s[%r]' % (path, k), v)
            elif isinstance(o, tuple):
                for k, v in enumerate(o): walk('%s[%d]' % (path, k), v)
            elif type(o).__module__.startswith('doatools') and hasattr(o, '__dict__'):
                snaps.append(('obj', path, o, dict(o.__dict__)))
                for k, v in o.__dict__.items(): walk('%s.%s' % (path, k), v)
        for k, v in roots.items(): walk(k, v)
        return snaps
    def unchanged(self, name, snaps):
        def same(x, y):
            if x is y: return True
            if isinstance(x, (np.ndarray, list, dict)) or isinstance(y, (np.ndarray, list, dict)): return False
            try: return bool(x == y)
            except Exception: return False
        for s in snaps:
            k, path, o, old = s
            if k == 'arr':
                if o.shape != old.shape or not np.array_equal(o, old, equal_nan=old.dtype.kind in 'fc'): return self._ob(name, False, 'content of %s changed' % path)
            elif k == 'obj':
                for a, v in old.items():
                    if a not in o.__dict__: return self._ob(name, False, '%s.%s deleted' % (path, a))
                    if v is not None and not same(o.__dict__[a], v): return self._ob(name, False, '%s.%s changed' % (path, a))
            else:
                if len(o) != len(old): return self._ob(name, False, '%s changed' % path)
                for a in (range(len(old)) if k == 'list' else old):
                    if k == 'dict' and a not in o or not same(o[a], old[a]): return self._ob(name, False, '%s[%r] changed' % (path, a))
        return self._ob(name, True)
    def stores(self, o, out=None, seen=None):
        out = [] if out is None else out
        seen = set() if seen is None else seen
        if id(o) in seen: return out
        seen.add(id(o))
        if isinstance(o, np.ndarray): out.append(o)
        elif isinstance(o, (list, dict)):
            out.append(o)
            for v in (o if isinstance(o, list) else o.values()): self.stores(v, out, seen)
        elif isinstance(o, tuple):
            for v in o: self.stores(v, out, seen)
        elif type(o).__module__.startswith('doatools') and hasattr(o, '__dict__'):
            for v in o.__dict__.values(): self.stores(v, out, seen)
        return out
    def disjoint(self, name, a, b):
        for x in self.stores(a):
            for y in self.stores(b):
                if x is y and not (isinstance(x, np.ndarray) and x.size == 0) or (isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and np.shares_memory(x, y)):
                    return self._ob(name, False, 'shared storage')
        return self._ob(name, True)
    def scribble(self, x):
        if isinstance(x, list): x.clear()
        else: x[...] = 77
    def warned(self): return len(WARN)
    def draws(self): return list(DRAWS)
    def contract(self, qualname, f): pass
    def hook(self, name, f): HOOK[name] = f
    def records(self): return list(LOG)
    def use_solver(self):
        """solving a convex problem records it at a random point, which is then returned as its solution"""
        def point(sh, cplx):
            x = self.nrng.randn(*sh) * self.rng.choice([.1, 1, 2]) + (1j * self.nrng.randn(*sh) if cplx else 0)
            return abs(x) if not cplx and self.rng.random() < .6 else x
        HOOK['cvxpy.solve'] = (point, lambda: self.rng.choice(['optimal', 'optimal', 'optimal_inaccurate', 'infeasible']))
    def solves(self): return [r for r in LOG if r['kind'] == 'cvx']
    def feasible(self, r): return r['feasible']
    def agrees(self, a, b): return np.shape(a) == np.shape(b) and bool(np.allclose(a, b))
    def iff(self, name, a, b): return self._ob(name, bool(a) == bool(b), '%s, but %s' % (bool(a), bool(b)))
    def recorder(self, name='ax', lims=None): return Rec(name, LOG)
    def opaque(self, name, fn): return fn

def show(v):
    if isinstance(v, np.ndarray): return np.array2string(v, threshold=60, precision=17)
    return repr(v)

def run_case(case, seed, hint=None, big=False):
    """-> ('ok', checks) | ('skip', 0) | ('fail', [(obligation, detail)], inputs)"""
    w = ConWorld(seed, hint, big)
    old = np.seterr(all='ignore')
    try:
        try: case(w)
        except Skip:
            if not w.fails: return ('skip', 0)
        except Fail: pass
        except Exception as e:
            if type(e).__name__ == 'Stop': pass
            else:
                tb = traceback.extract_tb(e.__traceback__)
                inrepo = [t for t in tb if '/doatools/' in t.filename]
                w.fails.append(('no unexpected exception', '%s: %s at %s' % (type(e).__name__, e, ['%s:%d' % (t.filename.split('/')[-1], t.lineno) for t in (inrepo or tb)[-3:]])))
    finally: np.seterr(**old)
    if w.fails: return ('fail', w.fails, {k: show(v) for k, v in w.inputs.items()})
    return ('ok', w.checks)

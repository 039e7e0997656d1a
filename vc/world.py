"""Symbolic reading of a contract: every obligation is generated from the current source and discharged by the prover."""
import time, sys, traceback
from . import terms as T, prove, rt, interp as IP, nparr as A, npfun as F, models as M
from .terms import P, ZERO, ONE, TRUE, fresh, mk_ge, mk_gt, mk_eq, mk_not, mk_and, mk_or, int_of, VerifierError, psum, symatom
from .rt import R, Num, SBool, mknum, mkbool, parts, isnum, cond_of, PyExc, PathEnd
from .nparr import Arr, FArr, as_arr
from .seq import SList, SRange, GroupMap, FilterList, length_of

class Stop(Exception): pass
class NotProved(Exception): pass

def reset():
    R.ctx = prove.Ctx()
    R.pos, R.pending, R.journal, R.local = 0, [], None, None
    R.warnings, R.draws = [], {}
    M.RECORD.clear(); M.CVXVARS.clear(); M.HOOKS.clear()
    A.MUTATED.clear()
    prove.ELEMAX.clear(); prove.SYMAX.clear(); T.SIGNS.clear(); T.HERMITIAN.clear(); T.SYMMETRIC.clear(); T.INJECTIVE.clear()
    prove.TR.reset()
    prove._SQ.clear()

class SymWorld:
    symbolic = True
    pi = Num(T.PI, 'real')
    j = Num(T.I, 'complex')
    inf = Num(T.INF, 'real')

    def __init__(self, pkg, np, bound=None):
        self.pkg, self.np, self.bound = pkg, np, bound
        self.obls = []          # (name, status, detail)
        self.picks = {}
        self.dims = {}
        self.nops = 0

    # --- inputs ---------------------------------------------------------------------------------------
    def dim(self, name, lo=1, hi=None):
        if self.bound is not None:
            b = self.bound.get(name)
            if b is None: b = self.bound['*'](name, lo, hi)
            self.dims[name] = b
            return b
        x = T.sym(name, 'int', 'pos' if isinstance(lo, int) and lo >= 1 else 'nonneg' if lo == 0 else None)
        self.dims[name] = x
        if lo is not None: R.assume(mk_ge(x - parts(lo)[0]))
        if hi is not None: R.assume(mk_ge(parts(hi)[0] - x))
        return mknum(x, 'int')
    def ghost(self, name, lo=None):
        x = fresh(name)
        if lo is not None: R.assume(mk_ge(x - lo))
        return mknum(x, 'int')
    def int(self, name, lo=None, hi=None):
        if self.bound is not None and (lo is not None or hi is not None): return self.dim(name, 0 if lo is None else lo, hi)
        x = T.sym(name, 'int')
        self.dims[name] = x
        if lo is not None: R.assume(mk_ge(x - parts(lo)[0]))
        if hi is not None: R.assume(mk_ge(parts(hi)[0] - x))
        return mknum(x, 'int')
    def scalar(self, name, lo=None, hi=None, pos=False, nonneg=False, closed=False, np=False):
        x = T.sym(name, 'real', 'pos' if pos else 'nonneg' if nonneg else None)
        self.dims[name] = x
        g = mk_ge if closed else mk_gt
        if lo is not None: R.assume(g(x - parts(lo)[0]))
        if hi is not None: R.assume(g(parts(hi)[0] - x))
        return Num(x, 'real', np)
    def cscalar(self, name): return Num(T.app(name, (), 'complex'), 'complex')
    def arr(self, name, shape, sort='real', lo=None, hi=None, closed=False, pos=False, nonneg=False, hermitian=False, tag=True, generic=False, spread=None, injective=False, spaced=False):
        if injective: T.INJECTIVE.add(name)
        if not isinstance(shape, tuple): shape = (shape,)
        sh = tuple(A.dimp(s) for s in shape)
        if hermitian:
            (T.HERMITIAN if sort == 'complex' else T.SYMMETRIC).add(name)
        if pos: T.SIGNS[name] = 'pos'
        elif nonneg: T.SIGNS[name] = 'nonneg'
        if lo is not None or hi is not None:
            g = mk_ge if closed else mk_gt
            def ax(ix, name=name):
                e = T.app(name, ix, sort)
                cs = []
                if lo is not None: cs.append(g(e - parts(lo)[0]))
                if hi is not None: cs.append(g(parts(hi)[0] - e))
                return cs
            prove.ELEMAX[name] = ax
        return A.named(name, sh, sort, name if tag else None)
    def pick(self, name, options):
        options = list(options)
        if self.bound is not None and name in self.bound.get('picks', ()):
            k = self.bound['picks'][name]
            self.picks[name] = k
            return options[k]
        for k in range(len(options) - 1):
            if R.decide(T.batom('pick.%s.%d' % (name, k), ())):
                self.picks[name] = k
                return options[k]
        self.picks[name] = len(options) - 1
        return options[-1]
    def flag(self, name): return self.pick(name, [False, True])
    def assume(self, c): R.assume(cond_of(c))
    def case(self, c): return bool(mkbool(cond_of(c)))
    def get(self, path):
        parts_ = path.split('.')
        for k in range(len(parts_), 0, -1):
            try: m = self.pkg.import_('.'.join(parts_[:k]))
            except PyExc as e:
                if e.cls is not ImportError: raise
                continue
            except VerifierError:
                if k > 1: continue
                raise
            for a in parts_[k:]: m = IP.getattr_(m, a)
            return m
        raise PyExc(ImportError, (path,))
    def call(self, f, *a, **kw): return IP.call(f, a, kw)
    def attr(self, o, k): return IP.getattr_(o, k)
    def setattr(self, o, k, v): IP.setattr_(o, k, v)
    def list(self, *xs): return IP.newlist(list(xs))
    def dict(self, d): return IP.newlist(dict(d))
    def seq(self, n, f):
        """list f(0), ..., f(n-1)"""
        n = parts(n)[0]
        k = int_of(n)
        if k is not None: return IP.newlist([f(i) for i in range(k)])
        return SList(mknum(n, 'int'), f)

    # --- terms -----------------------------------------------------------------------------------------
    def at(self, a, *ix):
        if isinstance(a, (list, tuple)):
            i = ix[0] if isinstance(ix[0], int) else int_of(R.ctx.rw(parts(ix[0])[0]))
            if i is not None: v = a[i]
            elif all(isnum(x) for x in a): v = Num(A.pick([parts(x)[0] for x in a], parts(ix[0])[0]), rt.join_sort(*[parts(x)[1] for x in a]))
            elif all(isinstance(x, Arr) for x in a) and len(ix) > 1: return Num(A.pick([parts(self.at(x, *ix[1:]))[0] for x in a], parts(ix[0])[0]), a[0].sort)
            else: raise VerifierError('symbolic index into a list')
            return self.at(v, *ix[1:]) if len(ix) > 1 else v
        if isinstance(a, SList): return a.get(ix[0]) if len(ix) == 1 else self.at(a.get(ix[0]), *ix[1:])
        if isinstance(a, SRange): return a.get(ix[0])
        if isnum(a) and not ix: return a
        a = as_arr(a)
        v = a.at(*[parts(i)[0] for i in ix])
        if isinstance(v, T.Cond): return SBool(v)
        return Num(v, a.sort, True)
    def mat(self, shape, f, sort=None):
        if not isinstance(shape, tuple): shape = (shape,)
        sh = tuple(parts(s)[0] for s in shape)      # the contract states its shapes under the ranges in force
        if sort is None:
            v = f(*[0 for _ in sh])
            sort = 'bool' if isinstance(v, (bool, SBool)) else parts(v)[1]
        if sort == 'bool': return A.mk(sh, 'bool', lambda ix: cond_of(f(*[mknum(i, 'int') for i in ix])))
        return A.mk(sh, sort, lambda ix: parts(f(*[mknum(i, 'int') for i in ix]))[0])
    def sum(self, n, f):
        n = parts(n)[0]
        k = int_of(n)
        if k is not None and k <= 64:
            r = 0
            for i in range(k): r = r + f(i)
            return r
        v = fresh('s')
        b = f(mknum(v, 'int'))
        p, s = parts(b)
        return Num(psum(symatom(v), 0, n, p), 'int' if s == 'bool' else s)
    def prod(self, n, f):
        n = parts(n)[0]
        k = int_of(n)
        if k is not None:
            r = 1
            for i in range(k): r = r * f(i)
            return r
        l = T.mk_lam((n,), lambda t: parts(f(mknum(t[0], 'int')))[0])
        return Num(T.op('prod', (l,), (), (), 'real'), 'real')
    def ite(self, c, a, b):
        c = cond_of(c)
        d = R.ctx.decide(c)
        if d is not None: return a if d else b
        (p, s), (q, t) = parts(a), parts(b)
        return Num(T.ite(c, p, q), rt.join_sort(s, t))
    def pred(self, name, *ix): return mkbool(T.batom(name, tuple(parts(i)[0] for i in ix)))
    def ind(self, c): return Num(T.ind(cond_of(c)), 'int')
    def _f(f):
        def g(self, x):
            if not isnum(x): raise VerifierError('scalar function of %r' % (x,))
            p, s = parts(x)
            return Num(f(p), 'complex' if s == 'complex' else 'real')
        return g
    exp, sin, cos, sqrt, log, arcsin = map(_f, (T.exp, T.sin, T.cos, T.sqrt, T.log, T.arcsin))
    def conj(self, x): p, s = parts(x); return Num(T.conj(p), s)
    def angle(self, x): return Num(T.angle(parts(x)[0]), 'real')
    def re(self, x): p, s = parts(x); return Num(T.real(p), 'real' if s == 'complex' else s)
    def im(self, x): p, s = parts(x); return Num(T.imag(p), 'real' if s == 'complex' else s)
    def abs(self, x): return rt.num_abs(x)
    def abs2(self, x): return self.re(x * self.conj(x))
    def eq_(self, a, b): return mkbool(mk_eq(parts(a)[0] - parts(b)[0]))
    def and_(self, *c): return mkbool(mk_and(*[cond_of(x) for x in c]))
    def or_(self, *c): return mkbool(mk_or(*[cond_of(x) for x in c]))
    def not_(self, c): return mkbool(mk_not(cond_of(c)))
    def forall(self, n, f):
        v = fresh('q')
        return mkbool(T.mk_all(symatom(v), ZERO, parts(n)[0], cond_of(f(mknum(v, 'int')))))
    def exists(self, n, f):
        v = fresh('q')
        return mkbool(T.mk_ex(symatom(v), ZERO, parts(n)[0], cond_of(f(mknum(v, 'int')))))
    def gcd(self, a, b): return self.call(self.pkg.import_('math').gcd, a, b)
    def distinct_values(self, a, top=False, low=False): pass       # concrete inputs with ties are skipped
    def unsupported(self, msg): raise VerifierError(msg)
    def error(self, cls, *a): return PyExc(cls, a)
    def ufun(self, name, params, *ix, sort='complex', ax=None):
        """uninterpreted function of numbers and indices; ax(value, params): what its contract says about the value"""
        if ax is not None:
            def f(a):
                s = lambda x: Num(x, 'real')
                return [cond_of(c) for c in ax(s(P(a)), [s(x) for x in a.args[1]])]
            prove.OPAX['u_' + name] = f
        return Num(T.op('u_' + name, (), tuple(parts(x)[0] for x in params), tuple(parts(i)[0] for i in ix), sort), sort)
    def lib(self, name, *a, **kw):
        """a library function used in a specification, e.g. 'numpy.linalg.eigh'"""
        return IP.call(self.get(name), a, kw)
    def len(self, x): return IP.len_(x)
    def max(self, xs):
        r = xs[0]
        for y in xs[1:]: r = mknum(rt.smax(parts(r)[0], parts(y)[0]), 'real')
        return r
    def positions(self, n, f):
        """ascending list of the i < n with f(i)"""
        n = parts(n)[0]
        k = int_of(n)
        if k is not None and k <= 16: return IP.newlist([i for i in range(k) if R.decide(cond_of(f(i)))])
        return FilterList(n, lambda i: cond_of(f(mknum(i, 'int'))))
    def distinct(self, n, f):
        """ascending array of the distinct values f(0), ..., f(n-1) (integers)"""
        k = int_of(parts(n)[0])
        if k is not None:
            vs = [int_of(parts(f(i))[0]) for i in range(k)]
            if all(v is not None for v in vs): return as_arr(sorted(set(vs)))
        g = GroupMap(parts(n)[0], lambda i: parts(f(mknum(i, 'int')))[0])
        k = g.keys().sorted()
        return A.mk((parts(k.length())[0],), 'int', lambda ix: parts(k.get(mknum(ix[0], 'int')))[0])
    def isinstance(self, o, t): return IP.isinstance_(o, t)
    def shape(self, x): return as_arr(x).shape
    def index(self, a, k): return IP.getitem_(a, k)

    # --- obligations -----------------------------------------------------------------------------------------
    def _ob(self, name, ok, detail=''):
        self.obls.append((name, 'ok' if ok else 'fail', '' if ok else str(detail)[:1500], None if ok else self.hint()))
        return ok
    def hint(self, extra=TRUE):
        """model of the path condition, as named input values"""
        h = {'picks': dict(self.picks), 'vals': {}}
        m = None
        try:
            cs = [mk_ge(P(6) - v) for v in self.dims.values() if isinstance(v, T.Poly) and T.all_int(v)]
            ctx = R.ctx
            m = ctx.model(mk_and(*cs)) or ctx.model()
        except Exception: pass
        for k, v in self.dims.items():
            if isinstance(v, int): h['vals'][k] = v
            elif m and k in m: h['vals'][k] = m[k]
        return h
    def true(self, name, c):
        if isinstance(c, bool): return self._ob(name, c, 'condition is False')
        c = cond_of(c)
        return self._ob(name, R.ctx.prove(c), 'not proved: %s' % c)
    def _zero(self, D):
        return prove.prove_zero(D, R.ctx)
    def eq(self, name, a, b, tol=None):
        try: ok, why = self._same(a, b)
        except VerifierError as e:
            self.obls.append((name, 'unsupported', str(e)[:500], self.hint()))
            return False
        return self._ob(name, ok, why)
    def _same(self, a, b):
        if isinstance(a, (SList, SRange, FArr, GroupMap)) or isinstance(b, (SList, SRange, FArr, GroupMap)):
            if isinstance(a, FilterList) and isinstance(b, FilterList):
                if not self._zero(a.N - b.N): return False, 'range of positions differs'
                v = fresh('x')
                def g():
                    if R.ctx.infeasible(): return True
                    x, y = a.c(v), b.c(v)
                    return x is y or R.ctx.prove(mk_or(mk_and(x, y), mk_and(mk_not(x), mk_not(y))))
                return self._scoped([mk_ge(v), mk_ge(a.N - 1 - v)], g), 'positions differ'
            if type(a) is type(b) and hasattr(a, 'same'): return a.same(b), 'lists differ'
            if isinstance(a, FArr) and isinstance(b, FArr): return A.same_sel(a, b) and self._same_farr(a, b), 'selections differ'
            if isinstance(a, FArr) or isinstance(b, FArr):
                if hasattr(a, 'as_farr'): return self._same(a.as_farr(), b)
                if hasattr(b, 'as_farr'): return self._same(a, b.as_farr())
            return self._same_seq(a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (list, tuple)) or a is None: return False, 'not an array: %r' % (a,)
            if isinstance(b, (list, tuple)): b = as_arr(b)
            if b is None or isinstance(b, str): return False, 'array instead of %r' % (b,)
            return self._same_arr(as_arr(a), as_arr(b))
        if isinstance(a, (SBool, bool)) or isinstance(b, (SBool, bool)):
            if not isinstance(a, (SBool, bool, Num)) or not isinstance(b, (SBool, bool, Num)): return False, '%r is not %r' % (a, b)
            if isinstance(a, bool) and isinstance(b, bool): return a == b, '%r != %r' % (a, b)
            x, y = cond_of(a), cond_of(b)
            return R.ctx.prove(mk_or(mk_and(x, y), mk_and(mk_not(x), mk_not(y)))), '%s <> %s' % (x, y)
        if isnum(a) and isnum(b):
            D = parts(a)[0] - parts(b)[0]
            return self._zero(D), 'residual: %s' % (D if len(D.terms) < 30 else 'large')
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b): return False, '%s instead of %s' % (type(a).__name__, type(b).__name__)
            if len(a) != len(b): return False, 'length %d instead of %d' % (len(a), len(b))
            for k, (x, y) in enumerate(zip(a, b)):
                ok, why = self._same(x, y)
                if not ok: return False, '[%d] %s' % (k, why)
            return True, ''
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b): return False, 'keys %r instead of %r' % (list(a), list(b))
            for k in a:
                ok, why = self._same(a[k], b[k])
                if not ok: return False, '[%r] %s' % (k, why)
            return True, ''
        if a is b: return True, ''
        r = IP.equal(a, b)
        if isinstance(r, SBool): return R.ctx.prove(r.c), 'not equal'
        return bool(r), '%r is not %r' % (a, b)
    def _same_farr(self, a, b):
        v = fresh('i')
        with_ = self._scoped([mk_ge(v), mk_ge(a.n - 1 - v), a.c(v)], lambda: self._zero(a.e(v) - b.e(v)))
        return with_
    def _scoped(self, cs, f):
        mk = R.ctx.mark()
        try:
            for c in cs: R.ctx.add(c)
            return f()
        finally: R.ctx.restore(mk)
    def _same_seq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (list, tuple)) and not x: 
                if isinstance(y, FilterList):
                    v = fresh('x')
                    return self._scoped([mk_ge(v), mk_ge(y.N - 1 - v)], lambda: R.ctx.infeasible() or R.ctx.prove(mk_not(y.c(v)))), 'not empty'
                return self._zero(parts(IP.len_(y))[0]), 'not empty'
        la, lb = parts(IP.len_(a))[0], parts(IP.len_(b))[0]
        if not self._zero(la - lb): return False, 'length %s instead of %s' % (la, lb)
        n = int_of(R.ctx.rw(lb))
        if n is not None:
            for i in range(n):
                ok, why = self._same(self.at(a, i), self.at(b, i))
                if not ok: return ok, '[%d] %s' % (i, why)
            return True, ''
        v = fresh('i')
        i = mknum(v, 'int')
        return self._scoped([mk_ge(v), mk_ge(lb - 1 - v)], lambda: self._same(self.at(a, i), self.at(b, i)))
    def _same_arr(self, a, b):
        if isinstance(a, FArr) or isinstance(b, FArr): raise VerifierError('array against a selection')
        if a.ndim != b.ndim: return False, 'rank %d instead of %d' % (a.ndim, b.ndim)
        for k, (x, y) in enumerate(zip(a.sh, b.sh)):
            if x is not y and not self._zero(x - y): return False, 'axis %d has length %s instead of %s' % (k, x, y)
        sh = [int_of(R.ctx.rw(s)) for s in b.sh]
        def entry(ix):
            x, y = a.at(*ix), b.at(*ix)
            if a.sort == 'bool' or b.sort == 'bool':
                if a.sort != b.sort: return False, 'dtype %s instead of %s' % (a.sort, b.sort)
                return R.ctx.prove(mk_or(mk_and(x, y), mk_and(mk_not(x), mk_not(y)))), '%s <> %s' % (x, y)
            if a.sort == 'obj' or b.sort == 'obj': raise VerifierError('object arrays')
            return self._zero(x - y), 'entry %s: %s' % (ix, (x - y) if len((x - y).terms) < 20 else 'large residual')
        if all(s is not None for s in sh):
            tot = 1
            for s in sh: tot *= s
            if tot <= 80:
                import itertools
                for ix in itertools.product(*[range(s) for s in sh]):
                    ok, why = entry(tuple(P(i) for i in ix))
                    if not ok: return ok, why
                return True, ''
        import itertools
        small = [range(s) if s is not None and s <= 4 else None for s in sh]
        for pre in itertools.product(*[r for r in small if r is not None]):
            it = iter(pre)
            vs = tuple(P(next(it)) if r is not None else fresh('i') for r in small)
            cs = []
            for v, s, r in zip(vs, b.sh, small):
                if r is None: cs += [mk_ge(v), mk_ge(s - 1 - v)]
            def f():
                if R.ctx.infeasible(): return True, ''
                return entry(vs)
            r = self._scoped(cs, f)
            if not r[0]: return r
        return True, ''
    def all(self, name, shape, f):
        """f(indices) holds for all indices below shape"""
        if not isinstance(shape, tuple): shape = (shape,)
        sh = [parts(s)[0] for s in shape]
        vs = [fresh('i') for _ in sh]
        cs = []
        for v, s in zip(vs, sh): cs += [mk_ge(v), mk_ge(s - 1 - v)]
        def g():
            if R.ctx.infeasible(): return True
            c = cond_of(f(*[mknum(v, 'int') for v in vs]))
            return R.ctx.prove(c)
        try: ok = self._scoped(cs, g)
        except VerifierError as e:
            self.obls.append((name, 'unsupported', str(e)[:500], self.hint()))
            return False
        return self._ob(name, ok, 'not proved for all indices')
    def is_(self, name, a, b): return self._ob(name, a is b, '%r is not %r' % (a, b))
    def raises(self, name, exc, f):
        try: r = f()
        except PyExc as e:
            ok = IP.exc_matches(e, exc)
            return self._ob(name, ok, 'raised %s instead of %s' % (e.name, exc.__name__))
        return self._ob(name, False, 'no %s raised (returned %s)' % (exc.__name__, type(r).__name__))
    def trying(self, f):
        """(result, None) or (None, exception name)"""
        try: return f(), None
        except PyExc as e: return None, e.name

    # --- frames ---------------------------------------------------------------------------------------------------
    def frame(self, **roots):
        seen = {}
        snaps = []
        def walk(path, o):
            if id(o) in seen: return
            seen[id(o)] = o
            if isinstance(o, Arr):
                snaps.append(('arr', path, o, tuple(o.sh), o.buf, o.buf.snapshot()))
            elif isinstance(o, IP.Obj):
                snaps.append(('obj', path, o, dict(o._attrs)))
                for k, v in o._attrs.items(): walk('%s.%s' % (path, k), v)
            elif isinstance(o, list):
                snaps.append(('list', path, o, list(o)))
                for k, v in enumerate(o): walk('%s[%d]' % (path, k), v)
            elif isinstance(o, tuple):
                for k, v in enumerate(o): walk('%s[%d]' % (path, k), v)
            elif isinstance(o, dict):
                snaps.append(('dict', path, o, dict(o)))
                for k, v in o.items(): walk('%s[%r]' % (path, k), v)
            elif isinstance(o, SList):
                snaps.append(('slist', path, o, getattr(o, 'n', None), getattr(o, 'getter', None)))
        for k, v in roots.items(): walk(k, v)
        return snaps
    def unchanged(self, name, snaps):
        for s in snaps:
            if s[0] == 'arr':
                _, path, o, sh, buf, snap = s
                if o.buf is not buf or tuple(o.sh) != sh: return self._ob(name, False, '%s was rebound' % path)
                if o.buf.f is not None:
                    vs = tuple(fresh('i') for _ in o.buf.shape)
                    cs = []
                    for v, d in zip(vs, o.buf.shape): cs += [mk_ge(v), mk_ge(d - 1 - v)]
                    def g():
                        if R.ctx.infeasible(): return True
                        x, y = o.buf.get(vs), snap(vs)
                        if x is y: return True
                        if isinstance(x, T.Cond): return R.ctx.prove(mk_or(mk_and(x, y), mk_and(mk_not(x), mk_not(y))))
                        return self._zero(x - y)
                    if not self._scoped(cs, g): return self._ob(name, False, 'content of %s changed' % path)
            elif s[0] == 'obj':
                _, path, o, at = s
                for k, v in at.items():
                    if k not in o._attrs: return self._ob(name, False, '%s.%s deleted' % (path, k))
                    w = o._attrs[k]
                    if w is not v and v is not None:
                        if isinstance(v, (Arr, IP.Obj, list, dict)) or isinstance(w, (Arr, IP.Obj, list, dict)): ok = False
                        else: ok = self._same(w, v)[0]
                        if not ok: return self._ob(name, False, '%s.%s changed' % (path, k))
            elif s[0] == 'slist':
                if getattr(s[2], 'n', None) is not s[3] or (s[4] is not None and s[2].__dict__.get('getter', s[4]) is not s[4] and not callable(s[4])): return self._ob(name, False, '%s changed' % s[1])
            else:
                _, path, o, items = s
                cur = list(o) if s[0] == 'list' else dict(o)
                if len(cur) != len(items): return self._ob(name, False, '%s changed' % path)
                ks = range(len(items)) if s[0] == 'list' else list(items)
                for k in ks:
                    try: x = cur[k]
                    except KeyError: return self._ob(name, False, '%s changed' % path)
                    if x is not items[k] and not (not isinstance(x, (Arr, IP.Obj, list, dict)) and self._same(x, items[k])[0]):
                        return self._ob(name, False, '%s[%r] changed' % (path, k))
        return self._ob(name, True)
    def bufs(self, o, out=None, seen=None):
        out = {} if out is None else out
        seen = set() if seen is None else seen
        if id(o) in seen: return out
        seen.add(id(o))
        if isinstance(o, Arr): out[id(o.buf)] = o
        elif isinstance(o, IP.Obj):
            for v in o._attrs.values(): self.bufs(v, out, seen)
        elif isinstance(o, dict):
            out[id(o)] = o
            for v in o.values(): self.bufs(v, out, seen)
        elif isinstance(o, (list, tuple)):
            if isinstance(o, list): out[id(o)] = o
            for v in o: self.bufs(v, out, seen)
        return out
    def disjoint(self, name, a, b):
        """no mutable storage reachable from both"""
        x, y = self.bufs(a), self.bufs(b)
        s = [k for k in x if k in y and not (isinstance(x[k], Arr) and any(int_of(d) == 0 for d in x[k].buf.shape))]
        return self._ob(name, not s, 'shared storage')
    def scribble(self, x):
        """overwrites the content of an array or a list"""
        if isinstance(x, SList): return          # lists of symbolic length are immutable values here
        if isinstance(x, list):
            x.clear()
            return
        IP.setitem_(x, Ellipsis, Num(T.app('scribbled', (), 'real'), 'real') if x.sort != 'int' else 77)
    def warned(self): return len(R.warnings)
    def draws(self):
        out = []
        for nm, (kind, sh, args) in R.draws.items():
            out.append((kind, A.mk(sh, 'real', lambda ix, nm=nm: T.app(nm, ix, 'real')) if sh else Num(T.app(nm, (), 'real'), 'real'), tuple(Num(x, 'real') for x in args)))
        return out
    def contract(self, qualname, f):
        """calls of the function are replaced by its contract: f(call the body, bound arguments...); f may return w.body"""
        def g(fn, a, kw):
            b = IP.bind_args(fn, a, kw)
            return f(**b)
        k = qualname.split('.')
        n = next(i for i, x in enumerate(k) if x[:1].isupper()) if any(x[:1].isupper() for x in k) else len(k) - 1
        self.pkg.subst['.'.join(k[:n]) + ':' + '.'.join(k[n:])] = g
    body = NotImplemented
    def hook(self, name, f): M.HOOKS[name] = f
    def records(self): return list(M.RECORD)
    def use_solver(self): pass
    def solves(self): return [r for r in M.RECORD if r['kind'] == 'cvx']
    def feasible(self, r):
        """the recorded point satisfies the recorded constraints"""
        cs = []
        for op, d in r['feasible']:
            c = (lambda x: mk_eq(x)) if op == '==' else (lambda x: mk_ge(x))
            if isnum(d): cs.append(c(parts(d)[0]))
            else: cs.append(self._forall(as_arr(d), c))
        return mkbool(mk_and(*cs))
    def _forall(self, a, c, ix=()):
        k = len(ix)
        if k == a.ndim: return c(a.at(*ix))
        return cond_of(self.forall(mknum(a.sh[k], 'int'), lambda i: mkbool(self._forall(a, c, ix + (parts(i)[0],)))))
    def agrees(self, a, b):
        '''the two arrays are provably equal'''
        return self._same(a, b)[0]
    def iff(self, name, a, b):
        x, y = cond_of(a), cond_of(b)
        def g():
            return R.ctx.prove(mk_and(mk_or(x, mk_not(y)), mk_or(mk_not(x), y)))
        return self._ob(name, self._scoped((), g), 'not equivalent: %s' % str(a)[:300])
    def recorder(self, name='ax', lims=None): return M.Rec(name, lims)
    def opaque(self, name, fn): return fn
    def note(self, *a): pass

# --- exploration ----------------------------------------------------------------------------------------------
def explore(case, pkg, np, bound=None, max_paths=600, deadline=None):
    """Runs the contract on all paths. -> dict"""
    out = {'obligations': {}, 'fails': [], 'unsupported': [], 'paths': 0, 'infeasible': 0, 'hints': [], 'reached': 0, 'complete': True}
    todo = [[]]
    t0 = time.time()
    while todo:
        pre = todo.pop()
        if out['paths'] >= max_paths or (deadline and time.time() > deadline):
            out['complete'] = False
            out['unsupported'].append(('paths', 'path or time limit reached', None))
            break
        reset()
        R.prefix = list(pre)
        R.journal = []
        pkg.subst.clear()
        w = SymWorld(pkg, np, bound)
        feas = True
        try:
            try: case(w)
            except Stop: pass
            except PathEnd: feas = False
            except PyExc as e:
                if R.ctx.infeasible(): feas = False
                else:
                    w._ob('no unexpected exception', False, 'raises %s' % e)
            except VerifierError as e:
                if isinstance(bound, dict) and bound.get('trace'): traceback.print_exc()
                w.obls.append(('supported', 'unsupported', where(e), w.hint()))
            except RecursionError as e:
                w.obls.append(('supported', 'unsupported', 'recursion', w.hint()))
            if feas and R.ctx.infeasible(): feas = False
            if feas and len(out['hints']) < 60: out['hints'].append(w.hint())
        except (z3exc) as e:
            w.obls.append(('supported', 'unsupported', 'solver: %s' % e, None))
        for kind, obj, undo in reversed(R.journal or []): undo()
        R.journal = None
        todo.extend(R.pending)
        if not feas:
            out['infeasible'] += 1
            continue
        out['paths'] += 1
        for name, st, det, hint in w.obls:
            o = out['obligations'].setdefault(name, [0, 0])
            if st == 'ok': o[0] += 1
            else:
                o[1] += 1
                (out['fails'] if st == 'fail' else out['unsupported']).append((name, det, hint))
        if w.obls: out['reached'] += 1
    out['time'] = time.time() - t0
    return out

import z3 as _z3
z3exc = _z3.Z3Exception

def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    ln = getattr(e, 'line', None)
    return '%s [%s]' % (e, ' < '.join('%s:%d' % (t.name, t.lineno) for t in reversed(tb[-3:])))

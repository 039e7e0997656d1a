"""Symbolic execution of the package's current source: one AST interpreter, no copy of the code.

Modules are parsed from the tree under test on every run. numpy, scipy, cvxpy and matplotlib are represented by their
contracts (vc/nparr.py, vc/npfun.py, vc/models.py); everything else in a function body is executed from its AST.
"""
import ast, os, builtins, math
from . import terms as T
from .terms import (P, Poly, Cond, ZERO, ONE, TRUE, FALSE, VerifierError, fresh, symatom, int_of, mk_ge, mk_eq, mk_not,
                    mk_and, mk_or, mk_ex, mk_all, ind, ite, psum, subst, cond_subst)
from .rt import (R, Num, SBool, mknum, mkbool, isnum, parts, cond_of, compare, cmp_cond, arith, PyExc, PathEnd, run_local, join_sort,
                 num_abs, smin, smax)
from .seq import SRange, SList, FilterList, GroupMap, DistinctKeys, length_of, seq_view, slice_seq
from .nparr import Arr, FArr, mk, as_arr, assign, inplace, NPType, DType, LinAlgError
from fractions import Fraction as Q

class UnboundVar(VerifierError): pass

class Env:
    __slots__ = ('vars', 'parent', 'mod', 'glob', 'nonloc', 'func', 'yields', 'selfcls', 'selfobj')
    def __init__(self, parent, mod, vars=None):
        self.vars = {} if vars is None else vars
        self.parent, self.mod = parent, mod
        self.glob, self.nonloc = None, None
        self.func = parent.func if parent is not None else None
        self.yields = None
        self.selfcls = parent.selfcls if parent is not None else None
        self.selfobj = parent.selfobj if parent is not None else None

    def get(self, name):
        e = self
        while e is not None:
            if name in e.vars: 
                v = e.vars[name]
                if v is UNDEF: raise VerifierError('loop carried variable %s' % name)
                return v
            e = e.parent
        g = self.mod.env.vars
        if name in g: return g[name]
        if name in BUILTINS: return BUILTINS[name]
        raise PyExc(NameError, ("name '%s' is not defined" % name,))

    def set(self, name, val):
        e = self
        if self.glob and name in self.glob: e = self.mod.env
        elif self.nonloc and name in self.nonloc:
            e = self.parent
            while name not in e.vars: e = e.parent
        vs = e.vars
        if R.journal is not None:
            if name in vs:
                old = vs[name]
                R.log('env', (e, name), lambda: vs.__setitem__(name, old))
            else:
                R.log('env', (e, name), lambda: vs.pop(name, None))
        vs[name] = val

UNDEF = type('Undef', (), {'__repr__': lambda s: 'UNDEF'})()

class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.env = Env(None, self)
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        try: return getattr_(self, k)
        except PyExc as e:
            if e.cls is AttributeError: raise AttributeError(k)
            raise

class Func:
    _is_func = True
    def __init__(self, node, env, mod, cls=None):
        self.node, self.env, self.mod, self.cls = node, env, mod, cls
        self.name = getattr(node, 'name', '<lambda>')
        self.defaults, self.kwdefaults = [], {}
        self.abstract = False
        self.attrs = {}
        self.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
    @property
    def __name__(self): return self.name
    @property
    def qualname(self): return '%s:%s%s' % (self.mod.name, self.cls.name + '.' if self.cls else '', self.name)
    def __call__(self, *a, **k): return call(self, a, k)
    def __repr__(self): return '<func %s>' % self.qualname

def own_nodes(fn):
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): todo.append(c)

class Bound:
    def __init__(self, f, obj): self.f, self.obj = f, obj
    def __call__(self, *a, **k): return call(self, a, k)
    @property
    def __name__(self): return self.f.name
    def __eq__(self, o): return isinstance(o, Bound) and o.f is self.f and o.obj is self.obj
    def __hash__(self): return hash((id(self.f), id(self.obj)))

class Prop:
    def __init__(self, fget, fset=None): self.fget, self.fset = fget, fset
class Static:
    def __init__(self, f): self.f = f
class ClassM:
    def __init__(self, f): self.f = f

class Cls:
    def __init__(self, name, bases, vars, mod):
        self.name, self.bases, self.vars, self.mod = name, bases, vars, mod
        self.mro = self._mro()
    @property
    def __name__(self): return self.name
    def _mro(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, Cls)] + [[b for b in self.bases if isinstance(b, Cls)]]
        out = [self]
        while any(seqs):
            for s in seqs:
                if not s: continue
                h = s[0]
                if not any(h in t[1:] for t in seqs): break
            else: raise VerifierError('inconsistent MRO')
            out.append(h)
            for s in seqs:
                if s and s[0] is h: s.pop(0)
        return out
    def lookup(self, k):
        for c in self.mro:
            if k in c.vars: return c.vars[k], c
        return None, None
    def native_base(self):
        for c in self.mro:
            for b in c.bases:
                if isinstance(b, type) and b is not object: return b
        return None
    def issub(self, o): return o in self.mro
    def __call__(self, *a, **k): return call(self, a, k)
    def __getattr__(self, k):
        if k.startswith('__') or '_hook' in k or k.startswith('_model') or k in ('is_abc', 'is_ndarray', 'as_farr', 'fget', 'fset', 'f'): raise AttributeError(k)
        try: return getattr_(self, k)
        except PyExc as e:
            if e.cls is AttributeError: raise AttributeError(k)
            raise
    def __repr__(self): return '<class %s>' % self.name

_ids = [0]
class Obj:
    def __init__(self, cls):
        object.__setattr__(self, '_cls', cls)
        object.__setattr__(self, '_attrs', {})
        _ids[0] += 1
        object.__setattr__(self, '_id', _ids[0])
    def __getattr__(self, k):
        if k.startswith('__') and k.endswith('__'): raise AttributeError(k)
        try: return getattr_(self, k)
        except PyExc as e:
            if e.cls is AttributeError: raise AttributeError(k)
            raise
    def __setattr__(self, k, v): setattr_(self, k, v)
    def __call__(self, *a, **k): return call(self, a, k)
    def __getitem__(self, k): return getitem_(self, k)
    def __len__(self):
        n = len_(self)
        return n.__index__()
    def __eq__(self, o):
        f, _ = self._cls.lookup('__eq__')
        if f is not None and isinstance(f, Func): return truth(call(f, (self, o), {}))
        return self is o
    def __hash__(self): return id(self)
    def __repr__(self): return '<%s object>' % self._cls.name

class Super:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj

# --- package -----------------------------------------------------------------------------------------------
class Package:
    def __init__(self, root, models):
        self.root = root
        self.models = models            # top-level name -> function(dotted) -> object
        self.mods = {}
        self.trees = {}
        self.calls = {}                  # qualname -> number of executions (functions under contract)
        self.subst = {}                  # qualname -> contract to use at calls

    def parse(self, path):
        if path not in self.trees:
            with open(path) as f: self.trees[path] = ast.parse(f.read(), path)
        return self.trees[path]

    def load(self, name):
        if name in self.mods: return self.mods[name]
        rel = name.replace('.', '/')
        p = os.path.join(self.root, rel + '.py')
        ispkg = False
        if not os.path.exists(p):
            p = os.path.join(self.root, rel, '__init__.py')
            ispkg = True
            if not os.path.exists(p): raise PyExc(ImportError, ('No module named %s' % name,))
        m = Module(name, p)
        m.ispkg = ispkg
        self.mods[name] = m
        m.env.vars['__name__'] = name
        j, R.journal = R.journal, None
        try: exec_block(self.parse(p).body, m.env)
        finally: R.journal = j
        return m

    def import_(self, dotted):
        top = dotted.split('.')[0]
        if os.path.exists(os.path.join(self.root, top)): return self.load(dotted)
        return self.models(dotted)

PKG = [None]

# --- attribute access ----------------------------------------------------------------------------------------
class ExcObj:
    """an exception instance seen by the program"""
    def __init__(self, e): self.e = e; self.args = tuple(e.cargs)
    def __str__(self): return str(self.args[0]) if self.args else ''

def bind(v, owner, obj):
    if isinstance(v, Func): return Bound(v, obj)
    if isinstance(v, Prop): return call(v.fget, (obj,), {})
    if isinstance(v, Static): return v.f
    if isinstance(v, ClassM): return Bound(v.f, obj._cls)
    return v

LISTM = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', 'copy', 'index', 'count'}

def getattr_(o, k, default=UNDEF):
    if isinstance(o, Obj):
        v, owner = o._cls.lookup(k)
        if isinstance(v, Prop): return bind(v, owner, o)
        if k in o._attrs:
            r = o._attrs[k]
            if r is UNDEF: raise VerifierError('loop carried attribute ' + k)
            return r
        if owner is not None: return bind(v, owner, o)
        if k == '__class__': return o._cls
        if k == '__dict__': return o._attrs
        g, _ = o._cls.lookup('__getattr__')
        if g is not None: return call(g, (o, k), {})
        nb = o._cls.native_base()
        if nb is not None and issubclass(nb, BaseException) and k == 'args': return o._attrs.get('_args', ())
        if default is not UNDEF: return default
        raise PyExc(AttributeError, ("'%s' object has no attribute '%s'" % (o._cls.name, k),))
    if isinstance(o, Cls):
        if k == '__name__' or k == '__qualname__': return o.name
        v, owner = o.lookup(k)
        if owner is not None:
            if isinstance(v, Static): return v.f
            if isinstance(v, ClassM): return Bound(v.f, o)
            return v
        if default is not UNDEF: return default
        raise PyExc(AttributeError, ("type object '%s' has no attribute '%s'" % (o.name, k),))
    if isinstance(o, Super):
        start = o.obj._cls.mro if isinstance(o.obj, Obj) else o.obj.mro
        i = start.index(o.cls) + 1
        for c in start[i:]:
            if k in c.vars:
                v = c.vars[k]
                if isinstance(v, Func): return Bound(v, o.obj)
                return bind(v, c, o.obj)
        if k == '__init__': return lambda *a, **kw: None
        raise PyExc(AttributeError, ("'super' object has no attribute '%s'" % k,))
    if isinstance(o, Module):
        if k in o.env.vars: return o.env.vars[k]
        if getattr(o, 'ispkg', False):
            try: return PKG[0].load(o.name + '.' + k)
            except PyExc: pass
        if default is not UNDEF: return default
        raise PyExc(AttributeError, ("module '%s' has no attribute '%s'" % (o.name, k),))
    if isinstance(o, (Arr, FArr)):
        if k == 'sort' and isinstance(o, Arr): return o.sort_inplace
        if k.startswith('_') or not hasattr(type(o), k) or k in ('ent', 'at', 'sh', 'buf', 'fwd', 'inv', 'order', 'getcell', 'e', 'c', 'n'):
            if default is not UNDEF and k not in NDATTRS: return default
            if k in NDATTRS: raise VerifierError('ndarray.%s' % k)
            raise PyExc(AttributeError, ("'numpy.ndarray' object has no attribute '%s'" % k,))
        return getattr(o, k)
    if isinstance(o, (Num, SBool)) or isinstance(o, (int, float)):
        if k in ('real', 'imag', 'conj', 'conjugate', 'item', 'copy', 'T', 'ndim', 'shape', 'size', 'dtype', 'astype', 'all', 'any', 'is_integer', 'tolist', 'sum'):
            if not isinstance(o, (Num, SBool)):
                if k in ('real', 'conjugate', 'imag'): return getattr(o, k)
                if default is not UNDEF: return default
                raise PyExc(AttributeError, ("'int' object has no attribute '%s'" % k,))
            if k == 'tolist': return o.item
            if isinstance(o, Num) and not o.np and k in ('conj', 'item', 'copy', 'T', 'ndim', 'shape', 'size', 'dtype', 'astype', 'all', 'any', 'sum'):
                # a Python number or a numpy scalar: unknown for inputs, so only numpy scalars offer this
                if default is not UNDEF: return default
                raise PyExc(AttributeError, ("'float' object has no attribute '%s'" % k,))
            if k == 'dtype': return DType(o.sort if isinstance(o, Num) else 'bool')
            if k in ('any', 'all') and isinstance(o, Num): return lambda: mkbool(cond_of(o))
            if k == 'sum': return lambda *a, **kw: o
            if k == 'astype': return lambda d: as_arr(o).astype(d).item()
            r = getattr(o, k, UNDEF)
            if r is not UNDEF: return r
        if default is not UNDEF: return default
        raise PyExc(AttributeError, ("'float' object has no attribute '%s'" % k,))
    if isinstance(o, list) and k in LISTM: return lambda *a, **kw: list_method(o, k, a, kw)
    if isinstance(o, LoopDict): return o.method(k)
    if isinstance(o, dict):
        return lambda *a, **kw: dict_method(o, k, a, kw)
    if isinstance(o, GroupMap):
        if k == 'keys': return o.keys
        if k == 'get': return lambda x, d=None: o.get(x) if R.decide(o.contains(x)) else d
        if k == 'values': return lambda: SList(o.length(), lambda i: o.get(o.keys().get(i)))
        if k == 'items': return lambda: SList(o.length(), lambda i: (o.keys().get(i), o.get(o.keys().get(i))))
        raise VerifierError('dict.' + k)
    if isinstance(o, SList):
        if k == 'copy': return lambda: slice_seq(o, slice(None))
        if k == 'append': return lambda x: slist_append(o, x)
        raise VerifierError('list.%s on a list of symbolic length' % k)
    if isinstance(o, PyExc): o = ExcObj(o)
    if isinstance(o, (Func, Bound)):
        f = o.f if isinstance(o, Bound) else o
        if k == '__name__': return f.name
        if k == '__doc__': return None
        if k in f.attrs: return f.attrs[k]
        raise PyExc(AttributeError, (k,))
    if isinstance(o, str):
        if k == 'format': return lambda *a, **kw: native(str.format, o, *map(Fmt, a), **{x: Fmt(y) for x, y in kw.items()})
        if k == 'format_map': return lambda *a, **kw: native(o.format_map, *a, **kw)
        if k == 'join': return lambda xs: native(o.join, list(iter_native(xs)))
    if hasattr(o, '_model_getattr'): return o._model_getattr(k, default)
    try:
        r = getattr(o, k)
    except AttributeError:
        if default is not UNDEF: return default
        if o is None or isinstance(o, (str, tuple, list, int, float, bytes, set, frozenset)):
            raise PyExc(AttributeError, ("'%s' object has no attribute '%s'" % (type(o).__name__, k),))
        raise VerifierError('attribute %s of %r' % (k, o))
    if isinstance(o, (str, tuple, set, frozenset, int, bytes)) and callable(r):
        return lambda *a, **kw: native(r, *a, **kw)
    return r

NDATTRS = {'sort', 'argpartition', 'partition', 'searchsorted', 'take', 'put', 'choose', 'compress', 'resize', 'cumprod', 'clip',
           'std', 'byteswap', 'view', 'data', 'nbytes', 'itemsize', 'strides', 'flags', 'tobytes', 'base'}

class Fmt:
    def __init__(self, x): self.x = x
    def __format__(self, s):
        if isinstance(self.x, (str, int)) and not isinstance(self.x, bool): return format(self.x, s)
        return '<value>'
    def __str__(self): return str(self.x) if isinstance(self.x, (str, int)) else '<value>'
    __repr__ = __str__
    def __getitem__(self, k): return Fmt(getitem_(self.x, k))
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return Fmt(getattr_(self.x, k))

def native(f, *a, **kw):
    """call a method of a native Python value; its exceptions are the program's"""
    try: return f(*a, **kw)
    except (TypeError, ValueError, KeyError, IndexError, AttributeError, ZeroDivisionError, StopIteration) as e:
        raise PyExc(type(e), e.args)

def setattr_(o, k, v):
    if isinstance(o, Obj):
        p, owner = o._cls.lookup(k)
        if isinstance(p, Prop):
            if p.fset is None: raise PyExc(AttributeError, ("can't set attribute",))
            call(p.fset, (o, v), {})
            return
        d = o._attrs
        if R.journal is not None:
            if k in d:
                old = d[k]
                R.log('attr', (o, k), lambda: d.__setitem__(k, old))
            else:
                R.log('attr', (o, k), lambda: d.pop(k, None))
        d[k] = v
        return
    if isinstance(o, Arr) and k == 'shape':
        o.shape = v
        return
    if isinstance(o, Cls):
        o.vars[k] = v
        return
    if isinstance(o, (Func, Bound)):
        (o.f if isinstance(o, Bound) else o).attrs[k] = v
        return
    if hasattr(o, '_model_setattr'): return o._model_setattr(k, v)
    raise VerifierError('assignment to attribute %s of %r' % (k, o))

# --- lists and dicts -------------------------------------------------------------------------------------------
LISTS = {}        # id -> (serial, object): lists and dicts created by the program
def newlist(l):
    _ids[0] += 1
    LISTS[id(l)] = (_ids[0], l)
    return l
def serial(o):
    r = LISTS.get(id(o))
    return r[0] if r and r[1] is o else 0

LOOPLISTS = []    # lists that grow in a loop being summarised: not to be read
def check_read(l):
    for x in LOOPLISTS:
        if x is l: raise VerifierError('a list that grows in the loop is read')

def log_list(l):
    if R.journal is not None:
        old = list(l)
        def undo(): l[:] = old
        R.log('list', l, undo)

def list_method(l, k, a, kw):
    if k in ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear'):
        if k != 'append': check_read(l)
        if k == 'sort':
            s = sorted_(l, **kw)
            log_list(l)
            l[:] = s
            return None
        log_list(l)
        if k == 'extend':
            a = (list(iter_native(a[0])),)
        return native(getattr(l, k), *a, **kw)
    check_read(l)
    if k == 'copy': return newlist(list(l))
    return native(getattr(l, k), *a, **kw)

def slist_append(o, x):
    n, g = o.n, o.getter
    def undo(): o.n, o.getter = n, g
    R.log('slist', o, undo)
    np_ = parts(n)[0]
    def get(i):
        p = parts(i)[0]
        d = R.ctx.decide(mk_eq(p - np_))
        if d is True: return x
        if d is False or R.ctx.prove(mk_ge(np_ - p - 1)): return g(i)
        return merge_vals(mk_eq(p - np_), x, g(i))
    o.n, o.getter = mknum(np_ + 1, 'int'), get

def log_dict(d):
    if R.journal is not None:
        old = dict(d)
        def undo():
            d.clear()
            d.update(old)
        R.log('dict', d, undo)

def dict_find(d, k):
    """key of d equal to k, or UNDEF; may fork on symbolic keys"""
    if not isinstance(k, (Num, SBool)) and not (isinstance(k, tuple) and any(isinstance(x, Num) for x in k)):
        try:
            if k in d: return k
        except TypeError as e: raise PyExc(TypeError, e.args)
        if not any(isinstance(x, (Num, tuple)) for x in d): return UNDEF
    for x in d:
        if truth(equal(x, k)): return x
    return UNDEF

def dict_method(d, k, a, kw):
    if k == 'get':
        x = dict_find(d, a[0])
        return d[x] if x is not UNDEF else (a[1] if len(a) > 1 else kw.get('default'))
    if k == 'setdefault':
        x = dict_find(d, a[0])
        if x is not UNDEF: return d[x]
        log_dict(d)
        d[a[0]] = a[1] if len(a) > 1 else None
        return d[a[0]]
    if k == 'pop':
        x = dict_find(d, a[0])
        if x is UNDEF:
            if len(a) > 1: return a[1]
            raise PyExc(KeyError, a)
        log_dict(d)
        return d.pop(x)
    if k in ('update', 'clear', 'popitem'):
        log_dict(d)
        return native(getattr(d, k), *a, **kw)
    if k == 'copy': return newlist(dict(d))
    if k in ('keys', 'values', 'items'): return native(getattr(d, k))
    if hasattr(d, k): raise VerifierError('dict.' + k)
    raise PyExc(AttributeError, ("'dict' object has no attribute '%s'" % k,))

class LoopDict:
    """a dict inside of a loop being summarised: records its uses"""
    def __init__(self, default=False, tag=0):
        self.tag = tag
        self.rec = []
        self.default = default
    def log(self, x):
        self.rec.append(x)
        R.log('ldict', self, self.rec.pop)
    def contains(self, k):
        return mkbool(T.batom('LD%s' % self.tag, (parts(k)[0],)))
    def getitem(self, k):
        if not self.default: self.log(('need', k))
        return LoopDictCell(self, k)
    def setitem(self, k, v): self.log(('set', k, v))
    def method(self, name):
        if name == 'setdefault':
            def f(k, d):
                if not (isinstance(d, list) and not d): raise VerifierError('dict.setdefault')
                return LoopDictCell(self, k)
            return f
        raise VerifierError('dict.%s in a loop' % name)

class LoopDictCell:
    def __init__(self, d, k): self.d, self.k = d, k
    @property
    def append(self): return lambda v: self.d.log(('append', self.k, v))
    def _model_getattr(self, k, default=None):
        if k == 'append': return self.append
        raise VerifierError('dict entry.%s in a loop' % k)

# --- truth, equality, membership ----------------------------------------------------------------------------------
def truth(v):
    if v is None: return False
    if isinstance(v, bool): return v
    if isinstance(v, (SBool, Num)): return bool(v)
    if isinstance(v, (int, float, str, tuple, bytes, set, frozenset, range)): return bool(v)
    if isinstance(v, list):
        check_read(v)
        return bool(v)
    if isinstance(v, dict): return bool(v)
    if isinstance(v, Arr): return bool(v)
    if isinstance(v, (SList, SRange, GroupMap)):
        return R.decide(mk_ge(parts(v.length())[0] - 1))
    if isinstance(v, Obj):
        f, _ = v._cls.lookup('__bool__')
        if f is not None: return truth(call(f, (v,), {}))
        f, _ = v._cls.lookup('__len__')
        if f is not None: return truth(call(f, (v,), {}))
        return True
    if isinstance(v, (Func, Bound, Cls, Module, DType, NPType, type, ExcObj)) or callable(v): return True
    if hasattr(v, '_model_truth'): return v._model_truth()
    raise VerifierError('truth value of %r' % (v,))

def equal(a, b):
    if a is b and not isinstance(a, (Arr, Num, float)): return True
    if isinstance(a, (Arr, FArr)) or isinstance(b, (Arr, FArr)):
        o = b if isinstance(a, (Arr, FArr)) else a
        if o is None or isinstance(o, str):
            return False
        return a == b
    if isnum(a) and isnum(b):
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return a == b
        return compare('==', a, b)
    if isnum(a) or isnum(b): return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list): return False
        if len(a) != len(b): return False
        c = TRUE
        for x, y in zip(a, b):
            r = equal(x, y)
            if isinstance(r, Arr): r = bool(r)
            if r is False: return False
            if r is not True: c = mk_and(c, cond_of(r))
        return mkbool(c)
    if isinstance(a, Obj):
        f, _ = a._cls.lookup('__eq__')
        if f is not None: return call(f, (a, b), {})
        return a is b
    if isinstance(b, Obj): return equal(b, a)
    if isinstance(a, SList) or isinstance(b, SList):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str): return False
        raise VerifierError('comparison of symbolic lists')
    try: return bool(a == b)
    except Exception as e: raise VerifierError('comparison: %s' % e)

def contains(x, seq):
    if isinstance(seq, (list, tuple)):
        if isinstance(seq, list): check_read(seq)
        for y in seq:
            if y is x: return True
            r = equal(y, x)
            if isinstance(r, Arr): r = bool(r)
            if truth(r): return True
        return False
    if isinstance(seq, LoopDict): return seq.contains(x)
    if isinstance(seq, GroupMap):
        if not isnum(x): return False
        return mkbool(seq.contains(x))
    if isinstance(seq, dict): return dict_find(seq, x) is not UNDEF
    if isinstance(seq, (set, frozenset)):
        if not isinstance(x, Num) and not any(isinstance(y, Num) for y in seq): return native(seq.__contains__, x)
        return contains(x, list(seq))
    if isinstance(seq, (FilterList, SRange)): return mkbool(seq.member(x))
    if isinstance(seq, range):
        if isinstance(x, Num):
            return mkbool(SRange(seq.start, seq.stop, seq.step).member(x))
        return x in seq
    if isinstance(seq, str):
        if not isinstance(x, str): raise PyExc(TypeError, ("'in <string>' requires string as left operand",))
        return x in seq
    if isinstance(seq, DistinctKeys): return mkbool(seq.gm.contains(x))
    if isinstance(seq, SList):
        v = fresh('x')
        with_range(v, parts(seq.n)[0])
        e = seq.get(mknum(v, 'int'))
        return mkbool(mk_ex(symatom(v), 0, parts(seq.n)[0], cond_of(equal(e, x))))
    if isinstance(seq, Arr):
        from . import npfun
        return npfun.any_(seq == x)
    if isinstance(seq, (type({}.keys()), type({}.values()))): return contains(x, list(seq))
    if isinstance(seq, Obj):
        f, _ = seq._cls.lookup('__contains__')
        if f is not None: return call(f, (seq, x), {})
    if seq is None or isnum(seq): raise PyExc(TypeError, ('argument is not iterable',))
    raise VerifierError('membership in %r' % (seq,))

def with_range(v, n):
    R.ctx.add(mk_ge(v))
    R.ctx.add(mk_ge(n - v - 1))

def len_(x):
    if isinstance(x, list): check_read(x)
    if isinstance(x, (list, tuple, dict, str, set, frozenset, range)): return len(x)
    if isinstance(x, (SList, SRange, GroupMap)): return x.length()
    if isinstance(x, Arr):
        if x.ndim == 0: raise PyExc(TypeError, ('len() of unsized object',))
        return mknum(x.sh[0], 'int')
    if isinstance(x, FArr): return mknum(x.count(), 'int')
    if isinstance(x, Obj):
        f, _ = x._cls.lookup('__len__')
        if f is not None: return call(f, (x,), {})
    if x is None or isnum(x) or isinstance(x, Obj): raise PyExc(TypeError, ("object of type '%s' has no len()" % type(x).__name__,))
    if isinstance(x, (type({}.keys()), type({}.values()), type({}.items()))): return len(x)
    if hasattr(x, '_model_len'): return x._model_len()
    raise VerifierError('len of %r' % (x,))

def symbolic_seq(x):
    """(n, get) when x is a sequence of symbolic length, None when it can be iterated natively"""
    if isinstance(x, (SRange, SList)):
        n = x.length()
        m = n if isinstance(n, int) else int_of(R.ctx.rw(parts(n)[0]))
        if m is not None and not isinstance(x, FilterList):
            return None
        return n, x.get
    if isinstance(x, GroupMap):
        return symbolic_seq(x.keys())
    if isinstance(x, Arr):
        if x.ndim == 0: raise PyExc(TypeError, ('iteration over a 0-d array',))
        m = int_of(R.ctx.rw(x.sh[0]))
        if m is not None: return None
        return mknum(x.sh[0], 'int'), (lambda i: x[i])
    if isinstance(x, FArr): raise VerifierError('iteration over a selection')
    return None

def iter_native(x):
    """native iteration; symbolic lengths are refused"""
    if isinstance(x, list): check_read(x)
    if isinstance(x, (list, tuple, range, str, set, frozenset, dict)): return list(x)
    if isinstance(x, (type({}.keys()), type({}.values()), type({}.items()))): return list(x)
    s = symbolic_seq(x)
    if s is not None: raise VerifierError('iteration over a sequence of symbolic length')
    if isinstance(x, (SRange, SList)):
        n = x.length()
        n = n if isinstance(n, int) else int_of(R.ctx.rw(parts(n)[0]))
        return [x.get(i) for i in range(n)]
    if isinstance(x, Arr):
        return [x[i] for i in range(int_of(R.ctx.rw(x.sh[0])))]
    if isinstance(x, Iter): return x.rest()
    if isinstance(x, Obj):
        f, _ = x._cls.lookup('__iter__')
        if f is not None: return iter_native(call(f, (x,), {}))
        f, _ = x._cls.lookup('__getitem__')
        if f is not None:
            n = len_(x)
            if isinstance(n, int): return [call(f, (x, i), {}) for i in range(n)]
            raise VerifierError('iteration over an object')
        raise PyExc(TypeError, ("'%s' object is not iterable" % x._cls.name,))
    if x is None or isnum(x) or isinstance(x, (Func, Cls, Bound)):
        raise PyExc(TypeError, ('object is not iterable',))
    if hasattr(x, '_model_iter'): return x._model_iter()
    raise VerifierError('iteration over %r' % (x,))

class Iter:
    def __init__(self, items): self.items, self.pos = list(items), 0
    def rest(self):
        r = self.items[self.pos:]
        self.pos = len(self.items)
        return r
    def next(self, default):
        if self.pos < len(self.items):
            self.pos += 1
            return self.items[self.pos - 1]
        if default is not UNDEF: return default
        raise PyExc(StopIteration)

# --- subscripts ------------------------------------------------------------------------------------------------
def toidx(k):
    """index into a native sequence"""
    if isinstance(k, (int, slice)): return k
    if isinstance(k, Num):
        if k.sort != 'int': raise PyExc(TypeError, ('list indices must be integers or slices',))
        return k.__index__()
    if isinstance(k, Arr) and k.ndim == 0 and k.sort == 'int': return toidx(k.item())
    raise PyExc(TypeError, ('list indices must be integers or slices, not %s' % type(k).__name__,))

def getitem_(o, k):
    if isinstance(o, (Arr, FArr)):
        return o[conv_key(k)]
    if isinstance(o, (list, tuple)):
        if isinstance(o, list): check_read(o)
        if isinstance(k, slice):
            try:
                k = slice(*[None if x is None else toidx(x) for x in (k.start, k.stop, k.step)])
            except VerifierError:
                n, g = seq_view(o)
                raise
            r = native(o.__getitem__, k)
            return newlist(r) if isinstance(r, list) else r
        if isinstance(k, Num) and int_of(R.ctx.rw(k.p)) is None:
            n = len(o)
            p = k.p
            for i in range(n):
                if R.decide(mk_eq(p - i)): return o[i]
            for i in range(n):
                if R.decide(mk_eq(p + n - i)): return o[i]
            raise PyExc(IndexError, ('index out of range',))
        return native(o.__getitem__, toidx(k))
    if isinstance(o, (SList,)): return slice_seq(o, k) if isinstance(k, slice) else o.index(k)
    if isinstance(o, SRange):
        return SList(o.length(), o.get).index(k)
    if isinstance(o, LoopDict): return o.getitem(k)
    if isinstance(o, GroupMap): return o.lookup(k)
    if isinstance(o, dict):
        x = dict_find(o, k)
        if x is UNDEF:
            if hasattr(o, 'factory'):
                log_dict(o)
                o[k] = call(o.factory, (), {})
                return o[k]
            raise PyExc(KeyError, (k,))
        return o[x]
    if isinstance(o, str): return native(o.__getitem__, toidx(k))
    if isinstance(o, range): return native(o.__getitem__, toidx(k))
    if isinstance(o, Obj):
        f, _ = o._cls.lookup('__getitem__')
        if f is not None: return call(f, (o, k), {})
        raise PyExc(TypeError, ("'%s' object is not subscriptable" % o._cls.name,))
    if o is None or isnum(o): raise PyExc(TypeError, ("'%s' object is not subscriptable" % type(o).__name__,))
    if isinstance(o, Cls): return o
    if hasattr(o, '_model_getitem'): return o._model_getitem(k)
    raise VerifierError('subscript of %r' % (o,))

def conv_key(k):
    if isinstance(k, tuple): return tuple(conv_key(x) for x in k)
    if isinstance(k, list): check_read(k)
    if isinstance(k, list) and any(isinstance(x, (slice, type(Ellipsis), type(None), list)) for x in k):
        return tuple(conv_key(x) for x in k) if any(isinstance(x, slice) for x in k) else k
    return k

def setitem_(o, k, v):
    if isinstance(o, Arr):
        o[conv_key(k)] = v
        return
    if isinstance(o, list):
        check_read(o)
        log_list(o)
        if isinstance(k, slice): native(o.__setitem__, slice(*[None if x is None else toidx(x) for x in (k.start, k.stop, k.step)]), list(iter_native(v)))
        else: native(o.__setitem__, toidx(k), v)
        return
    if isinstance(o, LoopDict): return o.setitem(k, v)
    if isinstance(o, dict):
        x = dict_find(o, k)
        log_dict(o)
        o[k if x is UNDEF else x] = v
        return
    if isinstance(o, SList) and not isinstance(o, (FilterList, DistinctKeys)):
        n = parts(o.n)[0]
        p = parts(k)[0]
        if not (R.ctx.prove(mk_ge(p)) or R.decide(mk_ge(p))): p = p + n
        ok = mk_and(mk_ge(p), mk_ge(n - p - 1))
        if not (R.ctx.prove(ok) or R.decide(ok)): raise PyExc(IndexError, ('list assignment index out of range',))
        g = o.getter
        def undo(): o.getter = g
        R.log('slist', o, undo)
        def get(i):
            q = parts(i)[0]
            d = R.ctx.decide(mk_eq(q - p))
            if d is True: return v
            if d is False: return g(i)
            return merge_vals(mk_eq(q - p), v, g(i))
        o.getter = get
        return
    if isinstance(o, Obj):
        f, _ = o._cls.lookup('__setitem__')
        if f is not None: return call(f, (o, k, v), {})
    if isinstance(o, (tuple, str)) or o is None: raise PyExc(TypeError, ("object does not support item assignment",))
    if hasattr(o, '_model_setitem'): return o._model_setitem(k, v)
    raise VerifierError('item assignment on %r' % (o,))

# --- operators ---------------------------------------------------------------------------------------------------
BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.MatMult: '@',
          ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '@': 'matmul', '&': 'and',
          '|': 'or', '^': 'xor', '<<': 'lshift', '>>': 'rshift'}

def binary(op, a, b):
    if isinstance(a, list): check_read(a)
    if isinstance(b, list): check_read(b)
    if isinstance(a, Obj) or isinstance(b, Obj):
        d = DUNDER[op]
        if isinstance(a, Obj):
            f, _ = a._cls.lookup('__%s__' % d)
            if f is not None: return call(f, (a, b), {})
        if isinstance(b, Obj):
            f, _ = b._cls.lookup('__r%s__' % d)
            if f is not None: return call(f, (b, a), {})
        raise PyExc(TypeError, ('unsupported operand type(s) for %s' % op,))
    if isnum(a) and isnum(b):
        ia, ib = isinstance(a, int), isinstance(b, int)
        if ia and ib:
            if op == '/':
                if b == 0: raise PyExc(ZeroDivisionError, ('division by zero',))
                return Num(P(Q(int(a), int(b))), 'real')
            if op == '**' and b < 0:
                if a == 0: raise PyExc(ZeroDivisionError, ('0.0 cannot be raised to a negative power',))
                return Num(P(Q(int(a)) ** int(b)), 'real')
            if op in ('//', '%') and b == 0: raise PyExc(ZeroDivisionError, ('integer division or modulo by zero',))
            if op == '@': raise PyExc(TypeError, ('unsupported operand type(s) for @',))
            return native(OPF[op], a, b)
        if op in ('/', '//', '%') and not (getattr(a, 'np', False) or getattr(b, 'np', False)):
            p, s = parts(b)
            if not R.ctx.prove(mk_not(mk_eq(p))) and R.decide(mk_eq(p)): raise PyExc(ZeroDivisionError, ('division by zero',))
        if op in ('&', '|'):
            ca = isinstance(a, (SBool, bool)); cb = isinstance(b, (SBool, bool))
            if ca and cb:
                x, y = cond_of(a), cond_of(b)
                return mkbool(mk_and(x, y) if op == '&' else mk_or(x, y))
            raise VerifierError('bit operation')
        if op == '@': raise PyExc(TypeError, ('matmul: scalar operand',))
        if op in ('^', '<<', '>>'): raise VerifierError('bit operation')
        return arith(op, a, b)
    if isinstance(a, (Arr, FArr)) or isinstance(b, (Arr, FArr)):
        if a is None or b is None or isinstance(a, (str, dict)) or isinstance(b, (str, dict)): raise PyExc(TypeError, ('unsupported operand type(s)',))
        if isinstance(a, (list, tuple)): a = as_arr(a)
        if isinstance(b, (list, tuple)): b = as_arr(b)
        if isinstance(a, SList): a = as_arr(a)
        if isinstance(b, SList): b = as_arr(b)
        return OPF[op](a, b)
    if isinstance(a, (list, tuple, str)) and isinstance(b, Num) and op == '*':
        n = int_of(R.ctx.rw(b.p))
        if n is not None: b = n
        elif isinstance(a, list) and len(a) == 1:
            x = a[0]
            if not R.ctx.prove(mk_ge(b.p)) and not R.decide(mk_ge(b.p)): return newlist([])
            return SList(b, lambda i: x)
        elif isinstance(a, list) and a:
            xs, L = list(a), len(a)
            if not R.ctx.prove(mk_ge(b.p)) and not R.decide(mk_ge(b.p)): return newlist([])
            def get(i):
                r = parts(arith('%', i, L) if not isinstance(i, int) else i % L)[0]
                k = int_of(R.ctx.rw(r))
                if k is not None: return xs[k]
                v = xs[-1]
                for t in range(L - 2, -1, -1): v = merge_vals(mk_eq(r - t), xs[t], v)
                return v
            return SList(b * L, get)
        else: raise VerifierError('repetition by a symbolic number')
    if isinstance(b, (list, tuple, str)) and isinstance(a, Num) and op == '*': return binary('*', b, a)
    if isinstance(a, SList) and isinstance(b, (list, SList)) and op == '+' or isinstance(b, SList) and isinstance(a, list) and op == '+':
        return concat_lists(a, b)
    if isinstance(a, str) and op == '%':
        return native(OPF['%'], a, tuple(Fmt(x) for x in b) if isinstance(b, tuple) else Fmt(b))
    if isinstance(a, (list, tuple, str, set, frozenset, dict, type(None), int, float, type({}.keys()))) and isinstance(b, (list, tuple, str, set, frozenset, dict, type(None), int, float, Num, type({}.keys()))) or a is None or b is None:
        r = native(OPF[op], a, b)
        return newlist(r) if isinstance(r, list) else r
    f = getattr(a, '__%s__' % DUNDER[op], None)
    if f is not None:
        r = f(b)
        if r is not NotImplemented: return r
    f = getattr(b, '__r%s__' % DUNDER[op], None)
    if f is not None:
        r = f(a)
        if r is not NotImplemented: return r
    raise VerifierError('operator %s on %r and %r' % (op, type(a), type(b)))

def concat_lists(a, b):
    na, ga = seq_view(a)
    nb, gb = seq_view(b)
    if na == 0 and isinstance(na, int): return SList(nb, gb)
    if nb == 0 and isinstance(nb, int): return SList(na, ga)
    pa = parts(na)[0]
    def get(i):
        p = parts(i)[0]
        d = R.ctx.decide(mk_ge(pa - p - 1))
        if d is True: return ga(i)
        if d is False: return gb(mknum(p - pa, 'int'))
        x, y = UNDEF, UNDEF
        return merge_vals(mk_ge(pa - p - 1), ga(i), gb(mknum(p - pa, 'int')))
    return SList(mknum(pa + parts(nb)[0], 'int'), get)

import operator as _op
OPF = {'+': _op.add, '-': _op.sub, '*': _op.mul, '/': _op.truediv, '//': _op.floordiv, '%': _op.mod, '**': _op.pow, '@': _op.matmul,
       '&': _op.and_, '|': _op.or_, '^': _op.xor, '<<': _op.lshift, '>>': _op.rshift}
IOP = {'+': '+', '-': '-', '*': '*', '/': '/', '//': '//', '%': '%', '**': '**', '&': '&', '|': '|'}

def compare_(op, a, b):
    if isinstance(op, ast.Is): return ident(a, b)
    if isinstance(op, ast.IsNot):
        r = ident(a, b)
        return (not r) if isinstance(r, bool) else ~r
    if isinstance(op, ast.In): return contains(a, b)
    if isinstance(op, ast.NotIn):
        r = contains(a, b)
        return (not r) if isinstance(r, bool) else not_(r)
    if isinstance(op, ast.Eq): return equal(a, b)
    if isinstance(op, ast.NotEq):
        if isinstance(a, (Arr, FArr)) or isinstance(b, (Arr, FArr)):
            o = b if isinstance(a, (Arr, FArr)) else a
            if o is None or isinstance(o, str): return True
            return a != b
        r = equal(a, b)
        return (not r) if isinstance(r, bool) else not_(r)
    s = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)]
    for x, y, o in ((a, b, s), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[s])):
        if hasattr(x, '_model_compare'): return x._model_compare(o, y)
    if isinstance(a, (Arr, FArr)) or isinstance(b, (Arr, FArr)):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str): raise PyExc(TypeError, ("'%s' not supported" % s,))
        return {'<': _op.lt, '<=': _op.le, '>': _op.gt, '>=': _op.ge}[s](a, b)
    if isnum(a) and isnum(b):
        if isinstance(a, int) and isinstance(b, int): return {'<': _op.lt, '<=': _op.le, '>': _op.gt, '>=': _op.ge}[s](a, b)
        if parts(a)[1] == 'complex' or parts(b)[1] == 'complex':
            if not (getattr(a, 'np', False) or getattr(b, 'np', False)): raise PyExc(TypeError, ("'%s' not supported between complex" % s,))
            x, y = parts(a)[0], parts(b)[0]          # numpy: lexicographic
            rx, ry = T.real(x), T.real(y)
            return mkbool(mk_or(cmp_cond(s[0], rx, ry), mk_and(mk_eq(rx - ry), cmp_cond(s, T.imag(x), T.imag(y)))))
        return compare(s, a, b)
    if isinstance(a, (str, tuple, list, set, frozenset)) and isinstance(b, (str, tuple, list, set, frozenset)) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return native({'<': _op.lt, '<=': _op.le, '>': _op.gt, '>=': _op.ge}[s], a, b)
    raise VerifierError('comparison %s of %r and %r' % (s, type(a), type(b)))

def not_(r):
    if isinstance(r, bool): return not r
    if isinstance(r, SBool): return mkbool(mk_not(r.c))
    return not truth(r)

def ident(a, b):
    if a is b: return True
    if isinstance(a, bool) and isinstance(b, SBool): a, b = b, a
    if isinstance(a, SBool) and isinstance(b, bool): return a if b else mkbool(mk_not(a.c))
    if isinstance(a, Bound) and isinstance(b, Bound): return False
    if isinstance(a, (int, str)) and isinstance(b, (int, str)) and type(a) is type(b): return a == b
    return False

# --- values that depend on the loop index -------------------------------------------------------------------------
def subst_val(val, va, i):
    """val with the index atom va replaced by the polynomial i"""
    m = {va: i}
    if isinstance(val, Num): return mknum(subst(val.p, m), val.sort, val.np)
    if isinstance(val, SBool): return mkbool(cond_subst(val.c, m))
    if val is None or isinstance(val, (int, str, float, bool, Cls, Func, Module, NPType, DType)): return val
    if isinstance(val, tuple): return tuple(subst_val(x, va, i) for x in val)
    if isinstance(val, list): return newlist([subst_val(x, va, i) for x in val])
    if isinstance(val, dict): return newlist({k: subst_val(x, va, i) for k, x in val.items()})
    if isinstance(val, Arr):
        if val.sort == 'obj': raise VerifierError('object array in a summarised loop')
        e = val.ent()
        sh = tuple(subst(s, m) for s in val.sh)
        if val.sort == 'bool':
            return mk(sh, 'bool', lambda ix: subst_under(e, ix, va, i, True))
        return mk(sh, val.sort, lambda ix: subst_under(e, ix, va, i, False))
    if isinstance(val, FilterList):
        N, c = val.N, val.c
        return FilterList(subst(N, m), lambda j: subst_underc(c, j, va, i))
    if isinstance(val, SList) and not isinstance(val, DistinctKeys):
        n, g = val.n, val.getter
        def get(j):
            # j may contain va itself: rename it first
            w = fresh('j')
            r = g(mknum(w, 'int'))
            r = subst_val(r, va, i)
            return subst_val(r, symatom(w), parts(j)[0])
        return SList(subst_val(n, va, i), get)
    if isinstance(val, Obj):
        o = Obj(val._cls)
        for k, x in val._attrs.items(): o._attrs[k] = subst_val(x, va, i)
        return o
    if isinstance(val, slice): return slice(*[subst_val(x, va, i) for x in (val.start, val.stop, val.step)])
    if isinstance(val, GroupMap): return val
    raise VerifierError('value of type %s in a summarised loop' % type(val).__name__)

def subst_under(e, ix, va, i, isbool):
    ws = [fresh('w') for _ in ix]
    r = e(tuple(ws))
    m1 = {va: i}
    m2 = {symatom(w): x for w, x in zip(ws, ix)}
    if isinstance(r, Cond): return cond_subst(cond_subst(r, m1), m2)
    return subst(subst(r, m1), m2)

def subst_underc(c, j, va, i):
    w = fresh('w')
    return cond_subst(cond_subst(c(w), {va: i}), {symatom(w): parts(j)[0] if not isinstance(j, Poly) else j})

def merge_vals(c, a, b):
    """if c then a else b"""
    if a is b: return a
    if isnum(a) and isnum(b):
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return mkbool(mk_or(mk_and(c, cond_of(a)), mk_and(mk_not(c), cond_of(b))))
        (p, s), (q, t) = parts(a), parts(b)
        if p is q: return a
        return mknum(ite(c, p, q), join_sort(s, t), getattr(a, 'np', False))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_vals(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim != b.ndim: raise VerifierError('arrays of different dimensions merged')
        for x, y in zip(a.sh, b.sh):
            if x is not y and not R.ctx.prove(mk_eq(x - y)): raise VerifierError('arrays of different shapes merged')
        e, f = a.ent(), b.ent()
        if a.sort == 'bool' and b.sort == 'bool':
            return mk(a.sh, 'bool', lambda ix: mk_or(mk_and(c, e(ix)), mk_and(mk_not(c), f(ix))))
        s = join_sort(a.sort, b.sort)
        return mk(a.sh, s, lambda ix: ite(c, e(ix), f(ix)))
    if isinstance(a, str) and isinstance(b, str) and a == b: return a
    raise VerifierError('merging of %s and %s' % (type(a).__name__, type(b).__name__))

def merge_paths(outs, what):
    """outs: list of (conds, value)"""
    r = outs[-1][1]
    for conds, v in reversed(outs[:-1]):
        r = merge_vals(mk_and(*conds), v, r)
    return r

def template(n, get, fn):
    """Evaluate fn(get(v)) for a generic index v; result as function of the index."""
    v = fresh('i')
    va = symatom(v)
    np_ = parts(n)[0]
    effects = []
    def run():
        with_range(v, np_)
        if R.ctx.infeasible(): raise PathEnd()
        j0 = len(R.journal)
        i0 = _ids[0]
        b0 = bufid()
        try: r = fn(get(mknum(v, 'int')))
        except PyExc as e:
            return ('raise', e)
        for kind, obj, _ in R.journal[j0:]:
            if kind == 'buf' and obj.id <= b0: effects.append(obj)
            if kind in ('attr',) and obj[0]._id <= i0: effects.append(obj)
            if kind in ('list', 'dict') and serial(obj) <= i0: effects.append(obj)
        return ('ok', freeze(r))
    outs = run_local(run)
    if effects: raise VerifierError('comprehension with side effects')
    if not outs: return None
    bad = [(c, r) for c, r in outs if r[0] == 'raise']
    for conds, (_, e) in bad:
        c = mk_ex(va, 0, np_, mk_and(*conds))
        if R.decide(c): raise e
    good = [(c, r[1]) for c, r in outs if r[0] == 'ok']
    if not good: return None
    r = merge_paths(good, 'comprehension')
    return lambda i: subst_val(r, va, parts(i)[0])

def freeze(r):
    """detach arrays from their buffers"""
    if isinstance(r, Arr): return mk(r.sh, r.sort, r.ent())
    if isinstance(r, tuple): return tuple(freeze(x) for x in r)
    return r

def bufid():
    from .nparr import Buf
    return Buf._n

# --- expressions ---------------------------------------------------------------------------------------------------
def ev(n, env):
    return EV[type(n)](n, env) if type(n) in EV else unsupported(n)

def unsupported(n): raise VerifierError('unsupported syntax: %s (line %s)' % (type(n).__name__, getattr(n, 'lineno', '?')))

def ev_const(n, env):
    v = n.value
    if isinstance(v, bool) or v is None or isinstance(v, (int, str, bytes)) or v is Ellipsis: return v
    if isinstance(v, float):
        if v in (float('inf'), float('-inf')): return Num(T.INF if v > 0 else -T.INF, 'real')
        return Num(P(Q(repr(v))), 'real')
    if isinstance(v, complex):
        return Num(P(Q(repr(v.real))) + P(Q(repr(v.imag))) * T.I, 'complex')
    unsupported(n)

def ev_binop(n, env):
    return binary(BINOPS[type(n.op)], ev(n.left, env), ev(n.right, env))

def ev_unary(n, env):
    v = ev(n.operand, env)
    if isinstance(n.op, ast.Not):
        if isinstance(v, SBool): return mkbool(mk_not(v.c))
        return not truth(v)
    if isinstance(v, bool): v = int(v)
    if isinstance(v, SBool) and not isinstance(n.op, ast.Invert): v = mknum(ind(v.c), 'int')
    if isinstance(v, Obj):
        f, _ = v._cls.lookup({ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(n.op)])
        if f is None: raise PyExc(TypeError, ('bad operand type for unary',))
        return call(f, (v,), {})
    if v is None or isinstance(v, (str, list, tuple)): raise PyExc(TypeError, ('bad operand type for unary',))
    if isinstance(n.op, ast.USub): return -v
    if isinstance(n.op, ast.UAdd): return +v
    return ~v

SAFE = (ast.Name, ast.Attribute, ast.Constant, ast.Compare, ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.operator, ast.cmpop, ast.unaryop,
        ast.boolop, ast.expr_context)
def safe(n): return all(isinstance(x, SAFE) and not isinstance(x, (ast.Div, ast.FloorDiv, ast.Mod)) for x in ast.walk(n))

def ev_boolop(n, env):
    isand = isinstance(n.op, ast.And)
    acc = None
    for k, x in enumerate(n.values):
        last = k == len(n.values) - 1
        v = ev(x, env)
        if isinstance(v, (SBool, bool)) and (last or all(safe(y) for y in n.values[k + 1:])) :
            if acc is None: acc = v
            else:
                acc = mkbool(mk_and(cond_of(acc), cond_of(v)) if isand else mk_or(cond_of(acc), cond_of(v)))
            if isinstance(acc, bool) and acc != isand: return acc
            if last: return acc
            continue
        if acc is not None:
            t = truth(acc)
            if t != isand: return acc if isinstance(acc, bool) else t
            acc = None
        if last: return v
        t = truth(v)
        if t != isand: return v if not isinstance(v, SBool) else t
    return acc

def ev_compare(n, env):
    l = ev(n.left, env)
    acc = TRUE
    for k, (op, r) in enumerate(zip(n.ops, n.comparators)):
        rv = ev(r, env)
        v = compare_(op, l, rv)
        if len(n.ops) == 1: return v
        if isinstance(v, (bool, SBool)):
            acc = mk_and(acc, cond_of(v))
            if acc is FALSE: return False
        else:
            raise VerifierError('chained array comparison')
        l = rv
    return mkbool(acc)

def ev_ifexp(n, env):
    c = ev(n.test, env)
    return ev(n.body, env) if truth(c) else ev(n.orelse, env)

def ev_call(n, env):
    if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
        return Super(env.selfcls, env.selfobj)
    if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'globals'): raise VerifierError(n.func.id)
    f = ev(n.func, env)
    args = []
    for a in n.args:
        if isinstance(a, ast.Starred): args.extend(iter_native(ev(a.value, env)))
        else: args.append(ev(a, env))
    kw = {}
    for k in n.keywords:
        if k.arg is None:
            d = ev(k.value, env)
            if not isinstance(d, dict): raise VerifierError('** of a non-dict')
            kw.update(d)
        else: kw[k.arg] = ev(k.value, env)
    return call(f, args, kw)

def ev_listcomp(n, env):
    return comp(n.generators, lambda e: ev(n.elt, e), env)

def comp(gens, elt, env):
    out = comp_level(gens, 0, elt, Env(env, env.mod), [])
    return newlist(out) if isinstance(out, list) else out

def comp_level(gens, k, elt, env, out):
    if k == len(gens):
        out.append(elt(env))
        return out
    g = gens[k]
    it = ev(g.iter, env)
    s = symbolic_seq(it)
    if s is not None:
        if len(gens) > 1 or out: raise VerifierError('nested comprehension over symbolic lengths')
        n, get = s
        if isinstance(it, FilterList): return comp_filtered(g, it, elt, env)
        if g.ifs:
            # filtered list: positions with the condition, values elt
            def body(x):
                e = Env(env, env.mod)
                bind_target(g.target, x, e)
                c = TRUE
                for t in g.ifs:
                    r = ev(t, e)
                    c = mk_and(c, cond_of(r if isnum(r) else truth(r)))
                return (mkbool(c) if True else None, elt(e))
            t = template(n, get, body)
            if t is None: return []
            v = fresh('x')
            return FilterValues(parts(n)[0], lambda i: cond_of(t(mknum(i, 'int'))[0]), lambda i: t(mknum(i, 'int'))[1]).tidy()
        def body(x):
            e = Env(env, env.mod)
            bind_target(g.target, x, e)
            return elt(e)
        t = template(n, get, body)
        if t is None: return []
        return SList(n, t)
    for x in iter_native(it):
        e = Env(env, env.mod) if k == 0 else env
        bind_target(g.target, x, e)
        ok = True
        for c in g.ifs:
            if not truth(ev(c, e)): ok = False; break
        if ok:
            r = comp_level(gens, k + 1, elt, e, out)
            if r is not out: 
                if len(gens) == 1: raise VerifierError('comprehension')
                raise VerifierError('nested comprehension over symbolic lengths')
    return out

def comp_filtered(g, it, elt, env):
    if g.ifs: raise VerifierError('filtered comprehension over a filtered list')
    def body(x):
        e = Env(env, env.mod)
        bind_target(g.target, x, e)
        return elt(e)
    # elements are the positions themselves
    v = fresh('x')
    t = template(mknum(it.N, 'int'), lambda i: i, body)
    if t is None: return []
    return FilterValues(it.N, it.c, lambda i: t(mknum(i, 'int'))).tidy()

class FilterValues(SList):
    """the values e(i) for ascending i in [0,N) with c(i)"""
    def __init__(self, N, c, e):
        self.N, self.c, self.e = N, c, e
        self.tag = None
    def tidy(self):
        v = fresh('x')
        r = self.e(v)
        if isinstance(r, Num) and r.p is v: return FilterList(self.N, self.c)
        return self
    def length(self):
        v = fresh('s')
        return mknum(psum(symatom(v), 0, self.N, ind(self.c(v))), 'int')
    @property
    def n(self): return self.length()
    def get(self, i): raise VerifierError('element of a filtered list')
    getter = get
    def as_farr(self):
        v = fresh('x')
        s = parts(self.e(v))[1]
        return FArr(self.N, self.c, lambda i: parts(self.e(i))[0], s)

def ev_dictcomp(n, env):
    out = comp(n.generators, lambda e: (ev(n.key, e), ev(n.value, e)), env)
    if not isinstance(out, list): raise VerifierError('dict comprehension over a symbolic length')
    d = newlist({})
    for k, v in out:
        setitem_(d, k, v)
    return d

def ev_setcomp(n, env):
    out = comp(n.generators, lambda e: ev(n.elt, e), env)
    if not isinstance(out, list): raise VerifierError('set comprehension over a symbolic length')
    return native(set, out)

def ev_subscript(n, env):
    return getitem_(ev(n.value, env), ev(n.slice, env))

def ev_slice(n, env):
    return slice(*[None if x is None else ev(x, env) for x in (n.lower, n.upper, n.step)])

def ev_list(n, env):
    return newlist(seq_elts(n, env))

def seq_elts(n, env):
    out = []
    for x in n.elts:
        if isinstance(x, ast.Starred): out.extend(iter_native(ev(x.value, env)))
        else: out.append(ev(x, env))
    return out

def ev_dict(n, env):
    d = newlist({})
    for k, v in zip(n.keys, n.values):
        if k is None:
            d.update(ev(v, env))
        else:
            kv = ev(k, env)
            x = dict_find(d, kv)
            d[kv if x is UNDEF else x] = ev(v, env)
    return d

def ev_fstring(n, env):
    s = ''
    for v in n.values:
        if isinstance(v, ast.Constant): s += v.value
        else:
            x = ev(v.value, env)
            spec = ev_fstring(v.format_spec, env) if v.format_spec is not None else ''
            s += native(format, Fmt(x), spec)
    return s

def ev_lambda(n, env):
    f = Func(n, env, env.mod)
    f.defaults = [ev(d, env) for d in n.args.defaults]
    f.kwdefaults = {a.arg: ev(d, env) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
    return f

def ev_walrus(n, env):
    v = ev(n.value, env)
    env.set(n.target.id, v)
    return v

def ev_yield(n, env):
    e = env
    while e.yields is None: e = e.parent
    e.yields.append(ev(n.value, env) if n.value else None)
    return None

def ev_yieldfrom(n, env):
    e = env
    while e.yields is None: e = e.parent
    e.yields.extend(iter_native(ev(n.value, env)))

EV = {ast.Constant: ev_const, ast.Name: lambda n, e: e.get(n.id), ast.Attribute: lambda n, e: getattr_(ev(n.value, e), n.attr),
      ast.BinOp: ev_binop, ast.UnaryOp: ev_unary, ast.BoolOp: ev_boolop, ast.Compare: ev_compare, ast.IfExp: ev_ifexp, ast.Call: ev_call,
      ast.ListComp: ev_listcomp, ast.GeneratorExp: ev_listcomp, ast.DictComp: ev_dictcomp, ast.SetComp: ev_setcomp, ast.Subscript: ev_subscript, ast.Slice: ev_slice,
      ast.List: ev_list, ast.Tuple: lambda n, e: tuple(seq_elts(n, e)), ast.Set: lambda n, e: native(set, seq_elts(n, e)), ast.Dict: ev_dict,
      ast.JoinedStr: ev_fstring, ast.Lambda: ev_lambda, ast.NamedExpr: ev_walrus, ast.Yield: ev_yield, ast.YieldFrom: ev_yieldfrom}

# --- calls -----------------------------------------------------------------------------------------------------------
DEPTH = [0]

def call(f, args, kw):
    if isinstance(f, Bound): return call_func(f.f, (f.obj,) + tuple(args), kw)
    if isinstance(f, Func): return call_func(f, tuple(args), kw)
    if isinstance(f, Cls): return instantiate(f, args, kw)
    if isinstance(f, Obj):
        g, _ = f._cls.lookup('__call__')
        if g is None: raise PyExc(TypeError, ("'%s' object is not callable" % f._cls.name,))
        return call_func(g, (f,) + tuple(args), kw)
    if isinstance(f, Static): return call(f.f, args, kw)
    if isinstance(f, (DType, NPType)) or f in BUILTIN_TYPES if isinstance(f, type) else False: pass
    if f is None or isnum(f) or isinstance(f, (str, list, tuple, dict, Arr)): raise PyExc(TypeError, ("'%s' object is not callable" % type(f).__name__,))
    if isinstance(f, type) and issubclass(f, BaseException): return ExcObj(PyExc(f, tuple(args)))
    if not callable(f): raise VerifierError('call of %r' % (f,))
    try:
        return f(*args, **kw)
    except (PyExc, PathEnd, VerifierError, RecursionError, MemoryError): raise
    except TypeError as e:
        # a wrong argument list of a modelled function: not decided here
        raise VerifierError('call of %s: TypeError %s' % (getattr(f, '__name__', f), e)) from e
    except LinAlgError as e: raise PyExc(LinAlgError, e.args)
    except Exception as e:
        raise VerifierError('model %s: %s %s' % (getattr(f, '__name__', f), type(e).__name__, e)) from e

BUILTIN_TYPES = set()

def bind_args(f, args, kw):
    a = f.node.args
    vars = {}
    pos = [x.arg for x in a.posonlyargs + a.args]
    kw = dict(kw)
    if len(args) > len(pos) and a.vararg is None:
        raise PyExc(TypeError, ('%s() takes %d positional arguments but %d were given' % (f.name, len(pos), len(args)),))
    for n, v in zip(pos, args): vars[n] = v
    if a.vararg is not None: vars[a.vararg.arg] = tuple(args[len(pos):])
    for k in list(kw):
        if k in pos:
            if k in vars: raise PyExc(TypeError, ("%s() got multiple values for argument '%s'" % (f.name, k),))
            vars[k] = kw.pop(k)
    nd = len(f.defaults)
    for i, n in enumerate(pos):
        if n not in vars:
            j = i - (len(pos) - nd)
            if j < 0: raise PyExc(TypeError, ("%s() missing required argument: '%s'" % (f.name, n),))
            vars[n] = f.defaults[j]
    for x in a.kwonlyargs:
        if x.arg in kw: vars[x.arg] = kw.pop(x.arg)
        elif x.arg in f.kwdefaults: vars[x.arg] = f.kwdefaults[x.arg]
        else: raise PyExc(TypeError, ("%s() missing keyword-only argument '%s'" % (f.name, x.arg),))
    if a.kwarg is not None: vars[a.kwarg.arg] = newlist(kw)
    elif kw: raise PyExc(TypeError, ("%s() got an unexpected keyword argument '%s'" % (f.name, next(iter(kw))),))
    return vars

def call_func(f, args, kw):
    pk = PKG[0]
    q = f.qualname
    pk.calls[q] = pk.calls.get(q, 0) + 1
    if q in pk.subst:
        r = pk.subst[q](f, args, kw)
        if r is not NotImplemented: return r
    env = Env(f.env, f.mod, bind_args(f, args, kw))
    env.func = f
    if f.cls is not None:
        env.selfcls = f.cls
        env.selfobj = args[0] if args else None
    DEPTH[0] += 1
    try:
        if DEPTH[0] > 60: raise VerifierError('recursion too deep')
        if isinstance(f.node, ast.Lambda): return ev(f.node.body, env)
        if f.isgen: env.yields = []
        s = exec_block(f.node.body, env)
        if f.isgen: return newlist(env.yields)
        return s[1] if s is not None and s[0] == 'return' else None
    finally:
        DEPTH[0] -= 1

def instantiate(c, args, kw):
    if hasattr(c, 'native_new'): return c.native_new(*args, **kw)
    ab = [k for k in all_attrs(c) if isabstract(c.lookup(k)[0])]
    if ab and any(getattr(b, 'is_abc', False) for d in c.mro for b in d.bases):
        raise PyExc(TypeError, ("Can't instantiate abstract class %s" % c.name,))
    o = Obj(c)
    f, _ = c.lookup('__init__')
    if f is not None: call_func(f, (o,) + tuple(args), kw)
    else:
        nb = c.native_base()
        if nb is not None and issubclass(nb, BaseException): o._attrs['_args'] = tuple(args)
        elif args or kw: raise PyExc(TypeError, ('%s() takes no arguments' % c.name,))
    return o

def all_attrs(c):
    s = []
    for d in c.mro:
        for k in d.vars:
            if k not in s: s.append(k)
    return s

def isabstract(v):
    if isinstance(v, Func): return v.abstract
    if isinstance(v, Prop): return v.fget.abstract if isinstance(v.fget, Func) else False
    if isinstance(v, (Static, ClassM)): return isinstance(v.f, Func) and v.f.abstract
    return False

def isinstance_(o, t):
    if isinstance(t, tuple): return any(isinstance_(o, x) for x in t)
    if isinstance(t, Cls): return isinstance(o, Obj) and t in o._cls.mro
    if isinstance(o, ExcObj) and isinstance(t, type): return isinstance(o.e.cls, type) and issubclass(o.e.cls, t)
    if isinstance(o, Obj): 
        nb = o._cls.native_base()
        return (t is object) or (isinstance(t, type) and nb is not None and issubclass(nb, t))
    if t is object: return True
    if isinstance(t, BType): return t.check(o)
    if isinstance(t, NPType):
        if isinstance(o, Num): return o.np and o.sort == t.sort
        if isinstance(o, SBool): return t.sort == 'bool'
        return False
    if getattr(t, 'is_ndarray', False): return isinstance(o, (Arr, FArr))
    if hasattr(t, '_model_instancecheck'): return t._model_instancecheck(o)
    if isinstance(t, type):
        if t.__module__ in ('builtins', 'collections', 'collections.abc', 'numbers', 'enum'): 
            if isinstance(o, (Arr, Num, SBool, SList, GroupMap, SRange)): return False
        return isinstance(o, t)
    from .npfun import Abstract
    if isinstance(t, Abstract): return isinstance(o, Num) and o.np and o.sort in t.sorts
    raise VerifierError('isinstance(%r, %r)' % (o, t))

class BType:
    """builtin type with a symbolic reading"""
    def __init__(self, name, check, new, native_): self.__name__, self.check, self.new, self.native = name, check, new, native_
    def __call__(self, *a, **k): return self.new(*a, **k)
    def __repr__(self): return self.__name__
    def __eq__(self, o): return o is self or o is self.native
    def __hash__(self): return hash(self.native)
    def _model_getattr(self, k, default=UNDEF):
        if k == '__name__': return self.__name__
        if k == 'fromkeys' and self.native is dict: return lambda ks, v=None: newlist({x: v for x in iter_native(ks)})
        if self.native is str: return lambda *a: getattr_(a[0], k)(*a[1:])
        raise VerifierError('%s.%s' % (self.__name__, k))

# --- statements --------------------------------------------------------------------------------------------------------
def exec_block(body, env):
    for st in body:
        s = exec_stmt(st, env)
        if s is not None: return s
    return None

def exec_stmt(st, env):
    f = EX.get(type(st))
    if f is None: unsupported(st)
    return f(st, env)

def bind_target(t, v, env):
    if isinstance(t, ast.Name): env.set(t.id, v)
    elif isinstance(t, (ast.Tuple, ast.List)): unpack(t.elts, v, env)
    elif isinstance(t, ast.Subscript): setitem_(ev(t.value, env), ev(t.slice, env), v)
    elif isinstance(t, ast.Attribute): setattr_(ev(t.value, env), t.attr, v)
    elif isinstance(t, ast.Starred): bind_target(t.value, v, env)
    else: unsupported(t)

def unpack(elts, v, env):
    if isinstance(v, Arr):
        m = int_of(R.ctx.rw(v.sh[0]))
        if m is None:
            if not any(isinstance(e, ast.Starred) for e in elts):
                if R.decide(mk_eq(v.sh[0] - len(elts))): items = [v[i] for i in range(len(elts))]
                else: raise PyExc(ValueError, ('wrong number of values to unpack',))
            else: raise VerifierError('unpacking of a symbolic array')
        else: items = [v[i] for i in range(m)]
    elif isinstance(v, SList) and symbolic_seq(v) is not None:
        if not any(isinstance(e, ast.Starred) for e in elts):
            if R.decide(mk_eq(parts(v.n)[0] - len(elts))): items = [v.get(i) for i in range(len(elts))]
            else: raise PyExc(ValueError, ('wrong number of values to unpack',))
        else: raise VerifierError('unpacking of a symbolic list')
    else: items = iter_native(v)
    star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
    if star:
        i = star[0]
        after = len(elts) - i - 1
        if len(items) < len(elts) - 1: raise PyExc(ValueError, ('not enough values to unpack',))
        for e, x in zip(elts[:i], items[:i]): bind_target(e, x, env)
        bind_target(elts[i], newlist(items[i:len(items) - after]), env)
        for e, x in zip(elts[i + 1:], items[len(items) - after:]): bind_target(e, x, env)
        return
    if len(items) != len(elts):
        raise PyExc(ValueError, ('too many values to unpack' if len(items) > len(elts) else 'not enough values to unpack',))
    for e, x in zip(elts, items): bind_target(e, x, env)

def ex_assign(st, env):
    v = ev(st.value, env)
    for t in st.targets: bind_target(t, v, env)

def ex_annassign(st, env):
    if st.value is not None: bind_target(st.target, ev(st.value, env), env)

def ex_aug(st, env):
    op = BINOPS[type(st.op)]
    t = st.target
    if isinstance(t, ast.Name):
        cur = env.get(t.id)
        r = aug(op, cur, ev(st.value, env))
        env.set(t.id, r)
    elif isinstance(t, ast.Attribute):
        o = ev(t.value, env)
        cur = getattr_(o, t.attr)
        setattr_(o, t.attr, aug(op, cur, ev(st.value, env)))
    elif isinstance(t, ast.Subscript):
        o = ev(t.value, env)
        k = ev(t.slice, env)
        cur = getitem_(o, k)
        r = aug(op, cur, ev(st.value, env))
        if not (isinstance(o, Arr) and isinstance(r, Arr) and r is cur and isinstance(cur, Arr) and cur.buf is o.buf):
            setitem_(o, k, r)
    else: unsupported(t)

def aug(op, cur, v):
    if isinstance(cur, Arr) and op in IOP and cur.ndim > 0 or isinstance(cur, Arr) and cur.ndim == 0:
        if op == '@': return binary('@', cur, v)
        if v is None or isinstance(v, str): raise PyExc(TypeError, ('unsupported operand',))
        if isinstance(v, (list, tuple)): v = as_arr(v)
        inplace(op, cur, v)
        return cur
    if isinstance(cur, list) and op == '+':
        list_method(cur, 'extend', (v,), {})
        return cur
    if isinstance(cur, Obj):
        f, _ = cur._cls.lookup('__i%s__' % DUNDER[op])
        if f is not None: return call(f, (cur, v), {})
    return binary(op, cur, v)

def ex_if(st, env):
    return exec_block(st.body, env) if truth(ev(st.test, env)) else exec_block(st.orelse, env)

def ex_return(st, env): return ('return', ev(st.value, env) if st.value is not None else None)

def ex_raise(st, env):
    if st.exc is None:
        cur = env
        while cur is not None:
            if '%exc' in cur.vars: raise cur.vars['%exc']
            cur = cur.parent
        raise VerifierError('bare raise')
    e = ev(st.exc, env)
    if isinstance(e, ExcObj): raise e.e
    if isinstance(e, PyExc): raise e
    if isinstance(e, type) and issubclass(e, BaseException): raise PyExc(e, ())
    if isinstance(e, Cls): raise PyExc(e, ())
    if isinstance(e, Obj): raise PyExc(e._cls, (e,))
    raise VerifierError('raise of %r' % (e,))

def exc_matches(e, t):
    if isinstance(t, tuple): return any(exc_matches(e, x) for x in t)
    if isinstance(t, Cls): return isinstance(e.cls, Cls) and t in e.cls.mro
    if isinstance(e.cls, Cls):
        nb = e.cls.native_base()
        return nb is not None and isinstance(t, type) and issubclass(nb, t)
    if isinstance(t, type): return isinstance(e.cls, type) and issubclass(e.cls, t)
    raise VerifierError('except clause')

def ex_try(st, env):
    s = None
    try:
        try:
            s = exec_block(st.body, env)
        except PyExc as e:
            for h in st.handlers:
                if h.type is None or exc_matches(e, ev(h.type, env)):
                    if h.name: env.set(h.name, ExcObj(e))
                    env.set('%exc', e)
                    s = exec_block(h.body, env)
                    break
            else: raise
        else:
            if s is None: s = exec_block(st.orelse, env)
    finally:
        if st.finalbody:
            f = exec_block(st.finalbody, env)
            if f is not None: return f
    return s

def ex_assert(st, env):
    if not truth(ev(st.test, env)): raise PyExc(AssertionError, ())

def ex_def(st, env):
    f = Func(st, env, env.mod)
    f.defaults = [ev(d, env) for d in st.args.defaults]
    f.kwdefaults = {a.arg: ev(d, env) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None}
    v = f
    for d in reversed(st.decorator_list): v = decorate(d, v, env)
    env.set(st.name, v)

def decorate(d, v, env):
    if isinstance(d, ast.Name):
        if d.id == 'property': return Prop(v)
        if d.id == 'staticmethod': return Static(v)
        if d.id == 'classmethod': return ClassM(v)
        if d.id in ('abstractmethod',):
            (v.fget if isinstance(v, Prop) else v.f if isinstance(v, (Static, ClassM)) else v).abstract = True
            return v
    if isinstance(d, ast.Attribute):
        if d.attr == 'setter':
            p = ev(d.value, env)
            return Prop(p.fget, v)
        if d.attr == 'abstractmethod':
            v.abstract = True
            return v
    f = ev(d, env)
    return call(f, (v,), {})

class AbcBase:
    is_abc = True

def ex_class(st, env):
    bases = []
    for b in st.bases:
        x = ev(b, env)
        bases.append(x)
    for k in st.keywords:
        if k.arg == 'metaclass': bases.append(AbcBase)
    for b in bases:
        if not isinstance(b, Cls) and hasattr(b, 'class_hook'):
            env.set(st.name, b.class_hook(st, env))
            return
    e = Env(env, env.mod)
    for s in st.body:
        if exec_stmt(s, e) is not None: raise VerifierError('class body')
    c = Cls(st.name, bases, e.vars, env.mod)
    for k, v in e.vars.items():
        for f in (v, getattr(v, 'fget', None), getattr(v, 'fset', None), getattr(v, 'f', None)):
            if isinstance(f, Func) and f.cls is None:
                f.cls = c
                f.env = env if f.env is e else f.env
    v = c
    for d in reversed(st.decorator_list): v = decorate(d, v, env)
    env.set(st.name, v)

def ex_import(st, env):
    for a in st.names:
        m = PKG[0].import_(a.name)
        if a.asname: env.set(a.asname, m)
        else:
            top = a.name.split('.')[0]
            env.set(top, PKG[0].import_(top))

def ex_importfrom(st, env):
    if st.level:
        base = env.mod.name.split('.')
        if not env.mod.ispkg: base = base[:-1]
        if st.level > 1: base = base[:-(st.level - 1)]
        name = '.'.join(base + ([st.module] if st.module else []))
        m = PKG[0].load(name)
    else:
        if st.module == '__future__': return
        m = PKG[0].import_(st.module)
        name = st.module
    for a in st.names:
        if a.name == '*':
            if isinstance(m, Module):
                al = m.env.vars.get('__all__')
                for k, v in list(m.env.vars.items()):
                    if (k in al) if al else not k.startswith('_'): env.set(k, v)
            continue
        try: v = getattr_(m, a.name)
        except PyExc:
            if isinstance(m, Module) and getattr(m, 'ispkg', False): v = PKG[0].load(name + '.' + a.name)
            else: raise PyExc(ImportError, (a.name,))
        env.set(a.asname or a.name, v)

def ex_delete(st, env):
    for t in st.targets:
        if isinstance(t, ast.Name):
            vs = env.vars
            if t.id in vs:
                old = vs.pop(t.id)
                R.log('env', (env, t.id), lambda: vs.__setitem__(t.id, old))
        elif isinstance(t, ast.Subscript):
            o, k = ev(t.value, env), ev(t.slice, env)
            if isinstance(o, list): list_method(o, 'pop', (toidx(k),), {}) if not isinstance(k, slice) else (log_list(o), native(o.__delitem__, k))
            elif isinstance(o, dict): dict_method(o, 'pop', (k,), {})
            else: raise VerifierError('del')
        else: raise VerifierError('del')

def ex_global(st, env): env.glob = set(st.names) | (env.glob or set())
def ex_nonlocal(st, env): env.nonloc = set(st.names) | (env.nonloc or set())

def ex_with(st, env):
    for it in st.items:
        c = ev(it.context_expr, env)
        if not hasattr(c, '_model_enter'): raise VerifierError('with statement')
        v = c._model_enter()
        if it.optional_vars is not None: bind_target(it.optional_vars, v, env)
    return exec_block(st.body, env)

def ex_while(st, env):
    k = 0
    tried = False
    while True:
        v = ev(st.test, env)
        if not isinstance(v, bool) and isinstance(v, (SBool, Num)):
            c = cond_of(v)
            d = R.ctx.decide(c)
            if d is None and not tried:
                tried = True
                from . import loops
                r = loops.try_first(st, env, k)
                if r: return exec_block(st.orelse, env)
        if not truth(v): break
        k += 1
        if k > 200: raise VerifierError('while loop without visible bound')
        s = exec_block(st.body, env)
        if s is not None:
            if s[0] == 'break': return None
            if s[0] == 'return': return s
    return exec_block(st.orelse, env)

def ex_for(st, env):
    it = ev(st.iter, env)
    s = symbolic_seq(it)
    if s is not None:
        from . import loops
        n, get = s
        if isinstance(it, FilterList): raise VerifierError('loop over a filtered list')
        r = loops.summarise(st, env, n, get)
        if r is not None: return r
        return exec_block(st.orelse, env)
    if isinstance(it, Iter):
        items = it
        def gen():
            while it.pos < len(it.items): yield it.next(UNDEF)
        seq = gen()
    else:
        seq = list_iter(it)
    for x in seq:
        bind_target(st.target, x, env)
        s = exec_block(st.body, env)
        if s is not None:
            if s[0] == 'break': return None
            if s[0] == 'return': return s
    return exec_block(st.orelse, env)

def list_iter(it):
    """live iteration over native lists, as Python does"""
    if isinstance(it, list):
        check_read(it)
        i = 0
        while i < len(it):
            yield it[i]
            i += 1
    else:
        yield from iter_native(it)

def ex_expr(st, env):
    if isinstance(st.value, ast.Constant): return
    ev(st.value, env)

EX = {ast.Assign: ex_assign, ast.AnnAssign: ex_annassign, ast.AugAssign: ex_aug, ast.If: ex_if, ast.Return: ex_return, ast.Raise: ex_raise,
      ast.Try: ex_try, ast.Assert: ex_assert, ast.FunctionDef: ex_def, ast.ClassDef: ex_class, ast.Import: ex_import, ast.ImportFrom: ex_importfrom,
      ast.Delete: ex_delete, ast.Global: ex_global, ast.Nonlocal: ex_nonlocal, ast.With: ex_with, ast.While: ex_while, ast.For: ex_for,
      ast.Expr: ex_expr, ast.Pass: lambda s, e: None, ast.Break: lambda s, e: ('break',), ast.Continue: lambda s, e: ('continue',)}

# --- builtins ------------------------------------------------------------------------------------------------------------
def b_range(*a):
    for x in a:
        if isinstance(x, Num) and x.sort != 'int' or isinstance(x, (float, Arr)) and not (isinstance(x, Arr) and x.ndim == 0):
            raise PyExc(TypeError, ("'float' object cannot be interpreted as an integer",))
        if x is None or isinstance(x, (str, list, tuple)): raise PyExc(TypeError, ('cannot be interpreted as an integer',))
    v = [mknum(R.ctx.rw(parts(x)[0]), 'int') if isinstance(x, (Num, SBool)) else x for x in a]
    if all(isinstance(x, int) for x in v): return native(range, *v)
    if len(v) == 1: v = [0, v[0]]
    if len(v) == 2: v.append(1)
    return SRange(*v)

def b_enumerate(x, start=0):
    s = symbolic_seq(x)
    if s is not None:
        n, g = s
        return SList(n, lambda i: (i + start, g(i)))
    return [(i + start, y) for i, y in enumerate(iter_native(x))]

def b_zip(*xs):
    ss = [symbolic_seq(x) for x in xs]
    if not any(s is not None for s in ss): return list(zip(*[iter_native(x) for x in xs]))
    ns, gs = [], []
    for x, s in zip(xs, ss):
        if s is None:
            it = list(iter_native(x))
            s = (len(it), lambda i, it=it: getitem_(it, i))
        ns.append(s[0]); gs.append(s[1])
    n = parts(ns[0])[0]
    for m in ns[1:]: n = smin(n, parts(m)[0])
    m = int_of(R.ctx.rw(n))
    if m is not None: return [tuple(g(i) for g in gs) for i in range(m)]
    return SList(mknum(n, 'int'), lambda i: tuple(g(i) for g in gs))

def b_map(f, *xs):
    if len(xs) == 1: 
        s = symbolic_seq(xs[0])
        if s is not None:
            t = template(s[0], s[1], lambda x: call(f, (x,), {}))
            return SList(s[0], t) if t is not None else newlist([])
    z = b_zip(*xs)
    s = symbolic_seq(z)
    if s is not None:
        t = template(s[0], s[1], lambda x: call(f, x, {}))
        return SList(s[0], t)
    return newlist([call(f, x, {}) for x in z])

def b_filter(f, x):
    return newlist([y for y in iter_native(x) if truth(call(f, (y,), {}) if f is not None else y)])

def sum_over(s, start):
    n, g = s
    v = fresh('s')
    with_r = R.ctx.mark()
    with_range(v, parts(n)[0])
    x = g(mknum(v, 'int'))
    R.ctx.restore(with_r)
    va = symatom(v)
    if isinstance(x, Arr):
        e = x.ent()
        def f(ix):
            w = [fresh('w') for _ in ix]
            r = psum(va, 0, parts(n)[0], e(tuple(w)))
            return subst(r, {symatom(a): b for a, b in zip(w, ix)})
        return binary('+', start, mk(x.sh, x.sort if x.sort != 'bool' else 'int', f))
    p, s_ = parts(x)
    return binary('+', start, mknum(psum(va, 0, parts(n)[0], p), s_))

def b_sum(x, start=0):
    if isinstance(x, FilterList):
        v = fresh('s')
        return mknum(psum(symatom(v), 0, x.N, ind(x.c(v)) * v), 'int')
    if isinstance(x, FilterValues):
        v = fresh('s')
        p, s = parts(x.e(v))
        return binary('+', start, mknum(psum(symatom(v), 0, x.N, ind(x.c(v)) * p), s))
    s = symbolic_seq(x)
    if s is not None: return sum_over(s, start)
    r = start
    for y in iter_native(x):
        r = binary('+', r, y)
    return r

def minmax(name):
    def f(*a, key=None, default=UNDEF):
        from . import npfun
        if len(a) == 1:
            x = a[0]
            s = symbolic_seq(x)
            if s is not None:
                if key is not None: raise VerifierError('min/max with key')
                arr = as_arr(x)
                return npfun.amin(arr) if name == 'min' else npfun.amax(arr)
            items = iter_native(x)
        else: items = list(a)
        if not items:
            if default is not UNDEF: return default
            raise PyExc(ValueError, ('%s() arg is an empty sequence' % name,))
        best = items[0]
        bk = call(key, (best,), {}) if key is not None else best
        for y in items[1:]:
            yk = call(key, (y,), {}) if key is not None else y
            if key is None and isnum(bk) and isnum(yk):
                if isinstance(bk, int) and isinstance(yk, int): best = bk = (min if name == 'min' else max)(bk, yk); continue
                (p, s1), (q, s2) = parts(bk), parts(yk)
                if s1 == s2:
                    best = bk = mknum((smin if name == 'min' else smax)(p, q), s1)
                    continue
            lt = compare_(ast.Lt(), yk, bk) if name == 'min' else compare_(ast.Gt(), yk, bk)
            if truth(lt): best, bk = y, yk
        return best
    f.__name__ = name
    return f

def b_any(x):
    s = symbolic_seq(x)
    if s is not None:
        n, g = s
        v = fresh('x')
        mkk = R.ctx.mark(); with_range(v, parts(n)[0]); e = g(mknum(v, 'int')); R.ctx.restore(mkk)
        return mkbool(mk_ex(symatom(v), 0, parts(n)[0], cond_of(e)))
    for y in iter_native(x):
        if truth(y): return True
    return False

def b_all(x):
    s = symbolic_seq(x)
    if s is not None:
        n, g = s
        v = fresh('x')
        mkk = R.ctx.mark(); with_range(v, parts(n)[0]); e = g(mknum(v, 'int')); R.ctx.restore(mkk)
        return mkbool(mk_all(symatom(v), 0, parts(n)[0], cond_of(e)))
    for y in iter_native(x):
        if not truth(y): return False
    return True

def sorted_(x, key=None, reverse=False):
    if isinstance(x, DistinctKeys): return x.sorted()
    if isinstance(x, GroupMap): return x.keys().sorted()
    if symbolic_seq(x) is not None: raise VerifierError('sorted() of a symbolic list')
    items = list(iter_native(x))
    ks = [call(key, (y,), {}) for y in items] if key is not None else items
    if not any(isinstance(k, (Num, SBool, tuple)) for k in ks):
        r = [y for _, _, y in sorted(((k, i, y) for i, (k, y) in enumerate(zip(ks, items))), key=lambda t: t[:1], reverse=truth(reverse))]
        return newlist(r)
    # insertion sort, forking on undecided comparisons
    out = []
    for k, y in zip(ks, items):
        pos = len(out)
        while pos > 0 and truth(compare_(ast.Lt(), k, out[pos - 1][0]) if not truth(reverse) else compare_(ast.Gt(), k, out[pos - 1][0])): pos -= 1
        out.insert(pos, (k, y))
    return newlist([y for _, y in out])

def b_int(x=0, *a):
    if isinstance(x, str): return native(int, x, *a)
    if isinstance(x, Arr):
        x = x.item()
    if isinstance(x, (int, bool)): return int(x)
    if isinstance(x, SBool): return mknum(ind(x.c), 'int')
    if isinstance(x, Num):
        if x.sort == 'complex': raise PyExc(TypeError, ("can't convert complex to int",))
        return mknum(x.p if x.sort == 'int' else T.fn('trunc', x.p), 'int')
    if isinstance(x, float): return native(int, x)
    raise PyExc(TypeError, ('int() argument',))

def b_float(x=0):
    if isinstance(x, str):
        v = native(float, x)
        return Num(P(Q(repr(v))) if abs(v) != float('inf') and v == v else (T.INF if v > 0 else -T.INF if v < 0 else T.NAN), 'real')
    if isinstance(x, Arr): x = x.item()
    if isnum(x):
        p, s = parts(x)
        if s == 'complex': raise PyExc(TypeError, ("can't convert complex to float",))
        return Num(p, 'real')
    raise PyExc(TypeError, ('float() argument must be a string or a number',))

def b_complex(x=0, y=0):
    return Num(parts(x)[0] + T.I * parts(y)[0], 'complex')

def b_list(x=()):
    if isinstance(x, FilterList): return FilterList(x.N, x.c)
    if isinstance(x, DistinctKeys): return x
    s = symbolic_seq(x)
    if s is not None: return SList(*s)
    return newlist(list(iter_native(x)))

def b_tuple(x=()):
    s = symbolic_seq(x)
    if s is not None: return SList(*s)
    return tuple(iter_native(x))

def b_dict(*a, **k):
    d = newlist({})
    if a:
        if isinstance(a[0], dict): d.update(a[0])
        else:
            for kk, v in [iter_native(z) for z in iter_native(a[0])]: setitem_(d, kk, v)
    d.update(k)
    return d

def b_isinstance(o, t): return isinstance_(o, t)
def b_issubclass(c, t):
    if isinstance(t, tuple): return any(b_issubclass(c, x) for x in t)
    if isinstance(c, Cls): return t in c.mro or t is object
    if isinstance(c, type) and isinstance(t, type): return issubclass(c, t)
    return c is t

def b_type(o, *a):
    if a: raise VerifierError('type() with three arguments')
    if isinstance(o, Obj): return o._cls
    if isinstance(o, (Arr, FArr)): return BUILTINS['%ndarray']
    if isinstance(o, bool) or isinstance(o, SBool): return BUILTINS['bool']
    if isinstance(o, int): return BUILTINS['int']
    if isinstance(o, Num):
        return BUILTINS[{'int': 'int', 'real': 'float', 'complex': 'complex'}[o.sort]]
    if isinstance(o, ExcObj): return o.e.cls
    for n in ('str', 'list', 'tuple', 'dict'):
        if BUILTINS[n].check(o): return BUILTINS[n]
    return type(o)

def b_abs(x):
    if isinstance(x, (Arr, FArr)): return abs(x)
    if isinstance(x, (int, float)): return abs(x)
    if isnum(x): return num_abs(x)
    if isinstance(x, Obj): return call(getattr_(x, '__abs__'), (), {})
    raise PyExc(TypeError, ('bad operand type for abs()',))

def b_round(x, n=None):
    if isinstance(x, int): return x
    if isinstance(x, Num) and x.sort == 'int': return x
    p = parts(x)[0]
    if n is not None: raise VerifierError('round')
    return mknum(T.fn('round', p), 'int')

def b_divmod(a, b): return (binary('//', a, b), binary('%', a, b))
def b_pow(a, b): return binary('**', a, b)

def b_getattr(o, k, d=UNDEF):
    try: return getattr_(o, k, d)
    except PyExc as e:
        if e.cls is AttributeError and d is not UNDEF: return d
        raise
def b_hasattr(o, k):
    try: return getattr_(o, k, None) is not None or b_getattr(o, k, UNDEF) is None
    except PyExc as e:
        if e.cls is AttributeError: return False
        raise

def b_reversed(x):
    s = symbolic_seq(x)
    if s is not None:
        n, g = s
        return SList(n, lambda i: g(mknum(parts(n)[0] - 1 - parts(i)[0], 'int')))
    return newlist(list(reversed(list(iter_native(x)))))

def b_iter(x): return x if isinstance(x, Iter) else Iter(iter_native(x))
def b_next(x, d=UNDEF):
    if isinstance(x, Iter): return x.next(d)
    if isinstance(x, list):      # generator, evaluated eagerly
        if x: return x[0]
        if d is not UNDEF: return d
        raise PyExc(StopIteration)
    raise VerifierError('next()')

def b_set(x=()):
    items = iter_native(x)
    if any(isinstance(y, Num) for y in items): raise VerifierError('set of symbolic values')
    return native(set, items)

def b_callable(x):
    return isinstance(x, (Func, Bound, Cls, Static)) or (isinstance(x, Obj) and x._cls.lookup('__call__')[0] is not None) or \
        (not isinstance(x, (Obj, Num, SBool, Arr, SList)) and callable(x))

def b_str(x=''):
    if isinstance(x, str): return x
    if isinstance(x, int): return str(x)
    if isinstance(x, ExcObj): return str(x)
    return '<value>'

def isint(o): return isinstance(o, int) or isinstance(o, SBool) or (isinstance(o, Num) and o.sort == 'int' and not o.np)
BUILTINS = {
    'range': b_range, 'len': len_, 'enumerate': b_enumerate, 'zip': b_zip, 'map': b_map, 'filter': b_filter, 'sum': b_sum,
    'min': minmax('min'), 'max': minmax('max'), 'any': b_any, 'all': b_all, 'sorted': sorted_, 'abs': b_abs, 'round': b_round,
    'isinstance': b_isinstance, 'issubclass': b_issubclass, 'type': b_type, 'getattr': b_getattr, 'hasattr': b_hasattr,
    'setattr': setattr_, 'reversed': b_reversed, 'iter': b_iter, 'next': b_next, 'callable': b_callable, 'print': lambda *a, **k: None,
    'divmod': b_divmod, 'pow': b_pow, 'id': id, 'repr': b_str, 'slice': slice, 'object': object, 'None': None, 'True': True, 'False': False,
    'NotImplemented': NotImplemented, 'Ellipsis': Ellipsis, '__name__': '__main__', 'hash': lambda x: hash(x), 'format': lambda x, s='': native(format, Fmt(x), s),
    'vars': lambda o: o._attrs,
    'int': BType('int', isint, b_int, int),
    'float': BType('float', lambda o: isinstance(o, float) or (isinstance(o, Num) and o.sort == 'real'), b_float, float),
    'complex': BType('complex', lambda o: isinstance(o, complex) or (isinstance(o, Num) and o.sort == 'complex'), b_complex, complex),
    'bool': BType('bool', lambda o: isinstance(o, (bool, SBool)), lambda x=False: (x if isinstance(x, SBool) else truth(x)), bool),
    'str': BType('str', lambda o: isinstance(o, str), b_str, str),
    'list': BType('list', lambda o: isinstance(o, list) or (isinstance(o, SList)), b_list, list),
    'tuple': BType('tuple', lambda o: isinstance(o, tuple), b_tuple, tuple),
    'dict': BType('dict', lambda o: isinstance(o, (dict, GroupMap, LoopDict)), b_dict, dict),
    'set': BType('set', lambda o: isinstance(o, set), b_set, set),
    'frozenset': BType('frozenset', lambda o: isinstance(o, frozenset), lambda x=(): frozenset(b_set(x)), frozenset),
}
for _k in dir(builtins):
    _v = getattr(builtins, _k)
    if isinstance(_v, type) and issubclass(_v, BaseException): BUILTINS[_k] = _v

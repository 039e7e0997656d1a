"""Term language of the verifier.

A value is a `Poly`: a finite sum of  coeff * (bounded sums over index variables) * product of atoms *
exp(argument).  Coefficients are Gaussian rationals, atoms are symbols, entries of symbolic arrays,
Iverson brackets, square roots, reciprocals, uninterpreted functions and opaque matrix functions.
Everything is hash-consed; equality of normal forms is identity of objects.

Floating-point numbers are treated as mathematical reals (stated as an assumption in the evidence).
"""
import math
from fractions import Fraction as Q
import itertools

Q0, Q1 = Q(0), Q(1)
C0, C1, CI = (Q0, Q0), (Q1, Q0), (Q0, Q1)

def cadd(a, b): return (a[0] + b[0], a[1] + b[1])
def cmul(a, b):
    if not a[1] and not b[1]:
        return (a[0] * b[0], Q0)
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
def cinv(a):
    n = a[0] * a[0] + a[1] * a[1]
    return (a[0] / n, -a[1] / n)

class VerifierError(Exception):
    """The construct is outside of the supported subset (undecided, not a violation)."""

# ---------------------------------------------------------------------------------------------
_atoms = {}
_polys = {}
_lams = {}
_conds = {}
_count = itertools.count()
_fresh = itertools.count()

class Atom:
    """kind: sym | app | fn | op | ind.   sort: int | real | complex | bool."""
    __slots__ = ('kind', 'name', 'args', 'sort', 'cj', 'id', 'fv', 'bd', 'sign')
    def __repr__(self): return atom_str(self)
    def __hash__(self): return self.id      # order of sets: the same in every run

def mk_atom(kind, name, args=(), sort='real', cj=False, sign=None):
    key = (kind, name, args, sort, cj)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind, a.name, a.args, a.sort, a.cj, a.sign = kind, name, args, sort, cj, sign
    a.id = next(_count)
    fv, bd = frozenset(), 0
    if kind == 'sym':
        fv = frozenset((a,))
    else:
        for x in args:
            fv, bd = _join(fv, bd, x)
    a.fv, a.bd = fv, bd
    _atoms[key] = a
    return a

def _join(fv, bd, x):
    if isinstance(x, (Poly, Atom, Lam, Cond)):
        return fv | x.fv, max(bd, x.bd)
    if isinstance(x, tuple):
        for y in x:
            fv, bd = _join(fv, bd, y)
    return fv, bd

class Poly:
    __slots__ = ('terms', 'id', 'fv', 'bd', '_hash')
    def __repr__(self): return poly_str(self)
    def __hash__(self): return self.id      # order of sets: the same in every run
    # arithmetic -------------------------------------------------------------------------
    def __add__(self, o): return padd(self, P(o))
    __radd__ = __add__
    def __neg__(self): return pscale(self, (Q(-1), Q0))
    def __sub__(self, o): return padd(self, -P(o))
    def __rsub__(self, o): return padd(P(o), -self)
    def __mul__(self, o): return pmul(self, P(o))
    __rmul__ = __mul__
    def __truediv__(self, o): return pmul(self, recip(P(o)))
    def __rtruediv__(self, o): return pmul(P(o), recip(self))
    def __pow__(self, n): return ppow(self, n)

ONEM = ((), None, ())

def mk_poly(terms):
    """terms: dict mono -> coeff without zero coefficients."""
    key = frozenset(terms.items())
    p = _polys.get(key)
    if p is not None:
        return p
    p = Poly()
    p.terms = terms
    p.id = next(_count)
    fv, bd = frozenset(), 0
    for (fac, ex, bnd) in terms:
        f, b = mono_fv(fac, ex, bnd)
        fv |= f
        bd = max(bd, b)
    p.fv, p.bd = fv, bd
    _polys[key] = p
    return p

def mono_fv(fac, ex, bnd):
    fv, bd = frozenset(), 0
    for a, _ in fac:
        fv |= a.fv
        if a.bd > bd: bd = a.bd
    if ex is not None:
        fv |= ex.fv
        bd = max(bd, ex.bd)
    for v, hi in bnd:
        fv |= hi.fv
        bd = max(bd, hi.bd)
    if bnd:
        fv -= frozenset(v for v, _ in bnd)
        bd += len(bnd)
    return fv, bd

ZERO = mk_poly({})
ONE = mk_poly({ONEM: C1})
_pconst = {}

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return mk_poly({(((x, 1),), None, ()): C1})
    if isinstance(x, bool): x = int(x)
    r = _pconst.get((type(x), x))
    if r is not None: return r
    if isinstance(x, (int, Q)):
        r = mk_poly({ONEM: (Q(x), Q0)}) if x else ZERO
    elif isinstance(x, float):
        r = P(Q(repr(x)))
    elif isinstance(x, complex):
        c = (Q(repr(x.real)), Q(repr(x.imag)))
        r = mk_poly({ONEM: c}) if c != C0 else ZERO
    else:
        raise VerifierError('not a number: %r' % (x,))
    _pconst[(type(x), x)] = r
    return r

I = mk_poly({ONEM: CI})

def sym(name, sort='real', sign=None):
    """A symbol. sign: 'pos' | 'nonneg' | None."""
    return P(mk_atom('sym', name, (), sort, False, sign))

def symatom(p):
    """The atom of a Poly that is just one symbol, else None."""
    if len(p.terms) == 1:
        (fac, ex, bnd), c = next(iter(p.terms.items()))
        if c == C1 and ex is None and not bnd and len(fac) == 1 and fac[0][1] == 1 and fac[0][0].kind == 'sym':
            return fac[0][0]
    return None

def fresh(prefix, sort='int', sign=None):
    return sym('%s!%d' % (prefix, next(_fresh)), sort, sign)

PI = sym('pi', 'real', 'pos')
INF = sym('inf', 'real', 'pos')
NAN = sym('nan', 'real')

def const_of(p):
    """Gaussian rational if p is constant, else None."""
    if not p.terms: return C0
    if len(p.terms) == 1 and ONEM in p.terms: return p.terms[ONEM]
    return None

def int_of(p):
    if isinstance(p, int): return p
    c = const_of(p)
    if c is not None and not c[1] and c[0].denominator == 1: return c[0].numerator
    return None

def padd(a, b):
    if not a.terms: return b
    if not b.terms: return a
    if len(a.terms) < len(b.terms): a, b = b, a
    t = dict(a.terms)
    for m, c in b.terms.items():
        o = t.get(m)
        if o is None:
            t[m] = c
        else:
            s = cadd(o, c)
            if s == C0: del t[m]
            else: t[m] = s
    return mk_poly(t)

def padd_many(ps):
    t = {}
    for p in ps:
        for m, c in p.terms.items():
            o = t.get(m)
            if o is None: t[m] = c
            else:
                s = cadd(o, c)
                if s == C0: del t[m]
                else: t[m] = s
    return mk_poly(t)

def pscale(a, c):
    if c == C0: return ZERO
    if c == C1: return a
    return mk_poly({m: cmul(x, c) for m, x in a.terms.items()})

_mulcache = {}
MAXTERMS = 6000
def pmul(a, b):
    if not a.terms or not b.terms: return ZERO
    if a is ONE: return b
    if b is ONE: return a
    ca = const_of(a)
    if ca is not None: return pscale(b, ca)
    cb = const_of(b)
    if cb is not None: return pscale(a, cb)
    k = (a, b) if a.id < b.id else (b, a)
    r = _mulcache.get(k)
    if r is not None: return r
    if len(a.terms) * len(b.terms) > MAXTERMS:
        raise VerifierError('expression too large')
    out = []
    for m1, c1 in a.terms.items():
        for m2, c2 in b.terms.items():
            out.append(pscale(mono_mul(m1, m2), cmul(c1, c2)))
    r = padd_many(out)
    _mulcache[k] = r
    return r

def mono_mul(m1, m2):
    f1, e1, b1 = m1
    f2, e2, b2 = m2
    if b1 and b2:
        f2, e2, b2 = open_mono(m2)
        if isinstance(f2, Poly): raise VerifierError('internal')
    return build(list(f1) + list(f2), (e1, e2), tuple(b1) + tuple(b2))

def open_mono(m):
    """Rename the bound variables of a monomial to fresh ones. Returns (factors, expo, bound)."""
    f, e, b = m
    if not b: return m
    mp = {}
    for v, hi in b:
        mp[v] = fresh('b')
    nb = tuple((symatom(mp[v]), subst(hi, mp)) for v, hi in b)
    nf = []
    for a, n in f:
        p = subst_atom(a, mp)
        nf.append((mono1(p), n))
    ne = subst(e, mp) if e is not None else None
    return tuple(nf), ne, nb

def mono1(p):
    """p must be a single atom."""
    if len(p.terms) == 1:
        (fac, ex, bnd), c = next(iter(p.terms.items()))
        if c == C1 and ex is None and not bnd and len(fac) == 1 and fac[0][1] == 1:
            return fac[0][0]
    raise VerifierError('renaming changed an atom')

def build(factors, expos, bound, coef=C1):
    """Normalise a product of atom powers, exponentials and bound sums."""
    d = {}
    for a, n in factors:
        d[a] = d.get(a, 0) + n
    extra = None
    fac = []
    for a, n in d.items():
        if n == 0: continue
        if a.kind == 'ind':
            n = 1
        elif a.kind == 'fn':
            if a.name == 'sqrt' and (n >= 2 or n <= -1):
                q, r = divmod(n, 2)
                x = a.args[0]
                x = ppow(x, q)
                extra = x if extra is None else pmul_open(extra, x)
                n = r
                if n == 0: continue
            elif a.name == 'recip' and n < 0:
                x = ppow(a.args[0], -n)
                extra = x if extra is None else pmul_open(extra, x)
                continue
        fac.append((a, n))
    e = None
    for x in expos:
        if x is None: continue
        e = x if e is None else padd(e, x)
    if e is not None:
        if not e.terms: e = None
        else:
            ef = norm_expo(e)
            if ef is not None:
                e, x = ef
                extra = x if extra is None else pmul_open(extra, x)
    if extra is not None:
        # distribute, keeping the binders outermost
        base = canon(fac, e, ())
        p = pmul_open(base, extra)
        for v, hi in reversed(bound):
            p = sum_raw(v, hi, p)
        return pscale(p, coef)
    return pscale(canon(fac, e, bound), coef)

def pmul_open(a, b):
    return pmul(a, b)

def sum_raw(v, hi, p):
    """Sum over the atom v in [0,hi) of p."""
    out = []
    for (f, e, b), c in p.terms.items():
        if b and any(v is x for x, _ in b):
            f, e, b = open_mono((f, e, b))
        out.append(pscale(canon(list(f), e, ((v, hi),) + tuple(b)), c))
    return padd_many(out)

# --- canonical form of a monomial with binders --------------------------------------------------
def canon(fac, e, bound):
    if not bound:
        fac = tuple(sorted(((a, n) for a, n in fac), key=lambda t: t[0].id))
        return mk_poly({(fac, e, ()): C1})
    # eliminate binders
    bound = list(bound)
    # concrete small ranges are expanded
    for i, (v, hi) in enumerate(bound):
        n = int_of(hi)
        if n is not None and n <= 16:
            rest = bound[:i] + bound[i + 1:]
            if any(v in h.fv for _, h in rest): continue
            if n <= 0: return ZERO
            outs = []
            for k in range(n):
                outs.append(subst_mono(fac, e, rest, {v: P(k)}))
            return padd_many(outs)
    # Kronecker deltas
    for a, n in fac:
        if a.kind == 'ind' and a.args[0].kind == 'eq':
            p = a.args[0].args[0]
            for i, (v, hi) in enumerate(bound):
                if v not in p.fv: continue
                s = solve_linear(p, v)
                if s is None: continue
                rest = bound[:i] + bound[i + 1:]
                # dependencies: ranges mentioning v become ranges mentioning s
                inner = {x for x, h in rest if v in h.fv}
                if inner:
                    if s.fv & inner or any(h.fv & inner for _, h in rest): continue
                    rest = [(x, subst(h, {v: s})) for x, h in rest]
                    rest = [t for t in rest if t[0] not in inner] + [t for t in rest if t[0] in inner]
                f2 = [(x, m) for x, m in fac if x is not a]
                # range of the eliminated variable: multiplied inside
                rng = pmul(ind(mk_ge(s)), ind(mk_ge(hi - s - 1)))
                return subst_mono(f2, e, rest, {v: s}, rng)
    # unused binders
    for i, (v, hi) in enumerate(bound):
        used = any(v in a.fv for a, _ in fac) or (e is not None and v in e.fv) or \
            any(v in h.fv for j, (_, h) in enumerate(bound) if j != i)
        if not used:
            rest = bound[:i] + bound[i + 1:]
            if not (hi.fv & {x for x, _ in rest}):
                return pmul(canon(fac, e, tuple(rest)), hi)
            return subst_mono(fac, e, rest, {}, hi)
    # trivial brackets from ranges
    for a, n in fac:
        if a.kind == 'ind' and a.args[0].kind == 'ge':
            p = a.args[0].args[0]
            for v, hi in bound:
                if v in p.fv:
                    vp = P(v)
                    if p is vp or p is hi - vp - 1:
                        f2 = [(x, m) for x, m in fac if x is not a]
                        return canon(f2, e, tuple(bound))
    # canonical names
    D = 0
    for a, _ in fac: D = max(D, a.bd)
    if e is not None: D = max(D, e.bd)
    for _, h in bound: D = max(D, h.bd)
    return canon_names(fac, e, bound, D)

def subst_mono(fac, e, rest, mp, extra=ONE):
    """substitute in factors and exponent, multiply by extra and wrap the binders `rest` again."""
    if any('!' not in v.name for v, _ in rest):
        # the binders are in scope here: give them names that no other binder uses
        fr = {v: fresh('b') for v, _ in rest if '!' not in v.name}
        mp = {k: subst(x, fr) for k, x in mp.items()}
        extra = subst(extra, fr)
        mp.update(fr)
        rest = [(symatom(fr[v]) if v in fr else v, h) for v, h in rest]
    p = extra
    for a, n in fac:
        if a.fv & mp.keys():
            p = pmul(p, ppow(subst_atom(a, mp), n))
        else:
            p = pmul(p, mk_poly({(((a, n),), None, ()): C1}))
    if e is not None:
        p = pmul(p, exp(subst(e, mp) if e.fv & mp.keys() else e))
    for v, hi in reversed(rest):
        p = sum_raw(v, hi if not (hi.fv & mp.keys()) else subst(hi, mp), p)
    return p

def components(fac, e, bound):
    """independent groups of binders: [(factors, exponent, binders)], the first one without binders; None if there is one group"""
    up = {v: v for v, _ in bound}
    def find(v):
        while up[v] is not v: v = up[v]
        return v
    def join(vs):
        vs = [find(v) for v in vs]
        for v in vs[1:]: up[find(v)] = find(vs[0])
    vset = set(up)
    for a, _ in fac: join([v for v in a.fv & vset])
    for v, h in bound: join([v] + [u for u in h.fv & vset])
    et = []
    if e is not None:
        for m, c in e.terms.items():
            q = mk_poly({m: c})
            et.append((q, q.fv & vset))
            join(list(q.fv & vset))
    roots = []
    for v, _ in bound:
        if find(v) not in roots: roots.append(find(v))
    if len(roots) < 2: return None
    out = []
    for r in [None] + roots:
        of = lambda vs: next((find(v) for v in vs), None) is r
        ee = padd_many([q for q, vs in et if of(vs)])
        out.append((tuple(t for t in fac if of(t[0].fv & vset)), ee if ee.terms else None, tuple(t for t in bound if find(t[0]) is r)))
    return out

def canon_components(cs, D):
    fac, e, _ = cs[0]
    fac, es, bound = list(fac), [] if e is None else [e], []
    rs = sorted((canon_names(f, x, b, D) for f, x, b in cs[1:]), key=lambda p: (len(next(iter(p.terms))[2]), p.id))
    off = 0
    for p in rs:
        (f, x, b), = p.terms
        mp = {v: P(mk_atom('sym', 'b%d' % (D + off + i), (), 'int')) for i, (v, _) in enumerate(b)}
        if off:
            f = tuple((mono1(subst_atom(a, mp)) if a.fv & mp.keys() else a, k) for a, k in f)
            x = subst(x, mp) if x is not None else None
        bound += [(mono1(mp[v]), subst(h, mp) if h.fv & mp.keys() else h) for v, h in b]
        fac += f
        if x is not None: es.append(x)
        off += len(b)
    e = padd_many(es) if es else None
    return mk_poly({(tuple(sorted(fac, key=lambda t: t[0].id)), e, tuple(bound)): C1})

_canon_cache = {}
def canon_names(fac, e, bound, D):
    key = (frozenset(fac), e, tuple(bound), D)
    r = _canon_cache.get(key)
    if r is not None: return r
    n = len(bound)
    if n > 2:
        cs = components(fac, e, bound)
        if cs is not None:
            r = _canon_cache[key] = canon_components(cs, D)
            return r
    vs = [v for v, _ in bound]
    his = {v: hi for v, hi in bound}
    vset = set(vs)
    targets = [mk_atom('sym', 'b%d' % (D + i), (), 'int') for i in range(n)]
    if n == 1:
        perms = [tuple(vs)]
    else:
        # colour refinement: signature of each variable with it marked and the others blurred
        mark = P(mk_atom('sym', '#', (), 'int'))
        blur = P(mk_atom('sym', '*', (), 'int'))
        sigs = {}
        for v in vs:
            mp = {u: (mark if u is v else blur) for u in vs}
            s = []
            for a, k in fac:
                if a.fv & vset:
                    s.append((sig_atom(a, mp), k, v in a.fv))
            sigs[v] = (his[v].id if not (his[v].fv & vset) else -1, tuple(sorted(s)),
                       sig_poly(e, mp) if e is not None else -1)
        order = sorted(set(sigs.values()))
        col = {v: order.index(sigs[v]) for v in vs}
        occ = {v: [(a, k) for a, k in fac if v in a.fv] for v in vs}
        def refine(col):
            # colours by how a variable occurs together with the colours of the others
            while True:
                ca = {u: P(mk_atom('sym', '*%d' % col[u], (), 'int')) for u in vs}
                s2 = {}
                for v in vs:
                    mp = dict(ca)
                    mp[v] = mark
                    s2[v] = (col[v], tuple(sorted((sig_atom(a, {u: mp[u] for u in vs if u in a.fv}), k) for a, k in occ[v])),
                             sig_poly(e, mp) if e is not None and v in e.fv else -1)
                order = sorted(set(s2.values()))
                if len(order) == len(set(col.values())): return {v: order.index(s2[v]) for v in vs}
                col = {v: order.index(s2[v]) for v in vs}
        perms = []
        def search(col):
            if len(perms) > 6000: raise VerifierError('too many symmetric binders')
            groups = {}
            for v in vs: groups.setdefault(col[v], []).append(v)
            g = next((groups[c] for c in sorted(groups) if len(groups[c]) > 1), None)
            if g is None:
                perms.append(tuple(groups[c][0] for c in sorted(groups)))
                return
            for v in g: search(refine({u: 2 * c + (0 if u is v else 1) for u, c in col.items()}))
        search(refine(col))
    best = None
    dep = any(his[v].fv & vset for v in vs)
    for pm in perms:
        if dep:         # a limit may only mention binders further out
            left, pm2 = list(pm), []
            while left:
                v = next((v for v in left if not (his[v].fv & vset) - set(pm2)), None)
                if v is None: raise VerifierError('circular summation limits')
                pm2.append(v)
                left.remove(v)
            pm = tuple(pm2)
        mp = {v: P(targets[i]) for i, v in enumerate(pm)}
        ok = True
        nf = []
        for a, k in fac:
            p = subst_atom(a, mp) if a.fv & vset else None
            if p is None: nf.append((a, k))
            else: nf.append((mono1(p), k))
        nf = tuple(sorted(nf, key=lambda t: t[0].id))
        ne = subst(e, mp) if e is not None else None
        nb = tuple((targets[i], subst(his[v], mp)) for i, v in enumerate(pm))
        cand = (tuple((a.id, k) for a, k in nf), -1 if ne is None else ne.id,
                tuple((v.id, h.id) for v, h in nb))
        if best is None or cand < best[0]:
            best = (cand, (nf, ne, nb))
    r = mk_poly({best[1]: C1})
    _canon_cache[key] = r
    return r

def sig_atom(a, mp):
    """an id for the atom after blurring; falls back to a structural id when rewriting merges."""
    if not (a.fv & mp.keys()): return a.id
    return subst_atom(a, mp).id

def sig_poly(e, mp):
    if not (e.fv & mp.keys()): return e.id
    return subst(e, mp).id

def int_poly(p):
    """a polynomial in integer symbols with integer coefficients"""
    return all(e is None and not b and c[1] == 0 and c[0].denominator == 1 and all(n > 0 and a.sort == 'int' for a, n in f) for (f, e, b), c in p.terms.items())

def solve_linear(p, v):
    """p == 0 solved for the integer variable v occurring linearly with coefficient +-1."""
    coef = None
    rest = {}
    for m, c in p.terms.items():
        f, e, b = m
        occ = [n for a, n in f if v in a.fv]
        if (e is not None and v in e.fv) or any(v in h.fv for _, h in b): return None
        if occ:
            if len(f) != 1 or f[0][0] is not v or f[0][1] != 1 or b or e is not None: return None
            coef = c
        else:
            rest[m] = c
    if coef is None or coef[1] or abs(coef[0]) != 1: return None
    r = mk_poly(rest)
    return pscale(r, (-coef[0], Q0))

# --- powers, reciprocals, exponentials, roots ---------------------------------------------------
def ppow(p, n):
    if n == 0: return ONE
    if n < 0: return ppow(recip(p), -n)
    r, b = None, p
    while n:
        if n & 1: r = b if r is None else pmul(r, b)
        n >>= 1
        if n: b = pmul(b, b)
    return r

_recip_cache = {}
def recip(p):
    r = _recip_cache.get(p)
    if r is None:
        r = _recip_cache[p] = _recip(p)
    return r

def _recip(p):
    if not p.terms: return P(mk_atom('fn', 'recip', (ZERO,), 'real'))
    if len(p.terms) == 1:
        (f, e, b), c = next(iter(p.terms.items()))
        if not b and all(a.kind != 'ind' for a, _ in f):
            return build([(a, -n) for a, n in f], (None if e is None else -e,), (), cinv(c))
    # factor out common monomial and leading coefficient
    cont, q = content(p)
    if cont is not ONE:
        return pmul(recip(cont), recip(q))
    srt = 'real' if is_real(p) else 'complex'
    return P(mk_atom('fn', 'recip', (p,), srt))

def content(p):
    """p = cont * q with cont a coefficient times a monomial without binders."""
    common = None
    ms = list(p.terms.items())
    for (f, e, b), c in ms:
        d = {a: n for a, n in f if a.kind != 'ind'}
        if b:
            bv = {v for v, _ in b}
            d = {a: n for a, n in d.items() if not (a.fv & bv)}
        if common is None: common = d
        else:
            nd = {}
            for a in set(common) | set(d):
                x, y = common.get(a, 0), d.get(a, 0)
                # only negative powers are pulled out when absent elsewhere
                m = min(x, y)
                if m: nd[a] = m
            common = nd
    lead = min(ms, key=lambda t: mono_order(t[0]))[1]
    if not common and lead == C1: return ONE, p
    cont = pscale(mk_poly({(tuple(sorted(common.items(), key=lambda t: t[0].id)), None, ()): C1}), lead)
    out = []
    for (f, e, b), c in ms:
        g = dict(f)
        for a, n in common.items(): g[a] = g.get(a, 0) - n
        out.append(pscale(build([(a, n) for a, n in g.items() if n], (e,), b), c))
    q = pscale(padd_many(out), cinv(lead))
    return cont, q

def mono_order(m):
    f, e, b = m
    return (len(b), -1 if e is None else e.id, tuple((a.id, n) for a, n in f))

def is_real(p):
    return conj(p) is p

_sqrt_cache = {}
def sqrt(p):
    r = _sqrt_cache.get(p)
    if r is None: r = _sqrt_cache[p] = _sqrt(p)
    return r

def _isq(n):
    """largest s with s*s | n, and rest"""
    s, d = 1, 2
    while d * d <= n and d < 200:
        while n % (d * d) == 0:
            n //= d * d
            s *= d
        d += 1
    import math
    r = math.isqrt(n)
    if r * r == n: return s * r, 1
    return s, n

_sqroot = {}
def square_root(p):
    """q with q^2 = p for a square of a short real polynomial, else None"""
    if p in _sqroot: return _sqroot[p]
    r = None
    ms = list(p.terms.items())
    if 1 <= len(ms) <= 10 and is_real(p):
        sq = []
        for (f, e, b), c in ms:
            if e is None and not b and c[1] == 0 and c[0] > 0 and all(n % 2 == 0 for _, n in f):
                n, d = math.isqrt(c[0].numerator), math.isqrt(c[0].denominator)
                if n * n == c[0].numerator and d * d == c[0].denominator:
                    sq.append(mk_poly({(tuple((a, k // 2) for a, k in f), None, ()): (Q(n, d), Q0)}))
        q = sq[0] if sq else None
        for y in sq[1:]:
            c = p.terms.get(next(iter((sq[0] * y).terms)))
            if c is None: q = None; break
            q = q + y if c[0] > 0 else q - y
        if q is not None and q * q is p: r = q
    _sqroot[p] = r
    return r

def _sqrt(p):
    c = const_of(p)
    if c is not None and not c[1]:
        v = c[0]
        if v < 0: return P(mk_atom('fn', 'sqrt', (p,), 'complex'))
        n = v.numerator * v.denominator
        s, r = _isq(n)
        out = P(Q(s, v.denominator))
        if r == 1: return out
        return out * P(mk_atom('fn', 'sqrt', (P(r),), 'real', False, 'pos'))
    # pull out even powers of nonnegative atoms and positive rational content
    ms = list(p.terms.items())
    if len(ms) == 1 and not ms[0][0][2]:
        (f, e, b), c = ms[0]
        out, keep = ONE, []
        for a, n in f:
            if a.sign in ('pos', 'nonneg'):
                q, r = divmod(n, 2)
                if q: out = out * mk_poly({(((a, q),), None, ()): C1})
                if r: keep.append((a, r))
            elif a.kind == 'ind':
                out = out * P(a)
            else:
                keep.append((a, n))
        if e is not None and is_real(e):
            out = out * exp(e / 2)
            e = None
        if c[1] == 0 and c[0] > 0:
            out = out * _sqrt(P(c[0]))
            c = C1
        inner = build(keep, (e,), (), c)
        if inner is ONE: return out
        if out is not ONE: return out * sqrt(inner)
        return mk_sqrt(inner)
    # common content: positive rational and squares
    lead = min(ms, key=lambda t: mono_order(t[0]))[1]
    q = square_root(p) if len(ms) in (3, 6, 10) else None
    if q is not None:
        c = abs(min(q.terms.items(), key=lambda t: mono_order(t[0]))[1][0])
        if c != 1:
            q = pscale(q, (1 / c, Q0))
            return P(c) * sqrt(q * q)
    elif lead[1] == 0 and lead[0] != 0 and abs(lead[0]) != 1:
        return _sqrt(P(abs(lead[0]))) * sqrt(pscale(p, (1 / abs(lead[0]), Q0)))
    cont, q = content(p)
    if cont is not ONE:
        (f, e, b), c = next(iter(cont.terms.items()))
        out = ONE
        for a, n in f:
            if a.sign in ('pos', 'nonneg') and n // 2:
                out = out * mk_poly({(((a, n // 2),), None, ()): C1})
        if out is not ONE:
            return out * sqrt(p * recip(out * out))
    return mk_sqrt(p)

def mk_sqrt(p):
    return P(mk_atom('fn', 'sqrt', (p,), 'real', False, 'nonneg'))

_exp_cache = {}
def exp(p):
    if not p.terms: return ONE
    r = _exp_cache.get(p)
    if r is None:
        r = _exp_cache[p] = build([], (p,), ())
    return r

def norm_expo(e):
    """Rewrite special exponents. Returns (new exponent or None, factor Poly) or None if unchanged."""
    factor = ONE
    rest = {}
    changed = False
    for (f, x, b), c in e.terms.items():
        m = (f, x, b)
        if x is None and not b and len(f) == 1 and f[0][1] == 1:
            a = f[0][0]
            if a is _PIATOM and c[0] == 0 and (c[1] * 2).denominator == 1:
                k = (c[1] * 2).numerator % 4
                factor = factor * [ONE, I, -ONE, -I][k]
                changed = True
                continue
            if a is _PIATOM and c[0] == 0 and (c[1] > 1 or c[1] <= -1):
                # reduce modulo 2*pi
                k = c[1] % 2
                if k > 1: k -= 2
                rest[m] = (Q0, k)
                changed = True
                continue
            if a.kind == 'fn' and c[0] == 0 and c[1].denominator == 1 and a.name in ('arcsin', 'arccos', 'arctan2', 'angle'):
                n = c[1].numerator
                if a.name == 'arcsin':
                    z = sqrt(ONE - a.args[0] * a.args[0]) + I * a.args[0] * (1 if n > 0 else -1)
                elif a.name == 'arccos':
                    z = a.args[0] + I * sqrt(ONE - a.args[0] * a.args[0]) * (1 if n > 0 else -1)
                elif a.name == 'arctan2':
                    y, xx = a.args
                    z = (xx + I * y * (1 if n > 0 else -1)) * recip(sqrt(xx * xx + y * y))
                else:
                    w = a.args[0]
                    z = (w if n > 0 else conj(w)) * recip(sqrt(w * conj(w)))
                factor = factor * ppow(z, abs(n))
                changed = True
                continue
            if a.kind == 'fn' and a.name == 'log' and c[1] == 0 and c[0].denominator == 1:
                factor = factor * ppow(a.args[0], c[0].numerator)
                changed = True
                continue
            if a.kind == 'fn' and a.name == 'log' and c[1] == 0 and c[0].denominator == 2:
                factor = factor * ppow(sqrt(a.args[0]), c[0].numerator)
                changed = True
                continue
        rest[m] = c
    if not changed: return None
    r = mk_poly(rest)
    return (r if r.terms else None), factor

_PIATOM = symatom(PI)

def sin(p):
    return (exp(I * p) - exp(-(I * p))) * P(Q(1, 2)) * (-I)
def cos(p):
    return (exp(I * p) + exp(-(I * p))) * P(Q(1, 2))

_conj_cache = {}
def conj(p):
    r = _conj_cache.get(p)
    if r is not None: return r
    out = []
    for (f, e, b), c in p.terms.items():
        if all(atom_real(a) for a, _ in f) and (e is None or conj(e) is e):
            out.append(mk_poly({(f, e, b): (c[0], -c[1])}))
        else:
            if b: f, e, b = open_mono((f, e, b))
            q = ONE
            for a, n in f:
                q = q * ppow(conj_atom(a), n)
            if e is not None: q = q * exp(conj(e))
            for v, hi in reversed(b): q = sum_raw(v, hi, q)
            out.append(pscale(q, (c[0], -c[1])))
    r = padd_many(out)
    _conj_cache[p] = r
    _conj_cache[r] = p
    return r

def atom_real(a):
    return a.sort != 'complex'

def conj_atom(a):
    if a.sort != 'complex': return P(a)
    if a.kind == 'app': return app(a.name, a.args, 'complex', not a.cj)
    if a.kind == 'op': return op(a.name, a.args[0], a.args[1], a.args[2], a.sort, not a.cj)
    if a.kind == 'fn':
        return fn(a.name, *[conj(x) for x in a.args])
    if a.kind == 'sym':
        return P(mk_atom('sym', a.name, (), 'complex', not a.cj))
    raise VerifierError('conj of ' + a.kind)

def real(p): return (p + conj(p)) * P(Q(1, 2))
def imag(p): return (p - conj(p)) * P(Q(1, 2)) * (-I)

def absval(p):
    if is_real(p):
        c = const_of(p)
        if c is not None: return P(abs(c[0]))
        return sqrt(p * p)
    return sqrt(p * conj(p))

# --- array entries, functions, opaque operators ---------------------------------------------------
HERMITIAN = set()     # names of input matrices assumed Hermitian
SYMMETRIC = set()
SIGNS = {}            # name -> sign of entries
def app(name, idx, sort='real', cj=False):
    """Entry of a symbolic input array."""
    if sort != 'complex': cj = False
    if name in HERMITIAN:
        i, j = idx
        if i is j: return P(mk_atom('app', name, idx, 'real', False))
        if cj: idx, cj = (j, i), False
    elif name in SYMMETRIC:
        if idx[0].id > idx[1].id: idx = (idx[1], idx[0])
    return P(mk_atom('app', name, tuple(idx), sort, cj, SIGNS.get(name)))

REALFN = {'arcsin', 'arccos', 'arctan2', 'angle', 'floor', 'fdiv', 'mod', 'trunc', 'sign', 'min', 'max'}
def fn(name, *args):
    """Smart constructor of scalar functions."""
    if name == 'sqrt': return sqrt(args[0])
    if name == 'recip': return recip(args[0])
    if name == 'log': return log(args[0])
    if name == 'fdiv': return fdiv(*args)
    if name == 'mod': return pmod(*args)
    if name == 'arcsin': return arcsin(args[0])
    if name == 'angle': return angle(args[0])
    if name == 'arctan2':
        y, x = args
        if not y.terms:
            c = const_of(x)
            if c is not None: return ZERO if c[0] >= 0 else PI
        return P(mk_atom('fn', 'arctan2', (y, x), 'real'))
    if name in ('min', 'max'):
        if args[0].id > args[1].id: args = (args[1], args[0])
        if args[0] is args[1]: return args[0]
        return P(mk_atom('fn', name, args, 'int' if all_int(args[0]) and all_int(args[1]) else 'real'))
    if name == 'trunc':
        if all_int(args[0]): return args[0]
        return P(mk_atom('fn', name, args, 'int'))
    if name in REALFN:
        return P(mk_atom('fn', name, args, 'int' if name == 'floor' else 'real'))
    return P(mk_atom('fn', name, args, 'real' if all(is_real(a) for a in args) else 'complex'))

def arcsin(p):
    c = const_of(p)
    if c is not None and c[1] == 0:
        tab = {Q(0): ZERO, Q(1): PI / 2, Q(-1): -PI / 2, Q(1, 2): PI / 6, Q(-1, 2): -PI / 6}
        if c[0] in tab: return tab[c[0]]
    # odd function: fix the sign of the leading coefficient
    if p.terms:
        lead = min(p.terms.items(), key=lambda t: mono_order(t[0]))[1]
        if lead[1] == 0 and lead[0] < 0:
            return -P(mk_atom('fn', 'arcsin', (-p,), 'real'))
    return P(mk_atom('fn', 'arcsin', (p,), 'real'))

def angle(p):
    return P(mk_atom('fn', 'angle', (p,), 'real'))

def log(p):
    """log of a positive quantity (positivity is a precondition of the contracts using it)."""
    c = const_of(p)
    if p is ONE: return ZERO
    if len(p.terms) == 1:
        (f, e, b), c = next(iter(p.terms.items()))
        if not b and c[1] == 0 and c[0] > 0 and (len(f) > 1 or e is not None or c != C1 or (f and f[0][1] != 1)):
            out = [e] if e is not None else []
            if c != C1:
                out.append(P(mk_atom('fn', 'log', (P(c[0].numerator),), 'real')) if c[0].numerator != 1 else ZERO)
                if c[0].denominator != 1: out.append(-P(mk_atom('fn', 'log', (P(c[0].denominator),), 'real')))
            for a, n in f:
                if a.kind == 'fn' and a.name == 'sqrt':
                    out.append(log(a.args[0]) * P(Q(n, 2)))
                elif a.kind == 'op' and a.name == 'prod':
                    out.append(log(P(a)) * n)
                elif a.kind == 'fn' and a.name == 'recip':
                    out.append(-log(a.args[0]) * n)
                else:
                    out.append(P(mk_atom('fn', 'log', (P(a),), 'real')) * n)
            return padd_many(out)
        if not b and e is None and len(f) == 1 and f[0][1] == 1 and c == C1:
            a = f[0][0]
            if a.kind == 'op' and a.name == 'prod':
                lam = a.args[0][0]
                v = fresh('s')
                return psum(symatom(v), ZERO, lam.shape[0], log(lam_app(lam, (v,))))
            if a.kind == 'fn' and a.name == 'sqrt': return log(a.args[0]) * P(Q(1, 2))
            if a.kind == 'fn' and a.name == 'recip': return -log(a.args[0])
    es = {e for (_, e, _) in p.terms}
    if len(es) == 1:
        e = next(iter(es))              # log(x exp(e)) = log(x) + e for a real e common to all the terms
        if e is not None and is_real(e) and not any(v in e.fv for _, _, b in p.terms for v, _ in b):
            return e + log(p * exp(-e))
    cont, q = content(p)
    if cont is not ONE and len(p.terms) > 1:
        cc = next(iter(cont.terms.values()))
        if cc[1] == 0 and cc[0] > 0 and all(a.sign == 'pos' or a.kind == 'op' or a.kind == 'fn' and a.name == 'sqrt' for a, _ in next(iter(cont.terms))[0]):
            return log(cont) + log(q)
    return P(mk_atom('fn', 'log', (p,), 'real'))

def power(x, y):
    """x ** y"""
    n = int_of(y)
    if n is not None: return ppow(x, n)
    c = const_of(y)
    if c is not None and c[1] == 0 and c[0].denominator == 2:
        return ppow(sqrt(x), c[0].numerator) if c[0].numerator > 0 else recip(ppow(sqrt(x), -c[0].numerator))
    return exp(y * log(x))

def all_int(p):
    for (f, e, b), c in p.terms.items():
        if c[1] or c[0].denominator != 1 or e is not None: return False
        if any(n < 0 or (a.sort != 'int' and a.kind != 'ind') for a, n in f): return False
    return True

def fdiv(p, q):
    """floor division of integers, q > 0"""
    a, b = int_of(p), int_of(q)
    if a is not None and b is not None: return P(a // b)
    if q is ONE: return p
    # p = q*x + r
    x, r = split_multiple(p, q)
    if x.terms:
        if not r.terms: return x
        return x + fdiv(r, q)
    if not p.terms: return ZERO
    return P(mk_atom('fn', 'fdiv', (p, q), 'int'))

def pmod(p, q):
    a, b = int_of(p), int_of(q)
    if a is not None and b is not None: return P(a % b)
    if q is ONE or not p.terms: return ZERO
    x, r = split_multiple(p, q)
    if x.terms: return pmod(r, q) if r.terms else ZERO
    return P(mk_atom('fn', 'mod', (p, q), 'int'))

def split_multiple(p, q):
    """p = q*x + r by pulling out the monomials that are integer multiples of the monomial q."""
    if len(q.terms) != 1: 
        # try exact multiples q*x only for p == q*atom combos
        x = ZERO
        r = p
        lead = min(q.terms.items(), key=lambda t: (-sum(n for _, n in t[0][0]), mono_order(t[0])))
        (lf, le, lb), lc = lead
        if not lf: return ZERO, p
        for _ in range(8):
            found = None
            for (f, e, b), c in r.terms.items():
                if e is not None or b: continue
                fd = dict(f)
                if all(fd.get(a, 0) >= n for a, n in lf) and c[1] == 0 and (c[0] / lc[0]).denominator == 1:
                    g = [(a, fd[a] - dict(lf).get(a, 0)) for a in fd]
                    found = build(g, (), (), (c[0] / lc[0], Q0))
                    break
            if found is None: break
            r2 = r - found * q
            if len(r2.terms) > len(r.terms): break
            x, r = x + found, r2
        return x, r
    (qf, qe, qb), qc = next(iter(q.terms.items()))
    if qe is not None or qb or qc[1]: return ZERO, p
    qd = dict(qf)
    xs, rs = {}, {}
    for (f, e, b), c in p.terms.items():
        fd = dict(f)
        if e is None and not b and c[1] == 0 and all(fd.get(a, 0) >= n for a, n in qd.items()) and (c[0] / qc[0]).denominator == 1:
            g = tuple((a, n - qd.get(a, 0)) for a, n in f if n - qd.get(a, 0))
            m = (g, None, ())
            xs[m] = cadd(xs.get(m, C0), (c[0] / qc[0], Q0))
        else:
            rs[(f, e, b)] = c
    return mk_poly({m: c for m, c in xs.items() if c != C0}), mk_poly(rs)

class Lam:
    """Canonical lambda: array content as a function of its indices (used inside opaque operators)."""
    __slots__ = ('params', 'shape', 'body', 'id', 'fv', 'bd')
    def __repr__(self): return 'Lam[%s](%s)' % (','.join(map(str, self.shape)), self.body)
    def __hash__(self): return self.id      # order of sets: the same in every run

def mk_lam(shape, f):
    """f: tuple of index Polys -> Poly or Cond."""
    shape = tuple(P(s) for s in shape)
    fr = tuple(fresh('l') for _ in shape)
    body = f(fr)
    if isinstance(body, Cond): body = ind(body)
    return close_lam(shape, fr, body)

def close_lam(shape, fr, body):
    d = body.bd
    ps = tuple(P(mk_atom('sym', 'l%d.%d' % (d, i), (), 'int')) for i in range(len(shape)))
    body = subst(body, {symatom(a): b for a, b in zip(fr, ps)})
    if body.bd != d:
        return close_lam(shape, ps, body) if body.bd > d else _intern_lam(ps, shape, body)
    return _intern_lam(ps, shape, body)

def _intern_lam(ps, shape, body):
    key = (ps, shape, body)
    l = _lams.get(key)
    if l is None:
        l = Lam()
        l.params, l.shape, l.body = ps, shape, body
        l.id = next(_count)
        fv = body.fv - {symatom(p) for p in ps}
        bd = body.bd + 1
        for s in shape:
            fv |= s.fv
            bd = max(bd, s.bd)
        l.fv, l.bd = fv, bd
        _lams[key] = l
    return l

def lam_app(l, idx):
    if not l.params: return l.body
    return subst(l.body, {symatom(p): P(i) for p, i in zip(l.params, idx)})

def lam_subst(l, mp):
    if not (l.fv & mp.keys()): return l
    fr = tuple(fresh('l') for _ in l.params)
    body = subst(l.body, {symatom(p): i for p, i in zip(l.params, fr)})
    return close_lam(tuple(subst(s, mp) for s in l.shape), fr, subst(body, mp))

def lam_T(l):
    return mk_lam((l.shape[1], l.shape[0]), lambda ix: lam_app(l, (ix[1], ix[0])))
def lam_conj(l):
    return mk_lam(l.shape, lambda ix: conj(lam_app(l, ix)))

_invinfo = {}
def inv_entry(l, i, j, cj=False):
    """(i,j) entry of the inverse of the square matrix l, canonical under transposition/conjugation/scaling."""
    info = _invinfo.get(l)
    if info is None:
        body = l.body
        scale = ONE
        if body.terms:
            cont, q = content_closed(body, l.params)
            if cont is not ONE:
                scale = recip(cont)
                l2 = close_lam(l.shape, l.params, q)
            else: l2 = l
        else: l2 = l
        variants = [(l2, False, False)]
        lt = lam_T(l2)
        lc = lam_conj(l2)
        lh = lam_conj(lt)
        variants += [(lt, True, False), (lc, False, True), (lh, True, True)]
        best = min(variants, key=lambda v: v[0].id)
        base = best[0]
        herm = l2 is lh
        symm = l2 is lt
        isreal = l2 is lc
        info = _invinfo[l] = (scale, base, best[1], best[2], herm, symm, isreal)
    scale, base, tr, cc, herm, symm, isreal = info
    if cj: scale = conj(scale)
    if tr: i, j = j, i
    cc = cc != cj
    if isreal: cc = False
    if herm and cc: i, j, cc = j, i, False
    if symm and i.id > j.id: i, j = j, i
    srt = 'real' if isreal or (herm and i is j) else 'complex'
    return scale * P(mk_atom('op', 'inv', ((base,), (), (i, j)), srt, cc))

def content_closed(p, params):
    """content of p restricted to atoms without the lambda parameters"""
    pv = {symatom(x) for x in params}
    ms = list(p.terms.items())
    common = None
    for (f, e, b), c in ms:
        bv = {v for v, _ in b} | pv
        d = {a: n for a, n in f if a.kind != 'ind' and not (a.fv & bv)}
        if common is None: common = d
        else:
            common = {a: min(common.get(a, 0), d.get(a, 0)) for a in set(common) | set(d)}
            common = {a: n for a, n in common.items() if n}
    # positive rational content so that transposition/conjugation stay consistent
    g = None
    for _, c in ms:
        for x in c:
            if x:
                g = abs(x) if g is None else Q(_gcd(g.numerator * x.denominator, abs(x.numerator) * g.denominator), g.denominator * x.denominator)
    if not common and g == 1: return ONE, p
    cont = pscale(mk_poly({(tuple(sorted(common.items(), key=lambda t: t[0].id)), None, ()): C1}), (g, Q0))
    q = pmul(p, build([(a, -n) for a, n in common.items()], (), (), (1 / g, Q0)))
    return cont, q

def _gcd(a, b):
    while b: a, b = b, a % b
    return a

def op(name, lams, extra, idx, sort='real', cj=False):
    """Component of an opaque operator applied to array contents (one symbol per operator and argument)."""
    if sort != 'complex': cj = False
    if name == 'inv': return inv_entry(lams[0], idx[0], idx[1], cj)
    if name == 'prod':
        n = int_of(lams[0].shape[0])
        if n is not None and n <= 16:
            r = ONE
            for k in range(n): r = r * lam_app(lams[0], (P(k),))
            return conj(r) if cj else r
    return P(mk_atom('op', name, (tuple(lams), tuple(extra), tuple(idx)), sort, cj, OPSIGN.get(name)))

OPSIGN = {'var': 'nonneg'}

# --- substitution ---------------------------------------------------------------------------------
def subst(p, mp):
    """mp: dict Atom(sym) -> Poly"""
    if not mp or not (p.fv & mp.keys()): return p
    out = []
    for (f, e, b), c in p.terms.items():
        hit = any(a.fv & mp.keys() for a, _ in f) or (e is not None and e.fv & mp.keys()) or any(h.fv & mp.keys() for _, h in b)
        if not hit:
            out.append(mk_poly({(f, e, b): c}))
            continue
        mp2 = mp
        if b:
            bv = {v for v, _ in b}
            if (bv & mp.keys()):
                mp2 = {k: v for k, v in mp.items() if k not in bv}
            f, e, b = open_mono((f, e, b))
        q = ONE
        for a, n in f:
            if a.fv & mp2.keys(): q = q * ppow(subst_atom(a, mp2), n)
            else: q = q * mk_poly({(((a, n),), None, ()): C1})
        if e is not None:
            q = q * exp(subst(e, mp2))
        for v, hi in reversed(b): q = sum_raw(v, subst(hi, mp2), q)
        out.append(pscale(q, c))
    return padd_many(out)

_sa_cache = {}
def subst_atom(a, mp):
    if not (a.fv & mp.keys()): return P(a)
    if a.kind == 'sym': return P(mp[a])
    if a.kind == 'app':
        return app(a.name, tuple(subst(x, mp) for x in a.args), a.sort, a.cj)
    if a.kind == 'fn':
        return fn(a.name, *[subst(x, mp) for x in a.args])
    if a.kind == 'op':
        lams, extra, idx = a.args
        return op(a.name, tuple(lam_subst(l, mp) for l in lams),
                  tuple(subst(x, mp) if isinstance(x, Poly) else x for x in extra),
                  tuple(subst(x, mp) for x in idx), a.sort, a.cj)
    if a.kind == 'ind':
        return ind(cond_subst(a.args[0], mp))
    raise VerifierError('subst ' + a.kind)

# --- bounded sums ---------------------------------------------------------------------------------
SUM_GUARD = [None]   # callable hi -> bool, proves hi >= 0 in the current context
def psum(v, lo, hi, p):
    """sum of p for the integer symbol v (Atom) from lo to hi-1"""
    lo, hi = P(lo), P(hi)
    if not p.terms: return ZERO
    if lo.terms:
        p = subst(p, {v: P(v) + lo})
        hi = hi - lo
    n = int_of(hi)
    if n is not None:
        if n <= 0: return ZERO
        if n <= 16: return padd_many([subst(p, {v: P(k)}) for k in range(n)])
    elif SUM_GUARD[0] is not None and not SUM_GUARD[0](hi):
        p = p * ind(mk_ge(hi - 1))
    return sum_raw(v, hi, p)

# --- conditions -----------------------------------------------------------------------------------
class Cond:
    __slots__ = ('kind', 'args', 'id', 'fv', 'bd')
    def __repr__(self): return cond_str(self)
    def __hash__(self): return self.id      # order of sets: the same in every run

def _mkc(kind, *args):
    key = (kind, args)
    c = _conds.get(key)
    if c is None:
        c = Cond()
        c.kind, c.args = kind, args
        c.id = next(_count)
        fv, bd = frozenset(), 0
        for x in args: fv, bd = _join(fv, bd, x)
        if kind in ('all', 'ex'):
            fv = fv - {args[0]}
            bd += 1
        c.fv, c.bd = fv, bd
        _conds[key] = c
    return c

TRUE = _mkc('true')
FALSE = _mkc('false')

def mk_ge(p):
    """p >= 0"""
    p = P(p)
    c = const_of(p)
    if c is not None: return TRUE if c[0] >= 0 else FALSE
    if all_int_like(p):
        # integer tightening
        den = 1
        for c in p.terms.values(): den = den * c[0].denominator // _gcd(den, c[0].denominator)
        g = 0
        for m, c in p.terms.items():
            if m != ONEM: g = _gcd(g, abs(int(c[0] * den)))
        k = p.terms.get(ONEM, C0)[0] * den
        t = {m: (c[0] * den / g, Q0) for m, c in p.terms.items() if m != ONEM}
        import math
        kk = math.floor(k / g)
        if kk: t[ONEM] = (Q(kk), Q0)
        return _mkc('ge', mk_poly(t))
    lead = min(p.terms.items(), key=lambda t: mono_order(t[0]))[1]
    if lead[1] == 0 and abs(lead[0]) != 1 and lead[0] != 0:
        p = pscale(p, (1 / abs(lead[0]), Q0))
    return _mkc('ge', p)

def all_int_like(p):
    """every atom is an integer quantity (coefficients may be rational)"""
    for (f, e, b), c in p.terms.items():
        if c[1] or e is not None: return False
        if any(n < 0 or (a.sort != 'int' and a.kind != 'ind') for a, n in f): return False
    return True

def mk_gt(p):
    p = P(p)
    c = const_of(p)
    if c is not None: return TRUE if c[0] > 0 else FALSE
    if all_int(p): return mk_ge(p - 1)
    lead = min(p.terms.items(), key=lambda t: mono_order(t[0]))[1]
    if lead[1] == 0 and abs(lead[0]) != 1 and lead[0] != 0:
        p = pscale(p, (1 / abs(lead[0]), Q0))
    return _mkc('gt', p)

INJECTIVE = set()     # arrays (with one varying index) whose entries are distinct
def inj_pair(p):
    """p == x - y for two entries of an array with distinct entries: the difference of their indices"""
    if len(p.terms) != 2: return None
    ms = list(p.terms.items())
    at = []
    for (f, e, b), c in ms:
        if e is not None or b or len(f) != 1 or f[0][1] != 1 or f[0][0].kind != 'app' or f[0][0].name not in INJECTIVE: return None
        at.append((f[0][0], c))
    (x, c), (y, d) = at
    if x.name != y.name or c != C1 and d != C1 or c[0] != -d[0] or c[1] or d[1]: return None
    ds = [u - v for u, v in zip(x.args, y.args) if (u - v).terms]
    return ds[0] if len(ds) == 1 else None

def mk_eq(p):
    p = P(p)
    c = const_of(p)
    if c is not None: return TRUE if c == C0 else FALSE
    if INJECTIVE:
        q = inj_pair(p)
        if q is not None: return mk_eq(q)
    if all_int_like(p):
        den = 1
        for c in p.terms.values(): den = den * c[0].denominator // _gcd(den, c[0].denominator)
        p = pscale(p, (Q(den), Q0))
        g = 0
        for m, c in p.terms.items():
            if m != ONEM: g = _gcd(g, abs(int(c[0])))
        k = p.terms.get(ONEM, C0)[0]
        if g > 1:
            if k % g: return FALSE
            p = pscale(p, (Q(1, g), Q0))
    n = -p
    if n.id < p.id: p = n
    return _mkc('eq', p)

def mk_not(c):
    k = c.kind
    if k == 'true': return FALSE
    if k == 'false': return TRUE
    if k == 'not': return c.args[0]
    if k == 'ge': return mk_ge(-c.args[0] - 1) if all_int_like(c.args[0]) else mk_gt(-c.args[0])
    if k == 'gt': return mk_ge(-c.args[0])
    if k == 'and': return mk_or(*[mk_not(x) for x in c.args])
    if k == 'or': return mk_and(*[mk_not(x) for x in c.args])
    if k == 'all': return _mkc('ex', c.args[0], c.args[1], mk_not(c.args[2]))
    if k == 'ex': return _mkc('all', c.args[0], c.args[1], mk_not(c.args[2]))
    return _mkc('not', c)

def mk_and(*cs):
    out = []
    for c in cs:
        if c.kind == 'false': return FALSE
        if c.kind == 'true': continue
        if c.kind == 'and': out.extend(c.args)
        else: out.append(c)
    out = list(dict.fromkeys(out))
    if any(mk_not(c) in out for c in out): return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return _mkc('and', *sorted(out, key=lambda c: c.id))

def mk_or(*cs):
    out = []
    for c in cs:
        if c.kind == 'true': return TRUE
        if c.kind == 'false': continue
        if c.kind == 'or': out.extend(c.args)
        else: out.append(c)
    out = list(dict.fromkeys(out))
    if any(mk_not(c) in out for c in out): return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return _mkc('or', *sorted(out, key=lambda c: c.id))

def mk_implies(a, b): return mk_or(mk_not(a), b)

def mk_all(v, lo, hi, c):
    """for all v in [lo,hi): c"""
    lo, hi = P(lo), P(hi)
    if lo.terms:
        c = cond_subst(c, {v: P(v) + lo})
        hi = hi - lo
    if c.kind == 'true': return TRUE
    n = int_of(hi)
    if n is not None and n <= 16:
        return mk_and(*[cond_subst(c, {v: P(k)}) for k in range(max(n, 0))])
    if v not in c.fv:
        return mk_or(mk_not(mk_ge(hi - 1)), c)
    w = mk_atom('sym', 'qv.%d' % c.bd, (), 'int')
    return _mkc('all', w, hi, cond_subst(c, {v: P(w)}))

def mk_ex(v, lo, hi, c):
    return mk_not(mk_all(v, lo, hi, mk_not(c)))

def batom(name, idx):
    """boolean uninterpreted predicate on integers"""
    return _mkc('b', mk_atom('app', name, tuple(idx), 'bool'))

def cond_subst(c, mp):
    if not (c.fv & mp.keys()): return c
    k = c.kind
    if k == 'ge': return mk_ge(subst(c.args[0], mp))
    if k == 'gt': return mk_gt(subst(c.args[0], mp))
    if k == 'eq': return mk_eq(subst(c.args[0], mp))
    if k == 'not': return mk_not(cond_subst(c.args[0], mp))
    if k == 'and': return mk_and(*[cond_subst(x, mp) for x in c.args])
    if k == 'or': return mk_or(*[cond_subst(x, mp) for x in c.args])
    if k == 'b':
        a = c.args[0]
        if a.kind == 'op':
            lams, extra, idx = a.args
            return _mkc('b', mk_atom('op', a.name, (tuple(lam_subst(l, mp) for l in lams),
                        tuple(subst(x, mp) if isinstance(x, Poly) else x for x in extra),
                        tuple(subst(x, mp) for x in idx)), 'bool'))
        return _mkc('b', mk_atom('app', a.name, tuple(subst(x, mp) for x in a.args), 'bool'))
    if k in ('all', 'ex'):
        v, hi, body = c.args
        mp = {x: y for x, y in mp.items() if x is not v}
        w = symatom(fresh('q'))
        body = cond_subst(cond_subst(body, {v: P(w)}), mp)
        r = mk_all(w, ZERO, subst(hi, mp), body) if k == 'all' else mk_ex(w, ZERO, subst(hi, mp), body)
        return r
    raise VerifierError('cond_subst ' + k)

def ind(c):
    """Iverson bracket as a polynomial over atomic brackets."""
    k = c.kind
    if k == 'true': return ONE
    if k == 'false': return ZERO
    if k == 'and':
        r = ONE
        for x in c.args: r = r * ind(x)
        return r
    if k == 'or':
        r = ONE
        for x in c.args: r = r * (ONE - ind(x))
        return ONE - r
    if k == 'not': return ONE - ind(c.args[0])
    if k == 'gt': return ONE - ind(mk_ge(-c.args[0]))
    if k == 'ge' and not all_int_like(c.args[0]):
        pass
    return P(mk_atom('ind', 'ind', (c,), 'int', False, 'nonneg'))

def ite(c, a, b):
    if c.kind == 'true': return a
    if c.kind == 'false': return b
    i = ind(c)
    return b + i * (a - b)

# --- printing -------------------------------------------------------------------------------------
def coef_str(c):
    if c[1] == 0: return str(c[0])
    if c[0] == 0: return '%sj' % c[1]
    return '(%s+%sj)' % c
def atom_str(a):
    s = a.name
    if a.kind == 'app': s += '[' + ','.join(map(str, a.args)) + ']'
    elif a.kind == 'fn': s += '(' + ','.join(map(str, a.args)) + ')'
    elif a.kind == 'op':
        s += '{%s%s}[%s]' % (';'.join('#%d' % l.id for l in a.args[0]), ''.join(';' + str(x) for x in a.args[1]), ','.join(map(str, a.args[2])))
    elif a.kind == 'ind': s = '[' + str(a.args[0]) + ']'
    return s + ("'" if a.cj else '')
def poly_str(p):
    if not p.terms: return '0'
    out = []
    for (f, e, b), c in p.terms.items():
        parts = []
        for v, hi in b: parts.append('sum(%s<%s)' % (v.name, hi))
        fs = [atom_str(a) + ('' if n == 1 else '^%d' % n) for a, n in f]
        if e is not None: fs.append('exp(%s)' % e)
        if c != C1 or not fs: fs.insert(0, coef_str(c))
        out.append(' '.join(parts + ['*'.join(fs)]))
    return ' + '.join(out)
def cond_str(c):
    k = c.kind
    if k in ('true', 'false'): return k
    if k in ('ge', 'gt', 'eq'): return '%s %s 0' % (c.args[0], {'ge': '>=', 'gt': '>', 'eq': '=='}[k])
    if k == 'not': return '!(%s)' % c.args[0]
    if k in ('and', 'or'): return '(' + (' & ' if k == 'and' else ' | ').join(map(str, c.args)) + ')'
    if k == 'b': return str(c.args[0])
    return '%s %s<%s: %s' % (k, c.args[0].name, c.args[1], c.args[2])

import re
"""Proof context: facts about symbols, discharged by z3, and the equality prover for polynomials."""
import time
import z3
from fractions import Fraction as Q
from . import terms as T
from .terms import (P, Poly, Atom, Lam, Cond, ZERO, ONE, TRUE, FALSE, ONEM, C0, C1, VerifierError, sym, fresh, symatom,
                    const_of, int_of, mk_poly, mk_ge, mk_gt, mk_eq, mk_not, mk_and, mk_or, ind, subst, cond_subst,
                    psum, sum_raw, open_mono, recip, ppow, conj, is_real, padd_many, pscale)

ELEMAX = {}    # array name -> f(idx) -> [Cond]      facts about entries of input arrays
OPAX = {}      # operator name -> f(atom) -> [Cond]  facts about opaque operators
SYMAX = {}     # symbol atom -> [Cond]

STATS = {'queries': 0, 'solver_s': 0.0, 'unknown': 0, 'smt_unsat': 0, 'normal': 0}
TIMEOUT = [60000]
RLIMIT = [4000000]     # work limit of a query: the answer does not depend on the load of the machine
CONSULT = [0]    # counts the uses of a context (what does not use it may be memoised across contexts)

class Z3Tr:
    """Translation of terms; atoms outside of arithmetic become constants or uninterpreted functions."""
    def __init__(self):
        self.pc = {}
        self.cc = {}
        self.ac = {}
        self.side = {}      # atom/key -> list of z3 axioms
        self.ufs = {}
        self.busy = set()
        self.npi = z3.Real('pi')

    def reset(self):
        self.__init__()

    def isint(self, p):
        return T.all_int_like(p) and all(c[0].denominator == 1 for c in p.terms.values())

    def poly(self, p):
        """(expr, set of side keys)"""
        r = self.pc.get(p)
        if r is not None: return r
        isint = self.isint(p)
        es, sd = [], frozenset()
        trig = any(m[1] is not None for m in p.terms) and is_real(p)
        for m, c in p.terms.items():
            if trig and m[1] is not None and not m[2] and not is_real(m[1]) and not (conj(m[1]) + m[1]).terms and all(a.sort != 'complex' for a, _ in m[0]):
                # the real part of c*f*exp(i t) in a real sum
                C, S, k = self.trig(m[1])
                sd |= frozenset((k,))
                e, s = self.mono((m[0], None, ()), False)
                sd |= s
                g = z3.RealVal(str(c[0])) * C - z3.RealVal(str(c[1])) * S
                es.append(g if e is None else e * g)
                continue
            if c[1]: raise VerifierError('complex term in arithmetic')
            e, s = self.mono(m, isint)
            sd |= s
            cv = z3.IntVal(c[0].numerator) if isint else z3.RealVal(str(c[0]))
            if e is None: es.append(cv)
            elif c[0] == 1: es.append(e)
            else: es.append(cv * e)
        r = (z3.Sum(es) if len(es) > 1 else es[0] if es else z3.IntVal(0)), sd
        self.pc[p] = r
        return r

    def const(self, name, sort, fv):
        """an opaque value: a constant, or a function of the quantified variables it depends on"""
        vs = sorted((a.name for a in fv if a.kind == 'sym' and a.name.startswith('qv.')))
        if not vs: return z3.Const(name, sort)
        return z3.Function(name, *([z3.IntSort()] * len(vs)), sort)(*[z3.Int(v) for v in vs])

    def trig(self, e):
        """cosine and sine of t where e = i*t"""
        n = -e
        sg = 1
        if n.id < e.id: e, sg = n, -1
        k = ('trig', e)
        r = self.ac.get(k)
        if r is None:
            C, S = self.const('COS%d' % e.id, z3.RealSort(), e.fv), self.const('SIN%d' % e.id, z3.RealSort(), e.fv)
            self.side[k] = [C >= -1, C <= 1, S >= -1, S <= 1]
            r = self.ac[k] = (C, S)
        return r[0], (r[1] if sg == 1 else -r[1]), k

    def mono(self, m, isint):
        f, e, b = m
        if b or e is not None:
            k = ('mono', m)
            x = self.ac.get(k)
            if x is None:
                p = mk_poly({m: C1})
                integral = T.all_int(p) if e is None and not b else (e is None and all(n >= 0 and (a.sort == 'int' or a.kind == 'ind') for a, n in f))
                x = self.const('M%d' % p.id, z3.IntSort() if integral else z3.RealSort(), p.fv)
                ax = []
                if all(a.sign in ('pos', 'nonneg') or n % 2 == 0 and a.sort != 'complex' for a, n in f) and (e is None or is_real(e)):
                    ax.append(x >= 0)
                if not f and e is not None and not b and is_real(e): ax.append(x > 0)
                self.ac[k] = x
                self.side[k] = ax
            s = frozenset((k,))
            if not isint and z3.is_int(x): x = z3.ToReal(x)
            return x, s
        if not f: return None, frozenset()
        es, sd = [], frozenset()
        for a, n in f:
            x, s = self.atom(a)
            sd |= s
            if n < 0:
                k = ('inv', a)
                y = self.ac.get(k)
                if y is None:
                    y = self.const('R%d' % a.id, z3.RealSort(), a.fv)
                    xr = z3.ToReal(x) if z3.is_int(x) else x
                    ax = [z3.Implies(xr > 0, y > 0), z3.Implies(xr < 0, y < 0)]
                    if a.kind == 'sym': ax.append(z3.Implies(xr != 0, xr * y == 1))
                    self.ac[k] = y
                    self.side[k] = ax
                sd |= frozenset((k,))
                x, n = y, -n
            if not isint and z3.is_int(x): x = z3.ToReal(x)
            for _ in range(n): es.append(x)
        return (z3.Product(es) if len(es) > 1 else es[0]), sd

    def atom(self, a):
        r = self.ac.get(a)
        if r is not None: return r
        sd = frozenset((a,))
        ax = []
        if a.kind == 'sym':
            x = (z3.Int if a.sort == 'int' else z3.Real)(a.name)
            if a.name == 'pi': ax += [x > z3.Q(314159265, 100000000), x < z3.Q(314159266, 100000000)]
            if a.name == 'inf': ax += [x > 10 ** 300]
        elif a.kind == 'ind':
            c, s = self.cond(a.args[0])
            sd |= s
            x = z3.If(c, z3.IntVal(1), z3.IntVal(0))
        elif a.kind == 'app' or (a.kind == 'op' and a.args[2]):
            idx = a.args if a.kind == 'app' else a.args[2]
            key = (a.name, a.sort, a.cj, len(idx)) if a.kind == 'app' else (a.name, a.args[0], a.args[1], a.sort, a.cj, len(idx))
            uf = self.ufs.get(key)
            args = []
            for i in idx:
                e, s = self.poly(i)
                sd |= s
                args.append(z3.ToReal(e) if z3.is_int(e) else e)
            if uf is None:
                uf = z3.Function('F%d_%s' % (len(self.ufs), a.name), *([z3.RealSort()] * len(args)), z3.IntSort() if a.sort == 'int' else z3.RealSort())
                self.ufs[key] = uf
            x = uf(*args) if args else uf()
        else:
            x = self.const('A%d_%s' % (a.id, a.name), z3.IntSort() if a.sort == 'int' else z3.RealSort(), a.fv)
        if a.sign == 'pos': ax.append(x > 0)
        elif a.sign == 'nonneg' and a.kind != 'ind': ax.append(x >= 0)
        self.ac[a] = (x, sd)
        self.side[a] = ax
        # axioms stated over terms
        if a not in self.busy:
            self.busy.add(a)
            cs = []
            if a.kind == 'app' and a.name in ELEMAX: cs += ELEMAX[a.name](a.args)
            elif a.kind == 'sym' and a in SYMAX: cs += SYMAX[a]
            elif a.kind == 'op' and a.name in OPAX: cs += OPAX[a.name](a)
            elif a.kind == 'fn': cs += fn_axioms(a)
            for c in cs:
                e, s = self.cond(c)
                sd |= s
                ax.append(e)
        self.ac[a] = (x, sd)
        return self.ac[a]

    def cond(self, c):
        r = self.cc.get(c)
        if r is not None: return r
        k = c.kind
        if k == 'true': r = z3.BoolVal(True), frozenset()
        elif k == 'false': r = z3.BoolVal(False), frozenset()
        elif k in ('ge', 'gt', 'eq'):
            try:
                e, s = self.poly(c.args[0])
                r = (e >= 0 if k == 'ge' else e > 0 if k == 'gt' else e == 0), s
            except VerifierError:
                r = self.const('C%d' % c.id, z3.BoolSort(), c.fv), frozenset()
        elif k == 'not':
            e, s = self.cond(c.args[0])
            r = z3.Not(e), s
        elif k in ('and', 'or'):
            es, sd = [], frozenset()
            for x in c.args:
                e, s = self.cond(x)
                es.append(e)
                sd |= s
            r = (z3.And(es) if k == 'and' else z3.Or(es)), sd
        elif k == 'b':
            a = c.args[0]
            if a.kind == 'app':
                sd, args = frozenset(), []
                for i in a.args:
                    e, s = self.poly(i)
                    sd |= s
                    args.append(z3.ToReal(e) if z3.is_int(e) else e)
                key = ('b', a.name, len(args))
                uf = self.ufs.get(key)
                if uf is None:
                    uf = self.ufs[key] = z3.Function('B%d_%s' % (len(self.ufs), a.name), *([z3.RealSort()] * len(args)), z3.BoolSort())
                r = (uf(*args) if args else uf()), sd
            else:
                r = self.const('C%d' % c.id, z3.BoolSort(), c.fv), frozenset()
        elif k in ('all', 'ex'):
            v, hi, body = c.args
            w = z3.Int(v.name)
            h, s1 = self.poly(hi)
            b, s2 = self.cond(body)
            # axioms of atoms mentioning the bound variable hold for each of its values: they are stated inside the quantifier
            todo, seen = list(s2), set()
            while todo:
                x = todo.pop()
                if x in seen: continue
                seen.add(x)
                y = self.ac.get(x)
                if isinstance(x, Atom) and y is not None: todo.extend(y[1] - seen)
            inner = []
            for x in sorted((x for x in seen if self._mentions(x, v)), key=str): inner += self.side.get(x, ())
            s2 = frozenset(x for x in seen if not self._mentions(x, v))
            if k == 'all': e = z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < h, *inner), b))
            else: e = z3.Exists([w], z3.And(w >= 0, w < h, b, *inner))
            r = e, s1 | s2
        else: raise VerifierError('cond ' + k)
        self.cc[c] = r
        return r

    def _mentions(self, key, v):
        if isinstance(key, tuple):
            if key[0] in ('inv', 'trig'): return v in key[1].fv
            return v in mk_poly({key[1]: C1}).fv
        return v in key.fv

def fn_axioms(a):
    n, ar = a.name, a.args
    x = P(a)
    if n == 'fdiv':
        p, q = ar
        return [mk_or(mk_not(mk_gt(q)), mk_and(mk_ge(p - q * x), mk_gt(q * x + q - p)))]
    if n == 'mod':
        p, q = ar
        d = P(T.mk_atom('fn', 'fdiv', (p, q), 'int'))
        return [mk_or(mk_not(mk_gt(q)), mk_and(mk_ge(x), mk_gt(q - x))), mk_eq(p - q * d - x)]
    if n == 'floor':
        return [mk_ge(ar[0] - x), mk_gt(x + 1 - ar[0])]
    if n == 'min':
        return [mk_ge(ar[0] - x), mk_ge(ar[1] - x), mk_or(mk_eq(ar[0] - x), mk_eq(ar[1] - x))]
    if n == 'max':
        return [mk_ge(x - ar[0]), mk_ge(x - ar[1]), mk_or(mk_eq(ar[0] - x), mk_eq(ar[1] - x))]
    if n == 'sqrt' and a.sort == 'real':
        r = [mk_ge(x)]
        q = T.square_root(ar[0])
        if q is not None: return r + [mk_or(mk_eq(x - q), mk_eq(x + q))]
        if len(ar[0].terms) <= 4: r.append(mk_or(mk_gt(-ar[0]), mk_eq_raw(x * x - ar[0], x, ar[0])))
        return r
    if n == 'recip' and a.sort in ('real', 'int') and is_real(ar[0]):
        y = ar[0]
        return [mk_or(mk_eq(y), mk_eq(y * x - 1)), mk_or(mk_not(mk_gt(y)), mk_gt(x)), mk_or(mk_not(mk_gt(-y)), mk_gt(-x))]
    if n in ('arcsin',): return [mk_ge(x + T.PI / 2), mk_ge(T.PI / 2 - x)]
    if n in ('angle', 'arctan2'): return [mk_gt(x + T.PI), mk_ge(T.PI - x)]
    if n == 'arccos': return [mk_ge(x), mk_ge(T.PI - x)]
    return []

def mk_eq_raw(d, x, y):
    # sqrt(y)**2 == y is normalised away by the term language; monotonicity facts only
    return mk_and(mk_or(mk_gt(1 - y), mk_ge(x - 1)), mk_or(mk_gt(y - 1), mk_ge(1 - x)), mk_or(mk_gt(-y), mk_eq(y), mk_gt(x)))

TR = Z3Tr()

BOUND = re.compile(r'[bl][0-9!]|qv\.')
def bound_name(n): return BOUND.match(n) is not None

def cond_has_op(c):
    for x in c.args:
        if isinstance(x, Poly):
            if has_op(x): return True
        elif hasattr(x, 'kind') and x.kind in ('ge', 'gt', 'eq', 'not', 'and', 'or') and cond_has_op(x): return True
    return False

class Ctx:
    """Facts (path condition and preconditions) with a decision procedure."""
    def __init__(self):
        self.facts = []
        self.cache = {}
        self.key = ()
        self.eqs = {}
        self.lbs = {}

    def add(self, c):
        if c.kind == 'true': return
        if c.kind == 'and':
            for x in c.args: self.add(x)
            return
        if c in self.fset(): return
        self.facts.append(c)
        self.key = self.key + (c.id,)
        self._fs = None
        if has_quant(c):
            c2 = split_quant(c, self)
            if c2 is not c: self.add(c2)
        self._index(c)
        if c.kind == 'ge' and T.mk_ge(-c.args[0]) in self.fset() and T.mk_eq(c.args[0]).kind == 'eq': self.add(T.mk_eq(c.args[0]))

    def _index(self, c):
        if c.kind == 'eq' and not any(x in LOCALS for x in c.args[0].fv):
            p = c.args[0]
            for v in sorted(p.fv, key=lambda a: -a.id):
                if v.kind == 'sym' and v.sort == 'int' and v not in self.eqs and not bound_name(v.name):
                    s = T.solve_linear(p, v)
                    if s is not None:
                        s = self.rw(s)
                        if v in s.fv: continue
                        for k in list(self.eqs): self.eqs[k] = subst(self.eqs[k], {v: s})
                        self.eqs[v] = s
                        for x in list(self.facts):
                            if x is not c and v in x.fv and x.kind in ('ge', 'gt', 'eq', 'not', 'or') and cond_has_op(x): self.add(self.rwc(x))
                        break
        if c.kind == 'ge':
            p = c.args[0]
            if len(p.terms) <= 2:
                # tight bounds give an equation
                for v in p.fv:
                    if v.kind == 'sym' and v.sort == 'int' and v not in self.eqs and v in self.lbs and not bound_name(v.name):
                        s = T.solve_linear(p, v)
                        cs = T.const_of(s) if s is not None else None
                        if cs is not None and cs[0] == self.lbs[v] and self.upper_is(p, v): self.add(T.mk_eq(P(v) - s)) if T.mk_eq(P(v) - s).kind == 'eq' else None
                a = None
                for m, k in p.terms.items():
                    if m == ONEM: continue
                    if len(m[0]) == 1 and m[1] is None and not m[2] and m[0][0][1] == 1 and k[0] > 0: a = (m[0][0][0], k[0])
                    else: return
                if a is not None:
                    lb = -p.terms.get(ONEM, C0)[0] / a[1]
                    self.lbs[a[0]] = max(self.lbs.get(a[0], lb), lb)

    def upper_is(self, p, v):
        for m, k in p.terms.items():
            if m != ONEM: return k[0] < 0
        return False

    _fs = None
    def fset(self):
        if self._fs is None: self._fs = frozenset(self.facts)
        return self._fs

    def mark(self): return (len(self.facts), self.key, dict(self.eqs), dict(self.lbs))
    def restore(self, mk):
        n, self.key, self.eqs, self.lbs = mk[0], mk[1], dict(mk[2]), dict(mk[3])
        del self.facts[n:]
        self._fs = None

    def rw(self, p):
        CONSULT[0] += 1
        if self.eqs and (p.fv & self.eqs.keys()): return subst(p, self.eqs)
        return p
    def rwc(self, c):
        if self.eqs and (c.fv & self.eqs.keys()): return cond_subst(c, self.eqs)
        return c

    def lower(self, p):
        """a cheap lower bound of a real polynomial, or None"""
        t = Q(0)
        for (f, e, b), c in p.terms.items():
            if c[1] or e is not None or b: return None
            if not f:
                t += c[0]
                continue
            if c[0] < 0: return None
            x = c[0]
            for a, n in f:
                if n < 0: return None
                lb = self.lbs.get(a)
                if lb is None:
                    if a.sign in ('nonneg', 'pos'): lb = Q(0)
                    else: return None
                if lb < 0: return None
                x *= lb ** n
            t += x
        return t

    def prove(self, c):
        CONSULT[0] += 1
        c = self.rwc(c)
        k = c.kind
        if k == 'true': return True
        if k == 'false': return self.infeasible()
        fs = self.fset()
        if c in fs: return True
        if has_quant(c):
            c2 = split_quant(c, self)
            if c2 is not c: return self.prove(c2)
        if k == 'ge':
            lb = self.lower(c.args[0])
            if lb is not None and lb >= 0: return True
        elif k == 'gt':
            lb = self.lower(c.args[0])
            if lb is not None and lb > 0: return True
        elif k == 'and':
            return all(self.prove(x) for x in c.args)
        key = (self.key, c.id)
        r = self.cache.get(key)
        if r is None:
            r = self._smt(mk_not(c)) == z3.unsat
            if not r and k == 'gt': r = positive(c.args[0], self)
            self.cache[key] = r
            if r: STATS['smt_unsat'] += 1
        return r

    def decide(self, c):
        """True/False/None"""
        c = self.rwc(c)
        if c.kind == 'true': return True
        if c.kind == 'false': return False
        if self.prove(c): return True
        if self.prove(mk_not(c)): return False
        return None

    def infeasible(self):
        CONSULT[0] += 1
        key = (self.key, -1)
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = self._smt(TRUE) == z3.unsat
        return r

    def _solver(self, extra, quant=True, rounds=1):
        s = z3.Solver()
        s.set(timeout=TIMEOUT[0], rlimit=RLIMIT[0])
        sd = set()
        facts = list(self.facts) + [extra]
        if any(has_quant(c) for c in facts):
            for _ in range(rounds):
                facts = [skolem(c) for c in facts]
                cands = Cands(facts)
                facts = [instantiate(c, cands) for c in facts]
        for c in facts:
            if not quant: c = abstract_quant(c)
            e, k = TR.cond(c)
            s.add(e)
            sd |= k
        done = set()
        todo = list(sd)
        while todo:
            k = todo.pop()
            if k in done: continue
            done.add(k)
            for ax in TR.side.get(k, ()): s.add(ax)
            r = TR.ac.get(k)
            if isinstance(k, Atom) and r is not None: todo.extend(r[1] - done)
        return s

    def _smt(self, extra):
        t0 = time.time()
        STATS['queries'] += 1
        try:
            r = None
            qf = [c for c in self.facts if has_quant(c)]
            if qf or has_quant(extra):
                if self._solver(extra, False, 0).check() == z3.unsat: r = z3.unsat
                elif not relevant(extra, qf, self.facts): r = z3.unknown
                elif self._solver(extra, False).check() == z3.unsat: r = z3.unsat
                elif self._solver(extra, False, 2).check() == z3.unsat: r = z3.unsat
            if r is None: r = self._solver(extra).check() if has_quant(extra) or not qf else z3.unknown
        except z3.Z3Exception as ex:
            r = z3.unknown
        if r == z3.unknown: STATS['unknown'] += 1
        STATS['solver_s'] += time.time() - t0
        return r

    def sat(self, extra=TRUE):
        """is the context satisfiable (reachability check)?  'sat' | 'unsat' | 'unknown'"""
        return str(self._smt(extra))

    def model(self, extra=TRUE):
        try:
            s = self._solver(extra)
            if s.check() == z3.sat:
                m = s.model()
                return {d.name(): str(m[d]) for d in m.decls() if d.arity() == 0 and not d.name().startswith(('M', 'R', 'A', 'C'))}
        except z3.Z3Exception:
            pass
        return None

# --- quantified facts: skolem constants and instances --------------------------------------------
_HQ = {}
def has_quant(c):
    r = _HQ.get(c)
    if r is None:
        r = _HQ[c] = c.kind in ('all', 'ex') or c.kind in ('not', 'and', 'or') and any(has_quant(x) for x in c.args)
    return r

def simp_parts(c, ctx):
    k = c.kind
    if k == 'ge': return mk_ge(simp(c.args[0], ctx))
    if k == 'gt': return mk_gt(simp(c.args[0], ctx))
    if k == 'eq': return mk_eq(simp(c.args[0], ctx))
    if k == 'not': return mk_not(simp_parts(c.args[0], ctx))
    if k == 'and': return mk_and(*[simp_parts(x, ctx) for x in c.args])
    if k == 'or': return mk_or(*[simp_parts(x, ctx) for x in c.args])
    return c

def find_divisor_cond(c, v):
    for x in c.args:
        if isinstance(x, Poly): r = find_divisor([a for m in x.terms for a, _ in m[0]], None, v)
        elif isinstance(x, Cond): r = find_divisor_cond(x, v)
        else: r = None
        if r is not None: return r
    return None

_SQ = {}
def split_quant(c, ctx):
    """for all v < q*x in terms of fdiv(v,q), mod(v,q)  ->  for all s < x, for all r < q"""
    if not has_quant(c): return c
    key = (ctx.key, c)
    r = _SQ.get(key)
    if r is not None: return r
    r = c
    if c.kind == 'not': r = mk_not(split_quant(c.args[0], ctx))
    elif c.kind == 'ex': r = mk_not(split_quant(mk_not(c), ctx))
    elif c.kind in ('and', 'or'):
        xs = [split_quant(x, ctx) for x in c.args]
        if any(x is not y for x, y in zip(xs, c.args)): r = mk_and(*xs) if c.kind == 'and' else mk_or(*xs)
    elif c.kind == 'all' and not has_quant(c.args[2]):
        v, hi, body = c.args
        q = find_divisor_cond(body, v)
        if q is not None and not any(a.name.startswith('qv.') for a in q.fv if a.kind == 'sym'):
            x, rem = T.split_multiple(hi, q)
            if x.terms and not rem.terms and x is not ONE and ctx.prove(mk_gt(q)):
                s_, r_ = fresh('s'), fresh('r')
                b = T.cond_subst(body, {v: s_ * q + r_})
                mk = ctx.mark()
                try:
                    for u, h in ((s_, x), (r_, q)):
                        ctx.add(mk_ge(u))
                        ctx.add(mk_ge(h - u - 1))
                    b = simp_parts(b, ctx)
                finally: ctx.restore(mk)
                r = T.mk_all(symatom(s_), ZERO, x, T.mk_all(symatom(r_), ZERO, q, b))
    _SQ[key] = r
    return r

SKOLEM = {}
def skolem(c, neg=False):
    """negation normal form around quantifiers; existential quantifiers become constants"""
    if not has_quant(c): return mk_not(c) if neg else c
    k = c.kind
    if k == 'not': return skolem(c.args[0], not neg)
    if k in ('and', 'or'):
        xs = [skolem(x, neg) for x in c.args]
        return T.mk_and(*xs) if (k == 'and') != neg else T.mk_or(*xs)
    if (k == 'all') == neg:
        v, hi, body = c.args
        if any(a.name.startswith('qv.') for a in c.fv): return mk_not(c) if neg else c
        s = SKOLEM.get(c)
        if s is None: s = SKOLEM[c] = T.fresh('sk')
        return T.mk_and(mk_ge(s), mk_ge(hi - 1 - s), skolem(T.cond_subst(body, {v: s}), neg))
    return mk_not(c) if neg else c

_NM = {}
def fnames(c):
    """names of the uninterpreted functions in a condition"""
    r = _NM.get(c)
    if r is None:
        r = set()
        def cond(c):
            for x in c.args:
                if isinstance(x, Poly): poly(x)
                elif isinstance(x, Cond): cond(x)
                elif isinstance(x, Atom): atom(x)
        def poly(p):
            for (f, e, b), k in p.terms.items():
                for a, n in f: atom(a)
                for v, h in b: poly(h)
                if e is not None: poly(e)
        def atom(a):
            if a.kind == 'app':
                if a.args: r.add(a.name)
                for x in a.args: poly(x)
            elif a.kind == 'fn':
                for x in a.args: poly(x)
            elif a.kind == 'ind': cond(a.args[0])
            elif a.kind == 'op':
                r.add(a.name)
                for l in a.args[0]: poly(l.body)
                for x in a.args[2]: poly(x)
        cond(c)
        r = _NM[c] = frozenset(r)
    return r

def relevant(extra, qf, facts):
    """can the quantified facts matter for this query?  (a no only makes the prover weaker)"""
    if has_quant(extra): return True
    if extra.kind == 'true':
        ns = set()
        for c in facts:
            if not has_quant(c) or c.kind == 'ex' or c.kind == 'not' and c.args[0].kind == 'all': ns |= fnames(c)
    else: ns = fnames(extra)
    for c in qf:
        n = fnames(c)
        if not n or n & ns: return True
    return False

class Cands:
    """terms to instantiate quantified facts with: arguments of the same function elsewhere, or other integer terms"""
    def __init__(self, facts):
        self.args = {}
        self.gen = {}
        self.ops = set()
        for c in facts: self.cond(c)
        self.gen.setdefault(ZERO, 0)
        self.general = sorted(self.gen, key=lambda p: (len(p.terms), -self.gen[p], -max((a.id for a in p.fv), default=0)))[:10]
    def walk(self, p):
        for (f, e, b), c in p.terms.items():
            for a, n in f: self.atom(a)
            if e is not None: self.walk(e)
    def ground(self, x): return not any(s.kind == 'sym' and bound_name(s.name) for s in x.fv)
    def atom(self, a):
        if a.kind == 'sym':
            if a.sort == 'int' and not a.name.startswith('qv.'): self.gen.setdefault(P(a), 0)
        elif a.kind == 'ind': self.cond(a.args[0])
        elif a.kind in ('app', 'fn'):
            for i, x in enumerate(a.args):
                if a.kind == 'app' and T.all_int(x) and self.ground(x):
                    self.args.setdefault((a.name, i), {})[x] = 1
                    if len(x.terms) <= 3: self.gen.setdefault(x, 1)
                self.walk(x)
        elif a.kind == 'op':
            for x in a.args[2]: self.walk(x)
            if a.name == 'sort' and a not in self.ops:       # sorted entries are entries
                self.ops.add(a)
                for c in OPAX['sort'](a): self.cond(c)
    def cond(self, c):
        if c.kind in ('ge', 'gt', 'eq'): self.walk(c.args[0])
        elif c.kind in ('not', 'and', 'or'):
            for x in c.args: self.cond(x)
        elif c.kind in ('all', 'ex'):
            self.walk(c.args[1])
            self.cond(c.args[2])
        elif c.kind == 'b': self.atom(c.args[0])
    def of(self, v, body):
        """candidates for the variable v of a quantified body"""
        pats = set()
        def poly(p):
            if v not in p.fv: return
            for (f, e, b), k in p.terms.items():
                for a, n in f: atom(a)
                if e is not None: poly(e)
        def atom(a):
            if a.kind == 'ind': return cond(a.args[0])
            if a.kind in ('app', 'fn'):
                for i, x in enumerate(a.args):
                    if isinstance(x, Poly) and v in x.fv:
                        if a.kind == 'app' and lin_coef(x, v) in (1, -1): pats.add((a.name, i, x))
                        poly(x)
            elif a.kind == 'op':
                for x in a.args[2]: poly(x)
        sols = set()
        def cond(c):
            for x in c.args:
                if isinstance(x, Poly):
                    if c.kind == 'eq' and v in x.fv and lin_coef(x, v) in (1, -1): sols.add(P(v) - x * lin_coef(x, v))
                    poly(x)
                elif isinstance(x, Cond): cond(x)
                elif isinstance(x, Atom): atom(x)
        cond(body)
        out = {}
        free = {}
        for x in sols:
            if self.ground(x): out[x] = 1
            else:
                y = subst(x, {s: ZERO for s in x.fv if s.kind == 'sym' and s.name.startswith('qv.')})
                if self.ground(y): free[y] = 1
        for name, i, x in sorted(pats, key=repr):
            k = lin_coef(x, v)
            rest = x - P(v) * k
            if not self.ground(rest): continue
            for g in self.args.get((name, i), ()): out[(g - rest) * k] = 1
        if not out: return list(dict.fromkeys(list(free)[:4] + self.general))
        return sorted(out, key=lambda p: (len(p.terms), -max((a.id for a in p.fv), default=0)))[:14]

def instantiate(c, cands):
    if not has_quant(c): return c
    k = c.kind
    if k in ('and', 'or'):
        xs = [instantiate(x, cands) for x in c.args]
        return T.mk_and(*xs) if k == 'and' else T.mk_or(*xs)
    if k == 'all':
        v, hi, body = c.args
        return T.mk_and(c, *[T.mk_or(mk_not(mk_ge(t)), mk_not(mk_ge(hi - 1 - t)), instantiate(T.cond_subst(body, {v: t}), cands)) for t in cands.of(v, body)])
    return c

def abstract_quant(c):
    """weaker: quantified facts become propositional variables (their instances stay)"""
    if not has_quant(c): return c
    if c.kind == 'not': return mk_not(abstract_quant(c.args[0]))
    if c.kind in ('and', 'or'):
        xs = [abstract_quant(x) for x in c.args]
        return T.mk_and(*xs) if c.kind == 'and' else T.mk_or(*xs)
    return T.batom('QF%d' % c.id, ())

# --- simplification under a context -------------------------------------------------------------
def simp_cond(c, ctx):
    d = ctx.decide(c)
    if d is True: return TRUE
    if d is False: return FALSE
    if c.kind in ('ge', 'gt', 'eq'):
        q = simp(c.args[0], ctx)
        if q is not c.args[0]:
            c = {'ge': mk_ge, 'gt': mk_gt, 'eq': mk_eq}[c.kind](q)
            return simp_cond(c, ctx)
    return c

_simp_cache = {}
def simp(p, ctx):
    """normalise p under the facts of ctx"""
    p = ctx.rw(p)
    key = (ctx.key, p)
    r = _simp_cache.get(key)
    if r is not None: return r
    cur = p
    for _ in range(6):
        nxt = partial_fractions(_simp1(cur, ctx))
        if nxt is cur: break
        cur = nxt
    _simp_cache[key] = cur
    return cur

_uni = {}
def univariate(q):
    """(v, {power: coefficient}) if q is a polynomial in one integer symbol with a constant term"""
    r = _uni.get(q, 0)
    if r != 0: return r
    v, cs = None, {}
    ok = len(q.terms) <= 4
    for (f, e, b), c in q.terms.items():
        if e is not None or b or len(f) > 1: ok = False; break
        if not f: cs[0] = c; continue
        a, n = f[0]
        if a.kind != 'sym' or n < 0 or (v is not None and a is not v): ok = False; break
        v = a
        cs[n] = c
    r = _uni[q] = (v, cs) if ok and v is not None and 0 in cs else None
    return r

def partial_fractions(p):
    """v^k/q(v) in normal form: 0 <= k < deg q"""
    if not any(a.kind == 'fn' and a.name == 'recip' for (f, e, b) in p.terms for a, n in f): return p
    out, ch = [], False
    for (f, e, b), c in p.terms.items():
        r = None
        for a, n in f:
            if a.kind == 'fn' and a.name == 'recip' and n >= 1:
                u = univariate(a.args[0])
                if u is None: continue
                v, cs = u
                k = next((m for x, m in f if x is v), 0)
                d = max(cs)
                if 0 <= k < d: continue
                q = a.args[0]
                rest = [(x, m) for x, m in f if x is not a and x is not v]
                lower = T.build(rest + [(a, n - 1)] + [(v, k - d if k >= d else k)], (e,), b)
                if k >= d:
                    # v^k = (v^(k-d)/lc) (q - (q - lc v^d))
                    lc = cs[d]
                    tail = mk_poly({m: x for m, x in q.terms.items() if not (m[0] and m[0][0][1] == d)})
                    full = T.build(rest + [(a, n), (v, k - d)], (e,), b)
                    r = pscale(lower - mulin(full, tail), T.cinv(lc))
                else:
                    c0 = cs[0]
                    tail = q - mk_poly({T.ONEM: c0})
                    full = T.build(rest + [(a, n), (v, k)], (e,), b)
                    r = pscale(lower - mulin(full, tail), T.cinv(c0))
                break
        if r is None: out.append(mk_poly({(f, e, b): c}))
        else:
            ch = True
            out.append(pscale(r, c))
    return padd_many(out) if ch else p

def mulin(full, tail):
    return full * tail

def _simp1(p, ctx):
    out = []
    for m, c in p.terms.items():
        out.append(pscale(simp_mono(m, ctx), c))
    return padd_many(out)

_needs_cache = {}
def needs(a):
    """does simplification have anything to do in this atom?"""
    r = _needs_cache.get(a)
    if r is None:
        if a.kind == 'sym': r = False
        elif a.kind in ('ind', 'op'): r = True
        elif a.kind == 'fn':
            r = a.name in ('recip', 'fdiv', 'mod', 'min', 'max', 'arcsin', 'floor', 'trunc', 'angle', 'arctan2', 'sqrt') or any(pneeds(x) for x in a.args)
        else: r = any(pneeds(x) for x in a.args)
        _needs_cache[a] = r
    return r

def pneeds(p):
    for (f, e, b), c in p.terms.items():
        if b or any(needs(a) for a, _ in f): return True
        if e is not None and pneeds(e): return True
    return False

def simp_mono(m, ctx):
    f, e, b = m
    if not b:
        if not any(needs(a) for a, _ in f) and (e is None or not pneeds(e)):
            return mk_poly({m: C1})
        return simp_product(f, e, ctx)
    f, e, b = open_mono(m)
    mk = ctx.mark()
    try:
        nr = []
        for v, hi in b:
            if pneeds(hi): hi = simp(hi, ctx)
            nr.append((v, hi))
            ctx.add(mk_ge(P(v)))
            ctx.add(mk_ge(hi - P(v) - 1))
            LOCALS.add(v)
        b = nr
        if ctx.infeasible(): return ZERO
        # product ranges
        sp = split_product_range(f, e, b, ctx)
        if sp is not None: return sp
        q = simp_product(f, e, ctx)
        # the ranges may simplify too
        nb = []
        for v, hi in b: nb.append((v, ctx.rw(hi)))
    finally:
        ctx.restore(mk)
    # close and tighten
    out = []
    for (f2, e2, b2), c2 in q.terms.items():
        out.append(pscale(close_mono(f2, e2, b2, nb, ctx), c2))
    return padd_many(out)

LOCALS = set()

def close_mono(f, e, b_in, binders, ctx):
    """wrap binders around a monomial, using linear brackets to tighten the ranges"""
    base = mk_poly({(tuple(f), e, tuple(b_in)): C1})
    for v, hi in reversed(binders):
        base = close_one(base, v, hi, ctx)
    return base

def close_one(p, v, hi, ctx):
    out = []
    for (f, e, b), c in p.terms.items():
        lo_c, up_c, rest = [], [], []
        if not b or True:
            for a, n in f:
                if a.kind == 'ind' and v in a.fv and a.args[0].kind == 'ge':
                    q = a.args[0].args[0]
                    k = lin_coef(q, v)
                    if k == 1 and not (b and any(x in q.fv for x, _ in b)): lo_c.append(P(v) - q); continue
                    if k == -1 and not (b and any(x in q.fv for x, _ in b)): up_c.append(q + P(v)); continue
                rest.append((a, n))
        if not lo_c and not up_c:
            out.append(pscale(sum_raw(v, hi, mk_poly({(f, e, b): C1})), c))
            continue
        body = mk_poly({(tuple(rest), e, b): C1})
        out.append(pscale(tight(body, v, hi, lo_c, up_c, ctx), c))
    return padd_many(out)

def lin_coef(p, v):
    k = None
    for (f, e, b), c in p.terms.items():
        if any(v in a.fv for a, _ in f):
            if len(f) != 1 or f[0][0] is not v or f[0][1] != 1 or b or e is not None: return None
            k = c[0]
        elif e is not None and v in e.fv or any(v in h.fv for _, h in b): return None
    return k

def tight(body, v, hi, lows, ups, ctx):
    """sum over v of body with v in [0,hi), v >= each low, v <= each up"""
    lo, top = ZERO, hi
    for l in lows:
        d = ctx.decide(mk_ge(l - lo))
        if d is True: lo = l
        elif d is False: pass
        else:
            g = ind(mk_ge(l - lo))
            return g * tight_from(body, v, l, top, [x for x in lows if x is not l], ups, ctx) + \
                (ONE - g) * tight_from(body, v, lo, top, [x for x in lows if x is not l], ups, ctx)
    return tight_from(body, v, lo, top, [], ups, ctx)

def tight_from(body, v, lo, top, lows, ups, ctx):
    for l in lows:
        d = ctx.decide(mk_ge(l - lo))
        if d is True: lo = l
        elif d is None:
            g = ind(mk_ge(l - lo))
            r = [x for x in lows if x is not l]
            return g * tight_from(body, v, l, top, r, ups, ctx) + (ONE - g) * tight_from(body, v, lo, top, r, ups, ctx)
    for u in ups:
        t = u + 1
        d = ctx.decide(mk_ge(top - t))
        if d is True: top = t
        elif d is None:
            g = ind(mk_ge(top - t))
            r = [x for x in ups if x is not u]
            return g * tight_from(body, v, lo, t, [], r, ctx) + (ONE - g) * tight_from(body, v, lo, top, [], r, ctx)
    n = top - lo
    d = ctx.decide(mk_ge(n))
    if d is False: return ZERO
    q = subst(body, {v: P(v) + lo})
    if d is True: return _sum(v, n, q)
    g = ind(mk_ge(n - 1))
    return g * _sum(v, n, q)

def _sum(v, n, q):
    k = int_of(n)
    if k is not None:
        if k <= 0: return ZERO
        if k <= 16: return padd_many([subst(q, {v: P(i)}) for i in range(k)])
    return sum_raw(v, n, q)

def split_product_range(f, e, b, ctx):
    """sum over v < q*x of terms in fdiv(v,q), mod(v,q): split v = s*q + r"""
    for v, hi in b:
        q = find_divisor([a for a, _ in f], e, v)
        if q is None: continue
        x, r = T.split_multiple(hi, q)
        if not x.terms or r.terms or x is ONE: continue
        if not ctx.prove(mk_gt(q)): continue
        s_, r_ = fresh('s'), fresh('r')
        rest = [t for t in b if t[0] is not v]
        mp = {v: s_ * q + r_}
        body = ONE
        for a, n in f: body = body * ppow(T.subst_atom(a, mp), n)
        if e is not None: body = body * T.exp(subst(e, mp))
        body = sum_raw(symatom(s_), x, sum_raw(symatom(r_), q, body))
        for w, h in reversed(rest): body = sum_raw(w, h, body)
        return body
    return None

def find_divisor(atoms, e, v):
    seen = set()
    def walk_atom(a):
        if a in seen or v not in a.fv: return None
        seen.add(a)
        if a.kind == 'fn' and a.name in ('fdiv', 'mod') and lin_coef(a.args[0], v) in (1, -1) and v not in a.args[1].fv:
            return a.args[1]
        if a.kind == 'op':
            for l in a.args[0]:
                r = walk(l.body)
                if r is not None: return r
            for x in a.args[2]:
                r = walk(x)
                if r is not None: return r
            return None
        if a.kind == 'ind': return walk_cond(a.args[0])
        for x in a.args:
            if isinstance(x, Poly):
                r = walk(x)
                if r is not None: return r
        return None
    def walk_cond(c):
        for x in c.args:
            if isinstance(x, Poly):
                r = walk(x)
                if r is not None: return r
            elif isinstance(x, Cond):
                r = walk_cond(x)
                if r is not None: return r
        return None
    def walk(p):
        if v not in p.fv: return None
        for (f, ee, b), c in p.terms.items():
            for a, _ in f:
                r = walk_atom(a)
                if r is not None: return r
            if ee is not None:
                r = walk(ee)
                if r is not None: return r
        return None
    for a in atoms:
        r = walk_atom(a)
        if r is not None: return r
    if e is not None: return walk(e)
    return None

def simp_product(f, e, ctx):
    """simplify a product; its brackets are facts for the other factors"""
    inds = [(a, n) for a, n in f if a.kind == 'ind']
    oth = [(a, n) for a, n in f if a.kind != 'ind']
    keep = []
    mk = ctx.mark()
    try:
        res = ONE
        # decide brackets, each assuming the ones kept before
        for a, n in inds:
            c = simp_cond(a.args[0], ctx)
            if c.kind == 'false': return ZERO
            if c.kind == 'true': continue
            q = ind(c)
            if len(q.terms) == 1:
                ctx.add(c)
            keep.append(q)
        if len(keep) > 1:
            # second round: earlier brackets may follow from later ones
            k2 = []
            for i, q in enumerate(keep):
                k2.append(q)
        for a, n in oth:
            res = res * ppow(simp_atom(a, ctx), n)
        if e is not None:
            res = res * T.exp(simp(e, ctx) if pneeds(e) or (e.fv & ctx.eqs.keys()) else e)
    finally:
        ctx.restore(mk)
    for q in keep: res = res * q
    return res

def simp_atom(a, ctx):
    if not needs(a):
        return T.subst_atom(a, ctx.eqs) if a.fv & ctx.eqs.keys() else P(a)
    if a.kind == 'ind':
        return ind(simp_cond(a.args[0], ctx))
    if a.kind == 'app':
        return T.app(a.name, tuple(simp(x, ctx) for x in a.args), a.sort, a.cj)
    if a.kind == 'fn':
        ar = tuple(simp(x, ctx) for x in a.args)
        n = a.name
        if n in ('fdiv', 'mod'):
            r = simp_divmod(n, ar[0], ar[1], ctx)
            if r is not None: return r
        elif n == 'min' or n == 'max':
            d = ctx.decide(mk_ge(ar[0] - ar[1]))
            if d is not None: return ar[0] if (d == (n == 'max')) else ar[1]
        elif n in ('arcsin', 'arccos', 'arctan2', 'angle'):
            r = simp_inverse_trig(n, ar, ctx)
            if r is not None: return r
        elif n == 'sqrt':
            r = simp_sqrt(ar[0], ctx)
            if r is not None: return r
        return T.fn(n, *ar)
    if a.kind == 'op':
        lams, extra, idx = a.args
        return T.op(a.name, tuple(simp_lam(l, ctx) for l in lams),
                    tuple(simp(x, ctx) if isinstance(x, Poly) else x for x in extra),
                    tuple(simp(x, ctx) for x in idx), a.sort, a.cj)
    return P(a)

def simp_lam(l, ctx):
    fr = tuple(fresh('l') for _ in l.params)
    body = subst(l.body, {symatom(p): i for p, i in zip(l.params, fr)})
    shape = tuple(simp(s, ctx) for s in l.shape)
    mk = ctx.mark()
    try:
        for i, s in zip(fr, shape):
            ctx.add(mk_ge(i))
            ctx.add(mk_ge(s - i - 1))
        if ctx.infeasible(): body2 = ZERO
        else: body2 = simp(body, ctx)
    finally:
        ctx.restore(mk)
    if body2 is body and shape == l.shape: return l
    return T.close_lam(shape, fr, body2)

def simp_divmod(n, p, q, ctx):
    if not ctx.prove(mk_gt(q)): return None
    x, r = T.split_multiple(p, q)
    cands = [(x, r)]
    if not x.terms: cands = [(ZERO, p), (ONE, p - q), (-ONE, p + q)]
    else: cands += [(x - 1, r + q), (x + 1, r - q)]
    for x, r in cands:
        if ctx.prove(mk_and(mk_ge(r), mk_ge(q - r - 1) if T.all_int_like(q - r) else mk_gt(q - r))):
            return x if n == 'fdiv' else r
    # larger constant quotients, as long as the facts support them
    x, r = cands[0]
    for k in range(1, 9):
        if not ctx.prove(mk_ge(r - q * k)): return None
        y = r - q * k
        if k > 1 and ctx.prove(mk_ge(q - y - 1) if T.all_int_like(q - y) else mk_gt(q - y)): return x + k if n == 'fdiv' else y
    return None

def simp_sqrt(x, ctx):
    # sqrt(y*y) with a known sign; sums of squares stay
    if len(x.terms) == 1:
        (f, e, b), c = next(iter(x.terms.items()))
        if not b and c[1] == 0 and c[0] > 0:
            out, rest = ONE, []
            for a, n in f:
                if n >= 2 and a.sort != 'complex' and a.sign is None:
                    d = ctx.decide(mk_ge(P(a)))
                    if d is not None:
                        out = out * ppow(P(a) if d else -P(a), n // 2)
                        if n % 2: rest.append((a, 1))
                        continue
                elif n == 1 and a.sign is None: pass
                rest.append((a, n))
            if out is not ONE:
                return out * T.sqrt(T.build(rest, (e,), (), c))
        return None
    # perfect squares of trigonometric polynomials:  sqrt(cos^2) etc.
    r = perfect_square(x)
    if r is not None:
        if ctx.prove(mk_ge(r)) or prove_trig_nonneg(r, ctx): return r
        if ctx.prove(mk_ge(-r)) or prove_trig_nonneg(-r, ctx): return -r
    return None

def trig_parts(x):
    """x = c0 + sum ck*exp(i*k*theta): returns theta candidates"""
    es = set()
    for (f, e, b), c in x.terms.items():
        if e is not None: es.add(e)
    return es

def perfect_square(x):
    """recognise r*cos(t)^2, r*sin(t)^2 with r a square:  x = a*(2 +- exp(2it) +- exp(-2it))/4"""
    es = list(trig_parts(x))
    if len(es) != 2 or (es[0] + es[1]).terms: return None
    half = es[0] / 2
    t = half * (-T.I)
    for g in (T.cos(t), T.sin(t)):
        # x / g^2 constant factor
        g2 = g * g
        m0 = [(m, c) for m, c in x.terms.items() if m[1] is None]
        if not m0: continue
        rest = mk_poly(dict(m0)) * 2
        if not (x - rest * g2).terms:
            s = T.sqrt(rest)
            return s * g
    return None

def prove_trig_nonneg(r, ctx):
    """r = s*cos(t) or s*sin(t) with s >= 0 and t in the proper range"""
    es = list(trig_parts(r))
    if len(es) != 2 or (es[0] + es[1]).terms: return False
    t = es[0] * (-T.I)
    if not is_real(t): return False
    for t in (t, -t):
        co, si = T.cos(t), T.sin(t)
        # divide by matching coefficient of exp(it)
        e1 = T.I * t
        num = [(m, c) for m, c in r.terms.items() if m[1] is e1]
        coef = mk_poly({(m[0], None, m[2]): c for m, c in num})
        s = coef * 2
        if not (r - s * co).terms:
            if (ctx.prove(mk_ge(s)) or s is ONE) and ctx.prove(mk_ge(t + T.PI / 2)) and ctx.prove(mk_ge(T.PI / 2 - t)): return True
        s = coef * 2 * T.I
        if not (r - s * si).terms:
            if (ctx.prove(mk_ge(s)) or s is ONE) and ctx.prove(mk_ge(t)) and ctx.prove(mk_ge(T.PI - t)): return True
    return False

def simp_inverse_trig(n, ar, ctx):
    x = ar[0]
    if n == 'arcsin':
        es = list(trig_parts(x))
        if len(es) == 2 and not (es[0] + es[1]).terms and len(x.terms) == 2:
            for t in (es[0] * (-T.I), es[1] * (-T.I)):
                if not is_real(t): return None
                if not (x - T.sin(t)).terms and ctx.prove(mk_ge(t + T.PI / 2)) and ctx.prove(mk_ge(T.PI / 2 - t)): return t
    if n == 'angle' and len(x.terms) == 1:
        (f, e, b), c = next(iter(x.terms.items()))
        if not b and e is not None and c[1] == 0 and c[0] > 0 and is_real(e * T.I) and all(a.sign == 'pos' for a, _ in f):
            t = e * (-T.I)
            if ctx.prove(mk_gt(t + T.PI)) and ctx.prove(mk_ge(T.PI - t)): return t
        if not b and e is None and c[1] == 0 and c[0] > 0 and all(a.sign == 'pos' for a, _ in f): return ZERO
    if n == 'arctan2':
        y, xx = ar
        if not y.terms:
            d = ctx.decide(mk_ge(xx))
            if d is True: return ZERO
            if d is False: return T.PI
    return None

# --- the equality prover --------------------------------------------------------------------------
MAXSPLIT = 10
TRACE = [False]

def free_inds(p):
    """brackets (outside of sums) in p, innermost conditions first"""
    out = {}
    def walk(p):
        for (f, e, b), c in p.terms.items():
            bv = {v for v, _ in b}
            for a, n in f:
                walk_atom(a, bv)
            if e is not None and not b: walk(e)
    def walk_atom(a, bv):
        if a.kind == 'ind':
            if not (a.fv & bv): out[a] = out.get(a, 0) + 1
        elif a.kind in ('fn', 'app') and not (a.fv & bv):
            if a.name in ('min', 'max') and a.kind == 'fn':
                c = mk_ge(a.args[0] - a.args[1])
                q = ind(c)
                for (f, e, b), cc in q.terms.items():
                    for x, n in f: out[x] = out.get(x, 0) + 1
            for x in a.args: walk(x)
    walk(p)
    return out

def prove_zero(D, ctx, depth=0):
    """D == 0 under the facts of ctx"""
    if not D.terms: return True
    D = simp(D, ctx)
    if not D.terms: return True
    if ctx.infeasible(): return True
    # case split on free brackets
    fi = free_inds(D)
    if fi and depth < MAXSPLIT:
        a = max(fi, key=lambda a: (fi[a], -a.id))
        c = a.args[0]
        ok = True
        for cc in (c, mk_not(c)):
            mk = ctx.mark()
            try:
                ctx.add(cc)
                D2 = subst_ind(D, c, cc is c)
                if not prove_zero(D2, ctx, depth + 1): ok = False
            finally:
                ctx.restore(mk)
            if not ok: return False
        return True
    for step in (eq_entries, canon_reversal, merge_sqrt, square_roots, peel_sums, point_sums, clear_denominators, congruence, cancel_inverse):
        D2 = step(D, ctx)
        if D2 is not None and D2 is not D:
            if not D2.terms: return True
            return prove_zero(D2, ctx, depth + 1) if depth < 3 * MAXSPLIT else False
    # the position of an extreme value among few entries: one case per position
    a = next((a for m in D.terms for a, n in m[0] if a.kind == 'op' and a.name in ('argmin', 'argmax') and few(a) and not m[2]), None)
    if a is not None and depth < 3 * MAXSPLIT:
        l = a.args[0][0]
        n = few(a)
        v = [T.lam_app(l, (P(k),)) for k in range(n)]
        if a.name == 'argmax': v = [-x for x in v]
        if all(is_real(x) for x in v):
            for k in range(n):
                mk = ctx.mark()
                try:
                    for j in range(n):
                        if j != k: ctx.add(T.mk_gt(v[j] - v[k]) if j < k else mk_ge(v[j] - v[k]))
                    if not ctx.infeasible():
                        D2 = padd_many([T.pscale(T.build([x for x in f if x[0] is not a], (e,), b), c) * ppow(P(k), sum(n for x, n in f if x is a))
                                        if any(x is a for x, _ in f) and not b else mk_poly({(f, e, b): c}) for (f, e, b), c in D.terms.items()])
                        if not prove_zero(D2, ctx, depth + 1): return False
                finally:
                    ctx.restore(mk)
            return True
    # integers and reals without structure: ask z3
    if is_real(D):
        if ctx.prove(mk_eq(D)): return True
    if TRACE[0]:
        print('STUCK', D)
    STUCK[0] = D
    return False

STUCK = [None]

def few(a):
    """the number of entries of an argmin/argmax over one small axis, else None"""
    l = a.args[0][0]
    n = T.int_of(l.shape[0]) if len(l.shape) == 1 else None
    return n if n is not None and 0 < n <= 5 else None

def subst_ind(D, c, val):
    """replace the bracket of c everywhere (outside of binders) by its value"""
    q = ind(c)
    a = T.mono1(q) if len(q.terms) == 1 else None
    out = []
    for (f, e, b), k in D.terms.items():
        hit = [x for x, n in f if x is a]
        if hit:
            if not val: continue
            f = tuple((x, n) for x, n in f if x is not a)
        out.append(mk_poly({(f, e, b): k}) if not (hit and b) else T.pscale(T.build(list(f), (e,), b), k))
    return padd_many(out)

def canon_reversal(D, ctx):
    """choose a canonical direction for every bound sum"""
    out, ch = [], False
    for (f, e, b), c in D.terms.items():
        if not b:
            out.append(mk_poly({(f, e, b): c}))
            continue
        best = mk_poly({(f, e, b): C1})
        key0 = best.id
        for i in range(len(b)):
            f2, e2, b2 = open_mono((f, e, b))
            v, hi = b2[i]
            if any(v in h.fv for _, h in b2): continue
            mp = {v: hi - 1 - P(v)}
            q = ONE
            for a, n in f2: q = q * ppow(T.subst_atom(a, mp), n)
            if e2 is not None: q = q * T.exp(subst(e2, mp))
            for w, h in reversed(b2): q = sum_raw(w, h, q)
            if len(q.terms) != 1: continue
            cand = (len(str(q)), q.id)
            cur = (len(str(best)), best.id)
            if cand < cur: best = q
        if best.id != key0: ch = True
        out.append(pscale(best, c))
    if not ch: return None
    return padd_many(out)

def eq_entries(D, ctx):
    """inside of a sum, an equation between integer entries rewrites the exponential: [x - y == d] exp(x) = [x - y == d] exp(y + d)"""
    out, ch = [], False
    for m, c in D.terms.items():
        f, e, b = m
        if not b or e is None:
            out.append(mk_poly({m: c}))
            continue
        f2, e2, b2 = open_mono(m)
        q = e2
        for a, n in f2:
            if a.kind != 'ind' or a.args[0].kind != 'eq': continue
            p = a.args[0].args[0]
            cand = []
            for (f3, e3, b3), k in p.terms.items():
                if len(f3) == 1 and f3[0][1] == 1 and e3 is None and not b3 and f3[0][0].kind == 'app' and k[1] == 0 and abs(k[0]) == 1:
                    cand.append((f3[0][0], k[0]))
            cand = [x for x in cand if sum(1 for (f3, e3, b3) in p.terms if any(y is x[0] for y, _ in f3)) == 1]
            if not cand: continue
            # the entry whose index is the last bound variable
            order = [v for v, h in b2]
            x, k = max(cand, key=lambda t: (max((order.index(v) for v in t[0].fv if v in order), default=-1), t[0].id))
            val = P(x) - p * k
            t = ZERO
            for (f3, e3, b3), kk in q.terms.items():
                if e3 is None and not b3 and any(y is x and nn == 1 for y, nn in f3):
                    t = t + mk_poly({(tuple(z for z in f3 if z[0] is not x), None, ()): kk}) * val
                else: t = t + mk_poly({(f3, e3, b3): kk})
            q = t
        if q is e2:
            out.append(mk_poly({m: c}))
            continue
        ch = True
        r = mk_poly({(tuple(f2), None, ()): C1}) * T.exp(q)
        for v, h in reversed(b2): r = sum_raw(v, h, r)
        out.append(pscale(r, c))
    return padd_many(out) if ch else None

def merge_sqrt(D, ctx):
    """product of roots -> root of the product"""
    out, ch = [], False
    for (f, e, b), c in D.terms.items():
        sq = [(a, n) for a, n in f if a.kind == 'fn' and a.name == 'sqrt' and abs(n) == 1]
        if len(sq) >= 2 and not b:
            x = ONE
            for a, n in sq: x = x * (a.args[0] if n == 1 else recip(a.args[0]))
            rest = [(a, n) for a, n in f if not (a.kind == 'fn' and a.name == 'sqrt' and abs(n) == 1)]
            q = T.build(rest, (e,), b) * T.sqrt(x)
            if q is not mk_poly({(f, e, b): C1}):
                ch = True
                out.append(pscale(q, c))
                continue
        out.append(mk_poly({(f, e, b): c}))
    return padd_many(out) if ch else None

def square_roots(D, ctx):
    """a difference of two products of square roots vanishes iff their squares agree"""
    if len(D.terms) != 2: return None
    sq, sg = [], []
    for (f, e, b), c in D.terms.items():
        if b or e is not None or c[1] != 0: return None
        q = P(c[0] * c[0])
        for a, n in f:
            if a.kind != 'fn' or a.name != 'sqrt' or abs(n) != 1: return None
            q = q * (a.args[0] if n == 1 else recip(a.args[0]))
        sq.append(q); sg.append(c[0] > 0)
    if sg[0] == sg[1]: return None
    d = sq[0] - sq[1]
    return ZERO if prove_zero(d, ctx, MAXSPLIT) else None

def clear_denominators(D, ctx):
    """multiply by the arguments of reciprocals (nonzero: the operation is defined)"""
    for _ in range(1):
        den = {}
        for (f, e, b), c in D.terms.items():
            bv = {v for v, _ in b}
            for a, n in f:
                if a.kind == 'fn' and a.name == 'recip' and n > 0 and not (a.fv & bv):
                    den[a] = max(den.get(a, 0), n)
                elif n < 0 and a.kind != 'ind' and not (a.fv & bv):
                    den[('neg', a)] = max(den.get(('neg', a), 0), -n)
        # only useful when there are several distinct monomials
        cand = [k for k in den if not isinstance(k, tuple)]
        if not cand or len(D.terms) < 2: return None
        a = cand[0]
        q = a.args[0]
        out = []
        for (f, e, b), c in D.terms.items():
            n = dict(f).get(a, 0)
            m = den[a]
            rest = tuple((x, k) for x, k in f if x is not a)
            t = pscale(T.build(list(rest), (e,), b), c)
            if n < 0: return None
            t = t * ppow(q, m - n)
            out.append(t)
        return padd_many(out)
    return None

def op_atoms(p):
    out = {}
    def walk(p):
        for (f, e, b), c in p.terms.items():
            for a, n in f: wa(a)
            if e is not None: walk(e)
    def wa(a):
        if a in out: return
        if a.kind == 'op':
            for l in a.args[0]:
                for h in l.shape: walk(h)
                walk(l.body)
            for x in tuple(a.args[1]) + tuple(a.args[2]):
                if isinstance(x, Poly): walk(x)
            out[a] = 1
        elif a.kind == 'ind': wc(a.args[0])
        if a.kind != 'sym':
            for x in a.args:
                if isinstance(x, Poly): walk(x)
    def wc(c):
        for x in c.args:
            if isinstance(x, Poly): walk(x)
            elif isinstance(x, Cond): wc(x)
    walk(p)
    return list(out)

_neq = set()
def congruence(D, ctx):
    """unify extensionally equal arguments of opaque operators"""
    ats = op_atoms(D)
    lams = {}
    for a in ats:
        for i, l in enumerate(a.args[0]):
            lams.setdefault((a.name, i, len(l.shape)), {})[l] = 1
    for key, ls in lams.items():
        ls = list(ls)
        for i in range(len(ls)):
            for j in range(i + 1, len(ls)):
                k = (ls[i], ls[j], ctx.key)
                if k in _neq: continue
                if lam_equal(ls[i], ls[j], ctx):
                    return replace_lam(D, ls[i], ls[j])
                if key[0] == 'inv':
                    for tr, cc in ((True, False), (False, True), (True, True)):
                        l2 = T.lam_T(ls[j]) if tr else ls[j]
                        if cc: l2 = T.lam_conj(l2)
                        if l2 is not ls[j] and lam_equal(ls[i], l2, ctx):
                            return replace_inv(D, ls[i], ls[j], tr, cc)
                    t = inv_ratio(D, ls[i], ls[j])
                    if t is not None and t != 1 and lam_equal(ls[i], T.mk_lam(ls[j].shape, lambda ix: T.lam_app(ls[j], ix) * P(1 / t)), ctx):
                        return replace_scaled(D, ls[i], ls[j], t)
                _neq.add(k)
    for l in {a.args[0][0]: 1 for a in ats if a.name == 'inv'}:
        for tr, cc in ((True, False), (False, True), (True, True)):
            k = (l, (tr, cc), ctx.key)
            if k in _neq: continue
            D2 = self_symmetric(D, l, tr, cc)
            if D2 is D: continue
            l2 = T.lam_T(l) if tr else l
            if cc: l2 = T.lam_conj(l2)
            if l2 is not l and lam_equal(l, l2, ctx): return D2
            _neq.add(k)
    return None

def self_symmetric(D, l, tr, cc):
    """canonical entries of inv(l) where l equals its transpose/conjugate"""
    def f(a):
        if a.name == 'inv' and a.args[0][0] is l:
            i, j = a.args[2]
            if cc and a.cj: return T.op('inv', (l,), (), (j, i) if tr else (i, j), 'complex', False)
            if tr and not cc and i.id > j.id: return T.op('inv', (l,), (), (j, i), 'complex', a.cj)
        return None
    f.memo = {}
    return map_ops(D, f)

def inv_ratio(D, l1, l2):
    """t with inv(l1) == t inv(l2), if D can vanish through that equation"""
    cs = {l1: set(), l2: set()}
    for (f, e, b), c in D.terms.items():
        ls = [a.args[0][0] for a, n in f if a.kind == 'op' and a.name == 'inv' and a.args[0][0] in cs]
        if len(ls) == 1 and c[1] == 0: cs[ls[0]].add(c[0])
    if len(cs[l1]) != 1 or len(cs[l2]) != 1: return None
    t = -min(cs[l2]) / min(cs[l1])
    return t if t > 0 else None

def replace_scaled(D, l1, l2, t):
    def f(a):
        if a.kind == 'op' and a.name == 'inv' and a.args[0][0] is l1:
            i, j = a.args[2]
            return P(t) * T.op('inv', (l2,), (), (i, j), 'complex', a.cj)
        return None
    return map_ops(D, f)

def lam_equal(l1, l2, ctx):
    if l1.fv != l2.fv and (l1.fv ^ l2.fv) and False: return False
    if len(l1.shape) != len(l2.shape): return False
    for s, t in zip(l1.shape, l2.shape):
        if s is not t and not ctx.prove(mk_eq(s - t)): return False
    fr = tuple(fresh('e') for _ in l1.params)
    mk = ctx.mark()
    try:
        for i, s in zip(fr, l1.shape):
            ctx.add(mk_ge(i))
            ctx.add(mk_ge(s - i - 1))
        return prove_zero(T.lam_app(l1, fr) - T.lam_app(l2, fr), ctx, MAXSPLIT - 3)
    finally:
        ctx.restore(mk)

def map_ops(p, f):
    """rebuild p applying f to op atoms (outermost)"""
    if not has_op(p): return p
    out = []
    for (fc, e, b), c in p.terms.items():
        q = ONE
        for a, n in fc: q = q * ppow(map_atom(a, f), n)
        if e is not None: q = q * T.exp(map_ops(e, f))
        if b:
            # binders: rename to avoid capture
            fc2, e2, b2 = open_mono((fc, e, b))
            q = ONE
            for a, n in fc2: q = q * ppow(map_atom(a, f), n)
            if e2 is not None: q = q * T.exp(map_ops(e2, f))
            for v, hi in reversed(b2): q = sum_raw(v, hi, q)
        out.append(pscale(q, c))
    return padd_many(out)

_has = {}
def has_op(p):
    """does the polynomial contain an opaque operator?"""
    r = _has.get(p)
    if r is None:
        r = _has[p] = any(e is not None and has_op(e) or any(has_op_atom(a) for a, _ in f) for (f, e, b) in p.terms)
    return r
def has_op_atom(a):
    if a.kind == 'op': return True
    if a.kind in ('app', 'fn'): return any(has_op(x) for x in a.args)
    return False

def map_atom(a, f):
    if a.kind == 'sym' or not has_op_atom(a): return P(a)
    memo = getattr(f, 'memo', None)
    if memo is None: return map_atom1(a, f)
    r = memo.get(a)
    if r is None: r = memo[a] = map_atom1(a, f)
    return r

def map_atom1(a, f):
    if a.kind == 'op':
        r = f(a)
        if r is not None: return r
        lams, extra, idx = a.args
        nl = tuple(map_lam(l, f) for l in lams)
        return T.op(a.name, nl, tuple(map_ops(x, f) if isinstance(x, Poly) else x for x in extra), tuple(map_ops(x, f) for x in idx), a.sort, a.cj)
    if a.kind == 'app': return T.app(a.name, tuple(map_ops(x, f) for x in a.args), a.sort, a.cj)
    if a.kind == 'fn': return T.fn(a.name, *[map_ops(x, f) for x in a.args])
    return P(a)

def map_lam(l, f):
    memo = getattr(f, 'memo', None)
    if memo is None: return map_lam1(l, f)
    r = memo.get(l)
    if r is None: r = memo[l] = map_lam1(l, f)
    return r

def map_lam1(l, f):
    fr = tuple(fresh('l') for _ in l.params)
    b0 = subst(l.body, {symatom(p): i for p, i in zip(l.params, fr)})
    b1 = map_ops(b0, f)
    sh = tuple(map_ops(h, f) for h in l.shape)
    if b1 is b0 and sh == l.shape: return l
    return T.close_lam(sh, fr, b1)

def replace_lam(D, l1, l2):
    def f(a):
        if l1 in a.args[0]:
            return T.op(a.name, tuple(l2 if x is l1 else map_lam(x, f) for x in a.args[0]), tuple(map_ops(x, f) if isinstance(x, Poly) else x for x in a.args[1]), tuple(map_ops(x, f) for x in a.args[2]), a.sort, a.cj)
    f.memo = {}
    return map_ops(D, f)

def replace_inv(D, l1, l2, tr, cc):
    """inv(l1) with l1 = (l2 transposed/conjugated)"""
    def f(a):
        if a.name == 'inv' and a.args[0][0] is l1:
            i, j = a.args[2]
            if tr: i, j = j, i
            return T.op('inv', (l2,), (), (i, j), 'complex', a.cj != cc)
    f.memo = {}
    return map_ops(D, f)

def positive(p, ctx, deep=0):
    """a sum of products of positive factors over nonempty ranges is positive"""
    if deep > 2 or not p.terms or not any(m[2] or any(a.kind == 'op' and a.name == 'prod' for a, _ in m[0]) for m in p.terms): return False
    for (f, e, b), c in p.terms.items():
        if c[1] != 0 or c[0] <= 0: return False
        f, e, b = open_mono((f, e, b))
        if e is not None and not is_real(e): return False
        mk = ctx.mark()
        try:
            for v, hi in b:
                if not ctx.prove(mk_ge(hi - 1)): return False
                ctx.add(mk_ge(P(v)))
                ctx.add(mk_ge(hi - P(v) - 1))
            for a, n in f:
                if a.sign == 'pos': continue
                if a.kind == 'op' and a.name == 'prod':
                    l = a.args[0][0]
                    fr = fresh('t')
                    ctx.add(mk_ge(fr))
                    ctx.add(mk_ge(l.shape[0] - fr - 1))
                    if not ctx.prove(mk_gt(T.lam_app(l, (fr,)))): return False
                    continue
                if a.sort == 'complex' or not ctx.prove(mk_gt(P(a))): return False
        finally: ctx.restore(mk)
    return True

def peel_sums(D, ctx):
    """sums over [0,hi) and [0,hi+-1): peel the last term of the longer one"""
    ms = [(m, c) for m, c in D.terms.items() if m[2]]
    other = None
    for i in range(len(ms)):
        for j in range(len(ms)):
            if i == j: continue
            (f1, e1, b1), c1 = ms[i]
            (f2, e2, b2), c2 = ms[j]
            if len(b1) != len(b2): continue
            h1, h2 = [h for _, h in b1], [h for _, h in b2]
            for h in list(h1):
                if h in h2: h1.remove(h); h2.remove(h)
            if len(h1) != 1 or (h1[0] - h2[0]) is not ONE: continue
            f, e, b = open_mono((f1, e1, b1))
            k = [h for _, h in b].index(h1[0]) if h1[0] in [h for _, h in b] else None
            if k is None or any(b[k][0] in h.fv for _, h in b) or any(v in b[k][1].fv for v, _ in b): continue
            v, hi = b[k]
            if not ctx.prove(mk_ge(hi - 1)): continue
            body = T.build(list(f), (e,), ())
            def over(x):
                for w, h in reversed(b[:k] + b[k + 1:]): x = sum_raw(w, h, x)
                return x
            last = over(sum_raw(v, hi - 1, body)), over(subst(body, {v: hi - 1}))
            first = over(sum_raw(v, hi - 1, subst(body, {v: P(v) + 1}))), over(subst(body, {v: ZERO}))
            inf, inl = (f2, e2, b2) in first[0].terms, (f2, e2, b2) in last[0].terms
            x = first if inf and not inl else last
            r = D - mk_poly({(f1, e1, b1): c1}) + pscale(x[0] + x[1], c1)
            if inf or inl: return r        # the longer sum contains the shorter one
            if other is None: other = r
    return other

def point_sums(D, ctx):
    """a sum over [0,h+1) whose brackets vanish below h has one term"""
    for (f1, e1, b1), c in D.terms.items():
        if not b1: continue
        for k in range(len(b1)):
            v1, hi1 = b1[k]
            for a, n in f1:
                # [q v == 0] with q /= 0
                if a.kind != 'ind' or a.args[0].kind != 'eq' or v1 not in a.fv: continue
                q = without_factor(a.args[0].args[0], v1)
                if q is None or any(w in q.fv for w, _ in b1) or any(v1 in h.fv for _, h in b1) or any(w in hi1.fv for w, _ in b1): continue
                if not ctx.prove(mk_not(mk_eq(q))): continue
                f, e, b = open_mono((f1, e1, b1))
                q = subst(T.build(list(f), (e,), ()), {b[k][0]: ZERO}) * ind(mk_ge(hi1 - 1))
                for w, h in reversed(b[:k] + b[k + 1:]): q = sum_raw(w, h, q)
                return D - mk_poly({(f1, e1, b1): c}) + pscale(q, c)
            if not any(a.kind == 'ind' and a.args[0].kind == 'ge' and v1 in a.fv for a, n in f1): continue
            if int_coef0(hi1) < 1: continue
            f, e, b = open_mono((f1, e1, b1))
            v, hi = b[k]
            if any(v in h.fv for _, h in b) or any(w in hi.fv for w, _ in b): continue
            gs = [a.args[0] for a, n in f if a.kind == 'ind' and v in a.fv and not any(w in a.fv for w, _ in b if w is not v)]
            if not gs or not ctx.prove(mk_ge(hi - 1)): continue
            mk = ctx.mark()
            try:
                ctx.add(mk_ge(P(v)))
                ctx.add(mk_ge(hi - P(v) - 2))
                for g in gs: ctx.add(g)
                none = ctx.infeasible()
            finally: ctx.restore(mk)
            if not none: continue
            q = subst(T.build(list(f), (e,), ()), {v: hi - 1})
            for w, h in reversed(b[:k] + b[k + 1:]): q = sum_raw(w, h, q)
            return D - mk_poly({(f1, e1, b1): c}) + pscale(q, c)
    return None

def without_factor(p, v):
    """q with p = q v, q free of v"""
    out = {}
    for (f, e, b), c in p.terms.items():
        if (v, 1) not in f: return None
        out[(tuple(t for t in f if t[0] is not v), e, b)] = c
    q = mk_poly(out)
    return None if v in q.fv else q

def int_coef0(p):
    for (f, e, b), c in p.terms.items():
        if not f and e is None and not b: return c[0]
    return 0

# --- inv(L) L = 1 ------------------------------------------------------------------------------------
def cancel_inverse(D, ctx):
    """rewrites sum_q inv(L)[p,q] * lead(L)(q,t) with the identity inv(L) L = 1 (lead: largest monomial of L)"""
    for (f, e, b), c in D.terms.items():
        if not b or not any(a.kind == 'op' and a.name == 'inv' for a, n in f): continue
        r = cancel_mono((f, e, b), ctx)
        if r is not None:
            return D - mk_poly({(f, e, b): c}) + pscale(r, c)
    return None

def cancel_mono(m, ctx):
    f, e, b = open_mono(m)
    bv = {v: hi for v, hi in b}
    flat = []
    for a, n in f:
        if n > 0 and isinstance(n, int): flat += [a] * n
        else: flat.append((a, n))
    for k, a in enumerate(flat):
        if isinstance(a, tuple) or a.kind != 'op' or a.name != 'inv': continue
        L = a.args[0][0]
        ij = a.args[2]
        for side in (1, 0):
            q = symatom(ij[side])
            if q is None or q not in bv: continue
            p = ij[1 - side]
            if q in p.fv: continue
            if e is not None and q in e.fv: continue
            tv = fresh('t')
            body = T.lam_app(L, (P(ij[side]), tv) if side == 1 else (tv, P(ij[side])))
            if a.cj: body = T.conj(body)
            lead = max(body.terms.items(), key=lambda t: (len(t[0][2]), sum(abs(n) for _, n in t[0][0])), default=None)
            if lead is None or lead[0][1] is not None: continue
            lf, le, lb = open_mono(lead[0])
            pat = []
            ok = True
            for x, n in lf:
                if n < 0: ok = False
                else: pat += [x] * n
            if not ok or not pat: continue
            rest = [x for i, x in enumerate(flat) if i != k]
            pv = {symatom(tv): None}
            for v, hi in lb: pv[v] = hi
            for asg, left in match_factors(pat, rest, {}, pv, 0):
                t = asg.get(symatom(tv))
                if t is None or q in t.fv: continue
                used = []
                good = True
                for v, hi in lb:
                    x = asg.get(v)
                    xa = symatom(x) if x is not None else None
                    if xa is None or xa not in bv or xa is q or xa in used: good = False; break
                    if not (bv[xa] is subst(hi, {k2: v2 for k2, v2 in asg.items()}) or ctx.prove(mk_eq(bv[xa] - subst(hi, asg)))): good = False; break
                    used.append(xa)
                if not good: continue
                # the variables which disappear must not occur elsewhere
                bad = False
                for x in left:
                    at = x[0] if isinstance(x, tuple) else x
                    if q in at.fv or any(u in at.fv for u in used): bad = True; break
                if bad or any(u in p.fv or u in t.fv for u in used) or (e is not None and any(u in e.fv for u in used)): continue
                if any(u in hi.fv for u in used + [q] for v, hi in b): continue
                remf = [x if isinstance(x, tuple) else (x, 1) for x in left]
                base = T.build(remf, (e,), ())
                delta = T.ind(mk_eq(p - t)) * base
                for v, hi in reversed(b):
                    if v is q or v in used: continue
                    delta = sum_raw(v, hi, delta)
                out = delta
                others = mk_poly({mm: cc for mm, cc in body.terms.items() if mm != lead[0]})
                if others.terms:
                    others = subst(others, {symatom(tv): t})
                    inv_ = P(a)
                    o = others * inv_ * base
                    for v, hi in reversed(b):
                        if v in used: continue
                        o = sum_raw(v, hi, o)
                    out = out - o
                return pscale(out, T.cinv(lead[1]))
    return None

def match_factors(pat, rest, asg, pv, depth):
    """injective matchings of the pattern factors into rest"""
    if not pat:
        yield asg, rest
        return
    x = pat[0]
    for i, y in enumerate(rest):
        if isinstance(y, tuple): continue
        if y.kind != x.kind or y.name != x.name or y.cj != x.cj and x.kind in ('app', 'op'): continue
        a2 = match_atom(x, y, asg, pv)
        if a2 is not None:
            yield from match_factors(pat[1:], rest[:i] + rest[i + 1:], a2, pv, depth + 1)

def match_atom(x, y, asg, pv):
    if x is y and not (x.fv & pv.keys()): return asg
    if x.kind == 'sym': return None
    if len(x.args) != len(y.args): return None
    xs, ys = x.args, y.args
    if x.kind == 'op':
        if x.args[0] != y.args[0] or x.args[1] != y.args[1]: return None
        xs, ys = x.args[2], y.args[2]
    for u, v in zip(xs, ys):
        if not isinstance(u, Poly) or not isinstance(v, Poly):
            if u is not v: return None
            continue
        u2 = subst(u, asg) if asg else u
        if u2 is v: continue
        free = [s for s in pv if s in u2.fv and s not in asg]
        if len(free) != 1: return None
        s = symatom(u2)
        if s is None:
            r = T.solve_linear(u2 - v, free[0])
            if r is None: return None
            val = r
        else: val = v
        asg = dict(asg)
        asg[free[0]] = val
    return asg

"""Loop invariants for loops over a symbolic number of iterations.

A loop body is executed once for a generic iteration v with the loop-carried state replaced by fresh unknowns. From the
effect of that one iteration an invariant "state before iteration v = closed(v)" is formed for every modified location:
  accumulation   x' = x + b(v)                    closed(v) = x0 + sum_{t<v} b(t)
  assignment     x' = e(v)                        closed(v) = x0 if v=0 else e(v-1)
  scatter        x'[c(v)] = w(v), c disjoint      closed(v)[j] = x0[j](1-sum_{t<v}[c(t,j)]) + sum_{t<v}[c(t,j)] w(t,j)
  append         l' = l + [e(v)]                  closed(v) = l0 + [e(0..v-1)]
  grouping       d[k(v)].append(v)                closed(v) = positions grouped by key
The invariant is then verified: closed(0) is the state before the loop and one execution of the body from closed(v)
ends in closed(v+1). Every such preservation proof is an obligation of the run.
"""
from . import terms as T
from .terms import (P, Poly, Cond, ZERO, ONE, TRUE, FALSE, VerifierError, fresh, symatom, int_of, mk_ge, mk_eq, mk_not, mk_and, mk_or,
                    mk_ex, mk_all, ind, ite, psum, subst, cond_subst)
from .rt import R, Num, SBool, mknum, mkbool, isnum, parts, cond_of, PyExc, PathEnd, run_local, join_sort
from .seq import SList, FilterList, GroupMap, seq_view
from .nparr import Arr, Buf, mk, named
from .prove import prove_zero, simp, free_inds, subst_ind
from . import interp as IP
from .interp import (UNDEF, LOOPLISTS, LISTS, serial, LoopDict, merge_vals, subst_val, freeze, with_range, bufid, FilterValues, newlist)

COUNT = {'loops': 0, 'preserved': 0}
_h = [0]

class Mod:
    """a location modified by the loop"""
    def __init__(self, kind, obj, name=None):
        self.kind, self.obj, self.name = kind, obj, name
        self.state = None           # None (unsolved) | closed form v -> value
        self.final = None
        self.hv = None
        self.tag = None
        self.sort = None
    def key(self): return (self.kind, id(self.obj), self.name)
    def where(self):
        if self.kind == 'env': return self.obj.vars
        return self.obj._attrs
    def read(self):
        if self.kind in ('env', 'attr'): return self.where().get(self.name, UNDEF)
    def write(self, v):
        """journalled assignment"""
        d, k = self.where(), self.name
        if k in d:
            old = d[k]
            R.log(self.kind, (self.obj, k), lambda: d.__setitem__(k, old))
        else: R.log(self.kind, (self.obj, k), lambda: d.pop(k, None))
        if v is UNDEF: d.pop(k, None)
        else: d[k] = v

def hname():
    _h[0] += 1
    return 'h%d_' % _h[0]

def has_havoc(x):
    """havoc atoms in a polynomial or condition"""
    for a in atoms_of(x):
        if a.name.startswith('h') and a.name.endswith('_') and a.name[1:-1].isdigit(): return True
    return False

def atoms_of(x):
    seen, out, todo = set(), [], [x]
    while todo:
        y = todo.pop()
        if id(y) in seen: continue
        seen.add(id(y))
        if isinstance(y, Poly):
            for (f, e, b), c in y.terms.items():
                for a, _ in f: todo.append(a)
                if e is not None: todo.append(e)
                for bb in b:
                    for z in bb: todo.append(z)
        elif isinstance(y, T.Atom):
            out.append(y)
            for z in y.args:
                todo.append(z)
        elif isinstance(y, Cond):
            for z in y.args: todo.append(z)
        elif isinstance(y, T.Lam):
            todo.append(y.body)
            todo.extend(y.shape)
        elif isinstance(y, (tuple, list)):
            todo.extend(y)
    return out

def val_havoc(v):
    if isinstance(v, Num): return has_havoc(v.p)
    if isinstance(v, SBool): return has_havoc(v.c)
    if isinstance(v, Arr):
        ix = tuple(fresh('w') for _ in v.sh)
        return has_havoc(v.ent()(ix)) or any(has_havoc(s) for s in v.sh)
    if isinstance(v, (tuple, list)): return any(val_havoc(x) for x in v)
    if isinstance(v, IP.Obj): return any(val_havoc(x) for x in v._attrs.values())
    if isinstance(v, SList) and not isinstance(v, (FilterList,)):
        return val_havoc(v.get(mknum(fresh('w'), 'int')))
    return False

def summarise(st, env, n, get):
    """Execute `for target in seq: body` for a symbolic number n of iterations."""
    COUNT['loops'] += 1
    np_ = parts(n)[0]
    # a loop that does not run at all
    d = R.ctx.decide(mk_ge(np_ - 1))
    if d is False: return None
    mods = {}
    v = fresh('i')
    va = symatom(v)
    b0, i0 = bufid(), IP._ids[0]
    pre = {}

    def discover(journal):
        new = False
        for kind, obj, _ in journal:
            if kind == 'env':
                e, name = obj
                if name == '%exc': continue
                if not frame_of(e, env): continue
                m = Mod('env', e, name)
            elif kind == 'attr':
                o, name = obj
                if o._id > i0: continue
                m = Mod('attr', o, name)
            elif kind == 'buf':
                if obj.id > b0: continue
                m = Mod('buf', obj)
            elif kind in ('list', 'dict'):
                if serial(obj) > i0: continue
                m = Mod(kind, obj)
            elif kind == 'ldict': continue
            elif kind == 'slist':
                raise VerifierError('a symbolic list is modified in a loop')
            else: raise VerifierError('loop effect ' + kind)
            if m.key() not in mods:
                mods[m.key()] = m
                if m.kind in ('env', 'attr'): pre[m.key()] = m.read()
                elif m.kind == 'buf': pre[m.key()] = m.obj.snapshot()
                elif m.kind == 'list': pre[m.key()] = list(m.obj)
                elif m.kind == 'dict': pre[m.key()] = dict(m.obj)
                new = True
        return new

    def enter(k):
        """put the state before iteration k in place"""
        for m in mods.values():
            if m.kind in ('env', 'attr'):
                if m.state is not None: val = m.state(k)
                else: val = havoc(m)
                m.write(val)
            elif m.kind == 'buf':
                if m.state is not None: f = m.state(k)
                else:
                    if m.hv is None: m.hv = hname()
                    if m.obj.sort == 'bool': f = lambda ix, h=m.hv: T.batom(h, ix)
                    else: f = lambda ix, h=m.hv, s=m.obj.sort: T.app(h, ix, s)
                m.obj.setf(f, lambda x: TRUE)
            elif m.kind == 'list':
                LOOPLISTS.append(m.obj)
            elif m.kind == 'dict':
                if m.tag is None: m.tag = hname()
                m.ld = LoopDict(hasattr(m.obj, 'factory'), m.tag)
                replace_refs(m.obj, m.ld)

    def havoc(m):
        p = pre[m.key()]
        if p is UNDEF or p is None or isinstance(p, (str, tuple, list, IP.Obj, dict, SList)) or (isinstance(p, Arr) and p.sort == 'obj'): return UNDEF
        if m.hv is None: m.hv = hname()
        if isinstance(p, Arr):
            s = m.sort or p.sort
            if s == 'bool': return mk(p.sh, s, lambda ix: T.batom(m.hv, ix))
            return mk(p.sh, s, lambda ix: T.app(m.hv, ix, s))
        if isinstance(p, (bool, SBool)): return mkbool(T.batom(m.hv, ()))
        if isnum(p):
            s = m.sort or parts(p)[1]
            return Num(T.sym(m.hv, s), s, getattr(p, 'np', False))
        return UNDEF

    def replace_refs(old, new):
        """every variable of the frame and every attribute of self holding `old`"""
        n_ = 0
        e = env
        while e is not None:
            for k, x in list(e.vars.items()):
                if x is old:
                    Mod('env', e, k).write(new); n_ += 1
                elif isinstance(x, IP.Obj):
                    for a, y in list(x._attrs.items()):
                        if y is old: Mod('attr', x, a).write(new); n_ += 1
            e = e.parent
        if not n_: raise VerifierError('a container modified in a loop cannot be located')

    def iteration(k, collect):
        """execute the body for iteration k from the current invariant; all effects are undone"""
        def run():
            with_range(k, np_)
            if R.ctx.infeasible(): raise PathEnd()
            nl = len(LOOPLISTS)
            wcs = []
            try:
                enter(k)
                j0 = len(R.journal)
                for m in mods.values():
                    if m.kind == 'buf':
                        b = m.obj
                        old = b.wc
                        b.wc = lambda x: FALSE
                        R.journal.append(('wc', b, lambda b=b, old=old: setattr(b, 'wc', old)))
                try:
                    IP.bind_target(st.target, get(mknum(k, 'int')), env)
                    s = IP.exec_block(st.body, env)
                except PyExc as e:
                    return ('raise', e, None, [])
                sig = None if s is None or s[0] == 'continue' else s[0]
                if sig == 'return': sig = ('return', freeze(s[1]))
                return ('end', sig, collect(), [j for j in R.journal[j0:] if j[0] != 'wc'])
            finally:
                del LOOPLISTS[nl:]
        return run_local(run)

    def collect():
        out = {}
        for key, m in mods.items():
            if m.kind in ('env', 'attr'): out[key] = freeze(m.read())
            elif m.kind == 'buf': out[key] = (m.obj.snapshot(), m.obj.wc)
            elif m.kind == 'list': out[key] = list(m.obj)
            elif m.kind == 'dict': out[key] = list(m.ld.rec)
        return out

    # discover the modified locations
    def discover_all():
        for _ in range(12):
            outs = iteration(v, collect)
            new = False
            for conds, r in outs:
                if r[0] == 'end' and discover(r[3]): new = True
            if not new: return outs
        raise VerifierError('loop effects do not stabilise')

    outs = discover_all()
    for rounds in range(12):
        todo = [m for m in mods.values() if m.state is None]
        if not todo: break
        ends = [(c, r[2]) for c, r in outs if r[0] == 'end' and r[1] in (None, 'break')]
        if not ends and any(r[0] == 'end' for c, r in outs): ends = []
        normal = [(c, r[2]) for c, r in outs if r[0] == 'end' and r[1] is None]
        progress = False
        if not normal:
            if not outs: return None
            # every path leaves the loop in its first iteration
            for m in todo: m.state = lambda k, m=m: pre[m.key()] if m.kind in ('env', 'attr', 'buf') else None
            break
        k0 = R.ctx.mark()
        with_range(v, np_)
        try:
            for m in todo:
                if solve(m, normal, v, va, np_, pre): progress = True
        finally: R.ctx.restore(k0)
        if not progress: raise VerifierError('no loop invariant found for %s' % ', '.join(str(m.name or m.kind) for m in todo))
        outs = discover_all()
    else: raise VerifierError('no loop invariant found')

    # verify the invariant, handle exceptional exits
    def collect2():
        for key, m in mods.items():
            if m.kind == 'buf':
                ix = tuple(fresh('x') for _ in m.obj.shape)
                mk0 = R.ctx.mark()
                for i_, s_ in zip(ix, m.obj.shape): with_range(i_, s_)
                a, b = m.obj.f(ix), m.state(v + 1)(ix)
                ok = same(a, b)
                R.ctx.restore(mk0)
            elif m.kind in ('env', 'attr'):
                a, b = m.read(), m.state(v + 1)
                ok = same_val(a, b)
            else: continue
            if not ok: raise VerifierError('loop invariant not preserved: %s' % (m.name or m.kind))
            COUNT['preserved'] += 1
        return {}
    outs = iteration(v, lambda: None)
    raises, leaves = [], []
    for conds, r in outs:
        c = mk_and(*conds)
        if has_havoc(c): raise VerifierError('path of a loop body depends on unknown state')
        if r[0] == 'raise': raises.append((c, r[1]))
        elif r[1] is not None: leaves.append((c, r[1]))
    for c, e in raises:
        if leaves: raise VerifierError('loop with several exits')
        if R.decide(mk_ex(va, 0, np_, c)): raise e
    if leaves:
        B = mk_or(*[c for c, _ in leaves])
        if R.decide(mk_ex(va, 0, np_, B)):
            f = fresh('first')
            with_range(f, np_)
            R.assume(cond_subst(B, {va: f}))
            R.assume(mk_all(va, 0, f, mk_not(B)))
            enter(f)
            IP.bind_target(st.target, get(mknum(f, 'int')), env)
            s = IP.exec_block(st.body, env)
            if s is not None and s[0] == 'return': return s
            if s is not None and s[0] == 'break': return ('looped',)
            raise VerifierError('loop exit')
    chk = iteration(v, collect2)

    # the state after the loop
    for m in mods.values():
        if m.kind in ('env', 'attr'):
            m.write(m.final())
        elif m.kind == 'buf':
            f = m.state(np_)
            w = m.wcond
            m.obj.setf(f, w)
        else:
            new = m.final()
            replace_refs(m.obj, new)
    return None

def same(a, b):
    if isinstance(a, Cond):
        return a is b or R.ctx.prove(mk_and(mk_or(a, mk_not(b)), mk_or(mk_not(a), b)))
    return a is b or quick_zero(a - b, R.ctx) or prove_zero(a - b, R.ctx)

def quick_zero(D, ctx, depth=0):
    """zero after splitting on the top-level brackets only, without looking inside of the terms"""
    if not D.terms: return True
    fi = free_inds(D)
    if not fi or depth > 6: return False
    eqs = [x for x in fi if x.args[0].kind == 'eq']
    a = (eqs or sorted(fi, key=lambda x: x.id))[0]
    c = a.args[0]
    d = ctx.decide(c)
    for cc in (c, mk_not(c)):
        if d is not None and d != (cc is c): continue
        D2 = subst_ind(D, c, cc is c)
        if cc is c and c.kind == 'eq':
            p = c.args[0]
            for v in sorted(p.fv, key=lambda v: -v.id):
                s = T.solve_linear(p, v) if T.int_poly(p) else None
                if s is not None and v not in s.fv:
                    D2 = subst(D2, {v: s})
                    break
        mk0 = ctx.mark()
        try:
            ctx.add(cc)
            if D2.terms and not ctx.infeasible() and not quick_zero(D2, ctx, depth + 1): return False
        finally: ctx.restore(mk0)
    return True

def same_val(a, b):
    if a is UNDEF or b is UNDEF or a is b: return True
    if isnum(a) and isnum(b):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)): return same(cond_of(a), cond_of(b))
        return same(parts(a)[0], parts(b)[0])
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim != b.ndim: return False
        ix = tuple(fresh('x') for _ in a.sh)
        mk0 = R.ctx.mark()
        try:
            for i, s in zip(ix, a.sh): with_range(i, s)
            return same(a.ent()(ix), b.ent()(ix))
        finally: R.ctx.restore(mk0)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return all(same_val(x, y) for x, y in zip(a, b))
    return True        # template values: equal by construction

def frame_of(e, env):
    while env is not None:
        if env is e: return True
        env = env.parent
    return False

def clean(conds): return not any(has_havoc(c) for c in conds)

def solve(m, ends, v, va, np_, pre):
    key = m.key()
    p0 = pre[key]
    vals = [(c, r[key]) for c, r in ends if key in r]
    if len(vals) != len(ends): raise VerifierError('loop effect not tracked')
    if m.kind in ('env', 'attr'): return solve_var(m, vals, v, va, np_, p0)
    if m.kind == 'buf': return solve_buf(m, vals, v, va, np_, p0)
    if m.kind == 'list': return solve_list(m, vals, v, va, np_, p0)
    if m.kind == 'dict': return solve_dict(m, vals, v, va, np_, p0)

def upto(va, k, body):
    """sum of body over va in [0,k)"""
    return upto2(va, k, body, {})

def upto2(va, k, body, mp):
    """the same with a substitution of other variables (whose values may mention va: it is renamed first)"""
    t = fresh('t')
    return psum(symatom(t), 0, k, subst(body, {va: t, **mp}))

def solve_var(m, vals, v, va, np_, p0):
    if any(x is UNDEF for c, x in vals):
        if all(x is UNDEF for c, x in vals):
            m.state = lambda k: UNDEF
            m.final = lambda: UNDEF
            return True
        raise VerifierError('variable %s assigned on some paths only' % m.name)
    # bool flags set to a constant on some paths
    if m.hv is not None and all(isinstance(x, (bool, SBool)) for c, x in vals):
        hc = T.batom(m.hv, ())
        keep = [c for c, x in vals if isinstance(x, SBool) and x.c is hc]
        setT = [c for c, x in vals if x is True]
        setF = [c for c, x in vals if x is False]
        if keep and len(keep) + len(setT) + len(setF) == len(vals) and not (setT and setF) and all(clean(c) for c in setT + setF):
            pc = cond_of(p0)
            B = mk_or(*[mk_and(*c) for c in setT + setF])
            def st_(k):
                t = fresh('t')
                e = mk_ex(symatom(t), 0, k, cond_subst(B, {va: t}))
                return mkbool(mk_or(pc, e) if setT else mk_and(pc, mk_not(e)))
            m.state = st_
            m.final = lambda: st_(np_)
            return True
    if not all(clean(c) for c, x in vals): return False
    if all(not val_havoc(x) for c, x in vals):
        r = vals[0][1]
        for c, x in reversed(vals[:-1]): pass
        if len(vals) > 1 and not all(x is vals[0][1] for c, x in vals):
            r = vals[-1][1]
            for c, x in reversed(vals[:-1]): r = merge_vals(mk_and(*c), x, r)
        at = lambda k: subst_val(r, va, k)
        if isinstance(r, (Num, int, SBool, bool)) and isnum(p0) and not isinstance(p0, type(UNDEF)):
            def st_(k):
                d = R.ctx.decide(mk_eq(k))
                if d is True: return p0
                if d is False or R.ctx.prove(mk_ge(k - 1)): return at(k - 1)
                return merge_vals(mk_eq(k), p0, at(k - 1))
            m.state = st_
        else: m.state = lambda k: UNDEF
        def fin():
            if R.decide(mk_ge(np_ - 1)): return at(np_ - 1)
            return p0
        m.final = fin
        return True
    if m.hv is None: return False
    if all(isnum(x) for c, x in vals) and isnum(p0):
        s = join_sort(*[parts(x)[1] for c, x in vals], parts(p0)[1])
        if s != (m.sort or parts(p0)[1]):
            m.sort = s
            return True
        h = T.sym(m.hv, s)
        r = parts(vals[-1][1])[0]
        for c, x in reversed(vals[:-1]): r = ite(mk_and(*c), parts(x)[0], r)
        D = simp(r - h, R.ctx)
        if has_havoc(D): return False
        q0 = parts(p0)[0]
        npf = any(getattr(x, 'np', False) for c, x in vals)
        m.state = lambda k: mknum(q0 + upto(va, k, D), s, npf)
        m.final = lambda: m.state(np_)
        return True
    if all(isinstance(x, Arr) for c, x in vals) and isinstance(p0, Arr):
        s = join_sort(*[x.sort for c, x in vals], p0.sort)
        if s != (m.sort or p0.sort):
            m.sort = s
            return True
        for c, x in vals:
            if x.ndim != p0.ndim or not all(a is b or R.ctx.prove(mk_eq(a - b)) for a, b in zip(x.sh, p0.sh)):
                raise VerifierError('array of changing shape in a loop')
        ix = tuple(fresh('w') for _ in p0.sh)
        k0 = R.ctx.mark()
        for i, q in zip(ix, p0.sh): with_range(i, q)
        r = vals[-1][1].ent()(ix)
        for c, x in reversed(vals[:-1]): r = ite(mk_and(*c), x.ent()(ix), r)
        D = simp(r - T.app(m.hv, ix, s), R.ctx)
        R.ctx.restore(k0)
        if has_havoc(D): return False
        e0 = p0.ent()
        sh = p0.sh
        def st_(k):
            return mk(sh, s, lambda jx: e0(jx) + upto2(va, k, D, {symatom(w): j for w, j in zip(ix, jx)}))
        m.state = st_
        m.final = lambda: st_(np_)
        return True
    return False

def solve_buf(m, vals, v, va, np_, p0):
    b = m.obj
    if not all(clean(c) for c, x in vals): return False
    ix = tuple(fresh('w') for _ in b.shape)
    mp = lambda jx: {symatom(w): j for w, j in zip(ix, jx)}
    k0 = R.ctx.mark()
    try:
        for i, q in zip(ix, b.shape): with_range(i, q)
        wc = mk_or(*[mk_and(*c, x[1](ix)) for c, x in vals]) if len(vals) > 1 else vals[0][1][1](ix)
        if has_havoc(wc): return False
        if b.sort == 'bool':
            es = [x[0](ix) for c, x in vals]
            h = T.batom(m.hv, ix) if m.hv else None
            r = es[-1]
            for (c, x), e in list(zip(vals, es))[-2::-1]:
                cc = mk_and(*c)
                r = mk_or(mk_and(cc, e), mk_and(mk_not(cc), r))
            mk1 = R.ctx.mark()
            R.ctx.add(wc)
            from .prove import simp_cond
            w = simp_cond(r, R.ctx)
            R.ctx.restore(mk1)
            if has_havoc(w): return False
        else:
            r = vals[-1][1][0](ix)
            for c, x in reversed(vals[:-1]): r = ite(mk_and(*c), x[0](ix), r)
            h = T.app(m.hv, ix, b.sort) if m.hv else None
            if h is None: return False
            D = simp(r - h, R.ctx)
            if not has_havoc(D):
                m.state = lambda k: (lambda jx: p0(jx) + upto2(va, k, D, mp(jx)))
                t0 = symatom(fresh('t'))
                m.wcond = lambda jx: mk_ex(t0, 0, np_, cond_subst(cond_subst(wc, {va: P(t0)}), mp(jx)))
                return True
            mk1 = R.ctx.mark()
            R.ctx.add(wc)
            w = simp(r, R.ctx)
            R.ctx.restore(mk1)
            if has_havoc(w) and wc.kind == 'or':
                # several entries are written: one value per case
                w = ZERO
                for c in reversed(wc.args):
                    mk2 = R.ctx.mark()
                    R.ctx.add(c)
                    wi = simp(r, R.ctx)
                    R.ctx.restore(mk2)
                    w = ite(c, wi, w)
            if has_havoc(w):
                return False
        # each entry written by at most one iteration?
        t = fresh('t')
        mk1 = R.ctx.mark()
        R.ctx.add(mk_ge(t)); R.ctx.add(mk_ge(v - t - 1))
        R.ctx.add(wc); R.ctx.add(cond_subst(wc, {va: t}))
        unique = R.ctx.infeasible()
        R.ctx.restore(mk1)
    finally: R.ctx.restore(k0)
    last = not unique and va not in wc.fv if hasattr(wc, 'fv') else False
    if not unique and not last: raise VerifierError('entries written by several iterations')
    def ex(k, jx):
        q = symatom(fresh('t'))
        return mk_ex(q, 0, k, cond_subst(cond_subst(wc, {va: P(q)}), mp(jx)))
    m.wcond = lambda jx: ex(np_, jx)
    if b.sort == 'bool':
        def st_(k):
            def f(jx):
                q = symatom(fresh('t'))
                wj = mk_ex(q, 0, k, cond_subst(cond_subst(mk_and(wc, w), {va: P(q)}), mp(jx)))
                return mk_or(wj, mk_and(mk_not(ex(k, jx)), p0(jx)))
            return f
        if last: raise VerifierError('bool buffer overwritten repeatedly')
        m.state = st_
        return True
    if last:
        def st_(k):
            def f(jx):
                c = mk_and(mk_ge(k - 1), cond_subst(wc, mp(jx)))
                return ite(c, subst(subst(w, {va: k - 1}), mp(jx)), p0(jx))
            return f
        m.state = st_
        return True
    def st_(k):
        def f(jx):
            c = ind(wc)
            pj = p0(jx)
            hit = upto2(va, k, c * w, mp(jx))
            if not pj.terms: return hit
            return pj * (ONE - upto2(va, k, c, mp(jx))) + hit
        return f
    m.state = st_
    return True

def solve_list(m, vals, v, va, np_, p0):
    if not all(clean(c) for c, x in vals): return False
    add = []
    for c, x in vals:
        if len(x) < len(p0) or any(a is not b for a, b in zip(x, p0)): raise VerifierError('list modified other than by append')
        add.append((c, x[len(p0):]))
    if any(val_havoc(y) for c, x in add for y in x): return False
    ks = {len(x) for c, x in add}
    if ks == {1}:
        r = add[-1][1][0]
        for c, x in reversed(add[:-1]): r = merge_vals(mk_and(*c), x[0], r)
        r = freeze(r)
        new = SList(mknum(np_, 'int'), lambda i: subst_val(r, va, parts(i)[0]))
        if p0: new = IP.concat_lists(list(p0), new)
    elif ks <= {0, 1} and not p0:
        c1 = [(mk_and(*c), x[0]) for c, x in add if x]
        if not c1:
            new = newlist([])
        else:
            cc = mk_or(*[c for c, _ in c1])
            r = c1[-1][1]
            for c, x in reversed(c1[:-1]): r = merge_vals(c, x, r)
            r = freeze(r)
            new = FilterValues(np_, lambda i: cond_subst(cc, {va: i}), lambda i: subst_val(r, va, parts(i)[0])).tidy()
    else: raise VerifierError('several appends per iteration')
    m.state = lambda k: None
    m.final = lambda: new
    return True

def solve_dict(m, vals, v, va, np_, p0):
    if p0: raise VerifierError('dict with initial content in a loop')
    keyp = None
    for c, rec in vals:
        rec = [x for x in rec]
        need = [x for x in rec if x[0] == 'need']
        act = [x for x in rec if x[0] != 'need']
        lits = [x for x in c]
        if len(act) != 1: raise VerifierError('dict pattern in a loop')
        a = act[0]
        kp = parts(a[1])[0]
        if keyp is None: keyp = kp
        if kp is not keyp: raise VerifierError('dict keys differ between paths')
        inmap = T.batom('LD%s' % m.ld.tag, (kp,))
        known = None
        for l in lits:
            if l is inmap: known = True
            elif l is mk_not(inmap): known = False
            else: raise VerifierError('conditional grouping')
        if a[0] == 'append':
            if need and known is not True: raise VerifierError('append to a missing dict entry')
            item = a[2]
        else:
            if known is not False: raise VerifierError('dict entry overwritten')
            if not (isinstance(a[2], list) and len(a[2]) == 1): raise VerifierError('dict pattern in a loop')
            item = a[2][0]
        if parts(item)[0] is not v: raise VerifierError('grouping of other values')
    if has_havoc(keyp): return False
    new = GroupMap(np_, lambda i: subst(keyp, {va: parts(i)[0] if not isinstance(i, Poly) else i}))
    m.state = lambda k: None
    m.final = lambda: new
    return True

def try_first(st, env, done=0):
    """while C(x): x += d   ->   x = x0 + d*f, f = least t >= 0 with not C(x0 + d*t)"""
    if len(st.body) != 1: return False
    b = st.body[0]
    import ast
    if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and isinstance(b.op, (ast.Add, ast.Sub)): name = b.target.id
    elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name): name = b.targets[0].id
    else: return False
    x0 = env.get(name)
    if not isnum(x0) or parts(x0)[1] != 'int': return False
    h = fresh('w')
    out = []
    def run():
        env.set(name, mknum(h, 'int'))
        c = IP.ev(st.test, env)
        if not isinstance(c, SBool): c = mkbool(cond_of(c))
        c = cond_of(c)
        IP.exec_block(st.body, env)
        return (c, parts(env.get(name))[0])
    outs = run_local(run)
    if len(outs) != 1 or outs[0][0]: return False
    c, e = outs[0][1]
    d = int_of(e - h)
    if not d: return False
    q0 = parts(x0)[0] - done * d
    f = fresh('first')
    t = fresh('t')
    at = lambda k: cond_subst(c, {symatom(h): q0 + k * d})
    R.notes.add('termination of the while loop in %s is assumed' % (env.func.qualname if env.func else '?'))
    COUNT['loops'] += 1
    COUNT['preserved'] += 1
    R.assume(mk_ge(f - done))
    R.assume(mk_not(at(f)))
    R.assume(mk_all(symatom(t), 0, f, at(t)))
    env.set(name, mknum(q0 + f * d, 'int'))
    return True

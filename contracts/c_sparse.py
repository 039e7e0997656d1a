"""C22: sparse recovery."""
from .reg import case
from .common import A
from .c_spectra import array, atoms, on_grid
from .c_grids import custom
L1 = 'doatools.optim.l1lsq.L1RegularizedLeastSquaresProblem'
L21 = 'doatools.optim.l1lsq.L21RegularizedLeastSquaresProblem'
SP = 'doatools.estimation.sparse.'
FORMS = ('penalizedl1', 'constrainedl1', 'constrainedl2')

def posed(w, rec, form, nonneg, M, K, A, b, l, row=None):
    """the recorded problem is the documented one: objective and feasible set agree at an arbitrary point"""
    x = lambda i: w.at(rec['x'], i, 0)
    w.true('a minimisation', rec['sense'] == 'min')
    w.eq('shape of the unknown', w.shape(rec['x']), (K, 1))
    fit = w.sum(M, lambda r: w.abs2(w.sum(K, lambda i: A(r, i) * x(i)) - b(r)))
    l1 = w.sum(K, lambda i: w.abs(x(i)))
    pos = w.forall(K, lambda i: x(i) >= 0) if nonneg else True
    obj, con = {'penalizedl1': (fit / 2 + l * l1, True), 'constrainedl1': (fit, l1 <= l), 'constrainedl2': (l1, w.sqrt(fit) <= l)}[form]
    w.eq('objective', rec['objective'], obj)
    w.iff('feasible set', w.feasible(rec), w.and_(con, pos))

def group_posed(w, rec, M, K, N, A, B, l):
    X = lambda i, j: w.at(rec['x'], i, j)
    w.true('a minimisation', rec['sense'] == 'min')
    w.eq('shape of the unknown', w.shape(rec['x']), (K, N))
    fit = w.sum(M, lambda r: w.sum(N, lambda j: w.abs2(w.sum(K, lambda i: A(r, i) * X(i, j)) - B(r, j))))
    w.eq('objective', rec['objective'], fit / 2 + l * w.sum(K, lambda i: w.sqrt(w.sum(N, lambda j: w.abs2(X(i, j))))))
    w.iff('no constraints', w.feasible(rec), True)

@case('C22', L1 + '.__init__ ' + L1 + '.solve')
def l1_problem(w):
    w.use_solver()
    M, K = w.dim('M'), w.dim('K')
    form, nonneg = w.pick('formulation', FORMS), w.pick('nonnegative', [None, False, True])
    p = w.call(w.get(L1), M, K, *([form] if form != 'penalizedl1' or w.flag('explicit') else []), **({} if nonneg is None else {'nonnegative': nonneg}))
    if w.flag('second use'): w.call(w.attr(p, 'solve'), w.arr('A0', (M, K)), w.arr('b0', (M, 1)), w.scalar('l0', pos=True))
    A, b, l = w.arr('A', (M, K)), w.arr('b', (M, 1)), w.scalar('l', nonneg=True)
    fr = w.frame(A=A, b=b)
    n, k = len(w.solves()), w.warned()
    r = w.call(w.attr(p, 'solve'), A, b, l, verbose=False)
    rec = w.solves()[n:]
    w.eq('solved once', len(rec), 1)
    rec = rec[0]
    w.eq('options of the solver', dict(rec['kwargs']), {'verbose': False})
    posed(w, rec, form, bool(nonneg), M, K, lambda r, i: w.at(A, r, i), lambda r: w.at(b, r, 0), l)
    optimum(w, rec, r, k, K, 1)
    w.unchanged('inputs are not modified', fr)

def optimum(w, rec, r, warned, K, N):
    r = w.call(w.attr(r, 'reshape'), (K, N))
    if rec['status'] == 'optimal':
        w.eq('solution', r, rec['x'])
        w.eq('no warning', w.warned(), warned)
    else:
        w.eq('zero', r, w.mat((K, N), lambda i, j: 0, 'real'))
        w.true('warning', w.warned() > warned)

@case('C22', L21 + '.__init__ ' + L21 + '.solve')
def group_problem(w):
    w.use_solver()
    M, K, N = w.dim('M'), w.dim('K'), w.dim('N')
    cplx = w.pick('complex', [None, False, True])
    p = w.call(w.get(L21), M, K, N, *([] if cplx is None else [cplx]))
    s = 'complex' if cplx else 'real'
    if w.flag('second use'): w.call(w.attr(p, 'solve'), w.arr('A0', (M, K), s), w.arr('B0', (M, N), s), w.scalar('l0', pos=True))
    A, B, l = w.arr('A', (M, K), s), w.arr('B', (M, N), s), w.scalar('l', nonneg=True)
    fr = w.frame(A=A, B=B)
    n, k = len(w.solves()), w.warned()
    r = w.call(w.attr(p, 'solve'), A, B, l, verbose=True)
    rec = w.solves()[n:]
    w.eq('solved once', len(rec), 1)
    w.eq('options of the solver', dict(rec[0]['kwargs']), {'verbose': True})
    group_posed(w, rec[0], M, K, N, lambda r, i: w.at(A, r, i), lambda r, j: w.at(B, r, j), l)
    optimum(w, rec[0], r, k, K, N)
    w.unchanged('inputs are not modified', fr)

def setting(w):
    a, m = array(w)
    g, kind, unit, ax = custom(w, ('ff1 deg', 'ff2 deg', 'nf m') if not w.symbolic else ('ff1 deg', 'ff2 deg'), lo=1)
    lam = w.scalar('lam', pos=True)
    G = ax[0][0] * (ax[1][0] if len(ax) > 1 else 1)
    return a, m, g, ax, lam, G

def peaks(w):
    seen = []
    def f(sp):
        seen.append(sp)
        return tuple(w.mat((0,), lambda i: 0, 'int') for _ in w.shape(sp))
    return f, seen

def use_l1_problem(w):
    """calls of the l1-regularised problem are replaced by its contract (discharged by l1_problem): what is posed is recorded and
    the solution of a problem of that shape, or zero, is returned"""
    calls = []
    if not w.symbolic: return calls
    made = {}
    def init(self, m, k, formulation, nonnegative):
        if formulation not in FORMS: raise w.error(ValueError)
        made[id(self)] = (m, k, formulation, nonnegative)
    def solve(self, A, b, l, kwargs):
        n, (m, k, form, nonneg) = len(calls), made[id(self)]
        x = w.mat((k, 1), lambda i, j: w.ufun('solution%d' % n, (), i, sort='real'), 'real')
        ok = w.flag('solved')
        calls.append({'made': made[id(self)], 'A': A, 'b': b, 'l': l, 'kwargs': kwargs, 'x': x, 'status': 'optimal' if ok else 'infeasible'})
        return x if ok else w.mat((k,), lambda i: 0, 'real')
    w.contract(L1 + '.__init__', init)
    w.contract(L1 + '.solve', solve)
    return calls

@case('C22', SP + 'SparseCovarianceMatching.__init__ ' + SP + 'SparseCovarianceMatching.estimate ' + SP + 'SparseCovarianceMatching._compute_atom_matrix ' + SP + 'SparseCovarianceMatching._get_sparse_spectrum ' + L1 + '.solve')
def covariance_matching(w):
    w.use_solver()
    calls = use_l1_problem(w)
    a, m, g, ax, lam, G = setting(w)
    form = w.pick('formulation', FORMS)
    known = w.flag('noise known')
    var = w.pick('use', ['plain', 'second use', 'options']) if form == 'penalizedl1' or not w.symbolic else 'plain'
    pf, seen = peaks(w)
    e = w.call(w.get(SP + 'SparseCovarianceMatching'), a, lam, g, known, *([form] if form != 'penalizedl1' else []), peak_finder=pf)
    if var == 'second use': w.call(w.attr(e, 'estimate'), w.arr('R0', (m, m), 'complex', hermitian=True), 1, w.scalar('l0', pos=True), w.scalar('sigma0', pos=True))
    R, l, sigma = w.arr('R', (m, m), 'complex', hermitian=True), w.scalar('l', nonneg=True), w.scalar('sigma', nonneg=True)
    so = {} if var != 'options' else {'verbose': True}
    fr = w.frame(R=R, a=a, g=g)
    solves = lambda: calls if w.symbolic else w.solves()
    n = len(solves())
    kw = {}
    if known or not w.symbolic and w.flag('pass sigma'): kw['sigma'] = sigma
    if so: kw['solver_options'] = so
    r = w.call(w.attr(e, 'estimate'), R, 1, l, return_spectrum=True, **kw)
    rec = solves()[n:]
    w.eq('solved once', len(rec), 1)
    rec = rec[0]
    w.eq('options of the solver', dict(rec['kwargs']), so)
    X = atoms(w, a, g, lam)
    dl = lambda i, j: w.ind(w.eq_(i, j))
    # row i + j m of conj(X) khatri-rao X and of vec(R), real parts above imaginary parts
    phi = lambda r, c: w.conj(w.at(X, r // m, c)) * w.at(X, r % m, c)
    rr = lambda r: w.at(R, r % m, r // m) - (sigma * dl(r % m, r // m) if known else 0)
    mm = m * m
    K = G if known else G + 1
    full = lambda r, c: phi(r, c) if known else w.ite(c < G, phi(r, c % G), dl(r % m, r // m))
    stack = lambda f: lambda r, *c: w.ite(r < mm, w.re(f(r % mm, *c)), w.im(f(r % mm, *c)))
    Phi, rv = w.mat((2 * mm, K), stack(full), 'real'), w.mat((2 * mm, 1), stack(lambda r, c: rr(r)), 'real')
    if w.symbolic:
        w.eq('problem', rec['made'][:3], (2 * mm, K, form))
        w.true('non-negative', rec['made'][3])
        w.eq('dictionary', rec['A'], Phi)
        w.eq('observation', rec['b'], rv)
        w.eq('regularisation', rec['l'], l)
    else: posed(w, rec, form, True, 2 * mm, K, lambda r, i: w.at(Phi, r, i), lambda r: w.at(rv, r, 0), l)
    x = lambda i: w.at(rec['x'], i, 0)
    sp = on_grid(w, ax, lambda f: x(f) if rec['status'] == 'optimal' else 0)
    w.eq('results', w.len(r), 3)
    w.eq('spectrum', w.index(r, 2), sp)
    w.eq('the peak finder sees the spectrum', seen[-1], sp)
    w.unchanged('inputs are not modified', fr)

@case('C22', SP + 'GroupSparseEstimator.__init__ ' + SP + 'GroupSparseEstimator.estimate ' + SP + 'GroupSparseEstimator._get_sparse_spectrum ' + L21 + '.solve')
def group_sparse(w):
    w.use_solver()
    a, m, g, ax, lam, G = setting(w)
    N = w.dim('N')
    pf, seen = peaks(w)
    e = w.call(w.get(SP + 'GroupSparseEstimator'), a, lam, g, N, peak_finder=pf)
    if w.flag('second use'): w.call(w.attr(e, 'estimate'), w.arr('Y0', (m, N), 'complex'), 1, w.scalar('l0', pos=True))
    Y, l = w.arr('Y', (m, N), 'complex'), w.scalar('l', nonneg=True)
    so = {} if w.flag('default options') else {'verbose': True}
    fr = w.frame(Y=Y, a=a, g=g)
    n = len(w.solves())
    r = w.call(w.attr(e, 'estimate'), Y, 1, l, return_spectrum=True, **({'solver_options': so} if so else {}))
    rec = w.solves()[n:]
    w.eq('solved once', len(rec), 1)
    w.eq('options of the solver', dict(rec[0]['kwargs']), so)
    X = atoms(w, a, g, lam)
    group_posed(w, rec[0], m, G, N, lambda r, i: w.at(X, r, i), lambda r, j: w.at(Y, r, j), l)
    sp = on_grid(w, ax, lambda f: w.sqrt(w.sum(N, lambda j: w.abs2(w.at(rec[0]['x'], f, j)))) if rec[0]['status'] == 'optimal' else 0)
    w.eq('spectrum', w.index(r, 2), sp)
    w.eq('the peak finder sees the spectrum', seen[-1], sp)
    w.unchanged('inputs are not modified', fr)

@case('C22', SP + 'SparseCovarianceMatching.estimate ' + SP + 'GroupSparseEstimator.estimate ' + L1 + '.__init__')
def sparse_rejects(w):
    w.use_solver()
    what = w.pick('wrong', ['formulation', 'problem formulation', 'noise', 'shape', 'rank', 'refinement', 'rows', 'columns', 'group refinement'])
    M, K = w.dim('M'), w.dim('K')
    bad = ['', 'penalizedl2', 'constrained']
    if what == 'problem formulation':
        f = w.pick('formulation', bad)
        w.raises('unknown formulation', ValueError, lambda: w.call(w.get(L1), M, K, f))
        return
    a, m = array(w)
    g, kind, unit, ax = custom(w, ('ff1 deg',), lo=2)
    lam, l = w.scalar('lam', pos=True), w.scalar('l', pos=True)
    S = w.get(SP + 'SparseCovarianceMatching')
    if what == 'formulation':
        f = w.pick('formulation', bad)
        w.raises('unknown formulation', ValueError, lambda: w.call(S, a, lam, g, w.flag('noise known'), f))
        return
    if what in ('rows', 'columns', 'group refinement'):
        N, N2, m2 = w.dim('N'), w.dim('N2'), w.dim('m2')
        e = w.call(w.get(SP + 'GroupSparseEstimator'), a, lam, g, N)
        if what == 'rows': w.assume(w.not_(w.eq_(m2, m)))
        elif what == 'columns': w.assume(w.not_(w.eq_(N2, N)))
        Y = w.arr('Y', (m2 if what == 'rows' else m, N2 if what == 'columns' else N), 'complex')
        kw = {'refine_estimates': w.flag('refine')} if what == 'group refinement' else {}
        w.raises('rejected', ValueError, lambda: w.call(w.attr(e, 'estimate'), Y, 1, l, **kw))
        return
    known = True if what == 'noise' else w.flag('noise known')
    e = w.call(S, a, lam, g, known)
    R = w.arr('R', (m, m), 'complex', hermitian=True)
    kw = {'sigma': w.scalar('sigma', pos=True)} if what != 'noise' else {}
    if what == 'shape':
        p, q = w.dim('p'), w.dim('q')
        w.assume(w.or_(w.not_(w.eq_(p, m)), w.not_(w.eq_(q, m))))
        R = w.arr('R2', (p, q), 'complex')
    elif what == 'rank': R = w.arr('R2', (m,) if w.flag('vector') else (m, m, 2), 'complex')
    elif what == 'refinement': kw['refine_estimates'] = True
    w.raises('rejected', ValueError, lambda: w.call(w.attr(e, 'estimate'), R, 1, l, **kw))

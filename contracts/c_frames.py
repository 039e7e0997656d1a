"""C26: frames.  Public operations leave what they are given as it was, and data handed out as copies is separate."""
from .reg import case
from .common import A, S, P, FF1, FF2, Src, Pert, use_steering
from . import c_coarray as CA, c_perf as CP, c_spectra as SP, c_estim as CE, c_sparse as CS
from .c_grids import custom, SRC
M, CV, PRE = 'doatools.utils.math.', 'doatools.utils.conversion.', 'doatools.estimation.preprocessing.'

def same(w, name, a, b):
    """the same result"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        w.eq(name + ': results', len(a), len(b))
        for x, y in zip(a, b): same(w, name, x, y)
    elif isinstance(a, CE.Directions):
        for k in ('z', 'wavelength', 'd0', 'unit'): w.eq(name + ': ' + k, getattr(a, k), getattr(b, k))
    elif a is None or b is None: w.true(name, a is None and b is None)
    elif placement(w, a):
        w.true(name + ': class', w.attr(a, '__class__') is w.attr(b, '__class__'))
        w.eq(name + ': units', w.attr(a, 'units'), w.attr(b, 'units'))
        w.eq(name + ': locations', *numbers(w, w.attr(a, 'locations'), w.attr(b, 'locations')))
    else: w.eq(name, a, b)

def numbers(w, x, y):
    if w.symbolic: return x, y
    n = w.np
    if n.shape(x) != n.shape(y) or (n.isnan(x) != n.isnan(y)).any(): return x, y
    return n.nan_to_num(x), n.nan_to_num(y)

def placement(w, o): return w.isinstance(o, w.get(S + 'SourcePlacement'))

def twice(w, name, f, **roots):
    """f leaves the roots and its first result as they were and gives the same result again"""
    fr = w.frame(**roots)
    r = f()
    w.unchanged(name + ': inputs are not modified', fr)
    fr1 = w.frame(result=r)
    q = f()
    w.unchanged(name + ': inputs are not modified by a second call', fr)
    w.unchanged(name + ': the first result is not modified by a second call', fr1)
    same(w, name + ': same result', q, r)
    return r

def separate(w, name, get):
    """modifying what the accessor returns has no effect on what it returns later"""
    x = get()
    fr = w.frame(x=x)
    y = get()
    w.disjoint(name + ': separate copies', x, y)
    w.scribble(y)
    z = get()
    w.unchanged(name + ': earlier copies', fr)
    w.eq(name + ': later copies', z, x)

# --- accessors ---------------------------------------------------------------------------------------------
@case('C26', A + 'ArrayDesign.element_locations ' + A + 'GridBasedArrayDesign.element_indices ' + A + 'ArrayDesign.perturbations')
def copies_of_arrays(w):
    kind = w.pick('array', ['general', 'grid', 'ula', 'nested', 'uca', 'ura'])
    m, d = w.dim('m', 2), w.pick('d', [1, 2, 3]) if kind in ('general', 'grid') else 1
    d0, lam = w.scalar('d0', pos=True), w.scalar('lam', pos=True)
    if kind == 'general': a = w.call(w.get(A + 'ArrayDesign'), w.arr('L', (m, d)), 'x')
    elif kind == 'grid': a = w.call(w.get(A + 'GridBasedArrayDesign'), w.arr('I', (m, d), 'int'), d0)
    elif kind == 'ula': a = w.call(w.get(A + 'UniformLinearArray'), m, d0)
    elif kind == 'nested': a = w.call(w.get(A + 'NestedArray'), m, w.dim('n2'), d0)
    elif kind == 'uca': a = w.call(w.get(A + 'UniformCircularArray'), m, d0)
    else: a = w.call(w.get(A + 'UniformRectangularArray'), m, w.dim('n2'), d0)
    if w.flag('perturbed'):
        n = w.attr(a, 'size')
        x = w.arr('gains', (n,))
        a = w.call(w.attr(a, 'get_perturbed_copy'), w.list(w.call(w.get(P + 'GainErrors'), x, True)))
    fr = w.frame(a=a)
    separate(w, 'element locations', lambda: w.attr(a, 'element_locations'))
    if kind not in ('general', 'uca'): separate(w, 'element indices', lambda: w.attr(a, 'element_indices'))
    n = w.len(w.attr(a, 'perturbations'))
    w.scribble(w.attr(a, 'perturbations'))
    w.eq('perturbations', w.len(w.attr(a, 'perturbations')), n)
    w.unchanged('the array is not modified', fr)

@case('C26', A + 'ArrayDesign.element_locations ' + A + 'ArrayDesign.get_perturbed_copy ' + A + 'ArrayDesign.get_perturbation_free_copy')
def copies_of_copies(w):
    """derived designs and virtual arrays: what one hands out does not reach the other"""
    m = w.dim('m')
    a = w.call(w.get(A + 'ArrayDesign'), w.arr('L', (m, 2)), 'x') if w.flag('general') else w.call(w.get(A + 'GridBasedArrayDesign'), w.arr('I', (m, 2), 'int'), w.scalar('d0', pos=True))
    e = w.arr('E', (m, 2))
    b = w.call(w.attr(a, 'get_perturbed_copy'), w.list(w.call(w.get(P + 'LocationErrors'), e, True)))
    if w.flag('free'): b = w.call(w.attr(b, 'get_perturbation_free_copy'))
    L = w.attr(a, 'element_locations')
    fr = w.frame(a=a, b=b, L=L)
    w.scribble(w.attr(b, 'element_locations'))
    w.scribble(w.attr(a, 'element_locations'))
    w.eq('locations', w.attr(a, 'element_locations'), L)
    w.eq('locations of the copy', w.attr(b, 'element_locations'), L)
    w.unchanged('neither design is modified', fr)

@case('C26', CA.W + 'differences ' + CA.W + 'indices_of ' + CA.W + 'weights')
def copies_of_the_coarray(w):
    a, m, I, d0 = CA.grid_array(w)
    f = w.call(w.get(CA.M + 'WeightFunction1D'), a)
    d = w.int('difference')
    separate(w, 'differences', lambda: w.call(w.attr(f, 'differences')))
    separate(w, 'weights', lambda: w.call(w.attr(f, 'weights')))
    x = w.call(w.attr(f, 'indices_of'), d)
    n = w.call(w.attr(f, 'weight_of'), d)
    y = w.call(w.attr(f, 'indices_of'), d)
    w.true('index lists: separate copies', x is not y)
    w.scribble(y)
    w.eq('index lists: earlier copies', w.len(x), n)
    w.eq('index lists: later copies', w.call(w.attr(f, 'indices_of'), d), x)
    w.eq('weights after modifying an index list', w.call(w.attr(f, 'weight_of'), d), n)

@case('C26', CE.ML + 'CovarianceBasedMLEstimator.get_last_estimates ' + CE.ML + 'CovarianceBasedMLEstimator.estimate')
def last_estimates(w):
    a, m = CE.ml_array(w)
    CE.use_projm(w)
    lam, k = w.scalar('lam', pos=True), w.dim('k')
    w.assume(k <= m - 1)
    src = Src(w, k, CE.ML_KINDS if not w.symbolic else ('ff1 deg', 'ff2 rad', 'near'), interior=True)
    d = 1 if src.kind.startswith('ff1') else 2
    y = Src(w, k, (src.kind,), name='y', interior=True)
    flat = lambda s: w.mat((k * d,), (lambda i: w.at(s.loc, i)) if d == 1 else (lambda i: w.at(s.loc, i // 2, i % 2)), 'real')
    w.hook('scipy.optimize.minimize', lambda f, x0, args, kw: (flat(y), True))
    R = w.arr('R', (m, m), 'complex', hermitian=True)
    if not w.symbolic: R = R @ R + w.np.eye(m)
    e = w.call(w.get(CE.ML + w.pick('estimator', ['AML', 'CML', 'WSF']) + 'Estimator'), a, lam)
    fr = w.frame(R=R, s=src.obj, a=a)
    ok, est = w.call(w.attr(e, 'estimate'), R, src.obj)
    separate(w, 'last estimates', lambda: w.attr(w.call(w.attr(e, 'get_last_estimates')), 'locations'))
    w.scribble(w.attr(est, 'locations'))
    w.eq('modifying the estimates', w.attr(w.call(w.attr(e, 'get_last_estimates')), 'locations'), y.loc)
    r = w.call(w.attr(e, 'estimate'), R, src.obj)
    w.eq('estimating again', w.attr(w.index(r, 1), 'locations'), y.loc)
    w.unchanged('inputs are not modified', fr)

# --- operations --------------------------------------------------------------------------------------------
@case('C26', A + 'ArrayDesign.steering_matrix ' + A + 'ArrayDesign.actual_element_locations ' + P + 'LocationErrors.perturb_sensor_locations')
def steering(w):
    m, K = w.dim('m'), w.dim('K')
    d, e = w.pick('d', [1, 2, 3]), w.pick('e', [1, 3])
    kinds = w.pick('perturbations', [(), ('loc',), ('mc', 'gain', 'phase', 'loc')])
    L = w.arr('L', (m, d))
    p = Pert(w, m, kinds, [True] * len(kinds), e, "any")
    a = w.call(w.get(A + 'ArrayDesign'), L, 'x', p.objs())
    src = Src(w, K, FF1 + FF2 + ('nf',) if not w.symbolic else ('ff1 rad', 'ff1 sin', 'ff2 deg', 'nf'), interior=True)
    lam = w.scalar('lam', pos=True)
    der = src.kind.startswith('ff1') and w.flag('derivative')
    sel = w.pick('selection', ['all', 'known', 'none'])
    twice(w, 'steering matrix', lambda: w.call(w.attr(a, 'steering_matrix'), src.obj, lam, der, sel), a=a, s=src.obj, L=L)
    twice(w, 'actual locations', lambda: w.attr(a, 'actual_element_locations'), a=a, L=L)

@case('C26', ' '.join(P + c for c in ('LocationErrors.perturb_sensor_locations', 'GainErrors.perturb_steering_matrix', 'PhaseErrors.perturb_steering_matrix', 'MutualCoupling.perturb_steering_matrix')))
def perturbing(w):
    m, K, d = w.dim('m'), w.dim('K'), w.pick('d', [1, 2, 3])
    L, X, D = w.arr('L', (m, d)), w.arr('X', (m, K), 'complex'), w.arr('D', (m, K), 'complex')
    kd = w.pick('kind', ['loc', 'gain', 'phase', 'mc'])
    p = Pert(w, m, [kd], [True], w.pick('e', [1, 2, 3]) if kd == 'loc' else 1, "any")
    o = p.items[0][3]
    twice(w, 'locations', lambda: w.call(w.attr(o, 'perturb_sensor_locations'), L), L=L, p=o)
    dm = w.flag('derivative')
    twice(w, 'steering matrix', lambda: w.call(w.attr(o, 'perturb_steering_matrix'), X, w.list(D) if dm else w.list()), X=X, D=D, p=o)

@case('C26', S + 'SourcePlacement.__getitem__ ' + S + 'FarField1DSourcePlacement.as_unit ' + CV + 'convert_angles ' + CV + 'cart2spherical ' + CV + 'ae2broad')
def sources_and_conversions(w):
    K, m = w.dim('K'), w.dim('m')
    op = w.pick('operation', ['slice', 'convert', 'phases', 'coordinates', 'angles', 'spherical', 'broadside'])
    if op in ('angles', 'spherical', 'broadside'):
        u, v = w.pick('from', ['rad', 'deg', 'sin']), w.pick('to', ['rad', 'deg', 'sin'])
        X = w.arr('X', (m, 3 if op == 'spherical' else 2), lo=0, hi=1)
        f = {'angles': lambda: w.call(w.get(CV + 'convert_angles'), X, u, v), 'spherical': lambda: w.call(w.get(CV + 'cart2spherical'), X), 'broadside': lambda: w.call(w.get(CV + 'ae2broad'), X)}[op]
        r = twice(w, op, f, X=X)
        w.disjoint('the result is separate', r, X)
        return
    src = Src(w, K, FF1 + FF2 + ('nf',))
    L = w.arr('L', (m, 2))
    units = {'f': ['rad', 'deg'], 'n': ['m']}[src.kind[0]]
    to = w.pick('to', units) if op == 'convert' else None
    dw = w.flag('derivative') and src.kind.startswith('ff1') if op == 'phases' else False
    f = {'slice': lambda: w.call(w.attr(src.obj, '__getitem__'), slice(None)), 'convert': lambda: w.call(w.attr(src.obj, 'as_unit'), to),
         'phases': lambda: w.call(w.attr(src.obj, 'phase_delay_matrix'), L, 1.5, dw), 'coordinates': lambda: w.call(w.attr(src.obj, 'calc_spherical_coords'), L)}[op]
    r = twice(w, op, f, s=src.obj, L=L, loc=src.loc)
    if op in ('slice', 'convert'):
        w.disjoint('the result is separate', w.attr(r, 'locations'), src.loc)
        fr, q = w.frame(s=src.obj), f()
        w.scribble(w.attr(r, 'locations'))
        w.unchanged('the sources are not reached', fr)
        same(w, 'after modifying the result', f(), q)

@case('C26', ' '.join(m + '.estimate' for m in SP.EST.values()) + ' ' + SP.SB + '_estimate ' + SP.SB + '_refine_estimates')
def spectra(w):
    method = w.pick('method', list(SP.EST))
    a, m = SP.array(w)
    g, kind, unit, ax = custom(w, ('ff1 deg', 'nf m'), lo=2)
    lam = w.scalar('lam', pos=True)
    R = w.arr('R', (m, m), w.pick('sort', ['complex', 'real']), hermitian=True)
    if not w.symbolic: R = R @ R.conj().T + w.np.eye(m)
    pf, Pn, pk, seen = SP.finder(w, ax)
    k = w.int('k', 1, 3)
    w.assume(k <= m - 1)
    e = SP.estimator(w, method, a, lam, g, peak_finder=pf, enable_caching=w.flag('caching'))
    rs = w.flag('return_spectrum')
    kw = dict(return_spectrum=True) if rs else {}
    if not w.symbolic and w.flag('refine'): kw.update(refine_estimates=True, refinement_iters=2, refinement_density=3)
    r = twice(w, method, lambda: w.call(w.attr(e, 'estimate'), R, k, **kw), R=R, a=a, g=g, pk=pk)
    est = w.index(r, 1)
    if est is not None:
        L = w.attr(w.attr(g, 'source_placement'), 'locations')
        w.disjoint('the estimates are separate from the grid', w.attr(est, 'locations'), L)
        fr = w.frame(g=g)
        w.scribble(w.attr(est, 'locations'))
        if rs: w.scribble(w.index(r, 2))
        w.unchanged('modifying the results does not reach the grid', fr)
        q, s = w.call(w.attr(e, 'estimate'), R, k, **kw), w.call(w.attr(SP.estimator(w, method, a, lam, g, peak_finder=pf), 'estimate'), R, k, **kw)
        same(w, 'after modifying the results', q, s)

@case('C26', CE.RM + 'estimate ' + CE.ES + 'Esprit1D.estimate')
def direct_estimators(w):
    CE.use_from_z(w)
    m, k = w.dim('m', 2), w.int('k', 1)
    w.assume(k <= m - 1)
    lam = w.scalar('lam', pos=True)
    R = w.arr('R', (m, m), w.pick('sort', ['complex', 'real']), hermitian=True)
    if not w.symbolic: R = R @ R.conj().T + w.np.eye(m)
    kw, g = {}, None
    if w.flag('root MUSIC'): e = w.call(w.get(CE.E + 'music.RootMUSIC1D'), lam)
    else:
        e = w.call(w.get(CE.ES + 'Esprit1D'), lam)
        kw['formulation'] = w.pick('formulation', ['ls', 'tls'])
        if w.flag('weights'): g = kw['row_weights'] = w.arr('weights', (m - 1,), pos=True)
        else: kw['row_weights'] = 'none'
    twice(w, 'estimates', lambda: w.call(w.attr(e, 'estimate'), R, k, **kw), R=R, g=g)

@case('C26', ' '.join(CE.ML + c for c in ('f_nll_stouc', 'AMLEstimator._eval_nll', 'CMLEstimator._eval_nll', 'WSFEstimator._eval_nll', 'CovarianceBasedMLEstimator.estimate')))
def likelihoods(w):
    CE.use_projm(w)
    a, m = CE.ml_array(w)
    lam, k = w.scalar('lam', pos=True), w.dim('k')
    w.assume(k <= m - 1)
    src = Src(w, k, ('ff1 deg', 'ff2 rad', 'near'), interior=True)
    R = w.arr('R', (m, m), 'complex', hermitian=True)
    if not w.symbolic: R = R @ R + w.np.eye(m)
    which = w.pick('function', ['AML', 'CML', 'WSF', 'uncorrelated'])
    if which == 'uncorrelated':
        p, sigma = w.arr('p', (k,), pos=True), w.scalar('sigma', pos=True)
        twice(w, which, lambda: w.call(w.get(CE.ML + 'f_nll_stouc'), R, a, src.obj, lam, p, sigma), R=R, p=p, a=a, s=src.obj)
        return
    d = 1 if src.kind.startswith('ff1') else 2
    y = Src(w, k, (src.kind,), name='y', interior=True)
    flat = lambda s: w.mat((k * d,), (lambda i: w.at(s.loc, i)) if d == 1 else (lambda i: w.at(s.loc, i // 2, i % 2)), 'real')
    point = flat(y)
    vals = []
    def minimize(f, x0, args, kw):
        fr = w.frame(x=point)
        vals.append((w.call(f, point), w.call(f, point), x0))
        w.unchanged('the point is not modified', fr)
        return point, True
    w.hook('scipy.optimize.minimize', minimize)
    e = w.call(w.get(CE.ML + which + 'Estimator'), a, lam)
    twice(w, which, lambda: w.call(w.attr(e, 'estimate'), R, src.obj), R=R, a=a, s=src.obj)
    for v in vals:
        w.eq('objective: same value again', v[0], v[1])
        w.eq('objective: same value in every call', v[0], vals[0][0])
        w.eq('same starting point', v[2], vals[0][2])

@case('C26', PRE + 'spatial_smooth ' + CE.E + 'preprocessing.l1_svd ' + ' '.join('doatools.estimation.source_number.' + f for f in ('aic', 'mdl', 'sorte')))
def preprocessing(w):
    op = w.pick('operation', ['smooth', 'svd', 'aic', 'mdl', 'sorte'])
    if op in ('aic', 'mdl', 'sorte'):
        m, x, l = CE.eigenvalues(w, 4 if op == 'sorte' else 1)
        args = () if op == 'sorte' else (w.int('N', 1),)
        twice(w, op, lambda: w.call(w.get('doatools.estimation.source_number.' + op), x, *args), x=x)
        return
    m = w.dim('m', 2)
    if op == 'smooth':
        R = w.arr('R', (m, m), w.pick('sort', ['complex', 'real']), hermitian=True)
        l, fb = w.int('l', 1), w.flag('forward-backward')
        w.assume(l <= m)
        twice(w, op, lambda: w.call(w.get(PRE + 'spatial_smooth'), R, l, fb), R=R)
    else:
        n, k = w.dim('n'), w.dim('k')
        w.assume(k <= m)
        w.assume(k <= n)
        Y = w.arr('Y', (m, n), 'complex')
        twice(w, op, lambda: w.call(w.get(PRE + 'l1_svd'), Y, k), Y=Y)

@case('C26', CA.E + 'CoarrayACMBuilder1D.transform ' + CA.W + 'get_coarray_selection_matrix')
def augmentation(w):
    a, m, I, d0 = CA.grid_array(w, ('grid',))
    CA.use_contracts(w, m, I)
    R = w.arr('R', (m, m), w.pick('sort', ['complex', 'real']))
    b = w.call(w.get(CA.E + 'CoarrayACMBuilder1D'), a)
    how = w.pick('method', ['ss', 'da', 'selection'])
    if how == 'selection':
        f = w.call(w.get(CA.M + 'WeightFunction1D'), a)
        twice(w, how, lambda: w.call(w.attr(f, 'get_coarray_selection_matrix')), a=a)
    else: twice(w, how, lambda: w.call(w.attr(b, 'transform'), R, how), R=R, a=a)

@case('C26', ' '.join(CP.CRB + f for f in ('crb_sto_farfield_1d', 'crb_det_farfield_1d', 'crb_stouc_farfield_1d')) + ' ' + CP.MSE + 'ecov_music_1d ' + CP.UT + 'unify_p_to_matrix ' + CP.UT + 'unify_p_to_vector')
def performance(w):
    f = w.pick('function', ['crb_sto_farfield_1d', 'crb_det_farfield_1d', 'crb_stouc_farfield_1d', 'ecov_music_1d'] + ([] if w.symbolic else ['ecov_coarray_music_1d']))
    if f == 'ecov_coarray_music_1d':
        n = w.dim('n', 2)
        a, m, lam, sigma, N = w.call(w.get(A + 'NestedArray'), n, 2, 0.5), n + 2, 1.0, w.scalar('sigma', pos=True), w.int('N', 1)
        k = w.pick('k', [1, 2])
        src = Src(w, k, FF1, interior=True, spaced=True)
    else: a, m, lam, k, src, sigma, N = CP.setting(w)
    p, _, _ = CP.powers(w, k, ('matrix',) if 'det' in f else CP.POWERS if not w.symbolic else ('vector', 'matrix') if 'stouc' not in f else ('vector',))
    mode = w.pick('mode', CP.MODES if not w.symbolic else ('full',))
    g = w.get((CP.MSE if f.startswith('ecov') else CP.CRB) + f)
    twice(w, f, lambda: w.call(g, a, src.obj, lam, p, sigma, **CP.options(w, 3, mode)), a=a, s=src.obj, p=p)

@case('C26', CP.UT + 'unify_p_to_matrix ' + CP.UT + 'unify_p_to_vector ' + CP.UT + 'reduce_output_matrix')
def performance_helpers(w):
    k = w.dim('k')
    what = w.pick('function', ['matrix', 'vector', 'reduce'])
    if what == 'reduce':
        X = w.arr('X', (k, k))
        mode = w.pick('mode', ['full', 'diag', 'mean_diag'])
        twice(w, mode, lambda: w.call(w.get(CP.UT + 'reduce_output_matrix'), X, mode), X=X)
    else:
        p = w.arr('p', (k,) if w.flag('vector') else (k, k), pos=True)
        twice(w, what, lambda: w.call(w.get(CP.UT + 'unify_p_to_' + what), p, k), p=p)

@case('C26', M + 'vec ' + M + 'khatri_rao ' + M + 'projm ' + M + 'abs_squared ' + M + 'cartesian')
def matrix_helpers(w):
    op = w.pick('function', ['vec', 'khatri_rao', 'projm', 'abs_squared', 'cartesian'] + ([] if w.symbolic else ['unique_rows']))
    m, n, k = w.dim('m'), w.dim('n'), w.dim('k')
    s = w.pick('sort', ['real', 'complex'])
    X, Y = w.arr('X', (m, n), s), w.arr('Y', (k, n), 'complex')
    u, v = w.arr('u', (m,)), w.arr('v', (n,))
    if op == 'projm': w.assume(n <= m)
    args = {'vec': (X,), 'khatri_rao': (X, Y), 'projm': (X,), 'abs_squared': (X,), 'cartesian': (u, v), 'unique_rows': (X,)}[op]
    if op == 'unique_rows': args = (w.arr('Z', (m, n)),)
    twice(w, op, lambda: w.call(w.get(M + op), *args), args=args)

@case('C26', CS.SP + 'SparseCovarianceMatching.estimate ' + CS.SP + 'GroupSparseEstimator.estimate')
def sparse_recovery(w):
    w.use_solver()
    calls = CS.use_l1_problem(w)
    a, m, g, ax, lam, G = CS.setting(w)
    pf, seen = CS.peaks(w)
    l = w.scalar('l', nonneg=True)
    if w.flag('group'):
        N = w.dim('N')
        e = w.call(w.get(CS.SP + 'GroupSparseEstimator'), a, lam, g, N, peak_finder=pf)
        X, kw = w.arr('Y', (m, N), 'complex'), {}
    else:
        known = w.flag('noise known')
        e = w.call(w.get(CS.SP + 'SparseCovarianceMatching'), a, lam, g, known, peak_finder=pf)
        X, kw = w.arr('R', (m, m), 'complex', hermitian=True), {'sigma': w.scalar('sigma', nonneg=True)} if known else {}
    so = w.dict({'verbose': False})
    fr = w.frame(X=X, a=a, g=g, so=so)
    for _ in range(2):
        w.call(w.attr(e, 'estimate'), X, 1, l, solver_options=so, **kw)
        w.unchanged('inputs are not modified', fr)

@case('C26', 'doatools.estimation.grid.SearchGrid.create_refined_axes_at doatools.estimation.grid.SearchGrid.create_refined_grids_at')
def grids(w):
    g, kind, unit, ax = custom(w, ('ff1 deg', 'ff2 deg', 'nf m'), lo=2)
    c = tuple(w.int('c%d' % j, 0) for j in range(len(ax)))
    for x, (n, _) in zip(c, ax): w.assume(x <= n - 1)
    r = twice(w, 'refined axes', lambda: w.call(w.attr(g, 'create_refined_axes_at'), c, 3, 1), g=g, **{'a%d' % j: a for j, (n, a) in enumerate(ax)})

@case('C26', 'doatools.model.snapshots.get_narrowband_snapshots doatools.model.coarray.compute_location_differences')
def snapshots(w):
    from .c_signals import Emitter, SN
    m, k, n = w.dim('m'), w.dim('k'), w.dim('n')
    L = w.arr('L', (m, 2))
    a = w.call(w.get(A + 'ArrayDesign'), L, 'x')
    use_steering(w, a)
    src = Src(w, k, ('ff1 rad', 'near'))
    lam = w.scalar('lam', pos=True)
    Sg, Ns = Emitter(w.arr('S', (k, n), 'complex'), k), Emitter(w.arr('E', (m, n), 'complex'), m) if w.flag('noise') else None
    cov = w.flag('covariance')
    twice(w, 'snapshots', lambda: w.call(w.get(SN), a, src.obj, lam, Sg, Ns, n, cov), a=a, s=src.obj, S=Sg.x, E=Ns.x if Ns else None)
    twice(w, 'location differences', lambda: w.call(w.get('doatools.model.coarray.compute_location_differences'), L), L=L)

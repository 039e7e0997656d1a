"""C14-C17, C21: root-MUSIC, ESPRIT, source number detection, preprocessing, maximum likelihood."""
from .reg import case
from .common import A, Pert, use_steering, Src, S
E = 'doatools.estimation.'
PP = E + 'preprocessing.'
SN = E + 'source_number.'

# --- C17 ---------------------------------------------------------------------------------------------------
def smoothed(w, R, n, l, fb):
    f = lambda a, b: w.sum(l, lambda s: w.at(R, a + s, b + s)) / l
    if not fb: return f
    return lambda a, b: (f(a, b) + w.conj(f(n - 1 - a, n - 1 - b))) / 2

@case('C17', PP + 'spatial_smooth')
def smoothing(w):
    m = w.dim('m')
    sort = w.pick('sort', ['complex', 'real', 'int'])
    R = w.arr('R', (m, m), sort)
    l = w.int('subarrays', 1)
    w.assume(l <= m)
    fb = w.pick('fb', ['default', True, False])
    fr = w.frame(R=R)
    r = w.call(w.get(PP + 'spatial_smooth'), R, l, **({} if fb == 'default' else dict(fb=fb)))
    n = m - l + 1
    w.eq('smoothed covariance', r, w.mat((n, n), smoothed(w, R, n, l, fb is True), 'complex' if sort == 'complex' else 'real'))
    w.unchanged('the covariance matrix is not modified', fr)
    w.disjoint('the result is new', r, R)

@case('C17', PP + 'spatial_smooth')
def smoothing_keeps_hermitian(w):
    m = w.dim('m')
    sort = w.pick('sort', ['complex', 'real'])
    R = w.arr('R', (m, m), sort, hermitian=True)
    l = w.int('subarrays', 1)
    w.assume(l <= m)
    r = w.call(w.get(PP + 'spatial_smooth'), R, l, w.flag('fb'))
    n = m - l + 1
    w.eq('Hermitian', r, w.mat((n, n), lambda i, j: w.conj(w.at(r, j, i)), sort))
    w.eq('one subarray', w.call(w.get(PP + 'spatial_smooth'), R, 1), R)

@case('C17', PP + 'spatial_smooth')
def smoothing_rejects(w):
    m = w.dim('m')
    R = w.arr('R', (m, m), 'complex')
    l = w.int('subarrays', -3, 0) if w.flag('low') else w.int('subarrays', 1)
    w.assume(w.or_(l < 1, l > m))
    w.raises('number of subarrays', ValueError, lambda: w.call(w.get(PP + 'spatial_smooth'), R, l, fb=w.flag('fb')))

@case('C17', PP + 'l1_svd')
def svd_reduction(w):
    m, n = w.dim('m'), w.dim('n')
    sort = w.pick('sort', ['complex', 'real'])
    y = w.arr('y', (m, n), sort)
    k = w.int('k', 1)
    w.assume(w.and_(k <= m, k <= n))
    fr = w.frame(y=y)
    r = w.call(w.get(PP + 'l1_svd'), y, k)
    U, s, V = w.lib('numpy.linalg.svd', y, full_matrices=False)
    w.eq('dominant left singular vectors scaled by their singular values', r, w.mat((m, k), lambda i, j: w.at(U, i, j) * w.at(s, j), sort))
    w.unchanged('the snapshots are not modified', fr)

# --- C16 ---------------------------------------------------------------------------------------------------
def eigenvalues(w, lo=1):
    """ascending positive eigenvalues, given directly or through a Hermitian matrix"""
    m = w.dim('m', lo)
    if w.flag('matrix'):
        x = w.arr('R', (m, m), w.pick('sort', ['complex', 'real']), hermitian=True)
        l = w.lib('numpy.linalg.eigvalsh', x)
        w.assume(w.forall(m, lambda i: w.at(l, i) > 0))
    else:
        x = l = w.lib('numpy.sort', w.arr('l', (m,), pos=True))
    return m, x, l

def ld(w, l, m, k, N):
    n = m - k
    return N * n * w.log(w.sum(n, lambda i: w.at(l, i)) / n / w.prod(n, lambda i: w.at(l, i)) ** (1 / n))

@case('C16', SN + 'aic ' + SN + 'mdl ' + SN + 'ld_stat')
def information_criteria(w):
    m, x, l = eigenvalues(w)
    N = w.int('N', 1)
    which = w.pick('criterion', ['aic', 'mdl'])
    pen = (lambda k: k * (2 * m - k)) if which == 'aic' else (lambda k: (k * (2 * m - k) + 1) * w.log(N) / 2)
    crit = w.mat((m,), lambda k: ld(w, l, m, k, N) + pen(k), 'real')
    w.distinct_values(crit, low=True)
    fr = w.frame(x=x)
    r = w.call(w.get(SN + which), x, N)
    w.eq('minimiser of the criterion', r, w.lib('numpy.argmin', crit))
    w.unchanged('the input is not modified', fr)

@case('C16', SN + 'ld_stat')
def statistic(w):
    m = w.dim('m')
    l = w.arr('l', (m,), pos=True)
    k, N = w.int('k', 0), w.int('N', 1)
    w.assume(k < m)
    w.eq('sufficient statistic', w.call(w.get(SN + 'ld_stat'), l, k, N), ld(w, l, m, k, N))
    w.raises('matrix of eigenvalues', ValueError, lambda: w.call(w.get(SN + 'ld_stat'), w.arr('L', (m, 2), pos=True), k, N))

@case('C16', SN + 'sorte')
def sorte(w):
    m, x, l = eigenvalues(w, 4)
    d = lambda i: w.at(l, m - 1 - i) - w.at(l, m - 2 - i)      # gaps, largest eigenvalues first
    sigma = lambda k: w.lib('numpy.var', w.mat((m - 1 - k,), lambda i: d(k + i), 'real'))
    eps = w.attr(w.lib('numpy.finfo', w.get('numpy.float64')), 'eps')
    ratio = w.mat((m - 3,), lambda k: w.ite(w.abs(sigma(k)) < eps, w.inf, sigma(k + 1) / sigma(k)), 'real')
    if not w.symbolic: w.assume(len(ratio) == 1 or len(set(ratio)) == len(ratio))
    fr = w.frame(x=x)
    w.eq('minimiser of the criterion', w.call(w.get(SN + 'sorte'), x), w.lib('numpy.argmin', ratio) + 1)
    w.unchanged('the input is not modified', fr)

@case('C16', SN + 'sorte')
def sorte_rejects(w):
    m = w.dim('m', 1, 3)
    x = w.arr('R', (m, m), 'complex', hermitian=True) if w.flag('matrix') else w.arr('l', (m,), pos=True)
    w.raises('fewer than four eigenvalues', ValueError, lambda: w.call(w.get(SN + 'sorte'), x))

# --- rooting: from_z ---------------------------------------------------------------------------------------
FZ = S + 'FarField1DSourcePlacement.from_z'
class Directions:
    """what from_z was asked for"""
    def __init__(self, z, wavelength, d0, unit): self.z, self.wavelength, self.d0, self.unit = z, wavelength, d0, unit

def use_from_z(w):
    """calls of from_z are replaced by its contract (discharged by the case directions_of_roots)"""
    if w.symbolic: w.contract(FZ, lambda z, wavelength, d0, unit: Directions(z, wavelength, d0, unit))

def broadside(w, z, n, lam, d0, unit):
    """ascending broadside angles whose sines are angle * wavelength / (2 pi d0)"""
    s = w.mat((n,), lambda i: w.angle(w.at(z, i)) * lam / (2 * w.pi * d0), 'real')
    if unit == 'sin': return w.lib('numpy.sort', s)
    r = w.lib('numpy.sort', w.mat((n,), lambda i: w.arcsin(w.at(s, i)), 'real'))
    return r if unit == 'rad' else w.mat((n,), lambda i: w.at(r, i) * 180 / w.pi, 'real')

def directions(w, est, z, n, lam, d0, unit):
    if isinstance(est, Directions):
        w.eq('roots', est.z, z)
        w.eq('wavelength', est.wavelength, lam)
        w.eq('spacing', est.d0, d0)
        w.eq('unit', est.unit, unit)
        return
    w.true('kind', w.isinstance(est, w.get(S + 'FarField1DSourcePlacement')))
    w.eq('unit', w.attr(est, 'units'), (unit,))
    w.eq('directions', w.attr(est, 'locations'), broadside(w, z, n, lam, d0, unit))

@case('C14 C15', FZ)
def directions_of_roots(w):
    n = w.dim('n', 0)
    z = w.arr('z', (n,), 'complex')
    lam, d0 = w.scalar('lam', pos=True), w.scalar('d0', pos=True)
    unit = w.pick('unit', ['rad', 'deg', 'sin', 'default'])
    u = 'rad' if unit == 'default' else unit
    x = lambda i: w.angle(w.at(z, i)) * lam / (2 * w.pi * d0)
    w.assume(w.forall(n, lambda i: w.and_(x(i) <= 1, x(i) >= -1)))
    fr = w.frame(z=z)
    r = w.call(w.get(FZ), z, lam, d0, *(() if unit == 'default' else (unit,)))
    w.true('kind', w.isinstance(r, w.get(S + 'FarField1DSourcePlacement')))
    w.eq('unit', w.attr(r, 'units'), (u,))
    w.eq('directions', w.attr(r, 'locations'), broadside(w, z, n, lam, d0, u))
    w.unchanged('the roots are not modified', fr)

# --- C15 ---------------------------------------------------------------------------------------------------
ES = E + 'esprit.'
def default_weights(w, m): return w.mat((m,), lambda i: w.sqrt(w.ite(i <= m - 1 - i, i + 1, m - i)), 'real')

def spacing(w, lam):
    if w.flag('default spacing'): return lam / 2, {}
    d0 = w.scalar('d0', pos=True)
    if not w.symbolic: d0 = lam / 2 + d0
    return d0, dict(d0=d0)

@case('C15', ES + 'get_default_row_weights')
def row_weights(w):
    m = w.dim('m')
    w.eq('square roots of 1, 2, ..., 2, 1', w.call(w.get(ES + 'get_default_row_weights'), m), default_weights(w, m))

@case('C15', ES + 'Esprit1D.__init__ ' + ES + 'Esprit1D.estimate ' + ES + 'get_default_row_weights')
def rotation(w):
    use_from_z(w)
    if w.symbolic: w.contract(ES + 'get_default_row_weights', lambda m: default_weights(w, m))      # discharged by the case row_weights
    m, k, D = w.dim('m', 2), w.int('k', 1), w.int('displacement', 1)
    w.assume(k <= m - D)
    n = m - D
    lam = w.scalar('lam', pos=True)
    form = w.pick('formulation', ['ls', 'tls', 'default'])
    wt = w.pick('weights', ['default', 'none', 'given', 'omitted'])
    # the other options do not interact with these two: every value of each is covered once symbolically, all combinations concretely
    all_ = not w.symbolic or (form, wt) == ('ls', 'none')
    d0, kw = spacing(w, lam) if all_ else (lam / 2, {})
    R = w.arr('R', (m, m), w.pick('sort', ['complex', 'real']) if all_ else 'complex', hermitian=True)
    unit = w.pick('unit', ['rad', 'deg', 'sin', 'default']) if all_ else 'default'
    if wt == 'given': g = w.arr('weights', (n,), pos=True)
    else: g = default_weights(w, n) if wt != 'none' else None
    if form != 'default': kw['formulation'] = form
    if wt != 'omitted': kw['row_weights'] = g if wt == 'given' else wt
    if unit != 'default': kw['unit'] = unit
    if D == 1 and not w.symbolic and w.flag('default displacement'): pass
    else: kw['displacement'] = D
    fr = w.frame(R=R, g=g)
    ok, est = w.call(w.attr(w.call(w.get(ES + 'Esprit1D'), lam), 'estimate'), R, k, **kw)
    V = w.index(w.lib('numpy.linalg.eigh', R), 1)
    q = lambda i: 1 if g is None else w.at(g, i)
    E1 = lambda i, j: q(i) * w.at(V, i, m - k + j)
    E2 = lambda i, j: q(i) * w.at(V, i + D, m - k + j)
    if form != 'tls':
        G = w.mat((k, k), lambda a, b: w.sum(n, lambda i: w.conj(E1(i, a)) * E1(i, b)), 'complex')
        Gi = w.lib('numpy.linalg.inv', G)
        H = w.mat((k, k), lambda a, b: w.sum(n, lambda i: w.conj(E1(i, a)) * E2(i, b)), 'complex')
        Phi = w.mat((k, k), lambda a, b: w.sum(k, lambda c: w.at(Gi, a, c) * w.at(H, c, b)), 'complex')
    else:
        col = lambda i, j: w.ite(j < k, E1(i, j if w.symbolic or j < k else 0), E2(i, j - k if w.symbolic or j >= k else 0))
        C = w.mat((2 * k, 2 * k), lambda a, b: w.sum(n, lambda i: w.conj(col(i, a)) * col(i, b)), 'complex')
        U = w.index(w.lib('numpy.linalg.eigh', C), 1)      # ascending: the first k columns belong to the smallest eigenvalues
        V12 = lambda a, b: w.at(U, a, k - 1 - b)
        V22i = w.lib('numpy.linalg.inv', w.mat((k, k), lambda a, b: w.at(U, k + a, k - 1 - b), 'complex'))
        Phi = w.mat((k, k), lambda a, b: -w.sum(k, lambda c: V12(a, c) * w.at(V22i, c, b)), 'complex')
    w.eq('resolved', ok, True)
    z = w.lib('numpy.linalg.eigvals', Phi)
    if not w.symbolic: w.assume(abs(abs(w.np.angle(z)) - w.np.pi).min() > 1e-6)
    directions(w, est, z, k, lam, d0 * D, 'rad' if unit == 'default' else unit)
    w.unchanged('inputs are not modified', fr)

@case('C15', ES + 'Esprit1D.estimate', sym='none', why='exactness rests on eigenvector perturbation facts of LAPACK')
def exact_covariance(w):
    """for the exact covariance of uncorrelated sources the directions are exact"""
    np = w.np
    m, D = w.dim('m', 3, 9), w.int('displacement', 1, 3)
    w.assume(m - D >= 1)
    n = m - D
    k = w.int('k', 1, 4)
    w.assume(k <= n)
    lam = w.scalar('lam', pos=True)
    d0 = lam * w.scalar('spacing', lo=0.3, hi=0.5, closed=True)
    lim = min(1.0, lam / (2 * d0 * D)) * 0.95
    s = np.sort(w.arr('sines', (k,), lo=-lim, hi=lim, generic=True))
    w.assume(k == 1 or np.diff(s).min() > 0.12 / D)
    p = w.arr('powers', (k,), lo=0.5, hi=2.0)
    M = np.exp(2j * np.pi * d0 / lam * np.outer(np.arange(m), s))
    R = (M * p) @ M.conj().T + w.scalar('noise', lo=0.01, hi=1.0) * np.eye(m)
    unit = w.pick('unit', ['rad', 'deg', 'sin'])
    wt = w.pick('weights', ['default', 'none', 'given'])
    form = w.pick('formulation', ['ls', 'tls'])
    ok, est = w.call(w.call(w.get(ES + 'Esprit1D'), lam).estimate, R, k, d0=d0, displacement=D, formulation=form, unit=unit,
                     row_weights=w.arr('weights', (n,), lo=0.5, hi=2.0) if wt == 'given' else wt)
    w.eq('resolved', ok, True)
    t = {'rad': np.arcsin, 'deg': lambda x: np.rad2deg(np.arcsin(x)), 'sin': lambda x: x}[unit](s)
    w.eq('directions', est.locations, t, tol=1e-5)

@case('C15', ES + 'Esprit1D.estimate')
def esprit_rejects(w):
    m, k, D = w.dim('m', 2), w.int('k', 1), w.int('displacement', 1)
    n = m - D
    R = w.arr('R', (m, m), 'complex', hermitian=True)
    what = w.pick('what', ['displacement', 'sources', 'formulation', 'weights string', 'weights length', 'weights rank', 'weights type'])
    kw = dict(displacement=D)
    if what == 'displacement': kw['displacement'] = w.int('low', -3, 0)
    elif what == 'sources': w.assume(k > n)
    else:
        w.assume(k <= n)
        if what == 'formulation': kw['formulation'] = w.pick('name', ['LS', 'wls', ''])
        elif what == 'weights string': kw['row_weights'] = w.pick('name', ['defaults', 'None', ''])
        elif what == 'weights length':
            p = w.dim('p')
            w.assume(w.not_(w.eq_(p, n)))
            kw['row_weights'] = w.arr('g', (p,), pos=True)
        elif what == 'weights rank': kw['row_weights'] = w.arr('g', (n, 1) if w.flag('column') else (1, n), pos=True)
        else: kw['row_weights'] = w.pick('thing', [None, 1.0, (1.0, 1.0)])
    w.raises(what, ValueError, lambda: w.call(w.attr(w.call(w.get(ES + 'Esprit1D'), w.scalar('lam', pos=True)), 'estimate'), R, k, **kw))

# --- C14 ---------------------------------------------------------------------------------------------------
RM = E + 'music.RootMUSIC1D.'
@case('C14', RM + '__init__ ' + RM + 'estimate ' + E + 'core.get_noise_subspace')
def rooting(w):
    use_from_z(w)
    m, k = w.dim('m', 2), w.int('k', 1)
    w.assume(k <= m - 1)
    lam = w.scalar('lam', pos=True)
    d0, kw = spacing(w, lam)
    unit = w.pick('unit', ['rad', 'deg', 'sin', 'default'])
    if unit != 'default': kw['unit'] = unit
    R = w.arr('R', (m, m), w.pick('sort', ['complex', 'real']), hermitian=True)
    fr = w.frame(R=R)
    ok, est = w.call(w.attr(w.call(w.get(E + 'music.RootMUSIC1D'), lam), 'estimate'), R, k, **kw)
    V = w.index(w.lib('numpy.linalg.eigh', R), 1)
    C = lambda i, j: w.sum(m - k, lambda r: w.at(V, i, r) * w.conj(w.at(V, j, r)))
    def coef(i):          # descending powers: the i-th coefficient is the sum of the diagonal m - 1 - i
        up = lambda d: w.sum(m - d, lambda r: C(r, r + d))
        if not w.symbolic: return up(m - 1 - i) if i <= m - 1 else w.conj(up(i - m + 1))
        return w.ite(i == m - 1, up(0), w.ite(i < m - 1, up(m - 1 - i), w.conj(up(i - m + 1))))
    z = w.lib('numpy.roots', w.mat((2 * m - 1,), coef, 'complex'))
    # one root of each conjugate reciprocal pair: the m - 1 innermost ones, closest to the circle first
    r = w.mat((2 * m - 2,), lambda i: w.abs(w.at(z, i)), 'real')
    w.distinct_values(r)
    o = w.lib('numpy.argsort', r)
    inner = w.mat((m - 1,), lambda i: w.at(z, w.at(o, i)), 'complex')
    q = w.lib('numpy.argsort', w.mat((m - 1,), lambda i: 1 - w.abs(w.at(inner, i)), 'real'))
    best = w.mat((k,), lambda i: w.at(inner, w.at(q, i)), 'complex')
    if not w.symbolic:
        w.assume(abs(abs(w.np.angle(best)) - w.np.pi).min() > 1e-6)
        a = w.np.abs(best)
        w.assume(m - 1 == k or abs(w.np.sort(w.np.abs(inner))[-k - 1] - a.min()) > 1e-6)
    w.eq('resolved', ok, True)
    directions(w, est, best, k, lam, d0, 'rad' if unit == 'default' else unit)
    w.unchanged('the covariance matrix is not modified', fr)

@case('C14', RM + 'estimate')
def rooting_rejects(w):
    e = w.call(w.get(E + 'music.RootMUSIC1D'), w.scalar('lam', pos=True))
    what = w.pick('what', ['shape', 'rank', 'sources'])
    m, k = w.dim('m'), w.int('k', 1)
    if what == 'shape':
        p = w.dim('p')
        w.assume(w.not_(w.eq_(p, m)))
        R = w.arr('R', (m, p), 'complex')
    elif what == 'rank': R = w.arr('R', (m,) if w.flag('vector') else (m, m, 2), 'complex')
    else:
        R = w.arr('R', (m, m), 'complex', hermitian=True)
        w.assume(k >= m)
    w.raises(what, ValueError, lambda: w.call(w.attr(e, 'estimate'), R, k))

@case('C14', RM + 'estimate', sym='none', why='exactness rests on facts about np.roots and LAPACK')
def exact_rooting(w):
    """for the exact covariance of uncorrelated sources the directions are exact"""
    np = w.np
    m = w.dim('m', 2, 9)
    k = w.int('k', 1, 4)
    w.assume(k <= m - 1)
    lam = w.scalar('lam', pos=True)
    d0 = lam * w.scalar('spacing', lo=0.3, hi=0.5, closed=True)
    s = np.sort(w.arr('sines', (k,), lo=-0.95, hi=0.95, generic=True))
    w.assume(k == 1 or np.diff(s).min() > 0.15)
    p = w.arr('powers', (k,), lo=0.5, hi=2.0)
    M = np.exp(2j * np.pi * d0 / lam * np.outer(np.arange(m), s))
    R = (M * p) @ M.conj().T + w.scalar('noise', lo=0.01, hi=1.0) * np.eye(m)
    unit = w.pick('unit', ['rad', 'deg', 'sin'])
    ok, est = w.call(w.call(w.get(E + 'music.RootMUSIC1D'), lam).estimate, R, k, d0=d0, unit=unit)
    w.eq('resolved', ok, True)
    t = {'rad': np.arcsin, 'deg': lambda x: np.rad2deg(np.arcsin(x)), 'sin': lambda x: x}[unit](s)
    w.eq('directions', est.locations, t, tol=1e-3)

# --- C21 ---------------------------------------------------------------------------------------------------
ML = E + 'ml.'
BASE = ' '.join(ML + 'CovarianceBasedMLEstimator.' + f for f in ('__init__', 'estimate', '_prepare_opt_prob', '_update_estimates_from_x', '_eval_steering_matrix_from_x', 'get_last_estimates', 'get_max_resolvable_sources'))
ML_KINDS = ('ff1 rad', 'ff1 deg', 'ff1 sin', 'ff2 rad', 'ff2 deg', 'near')
RANGES = {'rad': lambda w: [(-w.pi / 2, w.pi / 2)], 'deg': lambda w: [(-90, 90)], 'sin': lambda w: [(-1, 1)], 'm': lambda w: [(-w.inf, w.inf)] * 2}

def bounds_of(w, src):
    if src.kind.startswith('ff2'):
        l = w.pi if src.unit == 'rad' else 180
        return [(-l, l), (-l / 2, l / 2)]
    return RANGES[src.unit](w)

def use_projm(w):
    """calls of projm are replaced by its contract for matrices of full column rank (discharged for C24)"""
    if not w.symbolic: return
    def f(A, use_pinv):
        m, k = w.shape(A)
        Q = w.lib('numpy.linalg.pinv', A)
        return w.mat((m, m), lambda i, j: w.sum(k, lambda a: w.at(A, i, a) * w.at(Q, a, j)), 'complex')
    w.contract('doatools.utils.math.projm', f)

def projector(w, X, m, k):
    Q = w.lib('numpy.linalg.pinv', X)
    P = w.mat((m, m), lambda i, j: w.sum(k, lambda a: w.at(X, i, a) * w.at(Q, a, j)), 'complex')
    return (lambda i, j: w.at(P, i, j)), (lambda i, j: w.ind(w.eq_(i, j)) - w.at(P, i, j))

def negative_log_likelihood(w, which, X, R, m, k):
    P, N = projector(w, X, m, k)
    tr = lambda Q: w.sum(m, lambda i: w.sum(m, lambda j: N(i, j) * w.at(Q, j, i)))
    if which == 'CML': return w.re(tr(R))
    if which == 'AML':
        c = tr(R) / (m - k)
        PR = w.mat((m, m), lambda i, j: w.sum(m, lambda p: P(i, p) * w.at(R, p, j)), 'complex')
        H = w.mat((m, m), lambda i, j: w.sum(m, lambda q: w.at(PR, i, q) * P(q, j)) + c * N(i, j), 'complex')
        s, l = w.lib('numpy.linalg.slogdet', w.mat((m, m), lambda i, j: (w.at(H, i, j) + w.conj(w.at(H, j, i))) / 2, 'complex'))
        return w.ite(w.re(s) > 0, l, w.inf)
    v, V = w.lib('numpy.linalg.eigh', R)
    s = w.sum(m - k, lambda i: w.at(v, i)) / (m - k)
    g = lambda r: (w.at(v, m - k + r) - s) ** 2 / w.at(v, m - k + r)
    return w.re(tr(w.mat((m, m), lambda i, j: w.sum(k, lambda r: g(r) * w.at(V, i, m - k + r) * w.conj(w.at(V, j, m - k + r))), 'complex')))

@case('C21', BASE + ' ' + ' '.join(ML + c for c in ('AMLEstimator._eval_nll', 'CMLEstimator._eval_nll', 'WSFEstimator._eval_nll', 'WSFEstimator._prepare_m', 'WSFEstimator._prepare_opt_prob')))
def objective(w):
    use_projm(w)
    which = w.pick('estimator', ['AML', 'CML', 'WSF'])
    a, m = ml_array(w)
    lam = w.scalar('lam', pos=True)
    k = w.dim('k')
    w.assume(k <= m - 1)
    src = Src(w, k, ML_KINDS if which == 'CML' or not w.symbolic else ('ff1 deg', 'ff2 rad'), interior=True)
    d = 1 if src.kind.startswith('ff1') else 2
    R = w.arr('R', (m, m), 'complex', hermitian=True)
    if not w.symbolic: R = R @ R + w.np.eye(m)
    x = Src(w, k, (src.kind,), name='x', interior=True)
    y = Src(w, k, (src.kind,), name='y', interior=True)
    flat = lambda s: w.mat((k * d,), (lambda i: w.at(s.loc, i)) if d == 1 else (lambda i: w.at(s.loc, i // 2, i % 2)), 'real')
    fails = w.flag('fails')
    seen = []
    used = []
    def minimize(f, x0, args, kw):
        if used:
            w.call(f, x0)
            return x0, True
        v = w.call(f, flat(x))
        seen.append((v, x0, args, dict(kw)))
        return flat(y), not fails
    w.hook('scipy.optimize.minimize', minimize)
    e = w.call(w.get(ML + which + 'Estimator'), a, lam)
    if w.flag('used before') if not w.symbolic or which == 'WSF' or src.kind == 'ff1 rad' else False:
        k0 = w.dim('k0')
        w.assume(k0 <= m - 1)
        R0 = w.arr('R0', (m, m), 'complex', hermitian=True)
        if not w.symbolic: R0 = R0 @ R0 + w.np.eye(m)
        s0 = Src(w, k0, ('ff1 rad',), name='before', interior=True)
        used.append(1)
        w.call(w.attr(e, 'estimate'), R0, s0.obj)
        used.clear()
    fr = w.frame(R=R, sources0=src.obj, a=a)
    extra = dict(options=17) if w.symbolic and w.flag('options') else {}
    ok, est = w.call(w.attr(e, 'estimate'), R, src.obj, **extra)
    w.eq('the optimiser is called once', len(seen), 1)
    v, x0, args, kw = seen[0]
    X = w.call(w.attr(a, 'steering_matrix'), x.obj, lam, perturbations='known')
    w.eq('objective', v, negative_log_likelihood(w, which, X, R, m, k))
    w.eq('starting point', x0, flat(src))
    b = kw.get('bounds')
    rg = bounds_of(w, src)
    w.eq('number of bounds', w.len(b), k * d)
    if d == 1: w.all('bounds', (k,), lambda i: w.and_(w.eq_(w.at(b, i, 0), rg[0][0]), w.eq_(w.at(b, i, 1), rg[0][1])))
    else: w.all('bounds', (k,), lambda i: w.and_(*[w.eq_(w.at(b, 2 * i + c, s), rg[c][s]) for c in (0, 1) for s in (0, 1)]))
    w.eq('method', kw.get('method'), 'L-BFGS-B')
    if extra: w.eq('options are passed on', kw.get('options'), 17)
    w.true('nothing else', set(kw) <= {'bounds', 'method', 'options'} and not args)
    w.eq('resolved', ok, not fails)
    if fails: w.eq('no estimates', est, None)
    else:
        for nm, s in (('estimates', est), ('last estimates', w.call(w.attr(e, 'get_last_estimates')))):
            w.true(nm + ': kind', w.attr(s, '__class__') is w.attr(src.obj, '__class__'))
            w.eq(nm + ': units', w.attr(s, 'units'), w.attr(src.obj, 'units'))
            w.eq(nm + ': locations', w.attr(s, 'locations'), y.loc)
        w.disjoint('estimates are copies', est, w.call(w.attr(e, 'get_last_estimates')))
        w.disjoint('estimates are separate from the start', est, src.obj)
    w.unchanged('inputs are not modified', fr)

def ml_array(w):
    m, d = w.dim('m', 2), 2
    L = w.arr('L', (m, d))
    perts = () if w.symbolic else w.pick('perturbations', [(), (('gain', True), ('phase', False)), (('mc', True), ('loc', True))])
    p = Pert(w, m, [k for k, _ in perts], [n for _, n in perts], d)
    a = w.call(w.get(A + 'ArrayDesign'), L, 'x', p.objs())
    use_steering(w, a)
    return a, m

@case('C21', ML + 'f_nll_stouc')
def uncorrelated_likelihood(w):
    a, m = ml_array(w)
    lam = w.scalar('lam', pos=True)
    k = w.dim('k')
    w.assume(k <= m - 1)
    src = Src(w, k, ('ff1 rad', 'ff2 deg', 'near'), interior=True)
    R = w.arr('R', (m, m), 'complex', hermitian=True)
    p = w.arr('p', (k,), pos=True)
    sigma = w.scalar('sigma', pos=True)
    X = w.call(w.attr(a, 'steering_matrix'), src.obj, lam)
    fr = w.frame(R=R, p=p, a=a, s=src.obj)
    v = w.call(w.get(ML + 'f_nll_stouc'), R, a, src.obj, lam, p, sigma)
    Sg = w.mat((m, m), lambda i, j: w.sum(k, lambda r: w.at(p, r) * w.at(X, i, r) * w.conj(w.at(X, j, r))) + sigma * w.ind(w.eq_(i, j)), 'complex')
    Q = w.lib('numpy.linalg.inv', Sg)
    s, l = w.lib('numpy.linalg.slogdet', Sg)
    w.eq('log det S + tr(S^-1 R)', v, w.ite(w.re(s) > 0, l + w.re(w.sum(m, lambda i: w.sum(m, lambda j: w.at(Q, i, j) * w.at(R, j, i)))), w.inf))
    w.unchanged('inputs are not modified', fr)

@case('C21', ML + 'CovarianceBasedMLEstimator.estimate ' + ML + 'CovarianceBasedMLEstimator.get_last_estimates ' + ML + 'CovarianceBasedMLEstimator.get_max_resolvable_sources')
def ml_rejects(w):
    which = w.pick('estimator', ['AML', 'CML', 'WSF'])
    a, m = ml_array(w)
    e = w.call(w.get(ML + which + 'Estimator'), a, w.scalar('lam', pos=True))
    k = w.dim('k')
    src = Src(w, k, ('ff1 rad',))
    what = w.pick('what', ['sources', 'shape', 'rank', 'no estimate yet'])
    w.hook('scipy.optimize.minimize', lambda f, x0, args, kw: (x0, True))
    w.eq('number of resolvable sources', w.call(w.attr(e, 'get_max_resolvable_sources')), m - 1)
    if what == 'no estimate yet': return w.raises(what, RuntimeError, lambda: w.call(w.attr(e, 'get_last_estimates')))
    if what == 'sources':
        w.assume(k >= m)
        R = w.arr('R', (m, m), 'complex', hermitian=True)
    else:
        w.assume(k < m)
        if what == 'shape':
            p, q = w.dim('p'), w.dim('q')
            w.assume(w.not_(w.and_(w.eq_(p, m), w.eq_(q, m))))
            R = w.arr('R', (p, q), 'complex')
        else: R = w.arr('R', (m, m, 1) if w.flag('cube') else (m,), 'complex')
    w.raises(what, ValueError, lambda: w.call(w.attr(e, 'estimate'), R, src.obj))

"""C18, C19, C20: performance bounds."""
from .reg import case
from .common import A, Pert, use_steering, Src, S, FF1
from . import c_coarray as CA
PF = 'doatools.performance.'
CRB, MSE, UT = PF + 'crb.', PF + 'mse.', PF + 'utils.'
POWERS = ('scalar', 'vector', 'list', 'matrix')
MODES = ('full', 'diag', 'mean_diag', 'default')

def array(w, perturbed=True):
    m, d = w.dim('m', 2), 2
    L = w.arr('L', (m, d))
    perts = () if w.symbolic or not perturbed else w.pick('perturbations', [(), (('gain', True), ('phase', False)), (('mc', True), ('loc', False))])
    p = Pert(w, m, [k for k, _ in perts], [n for _, n in perts], d)
    a = w.call(w.get(A + 'ArrayDesign'), L, 'x', p.objs())
    use_steering(w, a)
    return a, m

def setting(w, kinds=FF1, perturbed=True):
    a, m = array(w, perturbed)
    lam = w.scalar('lam', pos=True)
    k = w.dim('k')
    w.assume(k <= m - 1)
    src = Src(w, k, kinds if not w.symbolic else ('ff1 rad',), interior=True, spaced=True)
    if not w.symbolic:       # far enough apart for the inverses to be well conditioned
        t = w.np.sort(src.rad(src.loc) if src.unit != 'sin' else w.np.arcsin(src.loc))
        w.assume(abs(t).max() < 1.35 and (k == 1 or w.np.diff(t).min() > 0.1))
    sigma = w.scalar('sigma', pos=True)
    N = w.int('N', 1)
    return a, m, lam, k, src, sigma, N

def powers(w, k, forms=POWERS):
    """(the input, entry function of the source covariance matrix it stands for, entry function of its diagonal)"""
    f = w.pick('power', list(forms))
    dl = lambda i, j: w.ind(w.eq_(i, j))
    if f == 'scalar':
        p = w.scalar('p', pos=True)
        return p, lambda i, j: p * dl(i, j), lambda i: p
    if f == 'matrix':
        p = w.arr('P', (k, k), 'complex', hermitian=True)
        if not w.symbolic: p = p @ p.conj().T + w.np.eye(k)
        return p, lambda i, j: w.at(p, i, j), lambda i: w.re(w.at(p, i, i))
    p = w.arr('p', (k,), pos=True)
    q = w.call(w.attr(p, 'tolist')) if f == 'list' else p
    return q, lambda i, j: w.at(p, i) * dl(i, j), lambda i: w.at(p, i)

def reduced(w, name, r, M, k, mode):
    """r is the matrix with entries M, or its diagonal, or the mean of its diagonal"""
    if not w.symbolic:          # compared relative to the largest entry
        scale = max(abs(M(i, j)) for i in range(k) for j in range(k))
        w.assume(1e-200 < scale < 1e200)
        r, M0 = r / scale, M
        M = lambda i, j: M0(i, j) / scale
    if mode in ('full', 'default'): w.eq(name, r, w.mat((k, k), M, 'real'))
    elif mode == 'diag': w.eq(name, r, w.mat((k,), lambda i: M(i, i), 'real'))
    else: w.eq(name, r, w.sum(k, lambda i: M(i, i)) / k)

def mult(w, *fs):
    """entry function of a product of matrices given as (rows, columns, entry function)"""
    m, n, f = fs[0]
    for p, q, g in fs[1:]:
        F = w.mat((m, n), f, 'complex')
        f = (lambda F, n, g: lambda i, j: w.sum(n, lambda r: w.at(F, i, r) * g(r, j)))(F, n, g)
        n = q
    F = w.mat((m, n), f, 'complex')
    return lambda i, j: w.at(F, i, j)

def inverse(w, k, f, sort='complex'):
    F = w.mat((k, k), f, sort)
    if not w.symbolic: w.assume(w.np.linalg.cond(F) < 1e6)       # otherwise rounding decides
    Q = w.lib('numpy.linalg.inv', F)
    return lambda i, j: w.at(Q, i, j)

def steer(w, a, src, lam, sel):
    X, D = w.call(w.attr(a, 'steering_matrix'), src.obj, lam, True, sel)
    return (lambda i, j: w.at(X, i, j)), (lambda i, j: w.at(D, i, j))

def H(w, f): return lambda i, j: w.conj(f(j, i))

def h_matrix(w, m, k, X, D):
    """D^H (I - A (A^H A)^-1 A^H) D"""
    G = inverse(w, k, mult(w, (k, m, H(w, X)), (m, k, X)))
    XD = mult(w, (k, m, H(w, X)), (m, k, D))
    DD = mult(w, (k, m, H(w, D)), (m, k, D))
    DX = mult(w, (k, m, H(w, D)), (m, k, X))
    DPD = mult(w, (k, k, DX), (k, k, G), (k, k, XD))
    F = w.mat((k, k), lambda i, j: DD(i, j) - DPD(i, j), 'complex')
    if not w.symbolic:       # otherwise the difference consists of rounding errors
        c = w.np.linalg.cond(w.mat((k, k), lambda i, j: G(i, j), 'complex'))
        w.assume(c * max(abs(DD(i, i)) for i in range(k)) < 1e5 * abs(w.np.linalg.eigvalsh((F + F.conj().T) / 2)).min())
    return lambda i, j: w.at(F, i, j)

def covariance(w, m, k, X, P, sigma):
    XP = mult(w, (m, k, X), (k, k, P), (k, m, H(w, X)))
    return lambda i, j: XP(i, j) + sigma * w.ind(w.eq_(i, j))

def options(w, N, mode):
    kw = {}
    if w.symbolic or N != 1 or w.flag('pass N'): kw['n_snapshots'] = N
    if mode != 'default': kw['return_mode'] = mode
    return kw

@case('C18', CRB + 'crb_sto_farfield_1d ' + UT + 'unify_p_to_matrix ' + UT + 'reduce_output_matrix')
def stochastic(w):
    a, m, lam, k, src, sigma, N = setting(w)
    p, P, _ = powers(w, k)
    mode = w.pick('mode', MODES)
    X, D = steer(w, a, src, lam, 'all')
    fr = w.frame(a=a, s=src.obj, p=p)
    Hm = h_matrix(w, m, k, X, D)
    Ri = inverse(w, m, covariance(w, m, k, X, P, sigma))
    B = mult(w, (k, k, P), (k, m, H(w, X)), (m, m, Ri), (m, k, X), (k, k, P))
    J = inverse(w, k, lambda i, j: w.re(Hm(i, j) * B(j, i)), 'real')
    r = w.call(w.get(CRB + 'crb_sto_farfield_1d'), a, src.obj, lam, p, sigma, **options(w, N, mode))
    reduced(w, 'stochastic bound', r, lambda i, j: sigma / (2 * N) * J(i, j), k, mode)
    w.unchanged('inputs are not modified', fr)

@case('C18', CRB + 'crb_det_farfield_1d ' + UT + 'reduce_output_matrix')
def deterministic(w):
    a, m, lam, k, src, sigma, N = setting(w)
    p, P, _ = powers(w, k, ('matrix',))
    mode = w.pick('mode', MODES)
    X, D = steer(w, a, src, lam, 'all')
    fr = w.frame(a=a, s=src.obj, p=p)
    Hm = h_matrix(w, m, k, X, D)
    J = inverse(w, k, lambda i, j: w.re(Hm(i, j) * P(j, i)), 'real')
    r = w.call(w.get(CRB + 'crb_det_farfield_1d'), a, src.obj, lam, p, sigma, **options(w, N, mode))
    reduced(w, 'deterministic bound', r, lambda i, j: sigma / (2 * N) * J(i, j), k, mode)
    w.unchanged('inputs are not modified', fr)

@case('C18', CRB + 'crb_stouc_farfield_1d ' + UT + 'unify_p_to_vector ' + UT + 'reduce_output_matrix', deadline=300)
def uncorrelated(w):
    """the Fisher information of the locations, the powers and the noise variance has the entries tr(R^-1 dR_x R^-1 dR_y)"""
    a, m, lam, k, src, sigma, N = setting(w)
    p, _, q = powers(w, k)
    mode = w.pick('mode', MODES)
    X, D = steer(w, a, src, lam, 'all')
    fr = w.frame(a=a, s=src.obj, p=p)
    Ri = inverse(w, m, lambda i, j: w.sum(k, lambda c: X(i, c) * q(c) * w.conj(X(j, c))) + sigma * w.ind(w.eq_(i, j)))
    RX, RD = mult(w, (m, m, Ri), (m, k, X)), mult(w, (m, m, Ri), (m, k, D))
    ip = lambda u, i, v, j: w.sum(m, lambda r: w.conj(u(r, i)) * v(r, j))        # u_i^H v_j
    # dR = p_i (d_i a_i^H + a_i d_i^H), a_i a_i^H, I
    tt = lambda i, j: q(i) * q(j) * 2 * w.re(ip(X, i, RD, j) * ip(X, j, RD, i) + ip(X, i, RX, j) * ip(D, j, RD, i))
    tp = lambda i, j: q(i) * 2 * w.re(ip(X, j, RD, i) * ip(X, i, RX, j))
    ts = lambda i: q(i) * 2 * w.re(ip(RD, i, RX, i))
    pp = lambda i, j: w.abs2(ip(X, i, RX, j))
    ps = lambda i: w.re(ip(RX, i, RX, i))
    ss = w.sum(m, lambda i: w.sum(m, lambda j: w.re(Ri(i, j) * Ri(j, i))))
    def fim(x, y):
        if not w.symbolic:
            if x > y: return fim(y, x)
            if y < k: return tt(x, y)
            if x < k: return tp(x, y - k) if y < 2 * k else ts(x)
            if x < 2 * k: return pp(x - k, y - k) if y < 2 * k else ps(x - k)
            return ss
        row = lambda u, v, s: w.ite(y < k, u, w.ite(y < 2 * k, v, s))
        return w.ite(x < k, row(tt(x, y), tp(x, y - k), ts(x)), w.ite(x < 2 * k, row(tp(y, x - k), pp(x - k, y - k), ps(x - k)), row(ts(y), ps(y - k), ss)))
    J = inverse(w, 2 * k + 1, fim, 'real')
    r = w.call(w.get(CRB + 'crb_stouc_farfield_1d'), a, src.obj, lam, p, sigma, **options(w, N, mode))
    reduced(w, 'bound for uncorrelated sources', r, lambda i, j: J(i, j) / N, k, mode)
    w.unchanged('inputs are not modified', fr)

@case('C18', ' '.join(CRB + f for f in ('crb_sto_farfield_1d', 'crb_det_farfield_1d', 'crb_stouc_farfield_1d')))
def bounds_of_other_sources(w):
    a, m = array(w)
    lam, k = w.scalar('lam', pos=True), w.dim('k')
    src = Src(w, k, ('ff2 rad', 'ff2 deg', 'near'))
    P = w.arr('P', (k, k), 'complex', hermitian=True)
    f = w.pick('bound', ['crb_sto_farfield_1d', 'crb_det_farfield_1d', 'crb_stouc_farfield_1d'])
    w.raises('sources of another kind', ValueError, lambda: w.call(w.get(CRB + f), a, src.obj, lam, P, w.scalar('sigma', pos=True)))

# --- C19 ---------------------------------------------------------------------------------------------------
@case('C19', MSE + 'ecov_music_1d ' + UT + 'unify_p_to_matrix ' + UT + 'reduce_output_matrix')
def music_covariance(w):
    a, m, lam, k, src, sigma, N = setting(w)
    p, P, _ = powers(w, k)
    mode = w.pick('mode', MODES)
    sel = w.pick('perturbations', [None, 'known'] if w.symbolic else [None, 'all', 'known', 'none'])
    X, D = steer(w, a, src, lam, sel or 'all')
    fr = w.frame(a=a, s=src.obj, p=p)
    Hm = h_matrix(w, m, k, X, D)
    Pi = inverse(w, k, P)
    G = inverse(w, k, mult(w, (k, m, H(w, X)), (m, k, X)))
    PGP = mult(w, (k, k, Pi), (k, k, G), (k, k, Pi))
    B = lambda i, j: Pi(i, j) + sigma * PGP(i, j)
    h = lambda i: w.re(Hm(i, i))
    r = w.call(w.get(MSE + 'ecov_music_1d'), a, src.obj, lam, p, sigma, **options(w, N, mode), **({'perturbations': sel} if sel else {}))
    reduced(w, 'asymptotic covariance of MUSIC', r, lambda i, j: sigma / (2 * N) * w.re(Hm(i, j) * B(j, i)) / h(i) / h(j), k, mode)
    w.unchanged('inputs are not modified', fr)

@case('C19', MSE + 'ecov_coarray_music_1d ' + UT + 'unify_p_to_vector ' + UT + 'reduce_output_matrix', sym='none', weight=2, why='the invariants of the loops over the sources nest a sum over the loop that builds the lag selection, which the prover does not discharge in time')
def coarray_music_covariance(w):
    kind = w.pick('array', ('grid',) if w.symbolic else ('nested', 'coprime', 'ula', 'mrla'))
    a, m, I, d0 = CA.grid_array(w, (kind,), True)
    In = CA.use_contracts(w, m, I)
    lam = w.scalar('lam', pos=True)
    if not w.symbolic: lam = d0 * (2.01 + lam)       # a virtual array without grating lobes
    mv = w.call(w.attr(w.call(w.get(CA.M + 'WeightFunction1D'), a), 'get_central_ula_size'), True)
    k = w.dim('k')
    w.assume(k <= mv - 1)
    if w.symbolic: Fs = w.mat((2 * mv - 1, m * m), lambda i, r: w.ufun('selection', (), i, r), 'real')
    else: Fs = w.mat((2 * mv - 1, m * m), lambda i, r: w.ind(In(r, 1 - mv + i)) / w.sum(m * m, lambda q: w.ind(In(q, 1 - mv + i))), 'real')
    w.contract(CA.W + 'get_coarray_selection_matrix', lambda self, exclude_negative_part: Fs)
    src = Src(w, k, FF1 if not w.symbolic else ('ff1 rad',), interior=True, spaced=True)
    sigma, N = w.scalar('sigma', pos=True), w.int('N', 1)
    p, _, q = powers(w, k, ('vector',) if w.symbolic else POWERS)
    mode = w.pick('mode', ('full',) if w.symbolic else MODES)
    fr = w.frame(a=a, s=src.obj, p=p)
    at = lambda n, loc, f: (lambda F: lambda i, c: w.at(F, i, c))(w.mat((n, k), f(loc), 'complex'))
    st = lambda loc: lambda i, c: w.exp(w.j * src.delay(loc(i), c, lam))
    ds = lambda loc: lambda i, c: w.j * src.ddelay(loc(i), c, lam) * w.exp(w.j * src.delay(loc(i), c, lam))
    line = lambda x: lambda i: (lambda c: x(i) * d0 if c == 0 else 0)
    X = at(m, line(I), st)
    V, DV = at(mv, line(lambda i: i), st), at(mv, line(lambda i: i), ds)
    cov = lambda n, X: (lambda F: lambda i, j: w.at(F, i, j))(w.mat((n, n), lambda i, j: w.sum(k, lambda c: X(i, c) * q(c) * w.conj(X(j, c))) + sigma * w.ind(w.eq_(i, j)), 'complex'))
    R = cov(m, X)
    # projector onto the noise subspace of the virtual array
    E = w.index(w.lib('numpy.linalg.eigh', w.mat((mv, mv), cov(mv, V), 'complex')), 1)
    En = w.mat((mv, mv), lambda i, j: w.sum(mv - k, lambda e: w.at(E, i, e) * w.conj(w.at(E, j, e))), 'complex')
    B = w.mat((mv, k), lambda i, c: w.sum(mv, lambda j: w.at(En, i, j) * DV(j, c)), 'complex')
    Vi = w.lib('numpy.linalg.pinv', w.mat((mv, k), V, 'complex'))
    g = w.mat((k,), lambda c: w.sum(mv, lambda i: w.abs2(w.at(B, i, c))), 'real')
    # lag l of the virtual array collects beta_i alpha_(i+l)
    lag = w.mat((2 * mv - 1, k), lambda l, c: w.sum(mv, lambda i: w.ite(w.and_(i + l >= mv - 1, i + l < 2 * mv - 1), w.at(B, i, c) * w.at(Vi, c, (i + l - mv + 1) % mv), 0)), 'complex')
    xi = w.mat((m * m, k), lambda r, c: -w.sum(2 * mv - 1, lambda l: w.at(Fs, l, r) * w.at(lag, l, c)) / (q(c) * w.at(g, c)), 'complex')
    # (R kron R^T)[i m + s, j m + t] = R[i, j] R[t, s]
    K = w.mat((m * m, k), lambda r, y: w.sum(m * m, lambda s: R(r // m, s // m) * R(s % m, r % m) * w.at(xi, s, y)), 'complex')
    C = lambda x, y: w.re(w.sum(m * m, lambda r: w.conj(w.at(xi, r, x)) * w.at(K, r, y))) / N
    r = w.call(w.get(MSE + 'ecov_coarray_music_1d'), a, src.obj, lam, p, sigma, **options(w, N, mode))
    reduced(w, 'asymptotic covariance of coarray MUSIC', r, C, k, mode)
    w.unchanged('inputs are not modified', fr)

@case('C19', MSE + 'ecov_music_1d ' + MSE + 'ecov_coarray_music_1d')
def covariances_rejected(w):
    f = w.pick('function', ['ecov_music_1d', 'ecov_coarray_music_1d'])
    lam, sigma, p = w.scalar('lam', pos=True), w.scalar('sigma', pos=True), w.scalar('p', pos=True)
    why = w.pick('reason', ['source kind', 'too many', 'perturbed'])
    a, m, I, d0 = CA.grid_array(w, ('grid',) if w.symbolic else ('grid', 'nested', 'ula'), True)
    k = w.dim('k')
    if why == 'source kind': src = Src(w, k, ('ff2 rad', 'ff2 deg', 'near'))
    else: src = Src(w, k, FF1 if not w.symbolic else ('ff1 rad',), interior=True)
    if why == 'too many':
        if f == 'ecov_music_1d': w.assume(k >= m)
        else:
            mv = w.call(w.attr(w.call(w.get(CA.M + 'WeightFunction1D'), a), 'get_central_ula_size'), True)
            w.assume(k >= mv)
            if w.symbolic: w.contract(CA.W + 'get_coarray_selection_matrix', lambda self, exclude_negative_part: w.mat((2 * mv - 1, m * m), lambda i, r: w.ufun('selection', (), i, r), 'real'))
    if why == 'perturbed':
        if f == 'ecov_music_1d': return
        pert = Pert(w, m, [w.pick('perturbation', ['gain', 'phase', 'mc', 'loc'])], [w.flag('known')], 1)
        a = w.call(w.attr(a, 'get_perturbed_copy'), pert.objs()) if w.flag('copy') else w.call(w.get(A + 'GridBasedArrayDesign'), w.call(w.attr(w.attr(a, 'element_indices'), 'copy')), d0, 'x', perturbations=pert.objs())
    w.raises('rejected', ValueError, lambda: w.call(w.get(MSE + f), a, src.obj, lam, p, sigma))

# --- C20 ---------------------------------------------------------------------------------------------------
@case('C20', UT + 'unify_p_to_matrix ' + UT + 'unify_p_to_vector')
def equivalent_powers(w):
    k = w.dim('k')
    p, P, q = powers(w, k)
    fr = w.frame(p=p)
    w.eq('as a matrix', w.call(w.get(UT + 'unify_p_to_matrix'), p, k), w.mat((k, k), P, 'complex'), tol=1e-12)
    w.eq('as a vector', w.call(w.get(UT + 'unify_p_to_vector'), p, k), w.mat((k,), lambda i: P(i, i), 'complex'), tol=1e-12)
    w.unchanged('the input is not modified', fr)

@case('C20', UT + 'unify_p_to_matrix ' + UT + 'unify_p_to_vector')
def powers_of_another_size(w):
    k, n, n2 = w.dim('k'), w.dim('n'), w.dim('n2')
    f = w.pick('form', ['vector', 'list', 'matrix', '3d', '0d'])
    if f in ('vector', 'list'):
        w.assume(w.not_(w.eq_(n, k)))
        p = w.arr('p', (n,), pos=True)
        if f == 'list': p = w.call(w.attr(p, 'tolist'))
    elif f == 'matrix':
        w.assume(w.or_(w.not_(w.eq_(n, k)), w.not_(w.eq_(n2, k))))
        p = w.arr('P', (n, n2), w.pick('sort', ['real', 'complex']))
    elif f == '3d':
        p = w.arr('P', (k, k, n))
    else: p = w.index(w.arr('P', (1, 1, k, k)), 0) if w.symbolic else w.np.array(2.0)
    u = w.pick('unify', ['unify_p_to_matrix', 'unify_p_to_vector'])
    w.raises('another length or shape', ValueError, lambda: w.call(w.get(UT + u), p, k))

@case('C20', UT + 'reduce_output_matrix')
def output_modes(w):
    k = w.dim('k')
    M = w.arr('M', (k, k))
    mode = w.pick('mode', ['full', 'diag', 'mean_diag', 'Full', 'diagonal', '', None])
    fr = w.frame(M=M)
    f = lambda: w.call(w.get(UT + 'reduce_output_matrix'), M, mode)
    if mode == 'full': w.eq('the matrix', f(), w.mat((k, k), lambda i, j: w.at(M, i, j), 'real'))
    elif mode == 'diag': w.eq('its diagonal', f(), w.mat((k,), lambda i: w.at(M, i, i), 'real'))
    elif mode == 'mean_diag': w.eq('the mean of its diagonal', f(), w.sum(k, lambda i: w.at(M, i, i)) / k)
    else: w.raises('any other mode', ValueError, f)
    w.unchanged('the matrix is not modified', fr)

BOUNDS = {'crb_sto_farfield_1d': CRB, 'crb_stouc_farfield_1d': CRB, 'crb_det_farfield_1d': CRB, 'ecov_music_1d': MSE, 'ecov_coarray_music_1d': MSE}

@case('C20', ' '.join(v + f for f, v in BOUNDS.items()))
def bounds_reject_powers_and_modes(w):
    """every performance function rejects powers of another size and unknown modes"""
    f = w.pick('function', list(BOUNDS))
    what = w.pick('wrong', ['powers', 'mode'])
    if f == 'ecov_coarray_music_1d':
        if w.symbolic and what == 'mode': return           # decided by the runs on the real code (see coarray_music_covariance)
        a, m, I, d0 = CA.grid_array(w, ('grid',) if w.symbolic else ('nested', 'ula'), True)
        k = w.dim('k')
    else:
        a, m = array(w)
        k = w.dim('k')
    w.assume(k <= m - 1)
    lam, sigma = w.scalar('lam', pos=True), w.scalar('sigma', pos=True)
    src = Src(w, k, FF1 if not w.symbolic else ('ff1 rad',), interior=True, spaced=True)
    if what == 'powers':
        if f == 'crb_det_farfield_1d' and not w.symbolic: return
        n = w.dim('n')
        w.assume(w.not_(w.eq_(n, k)))
        p = w.arr('p', (n,), pos=True) if f != 'crb_det_farfield_1d' and w.flag('vector') else w.arr('P', (n, n))
        mode = 'full'
        if f == 'crb_det_farfield_1d': return
    else:
        p = w.arr('P', (k, k), 'complex', hermitian=True)
        if not w.symbolic:
            p = p @ p.conj().T + w.np.eye(k)
            t = w.np.sort(src.rad(src.loc) if src.unit != 'sin' else w.np.arcsin(src.loc))
            w.assume(abs(t).max() < 1.35 and (k == 1 or w.np.diff(t).min() > 0.1))
        mode = w.pick('mode', ['FULL', 'mean', ''])
    w.raises('rejected', ValueError, lambda: w.call(w.get(BOUNDS[f] + f), a, src.obj, lam, p, sigma, return_mode=mode))

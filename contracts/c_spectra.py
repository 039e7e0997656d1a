"""C12, C13: spectrum-based estimators."""
from .reg import case
from .common import A, Pert, use_steering
from .c_grids import custom, refined_axis, NAMES, SRC, S
C = 'doatools.estimation.core.'
SB = C + 'SpectrumBasedEstimatorBase.'
BF = 'doatools.estimation.beamforming.'
MU = 'doatools.estimation.music.'
MN = 'doatools.estimation.min_norm.'
EST = {'bartlett': BF + 'BartlettBeamformer', 'mvdr': BF + 'MVDRBeamformer', 'music': MU + 'MUSIC', 'minnorm': MN + 'MinNorm'}

def array(w, full=False):
    """an array; its steering matrix is left opaque, except if full"""
    perts = w.pick('perturbations', [(), (('gain', True), ('phase', False)), (('mc', True), ('loc', True))]) if full or not w.symbolic else ()
    m, d = w.dim('m', 2), 2
    L = w.arr('L', (m, d))
    p = Pert(w, m, [k for k, _ in perts], [n for _, n in perts], d)
    a = w.call(w.get(A + 'ArrayDesign'), L, 'x', p.objs())
    if not full: use_steering(w, a)
    return a, m

def atoms(w, a, g, lam): return w.call(w.attr(a, 'steering_matrix'), w.attr(g, 'source_placement'), lam, perturbations='known')

def spectrum(w, method, R, m, k):
    """the published spectrum of a steering matrix X as an entry function"""
    quad = lambda Q: lambda X: lambda f: w.sum(m, lambda p: w.conj(w.at(X, p, f)) * w.sum(m, lambda q: w.at(Q, p, q) * w.at(X, q, f)))
    if method == 'bartlett': return lambda X: lambda f: w.re(quad(R)(X)(f))
    if method == 'mvdr':
        Q = w.lib('numpy.linalg.inv', R)
        return lambda X: lambda f: 1 / w.re(quad(Q)(X)(f))
    E = w.index(w.lib('numpy.linalg.eigh', R), 1)
    n = m - k
    if method == 'music':
        return lambda X: lambda f: 1 / w.sum(n, lambda j: w.abs2(w.sum(m, lambda p: w.conj(w.at(E, p, j)) * w.at(X, p, f))))
    c2 = w.sum(n, lambda j: w.abs2(w.at(E, 0, j)))
    d = lambda p: w.sum(n, lambda j: w.at(E, p, j) * w.conj(w.at(E, 0, j))) / c2
    return lambda X: lambda f: 1 / w.abs2(w.sum(m, lambda p: w.conj(d(p)) * w.at(X, p, f)))

def on_grid(w, ax, f):
    """entry function of the flat index -> array of the shape of the grid"""
    ns = tuple(n for n, _ in ax)
    if len(ns) == 1: return w.mat(ns, lambda i: f(i), 'real')
    return w.mat(ns, lambda i, j: f(i * ns[1] + j), 'real')

def estimator(w, method, *a, **kw): return w.call(w.get(EST[method]), *a, **kw)

FN = {'bartlett': BF + 'f_bartlett ' + BF + 'BartlettBeamformer.__init__ ' + BF + 'BartlettBeamformer.estimate', 'mvdr': BF + 'f_mvdr ' + BF + 'MVDRBeamformer.__init__ ' + BF + 'MVDRBeamformer.estimate',
      'music': MU + 'f_music ' + MU + 'MUSIC.__init__ ' + MU + 'MUSIC.estimate ' + C + 'get_noise_subspace', 'minnorm': MN + 'MinNorm.__init__ ' + MN + 'MinNorm.estimate ' + C + 'get_noise_subspace'}

def use_refinement(w):
    """calls of create_refined_axes_at are replaced by its contract (discharged for C11)"""
    if not w.symbolic: return
    def f(self, coord, density, span):
        out = []
        for j in range(len(w.attr(self, 'shape'))):
            x, n, c = w.index(w.attr(self, 'axes'), j), w.index(w.attr(self, 'shape'), j), w.index(coord, j)
            inside = lambda y, p: [y >= 0, p[2] - 1 - y >= 0]
            lo = w.ufun('below', (c, span, n), sort='int', ax=inside)
            up = w.ufun('above', (c, span, n), sort='int', ax=lambda y, p: inside(y, p) + [y >= p[0], y - p[0] >= 0])
            w.assume(up >= lo)
            a, b = w.at(x, lo), w.at(x, up)
            between = lambda y, p: [w.or_(y - p[0] >= 0, y - p[1] >= 0), w.or_(p[0] - y >= 0, p[1] - y >= 0)]
            out.append(w.mat(((up - lo) * density + 1,), lambda i: w.ufun('between', (a, b, up - lo, density), i, sort='real', ax=between), 'real'))
        return tuple(out)
    w.contract('doatools.estimation.grid.SearchGrid.create_refined_axes_at', f)

def spectrum_case(method):
    @case('C13', FN[method] + ' ' + SB + '_estimate', name='spectrum_' + method)
    def f(w):
        a, m = array(w, method == 'bartlett')
        g, kind, unit, ax = custom(w, ('ff1 deg', 'ff2 deg', 'nf m'), lo=2)
        lam = w.scalar('lam', pos=True)
        R = w.arr('R', (m, m), w.pick('sort', ['complex', 'real']), hermitian=True)
        k = w.int('k', 1)
        w.assume(k <= m - 1)
        e = estimator(w, method, a, lam, g)
        fr = w.frame(R=R, a=a, g=g)
        r = w.call(w.attr(e, 'estimate'), R, k, return_spectrum=True)
        w.eq('results', w.len(r), 3)
        w.eq('spectrum', w.index(r, 2), on_grid(w, ax, spectrum(w, method, R, m, k)(atoms(w, a, g, lam))))
        w.unchanged('inputs are not modified', fr)
    return f
for _m in EST: globals()['spectrum_' + _m] = spectrum_case(_m)

@case('C13', C + 'ensure_covariance_size ' + C + 'ensure_n_resolvable_sources')
def rejected(w):
    a, m = array(w)
    g, kind, unit, ax = custom(w, ('ff1 deg',), lo=2)
    method = w.pick('method', list(EST))
    e = estimator(w, method, a, w.scalar('lam', pos=True), g)
    what = w.pick('what', ['shape', 'rank', 'sources'])
    k = w.int('k', 1)
    if what == 'shape':
        p, q = w.dim('p'), w.dim('q')
        w.assume(w.or_(w.not_(w.eq_(p, m)), w.not_(w.eq_(q, m))))
        w.raises('covariance of the wrong shape', ValueError, lambda: w.call(w.attr(e, 'estimate'), w.arr('R', (p, q), 'complex'), k))
    elif what == 'rank':
        R = w.arr('R', (m,) if w.flag('vector') else (m, m, 2), 'complex')
        w.raises('covariance of the wrong rank', ValueError, lambda: w.call(w.attr(e, 'estimate'), R, k))
    else:
        if method in ('bartlett', 'mvdr'): return
        w.assume(k >= m)
        w.raises('too many sources', ValueError, lambda: w.call(w.attr(e, 'estimate'), w.arr('R', (m, m), 'complex', hermitian=True), k))

# --- C12 ---------------------------------------------------------------------------------------------------
def finder(w, ax):
    """an arbitrary peak finder: positions within the grid"""
    P = w.dim('P', 0, 6)
    pk = []
    for j, (n, _) in enumerate(ax): pk.append(w.arr('peak%d' % j, (P,), 'int', lo=0, hi=n - 1, closed=True))
    seen = []
    def f(sp):
        seen.append(sp)
        return tuple(pk)
    return f, P, pk, seen

@case('C12', SB + '__init__ ' + SB + '_estimate ' + SB + '_get_atom_matrix ' + SB + '_compute_atom_matrix')
def highest_peaks(w):
    a, m = array(w)
    g, kind, unit, ax = custom(w, ('ff1 deg', 'ff2 rad', 'nf m'), lo=1)
    lam = w.scalar('lam', pos=True)
    R = w.arr('R', (m, m), 'complex', hermitian=True)
    pf, P, pk, seen = finder(w, ax)
    k = w.int('k', 1, 4)
    kw = {} if w.flag('default caching') else dict(enable_caching=w.flag('caching'))
    e = estimator(w, 'bartlett', a, lam, g, peak_finder=pf, **kw)
    rs = w.flag('return_spectrum')
    fr = w.frame(g=g, a=a, R=R)
    r = w.call(w.attr(e, 'estimate'), R, k, **(dict(return_spectrum=True) if rs else {}))
    sp = on_grid(w, ax, spectrum(w, 'bartlett', R, m, k)(atoms(w, a, g, lam)))
    w.eq('results', w.len(r), 3 if rs else 2)
    w.eq('the peak finder sees the spectrum once', len(seen), 1)
    w.eq('the peak finder sees the spectrum', seen[0], sp)
    if rs: w.eq('spectrum', w.index(r, 2), sp)
    resolved = w.case(P >= k)
    w.eq('resolved', w.index(r, 0), resolved)
    est = w.index(r, 1)
    if not resolved: w.true('no estimates', est is None)
    else:
        n1 = ax[1][0] if len(ax) > 1 else 1
        flat = w.mat((P,), lambda i: w.at(pk[0], i) * n1 + (w.at(pk[1], i) if len(ax) > 1 else 0), 'int')
        val = w.mat((P,), lambda i: w.at(sp, *[w.at(x, i) for x in pk]), 'real')
        w.distinct_values(val)
        o = w.lib('numpy.argsort', val)
        top = w.lib('numpy.sort', w.mat((k,), lambda i: w.at(flat, w.at(o, P - k + i)), 'int'))
        loc = w.attr(w.attr(g, 'source_placement'), 'locations')
        w.true('kind', w.isinstance(est, w.get(S + SRC[kind])))
        w.eq('number of estimates', w.attr(est, 'size'), k)
        w.eq('units', w.attr(est, 'units'), (unit,) * len(ax))
        w.eq('estimates', w.attr(est, 'locations'), w.mat((k,), lambda i: w.at(loc, w.at(top, i)), 'real') if len(ax) == 1 else w.mat((k, 2), lambda i, c: w.at(loc, w.at(top, i), c), 'real'))
    w.unchanged('inputs are not modified', fr)

@case('C12', SB + '_get_atom_matrix ' + SB + '_estimate')
def calls_are_independent(w):
    """a second call gives what a fresh estimator gives, with and without caching, refinement included"""
    a, m = array(w)
    g, kind, unit, ax = custom(w, ('ff1 deg', 'ff2 deg'), lo=2, inner=True)
    lam = w.scalar('lam', pos=True)
    R1, R2 = w.arr('R1', (m, m), 'complex', hermitian=True), w.arr('R2', (m, m), 'complex', hermitian=True)
    pf, P, pk, seen = finder(w, ax)
    use_refinement(w)
    w.assume(P >= 1)
    e = estimator(w, 'bartlett', a, lam, g, peak_finder=pf, enable_caching=w.flag('caching'))
    w.call(w.attr(e, 'estimate'), R1, 1, refine_estimates=kind == 'ff1' and w.flag('refined before'), refinement_iters=1, refinement_density=2)
    r = w.call(w.attr(e, 'estimate'), R2, 1, return_spectrum=True)
    q = w.call(w.attr(estimator(w, 'bartlett', a, lam, g, peak_finder=pf), 'estimate'), R2, 1, return_spectrum=True)
    w.eq('spectrum', w.index(r, 2), w.index(q, 2))
    w.eq('spectrum of the search grid', w.index(r, 2), on_grid(w, ax, spectrum(w, 'bartlett', R2, m, 1)(atoms(w, a, g, lam))))
    w.eq('estimates', w.attr(w.index(r, 1), 'locations'), w.attr(w.index(q, 1), 'locations'))

@case('C12', SB + '_refine_estimates ' + SB + '_estimate', sym='shapes', why='number of estimates and refinement iterations up to two', shapes='symbolic')
def refinement(w):
    """each estimate moves to a maximiser of the spectrum over grids refined around it; the grid itself stays"""
    a, m = array(w)
    g, kind, unit, ax = custom(w, ('ff1 deg', 'ff2 deg', 'nf m'), lo=2, inner=True)
    lam = w.scalar('lam', pos=True)
    R = w.arr('R', (m, m), 'complex', hermitian=True)
    pf, P, pk, seen = finder(w, ax)
    use_refinement(w)
    k, it, de = w.pick('setting', [(1, 1, 3), (1, 2, 3)] + ([(2, 1, 'default'), (1, 'default', 'default')] if kind == 'ff1' else []) + ([] if w.symbolic else [(2, 2, 3), (3, 2, 'default')]))
    w.assume(P >= k)
    kw = dict(([] if it == 'default' else [('refinement_iters', it)]) + ([] if de == 'default' else [('refinement_density', de)]))
    if it == 'default': it = 3
    if de == 'default': de = 10
    e = estimator(w, 'bartlett', a, lam, g, peak_finder=pf)
    fr = w.frame(g=g)
    r0 = w.call(w.attr(e, 'estimate'), R, k, return_spectrum=True)
    r = w.call(w.attr(e, 'estimate'), R, k, return_spectrum=True, refine_estimates=True, **kw)
    w.unchanged('the search grid is not touched', fr)
    w.eq('resolved', w.index(r, 0), True)
    w.eq('spectrum', w.index(r, 2), w.index(r0, 2))
    est = w.index(r, 1)
    w.eq('number of estimates', w.attr(est, 'size'), k)
    w.eq('units', w.attr(est, 'units'), (unit,) * len(ax))
    # positions of the unrefined estimates
    n1 = ax[1][0] if len(ax) > 1 else 1
    flat = w.mat((P,), lambda i: w.at(pk[0], i) * n1 + (w.at(pk[1], i) if len(ax) > 1 else 0), 'int')
    sp = w.index(r0, 2)
    val = w.mat((P,), lambda i: w.at(sp, *[w.at(x, i) for x in pk]), 'real')
    w.distinct_values(val)
    o = w.lib('numpy.argsort', val)
    top = w.lib('numpy.sort', w.mat((k,), lambda i: w.at(flat, w.at(o, P - k + i)), 'int'))
    for i in range(k):
        f = w.at(top, i)
        sub = w.call(w.attr(g, 'create_refined_grid_at'), (f,) if len(ax) == 1 else (f // n1, f % n1), density=de)
        for t in range(it):
            n = w.attr(sub, 'size')
            s = w.mat((n,), spectrum(w, 'bartlett', R, m, k)(atoms(w, a, sub, lam)), 'real')
            w.distinct_values(s, True)
            b = w.lib('numpy.argmax', s)
            sn = w.attr(sub, 'shape')
            loc = w.attr(w.attr(sub, 'source_placement'), 'locations')
            if t < it - 1: sub = w.call(w.attr(sub, 'create_refined_grid_at'), (b,) if len(ax) == 1 else (b // w.index(sn, 1), b % w.index(sn, 1)), density=de)
        if len(ax) == 1: w.eq('refined estimate', w.at(w.attr(est, 'locations'), i), w.at(loc, b))
        else:
            for c in range(2): w.eq('refined estimate', w.at(w.attr(est, 'locations'), i, c), w.at(loc, b, c))

@case('C12', C + 'find_peaks_simple')
def default_peaks_1d(w):
    a, m = array(w)
    g, kind, unit, ax = custom(w, ('ff1 sin',), lo=1)
    lam = w.scalar('lam', pos=True)
    R = w.arr('R', (m, m), 'complex', hermitian=True)
    e = estimator(w, 'bartlett', a, lam, g)
    r = w.call(w.attr(e, 'estimate'), R, 1, return_spectrum=True)
    sp = w.index(r, 2)
    p = w.index(w.lib('scipy.signal.find_peaks', sp), 0)
    x = w.call(w.get(C + 'find_peaks_simple'), sp)
    w.eq('one axis', w.len(x), 1)
    w.eq('peaks', w.index(x, 0), p)
    w.eq('resolved', w.index(r, 0), w.case(w.len(p) >= 1))
    if not w.symbolic:
        n = ax[0][0]
        strict = [i for i in range(1, n - 1) if sp[i - 1] < sp[i] > sp[i + 1]]
        w.true('strict maxima are peaks', set(strict) <= set(int(i) for i in x[0]))

@case('C12', C + 'find_peaks_simple')
def default_peaks_2d(w):
    n0, n1 = w.dim('n0'), w.dim('n1')
    x = w.arr('x', (n0, n1))
    fr = w.frame(x=x)
    p = w.call(w.get(C + 'find_peaks_simple'), x)
    y = w.lib('scipy.ndimage.maximum_filter', x, 3)
    q = w.lib('numpy.where', x == y)
    w.eq('two axes', w.len(p), 2)
    for c in range(2): w.eq('positions', w.index(p, c), w.index(q, c))
    w.unchanged('input', fr)
    if not w.symbolic:
        ok = [(i, j) for i in range(n0) for j in range(n1) if all(x[i, j] >= x[u, v] for u in range(max(0, i - 1), min(n0, i + 2)) for v in range(max(0, j - 1), min(n1, j + 2)))]
        w.eq('maxima over the eight neighbours', [list(map(int, t)) for t in zip(*p)], [list(t) for t in ok])

"""C23: signal generators and snapshots."""
from .reg import case
from .common import A, Pert, Src, use_steering
SG = 'doatools.model.signals.'
SN = 'doatools.model.snapshots.get_narrowband_snapshots'
RC = 'doatools.utils.math.randcn'

def normals(w, n0, shape):
    """the circular white samples made of the two real draws since n0 in either order"""
    d = w.draws()[n0:]
    w.eq('number of draws', len(d), 2)
    w.true('standard normal draws', all(k == 'randn' for k, *_ in d))
    for _, x, _ in d: w.eq('shape of the draw', w.shape(x), shape)
    u, v = d[0][1], d[1][1]
    return [w.mat(shape, lambda *i: (w.at(x, *i) + w.j * w.at(y, *i)) * w.sqrt(0.5), 'complex') for x, y in ((u, v), (v, u))]

@case('C23', RC)
def circular_samples(w):
    r = w.pick('rank', [1, 2, 3])
    sh = tuple(w.dim('n%d' % i) for i in range(r))
    n0 = len(w.draws())
    x = w.call(w.get(RC), sh)
    a, b = normals(w, n0, sh)
    w.eq('half a unit variance in either part', x, a if w.agrees(x, a) else b)

def linear(w, k, n, x, samples, C2, C):
    """x = M w where M M^H is the covariance"""
    if w.symbolic:
        ys = [w.mat((k, n), lambda i, t: C2(i, lambda j: w.at(s, j, t)), 'complex') for s in samples]
        w.eq('samples', x, ys[0] if w.agrees(x, ys[0]) else ys[1])
        return
    ok = False
    for s in samples:
        M = x @ w.np.linalg.pinv(s)
        if w.np.allclose(M @ s, x) and w.np.allclose(M @ M.conj().T, C, rtol=1e-6, atol=1e-8 * (1 + abs(C).max())): ok = True
    w.true('samples', ok)

@case('C23', SG + 'ComplexStochasticSignal.__init__ ' + SG + 'ComplexStochasticSignal.emit ' + SG + 'ComplexStochasticSignal.dim ' + RC)
def stochastic_signal(w):
    k, n = w.dim('k'), w.dim('n')
    w.assume(n >= 2 * k)
    f = w.pick('covariance', ['default', 'scalar', 'numpy scalar', 'vector', 'matrix'])
    dl = lambda i, j: w.ind(w.eq_(i, j))
    args = ()
    if f == 'default': c, C2 = (lambda i, j: dl(i, j)), (lambda i, s: s(i))
    elif f in ('scalar', 'numpy scalar'):
        p = w.scalar('p', pos=True, np=f == 'numpy scalar')
        c, C2, args = (lambda i, j: p * dl(i, j)), (lambda i, s: w.sqrt(p) * s(i)), (p,)
    elif f == 'vector':
        p = w.arr('p', (k,), pos=True)
        c, C2, args = (lambda i, j: w.at(p, i) * dl(i, j)), (lambda i, s: w.sqrt(w.at(p, i)) * s(i)), (p,)
    else:
        p = w.arr('P', (k, k), w.pick('sort', ['complex', 'real']), hermitian=True)
        args = (p,)
        if w.symbolic:
            Q = w.lib('scipy.linalg.sqrtm', p)
            C2 = lambda i, s: w.sum(k, lambda j: w.at(Q, i, j) * s(j))
        else: C2 = None
        c = lambda i, j: w.at(p, i, j)
    fr = w.frame(p=args)
    g = w.call(w.get(SG + 'ComplexStochasticSignal'), k, *args)
    w.eq('dimension', w.attr(g, 'dim'), k)
    if w.flag('emitted before'): w.call(w.attr(g, 'emit'), w.dim('n1'))
    n0 = len(w.draws())
    x = w.call(w.attr(g, 'emit'), n)
    w.eq('shape', w.shape(x), (k, n))
    linear(w, k, n, x, normals(w, n0, (k, n)), C2, None if w.symbolic else w.mat((k, k), c, 'complex'))
    w.unchanged('inputs are not modified', fr)

@case('C23', SG + 'RandomPhaseSignal.__init__ ' + SG + 'RandomPhaseSignal.emit ' + SG + 'RandomPhaseSignal.dim')
def random_phases(w):
    k, n = w.dim('k'), w.dim('n')
    f = w.pick('amplitudes', ['default', 'scalar', 'vector', 'integers', 'column'])
    args, a = (), lambda i: 1
    if f == 'scalar':
        p = w.scalar('a', pos=True)
        args, a = (p,), lambda i: p
    elif f != 'default':
        sh = (k, 1) if f == 'column' else (k,)
        p = w.arr('a', sh, lo=1, hi=9, sort='int' if f == 'integers' else 'real')
        args, a = (p,), (lambda i: w.at(p, i, 0)) if f == 'column' else lambda i: w.at(p, i)
    fr = w.frame(p=args)
    g = w.call(w.get(SG + 'RandomPhaseSignal'), k, *args)
    w.eq('dimension', w.attr(g, 'dim'), k)
    if w.flag('emitted before'): w.call(w.attr(g, 'emit'), w.dim('n1'))
    n0 = len(w.draws())
    x = w.call(w.attr(g, 'emit'), n)
    d = w.draws()[n0:]
    w.eq('number of draws', len(d), 1)
    kind, ph, iv = d[0]
    w.true('uniform draw', kind == 'uniform')
    w.eq('shape of the draw', w.shape(ph), (k, n))
    lo, hi = iv
    unit = w.case(w.eq_(hi - lo, 1))       # phases made from draws of [0, 1)
    if unit:
        ys = [w.mat((k, n), lambda i, t: o * a(i) * w.exp(2 * w.j * w.pi * w.at(ph, i, t)), 'complex') for o in (1, -1)]
        w.eq('samples', x, ys[0] if w.agrees(x, ys[0]) else ys[1])
    else:
        w.eq('a full turn', hi - lo, 2 * w.pi)
        w.eq('samples', x, w.mat((k, n), lambda i, t: a(i) * w.exp(w.j * w.at(ph, i, t)), 'complex'))
    w.unchanged('inputs are not modified', fr)

@case('C23', SG + 'ComplexStochasticSignal.__init__ ' + SG + 'RandomPhaseSignal.__init__')
def wrong_sizes(w):
    k, n, n2 = w.dim('k'), w.dim('n'), w.dim('n2')
    f = w.pick('wrong', ['vector', 'matrix', '3d', 'amplitudes'])
    if f in ('vector', 'amplitudes'):
        w.assume(w.not_(w.eq_(n, k)))
        p = w.arr('p', (n,), pos=True)
    elif f == 'matrix':
        w.assume(w.or_(w.not_(w.eq_(n, k)), w.not_(w.eq_(n2, k))))
        p = w.arr('P', (n, n2), 'complex')
    else: p = w.arr('P', (k, k, n), 'complex')
    w.raises('rejected', ValueError, lambda: w.call(w.get(SG + ('RandomPhaseSignal' if f == 'amplitudes' else 'ComplexStochasticSignal')), k, p))

class Emitter:
    def __init__(self, x, dim): self.x, self.dim, self.asked = x, dim, []
    def emit(self, n):
        self.asked.append(n)
        return self.x
    def _model_getattr(self, k, default=None): return getattr(self, k)

@case('C23', SN)
def snapshots(w):
    m, k = w.dim('m'), w.dim('k')
    L = w.arr('L', (m, 2))
    perts = w.pick('perturbations', [(), (('gain', True), ('phase', False)), (('loc', False),), (('mc', True), ('loc', True))]) if not w.symbolic else ()
    p = Pert(w, m, [a for a, _ in perts], [b for _, b in perts], 2)
    a = w.call(w.get(A + 'ArrayDesign'), L, 'x', p.objs())
    use_steering(w, a)
    src = Src(w, k, ('ff1 rad', 'ff2 deg', 'near') if not w.symbolic else ('ff1 rad', 'near'))
    lam = w.scalar('lam', pos=True)
    one = w.flag('one snapshot')
    n = 1 if one else w.dim('n')
    S = Emitter(w.arr('S', (k, n), w.pick('sort', ['complex', 'real'])), k)
    noise = Emitter(w.arr('E', (m, n), 'complex'), m) if w.flag('noise') else None
    cov = w.pick('return covariance', [None, False, True])
    fr = w.frame(a=a, s=src.obj, S=S.x, E=noise.x if noise else None)
    kw = {}
    if noise: kw['noise_signal'] = noise
    if not one or w.flag('pass n'): kw['n_snapshots'] = n
    if cov is not None: kw['return_covariance'] = cov
    r = w.call(w.get(SN), a, src.obj, lam, S, **kw)
    X = w.call(w.attr(a, 'steering_matrix'), src.obj, lam, False, 'all')
    Y = w.mat((m, n), lambda i, t: w.sum(k, lambda c: w.at(X, i, c) * w.at(S.x, c, t)) + (w.at(noise.x, i, t) if noise else 0), 'complex')
    w.eq('samples asked for', S.asked, [n])
    if noise: w.eq('noise samples asked for', noise.asked, [n])
    if cov:
        w.eq('results', w.len(r), 2)
        w.eq('sample covariance', w.index(r, 1), w.mat((m, m), lambda i, j: w.sum(n, lambda t: w.at(Y, i, t) * w.conj(w.at(Y, j, t))) / n, 'complex'))
        r = w.index(r, 0)
    w.eq('snapshots', r, Y)
    w.unchanged('inputs are not modified', fr)

"""C01: array designs."""
from .reg import case
A = 'doatools.model.arrays.'
P = 'doatools.model.perturbations.'

def options(w, m):
    """keyword options common to all designs, and the check that they took effect"""
    kw = {}
    k = w.pick('options', ['none', 'name', 'perturbations', 'element'])
    if k == 'name': kw['name'] = 'my name'
    if k == 'perturbations':
        g = w.arr('gain', (m,))
        kw['perturbations'] = w.list(w.call(w.get(P + 'GainErrors'), g, True))
    if k == 'element':
        kw['element'] = w.call(w.get('doatools.model.array_elements.CustomNonisotropicSensor'), lambda r, az, el, p: r)
    def check(a):
        if k == 'name': w.eq('name', w.attr(a, 'name'), 'my name')
        w.eq('number of perturbations', w.len(w.attr(a, 'perturbations')), 1 if k == 'perturbations' else 0)
        if k == 'perturbations':
            w.eq('perturbation attached', w.call(w.attr(a, 'has_perturbation'), w.get(P + 'GainErrors')), True)
            w.eq('perturbation parameters', w.call(w.attr(a, 'get_perturbation_params'), w.get(P + 'GainErrors')), g)
            w.eq('perturbation known', w.call(w.attr(a, 'is_perturbation_known'), w.get(P + 'GainErrors')), True)
        w.is_('element', w.attr(a, 'element'), kw['element'] if k == 'element' else w.get('doatools.model.array_elements.ISOTROPIC_SCALAR_SENSOR'))
    return kw, check

def linear(w, a, n, idx, d0, check):
    w.eq('size', w.attr(a, 'size'), n)
    w.eq('ndim', w.attr(a, 'ndim'), 1)
    w.eq('indices', w.attr(a, 'element_indices'), w.mat((n, 1), lambda i, z: idx(i)))
    w.eq('locations', w.attr(a, 'element_locations'), w.mat((n, 1), lambda i, z: idx(i) * d0))
    w.eq('bases', w.attr(a, 'bases'), w.mat((1, 1), lambda i, z: d0))
    w.eq('d0', w.attr(a, 'd0'), w.mat((1,), lambda i: d0))
    check(a)

@case('C01', A + 'UniformLinearArray.__init__ ' + A + 'GridBasedArrayDesign.__init__ ' + A + 'ArrayDesign.__init__')
def ula(w):
    n, d0 = w.dim('n'), w.scalar('d0', pos=True)
    kw, check = options(w, n)
    linear(w, w.call(w.get(A + 'UniformLinearArray'), n, d0, **kw), n, lambda i: i, d0, check)

@case('C01', A + 'NestedArray.__init__ ' + A + 'NestedArray.n1 ' + A + 'NestedArray.n2')
def nested(w):
    n1, n2, d0 = w.dim('n1'), w.dim('n2'), w.scalar('d0', pos=True)
    kw, check = options(w, n1 + n2)
    a = w.call(w.get(A + 'NestedArray'), n1, n2, d0, **kw)
    linear(w, a, n1 + n2, lambda i: w.ite(i < n1, i, (i - n1 + 1) * (n1 + 1) - 1), d0, check)
    w.eq('n1', w.attr(a, 'n1'), n1)
    w.eq('n2', w.attr(a, 'n2'), n2)

@case('C01', A + 'CoPrimeArray.__init__ ' + A + 'CoPrimeArray.coprime_pair ' + A + 'CoPrimeArray.mode')
def coprime(w):
    m, n, d0 = w.dim('m'), w.dim('n'), w.scalar('d0', pos=True)
    mode = w.pick('mode', ['2m', 'm', '2M', 'M'])
    if w.case(m <= n): p, q = m, n
    else: p, q = n, m
    k = 2 * p if mode in ('2m', '2M') else p
    kw, check = options(w, q + k - 1)
    if w.case(w.eq_(w.gcd(m, n), 1)):
        a = w.call(w.get(A + 'CoPrimeArray'), m, n, d0, mode, **kw)
        linear(w, a, q + k - 1, lambda i: w.ite(i < q, i * p, (i - q + 1) * q), d0, check)
        w.eq('pair', w.attr(a, 'coprime_pair'), (p, q))
        w.eq('mode', w.attr(a, 'mode'), mode.lower())
    else:
        w.raises('not co-prime', ValueError, lambda: w.call(w.get(A + 'CoPrimeArray'), m, n, d0, mode, **kw))

@case('C01', A + 'CoPrimeArray.__init__')
def coprime_default_mode(w):
    m, n, d0 = w.dim('m'), w.dim('n'), w.scalar('d0', pos=True)
    w.assume(m <= n)
    w.assume(w.eq_(w.gcd(m, n), 1))
    a = w.call(w.get(A + 'CoPrimeArray'), m, n, d0)
    linear(w, a, n + 2 * m - 1, lambda i: w.ite(i < n, i * m, (i - n + 1) * n), d0, lambda a: None)
    w.raises('unknown mode', ValueError, lambda: w.call(w.get(A + 'CoPrimeArray'), m, n, d0, w.pick('bad', ['x', 'mm', '', '3m'])))

APERTURE = [0, 1, 3, 6, 9, 13, 17, 23, 29, 35, 41, 49, 57, 65, 73, 83, 93, 103, 113, 125]

@case('C01', A + 'MinimumRedundancyLinearArray.__init__')
def mrla(w):
    n = w.pick('n', list(range(-1, 23)))
    d0 = w.scalar('d0', pos=True)
    f = w.get(A + 'MinimumRedundancyLinearArray')
    if n < 1 or n > 20:
        w.raises('unsupported size', ValueError, lambda: w.call(f, n, d0))
        return
    kw, check = options(w, n) if n in (3, 20) else ({}, lambda a: None)
    a = w.call(f, n, d0, **kw)
    ix = w.attr(a, 'element_indices')
    v = [w.at(ix, i, 0) for i in range(n)]
    w.eq('number of elements', w.shape(ix), (n, 1))
    w.eq('first element', v[0], 0)
    ds = set()
    for x in v:
        for y in v: ds.add(int(x - y))
    w.true('distinct elements', len(set(int(x) for x in v)) == n)
    w.true('hole-free difference set', all(d in ds for d in range(0, max(ds) + 1)))
    w.eq('tabulated aperture', max(ds), APERTURE[n - 1])
    linear(w, a, n, lambda i: w.at(ix, i, 0), d0, check)

@case('C01', A + 'UniformCircularArray.__init__ ' + A + 'UniformCircularArray.radius')
def uca(w):
    n, r = w.dim('n'), w.scalar('r', pos=True)
    kw, check = options(w, n)
    a = w.call(w.get(A + 'UniformCircularArray'), n, r, **kw)
    w.eq('size', w.attr(a, 'size'), n)
    w.eq('locations', w.attr(a, 'element_locations'), w.mat((n, 2), lambda i, c: w.ite(c < 1, r * w.cos(2 * w.pi * i / n), r * w.sin(2 * w.pi * i / n))))
    w.eq('radius', w.attr(a, 'radius'), r)
    check(a)

@case('C01', A + 'UniformRectangularArray.__init__ ' + A + 'UniformRectangularArray.shape')
def ura(w):
    m, n = w.dim('m'), w.dim('n')
    dx = w.scalar('dx', pos=True)
    kw, check = options(w, m * n)
    if w.flag('scalar d0'): dy, d0 = dx, dx
    else:
        dy = w.scalar('dy', pos=True)
        d0 = w.pick('container', [lambda: w.list(dx, dy), lambda: (dx, dy)])()
    a = w.call(w.get(A + 'UniformRectangularArray'), m, n, d0, **kw)
    w.eq('size', w.attr(a, 'size'), m * n)
    w.eq('indices', w.attr(a, 'element_indices'), w.mat((m * n, 2), lambda i, c: w.ite(c < 1, i // n, i % n)))
    w.eq('locations', w.attr(a, 'element_locations'), w.mat((m * n, 2), lambda i, c: w.ite(c < 1, (i // n) * dx, (i % n) * dy)))
    w.eq('shape', w.attr(a, 'shape'), (m, n))
    w.eq('bases', w.attr(a, 'bases'), w.mat((2, 2), lambda i, c: w.ite(w.eq_(i, c), w.ite(i < 1, dx, dy), 0 * dx)))
    check(a)

@case('C01', A + 'GridBasedArrayDesign.__init__ ' + A + 'GridBasedArrayDesign.d0 ' + A + 'GridBasedArrayDesign.bases')
def grid_spacings(w):
    m, k = w.dim('m'), w.dim('k', 1, 4)
    k = w.pick('k', [1, 2, 3])
    I = w.arr('I', (m, k), 'int')
    d = [w.scalar('d%d' % i, pos=True) for i in range(k)]
    form = w.pick('form', ['scalar', 'list', 'array'])
    if form == 'scalar': d, d0 = [d[0]] * k, d[0]
    elif form == 'list': d0 = w.list(*d)
    else: d0 = w.mat((k,), lambda i: w.at(d, i))
    kw, check = options(w, m)
    fr = w.frame(I=I, d0=d0)
    a = w.call(w.get(A + 'GridBasedArrayDesign'), I, d0, **kw)
    w.eq('ndim', w.attr(a, 'ndim'), k)
    w.eq('size', w.attr(a, 'size'), m)
    w.eq('locations', w.attr(a, 'element_locations'), w.mat((m, k), lambda i, c: w.at(I, i, c) * w.at(d, c)))
    w.eq('indices', w.attr(a, 'element_indices'), I)
    w.eq('d0', w.attr(a, 'd0'), w.mat((k,), lambda i: w.at(d, i)))
    w.unchanged('inputs are not modified', fr)
    check(a)

@case('C01', A + 'GridBasedArrayDesign.__init__')
def grid_bases(w):
    m = w.dim('m')
    k, d = w.dim('k', 1, 3), w.pick('d', [1, 2, 3])
    I, B = w.arr('I', (m, k), 'int'), w.arr('B', (k, d))
    kw, check = options(w, m)
    fr = w.frame(I=I, B=B)
    a = w.call(w.get(A + 'GridBasedArrayDesign'), I, bases=B, **kw)
    w.eq('ndim', w.attr(a, 'ndim'), d)
    w.eq('locations are indices times bases', w.attr(a, 'element_locations'), w.mat((m, d), lambda i, c: w.sum(k, lambda r: w.at(I, i, r) * w.at(B, r, c))))
    w.eq('indices', w.attr(a, 'element_indices'), I)
    w.eq('bases', w.attr(a, 'bases'), B)
    w.eq('d0 is the length of each basis vector', w.attr(a, 'd0'), w.mat((k,), lambda i: w.sqrt(w.sum(d, lambda c: w.at(B, i, c) * w.at(B, i, c)))))
    w.unchanged('inputs are not modified', fr)
    check(a)

@case('C01', A + 'GridBasedArrayDesign.__init__ ' + A + 'ArrayDesign.__init__')
def rejected(w):
    m, k = w.dim('m'), w.dim('k', 1, 3)
    G, D = w.get(A + 'GridBasedArrayDesign'), w.get(A + 'ArrayDesign')
    what = w.pick('what', ['bases rows', 'too many d0', 'd0 matrix', 'too few d0', '3D locations', '4 columns', '5 columns'])
    I = w.arr('I', (m, k), 'int')
    if what == 'bases rows':
        r = w.dim('r', 1, 3)
        w.assume(w.not_(w.eq_(r, k)))
        B = w.arr('B', (r, w.pick('d', [1, 2, 3])))
        w.raises('bases do not fit', ValueError, lambda: w.call(G, I, bases=B))
    elif what == 'too many d0':
        e = w.dim('e', 1, 5)
        w.assume(e > k)
        w.raises('too many spacings', ValueError, lambda: w.call(G, I, w.arr('d0', (e,), pos=True)))
    elif what == 'too few d0':
        e = w.dim('e', 1, 5)
        w.assume(e < k)
        w.raises('too few spacings', ValueError, lambda: w.call(G, I, w.arr('d0', (e,), pos=True)))
    elif what == 'd0 matrix':
        w.raises('spacing matrix', ValueError, lambda: w.call(G, I, w.arr('d0', (1, 1), pos=True)))
    elif what == '3D locations':
        w.raises('location tensor', ValueError, lambda: w.call(D, w.arr('L', (m, k, 2)), 'x'))
    else:
        L = w.arr('L', (m, int(what[0])))
        w.raises('more than three coordinates', ValueError, lambda: w.call(D, L, 'x'))

@case('C01', A + 'ArrayDesign.__init__ ' + A + 'ArrayDesign.element_locations ' + A + 'ArrayDesign.name')
def general(w):
    m, d = w.dim('m'), w.pick('d', [0, 1, 2, 3])
    L = w.arr('L', (m, d) if d else (m,))
    fr = w.frame(L=L)
    kw, check = options(w, m)
    kw['name'] = 'N'
    a = w.call(w.get(A + 'ArrayDesign'), L, **kw)
    w.eq('locations', w.attr(a, 'element_locations'), L if d else w.mat((m, 1), lambda i, z: w.at(L, i)))
    w.eq('size', w.attr(a, 'size'), m)
    w.eq('ndim', w.attr(a, 'ndim'), d or 1)
    w.eq('name', w.attr(a, 'name'), 'N')
    w.unchanged('locations are not modified', fr)
    w.eq('element count', w.len(w.attr(a, 'perturbations')), 1 if 'perturbations' in kw else 0)

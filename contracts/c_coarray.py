"""C08, C09: difference coarray, coarray augmentation."""
from .reg import case
from .common import A
M = 'doatools.model.coarray.'
E = 'doatools.estimation.coarray.'
W = M + 'WeightFunction1D.'

def grid_array(w, kinds=('grid', 'ula', 'mrla'), distinct=False, large=5):
    """a 1D grid-based array: object, number of elements, indices as integers"""
    kind = w.pick('array', list(kinds) + ([] if w.symbolic or distinct else ['mrla']))
    d0 = w.scalar('d0', pos=True)
    if kind == 'grid':
        m = w.dim('m')
        I = w.arr('I', (m, 1), 'int', injective=distinct)
        return w.call(w.get(A + 'GridBasedArrayDesign'), I, d0), m, lambda i: w.at(I, i, 0), d0
    if kind == 'nested':
        a, b = w.dim('n1'), w.dim('n2')
        return w.call(w.get(A + 'NestedArray'), a, b, d0), a + b, lambda i: w.ite(i < a, i, (i - a + 1) * (a + 1) - 1), d0
    if kind == 'ula':
        n = w.dim('n')
        return w.call(w.get(A + 'UniformLinearArray'), n, d0), n, lambda i: i, d0
    if kind == 'mrla':
        if not w.symbolic:
            a = w.call(w.get(A + 'MinimumRedundancyLinearArray'), w.int('n', 1, large), d0)
            return a, a.size, lambda i: int(a.element_indices[i, 0]), d0
        n = w.pick('n', [1, 3])
        t = [0, 1, 3]
        return w.call(w.get(A + 'MinimumRedundancyLinearArray'), n, d0), n, lambda i: w.at(t, i), d0
    a, b = w.dim('m'), w.dim('n')
    w.assume(a <= b)
    w.assume(w.eq_(w.gcd(a, b), 1))
    return w.call(w.get(A + 'CoPrimeArray'), a, b, d0, 'm'), a + b - 1, lambda i: w.ite(i < b, i * a, (i - b + 1) * b), d0

@case('C08', M + 'compute_location_differences')
def location_differences(w):
    m, d = w.dim('m'), w.dim('d', 1, 4)
    L = w.arr('L', (m, d), w.pick('sort', ['real', 'int']))
    fr = w.frame(L=L)
    D = w.call(w.get(M + 'compute_location_differences'), L)
    w.eq('row i + j*m is location i minus location j', D, w.mat((m * m, d), lambda r, c: w.at(L, r % m, c) - w.at(L, r // m, c)))
    w.unchanged('locations are not modified', fr)

def diff(m, I): return lambda r: I(r % m) - I(r // m)

@case('C08 C09', W + '__init__ ' + W + '_build_map ' + W + 'weight_of ' + W + '__call__ ' + W + 'indices_of')
def weights_of_a_difference(w):
    a, m, I, d0 = grid_array(w)
    f = w.call(w.get(M + 'WeightFunction1D'), a)
    d = w.int('difference')
    D = diff(m, I)
    n = w.sum(m * m, lambda r: w.ind(w.eq_(D(r), d)))
    w.eq('weight', w.call(w.attr(f, 'weight_of'), d), n)
    w.eq('call', w.call(f, d), n)
    ix = w.call(w.attr(f, 'indices_of'), d)
    w.eq('number of indices', w.len(ix), n)
    w.eq('indices', ix, w.positions(m * m, lambda r: w.eq_(D(r), d)))

@case('C08', W + 'differences ' + W + 'weights ' + W + '__len__')
def all_differences(w):
    a, m, I, d0 = grid_array(w, ('grid', 'nested', 'coprime', 'ula', 'mrla'))
    f = w.call(w.get(M + 'WeightFunction1D'), a)
    D = diff(m, I)
    ds = w.call(w.attr(f, 'differences'))
    w.eq('distinct differences in ascending order', ds, w.distinct(m * m, D))
    w.eq('length', w.len(f), w.len(ds))
    w.eq('weights', w.call(w.attr(f, 'weights')), w.mat((w.len(ds),), lambda i: w.sum(m * m, lambda r: w.ind(w.eq_(D(r), w.at(ds, i))))))

def is_central(w, m, I, mv):
    """mv is the first non-negative integer that is not a difference"""
    D = diff(m, I)
    return w.and_(w.forall(mv, lambda d: w.exists(m * m, lambda r: w.eq_(D(r), d))), w.not_(w.exists(m * m, lambda r: w.eq_(D(r), mv))))

@case('C08 C09', W + 'get_central_ula_size')
def central_size(w):
    a, m, I, d0 = grid_array(w, large=20)
    f = w.call(w.get(M + 'WeightFunction1D'), a)
    first = w.flag('full size first')
    if first: full = w.call(w.attr(f, 'get_central_ula_size'))
    mv = w.call(w.attr(f, 'get_central_ula_size'), True)
    w.true('at least one', mv >= 1)
    D = diff(m, I)
    w.all('every smaller lag is a difference', (mv,), lambda d: w.exists(m * m, lambda r: w.eq_(D(r), d)))
    w.true('the first missing one', w.not_(w.exists(m * m, lambda r: w.eq_(D(r), mv))))
    if not first: full = w.call(w.attr(f, 'get_central_ula_size'))
    w.eq('full size', full, 2 * mv - 1)
    w.eq('asked again', w.call(w.attr(f, 'get_central_ula_size'), exclude_negative_part=True), mv)

@case('C08 C09', W + 'weight_of')
def symmetric(w):
    a, m, I, d0 = grid_array(w)
    D = diff(m, I)
    d = w.int('difference')
    if w.case(w.exists(m * m, lambda r: w.eq_(D(r), d))):
        w.true('the negative of a difference is a difference', w.exists(m * m, lambda r: w.eq_(D(r), -d)))

@case('C08', W + '__init__')
def unsupported_arrays(w):
    m = w.dim('m')
    what = w.pick('what', ['2D', 'uca', 'general', '3D'])
    if what == '2D': a = w.call(w.get(A + 'UniformRectangularArray'), m, w.dim('n'), w.scalar('d0', pos=True))
    elif what == 'uca': a = w.call(w.get(A + 'UniformCircularArray'), m, w.scalar('r', pos=True))
    elif what == 'general': a = w.call(w.get(A + 'ArrayDesign'), w.arr('L', (m, 1)), 'x')
    else: a = w.call(w.get(A + 'GridBasedArrayDesign'), w.arr('I', (m, 3), 'int'), w.scalar('d0', pos=True))
    w.raises('weight function', ValueError, lambda: w.call(w.get(M + 'WeightFunction1D'), a))
    w.raises('augmentation', ValueError, lambda: w.call(w.get(E + 'CoarrayACMBuilder1D'), a))

# --- C09 ---------------------------------------------------------------------------------------------------
def use_contracts(w, m, I, opaque=True):
    """callers of WeightFunction1D are checked against the contracts discharged for C08 (and again in every run of C09);
    -> E(r, d): entry r of vec(R) belongs to the difference d"""
    D = diff(m, I)
    E = lambda r, d: w.eq_(D(r), d)
    if w.symbolic and opaque: E = lambda r, d: w.pred('isdiff', r, d)       # left uninterpreted
    mv = w.ghost('mv', 1) if w.symbolic else None
    def weight_of(self, diff):
        n = w.sum(m * m, lambda r: w.ind(E(r, diff)))
        w.assume(w.or_(diff >= mv, -diff >= mv, n >= 1))      # central_size, symmetric
        return n
    def indices_of(self, diff):
        weight_of(self, diff)
        return w.positions(m * m, lambda r: E(r, diff))
    w.contract(W + 'indices_of', indices_of)
    w.contract(W + 'weight_of', weight_of)
    w.contract(W + 'get_central_ula_size', lambda self, exclude_negative_part: mv if w.case(exclude_negative_part) else 2 * mv - 1)
    return E

@case('C09', W + 'get_coarray_selection_matrix')
def selection_matrix(w):
    a, m, I, d0 = grid_array(w, ('grid',))
    In = use_contracts(w, m, I)
    f = w.call(w.get(M + 'WeightFunction1D'), a)
    excl = w.pick('half', [None, False, True])
    F = w.call(w.attr(f, 'get_coarray_selection_matrix'), *(() if excl is None else (excl,)))
    mv = w.call(w.attr(f, 'get_central_ula_size'), True)
    lo = 0 if excl else 1 - mv
    n = mv if excl else 2 * mv - 1
    w.eq('averages the entries with each difference', F, w.mat((n, m * m), lambda i, r: w.ind(In(r, lo + i)) / w.sum(m * m, lambda q: w.ind(In(q, lo + i))), 'real'))

def lag(w, R, m, E):
    """redundancy-averaged correlation at a lag; entry r of vec(R) is R[r%m, r//m]"""
    return lambda d: w.sum(m * m, lambda r: w.ind(E(r, d)) * w.at(R, r % m, r // m)) / w.sum(m * m, lambda r: w.ind(E(r, d)))

@case('C09', E + 'CoarrayACMBuilder1D.transform ' + E + 'CoarrayACMBuilder1D.__call__')
def direct_augmentation(w):
    a, m, I, d0 = grid_array(w, ('grid',))
    In = use_contracts(w, m, I)
    R = w.arr('R', (m, m), w.pick('sort', ['complex', 'real']))
    b = w.call(w.get(E + 'CoarrayACMBuilder1D'), a)
    fr = w.frame(R=R, a=a)
    X = w.call(w.attr(b, 'transform'), R, 'da') if w.flag('method') else w.call(b, R, 'da')
    mv = w.attr(b, 'output_size')
    z = lag(w, R, m, In)
    w.eq('redundancy-averaged Toeplitz matrix', X, w.mat((mv, mv), lambda r, c: z(r - c), 'complex'))
    w.eq('input size', w.attr(b, 'input_size'), m)
    w.unchanged('inputs are not modified', fr)

@case('C09', E + 'CoarrayACMBuilder1D.transform')
def spatial_smoothing(w):
    a, m, I, d0 = grid_array(w, ('grid',))
    In = use_contracts(w, m, I)
    R = w.arr('R', (m, m), w.pick('sort', ['complex', 'real']))
    b = w.call(w.get(E + 'CoarrayACMBuilder1D'), a)
    X = w.call(b, R, 'ss') if w.flag('explicit') else w.call(b, R)
    mv = w.attr(b, 'output_size')
    z = lag(w, R, m, In)
    Z = w.mat((mv, mv), lambda r, c: z(r - c), 'complex')
    w.eq('T T^H / Mv', X, w.mat((mv, mv), lambda r, c: w.sum(mv, lambda q: w.at(Z, r, q) * w.conj(w.at(Z, c, q))) / mv, 'complex'))

@case('C09', E + 'CoarrayACMBuilder1D.get_virtual_ula ' + E + 'CoarrayACMBuilder1D.output_size')
def virtual_ula(w):
    a, m, I, d0 = grid_array(w)
    In = use_contracts(w, m, I)
    b = w.call(w.get(E + 'CoarrayACMBuilder1D'), a)
    nm = w.pick('name', [None, 'my ula'])
    v = w.call(w.attr(b, 'get_virtual_ula'), *(() if nm is None else (nm,)))
    mv = w.attr(b, 'output_size')
    w.eq('size', w.attr(v, 'size'), mv)
    w.eq('spacing', w.attr(v, 'element_locations'), w.mat((mv, 1), lambda i, z: i * d0))
    w.eq('central ULA', mv, w.call(w.attr(w.call(w.get(M + 'WeightFunction1D'), a), 'get_central_ula_size'), True))
    w.true('ULA', w.isinstance(v, w.get(A + 'UniformLinearArray')))
    if nm: w.eq('name', w.attr(v, 'name'), nm)

@case('C09', E + 'CoarrayACMBuilder1D.transform')
def exact_covariance(w):
    """the exact covariance of uncorrelated sources in white noise is mapped to that of the virtual ULA"""
    a, m, I, d0 = grid_array(w, ('grid',), True)
    use_contracts(w, m, I, False)
    K = w.dim('K')
    u, p, s = w.arr('u', (K,)), w.arr('p', (K,), pos=True), w.scalar('s', pos=True)
    R = w.mat((m, m), lambda i, j: w.sum(K, lambda k: w.at(p, k) * w.exp(w.j * w.at(u, k) * (I(i) - I(j)))) + s * w.ind(w.eq_(i, j)), 'complex')
    b = w.call(w.get(E + 'CoarrayACMBuilder1D'), a)
    X = w.call(b, R, 'da')
    mv = w.attr(b, 'output_size')
    w.eq('covariance of the virtual ULA', X, w.mat((mv, mv), lambda r, c: w.sum(K, lambda k: w.at(p, k) * w.exp(w.j * w.at(u, k) * (r - c))) + s * w.ind(w.eq_(r, c)), 'complex'))

@case('C09', E + 'CoarrayACMBuilder1D.transform')
def rejected(w):
    a, m, I, d0 = grid_array(w, ('grid', 'ula'))
    b = w.call(w.get(E + 'CoarrayACMBuilder1D'), a)
    if w.flag('method'):
        R = w.arr('R', (m, m), 'complex')
        w.raises('unknown method', ValueError, lambda: w.call(b, R, w.pick('name', ['SS', 'x', '', 'toeplitz', 's', 'a'])))
    else:
        p, q = w.dim('p'), w.dim('q')
        w.assume(w.or_(w.not_(w.eq_(p, m)), w.not_(w.eq_(q, m))))
        w.raises('wrong shape', ValueError, lambda: w.call(b, w.arr('R', (p, q), 'complex'), w.pick('name', ['ss', 'da'])))

"""C24, C25: matrix helpers."""
from .reg import case
M = 'doatools.utils.math.'

@case('C24', M + 'vec')
def vec(w):
    m, n = w.dim('m'), w.dim('n')
    s = w.pick('sort', ['real', 'complex'])
    X = w.arr('X', (m, n), s)
    fr = w.frame(X=X)
    v = w.call(w.get(M + 'vec'), X)
    w.eq('columns are stacked', v, w.mat((m * n, 1), lambda i, z: w.at(X, i % m, i // m)), tol=1e-10)
    w.unchanged('X is not modified', fr)

@case('C24', M + 'abs_squared')
def abs_squared(w):
    m, n = w.dim('m'), w.dim('n')
    s = w.pick('sort', ['real', 'complex'])
    X = w.arr('X', (m, n), s)
    fr = w.frame(X=X)
    v = w.call(w.get(M + 'abs_squared'), X)
    w.eq('re^2 + im^2', v, w.mat((m, n), lambda i, k: w.re(w.at(X, i, k)) * w.re(w.at(X, i, k)) + w.im(w.at(X, i, k)) * w.im(w.at(X, i, k))), tol=1e-10)
    w.unchanged('X is not modified', fr)

@case('C24', M + 'khatri_rao')
def khatri_rao(w):
    m, n, k, l = w.dim('m'), w.dim('n'), w.dim('k'), w.dim('l')
    s, t = w.pick('s', ['real', 'complex']), w.pick('t', ['real', 'complex'])
    A, B = w.arr('A', (m, k), s), w.arr('B', (n, l), t)
    f = w.get(M + 'khatri_rao')
    if w.case(w.eq_(k, l)):
        fr = w.frame(A=A, B=B)
        C = w.call(f, A, B)
        w.eq('column-wise Kronecker product', C, w.mat((m * n, k), lambda i, c: w.at(A, i // n, c) * w.at(B, i % n, c), 'complex' if 'complex' in (s, t) else 'real'), tol=1e-10)
        w.unchanged('inputs are not modified', fr)
    else:
        w.raises('column mismatch rejected', ValueError, lambda: w.call(f, A, B))

@case('C24', M + 'projm')
def projm(w):
    m = w.dim('m')
    k = w.dim('k', 1, 6)
    w.assume(k <= m)
    s = w.pick('sort', ['real', 'complex'])
    A = w.arr('A', (m, k), s, generic=True)
    fr = w.frame(A=A)
    P = w.call(w.get(M + 'projm'), A)
    G = w.np.linalg.inv(w.mat((k, k), lambda i, c: w.sum(m, lambda r: w.conj(w.at(A, r, i)) * w.at(A, r, c))))
    w.eq('A (A^H A)^-1 A^H', P, w.mat((m, m), lambda i, c: w.sum(k, lambda p: w.sum(k, lambda q: w.at(A, i, p) * w.at(G, p, q) * w.conj(w.at(A, c, q))))))
    w.eq('Hermitian', P, w.mat((m, m), lambda i, c: w.conj(w.at(P, c, i))))
    w.eq('idempotent', w.mat((m, m), lambda i, c: w.sum(m, lambda r: w.at(P, i, r) * w.at(P, r, c))), P)
    w.eq('fixes the columns of A', w.mat((m, k), lambda i, c: w.sum(m, lambda r: w.at(P, i, r) * w.at(A, r, c))), A)
    w.unchanged('A is not modified', fr)

@case('C24', M + 'projm')
def projm_pinv(w):
    m = w.dim('m')
    k = w.dim('k', 1, 6)
    w.assume(k <= m)
    s = w.pick('sort', ['real', 'complex'])
    A = w.arr('A', (m, k), s, generic=True)
    P = w.call(w.get(M + 'projm'), A, w.pick('flag', [True]))
    Q = w.np.linalg.pinv(A)
    w.eq('A pinv(A)', P, w.mat((m, m), lambda i, c: w.sum(k, lambda p: w.at(A, i, p) * w.at(Q, p, c))))

@case('C24', M + 'cartesian')
def cartesian2(w):
    m, n = w.dim('m'), w.dim('n')
    x, y = w.arr('x', (m,), w.pick('x sort', ['real', 'int'])), w.arr('y', (n,), w.pick('y sort', ['real', 'int']))
    fr = w.frame(x=x, y=y)
    C = w.call(w.get(M + 'cartesian'), x, y)
    w.eq('every pair once, first input slowest', C, w.mat((m * n, 2), lambda r, c: w.ite(c < 1, w.at(x, r // n), w.at(y, r % n))), tol=1e-10)
    w.unchanged('inputs are not modified', fr)

@case('C24', M + 'cartesian')
def cartesian3(w):
    m, n, p = w.dim('m'), w.dim('n'), w.dim('p')
    x, y, z = [w.arr(c, (d,), 'real' if w.symbolic else w.pick(c + ' sort', ['real', 'real', 'int'])) for c, d in (('x', m), ('y', n), ('z', p))]
    C = w.call(w.get(M + 'cartesian'), x, y, z)
    w.eq('every triple once, first input slowest', C, w.mat((m * n * p, 3), lambda r, c: w.ite(c < 1, w.at(x, r // (n * p)), w.ite(c < 2, w.at(y, (r // p) % n), w.at(z, r % p)))), tol=1e-10)

@case('C24', M + 'cartesian')
def cartesian1(w):
    m = w.dim('m')
    x = w.arr('x', (m,))
    w.eq('one column', w.call(w.get(M + 'cartesian'), x), w.mat((m, 1), lambda r, c: w.at(x, r)), tol=1e-10)

def close_rows(w, x, m, tol):
    def f(i, j):
        ds = [w.abs(w.at(x, i, l) - w.at(x, j, l)) for l in range(m)]
        if not w.symbolic: w.assume(all(d == 0 or abs(d - tol) > 1e-9 * (d + tol) for d in ds))      # rounding
        return w.case(w.and_(*[d <= tol for d in ds]))
    return f

def greedy(n, close):
    """first row, then every later row that is close to none of the rows kept so far"""
    reps = []
    for i in range(n):
        if not any(close(u, i) for u in reps): reps.append(i)
    return reps

def lex_before(w, x, m, i, j):
    for l in range(m):
        if w.case(w.at(x, i, l) < w.at(x, j, l)): return True
        if not w.case(w.eq_(w.at(x, i, l), w.at(x, j, l))): return False
    return i < j

def unique_spec(w, x, n, m, atol, rtol, sort):
    M = w.max([w.abs(w.at(x, i, l)) for i in range(n) for l in range(m)])
    reps = greedy(n, close_rows(w, x, m, atol + rtol * M))
    if sort:
        out = []
        for i in reps:
            k = len(out)
            while k and lex_before(w, x, m, i, out[k - 1]): k -= 1
            out.insert(k, i)
        reps = out
    return reps

def check_unique(w, x, n, m, r, reps, index):
    if index:
        w.eq('two results', w.len(r), 2)
        w.eq('the indices identify the returned rows', w.index(r, 1), w.list(*reps))
        r = w.index(r, 0)
    w.eq('number of representatives', w.shape(r), (len(reps), m))
    w.eq('representatives', r, w.mat((len(reps), m), lambda i, l: w.at(x, w.index(w.list(*reps), i), l)), tol=1e-10)

WHY = 'the greedy search is proved for every matrix of the listed row and column counts (its branches depend on the entries)'
@case('C25', M + 'unique_rows', sym='shapes', shapes=[{'n': n, 'm': m} for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1), (4, 2), (5, 1), (5, 2))], deadline=400, why=WHY)
def unique_rows(w):
    n, m = w.dim('n'), w.dim('m')
    small = not w.symbolic or n <= 2
    s = w.pick('sort', ['real', 'int'] if small else ['real'])
    if w.symbolic: x = w.arr('x', (n, m), s)
    else:
        x = w.arr('x', (n, m), s, lo=-9, hi=9)
        if s == 'real' and w.flag('clustered'):
            x = w.np.round(x / 4) + w.arr('e', (n, m)) * 1e-4
    f = w.pick('tolerances', ['default', 'absolute', 'both'] if small else ['absolute'])
    kw, atol, rtol = {}, 0, 1e-8
    if f != 'default':
        atol = w.scalar('atol', nonneg=True)
        if not w.symbolic and w.flag('small'): atol = atol * 1e-3
        kw['atol'] = atol
    if f == 'both':
        rtol = w.scalar('rtol', nonneg=True)
        if not w.symbolic and w.flag('smaller'): rtol = rtol * 1e-4
        kw['rtol'] = rtol
    elif f == 'absolute' : rtol = kw['rtol'] = 0.0
    index, sort = w.flag('index') if small or n == 3 else True, w.flag('sorted') if small or n == 3 else False
    if index: kw['return_index'] = True
    if sort: kw['sort'] = True
    fr = w.frame(x=x)
    r = w.call(w.get(M + 'unique_rows'), x, **kw)
    w.unchanged('x is not modified', fr)
    reps = unique_spec(w, x, n, m, atol, rtol, sort)
    check_unique(w, x, n, m, r, reps, index)

@case('C25', M + 'unique_rows')
def no_rows(w):
    m = w.dim('m')
    s = w.pick('sort', ['real', 'int'])
    x = w.arr('x', (0, m), s)
    index, sort = w.flag('index'), w.flag('sorted')
    r = w.call(w.get(M + 'unique_rows'), x, return_index=index, sort=sort)
    if index:
        w.eq('two results', w.len(r), 2)
        w.eq('no indices', w.shape(w.index(r, 1)), (0,))
        r = w.index(r, 0)
    w.eq('no rows', w.shape(r), (0, m))
    w.disjoint('a new array', r, x)

@case('C25', M + 'unique_rows')
def not_a_matrix(w):
    sh = tuple(w.dim('n%d' % i) for i in range(w.pick('rank', [1, 3])))
    x = w.arr('x', sh)
    index = w.flag('index')
    w.raises('rejected', ValueError, lambda: w.call(w.get(M + 'unique_rows'), x, return_index=index))

UD = 'doatools.model.coarray.compute_unique_location_differences'
@case('C25', UD + ' doatools.model.coarray.compute_location_differences ' + M + 'unique_rows', sym='shapes', shapes=[{'n': n, 'd': d} for n, d in ((1, 1), (1, 2), (2, 1), (2, 2))], why=WHY)
def unique_differences(w):
    n, d = w.dim('n'), w.dim('d')
    x = w.arr('x', (n, d))
    kw, atol, rtol = {}, 0, 1e-8
    if w.flag('tolerances'):
        atol, rtol = w.scalar('atol', nonneg=True), w.scalar('rtol', nonneg=True)
        kw = dict(atol=atol, rtol=rtol)
    fr = w.frame(x=x)
    r = w.call(w.get(UD), x, **kw)
    w.unchanged('locations are not modified', fr)
    D = w.mat((n * n, d), lambda i, l: w.at(x, i % n, l) - w.at(x, i // n, l))
    reps = unique_spec(w, D, n * n, d, atol, rtol, False)
    check_unique(w, D, n * n, d, r, reps, False)

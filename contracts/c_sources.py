"""C06, C07: source placements, angle and coordinate conversions."""
from .reg import case
from .common import A, P, S, FF1, FF2, Src, coords
CV = 'doatools.utils.conversion.'
CLS = {'ff1': 'FarField1DSourcePlacement', 'ff2': 'FarField2DSourcePlacement', 'nf': 'NearField2DSourcePlacement'}

def cls(w, kind): return w.get(S + CLS[kind.split()[0]])

@case('C06', S + 'FarField1DSourcePlacement.__init__ ' + S + 'SourcePlacement.__init__')
def ff1_range(w):
    """accepted iff all locations are within the range of the unit"""
    K = w.dim('K', 0)
    unit = w.pick('unit', ['rad', 'deg', 'sin', 'default'])
    lim = {'rad': w.pi / 2, 'default': w.pi / 2, 'deg': 90, 'sin': 1}[unit]
    sc = w.pick('scale', [0.4, 0.6])
    t = w.arr('t', (K,), lo=-lim * 2 * sc, hi=lim * 2 * sc, closed=True)
    fr = w.frame(t=t)
    f = w.get(S + CLS['ff1'])
    args = () if unit == 'default' else (unit,)
    r, e = w.trying(lambda: w.call(f, t, *args))
    if w.case(w.forall(K, lambda k: w.and_(w.at(t, k) >= -lim, w.at(t, k) <= lim))):
        w.true('accepted', e is None)
        if r is None: return
        w.eq('locations', w.attr(r, 'locations'), t)
        w.eq('units', w.attr(r, 'units'), ('rad' if unit == 'default' else unit,))
        w.eq('size', w.attr(r, 'size'), K)
        w.eq('len', w.len(r), K)
        w.eq('valid range', w.attr(r, 'valid_ranges'), ((-lim, lim),))
        w.eq('far field', w.attr(r, 'is_far_field'), True)
    else:
        w.eq('rejected', e, 'ValueError')
    w.unchanged('locations are not modified', fr)

@case('C06', S + 'FarField2DSourcePlacement.__init__')
def ff2_range(w):
    K = w.dim('K', 0)
    unit = w.pick('unit', ['rad', 'deg', 'default'])
    lim = 180 if unit == 'deg' else w.pi
    sa, se = w.pick('azimuth scale', [0.8, 1.2]), w.pick('elevation scale', [0.8, 1.2])
    az, el = w.arr('az', (K,), lo=-lim * sa, hi=lim * sa, closed=True), w.arr('el', (K,), lo=-lim / 2 * se, hi=lim / 2 * se, closed=True)
    t = w.mat((K, 2), lambda k, c: w.ite(c < 1, w.at(az, k), w.at(el, k)), 'real')
    f = w.get(S + CLS['ff2'])
    r, e = w.trying(lambda: w.call(f, t, *(() if unit == 'default' else (unit,))))
    ok = w.forall(K, lambda k: w.and_(w.at(az, k) >= -lim, w.at(az, k) <= lim, w.at(el, k) >= -lim / 2, w.at(el, k) <= lim / 2))
    if w.case(ok):
        w.true('accepted', e is None)
        if r is None: return
        w.eq('locations', w.attr(r, 'locations'), t)
        u = 'rad' if unit == 'default' else unit
        w.eq('units', w.attr(r, 'units'), (u, u))
        w.eq('size', w.attr(r, 'size'), K)
        w.eq('valid range', w.attr(r, 'valid_ranges'), ((-lim, lim), (-lim / 2, lim / 2)))
        w.eq('far field', w.attr(r, 'is_far_field'), True)
    else:
        w.eq('rejected', e, 'ValueError')

@case('C06', S + 'FarField1DSourcePlacement.__init__ ' + S + 'FarField2DSourcePlacement.__init__ ' + S + 'NearField2DSourcePlacement.__init__')
def rejected(w):
    K = w.dim('K')
    kind = w.pick('kind', ['ff1', 'ff2', 'nf'])
    f = w.get(S + CLS[kind])
    what = w.pick('what', ['unit', 'ndim', 'columns', 'out of range', 'vector'])
    if what == 'unit':
        if kind == 'nf': return
        u = w.pick('bad unit', ['m', 'Deg', '', 'radians', 'sin' if kind == 'ff2' else 'cos'])
        t = w.arr('t', (K,) if kind == 'ff1' else (K, 2), lo=-0.5, hi=0.5)
        w.raises('unknown unit', ValueError, lambda: w.call(f, t, u))
    elif what == 'ndim':
        t = w.arr('t', (K, 1) if kind == 'ff1' and w.flag('matrix') else (K, 2, 1), lo=-0.5, hi=0.5)
        w.raises('rank', ValueError, lambda: w.call(f, t))
    elif what == 'columns':
        if kind == 'ff1': return
        n = w.pick('n', [1, 3, 4])
        w.raises('number of columns', ValueError, lambda: w.call(f, w.arr('t', (K, n), lo=-0.5, hi=0.5)))
    elif what == 'vector':
        if kind == 'ff1': return
        w.raises('vector', ValueError, lambda: w.call(f, w.arr('t', (K,), lo=-0.5, hi=0.5)))
    else:
        if kind == 'nf': return
        unit = w.pick('unit', ['rad', 'deg', 'sin'] if kind == 'ff1' else ['rad', 'deg'])
        lim = {'rad': w.pi / 2, 'deg': 90, 'sin': 1}[unit]
        t = w.arr('t', (K,), lo=-lim, hi=lim)
        k = w.int('k', 0, K - 1)
        x = w.scalar('x', lo=0)
        s = w.pick('side', [1, -1])
        if kind == 'ff1':
            bad = w.mat((K,), lambda i: w.ite(w.eq_(i, k), s * (lim + x), w.at(t, i)))
        else:
            c0 = w.pick('column', [0, 1])
            bad = w.mat((K, 2), lambda i, c: w.ite(w.and_(w.eq_(i, k), w.eq_(c, c0)), s * ((2 - c0) * lim + x), w.at(t, i)))
        w.raises('one location out of range', ValueError, lambda: w.call(f, bad, unit))

@case('C06', S + 'NearField2DSourcePlacement.__init__ ' + S + 'FarField1DSourcePlacement.__init__')
def list_and_integer_inputs(w):
    K = w.dim('K')
    kind = w.pick('kind', ['ff1 deg', 'ff2 deg', 'nf'])
    c = cls(w, kind)
    args = ('deg',) if kind != 'nf' else ()
    if w.flag('list'):
        x = [w.scalar('x%d' % i, lo=-80, hi=80) for i in range(4)]
        l = w.list(*x) if kind == 'ff1 deg' else w.list(w.list(x[0], x[1]), w.list(x[2], x[3]))
        o = w.call(c, l, *args)
        w.eq('locations', w.attr(o, 'locations'), w.np.array(x) if kind == 'ff1 deg' else w.np.array([[x[0], x[1]], [x[2], x[3]]]))
    else:
        t = w.arr('t', (K,) if kind == 'ff1 deg' else (K, 2), 'int', lo=-80, hi=80)
        if not w.symbolic: t = t.astype(w.pick('type', ['int64', 'int32', 'int16', 'int8']))
        o = w.call(c, t, *args)
        w.eq('locations', w.attr(o, 'locations'), t)
        w.true('floating point', w.attr(w.attr(o, 'locations'), 'dtype') == w.np.float64)

@case('C06', S + 'SourcePlacement.__getitem__')
def index_integer(w):
    K = w.dim('K')
    src = Src(w, K, FF1 + FF2 + ('nf',))
    k = w.int('k', 0, K - 1)
    fr = w.frame(s=src.obj)
    if w.flag('negative'):
        v = w.index(src.obj, k - K)
    else: v = w.index(src.obj, k)
    if src.kind.startswith('ff1'): w.eq('location', v, w.at(src.loc, k))
    else: w.eq('location', v, w.mat((2,), lambda c: w.at(src.loc, k, c)))
    w.unchanged('not modified', fr)

def like(w, name, src, new, n, sel):
    """new is an independent placement of the same kind holding sources sel(0..n-1)"""
    w.eq(name + ': units', w.attr(new, 'units'), w.attr(src.obj, 'units'))
    w.eq(name + ': size', w.attr(new, 'size'), n)
    if src.kind.startswith('ff1'): w.eq(name + ': locations', w.attr(new, 'locations'), w.mat((n,), lambda i: w.at(src.loc, sel(i)), 'real'))
    else: w.eq(name + ': locations', w.attr(new, 'locations'), w.mat((n, 2), lambda i, c: w.at(src.loc, sel(i), c), 'real'))
    w.disjoint(name + ': independent', w.attr(src.obj, 'locations'), w.attr(new, 'locations'))
    w.true(name + ': class', isa(w, new, src))

def isa(w, o, src):
    return w.isinstance(o, cls(w, src.kind))

@case('C06', S + 'SourcePlacement.__getitem__')
def index_slice(w):
    K = w.dim('K')
    src = Src(w, K, FF1 + FF2 + ('nf',))
    fr = w.frame(s=src.obj)
    form = w.pick('form', ['a:b', 'a:', ':b', ':', '::2', '::-1', 'mod'])
    a = w.int('a', 0, K)
    b = w.int('b', 0, K)
    if form == 'a:b':
        w.assume(a <= b)
        like(w, 'slice', src, w.index(src.obj, slice(a, b)), b - a, lambda i: a + i)
    elif form == 'a:': like(w, 'slice', src, w.index(src.obj, slice(a, None)), K - a, lambda i: a + i)
    elif form == ':b': like(w, 'slice', src, w.index(src.obj, slice(None, b)), b, lambda i: i)
    elif form == ':': like(w, 'slice', src, w.index(src.obj, slice(None)), K, lambda i: i)
    elif form == '::2': like(w, 'slice', src, w.index(src.obj, slice(None, None, 2)), (K + 1) // 2, lambda i: 2 * i)
    elif form == '::-1': like(w, 'slice', src, w.index(src.obj, slice(None, None, -1)), K, lambda i: K - 1 - i)
    else:
        n = w.index(src.obj, slice(None))
        l = w.attr(n, 'locations')
        l[:] = 0 * l
    w.unchanged('not modified', fr)

@case('C06', S + 'SourcePlacement.__getitem__')
def index_fancy(w):
    K = w.dim('K')
    src = Src(w, K, FF1 + FF2 + ('nf',))
    fr = w.frame(s=src.obj)
    form = w.pick('form', ['list', 'array', 'mod list', 'mod array'])
    if 'list' in form:
        ks = [w.int('k%d' % i, 0, K - 1) for i in range(3)]
        new = w.index(src.obj, w.list(*ks))
        if form == 'list': like(w, 'list', src, new, 3, lambda i: w.at(ks, i))
    else:
        n = w.dim('n')
        ks = w.arr('ks', (n,), 'int', lo=0, hi=K - 1, closed=True)
        new = w.index(src.obj, ks)
        if form == 'array': like(w, 'array', src, new, n, lambda i: w.at(ks, i))
    if 'mod' in form:
        l = w.attr(new, 'locations')
        l[:] = 0 * l
    w.unchanged('not modified', fr)

@case('C06', S + 'SourcePlacement.__getitem__')
def index_mask(w):
    K = w.dim('K')
    src = Src(w, K, FF1 + FF2 + ('nf',))
    fr = w.frame(s=src.obj)
    mask = w.arr('mask', (K,), 'bool')
    new = w.index(src.obj, mask)
    w.eq('units', w.attr(new, 'units'), w.attr(src.obj, 'units'))
    w.eq('locations', w.attr(new, 'locations'), src.loc[mask])
    w.true('class', isa(w, new, src))
    w.unchanged('not modified', fr)

@case('C06', S + 'SourcePlacement.__getitem__')
def index_rejected(w):
    K = w.dim('K')
    src = Src(w, K, FF1 + FF2 + ('nf',))
    n = w.dim('n')
    w.raises('index matrix', ValueError, lambda: w.index(src.obj, w.arr('ks', (n, 1), 'int', lo=0, hi=0, closed=True)))

@case('C06', S + 'FarField1DSourcePlacement.as_unit ' + CV + 'convert_angles')
def convert_ff1(w):
    K = w.dim('K')
    src = Src(w, K, FF1)
    to = w.pick('to', ['rad', 'deg', 'sin'])
    fr = w.frame(s=src.obj)
    o = w.call(w.attr(src.obj, 'as_unit'), to)
    l = w.attr(o, 'locations')
    w.eq('unit', w.attr(o, 'units'), (to,))
    w.true('class', isa(w, o, src))
    w.eq('size', w.attr(o, 'size'), K)
    def sine(k):
        x = w.at(l, k)
        return x if to == 'sin' else w.sin(x) if to == 'rad' else w.sin(x * w.pi / 180)
    w.eq('same direction', w.mat((K,), sine), w.mat((K,), lambda k: src.sc(k)[0]))
    b = w.call(w.attr(o, 'as_unit'), src.unit)
    w.eq('converting back restores the values', w.attr(b, 'locations'), src.loc)
    w.eq('original unit', w.attr(b, 'units'), (src.unit,))
    w.disjoint('independent', l, w.attr(src.obj, 'locations'))
    w.unchanged('not modified', fr)

@case('C06', S + 'FarField2DSourcePlacement.as_unit ' + S + 'NearField2DSourcePlacement.as_unit ' + CV + 'convert_angles')
def convert_2d(w):
    K = w.dim('K')
    src = Src(w, K, FF2 + ('nf',))
    fr = w.frame(s=src.obj)
    if src.kind == 'nf':
        o = w.call(w.attr(src.obj, 'as_unit'), 'm')
        w.eq('same locations', w.attr(o, 'locations'), src.loc)
        w.eq('unit', w.attr(o, 'units'), ('m', 'm'))
        w.raises('other units', ValueError, lambda: w.call(w.attr(src.obj, 'as_unit'), w.pick('bad', ['rad', 'deg', 'sin', 'cm'])))
    else:
        to = w.pick('to', ['rad', 'deg'])
        o = w.call(w.attr(src.obj, 'as_unit'), to)
        f = 1 if to == src.unit else w.pi / 180 if to == 'rad' else 180 / w.pi
        w.eq('same direction', w.attr(o, 'locations'), w.mat((K, 2), lambda k, c: w.at(src.loc, k, c) * f))
        w.eq('unit', w.attr(o, 'units'), (to, to))
        b = w.call(w.attr(o, 'as_unit'), src.unit)
        w.eq('converting back restores the values', w.attr(b, 'locations'), src.loc)
    w.true('class', isa(w, o, src))
    w.disjoint('independent', w.attr(o, 'locations'), w.attr(src.obj, 'locations'))
    w.unchanged('not modified', fr)

@case('C06', S + 'FarField2DSourcePlacement.as_unit ' + S + 'FarField1DSourcePlacement.as_unit')
def convert_rejected(w):
    K = w.dim('K')
    src = Src(w, K, FF1 + FF2)
    r, e = w.trying(lambda: w.call(w.attr(src.obj, 'as_unit'), w.pick('to', ['m', 'Deg'] + (['sin'] if src.kind.startswith('ff2') else []))))
    w.true('unknown unit is an error', e is not None)

# --- C07 ---------------------------------------------------------------------------------------------------
@case('C07', S + 'FarField1DSourcePlacement.calc_spherical_coords ' + S + 'FarField2DSourcePlacement.calc_spherical_coords')
def spherical_far(w):
    m, K = w.dim('m'), w.dim('K')
    src = Src(w, K, FF1 + FF2)
    R = w.arr('R', (m, w.pick('d', [1, 2, 3])))
    fr = w.frame(R=R, s=src.obj)
    o = w.call(w.attr(src.obj, 'calc_spherical_coords'), R)
    w.eq('three arrays', w.len(o), 3)
    w.eq('range', w.index(o, 0), w.mat((m, K), lambda i, k: w.inf))
    if src.kind.startswith('ff1'):
        x = lambda k: w.arcsin(w.at(src.loc, k)) if src.unit == 'sin' else src.rad(w.at(src.loc, k))
        w.eq('azimuth', w.index(o, 1), w.mat((m, K), lambda i, k: w.pi / 2 - x(k)))
        w.eq('elevation', w.index(o, 2), w.mat((m, K), lambda i, k: 0.0))
        az = w.index(o, 1)
        w.eq('direction cosine along x', w.mat((m, K), lambda i, k: w.cos(w.at(az, i, k))), w.mat((m, K), lambda i, k: src.sc(k)[0]))
    else:
        w.eq('azimuth', w.index(o, 1), w.mat((m, K), lambda i, k: src.rad(w.at(src.az, k))))
        w.eq('elevation', w.index(o, 2), w.mat((m, K), lambda i, k: src.rad(w.at(src.el, k))))
    w.unchanged('not modified', fr)

def cart(w, r, az, el): return r * w.cos(el) * w.cos(az), r * w.cos(el) * w.sin(az), r * w.sin(el)

@case('C07', S + 'NearField2DSourcePlacement.calc_spherical_coords ' + S + 'NearField2DSourcePlacement._align_location_dims')
def spherical_near(w):
    m, K = w.dim('m'), w.dim('K')
    src = Src(w, K, ('nf',))
    d = w.pick('d', [1, 2, 3])
    R = w.arr('R', (m, d))
    fr = w.frame(R=R, s=src.obj)
    o = w.call(w.attr(src.obj, 'calc_spherical_coords'), R)
    r, az, el = w.index(o, 0), w.index(o, 1), w.index(o, 2)
    loc = coords(w, R, d)
    rel = lambda i, k, c: (w.at(src.loc, k, c) if c < 2 else 0) - loc(i)(c)
    w.eq('range', r, w.mat((m, K), lambda i, k: w.sqrt(w.sum(3, lambda c: rel(i, k, c) * rel(i, k, c)))))
    for c in range(3):
        w.eq('rebuilt coordinate %d' % c, w.mat((m, K), lambda i, k: cart(w, w.at(r, i, k), w.at(az, i, k), w.at(el, i, k))[c]), w.mat((m, K), lambda i, k: rel(i, k, c)))
    w.unchanged('not modified', fr)

@case('C07', CV + 'cart2spherical')
def cart_to_spherical(w):
    m = w.dim('m')
    d = w.pick('d', [1, 2, 3])
    X = w.arr('X', (m, d), w.pick('sort', ['real', 'int']))
    fr = w.frame(X=X)
    s = w.call(w.get(CV + 'cart2spherical'), X)
    w.eq('m x 3', w.shape(s), (m, 3))
    for c in range(3):
        w.eq('rebuilt coordinate %d' % c, w.mat((m,), lambda i: cart(w, w.at(s, i, 0), w.at(s, i, 1), w.at(s, i, 2))[c]), w.mat((m,), lambda i: w.at(X, i, c) if c < d else 0 * w.pi))
    w.eq('range', w.mat((m,), lambda i: w.at(s, i, 0)), w.mat((m,), lambda i: w.sqrt(w.sum(d, lambda c: w.at(X, i, c) * w.at(X, i, c)))))
    if d == 2: w.eq('no elevation', w.mat((m,), lambda i: w.at(s, i, 2)), w.mat((m,), lambda i: 0 * w.pi))
    w.unchanged('not modified', fr)

@case('C07', CV + 'ae2broad')
def azimuth_elevation_to_broadside(w):
    m = w.dim('m')
    X = w.arr('X', (m, 2))
    fr = w.frame(X=X)
    b = w.call(w.get(CV + 'ae2broad'), X)
    w.eq('m x 1', w.shape(b), (m, 1))
    w.eq('its sine is the direction cosine', w.mat((m,), lambda i: w.sin(w.at(b, i, 0))), w.mat((m,), lambda i: w.cos(w.at(X, i, 0)) * w.cos(w.at(X, i, 1))))
    w.all('a broadside angle', (m,), lambda i: w.and_(w.at(b, i, 0) >= -w.pi / 2, w.at(b, i, 0) <= w.pi / 2))
    w.unchanged('not modified', fr)

@case('C07', CV + 'convert_angles')
def convert(w):
    n = w.dim('n')
    fr_, to = w.pick('from', ['rad', 'deg', 'sin']), w.pick('to', ['rad', 'deg', 'sin'])
    lim = {'rad': w.pi / 2, 'deg': 90, 'sin': 1}[fr_]
    X = w.arr('X', (n,) if w.flag('vector') else (n, 2), lo=-lim, hi=lim, closed=True)
    fr = w.frame(X=X)
    Y = w.call(w.get(CV + 'convert_angles'), X, fr_, to)
    rad = lambda u, x: w.arcsin(x) if u == 'sin' else x * w.pi / 180 if u == 'deg' else x
    def f(*ix):
        r = rad(fr_, w.at(X, *ix))
        if to == fr_: return w.at(X, *ix)
        return w.sin(r) if to == 'sin' else r * 180 / w.pi if to == 'deg' else r
    w.eq('converted', Y, w.mat(tuple(w.shape(X)), f))
    w.eq('and back', w.call(w.get(CV + 'convert_angles'), Y, to, fr_), X)
    w.disjoint('independent', X, Y)
    w.unchanged('not modified', fr)

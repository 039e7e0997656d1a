"""C10, C11: search grids."""
from .reg import case
from .common import S
G = 'doatools.estimation.grid.'
B = G + 'SearchGrid.'
CLS = {'ff1': 'FarField1DSearchGrid', 'ff2': 'FarField2DSearchGrid', 'nf': 'NearField2DSearchGrid'}
SRC = {'ff1': 'FarField1DSourcePlacement', 'ff2': 'FarField2DSourcePlacement', 'nf': 'NearField2DSourcePlacement'}
KINDS = ('ff1 rad', 'ff1 deg', 'ff1 sin', 'ff2 rad', 'ff2 deg', 'nf m')
NAMES = {'ff1': ('DOA',), 'ff2': ('Azimuth', 'Elevation'), 'nf': ('x', 'y')}

def limits(w, kind, unit):
    if kind == 'nf': return [(None, None)] * 2
    if kind == 'ff1':
        l = {'rad': w.pi / 2, 'deg': 90, 'sin': 1}[unit]
        return [(-l, l)]
    l = {'rad': w.pi, 'deg': 180}[unit]
    return [(-l, l), (-l / 2, l / 2)]

def build(w, kind, unit, *a, **kw):
    f = w.get(G + CLS[kind])
    if kind != 'nf' and not (unit == 'rad' and w.flag('default unit')): kw['unit'] = unit
    return w.call(f, *a, **kw)

def custom(w, kinds=KINDS, uniform=False, lo=1, steps=None, inner=False):
    """a grid with arbitrary axes; -> grid, kind, unit, [(n, axis)]"""
    kind, unit = w.pick('grid', list(kinds)).split()
    ax = []
    for j, (l, h) in enumerate(limits(w, kind, unit)):
        n = w.dim('n%d' % j, lo)
        if inner and not w.symbolic and h is not None: l, h = l * (1 - 1e-6), h * (1 - 1e-6)      # rounding at the ends of a refined axis
        if uniform:
            s, e = w.scalar('s%d' % j, lo=l, hi=h), w.scalar('h%d' % j, pos=True)
            if h is not None: w.assume(s + (n - 1) * e <= h)
            a = w.mat((n,), lambda i, s=s, e=e: s + i * e, 'real')
            steps.append(e)
        elif not w.symbolic and w.pick('integer axis', [False, False, False, True]): a = w.arr('axis%d' % j, (n,), 'int', lo=None if l is None else int(l), hi=None if h is None else int(h))
        else: a = w.arr('axis%d' % j, (n,), lo=l, hi=h, closed=True)
        ax.append((n, a))
    return build(w, kind, unit, axes=tuple(a for n, a in ax)), kind, unit, ax

def is_product(w, g, kind, unit, ax):
    """the grid enumerates the product of the axes [(n, entry function)]"""
    d = len(ax)
    src = w.attr(g, 'source_placement')
    w.true('kind of sources', w.isinstance(src, w.get(S + SRC[kind])))
    loc = w.attr(src, 'locations')
    if d == 1: w.eq('sources', loc, w.mat((ax[0][0],), ax[0][1], 'real'))
    else:
        n1 = ax[1][0]
        w.eq('sources', loc, w.mat((ax[0][0] * n1, 2), lambda f, c: w.ite(c < 1, ax[0][1](f // n1), ax[1][1](f % n1)), 'real'))
    size = 1
    for n, _ in ax: size = size * n
    w.eq('number of sources', w.attr(src, 'size'), size)
    w.eq('unit of the sources', w.attr(src, 'units'), (unit,) * d)
    w.eq('size', w.attr(g, 'size'), size)
    w.eq('shape', w.attr(g, 'shape'), tuple(n for n, _ in ax))
    w.eq('ndim', w.attr(g, 'ndim'), d)
    w.eq('units', w.attr(g, 'units'), (unit,) * d)
    w.eq('axis names', w.attr(g, 'axis_names'), NAMES[kind])
    for j, (n, f) in enumerate(ax): w.eq('axis', w.index(w.attr(g, 'axes'), j), w.mat((n,), f, 'real'))
    w.eq('number of axes', w.len(w.attr(g, 'axes')), d)
    again = w.attr(g, 'source_placement')
    w.eq('the sources stay the same', w.attr(again, 'locations'), loc)

ALL = ' '.join(B + x for x in ('__init__', 'ndim', 'size', 'shape', 'source_placement', 'units', 'axes', 'axis_names'))

@case('C10', ALL + ' ' + ' '.join(G + c + '._create_source_placement' for c in CLS.values()))
def product(w):
    g, kind, unit, ax = custom(w)
    fr = w.frame(**{'a%d' % j: a for j, (n, a) in enumerate(ax)})
    is_product(w, g, kind, unit, [(n, (lambda i, a=a: w.at(a, i))) for n, a in ax])
    w.unchanged('axes are not modified', fr)

def lin(s, e, n):
    return (n, lambda i: s + (e - s) * i / n)

@case('C10', ' '.join(G + c + '.__init__' for c in CLS.values()))
def uniform(w):
    kind, unit = w.pick('grid', list(KINDS)).split()
    lim = limits(w, kind, unit)
    full = {'ff1': lim, 'ff2': [lim[0], (0, lim[-1][1])], 'nf': None}[kind]
    what = w.pick('range', ['given', 'start', 'stop', 'full'] if kind != 'nf' else ['given'])
    kw, rng = {}, []
    for j, (l, h) in enumerate(lim):
        if kind == 'nf':
            s = w.scalar('s%d' % j); e = w.scalar('e%d' % j)
        else:
            s = w.scalar('s%d' % j, lo=l, hi=h, closed=True) if what in ('given', 'start') else full[j][0]
            e = w.scalar('e%d' % j, lo=l, hi=h, closed=True) if what in ('given', 'stop') else full[j][1]
        if what == 'given' and not w.symbolic: e = {'opposite': -s, 'equal': s}.get(w.pick('related ends', [None, None, None, 'opposite', 'equal']), e)
        rng.append((s, e))
    one = len(lim) == 1
    if what in ('given', 'start'): kw['start'] = rng[0][0] if one else tuple(s for s, e in rng)
    if what in ('given', 'stop'): kw['stop'] = rng[0][1] if one else tuple(e for s, e in rng)
    sz = w.pick('size', ['given', 'default'] if one else ['given', 'same', 'default'] if kind == 'ff2' else ['given', 'same'])
    if sz == 'given':
        ns = [w.dim('n%d' % j) for j in range(len(lim))]
        kw['size'] = ns[0] if one else tuple(ns)
    elif sz == 'same':
        ns = [w.dim('n')] * 2
        kw['size'] = ns[0]
    else: ns = [180] if one else [360, 90]
    g = build(w, kind, unit, **kw)
    is_product(w, g, kind, unit, [lin(s, e, n) for (s, e), n in zip(rng, ns)])

@case('C10', G + 'FarField1DSearchGrid.__init__')
def segments(w):
    """several segments are concatenated"""
    unit = w.pick('unit', ['rad', 'deg', 'sin'])
    (l, h), = limits(w, 'ff1', unit)
    k = w.pick('segments', [1, 2, 3])
    s = [w.scalar('s%d' % j, lo=l, hi=h, closed=True) for j in range(k)]
    e = [w.scalar('e%d' % j, lo=l, hi=h, closed=True) for j in range(k)]
    if not w.symbolic and w.pick('contiguous', [False, False, True]): s[1:] = e[:-1]
    n = [w.dim('n%d' % j) for j in range(k)]
    seq = w.pick('sequence', ['list', 'tuple'])
    mk = (lambda x: w.list(*x)) if seq == 'list' else tuple
    g = build(w, 'ff1', unit, mk(s), mk(e), mk(n))
    def entry(i):
        off, out = 0, None
        parts = []
        for a, b, c in zip(s, e, n):
            parts.append((off, lin(a, b, c)[1])); off = off + c
        out = parts[-1][1](i - parts[-1][0])
        for j in range(k - 2, -1, -1): out = w.ite(i < parts[j + 1][0], parts[j][1](i - parts[j][0]), out)
        return out
    tot = 0
    for c in n: tot = tot + c
    is_product(w, g, 'ff1', unit, [(tot, entry)])

@case('C10', B + '__init__')
def malformed(w):
    kind, unit = w.pick('grid', list(KINDS)).split()
    n = w.dim('n')
    a = w.arr('axis', (n,), lo=-0.5, hi=0.5)
    bad = a if w.flag('array') else w.list(*[a] * len(limits(w, kind, unit)))
    w.raises('axes that are not a tuple', ValueError, lambda: build(w, kind, unit, axes=bad))

# --- C11 ---------------------------------------------------------------------------------------------------
def refine_args(w, ax, unit_density=False):
    coord = []
    for j, (n, a) in enumerate(ax):
        c = w.int('c%d' % j, 0)
        w.assume(c <= n - 1)
        coord.append(c)
    return tuple(coord)

def dens(w):
    dm = w.pick('arguments', ['given', 'keywords', 'default'])
    if dm == 'default': return 10, 1, (), {}
    d, s = w.int('density', 1), w.int('span', 1)
    return (d, s, (d, s), {}) if dm == 'given' else (d, s, (), {'span': s, 'density': d})

def refined_axis(w, n, at, c, density, span):
    """(number of points, entry function)"""
    lb, ub = w.ite(c - span >= 0, c - span, 0), w.ite(c + span <= n - 1, c + span, n - 1)
    m = ub - lb
    return m * density + 1, (lambda i: at(lb) + w.ite(m >= 1, (at(ub) - at(lb)) * i / w.ite(m >= 1, m * density, 1), 0)), lb, ub

@case('C11', B + 'create_refined_axes_at ' + ' '.join(G + c + '.create_refined_grid_at' for c in CLS.values()))
def refined(w):
    g, kind, unit, ax = custom(w)
    coord = refine_args(w, ax)
    density, span, a, kw = dens(w)
    fr = w.frame(g=g)
    r = w.call(w.attr(g, 'create_refined_grid_at'), coord, *a, **kw)
    w.true('kind', w.isinstance(r, w.get(G + CLS[kind])))
    w.eq('units', w.attr(r, 'units'), (unit,) * len(ax))
    w.eq('number of axes', w.attr(r, 'ndim'), len(ax))
    w.eq('axis names', w.attr(r, 'axis_names'), NAMES[kind])
    for j, (n, x) in enumerate(ax):
        m, f, lb, ub = refined_axis(w, n, lambda i: w.at(x, i), coord[j], density, span)
        w.eq('axis', w.index(w.attr(r, 'axes'), j), w.mat((m,), f, 'real'))
    w.unchanged('the grid is not modified', fr)

@case('C11', B + 'create_refined_axes_at')
def refined_axes(w):
    g, kind, unit, ax = custom(w, ('ff1 sin', 'ff2 rad', 'nf m'))
    coord = refine_args(w, ax)
    density, span = w.int('density', 1), w.int('span', 1)
    r = w.call(w.attr(g, 'create_refined_axes_at'), coord, density, span)
    w.eq('number of axes', w.len(r), len(ax))
    for j, (n, x) in enumerate(ax):
        m, f, lb, ub = refined_axis(w, n, lambda i: w.at(x, i), coord[j], density, span)
        w.eq('axis', w.index(r, j), w.mat((m,), f, 'real'))

@case('C11', B + 'create_refined_axes_at')
def uniform_refinement(w):
    """on a uniform grid the refinement has the density-th part of the step, contains the point and stays within the grid"""
    steps = []
    g, kind, unit, ax = custom(w, ('ff1 rad', 'ff1 sin', 'ff2 deg', 'nf m'), True, 1, steps)
    coord = refine_args(w, ax)
    density, span = w.int('density', 1), w.int('span', 1)
    r = w.call(w.attr(g, 'create_refined_grid_at'), coord, density, span)
    for j, (n, x) in enumerate(ax):
        y = w.index(w.attr(r, 'axes'), j)
        m, f, lb, ub = refined_axis(w, n, lambda i: w.at(x, i), coord[j], density, span)
        s, e = w.at(x, 0), w.at(x, n - 1)
        k = (coord[j] - lb) * density
        w.true('has the point', w.and_(k >= 0, k <= m - 1))
        w.eq('contains the refined point', w.at(y, k), w.at(x, coord[j]))
        w.eq('starts on the grid', w.at(y, 0), w.at(x, lb))
        w.eq('ends on the grid', w.at(y, m - 1), w.at(x, ub))
        w.eq('subdivides the step', y, w.mat((m,), lambda i: s + steps[j] * lb + steps[j] * i / density, 'real'))

@case('C11', B + 'create_refined_grids_at')
def several(w):
    g, kind, unit, ax = custom(w, ('ff1 deg', 'ff2 rad', 'nf m'))
    K = w.pick('number of points', [1, 2, 3] if kind == 'ff1' else [2])
    cs = [[w.int('c%d_%d' % (j, k), 0) for k in range(K)] for j in range(len(ax))]
    for j, (n, x) in enumerate(ax):
        for c in cs[j]: w.assume(c <= n - 1)
    kw = {} if w.flag('defaults') else dict(density=w.int('density', 1), span=w.int('span', 1))
    density, span = kw.get('density', 10), kw.get('span', 1)
    r = w.call(w.attr(g, 'create_refined_grids_at'), *[w.list(*c) for c in cs], **kw)
    w.eq('number of grids', w.len(r), K)
    for k in range(K):
        q = w.index(r, k)
        w.true('kind', w.isinstance(q, w.get(G + CLS[kind])))
        w.eq('units', w.attr(q, 'units'), (unit,) * len(ax))
        for j, (n, x) in enumerate(ax):
            m, f, lb, ub = refined_axis(w, n, lambda i: w.at(x, i), cs[j][k], density, span)
            w.eq('axis', w.index(w.attr(q, 'axes'), j), w.mat((m,), f, 'real'))

@case('C11', B + 'create_refined_axes_at')
def invalid(w):
    g, kind, unit, ax = custom(w)
    coord = refine_args(w, ax)
    what = w.pick('what', ['density', 'span', 'short', 'long'])
    density, span = w.int('density', None if what == 'density' else 1), w.int('span', None if what == 'span' else 1)
    if what == 'density': w.assume(density <= 0)
    if what == 'span': w.assume(span <= 0)
    if what == 'short': coord = coord[:-1]
    if what == 'long': coord = coord + (w.int('extra', 0),)
    w.raises(what, ValueError, lambda: w.call(w.attr(g, 'create_refined_grid_at'), coord, density, span))

"""C27: plots, observed as the calls made on the axes."""
from .reg import case
from .common import A, S, Pert, coords
from .c_grids import custom, SRC
PS, PA = 'doatools.plotting.plot_spectrum.', 'doatools.plotting.plot_array.'
DRAW = ('plot', 'semilogy', 'semilogx', 'loglog', 'stem', 'scatter', 'imshow', 'pcolormesh', 'contourf', 'fill', 'bar', 'step', 'errorbar')

def drawn(w, on):
    """the drawing calls; all are made on the given axes"""
    cs = [r for r in w.records() if r['kind'] == 'call' and r['name'] in DRAW]
    w.true('everything is drawn on the given axes', all(c['on'] == on for c in cs))
    return cs

def logscale(w, on):
    cs = [r for r in w.records() if r['kind'] == 'call' and r['on'] == on]
    return any(r['name'] in ('semilogy', 'loglog') or r['name'] == 'set_yscale' and r['args'][:1] == ('log',) for r in cs)

def placed(w, name, kind, unit, k):
    """sources of the kind of the grid (1D ones in any unit)"""
    d = 1 if kind == 'ff1' else 2
    if kind == 'ff1': hi = {'rad': 1.5, 'deg': 89, 'sin': 1}[unit]; loc = w.arr(name, (k,), lo=-hi, hi=hi)
    elif kind == 'ff2': loc = w.arr(name, (k, 2), lo=0, hi=1.5)
    else: loc = w.arr(name, (k, 2))
    args = (loc,) if kind == 'nf' else (loc, unit)
    return w.call(w.get(S + SRC[kind]), *args), loc

def make_axes(w, lims=None):
    """(argument, name of the axes in the recorded calls)"""
    return w.recorder('ax', lims), 'ax'

def estimates(w, kind, unit, kw):
    """adds the sources to mark -> [(label, locations)]"""
    out = []
    for key, label, n in (('estimates', 'Estimates', 'ke'), ('ground_truth', 'Ground truth', 'kt')):
        if w.flag(key):
            k = w.dim(n)
            o, loc = placed(w, key, kind, unit, k)
            kw[key] = o
            out.append((label, loc, k))
    return out

def normalized(w, y, n):
    m = w.np.max(y)
    if w.case(m > 0): return w.mat((n,), lambda i: w.at(y, i) / m, 'real')
    return y

@case('C27', PS + 'plot_spectrum_1d ' + PS + '_build_spectrum_list ' + PS + '_normalize_by_maximum ' + PS + 'plot_spectrum')
def spectrum_1d(w):
    form = w.pick('spectra', ['array', 'list', 'tuple', 'dict'])
    every = not w.symbolic or form == 'array'       # the combinations of options which share no code are not multiplied
    g, kind, unit, ax = custom(w, ('ff1 rad', 'ff1 deg', 'ff1 sin') if every else ('ff1 deg',))
    (n, x), = ax
    ys = [w.arr('y%d' % i, (n,)) for i in range(1 if form == 'array' else 2)]
    sp = {'array': ys[0], 'list': w.list(*ys), 'tuple': tuple(ys), 'dict': w.dict({'one': ys[0], 'two': ys[-1]})}[form]
    kw = {}
    marks = estimates(w, kind, unit, kw) if not w.symbolic or form in ('array', 'dict') else []
    log = w.flag('log') if every or form == 'dict' else False
    discrete = w.flag('discrete')
    if log: kw['use_log_scale'] = True
    if discrete: kw['discrete'] = True
    a, on = make_axes(w)
    fr = w.frame(y=ys, x=x, m=[loc for _, loc, _ in marks], g=g)
    if every and w.flag('through plot_spectrum'):
        r = w.call(w.get(PS + 'plot_spectrum'), sp, g, a, **kw)
        w.is_('the axes are returned', w.index(r, 0), a)
        r = w.index(r, 1)
    else: r = w.call(w.get(PS + 'plot_spectrum_1d'), sp, g, a, **kw)
    w.unchanged('inputs are not modified', fr)
    cs = drawn(w, on)
    w.eq('number of curves and marks', len(cs), len(ys) + len(marks))
    if len(cs) != len(ys) + len(marks): return
    for i, (c, y) in enumerate(zip(cs, ys)):
        w.true('lines or stems', (c['name'] == 'stem') == discrete and c['name'] in ('plot', 'semilogy', 'stem'))
        w.eq('grid axis', c['args'][0], x)
        w.eq('normalized spectrum', c['args'][1], normalized(w, y, n))
        if form == 'dict': w.true('label', c['kw'].get('label') == ('one', 'two')[i])
    w.true('logarithmic scale as requested', logscale(w, on) == log)
    for c, (label, loc, k) in zip(cs[len(ys):], marks):
        w.eq('position of the marks', c['args'][0], loc)
        w.eq('height of the marks', c['args'][1], w.mat((k,), lambda i: 1, 'real'))
        w.true('label of the marks', c['kw'].get('label') == label)
    w.eq('returned containers', w.len(r), len(cs))
    for i, c in enumerate(cs): w.is_('container', w.index(r, i), c['result'])
    w.true('legend', any(q['name'] == 'legend' and q['on'] == on for q in w.records()) == (form == 'dict' or bool(marks)))

@case('C27', PS + 'plot_spectrum_2d ' + PS + 'plot_spectrum')
def spectrum_2d(w):
    g, kind, unit, ax = custom(w, ('ff2 rad', 'ff2 deg', 'nf m'))
    (n0, x0), (n1, x1) = ax
    sp = w.arr('y', (n0, n1))
    kw = {}
    marks = estimates(w, kind, unit, kw)
    log, swap = w.flag('log'), w.flag('swap')
    if log: kw['use_log_scale'] = True
    if swap: kw['swap_axes'] = True
    a, on = make_axes(w)
    fr = w.frame(y=sp, x0=x0, x1=x1, m=[loc for _, loc, _ in marks], g=g)
    if w.flag('through plot_spectrum'):
        r = w.call(w.get(PS + 'plot_spectrum'), sp, g, a, **kw)
        w.is_('the axes are returned', w.index(r, 0), a)
        r = w.index(r, 1)
    else: r = w.call(w.get(PS + 'plot_spectrum_2d'), sp, g, a, **kw)
    w.unchanged('inputs are not modified', fr)
    cs = drawn(w, on)
    w.eq('number of images and marks', len(cs), 1 + len(marks))
    if len(cs) != 1 + len(marks): return
    im = cs[0]
    w.true('an image', im['name'] == 'imshow')
    hx, hy = (x1, x0) if swap else (x0, x1)
    if swap: want = sp
    else: want = w.mat((n1, n0), lambda i, j: w.at(sp, j, i), 'real')
    w.eq('rows of the image run along the vertical axis', im['args'][0], want)
    w.true('the first row is at the bottom', im['kw'].get('origin') == 'lower')
    ext = im['kw']['extent']
    w.eq('extent', w.len(ext), 4)
    for i, v in enumerate((w.np.min(hx), w.np.max(hx), w.np.min(hy), w.np.max(hy))): w.eq('extent', w.index(ext, i), v)
    w.true('logarithmic scale as requested', (im['kw'].get('norm') is not None) == log)
    h = 1 if swap else 0
    for c, (label, loc, k) in zip(cs[1:], marks):
        w.eq('horizontal position of the marks', c['args'][0], w.mat((k,), lambda i: w.at(loc, i, h), 'real'))
        w.eq('vertical position of the marks', c['args'][1], w.mat((k,), lambda i: w.at(loc, i, 1 - h), 'real'))
        w.true('label of the marks', c['kw'].get('label') == label)
    w.eq('returned containers', w.len(r), len(cs))
    for i, c in enumerate(cs): w.is_('container', w.index(r, i), c['result'])
    for nm, j in (('set_xlabel', h), ('set_ylabel', 1 - h)):
        t = [q['args'][0] for q in w.records() if q['on'] == on and q['name'] == nm]
        w.eq('axis labels', t, ['%s/%s' % (w.index(w.attr(g, 'axis_names'), j), unit)])

@case('C27', PS + 'plot_spectrum_1d ' + PS + 'plot_spectrum_2d ' + PS + '_build_spectrum_list')
def wrong_shapes(w):
    g, kind, unit, ax = custom(w, ('ff1 rad', 'ff2 deg'))
    d = len(ax)
    f = w.get(PS + ('plot_spectrum' if w.flag('through plot_spectrum') else 'plot_spectrum_%dd' % d))
    how = w.pick('wrong', ['size', 'rank'] + (['second of a list', 'no spectra', 'not a spectrum'] if d == 1 else []))
    sh = tuple(n for n, _ in ax)
    if how == 'rank': sp = w.arr('y', (1,) + sh)
    elif how == 'no spectra': sp = w.list()
    elif how == 'not a spectrum': sp = 3
    else:
        bad = tuple(w.dim('b%d' % i) for i in range(d))
        w.assume(w.or_(*[w.not_(w.eq_(p, q)) for p, q in zip(bad, sh)]))
        sp = w.arr('y', bad)
        if how == 'second of a list': sp = w.list(w.arr('z', sh), sp)
    a, on = make_axes(w)
    w.raises('rejected', ValueError, lambda: w.call(f, sp, g, a))

@case('C27', PS + 'plot_spectrum_1d ' + PS + 'plot_spectrum_2d')
def wrong_units(w):
    g, kind, unit, ax = custom(w, ('ff1 rad', 'ff1 sin', 'ff2 rad', 'ff2 deg', 'nf m'))
    other = {'ff1 rad': 'ff1 deg', 'ff1 sin': 'ff1 rad', 'ff2 rad': 'ff2 deg', 'ff2 deg': 'ff2 rad', 'nf m': 'ff2 rad'}[kind + ' ' + unit].split()
    k = w.dim('k')
    o, loc = placed(w, 'loc', other[0], other[1], k)
    f = w.get(PS + ('plot_spectrum' if w.flag('through plot_spectrum') else 'plot_spectrum_%dd' % len(ax)))
    sp = w.arr('y', tuple(n for n, _ in ax))
    a, on = make_axes(w)
    key = w.pick('which', ['estimates', 'ground_truth'])
    kw = {key: o}
    if w.flag('the others are right'):       # each set of sources is examined, not the first one only
        kw['ground_truth' if key == 'estimates' else 'estimates'] = placed(w, 'right', kind, unit, w.dim('k2'))[0]
    w.raises('rejected', ValueError, lambda: w.call(f, sp, g, a, **kw))

@case('C27', PS + 'plot_spectrum')
def new_figure(w):
    g, kind, unit, ax = custom(w, ('ff1 deg', 'ff2 deg'))
    sp = w.arr('y', tuple(n for n, _ in ax))
    n0 = len(w.records())
    r = w.call(w.get(PS + 'plot_spectrum'), sp, g)
    on = w.index(r, 0)._name
    w.true('axes of a new figure', on.startswith('plt.'))
    w.eq('one drawing', len(drawn(w, on)), 1)
    w.true('shown', any(q['on'] == 'plt' and q['name'] == 'show' for q in w.records()))

UD = 'doatools.model.coarray.compute_unique_location_differences'
@case('C27', PA + 'plot_array ' + PA + 'plot_coarray ' + PA + '_plot_array_impl ' + PA + '_auto_scatter ' + PA + '_fix_3d_aspect')
def arrays(w):
    m = w.dim('m')
    d = w.pick('d', [1, 2, 3])
    L = w.arr('L', (m, d))
    pk = w.pick('perturbations', ['none', 'gain', 'loc', 'gain+loc'])
    e = w.pick('e', [d, 3] if d < 3 else [3]) if 'loc' in pk else d
    kinds = [] if pk == 'none' else pk.split('+')
    p = Pert(w, m, kinds, [w.flag('known')] * len(kinds) if kinds else [], e)
    arr = w.call(w.get(A + 'ArrayDesign'), L, 'x', p.objs())
    co = w.flag('coarray')
    show = w.flag('show errors')
    a, on = make_axes(w, (0, 1))        # the view limits do not matter
    calls = []
    if w.symbolic:
        def unique(locations, atol=0.0, rtol=1e-8):
            x = locations
            u = w.arr('U%d' % len(calls), (w.dim('u%d' % len(calls)), w.shape(x)[1]))
            calls.append((x, u))
            return u
        w.contract(UD, unique)
    fr = w.frame(a=arr, L=L)
    nw = w.warned()
    r = w.call(w.get(PA + ('plot_coarray' if co else 'plot_array')), arr, a, **({'show_location_errors': True} if show else {}))
    w.is_('the axes are returned', r, a)
    w.unchanged('the array is not modified', fr)
    both = show and 'loc' in pk
    w.true('warned about missing location errors', (w.warned() > nw) == (show and not both))
    cs = drawn(w, on)
    w.eq('number of scatter plots', len(cs), 1 + both)
    if len(cs) != 1 + both: return
    act = p.actual('all', coords(w, L, d)) if both else None
    for ci, (c, (x, dd)) in enumerate(zip(cs, [(L, d)] + ([(w.attr(arr, 'actual_element_locations'), e)] if both else []))):
        w.true('a scatter plot', c['name'] == 'scatter')
        if co:
            if w.symbolic:
                w.eq('differences of', calls[ci][0], x)
                n, x = w.shape(calls[ci][1])[0], calls[ci][1]
            else:
                x = w.get(UD)(x)
                n = x.shape[0]
        else: n = m
        w.true('every coordinate is shown', dd <= len(c['args']) <= 3)
        for j, v in enumerate(c['args']):
            w.eq('coordinates', v, w.mat((n,), lambda i: w.at(x, i, j) if j < dd else 0, 'real'))
    if both: w.true('labels', [c['kw'].get('label') for c in cs] == ['Nominal locations', 'Actual locations'])
    if both and not co:
        for q in range(e): w.eq('actual locations', cs[1]['args'][q], w.mat((m,), lambda i: act(i)(q), 'real'))

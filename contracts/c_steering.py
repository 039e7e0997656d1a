"""C02, C03, C04, C05: steering matrices, phase delays, derivatives, perturbations."""
from .reg import case
from .common import A, P, S, EL, FF1, FF2, Src, Pert, coords, steering, dsteering

CONFIGS = [
    ([], []), (['loc'], [True]), (['gain'], [False]), (['phase'], [True]), (['mc'], [True]),
    (['gain', 'mc'], [True, False]), (['mc', 'gain'], [True, True]), (['mc', 'phase'], [False, True]),
    (['loc', 'gain', 'phase', 'mc'], [True, False, True, False]), (['mc', 'phase', 'gain', 'loc'], [True, False, True, True]),
    (['loc', 'gain', 'phase', 'mc'], [False, True, False, True]),
]

def array(w, m, d, cfgs=CONFIGS, e=None, **kw):
    L = w.arr('L', (m, d))
    kinds, known = w.pick('perturbations', cfgs)
    pert = Pert(w, m, kinds, known, e or d, 'any')
    if kinds: kw['perturbations'] = pert.objs()
    a = w.call(w.get(A + 'ArrayDesign'), L, 'array', **kw)
    return a, L, pert

@case('C02', A + 'ArrayDesign.steering_matrix ' + P + 'LocationErrors.perturb_sensor_locations ' + P + 'GainErrors.perturb_steering_matrix ' + P + 'PhaseErrors.perturb_steering_matrix ' + P + 'MutualCoupling.perturb_steering_matrix', weight=2)
def steering_perturbed(w):
    m, K, lam = w.dim('m'), w.dim('K'), w.scalar('wavelength', pos=True)
    a, L, pert = array(w, m, 1)
    src = Src(w, K, ('ff1 rad',))
    sel = w.pick('selection', ['all', 'known', 'none', 'default'])
    fr = w.frame(a=a, s=src.obj)
    V = w.call(w.attr(a, 'steering_matrix'), src.obj, lam) if sel == 'default' else w.call(w.attr(a, 'steering_matrix'), src.obj, lam, perturbations=sel)
    f = steering(w, src, coords(w, L, 1), lam, pert, 'all' if sel == 'default' else sel)
    w.eq('perturbed steering matrix', V, w.mat((m, K), f, 'complex'))
    w.unchanged('inputs are not modified', fr)

@case('C02', A + 'ArrayDesign.steering_matrix ' + P + 'LocationErrors.perturb_sensor_locations', weight=2)
def steering_sources(w):
    m, K, lam = w.dim('m'), w.dim('K'), w.scalar('wavelength', pos=True)
    d, e = w.pick('d', [1, 2, 3]), w.pick('e', [1, 2, 3])
    a, L, pert = array(w, m, d, [([], []), (['loc', 'gain'], [True, True]), (['phase', 'loc'], [True, False])], e)
    src = Src(w, K, FF1 + FF2 + ('nf',))
    sel = w.pick('selection', ['known', 'all'])
    V = w.call(w.attr(a, 'steering_matrix'), src.obj, lam, False, sel)
    w.eq('steering matrix', V, w.mat((m, K), steering(w, src, coords(w, L, d), lam, pert, sel), 'complex'))

@case('C02', A + 'ArrayDesign.steering_matrix')
def selection_rejected(w):
    m, K, lam = w.dim('m'), w.dim('K'), w.scalar('wavelength', pos=True)
    a, L, pert = array(w, m, 1, [([], []), (['gain'], [True])])
    src = Src(w, K, ('ff1 rad', 'nf'))
    sel = w.pick('selection', ['unknown', 'ALL', '', 'All', 'false'])
    w.raises('unknown selection', ValueError, lambda: w.call(w.attr(a, 'steering_matrix'), src.obj, lam, w.pick('derivatives', [False]), sel))

@case('C02', A + 'ArrayDesign.steering_matrix ' + EL + 'CustomNonisotropicSensor._calc_spatial_response ' + EL + 'ArrayElement.calc_spatial_response', weight=2)
def steering_elements(w):
    """element responses: scalar and vector elements, far and near field"""
    m, K, lam = w.dim('m'), w.dim('K'), w.scalar('wavelength', pos=True)
    d = w.pick('d', [1, 2])
    out = w.pick('element outputs', [1, 2, 3])
    q = [w.scalar('q%d' % i) for i in range(3)]
    flatten = w.pick('flatten', ['default', True, False])
    np = w.np
    def resp(az, el, c): return q[c] + np.cos(az) * (c + 1) + np.sin(el)
    def f_sr(r, az, el, p): return resp(az, el, 0) if out == 1 else np.stack([resp(az, el, c) for c in range(out)])
    el = w.call(w.get(EL + 'CustomNonisotropicSensor'), f_sr, out)
    cfgs = [([], []), (['loc'], [True])] + ([(['gain', 'phase'], [True, False])] if out == 1 else [])
    a, L, pert = array(w, m, d, cfgs, element=el)
    src = Src(w, K, ('ff1 rad', 'ff1 deg', 'ff2 rad', 'nf'))
    sel = w.pick('selection', ['all', 'none'])
    act = pert.actual(sel, coords(w, L, d))
    def res(c, i, k):
        if src.kind.startswith('ff1'): return q[c] + w.cos(w.pi / 2 - src.rad(w.at(src.loc, k))) * (c + 1)
        if src.kind.startswith('ff2'): return q[c] + w.cos(src.rad(w.at(src.az, k))) * (c + 1) + w.sin(src.rad(w.at(src.el, k)))
        x, y = w.at(src.loc, k, 0) - act(i)(0), w.at(src.loc, k, 1) - act(i)(1)
        return q[c] + (c + 1) * x / w.sqrt(x * x + y * y)
    base = lambda i, k: w.exp(w.j * src.delay(act(i), k, lam, act(0)))
    kw = {} if flatten == 'default' else {'flatten': flatten}
    V = w.call(w.attr(a, 'steering_matrix'), src.obj, lam, False, sel, **kw)
    w.eq('output size', w.attr(a, 'output_size'), m * out)
    if out == 1: w.eq('scalar response', V, w.mat((m, K), pert.apply(sel, lambda i, k: res(0, i, k) * base(i, k)), 'complex'))
    elif flatten is False:
        w.eq('tensor', V, np.stack([w.mat((m, K), lambda i, k, c=c: res(c, i, k) * base(i, k), 'complex') for c in range(out)]))
    else:
        w.eq('output-major rows', V, np.concatenate([w.mat((m, K), lambda i, k, c=c: res(c, i, k) * base(i, k), 'complex') for c in range(out)]))

@case('C02', A + 'ArrayDesign._parse_input_perturbations ' + A + 'ArrayDesign._add_perturbation_from_list')
def dictionary_form(w):
    m, K, lam = w.dim('m'), w.dim('K'), w.scalar('wavelength', pos=True)
    L = w.arr('L', (m, 2))
    pert = Pert(w, m, ['loc', 'gain', 'phase', 'mc'], [True, False, True, True], w.pick('e', [1, 2, 3]))
    key = {'loc': 'location_errors', 'gain': 'gain_errors', 'phase': 'phase_errors', 'mc': 'mutual_coupling'}
    keep = w.pick('order', [[0, 1, 2, 3], [3, 2, 1, 0], [1], [0, 3]])
    pert.items = [pert.items[i] for i in keep]
    d = w.dict({key[kd]: (x, kn) for kd, kn, x, o in pert.items})
    a = w.call(w.get(A + 'ArrayDesign'), L, 'array', d)
    src = Src(w, K, ('ff1 sin',))
    sel = w.pick('selection', ['all', 'known'])
    w.eq('steering matrix', w.call(w.attr(a, 'steering_matrix'), src.obj, lam, perturbations=sel), w.mat((m, K), steering(w, src, coords(w, L, 2), lam, pert, sel), 'complex'))

# --- C03 ---------------------------------------------------------------------------------------------------
@case('C03', S + 'FarField1DSourcePlacement.phase_delay_matrix ' + S + 'FarField2DSourcePlacement.phase_delay_matrix ' + S + 'NearField2DSourcePlacement.phase_delay_matrix')
def phase_delay(w):
    m, K, lam = w.dim('m'), w.dim('K'), w.scalar('wavelength', pos=True)
    d = w.pick('d', [1, 2, 3])
    L = w.arr('L', (m, d))
    src = Src(w, K, FF1 + FF2 + ('nf',))
    loc = coords(w, L, d)
    fr = w.frame(L=L, s=src.obj)
    D = w.call(w.attr(src.obj, 'phase_delay_matrix'), L, lam)
    w.eq('phase delay', D, w.mat((m, K), lambda i, k: src.delay(loc(i), k, lam, loc(0))))
    w.unchanged('inputs are not modified', fr)

@case('C03', S + 'FarField1DSourcePlacement.phase_delay_matrix ' + S + 'FarField1DSourcePlacement.as_unit ' + S + 'FarField2DSourcePlacement.as_unit')
def unit_independent(w):
    m, K, lam = w.dim('m'), w.dim('K'), w.scalar('wavelength', pos=True)
    d = w.pick('d', [1, 2, 3])
    L = w.arr('L', (m, d))
    src = Src(w, K, FF1 + FF2)
    to = w.pick('to', ['rad', 'deg', 'sin'] if src.kind.startswith('ff1') else ['rad', 'deg'])
    D = w.call(w.attr(src.obj, 'phase_delay_matrix'), L, lam)
    E = w.call(w.attr(w.call(w.attr(src.obj, 'as_unit'), to), 'phase_delay_matrix'), L, lam)
    w.eq('independent of the unit', D, E)

@case('C03', S + '_validate_sensor_location_ndim')
def location_dimension(w):
    m, K, lam = w.dim('m'), w.dim('K'), w.scalar('wavelength', pos=True)
    src = Src(w, K, FF1 + FF2 + ('nf',))
    L = w.arr('L', (m, w.pick('d', [0, 4, 5])))
    w.raises('location dimension', ValueError, lambda: w.call(w.attr(src.obj, 'phase_delay_matrix'), L, lam))

@case('C03', S + 'NearField2DSourcePlacement.phase_delay_matrix')
def near_field_integer(w):
    """integer locations are handled as well"""
    m, K, lam = w.dim('m'), w.dim('K'), w.scalar('wavelength', pos=True)
    d = w.pick('d', [1, 2, 3])
    L = w.arr('L', (m, d), 'int')
    src = Src(w, K, ('nf', 'ff1 deg', 'ff2 deg'))
    loc = coords(w, L, d)
    w.eq('phase delay', w.call(w.attr(src.obj, 'phase_delay_matrix'), L, lam), w.mat((m, K), lambda i, k: src.delay(loc(i), k, lam, loc(0))))

# --- C04 ---------------------------------------------------------------------------------------------------
@case('C04', S + 'FarField1DSourcePlacement._phase_delay_matrix_rad ' + S + 'FarField1DSourcePlacement._phase_delay_matrix_sin')
def delay_derivative(w):
    m, K, lam = w.dim('m'), w.dim('K'), w.scalar('wavelength', pos=True)
    d = w.pick('d', [1, 2, 3])
    L = w.arr('L', (m, d))
    src = Src(w, K, FF1, interior=True)
    loc = coords(w, L, d)
    fr = w.frame(L=L, s=src.obj)
    D = w.call(w.attr(src.obj, 'phase_delay_matrix'), L, lam, True)
    w.eq('phase delay', w.index(D, 0), w.mat((m, K), lambda i, k: src.delay(loc(i), k, lam)))
    w.eq('its derivative', w.index(D, 1), w.mat((m, K), lambda i, k: src.ddelay(loc(i), k, lam)))
    w.eq('two matrices', w.len(D), 2)
    w.unchanged('inputs are not modified', fr)

@case('C04', A + 'ArrayDesign.steering_matrix', weight=2)
def steering_derivative(w):
    m, K, lam = w.dim('m'), w.dim('K'), w.scalar('wavelength', pos=True)
    a, L, pert = array(w, m, 1)
    src = Src(w, K, ('ff1 rad',))
    sel = w.pick('selection', ['all', 'known', 'none'])
    R = w.call(w.attr(a, 'steering_matrix'), src.obj, lam, True, sel)
    loc = coords(w, L, 1)
    w.eq('steering matrix and one derivative', w.len(R), 2)
    w.eq('steering matrix', w.index(R, 0), w.mat((m, K), steering(w, src, loc, lam, pert, sel), 'complex'))
    w.eq('derivative', w.index(R, 1), w.mat((m, K), dsteering(w, src, loc, lam, pert, sel), 'complex'))

@case('C04', A + 'ArrayDesign.steering_matrix', weight=2)
def steering_derivative_units(w):
    m, K, lam = w.dim('m'), w.dim('K'), w.scalar('wavelength', pos=True)
    d, e = w.pick('d', [1, 2, 3]), w.pick('e', [1, 2, 3])
    a, L, pert = array(w, m, d, [([], []), (['loc', 'gain', 'mc', 'phase'], [True, True, False, False])], e)
    src = Src(w, K, FF1, interior=True)
    sel = w.pick('selection', ['known', 'all'])
    R = w.call(w.attr(a, 'steering_matrix'), src.obj, lam, compute_derivatives=True, perturbations=sel)
    w.eq('derivative', w.index(R, 1), w.mat((m, K), dsteering(w, src, coords(w, L, d), lam, pert, sel), 'complex'))
    w.eq('steering matrix', w.index(R, 0), w.mat((m, K), steering(w, src, coords(w, L, d), lam, pert, sel), 'complex'))

@case('C04', A + 'ArrayDesign.steering_matrix')
def derivative_rejected(w):
    m, K, lam = w.dim('m'), w.dim('K'), w.scalar('wavelength', pos=True)
    what = w.pick('what', ['sources', 'element', 'vector element'])
    kw = {}
    np = w.np
    if what == 'element': kw['element'] = w.call(w.get(EL + 'CustomNonisotropicSensor'), lambda r, az, el, p: np.cos(az))
    if what == 'vector element': kw['element'] = w.call(w.get(EL + 'CustomNonisotropicSensor'), lambda r, az, el, p: np.stack([np.cos(az), np.sin(az)]), 2)
    a = w.call(w.get(A + 'ArrayDesign'), w.arr('L', (m, w.pick('d', [1, 2, 3]))), 'array', **kw)
    src = Src(w, K, FF2 + ('nf',) if what == 'sources' else FF1 + FF2 + ('nf',))
    r, e = w.trying(lambda: w.call(w.attr(a, 'steering_matrix'), src.obj, lam, True))
    w.true('rejected', e is not None)

# --- C05 ---------------------------------------------------------------------------------------------------
KEYS = {'loc': 'location_errors', 'gain': 'gain_errors', 'phase': 'phase_errors', 'mc': 'mutual_coupling'}
CLS = {'loc': 'LocationErrors', 'gain': 'GainErrors', 'phase': 'PhaseErrors', 'mc': 'MutualCoupling'}

def make(w, m, kd, kn, name, e=1):
    x = w.arr(name, {'loc': (m, e), 'gain': (m,), 'phase': (m,), 'mc': (m, m)}[kd])
    return x, kn, w.call(w.get(P + CLS[kd]), x, kn)

@case('C05', A + 'ArrayDesign.get_perturbed_copy ' + A + 'ArrayDesign.perturbations ' + A + 'ArrayDesign.has_perturbation ' + A + 'ArrayDesign.is_perturbation_known')
def perturbed_copy(w):
    m = w.dim('m')
    old = w.pick('old', [[], ['gain'], ['loc', 'phase'], ['mc', 'gain', 'loc', 'phase']])
    new = w.pick('new', [[], ['gain'], ['phase', 'loc'], ['gain', 'mc']])
    form = w.pick('form', ['list', 'dict'])
    name = w.pick('name', [None, 'other'])
    L = w.arr('L', (m, 2))
    has = {k: make(w, m, k, True, 'old_' + k) for k in old}
    kw = {'perturbations': w.list(*[has[k][2] for k in old])} if old else {}
    if w.flag('grid'): a = w.call(w.get(A + 'GridBasedArrayDesign'), w.arr('I', (m, 2), 'int'), w.scalar('d0', pos=True), 'original', **kw)
    else: a = w.call(w.get(A + 'ArrayDesign'), L, 'original', **kw)
    loc = w.attr(a, 'element_locations')
    get = {k: make(w, m, k, False, 'new_' + k, 2) for k in new}
    arg = w.list(*[get[k][2] for k in new]) if form == 'list' else w.dict({KEYS[k]: (get[k][0], False) for k in new})
    fr = w.frame(a=a, arg=arg)
    b = w.call(w.attr(a, 'get_perturbed_copy'), arg, *([] if name is None else [name]))
    w.unchanged('the original is not modified', fr)
    w.eq('name of the original', w.attr(a, 'name'), 'original')
    w.eq('perturbations of the original', w.len(w.attr(a, 'perturbations')), len(old))
    w.eq('name of the copy', w.attr(b, 'name'), name or 'original')
    w.eq('locations of the copy', w.attr(b, 'element_locations'), loc)
    w.eq('locations of the original', w.attr(a, 'element_locations'), loc)
    want = dict(has, **get)
    w.eq('number of perturbations', w.len(w.attr(b, 'perturbations')), len(want))
    w.eq('is perturbed', w.attr(b, 'is_perturbed'), len(want) > 0)
    for k in CLS:
        c = w.get(P + CLS[k])
        w.eq('has ' + k, w.call(w.attr(b, 'has_perturbation'), c), k in want)
        w.eq('original has ' + k, w.call(w.attr(a, 'has_perturbation'), c), k in has)
        if k in want:
            w.eq('parameters ' + k, w.call(w.attr(b, 'get_perturbation_params'), c), want[k][0])
            w.eq('known ' + k, w.call(w.attr(b, 'is_perturbation_known'), c), want[k][1])
        if k in has:
            w.is_('original parameters ' + k, w.call(w.attr(a, 'get_perturbation_params'), c), has[k][0])
    # later changes of the copy do not reach the original
    g = make(w, m, 'mc', True, 'later')
    c = w.call(w.attr(b, 'get_perturbed_copy'), w.list(g[2]))
    w.eq('second copy', w.call(w.attr(c, 'get_perturbation_params'), w.get(P + 'MutualCoupling')), g[0])
    w.eq('first copy keeps its own', w.len(w.attr(b, 'perturbations')), len(want))
    w.unchanged('the original is still not modified', fr)

@case('C05', A + 'ArrayDesign.get_perturbation_free_copy')
def free_copy(w):
    m = w.dim('m')
    old = w.pick('old', [[], ['gain'], ['mc', 'gain', 'loc', 'phase']])
    name = w.pick('name', [None, 'other'])
    has = {k: make(w, m, k, True, 'old_' + k) for k in old}
    L = w.arr('L', (m, 2))
    a = w.call(w.get(A + 'ArrayDesign'), L, 'original', w.list(*[has[k][2] for k in old]))
    fr = w.frame(a=a)
    b = w.call(w.attr(a, 'get_perturbation_free_copy'), *([] if name is None else [name]))
    w.unchanged('the original is not modified', fr)
    w.eq('no perturbations', w.len(w.attr(b, 'perturbations')), 0)
    w.eq('not perturbed', w.attr(b, 'is_perturbed'), False)
    w.eq('original keeps its perturbations', w.len(w.attr(a, 'perturbations')), len(old))
    w.eq('original perturbed', w.attr(a, 'is_perturbed'), len(old) > 0)
    w.eq('name', w.attr(b, 'name'), name or 'original')
    w.eq('original name', w.attr(a, 'name'), 'original')
    w.eq('locations', w.attr(b, 'element_locations'), L)
    w.eq('actual locations', w.attr(b, 'actual_element_locations'), L)

@case('C05', A + 'ArrayDesign.actual_element_locations ' + A + 'ArrayDesign.element_locations ' + P + 'LocationErrors.perturb_sensor_locations')
def actual_locations(w):
    m, d, e = w.dim('m'), w.pick('d', [1, 2, 3]), w.pick('e', [1, 2, 3])
    s, t = w.pick('sort', ['real', 'int']), w.pick('errors', ['real', 'int'])
    L, E = w.arr('L', (m, d), s), w.arr('E', (m, e), t)
    kinds = w.pick('others', [[], ['gain']])
    ps = [make(w, m, k, True, k)[2] for k in kinds] + [w.call(w.get(P + 'LocationErrors'), E, w.flag('known'))]
    a = w.call(w.get(A + 'ArrayDesign'), L, 'array', w.list(*ps))
    fr = w.frame(a=a, L=L, E=E)
    dd = max(d, e)
    w.eq('actual locations', w.attr(a, 'actual_element_locations'), w.np.stack([w.mat((m,), lambda i, c=c: (w.at(L, i, c) if c < d else 0) + (w.at(E, i, c) if c < e else 0)) for c in range(dd)], 1))
    w.eq('actual dimension', w.attr(a, 'actual_ndim'), dd)
    w.eq('nominal locations', w.attr(a, 'element_locations'), L)
    w.eq('nominal dimension', w.attr(a, 'ndim'), d)
    w.unchanged('nothing is modified', fr)

@case('C05', A + 'ArrayDesign._add_perturbation_from_list ' + P + 'LocationErrors.is_applicable_to ' + P + 'GainErrors.is_applicable_to ' + P + 'PhaseErrors.is_applicable_to ' + P + 'MutualCoupling.is_applicable_to')
def not_applicable(w):
    m, n = w.dim('m'), w.dim('n')
    L = w.arr('L', (m, 2))
    kd = w.pick('kind', ['loc', 'gain', 'phase', 'mc'])
    what = w.pick('what', ['twice', 'size', 'element', 'size on copy'])
    f = w.get(A + 'ArrayDesign')
    if what == 'twice':
        ps = w.list(make(w, m, kd, True, 'x')[2], make(w, m, kd, w.flag('known'), 'y')[2])
        r, e = w.trying(lambda: w.call(f, L, 'array', ps))
        w.true('two of one type rejected', e is not None)
    elif what == 'element':
        if kd == 'loc': return
        el = w.call(w.get(EL + 'CustomNonisotropicSensor'), lambda r, az, el, p: r, w.pick('outputs', [2, 3]))
        ps = w.list(make(w, m, kd, True, 'x')[2])
        r, e = w.trying(lambda: w.call(f, L, 'array', ps, el))
        w.true('vector element rejected', e is not None)
    else:
        ps = w.list(make(w, n, kd, True, 'x')[2])
        if w.case(w.eq_(m, n)):
            a = w.call(f, L, 'array', ps)
            w.eq('accepted', w.len(w.attr(a, 'perturbations')), 1)
        elif what == 'size':
            r, e = w.trying(lambda: w.call(f, L, 'array', ps))
            w.true('wrong size rejected', e is not None)
        else:
            a = w.call(f, L, 'array')
            r, e = w.trying(lambda: w.call(w.attr(a, 'get_perturbed_copy'), ps))
            w.true('wrong size rejected by the copy', e is not None)
            w.eq('original still unperturbed', w.len(w.attr(a, 'perturbations')), 0)

@case('C05', P + 'LocationErrors.__init__ ' + P + 'GainErrors.__init__ ' + P + 'PhaseErrors.__init__ ' + P + 'MutualCoupling.__init__ ' + P + 'ArrayPerturbation.params')
def parameter_shapes(w):
    m, n = w.dim('m'), w.dim('n')
    kd = w.pick('kind', ['loc', 'gain', 'phase', 'mc'])
    f = w.get(P + CLS[kd])
    kn = w.pick('known', [None, True, False])
    args = [] if kn is None else [kn]
    form = w.pick('shape', ['vector', 'matrix', 'tensor', 'list'])
    if form == 'vector': x = w.arr('x', (m,))
    elif form == 'matrix': x = w.arr('x', (m, n))
    elif form == 'tensor': x = w.arr('x', (m, n, 2))
    else: x = w.list(0.5, 1.5) if kd in ('gain', 'phase') else w.list(w.list(1.0, 0.5), w.list(0.5, 2.0))
    good = form == 'list' or kd in ('gain', 'phase') and form == 'vector' or kd == 'loc' and form == 'matrix' and w.case(n <= 3) or kd == 'mc' and form == 'matrix' and w.case(w.eq_(m, n))
    if good:
        o = w.call(f, x, *args)
        w.eq('parameters', w.attr(o, 'params'), w.np.array(x) if form == 'list' else x)
        w.eq('known', w.attr(o, 'is_known'), bool(kn))
    else: w.raises('shape rejected', ValueError, lambda: w.call(f, x, *args))

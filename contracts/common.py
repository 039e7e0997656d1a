"""Specifications shared by several contracts: source placements, perturbations, steering matrix."""
A = 'doatools.model.arrays.'
P = 'doatools.model.perturbations.'
S = 'doatools.model.sources.'
EL = 'doatools.model.array_elements.'
FF1 = ('ff1 rad', 'ff1 deg', 'ff1 sin')
FF2 = ('ff2 rad', 'ff2 deg')

class Src:
    """a source placement together with what its directions mean"""
    def __init__(self, w, K, kinds=FF1, name='t', interior=False, spaced=False):
        self.w, self.K = w, K
        self.kind = kind = w.pick('source kind', list(kinds))
        cl = not interior
        if kind.startswith('ff1'):
            self.unit = u = kind[4:]
            lim = {'rad': w.pi / 2, 'deg': 90, 'sin': 1}[u]
            self.loc = w.arr(name, (K,), lo=-lim, hi=lim, closed=cl, spaced=spaced)
            self.obj = w.call(w.get(S + 'FarField1DSourcePlacement'), self.loc, u)
        elif kind.startswith('ff2'):
            self.unit = u = kind[4:]
            lim = w.pi if u == 'rad' else 180
            az, el = w.arr(name + '_az', (K,), lo=-lim, hi=lim, closed=cl), w.arr(name + '_el', (K,), lo=-lim / 2, hi=lim / 2, closed=cl)
            self.az, self.el = az, el
            self.loc = w.mat((K, 2), lambda k, c: w.ite(c < 1, w.at(az, k), w.at(el, k)))
            self.obj = w.call(w.get(S + 'FarField2DSourcePlacement'), self.loc, u)
        else:
            self.unit = 'm'
            self.loc = w.arr(name, (K, 2))
            self.obj = w.call(w.get(S + 'NearField2DSourcePlacement'), self.loc)
    def rad(self, x):
        return x * self.w.pi / 180 if self.unit == 'deg' else x
    def sc(self, k):
        """sine and cosine of the broadside angle of source k"""
        w = self.w
        x = w.at(self.loc, k)
        if self.unit == 'sin': return x, w.sqrt(1 - x * x)
        return w.sin(self.rad(x)), w.cos(self.rad(x))
    def delay(self, loc, k, lam, first=None):
        """phase delay at a sensor with coordinate function loc(c)"""
        w = self.w
        if self.kind.startswith('ff1'):
            s, c = self.sc(k)
            return 2 * w.pi / lam * (loc(0) * s + loc(1) * c)
        if self.kind.startswith('ff2'):
            a, e = self.rad(w.at(self.az, k)), self.rad(w.at(self.el, k))
            return 2 * w.pi / lam * (loc(0) * (w.cos(e) * w.cos(a)) + loc(1) * (w.cos(e) * w.sin(a)) + loc(2) * w.sin(e))
        def dist(l):
            dx, dy, dz = l(0) - w.at(self.loc, k, 0), l(1) - w.at(self.loc, k, 1), l(2)
            return w.sqrt(dx * dx + dy * dy + dz * dz)
        return 2 * w.pi / lam * (dist(first) - dist(loc))
    def ddelay(self, loc, k, lam):
        """derivative of the phase delay with respect to the k-th location in its own unit (far-field 1D)"""
        w = self.w
        s, c = self.sc(k)
        g = 2 * w.pi / lam
        if self.unit == 'sin': return g * (loc(0) - loc(1) * s / c)
        f = w.pi / 180 if self.unit == 'deg' else 1
        return g * (loc(0) * c - loc(1) * s) * f

def coords(w, L, d, z=0):
    """coordinate functions of the rows of L, missing coordinates are zero"""
    return lambda i: (lambda c: w.at(L, i, c) if c < d else z)

class Pert:
    """a list of perturbations of an array of m elements, and what they mean"""
    def __init__(self, w, m, kinds, known, e=1, sort='complex'):
        self.w, self.m, self.e = w, m, e
        if sort == 'any': sort = w.pick('coupling', ['complex', 'real']) if 'mc' in kinds else 'complex'
        self.items = []
        for kd, kn in zip(kinds, known):
            if kd == 'loc': x = w.arr('loc_err', (m, e)); o = w.call(w.get(P + 'LocationErrors'), x, kn)
            elif kd == 'gain': x = w.arr('gain_err', (m,)); o = w.call(w.get(P + 'GainErrors'), x, kn)
            elif kd == 'phase': x = w.arr('phase_err', (m,)); o = w.call(w.get(P + 'PhaseErrors'), x, kn)
            else: x = w.arr('C', (m, m), sort); o = w.call(w.get(P + 'MutualCoupling'), x, kn)
            self.items.append((kd, kn, x, o))
    def objs(self): return self.w.list(*[o for _, _, _, o in self.items])
    def selected(self, sel): return [t for t in self.items if sel == 'all' or sel == 'known' and t[1]]
    def actual(self, sel, loc):
        """coordinates including the selected location errors"""
        w = self.w
        es = [x for kd, _, x, _ in self.selected(sel) if kd == 'loc']
        if not es: return loc
        return lambda i: (lambda c: loc(i)(c) + (w.at(es[0], i, c) if c < self.e else 0))
    def apply(self, sel, f):
        """the selected perturbations of an unperturbed matrix entry function f(i, k)"""
        w = self.w
        for kd, _, x, _ in self.selected(sel):
            f = self.one(kd, x, f)
        return f
    def one(self, kd, x, f):
        w, m = self.w, self.m
        if kd == 'gain': return lambda i, k: (1 + w.at(x, i)) * f(i, k)
        if kd == 'phase': return lambda i, k: w.exp(w.j * w.at(x, i)) * f(i, k)
        if kd == 'mc': return lambda i, k: w.sum(m, lambda r: w.at(x, i, r) * f(r, k))
        return f

def steering(w, src, loc, lam, pert=None, sel='all'):
    """entry function of the specified steering matrix of isotropic elements"""
    act = pert.actual(sel, loc) if pert else loc
    f = lambda i, k: w.exp(w.j * src.delay(act(i), k, lam, act(0)))
    return pert.apply(sel, f) if pert else f

def dsteering(w, src, loc, lam, pert=None, sel='all'):
    act = pert.actual(sel, loc) if pert else loc
    f = lambda i, k: w.j * src.ddelay(act(i), k, lam) * w.exp(w.j * src.delay(act(i), k, lam))
    return pert.apply(sel, f) if pert else f

def use_steering(w, a):
    """calls of a.steering_matrix are replaced by its contract (discharged for C02 and C04): the entries depend on the array, the
    direction of the source, the wavelength and the selection of perturbations only"""
    if not w.symbolic: return
    def f(self, sources, wavelength, compute_derivatives, perturbations, flatten):
        if self is not a: w.unsupported('steering matrix of another array')
        loc = w.attr(sources, 'locations')
        m, K = w.attr(a, 'size'), w.attr(sources, 'size')
        unit = w.index(w.attr(sources, 'units'), 0)
        d = len(w.shape(loc))
        if perturbations not in ('all', 'known', 'none'): raise w.error(ValueError)
        tag = '%s_%s' % (perturbations, w.attr(w.attr(sources, '__class__'), '__name__') + str(unit))
        def g(name):
            return w.mat((m, K), lambda i, k: w.ufun(name + tag, (wavelength,) + ((w.at(loc, k),) if d == 1 else (w.at(loc, k, 0), w.at(loc, k, 1))), i), 'complex')
        X = g('steer_')
        return (X, g('dsteer_')) if w.case(compute_derivatives) else X
    w.contract(A + 'ArrayDesign.steering_matrix', f)

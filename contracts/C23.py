"""Synthetic reward functions: formula, single point = its row in a batch, parameter ranges, monotonicity."""
from .common import *
from pydv import lib
M = 'lop.utilities.FakeFunction'
ASSUMPTIONS = ['random parameter draws are not all zero', 'with one dimension a point is a number and a batch a vector; otherwise a point is a vector and a batch a matrix (numpy arrays)',
               'scipy.stats.multivariate_normal.pdf returns the density of each row', 'FakeIntegrate is unfinished and out of scope']
BOUNDED = 'float formulas, lists and numbers for one dimension'
KEY = 'FakeLinear FakeSquared FakeLogistic FakeWeightedMax FakeWeightedMin FakeSquaredMinMax FakeSinExp FakeStaticSin FakeMinLog FakeMixtureGaussian'.split()
R = lambda *a: Zreal(a[0]) if len(a) == 1 else [Zreal(x) for x in a]
def one(d): return isinstance(d, int)
def at(v, *i): return Zreal(v.at(*i))
def mx(n, f): return mk_ext('max', n, f)
def mn(n, f): return mk_ext('min', n, f)
def dotp(d, r, w): return mk_sum(d, lambda q: r(q)*w(q))
def logistic(A, K, C, Q, v, wx): return A + (K - A)/(C + Q*f_exp(-wx/v))

# ------------------------------------------------------------------ what each function is: value of one point r (a function of the coordinate) in d dimensions
def params(f):
    g = lambda n: (lambda q: at(attr(f, n), q))
    return {n: g(n) if isinstance(f.attrs[n], NDArray) else f.attrs[n] for n in f.attrs}
def f_linear(d, r, p): return dotp(d, r, p['w']) if not one(d) else r(0)*p['w'](0)
def f_squared(d, r, p): return dotp(d, lambda q: r(q)*r(q), p['w']) if not one(d) else r(0)*r(0)*p['w'](0)
def f_logistic(d, r, p):
    wx = dotp(d, r, p['w']) - R(p['M']) if not one(d) else r(0)*p['w'](0)
    return logistic(*R(p['A'], p['K'], p['C'], p['Q'], p['v']), wx)
def f_max(d, r, p): return mx(d, lambda q: r(q)*p['w'](q)) if not one(d) else r(0)
def f_min(d, r, p): return mn(d, lambda q: r(q)*p['w'](q)) if not one(d) else r(0)
def f_sqminmax(d, r, p):
    if one(d): return r(0)
    m = f_min(d, r, p); return f_sqrt(f_max(d, r, p)) + m*m
def f_sinexp(d, r, p):
    k, w = (dotp(d, r, p['k']), dotp(d, r, p['w'])) if not one(d) else (r(0)*p['k'](0), r(0)*p['w'](0))
    return f_sin(k + R(p['phase']))*f_exp(-w)
def f_static(d, r, p):
    x = 10 - r(0); return 2*f_cos(PI*(x - 2)/3)*f_exp(-(z3.RealVal('99/100')*x))
SPEC = {'FakeLinear': f_linear, 'FakeSquared': f_squared, 'FakeLogistic': f_logistic, 'FakeWeightedMax': f_max, 'FakeWeightedMin': f_min,
        'FakeSquaredMinMax': f_sqminmax, 'FakeSinExp': f_sinexp, 'FakeStaticSin': f_static}

def make(I, cls, d, extra=None):
    kw = {} if cls == 'FakeStaticSin' else {'dimension': d, **(extra or {})}
    return I.call(I.cls(M, cls), [], kw)
def dimension(I, d):
    if d == 1: return 1
    n = z3.Int('d'); I.assume(n >= 2); return n
def points(I, d, form):
    """a single point or a batch: (argument, coordinate function of the checked point, its value in the result, result shape)"""
    n = z3.Int('n'); I.assume(n >= 0)
    if one(d):
        if form == 'point': x = z3.Real('x'); return x, (lambda q: x), (lambda o: R(o)), ()
        i = skin(I, n, 'i'); X = input_array('X', (n,), 'real'); S = X.snapshot(); return X, (lambda q: at(S, i)), (lambda o: at(o, i)), (n,)
    if form == 'point': x = input_array('x', (d,), 'real'); S = x.snapshot(); return x, (lambda q: at(S, q)), (lambda o: R(o)), ()
    i = skin(I, n, 'i'); X = input_array('X', (n, d), 'real'); S = X.snapshot(); return X, (lambda q: at(S, i, q)), (lambda o: at(o, i)), (n,)
def unchanged(I, x):
    if isinstance(x, NDArray):
        ix = [fresh('u') for _ in x.shape]; I.assume(z3.And(*[z3.And(0 <= a, a < Zr(n)) for a, n in zip(ix, x.shape)]))
        I.oblige('the points are left as they were', at(x, *ix) == Zreal(x.decl(*ix)))
def result(I, o, shp):
    """the value(s) returned; a 0-d array is a number"""
    if isinstance(o, NDArray) and not shp and o.ndim == 0: o = o.at()
    if isinstance(o, NDArray) != bool(shp): I.record('one value per point', False, info=repr(o)); raise PathEnd()
    if shp: shape(I, 'one value per point', o, shp)
    return o
def quals(cls): return [M + ':' + '%s.%s' % (cls, f) for f in ('__init__', 'randomize', 'calc')] + [M + ':FakeFunction.__call__']

def formula(cls, dim, form):
    @unit('%s, %s, %s' % (cls, 'one dimension' if dim == 1 else 'any number of dimensions', 'a single point' if form == 'point' else 'a batch'), quals(cls))
    def u(I):
        d = dimension(I, dim)
        def run():
            f = make(I, cls, d); x, r, val, shp = points(I, d, form)
            p = params(f); o = result(I, I.call(f, [x], {}), shp)
            same(I, 'the value is the formula', val(o), SPEC[cls](d, r, p))
            unchanged(I, x); o2 = result(I, I.call(I.getattr(f, 'calc'), [x], {}), shp); same(I, 'calc agrees with calling the object', val(o2), val(o))
        return run
for c_ in SPEC:
    for dim_ in ((1,) if c_ == 'FakeStaticSin' else (1, 2)):
        for form_ in ('point', 'batch'): formula(c_, dim_, form_)

def minlog(dim, form):
    @unit('FakeMinLog, %s, %s' % ('one dimension' if dim == 1 else 'any number of dimensions', 'a single point' if form == 'point' else 'a batch'), quals('FakeMinLog') + quals('FakeWeightedMin')[2:3] + quals('FakeLogistic')[2:3])
    def u(I):
        d = dimension(I, dim); al = z3.Real('alpha')
        def run():
            f = make(I, 'FakeMinLog', d, {'alpha': al}); x, r, val, shp = points(I, d, form)
            a, b = params(attr(f, 'min')), params(attr(f, 'logistic')); o = result(I, I.call(f, [x], {}), shp)
            unchanged(I, x); same(I, 'the weighted mean of the two functions', val(o), al*f_min(d, r, a) + (1 - al)*f_logistic(d, r, b))
        return run
for dim_ in (1, 2):
    for form_ in ('point', 'batch'): minlog(dim_, form_)

# ------------------------------------------------------------------ mixture of Gaussians
DENS = z3.Function('gauss_pdf', RS, RS, RS, RS)     # point, mean, covariance
def key(d, f): return mk_node('lin', d, f)
def density(d, r, mean, cov):
    return DENS(key(d, r), key(d, mean), key(d, lambda q: key(d, lambda s: cov(q, s))))
def mixture(dim, form):
    @unit('FakeMixtureGaussian, %s, %s' % ('one dimension' if dim == 1 else 'any number of dimensions', 'a single point' if form == 'point' else 'a batch'), quals('FakeMixtureGaussian'))
    def u(I):
        d = dimension(I, dim)
        def pdf(I_, a, kw):
            a = list(a); x = a.pop(0); mean, cov = (a + [None]*2)[:2]
            mean, cov = I_.np.arr(kw.get('mean', mean)).snapshot(), I_.np.arr(kw.get('cov', cov)).snapshot()
            if mean.ndim != 1 or cov.ndim != 2: raise Unsupported('multivariate_normal.pdf')
            I_.oblige('covariance fits the mean', z3.And(Zr(mean.shape[0]) == Zr(d), Zr(cov.shape[0]) == Zr(d), Zr(cov.shape[1]) == Zr(d)))
            D = lambda r: density(d, r, lambda q: at(mean, q), lambda q, s: at(cov, q, s))
            if not isinstance(x, NDArray): return D(lambda q: R(x))
            x = x.snapshot()
            if x.ndim == 2: return NDArray((x.shape[0],), lambda i: D(lambda q: at(x, i, q)), 'real')
            if one(d): return NDArray((x.shape[0],), lambda i: D(lambda q: at(x, i)), 'real')
            return D(lambda q: at(x, q))
        I.lib['scipy.stats.multivariate_normal.pdf'] = pdf
        def run():
            f = make(I, 'FakeMixtureGaussian', d); x, r, val, shp = points(I, d, form)
            K = Zr(attr(f, 'num_kerns')); means, sigs = attr(f, 'means'), attr(f, 'sigs')
            I.oblige('two to nine kernels', z3.And(2 <= K, K <= 9)); shape(I, 'a mean per kernel', means, (K, d)); shape(I, 'variances per kernel', sigs, (K, d))
            a, b = skin(I, K, 'a'), skin(I, Zr(d), 'b')
            I.oblige('variances are not negative', at(sigs, a, b) >= 0); I.oblige('means between 0 and 3', z3.And(at(means, a, b) >= 0, at(means, a, b) <= 3))
            o = result(I, I.call(f, [x], {}), shp)
            unchanged(I, x); same(I, 'the sum of the Gaussian densities of the kernels', val(o), mk_sum(simp(z3.If(K > 0, K, z3.IntVal(0))), lambda k: density(d, r, lambda q: at(means, k, q), lambda q, s: z3.If(Zr(q) == Zr(s), at(sigs, k, q), z3.RealVal(0)))))
        return run
for dim_ in (1, 2):
    for form_ in ('point', 'batch'): mixture(dim_, form_)

# ------------------------------------------------------------------ parameter ranges
def ranges(cls, dim, again):
    @unit('%s, parameters%s, %s' % (cls, ' after drawing them again' if again else '', 'one dimension' if dim == 1 else 'any number of dimensions'), quals(cls))
    def u(I):
        d = dimension(I, dim)
        rnd = I.lib['numpy.random.random']; last = []
        def drawn(I_, a, kw):
            o = rnd(I_, a, kw)
            if isinstance(o, NDArray):
                last.append(o)
                I.assume(mk_sum(d, lambda q: at(o, q)) > 0); k = skin(I, Zr(d), 'k'); I.assume(at(o, k) > 0)
                if cls in ('FakeWeightedMax', 'FakeWeightedMin'): have(I, 'the largest draw', mx(d, lambda q: at(o, q)) > 0)
            return o
        I.lib['numpy.random.random'] = drawn
        def run():
            f = make(I, cls, d)
            if again: I.call(I.getattr(f, 'randomize'), [], {})
            j = skin(I, Zr(d), 'j'); w = attr(f, 'w'); shape(I, 'one weight per dimension', w, (d,)); wj = at(w, j)
            if cls in ('FakeLinear', 'FakeSquared', 'FakeSquaredMinMax'):
                I.oblige('weights are not negative', wj >= 0); same(I, 'weights sum to one', mk_sum(d, lambda q: at(w, q)), R(1))
            elif cls in ('FakeWeightedMax', 'FakeWeightedMin'):
                I.oblige('weights between zero and one', z3.And(wj >= 0, wj <= 1)); 
                if d == 1: I.oblige('some weight is one', at(w, 0) == 1)
                else: I.oblige('some weight is one', at(w, mk_node('argmax', d, lambda q: at(last[-1], q))) == 1)
            elif cls == 'FakeLogistic':
                Q, m, v = R(attr(f, 'Q'), attr(f, 'M'), attr(f, 'v'))
                I.oblige('weights between 0 and 1.5', z3.And(wj >= 0, wj <= R(1.5))); I.oblige('Q between 1.2 and 5.2', z3.And(Q >= z3.RealVal('6/5'), Q <= z3.RealVal('26/5')))
                I.oblige('M between 0 and 1.5', z3.And(m >= 0, m <= R(1.5))); I.oblige('v between 2 and 3', z3.And(v >= 2, v <= 3))
                for n, x in (('A', 0), ('K', 1), ('C', 1)): I.oblige(n, R(attr(f, n)) == x)
            else:
                k = attr(f, 'k'); shape(I, 'one frequency per dimension', k, (d,)); ph = R(attr(f, 'phase'))
                I.oblige('weights between zero and one', z3.And(wj >= 0, wj <= 1)); I.oblige('frequencies are not negative', at(k, j) >= 0)
                same(I, 'frequencies sum to one', mk_sum(d, lambda q: at(k, q)), R(1)); I.oblige('phase between zero and pi', z3.And(ph >= 0, ph <= PI))
        return run
for c_ in KEY[:7]:
    for dim_ in (1, 2):
        for ag_ in (False, True): ranges(c_, dim_, ag_)

# ------------------------------------------------------------------ Pareto consistency: more of every (non-negative) reward is never worth less
def monotone(nm, dim):
    @unit('%s never decreases in a non-negative reward, %s' % (nm, 'one dimension' if dim == 1 else 'any number of dimensions'), [])
    def u(I):
        d = dimension(I, dim); W, V, r, s = [z3.Function(n, IS, RS) for n in ('W', 'V', 'r', 's')]
        k_ = z3.Int('k_')
        for h in (W, V, r): add_fact(h, lambda k, h=h: h(k) >= 0)
        I.assume(fa([k_], s(k_) >= r(k_), r(k_)))
        Q, v, m = z3.Reals('Q v M'); I.assume(z3.And(Q > 0, v > 0))
        p = {'w': W, 'A': 0, 'K': 1, 'C': 1, 'Q': Q, 'v': v, 'M': m}
        def run():
            if nm == 'FakeMinLog':
                al = z3.Real('alpha'); I.assume(z3.And(0 <= al, al <= 1)); p2 = dict(p, w=V)
                a, b = [f_min(d, x, p) for x in (r, s)]; x, y = [f_logistic(d, t, p2) for t in (r, s)]
                have(I, 'the minimum', a <= b); 
                incr(I, d, x, y, p2, r, s)
                I.oblige('never decreases', al*a + (1 - al)*x <= al*b + (1 - al)*y); return
            x, y = SPEC[nm](d, r, p), SPEC[nm](d, s, p)
            if nm == 'FakeLogistic': incr(I, d, x, y, p, r, s)
            if nm == 'FakeSquaredMinMax' and dim != 1:
                have(I, 'the maximum', f_max(d, r, p) <= f_max(d, s, p)); have(I, 'the minimum', f_min(d, r, p) <= f_min(d, s, p)); have(I, 'signs', z3.And(f_min(d, r, p) >= 0, f_max(d, r, p) >= 0))
            I.oblige('never decreases', x <= y)
        return run
def incr(I, d, x, y, p, r, s):
    a, b = [(dotp(d, t, p['w']) - p['M'] if not one(d) else t(0)*p['w'](0)) for t in (r, s)]
    have(I, 'the weighted sum', a <= b); have(I, 'the exponent', -b/p['v'] <= -a/p['v'])
    ea, eb = f_exp(-a/p['v']), f_exp(-b/p['v']); have(I, 'the exponential', z3.And(eb <= ea, eb > 0, ea > 0))
    have(I, 'the logistic', x <= y)
for c_ in ('FakeLinear', 'FakeSquared', 'FakeLogistic', 'FakeWeightedMax', 'FakeWeightedMin', 'FakeSquaredMinMax', 'FakeMinLog'):
    for dim_ in (1, 2): monotone(c_, dim_)

from replay.h import *
import lop
from lop.utilities import FakeFunction as _ff
from scipy.stats import multivariate_normal as mvn
import sys as _s
FF = _s.modules['lop.utilities.FakeFunction'] if not hasattr(_ff, 'FakeMinLog') else _ff
NAMES = 'FakeLinear FakeSquared FakeLogistic FakeWeightedMax FakeWeightedMin FakeSquaredMinMax FakeSinExp FakeStaticSin FakeMinLog FakeMixtureGaussian'.split()
MONO = 'FakeLinear FakeSquared FakeLogistic FakeWeightedMax FakeWeightedMin FakeSquaredMinMax FakeMinLog'.split()
def make(nm, d, rng):
    f = getattr(FF, nm)
    if nm == 'FakeStaticSin': return f()
    if nm == 'FakeMinLog': return f(d, alpha=rng.rand()) if rng.rand() < .7 else f(d)
    return f(d) if rng.rand() < .5 else f(dimension=d)
def logi(f, x):
    wx = float(np.dot(x, f.w)) - (f.M if len(f.w) > 1 else 0.)
    return f.A + (f.K - f.A)/(f.C + f.Q*np.exp(-wx)**(1/f.v))
def ref(f, x):
    """the documented value of one point"""
    n = type(f).__name__; x = np.asarray(x, dtype=float)
    if n == 'FakeStaticSin': z = 10 - x[0]; return 2*np.cos(np.pi*(z - 2)/3)*np.exp(-.99*z)
    if n == 'FakeMinLog': return f.alpha*ref(f.min, x) + (1 - f.alpha)*logi(f.logistic, x)
    if n == 'FakeMixtureGaussian': return sum(np.exp(-.5*np.sum((x - m)**2/s))/np.sqrt(np.prod(2*np.pi*s)) for m, s in zip(f.means, f.sigs))
    if n == 'FakeLinear': return np.sum(x*f.w)
    if n == 'FakeSquared': return np.sum(x*x*f.w)
    if n == 'FakeLogistic': return logi(f, x)
    if n == 'FakeSinExp': return np.sin(np.sum(x*f.k) + f.phase)*np.exp(-np.sum(x*f.w))
    if len(x) == 1: return x[0]
    v = x*f.w
    return np.max(v) if n == 'FakeWeightedMax' else np.min(v) if n == 'FakeWeightedMin' else np.sqrt(np.max(v)) + np.min(v)**2
def pts(rng, f, n, d):
    X = rng.rand(n, d)*rng.choice([1., 3., 10.])
    if type(f).__name__ not in ('FakeSquaredMinMax',) and rng.rand() < .3: X = X - 1
    k = rng.randint(5)
    if k == 0: X = np.round(X)
    if k == 1 and n: X[rng.randint(n)] = 0
    if k == 2 and n > 1: X[0] = X[-1]
    return X

def value(nm, rng):
    d = 1 if nm == 'FakeStaticSin' or rng.rand() < .3 else rng.randint(2, 6); f = make(nm, d, rng)
    if rng.rand() < .5: f.randomize()
    n = rng.randint(1, 7); X = pts(rng, f, n, d); note(function=str(f) if nm != 'FakeMinLog' else (str(f.min), str(f.logistic), f.alpha), X=X); X0 = X.copy()
    R = np.array([ref(f, x) for x in X]); A = X[:, 0].copy() if d == 1 else X.copy(); A0 = A.copy()
    o = f(A) if rng.rand() < .5 else f.calc(A) if rng.rand() < .5 else f(A, None)
    check(np.shape(o) == (n,), 'a batch of %d points gives values of shape %s' % (n, np.shape(o))); close(o, R, 'values of a batch', 1e-8, 1e-10); check(np.array_equal(A, A0), 'points changed')
    for i in range(n):
        p = float(X[i, 0]) if d == 1 else X[i].copy(); v = f(p)
        check(np.ndim(v) == 0, 'a single point gives shape %s' % (np.shape(v),)); close(float(v), R[i], 'value of a single point', 1e-8, 1e-10); close(float(v), o[i], 'single point and its row in a batch', 1e-9, 1e-12)
        close(f(A[i:i+1]), [R[i]], 'batch of one', 1e-8, 1e-10)
    if d == 1 and nm not in ('FakeStaticSin', 'FakeMinLog', 'FakeMixtureGaussian'): close(f(list(A)), R, 'list of points', 1e-8, 1e-10)
def params(nm, rng):
    d = 1 if nm == 'FakeStaticSin' or rng.rand() < .3 else rng.randint(2, 6); f = make(nm, d, rng)
    for _ in range(3):
        note(function=nm, d=d); e = 1e-9
        def rgn(x, lo, hi, m): check(np.all(np.asarray(x) >= lo - e) and np.all(np.asarray(x) <= hi + e), '%s outside [%s, %s]: %s' % (m, lo, hi, x))
        def w(g):
            k = type(g).__name__; check(g.w.shape == (d,), 'one weight per dimension')
            if k in ('FakeLinear', 'FakeSquared', 'FakeSquaredMinMax'): rgn(g.w, 0, 1, 'weights'); close(np.sum(g.w), 1, 'sum of the weights')
            if k in ('FakeWeightedMax', 'FakeWeightedMin'): rgn(g.w, 0, 1, 'weights'); close(np.max(g.w), 1, 'largest weight')
            if k == 'FakeLogistic': rgn(g.w, 0, 1.5, 'weights'); rgn(g.Q, 1.2, 5.2, 'Q'); rgn(g.M, 0, 1.5, 'M'); rgn(g.v, 2, 3, 'v'); check((g.A, g.K, g.C) == (0, 1, 1), 'A, K, C')
            if k == 'FakeSinExp': rgn(g.w, 0, 1, 'weights'); rgn(g.k, 0, 1, 'frequencies'); check(g.k.shape == (d,), 'one frequency per dimension'); close(np.sum(g.k), 1, 'sum of the frequencies'); rgn(g.phase, 0, np.pi, 'phase')
        if nm == 'FakeMinLog': w(f.min); w(f.logistic)
        elif nm == 'FakeMixtureGaussian': check(2 <= f.num_kerns <= 9, 'number of kernels'); check(f.means.shape == f.sigs.shape == (f.num_kerns, d), 'shapes'); rgn(f.means, 0, 3, 'means'); check(np.all(f.sigs >= 0), 'variances')
        elif nm != 'FakeStaticSin': w(f)
        f.randomize()
def mono(nm, rng):
    d = 1 if rng.rand() < .3 else rng.randint(2, 6); f = make(nm, d, rng); x = rng.rand(d)*rng.choice([1, 5.]); y = x.copy(); j = rng.randint(d); y[j] += rng.rand()*3; note(function=nm, x=x, y=y)
    a, b = (f(float(x[0])), f(float(y[0]))) if d == 1 else (f(x), f(y)); check(a <= b + 1e-12, 'a larger reward is worth less: %s > %s' % (a, b))
    X = np.stack([x, y]); v = f(X[:, 0] if d == 1 else X); check(v[0] <= v[1] + 1e-12, 'a larger reward is worth less in a batch')
for nm_ in NAMES:
    for fn_, n_ in ((value, 60), (params, 25), (mono, 40)):
        if fn_ is mono and nm_ not in MONO: continue
        def g_(rng, fn=fn_, nm=nm_): fn(nm, rng)
        g_.__name__ = '%s_%s' % (fn_.__name__, nm_); globals()[g_.__name__] = case(n_)(g_)

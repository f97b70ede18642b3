"""Gaussian process regression: exact posterior mean and variance, prior before data, independence of the query points."""
from .common import *
MG = 'lop.models.GP'
ASSUMPTIONS = ['the kernel obeys its own contract (C11): cov(X,Y)[i,j] = k(x_i,y_j), noise only on the diagonal of a set with itself', 'the training covariance is positive definite (np.linalg.cholesky succeeds), so that posterior variances are not negative']
BOUNDED = 'floating-point agreement with a dense solve; query sets containing training samples; sequences of add / predict / reset'

def setup(I):
    n, t, d = z3.Int('n'), z3.Int('t'), z3.Int('d')
    I.assume(z3.And(n > 0, t > 0, d > 0))
    return n, t, d

def meanfn(I):
    mf = z3.Function('mean_f', RS, RS)
    def row(X, i): return mk_node('lin', X.shape[1], lambda q: Zreal(X.at(i, q)))
    def call(I_, a, k):
        X = I.np.arr(a[0]).snapshot(); return NDArray((X.shape[0],), lambda i: mf(row(X, i)), 'real')
    return Builtin('mean_func', call), lambda X, i: mf(row(X, i))

def posterior(I, k, noise, X, T, y, s, m, n):
    """textbook posterior at query i (mean, covariance(i,j)) written with the inverse of k(T,T) + noise + diag(s)"""
    inv = I.np.L['numpy.linalg.inv'] if hasattr(I.np, 'L') else I.lib['numpy.linalg.inv']
    KTT = NDArray((n, n), lambda p, q: k(T, p, T, q) + z3.If(p == q, noise + s(p), z3.RealVal(0)), 'real')
    P = inv(I, [KTT], {})
    mu = lambda i: m(X, i) + mk_sum(n, lambda p: mk_sum(n, lambda q: k(X, i, T, p)*P.at(p, q)*(y(q) - m(T, q))))
    cov = lambda i, j: k(X, i, X, j) + z3.If(i == j, noise, z3.RealVal(0)) - mk_sum(n, lambda p: mk_sum(n, lambda q: k(X, i, T, p)*P.at(p, q)*k(T, q, X, j)))
    return mu, cov

def fit(withmean, scalar, batches):
    nm = '%s mean, %s training noise, %s' % ('with a' if withmean else 'zero', 'scalar' if scalar else 'vector', 'one batch of data' if batches == 1 else 'data added in two batches')
    @unit('posterior: ' + nm, [MG + ':GP.predict', 'GP.add'], timeout=120)
    def u(I):
        n, t, d = setup(I); n2 = z3.Int('n2'); I.assume(n2 > 0)
        nz = z3.Real('noise'); I.assume(nz >= 0)
        def run():
            k, kf = abstract_kernel(I, nz)
            mf, m = meanfn(I)
            g = I.new(I.cls(MG, 'GP'), k, **({'mean_func': mf} if withmean else {}))
            if not withmean: m = lambda X, i: z3.RealVal(0)
            X = input_array('X', (t, d), 'real')
            sv = z3.Real('s'); I.assume(sv >= 0)
            data = []
            for b in range(batches):
                T, y = input_array('T%d' % b, (n if b == 0 else n2, d), 'real'), input_array('y%d' % b, (n if b == 0 else n2,), 'real')
                s = sv if scalar else input_array('s%d' % b, (n if b == 0 else n2,), 'real')
                I.call(I.getattr(g, 'add'), [T, y], {'training_sigma': s})
                data.append((T, y, s))
            N = n if batches == 1 else n + n2
            def cat(f):
                if batches == 1: return lambda p: f(0, p)
                return lambda p: z3.If(p < n, f(0, p), f(1, p - n))
            if batches == 1: T, y = data[0][0], lambda p: data[0][1].at(p)
            else:
                W = NDArray((N, d), lambda p, q: z3.If(p < n, data[0][0].at(p, q), data[1][0].at(p - n, q)), 'real')
                y = cat(lambda b, p: data[b][1].at(p))
            s = (lambda p: sv) if scalar else cat(lambda b, p: data[b][2].at(p))
            if batches > 1:
                T = attr(g, 'X_train'); shape(I, 'X_train', T, (N, d)); a, b = skin(I, N, 'a'), skin(I, d, 'b')
                same(I, 'the training samples are the batches in order', T.at(a, b), W.at(a, b))
            r = I.call(I.getattr(g, 'predict'), [X], {})
            shape(I, 'mean', r[0], (t,)); shape(I, 'variance', r[1], (t,))
            mu, cov = posterior(I, kf, nz, X, T, y, s, m, N)
            i, j = skin(I, t, 'i', 'j')
            same(I, 'predicted mean is the posterior mean', r[0].at(i), mu(i))
            C = attr(g, 'cov'); shape(I, 'cov', C, (t, t))
            same(I, 'covariance is the posterior covariance', C.at(i, j), cov(i, j))
            v = C.at(i, i)
            I.oblige('predicted variance is the posterior variance (never negative)', r[1].at(i) == z3.If(v > 0, v, z3.RealVal(0)))
            call = I.call(g, [X], {})
            same(I, 'calling the model returns the mean', call.at(i), mu(i))
        return run
for wm in (False, True):
    for sc in (True, False): fit(wm, sc, 1)
fit(True, True, 2); fit(False, False, 2)

@unit('prior before any data', [MG + ':GP.predict', 'GP.reset'])
def u2(I):
    n, t, d = setup(I); nz = z3.Real('noise'); I.assume(nz >= 0)
    def run():
        for after in (False, True):
            k, kf = abstract_kernel(I, nz); mf, m = meanfn(I)
            g = I.new(I.cls(MG, 'GP'), k, mean_func=mf)
            if after:
                I.call(I.getattr(g, 'add'), [input_array('T', (n, d), 'real'), input_array('y', (n,), 'real')], {})
                I.call(I.getattr(g, 'reset'), [], {})
            X = input_array('X', (t, d), 'real')
            r = I.call(I.getattr(g, 'predict'), [X], {})
            i, j = skin(I, t, 'i', 'j')
            w = ' after reset' if after else ''
            same(I, 'prior mean' + w, r[0].at(i), m(X, i))
            same(I, 'prior covariance' + w, attr(g, 'cov').at(i, j), kf(X, i, X, j) + z3.If(i == j, nz, z3.RealVal(0)))
            v = attr(g, 'cov').at(i, i)
            I.oblige('prior variance' + w, r[1].at(i) == z3.If(v > 0, v, z3.RealVal(0)))
    return run

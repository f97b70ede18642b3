"""PreferenceGP prediction: the Laplace posterior of the model's own kernel, mode F, W matrix and samples."""
from .common import *
from pydv import loops
MP = 'lop.models.PreferenceGP'
ASSUMPTIONS = ['the kernel obeys its own contract (C11)', 'np.linalg.inv / pinv / cholesky+cho_solve are exact: the training covariance and I + W K are invertible', 'predict_large is checked against the contract of predict (one value per query point) for samples with 1, 2 or 3 coordinates or plain vectors', 'a query set identical to the training set is the same set (its observation noise is included)']
BOUNDED = 'fits with real kernels and likelihoods; floating-point agreement with the dense formulas'

def inv(I, A): return I.np.arr(I.lib['numpy.linalg.inv'](I, [A], {}))
def model(I, nz, **kw):
    k, kf = abstract_kernel(I, nz)
    return I.new(I.cls(MP, 'PreferenceGP'), k, **kw), k, kf
def state(I, g, k, n, d, sfx=''):
    T = input_array('T' + sfx, (n, d), 'real'); F = input_array('F' + sfx, (n,), 'real'); W = input_array('W' + sfx, (n, n), 'real')
    g.attrs.update(X_train=T, F=F, W=W, K=I.call(I.getattr(k, 'cov'), [T, T], {}), optimized=True)
    return T, F, W
def laplace(I, kf, nz, X, T, F, W, n):
    K = NDArray((n, n), lambda p, q: kf(T, p, T, q) + z3.If(p == q, nz, z3.RealVal(0)), 'real')
    P = inv(I, K)
    WK = NDArray((n, n), lambda p, q: z3.If(p == q, z3.RealVal(1), z3.RealVal(0)) + mk_sum(n, lambda r: W.at(p, r)*K.at(r, q)), 'real')
    B = inv(I, WK)
    mu = lambda i: mk_sum(n, lambda p: mk_sum(n, lambda q: kf(X, i, T, p)*P.at(p, q)*F.at(q)))
    cov = lambda i, j: kf(X, i, X, j) + z3.If(i == j, nz, z3.RealVal(0)) - mk_sum(n, lambda p: mk_sum(n, lambda q: mk_sum(n, lambda r: kf(X, i, T, p)*B.at(p, q)*W.at(q, r)*kf(T, r, X, j))))
    return mu, cov
def posts(I, g, r, t, mu, cov, w=''):
    shape(I, 'mean' + w, r[0], (t,)); shape(I, 'variance' + w, r[1], (t,))
    i, j = skin(I, t, 'i', 'j')
    same(I, 'predicted mean' + w, r[0].at(i), mu(i))
    C = attr(g, 'cov'); shape(I, 'cov' + w, C, (t, t))
    same(I, 'covariance' + w, C.at(i, j), cov(i, j))
    v = C.at(i, i)
    I.oblige('variance is the diagonal, never negative' + w, r[1].at(i) == z3.If(v > 0, v, z3.RealVal(0)))

def setup(I):
    n, t, d = z3.Int('n'), z3.Int('t'), z3.Int('d'); nz = z3.Real('noise')
    I.assume(z3.And(n > 0, t > 0, d > 0, nz >= 0)); return n, t, d, nz

@unit('Laplace posterior of its own state', [MP + ':PreferenceGP.predict'], timeout=120)
def u1(I):
    n, t, d, nz = setup(I)
    def run():
        g, k, kf = model(I, nz); T, F, W = state(I, g, k, n, d); X = input_array('X', (t, d), 'real')
        r = I.call(I.getattr(g, 'predict'), [X], {})
        mu, cov = laplace(I, kf, nz, X, T, F, W, n)
        posts(I, g, r, t, mu, cov)
        c = I.call(g, [X], {}); i = skin(I, t, 'i')
        same(I, 'calling the model returns the mean', c.at(i), mu(i))
        r2 = I.call(I.getattr(g, 'predict'), [X], {})
        posts(I, g, r2, t, mu, cov, ' (second call)')
    return run

@unit('Laplace posterior of a state given by the caller', [MP + ':PreferenceGP.predict'], timeout=120)
def u2(I):
    n, t, d, nz = setup(I)
    def run():
        g, k, kf = model(I, nz); state(I, g, k, n, d)
        T2, F2, W2 = [input_array(x, s, 'real') for x, s in (('T2', (n, d)), ('F2', (n,)), ('W2', (n, n)))]
        g.attrs['K'] = I.call(I.getattr(k, 'cov'), [T2, T2], {})
        X = input_array('X', (t, d), 'real')
        r = I.call(I.getattr(g, 'predict'), [X, T2, F2, W2], {})
        mu, cov = laplace(I, kf, nz, X, T2, F2, W2, n)
        posts(I, g, r, t, mu, cov)
    return run

@unit('Laplace posterior when the factorisation of the covariance fails', [MP + ':PreferenceGP.predict'], timeout=120)
def u3(I):
    n, t, d, nz = setup(I)
    def run():
        g, k, kf = model(I, nz); T, F, W = state(I, g, k, n, d); X = input_array('X', (t, d), 'real')
        def fail(I_, a, kw): raise PyRaise('LinAlgError', 'not positive definite')
        old = I.lib['numpy.linalg.cholesky']; I.lib['numpy.linalg.cholesky'] = fail
        try: r = I.call(I.getattr(g, 'predict'), [X], {})
        finally: I.lib['numpy.linalg.cholesky'] = old
        mu, cov = laplace(I, kf, nz, X, T, F, W, n)
        posts(I, g, r, t, mu, cov)
    return run

@unit('prior before any data and after reset', [MP + ':PreferenceGP.predict', 'PreferenceModel.reset'])
def u4(I):
    n, t, d, nz = setup(I)
    def run():
        for after in (False, True):
            g, k, kf = model(I, nz); X = input_array('X', (t, d), 'real')
            if after:
                state(I, g, k, n, d)
                I.call(I.getattr(g, 'reset'), [], {})
            r = I.call(I.getattr(g, 'predict'), [X], {})
            posts(I, g, r, t, lambda i: z3.RealVal(0), lambda i, j: kf(X, i, X, j) + z3.If(i == j, nz, z3.RealVal(0)), ' after reset' if after else '')
    return run

@unit('lazy optimisation: the state is refreshed before it is used', [MP + ':PreferenceGP.predict'], timeout=120, complete=False)
def u5(I):
    n, t, d, nz = setup(I)
    def run():
        g, k, kf = model(I, nz); T, F, W = state(I, g, k, n, d); g.attrs['optimized'] = False
        X = input_array('X', (t, d), 'real')
        new = {}
        def opt(I_, a, kw):
            T1 = g.attrs['X_train']
            new['F'] = input_array('Fopt', (n,), 'real'); new['W'] = input_array('Wopt', (n, n), 'real')
            g.attrs.update(F=new['F'], W=new['W'], K=I.call(I.getattr(k, 'cov'), [T1, T1], {}), optimized=True)
        I.contracts['PreferenceGP.optimize'] = opt
        r = I.call(I.getattr(g, 'predict'), [X], {})
        I.record('the model was optimised first', 'F' in new)
        mu, cov = laplace(I, kf, nz, X, T, new['F'], new['W'], n)
        posts(I, g, r, t, mu, cov)
    return run

def large(dd):
    @unit('predict_large equals predict, point by point (%s)' % ('vector of points' if dd == 0 else '%d coordinates' % dd), [MP + ':PreferenceGP.predict_large'], timeout=120)
    def u(I):
        N = z3.Int('N'); I.assume(N > 0)
        def run():
            g, k, kf = model(I, z3.RealVal(0))
            g.attrs.update(X_train=input_array('T', (3, max(dd, 1)), 'real'), optimized=True)
            m = max(dd, 1)
            fm, fs = z3.Function('pm', *([RS]*(m+1))), z3.Function('ps', *([RS]*(m+1)))
            co = lambda A, j: [Zreal(A.at(j))] if dd == 0 else [Zreal(A.at(j, z3.IntVal(q))) for q in range(dd)]
            def pred(I_, a, kw):
                A = I.np.arr(a[1]).snapshot()
                return NDArray((A.shape[0],), lambda j: fm(*co(A, j)), 'real'), NDArray((A.shape[0],), lambda j: fs(*co(A, j)), 'real')
            I.contracts['PreferenceGP.predict'] = pred
            X = input_array('X', (N,) if dd == 0 else (N, dd), 'real')
            def invar(env, k_):
                from pydv.values import NDArray as A
                j = z3.Int('q!r'); out = []
                b = env.vars.get('num_at_a_time', 15)
                arrs = [(nm, v) for nm, v in env.vars.items() if isinstance(v, A) and v.ndim == 1 and nm in ('mu', 'sigma')]
                for nm, v in arrs:
                    f = fm if nm == 'mu' else fs
                    out.append(('%s is filled for the blocks done' % nm, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < N, j < Zr(b)*k_), v.at(j) == f(*co(X, j))))))
                return out
            loops.use_inv(I, 'PreferenceGP.predict_large', invar)
            r = I.call(I.getattr(g, 'predict_large'), [X], {})
            shape(I, 'mean', r[0], (N,)); shape(I, 'variance', r[1], (N,))
            i = skin(I, N, 'i')
            eq(I, 'mean of every point is that of predict', r[0].at(i), fm(*co(X, i)))
            eq(I, 'variance of every point is that of predict', r[1].at(i), fs(*co(X, i)))
        return run
for dd in (0, 1, 2, 3): large(dd)

def fitting(fail, kw):
  @unit('fitting leaves one consistent state: covariance, mode and curvature belong together' + (' (factorisation fails)' if fail else ' (%s)' % ', '.join(kw) if kw else ''), [MP + ':PreferenceGP.find_mode', 'PreferenceGP.optimize'], timeout=120, complete=False)
  def u6(I):
    n, t, d, nz = setup(I)
    def run():
        g, k, kf = model(I, nz, **kw)
        T = input_array('T', (n, d), 'real'); g.attrs['X_train'] = T
        log = []
        def deriv(I_, a, kw):
            F = I.np.arr(a[2])
            r = (fresh_array('W', (n, n), 'real'), fresh_array('grad', (n,), 'real'), fresh('ll', 'real')); log.append((F.snapshot(), r)); return r
        I.contracts['PreferenceGP.derivatives'] = deriv
        I.contracts['PreferenceGP.newton_update'] = lambda I_, a, kw: fresh_array('Fnew', (n,), 'real')
        old = I.lib['numpy.linalg.cholesky']
        def bad(I_, a, kw): raise PyRaise('LinAlgError', 'not positive definite')
        if fail: I.lib['numpy.linalg.cholesky'] = bad
        try: I.call(I.getattr(g, 'optimize'), [], {})
        finally: I.lib['numpy.linalg.cholesky'] = old
        w = ' (factorisation fails)' if fail else ' %s' % ' '.join(kw)
        i, j = skin(I, n, 'i', 'j')
        F = attr(g, 'F'); shape(I, 'F' + w, F, (n,))
        same(I, 'K is the covariance of the training samples' + w, attr(g, 'K').at(i, j), kf(T, i, T, j) + z3.If(i == j, nz, z3.RealVal(0)))
        Fl, r = log[-1]
        eq(I, 'W, gradient and likelihood were taken at the final F' + w, F.at(i), Fl.at(i))
        eq(I, 'W' + w, attr(g, 'W').at(i, j), r[0].at(i, j)); eq(I, 'grad_ll' + w, attr(g, 'grad_ll').at(i), r[1].at(i)); eq(I, 'log_likelihood' + w, attr(g, 'log_likelihood'), r[2])
        I.record('the model counts as optimised' + w, attr(g, 'optimized') is True or None)
    return run
for f_, kw_ in ((False, {}), (True, {}), (False, {'normalize_gp': True}), (False, {'normalize_gp': True, 'normalize_positive': True})): fitting(f_, kw_)

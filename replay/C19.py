from replay.h import *
from replay import gens
import lop
from lop.models import PreferenceModel as _pm
from scipy.special import ndtr

def objective(rng, n):
    c = rng.uniform(-2, 2, (4, n)); w = rng.uniform(.2, 2, 4)
    return lambda x, a=1., b=0.: a*float(sum(q*np.cos(3*np.sum((x - z)**2)) for q, z in zip(w, c))) + b

def model(rng):
    return rng.choice([lop.PreferenceGP(lop.RBF_kern(1, 1, sigma_noise=.1)), lop.PreferenceLinear()])

@case(200)
def grid(rng):
    m = model(rng); n = rng.randint(1, 5); f = objective(rng, n); F, D = rng.randn(n), rng.randn(n)
    a = rng.uniform(0, 1); b = a + rng.uniform(.1, 2); k = rng.randint(1, 12); args = (rng.choice([1., -1.]), rng.uniform(-1, 1)); note(F=F, D=D, a=a, b=b, k=k)
    seen = []
    def g(x, *r): seen.append((x.copy(), r)); return f(x, *r)
    l = m.iterative_line_search(F, D, g, args, a, b, k)
    L = np.array([f(F - q*D, *args) for q in a + (b - a)/k*np.arange(k)])
    check(len(seen) in (k, k+1) and all(r == args for _, r in seen), 'arguments of the objective')
    check(f(F - l*D, *args) >= L.max() - 1e-9, 'a better step was examined')
    check(np.isclose(l, a + (b - a)/k*np.arange(k+1)).any(), 'not a step of the grid')
    l = m.iterative_line_search(F, D, f, args)
    L = np.array([f(F - q*D, *args) for q in .01 + .149*np.arange(10)])
    check(f(F - l*D, *args) >= L.max() - 1e-9, 'default interval: a better step was examined')

@case(200)
def binary(rng):
    m = model(rng); n = rng.randint(1, 5); f = objective(rng, n); F, D = rng.randn(n), rng.randn(n)
    a = rng.uniform(0, 1); b = a + rng.uniform(.1, 2); k = rng.randint(0, 10); args = (rng.choice([1., -1.]),); note(F=F, D=D, a=a, b=b, k=k)
    l = m.binary_line_search(F, D, f, args, a, b, k)
    lo, hi = a, b
    for _ in range(k):
        d = hi - lo
        if f(F - (lo + d/4)*D, *args) > f(F - (lo + 3*d/4)*D, *args): hi = lo + d/2
        else: lo = lo + d/2
    close(l, (lo + hi)/2, 'midpoint of the final interval')
    check(a <= l <= b, 'outside the interval')

@case(150)
def newton(rng):
    m = model(rng); n = rng.randint(1, 5); f = objective(rng, n); F, G = rng.randn(n), rng.randn(n)
    A = rng.randn(n, n); H = -(A @ A.T) - np.eye(n)*.3; k = rng.randint(1, 7); kind = rng.choice(['binary', 'iter']); args = (rng.choice([1., -1.]),); note(F=F, G=G, H=H, kind=kind)
    bad = rng.rand() < .2
    def inv(x):
        if bad: raise np.linalg.LinAlgError('singular')
        return np.linalg.inv(x)
    F0 = F.copy()
    r = m.newton_update(F, G, H, f, args, inv, kind, k)
    d = G if bad else np.linalg.solve(H.T, G)
    l = m.binary_line_search(F, d, f, args, max_itr=k) if kind == 'binary' else m.iterative_line_search(F, d, f, args, max_itr=k)
    close(F, F0, 'the point being updated is changed in place'); close(r, F - l*d, 'updated point', rtol=1e-5, atol=1e-7)

def labels(rng, g, d, n=None):
    X = rng.uniform(0, 2, (n or rng.randint(2, 7), d)); m = len(X)
    use = [rng.rand() < .7 for _ in range(3)]
    if not any(use): use[0] = True
    if use[0]:
        k = rng.randint(1, 7); u = rng.randint(0, m, k); v = (u + rng.randint(1, m, k)) % m
        g.add(X, [(int(a), int(b), int(c)) for a, b, c in zip(rng.choice([-1, 1], k), u, v)])
    if use[1]: g.add(X + .1, rng.randint(1, 6, m), type='ordinal')
    if use[2]: g.add(X - .1, rng.uniform(.1, .9, m), type='abs')
    return use

@case(80)
def linear_model(rng):
    g = lop.PreferenceLinear(); d = rng.randint(2, 5); use = labels(rng, g, d); note(X=g.X_train, use=use)
    w = rng.randn(d)*.5; X, y = g.X_train, g.y_train
    if use[2]: w = w*.4
    W, gr, ll = g.derivatives(X, y, w)
    f = lambda z: g.log_likelyhood_training(X @ z)
    close(ll, f(w), 'log likelihood', rtol=1e-7, atol=1e-9); g.w = w; close(g.loss_func(w), f(w), 'loss_func')
    for i in range(d):
        e = np.eye(d)[i]
        close(gr[i], gens.fd(lambda t: f(w + t*e), 0.), 'gradient', rtol=1e-4, atol=1e-4)
        close(-W[i], gens.fd(lambda t: g.derivatives(X, y, w + t*e)[1], 0.), 'curvature', rtol=1e-3, atol=1e-3)
    # labels given by the caller
    h = lop.PreferenceLinear(); labels(rng, h, d, len(X)//max(1, sum(use)) or 2)
    Xh, yh = h.X_train, h.y_train
    a, b = g.derivatives(Xh, yh, w), h.derivatives(Xh, yh, w)
    for p, q in zip(a, b): close(p, q, 'derivatives of labels given by the caller')

@case(25)
def linear_fit(rng):
    g = lop.PreferenceLinear(); d = rng.randint(2, 4); labels(rng, g, d); note(X=g.X_train, y=[str(q) for q in g.y_train])
    seen = []; real = g.newton_update
    def spy(F, gradient, hess, loss_func, loss_args=(), *a, **k):
        W, gr, ll = g.derivatives(g.X_train, g.y_train, F)
        close(gradient, gr, 'fit: gradient'); close(hess, -W, 'fit: Hessian'); close(loss_func(F, *loss_args), ll, 'fit: objective')
        r = real(F, gradient, hess, loss_func, loss_args, *a, **k); seen.append(r); return r
    g.newton_update = spy
    g.optimize(); P = rng.randn(5, d)
    close(g.w, seen[-1], 'weights are the last iterate'); check(g.optimized, 'optimised')
    close(g.predict(P)[0], P @ g.w, 'prediction'); close(g(P), P @ g.w, 'calling the model')

@case(60)
def posterior_objective(rng):
    n = rng.randint(1, 7); nz = rng.uniform(.05, .5); d = rng.randint(0, 3)
    k = lop.RBF_kern(rng.uniform(.5, 1.5), rng.uniform(.4, 1.5), sigma_noise=nz); g = lop.PreferenceGP(k)
    X = rng.uniform(0, 3, n) if d == 0 else rng.uniform(0, 3, (n, d)); F = rng.randn(n)
    y = [None, None, None]
    if rng.rand() < .6 and n > 1: y[0] = np.column_stack([rng.choice([-1, 1], 4), rng.randint(0, n, 4), rng.randint(0, n, 4)])
    if rng.rand() < .5: y[2] = (rng.uniform(.1, .9, 3), rng.randint(0, n, 3))
    g.X_train, g.y_train = X, y; note(X=X, F=F, y=[str(q) for q in y])
    K = k.cov(X, X); L = np.linalg.cholesky(K)
    ref = lambda z: g.log_likelyhood_training(z, y) - .5*z @ np.linalg.solve(K, z) - .5*np.linalg.slogdet(K)[1] - n/2*np.log(2*np.pi)
    close(g.likli_f(F, X, y, K, L), ref(F), 'log posterior', rtol=1e-6, atol=1e-7)
    W, gr, ll = g.derivatives(y, F)
    A = [g.probits[b].derivatives(y[b], F) for b in range(3) if y[b] is not None]
    close(W, sum([a[0] for a in A], np.zeros((n, n))), 'W'); close(gr, sum([a[1] for a in A], np.zeros(n)), 'gradient'); close(ll, sum(a[2] for a in A), 'log likelihood')
    close(g.log_likelyhood_training(F, y), ll, 'log likelihood')

@case(25)
def mode_search(rng):
    nz = rng.uniform(.1, .5); d = rng.randint(1, 3); k = lop.RBF_kern(rng.uniform(.5, 1.5), rng.uniform(.4, 1.5), sigma_noise=nz)
    g = lop.PreferenceGP(k); labels(rng, g, d); X, y = g.X_train, g.y_train; K = k.cov(X, X); L = np.linalg.cholesky(K); note(X=X)
    seen = []; real = g.newton_update
    def spy(F, gradient, hess, loss_func, loss_args, *a, **kw):
        W, gr, ll = g.derivatives(y, F); F = F.copy()
        close(gradient, gr - np.linalg.solve(K, F), 'gradient', rtol=1e-5, atol=1e-6); close(hess, -W - np.linalg.inv(K), 'Hessian', rtol=1e-5, atol=1e-6)
        close(loss_func(F, *loss_args), g.likli_f(F, X, y, K, L), 'objective')
        r = real(F, gradient, hess, loss_func, loss_args, *a, **kw); seen.append(r.copy()); return r
    g.newton_update = spy; g.find_mode(X, y)
    if g.normalize_gp: return
    close(g.F, seen[-1], 'the mode is the last iterate')

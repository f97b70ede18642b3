from replay.h import *
import lop

def fill(rng, g, n, d):
    """add random labelled batches; returns the samples in order"""
    Xs = []
    vec = d == 0
    kinds = rng.choice(['pref', 'abs', 'ord'], rng.randint(1, 3))
    pts = lambda m: rng.uniform(0, 3, m) if vec else rng.uniform(0, 3, (m, d))
    for i, kd in enumerate(kinds):
        m = rng.randint(2, n+1); X = pts(m)
        if kd == 'pref':
            k = rng.randint(1, 6); u = rng.randint(0, m, k); v = (u + rng.randint(1, m, k)) % m
            g.add(X, [(int(a), int(b), int(c)) for a, b, c in zip(rng.choice([-1, 1], k), u, v)])
        elif kd == 'abs': g.add(X, rng.uniform(.05, .95, m), type='abs')
        else: g.add(X, rng.randint(1, 6, m), type='ordinal')
        Xs.append(X)
    return np.concatenate(Xs), kinds

def dense(k, T, F, W, X):
    K = k.cov(T, T); kx = k.cov(X, T)
    mu = kx @ np.linalg.solve(K, F)
    C = k.cov(X, X) - kx @ np.linalg.inv(np.eye(len(K)) + W @ K) @ W @ kx.T
    return mu, C

def mk(rng, norm=False):
    noise = rng.uniform(.05, .5)
    r = rng.rand()
    if r < .5: k = lop.RBF_kern(rng.uniform(.5, 1.5), rng.uniform(.4, 1.5), sigma_noise=noise)
    elif r < .8: k = lop.RBF_kern(rng.uniform(.5, 1.5), rng.uniform(.4, 1.5), sigma_noise=noise) + lop.LinearKern(rng.uniform(.2, .6), .3, .1)
    else: k = lop.RBF_kern_zeroed(rng.uniform(.5, 1.5), rng.uniform(.4, 1.5), sigma_noise=noise)
    kw = {'normalize_gp': True, 'normalize_positive': rng.rand() < .5} if norm and rng.rand() < .3 else {}
    return k, lop.PreferenceGP(k, **kw)

@case(40)
def fitted(rng):
    k, g = mk(rng, True); d = rng.randint(0, 4)
    T, kinds = fill(rng, g, 6, d)
    q = lambda m: rng.uniform(-.5, 3.5, m) if d == 0 else rng.uniform(-.5, 3.5, (m, d))
    X = q(rng.choice([1, 2, 5, 14, 15, 16, 29, 30, 31, 40]))
    note(kinds=list(kinds), X=X)
    if rng.rand() < .5: g.optimize()
    mu, s = g.predict(X)
    if X.shape == T.shape and (X == T).all(): return
    close(g.X_train, T, 'training samples'); F, W = g.F, g.W
    K = k.cov(T, T)
    if np.linalg.eigvalsh(K).min() < 1e-8 or np.linalg.cond(K) > 1e6: return
    close(g.K, K, 'K is the covariance of the samples')
    w2, gl, ll = g.derivatives(g.y_train, F)
    close(W, w2, 'W is the curvature at the mode', rtol=1e-7, atol=1e-8)
    close(g.log_likelihood, ll, 'log likelihood at the mode', rtol=1e-7)
    m2, C = dense(k, T, F, W, X)
    close(mu, m2, 'predicted mean', rtol=1e-5, atol=1e-6); close(g.cov, C, 'covariance', rtol=1e-5, atol=1e-6)
    close(s, np.maximum(0, np.diag(C)), 'variance', rtol=1e-5, atol=1e-6); check((s >= 0).all(), 'negative variance')
    ml, sl = g.predict_large(X)
    close(ml, mu, 'predict_large mean', rtol=1e-7, atol=1e-8); close(sl, s, 'predict_large variance', rtol=1e-6, atol=1e-7)
    if len(T) > 1:
        for i in rng.randint(0, len(X), 3):
            a, b = g.predict(X[i:i+1])
            close(a[0], mu[i], 'mean of one point alone', rtol=1e-7, atol=1e-8); close(b[0], s[i], 'variance of one point alone', rtol=1e-6, atol=1e-7)
    close(g(X), mu, 'calling the model')
    p = rng.permutation(len(X)); a, b = g.predict(X[p])
    close(a, mu[p], 'order of the query points', rtol=1e-7, atol=1e-8)
    # a state given by the caller
    F2 = rng.randn(len(T)); A = rng.randn(len(T), len(T)); W2 = A @ A.T*.2
    a, b = g.predict(X, T, F2, W2); m2, C = dense(k, T, F2, W2, X)
    close(a, m2, 'mean of a given state', rtol=1e-5, atol=1e-6); close(b, np.maximum(0, np.diag(C)), 'variance of a given state', rtol=1e-5, atol=1e-6)
    a, b = g.predict(X); close(a, mu, 'predicting a given state does not change the model', rtol=1e-7, atol=1e-8)

@case(60)
def prior(rng):
    k, g = mk(rng); d = rng.randint(0, 4)
    q = lambda m: rng.uniform(-.5, 3.5, m) if d == 0 else rng.uniform(-.5, 3.5, (m, d))
    if rng.rand() < .5:
        fill(rng, g, 3, d)
        if rng.rand() < .5: g.predict(q(2))
        g.reset()
    X = q(rng.choice([1, 2, 15, 16, 33])); note(X=X)
    mu, s = g.predict(X)
    close(mu, np.zeros(len(X)), 'prior mean'); close(s, np.maximum(0, np.diag(k.cov(X, X))), 'prior variance')
    ml, sl = g.predict_large(X); close(ml, mu, 'prior, large'); close(sl, s, 'prior variance, large', rtol=1e-7)

@case(60)
def blocks(rng):
    """predict_large for a state set by hand, any number of points"""
    k, g = mk(rng); d = rng.randint(0, 3); n = rng.randint(1, 6)
    q = lambda m: rng.uniform(-.5, 3.5, m) if d == 0 else rng.uniform(-.5, 3.5, (m, d))
    T = q(n); A = rng.randn(n, n)
    g.X_train, g.F, g.W, g.K, g.optimized = T, rng.randn(n), A @ A.T*.3, k.cov(T, T), True
    if np.linalg.eigvalsh(g.K).min() < 1e-8: return
    X = q(rng.randint(1, 80)); note(T=T, X=X)
    if X.shape == T.shape and (X == T).all(): return
    m2, C = dense(k, T, g.F, g.W, X); mu, s = g.predict_large(X)
    close(mu, m2, 'mean', rtol=1e-5, atol=1e-6); close(s, np.maximum(0, np.diag(C)), 'variance', rtol=1e-5, atol=1e-6)

@case(20)
def singular(rng):
    """a covariance matrix that cannot be factorised: the mean is k* pinv(K) F"""
    k = lop.LinearKern(rng.uniform(.5, 1), 0.0, 0.0); g = lop.PreferenceGP(k); n = rng.randint(3, 6)
    T = rng.randn(n, 1); A = rng.randn(n, n); W = A @ A.T*.1
    K = k.cov(T, T) - 1e-3*np.eye(n)
    g.X_train, g.F, g.W, g.K, g.optimized = T, rng.randn(n), W, K, True
    X = rng.randn(4, 1); note(T=T, X=X)
    mu, s = g.predict(X)
    kx = k.cov(X, T)
    close(mu, kx @ np.linalg.pinv(K) @ g.F, 'mean', rtol=1e-4, atol=1e-6)

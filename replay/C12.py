from replay.h import *
from replay.gens import kern, fd

@case(200)
def point(rng):
    mk, th, X, Y = kern(rng)
    k = mk(th)
    check(len(k) == len(th), 'len(kernel)'); close(k.get_param(), th, 'get_param')
    for u, v in ((X[0], Y[0]), (X[-1], X[-1]), (Y[-1], X[0])):
        g = k.gradient(u, v)
        check(np.shape(g) == (len(th),), 'gradient shape')
        for p in range(len(th)):
            def f(x):
                t = th.copy(); t[p] = x; return mk(t)(u, v)
            e = fd(f, th[p], 1e-4)
            close(g[p], e, 'gradient[%d]' % p, rtol=1e-4, atol=1e-6*(1 + abs(e)))

@case(200)
def matrix(rng):
    mk, th, X, Y = kern(rng)
    k = mk(th)
    if rng.rand() < .3: Y = X
    G = k.cov_gradient(X, Y)
    G = np.array(G)
    check(G.shape == (len(th), len(X), len(Y)), 'cov_gradient shape %s' % (G.shape,))
    prod = getattr(mk, 'noisy', False) and X.shape == Y.shape and (X == Y).all()
    for i in range(len(X)):
        for j in range(len(Y)):
            if prod and i == j: continue
            close(G[:, i, j], k.gradient(X[i], Y[j]), 'cov_gradient[:, %d, %d]' % (i, j), rtol=1e-6, atol=1e-9)
    if len(X) > 1:
        for p in range(len(th)):
            def f(x):
                t = th.copy(); t[p] = x; return mk(t).cov(X, Y)
            e = fd(f, th[p], 1e-4)
            close(G[p], e, 'cov_gradient[%d]' % p, rtol=1e-4, atol=1e-6*(1 + abs(e).max()))

from replay.h import *
from replay.gens import kern
import lop

def ref(name, th, u, v, z=None):
    u, v = np.atleast_1d(u), np.atleast_1d(v)
    if name == 'rbf': return th[0]**2*np.exp(-((u-v)**2).sum()/(2*th[1]**2))
    if name == 'lin': return th[1]**2 + th[0]**2*((u-th[2])*(v-th[2])).sum()
    if name == 'per':
        return th[0]**2*np.exp(-2*np.sin(np.pi*np.abs(u-v).sum()/th[2])**2/th[1]**2)
    if name == 'rbf0':
        z = np.zeros(len(u)) if z is None else z
        return ref('rbf', th, u, v) - ref('rbf', th, u, z)*ref('rbf', th, v, z)/th[0]**2

def draw(rng, d, depth=0):
    """(kernel, reference function of two points, noise added on the diagonal of identical sets: f(k_value)->value)"""
    if depth < 2 and rng.rand() < (.35 if depth == 0 else .2):
        a, ra, da = draw(rng, d, depth+1); b, rb, db = draw(rng, d, depth+1)
        if rng.rand() < .5: return a + b, (lambda u, v: ra(u, v) + rb(u, v)), (lambda u: da(u) + db(u))
        return a*b, (lambda u, v: ra(u, v)*rb(u, v)), (lambda u: da(u)*db(u))
    t = rng.choice(['rbf', 'lin', 'per', 'rbf0'])
    th = rng.uniform(0.4, 2.0, 3)
    z = None
    if t == 'rbf': k = lop.RBF_kern(th[0], th[1], sigma_noise=th[2])
    elif t == 'lin': k = lop.LinearKern(*th)
    elif t == 'per': k = lop.PeriodicKern(*th)
    else:
        z = rng.randn(d) if rng.rand() < .5 else None
        k = lop.RBF_kern_zeroed(th[0], th[1], zero_pt=z, sigma_noise=th[2])
    r = lambda u, v: ref(t, th, u, v, z)
    return k, r, (lambda u: r(u, u) + (th[2] if t in ('rbf', 'rbf0') else 0))

@case(400)
def cov(rng):
    d = rng.randint(1, 4); n, m = rng.randint(1, 6, 2)
    if rng.rand() < .3: m = n
    vecs = d == 1 and rng.rand() < .4
    k, r, diag = draw(rng, d)
    X = rng.randn(n, d)*rng.choice([.5, 2]); Y = rng.randn(m, d)*rng.choice([.5, 2])
    if rng.rand() < .4: Y[0] = X[0]
    if rng.rand() < .2 and m == n: Y = X[rng.permutation(n)]
    if rng.rand() < .3 and n > 1: X[1] = X[0]
    if vecs: X, Y = X[:, 0], Y[:, 0]
    note(kernel=repr(type(k)), X=X, Y=Y)
    X0, Y0 = X.copy(), Y.copy()
    pt = lambda A, i: A[i]
    W = np.array([[r(X[i], Y[j]) for j in range(len(Y))] for i in range(len(X))])
    same = X.shape == Y.shape and (X == Y).all()
    C = k.cov(X, Y)
    if not same: close(C, W, 'cov(X,Y)', rtol=1e-7, atol=1e-9)
    close(k.cov(Y, X), C.T, 'cov(Y,X) == cov(X,Y).T', rtol=1e-9, atol=1e-11)
    S = np.array([[r(X[i], X[j]) if i != j else diag(X[i]) for j in range(len(X))] for i in range(len(X))])
    CX = k.cov(X, X)
    close(CX, S, 'cov(X,X)', rtol=1e-7, atol=1e-9)
    close(k.cov(X, X.copy()), S, 'cov(X, copy of X)', rtol=1e-7, atol=1e-9)
    close(CX, CX.T, 'symmetric', rtol=1e-12, atol=1e-13)
    for i in range(min(2, len(X))):
        close(k(X[i], Y[0]), W[i, 0], 'k(u,v)', rtol=1e-7, atol=1e-9)
        close(k(Y[0], X[i]), W[i, 0], 'k(v,u)', rtol=1e-7, atol=1e-9)
    check((X == X0).all() and (Y == Y0).all(), 'inputs modified')

@case(60)
def zero_point(rng):
    d = rng.randint(1, 4); n = rng.randint(1, 5)
    z = rng.randn(d) if rng.rand() < .5 else None
    k = lop.RBF_kern_zeroed(*rng.uniform(.4, 2, 2), zero_pt=z, sigma_noise=rng.uniform(0.01, 1))
    X = rng.randn(n, d); Z = (np.zeros(d) if z is None else z)[np.newaxis]
    note(X=X, zero=z)
    close(k.cov(X, Z), np.zeros((n, 1)), 'covariance with the zero point', atol=1e-10)
    close(k(X[0], Z[0]), 0, 'k(x, zero)', atol=1e-10)

@case(60)
def generic(rng):
    class K(lop.KernelFunc):
        def __call__(self, u, v): return float(np.sum(np.asarray(u)*3 - np.asarray(v)))
    X, Y = rng.randn(rng.randint(1, 5), 2), rng.randn(rng.randint(1, 5), 2)
    close(K().cov(X, Y), [[np.sum(x*3 - y) for y in Y] for x in X], 'generic cov')

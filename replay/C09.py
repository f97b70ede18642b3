from replay.h import *
import lop
from scipy.special import ndtr
from scipy.stats import norm

def gen(rng):
    K = rng.randint(3, 9); n = rng.randint(1, 8); m = rng.randint(1, 10)
    s = rng.choice([0.5, 1.0, 2.0]); b = rng.choice([0.8, 1.0, 3.0])
    F = rng.randn(n)*rng.choice([0.3, 1.0]) + b/2
    r = rng.randint(1, K+1, m)
    if rng.rand() < 0.3: r[rng.randint(m)] = rng.choice([1, K])
    ix = rng.randint(0, n, m) if m > n or rng.rand() < 0.6 else rng.permutation(n)[:m]
    note(K=K, F=F, ratings=r, idx=ix, sigma=s, b=b)
    return K, (r, ix), F, s, b

def spec(K, y, F, s, bp):
    r, ix = y
    f = F[ix]
    zu, zl = (bp[r]-f)/s, (bp[r-1]-f)/s
    l = ndtr(zu) - ndtr(zl)
    pu, pl = norm.pdf(zu), norm.pdf(zl)
    with np.errstate(all='ignore'):
        zpu = np.where(np.isfinite(zu), zu*pu, 0); zpl = np.where(np.isfinite(zl), zl*pl, 0)
    g1 = -(pu-pl)/(s*l); w1 = g1**2 + (zpu-zpl)/(s*s*l)
    g = np.zeros(len(F)); W = np.zeros((len(F),)*2)
    np.add.at(g, ix, g1); np.add.at(W, (ix, ix), w1)
    return l, g, W

def brk(K, b): return np.hstack(([-np.inf], np.linspace(0, b, K-1), [np.inf]))

@case(220)
def values(rng):
    K, y, F, s, b = gen(rng)
    bp = brk(K, b)
    p = lop.OrdinalProbit(s, b, n_ordinals=K)
    u = rng.rand()
    if u < 0.25: p = lop.OrdinalProbit(1.3, 2.0, n_ordinals=K); p.set_hyper([s, b])
    elif u < 0.45:
        q = np.sort(rng.uniform(-1, 2, K-1)) + np.arange(K-1)*0.2
        bp = np.hstack(([-np.inf], q, [np.inf])); p.set_b(q if rng.rand() < .5 else bp.copy())
    elif u < 0.55: p.set_b(-b)
    l, g, W = spec(K, y, F, s, bp)
    if (l < 1e-7).any() or (np.abs(F).max() + b)/s > 25: return
    y0 = (y[0].copy(), y[1].copy()); F0 = F.copy()
    close(p.likelihood_each(y, F), l, 'likelihood_each')
    close(p.likelihood(y, F), np.prod(l), 'likelihood', atol=1e-14)
    close(p.log_likelihood(y, F), np.log(l).sum(), 'log_likelihood')
    W2, g2, py = p.derivatives(y, F)
    check((y[0] == y0[0]).all() and (y[1] == y0[1]).all() and (F == F0).all(), 'inputs modified')
    close(py, np.log(l).sum(), 'py')
    close(g2, g, 'gradient', rtol=1e-5, atol=1e-6)
    close(W2, W, 'W', rtol=1e-4, atol=1e-5)

@case(60)
def total(rng):
    K, y, F, s, b = gen(rng)
    p = lop.OrdinalProbit(s, b, n_ordinals=K)
    for i in range(len(F)):
        r = p.likelihood_each((np.arange(1, K+1), np.full(K, i)), F)
        check((r >= -1e-12).all(), 'negative category probability', got=r)
        close(r.sum(), 1.0, 'category probabilities do not sum to 1')

@case(4)
def many(rng):
    p = lop.OrdinalProbit(1.0, 1.0)
    r = rng.randint(1, 6, 900); ix = rng.randint(0, 3, 900); F = rng.randn(3)*0.3
    note(ratings=900, F=F)
    a = p.log_likelihood((r, ix), F); check(np.isfinite(a), 'log likelihood underflows')
    close(p.derivatives((r, ix), F)[2], a, 'py == log_likelihood')

@case(20)
def zero_rating(rng):
    K, y, F, s, b = gen(rng)
    p = lop.OrdinalProbit(s, b, n_ordinals=K)
    y[0][rng.randint(len(y[0]))] = 0
    check(raises(lambda: p.likelihood_each(y, F)), 'a rating of 0 must be rejected')

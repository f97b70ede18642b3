from replay.h import *
import lop
from scipy.special import log_ndtr, ndtr
from scipy.stats import norm

def gen(rng):
    n = rng.randint(2, 9); m = rng.randint(1, 14)
    F = rng.randn(n)*rng.choice([0.3, 1, 3])
    if rng.rand() < 0.2: F[rng.randint(n)] = F[rng.randint(n)]
    y = np.empty((m, 3), dtype=int)
    for k in range(m):
        u, v = rng.choice(n, 2, replace=False)
        y[k] = [rng.choice([-1, 1]), u, v]
    if m > 1 and rng.rand() < 0.6: y[rng.randint(m)] = y[rng.randint(m)]
    sig = rng.choice([0.3, 0.7, 1.0, 2.5]) if rng.rand() < .7 else rng.uniform(0.2, 4)
    note(n=n, y=y, F=F, sigma=sig)
    return y, F, sig

def spec_ll(y, F, s):
    z = np.clip(y[:, 0]*(F[y[:, 2]] - F[y[:, 1]])/(np.sqrt(2)*s), -30, 100)
    return log_ndtr(z).sum()
def terms(y, F, s):
    c = 1/(np.sqrt(2)*s)
    z = y[:, 0]*(F[y[:, 2]] - F[y[:, 1]])*c
    r = np.exp(norm.logpdf(z) - log_ndtr(z))
    return c, z, r

@case(220)
def values(rng):
    y, F, s = gen(rng)
    p = lop.PreferenceProbit(s)
    y0, F0 = y.copy(), F.copy()
    W, g, py = p.derivatives(y, F)
    check((y == y0).all() and (F == F0).all(), 'inputs modified')
    c, z, r = terms(y, F, s)
    if (np.abs(z) > 29).any(): return
    close(p.log_likelihood(y, F), spec_ll(y, F, s), 'log_likelihood')
    close(py, spec_ll(y, F, s), 'py of derivatives')
    g2 = np.zeros(len(F)); W2 = np.zeros((len(F), len(F)))
    for k in range(len(y)):
        d, u, v = y[k]
        e = np.zeros(len(F)); e[v] += 1; e[u] -= 1
        g2 += d*c*r[k]*e
        W2 += c*c*(z[k]*r[k] + r[k]**2)*np.outer(e, e)
    close(g, g2, 'gradient', rtol=1e-5, atol=1e-7)
    close(W, W2, 'W', rtol=1e-4, atol=1e-6)
    close(p.likelihood(y, F), ndtr(z), 'likelihood')

@case(60)
def all_pairs(rng):
    y, F, s = gen(rng)
    p = lop.PreferenceProbit(s)
    if (np.abs(F).max()*2/s > 25): return
    close(p.likelihood_all_pairs(F), ndtr((F[:, None] - F[None, :])/(np.sqrt(2)*s)), 'likelihood_all_pairs')

@case(40)
def after_set(rng):
    y, F, s = gen(rng)
    p = lop.PreferenceProbit(1.0)
    p.set_hyper(np.array([s]))
    c, z, r = terms(y, F, s)
    if (np.abs(z) > 29).any(): return
    close(p.log_likelihood(y, F), spec_ll(y, F, s), 'log_likelihood after set_hyper')
    q = lop.PreferenceProbit(s)
    for a, b in zip(p.derivatives(y, F), q.derivatives(y, F)): close(a, b, 'derivatives after set_hyper')

from replay.h import *
import lop
from scipy.special import ndtr, digamma, polygamma, gammaln
from scipy.stats import beta, norm

def gen(rng, dup=True):
    n = rng.randint(1, 8); m = rng.randint(1, 10)
    F = rng.randn(n)*rng.choice([0.2, 0.7, 1.5])
    r = rng.uniform(0.02, 0.98, m)
    if rng.rand() < 0.3: r[rng.randint(m)] = rng.choice([0.01, 0.5, 0.99])
    if m > n or (dup and rng.rand() < 0.6): ix = rng.randint(0, n, m)
    else: ix = rng.permutation(n)[:m]
    s = rng.choice([0.5, 1.0, 2.0]); v = rng.choice([3., 20., 80.])
    note(F=F, ratings=r, idx=ix, sigma=s, v=v)
    return (r, ix), F, s, v

def spec(y, F, s, v):
    r, ix = y
    c = 1/(np.sqrt(2)*s); f = F[ix]; mu = ndtr(f*c); a, b = v*mu, v*(1-mu)
    ok = (mu > 1e-6).all() and (mu < 1-1e-6).all()
    ll = ((a-1)*np.log(r) + (b-1)*np.log1p(-r) - gammaln(a) - gammaln(b) + gammaln(a+b)).sum()
    T = np.log(r) - np.log1p(-r) - digamma(a) + digamma(b)
    ph = norm.pdf(f*c)
    g = np.zeros(len(F)); W = np.zeros((len(F), len(F)))
    for k in range(len(r)):
        g[ix[k]] += v*c*ph[k]*T[k]
        W[ix[k], ix[k]] -= -v*c*ph[k]*(f[k]*c*c*T[k] + v*c*ph[k]*(polygamma(1, a[k]) + polygamma(1, b[k])))
    return ok, ll, g, W, mu, a, b

@case(200)
def values(rng):
    y, F, s, v = gen(rng)
    ok, ll, g, W, mu, a, b = spec(y, F, s, v)
    if not ok: return
    p = lop.AbsBoundProbit(s, v, optimize_v_only=bool(rng.rand() < .5)) if rng.rand() < .7 else None
    if p is None:
        p = lop.AbsBoundProbit(0.77, 11.0, optimize_v_only=False); p.set_hyper(np.array([s, v]))
    y0 = (y[0].copy(), y[1].copy()); F0 = F.copy()
    W2, g2, py = p.derivatives(y, F)
    check((y[0] == y0[0]).all() and (y[1] == y0[1]).all() and (F == F0).all(), 'inputs modified')
    close(py, ll, 'py', rtol=1e-6, atol=1e-6)
    close(p.log_likelihood(y, F), ll, 'log_likelihood', rtol=1e-6, atol=1e-6)
    close(p.likelihood(y, F), np.exp(ll), 'likelihood', rtol=1e-5, atol=1e-12)
    close(g2, g, 'gradient', rtol=1e-5, atol=1e-6)
    close(W2, W, 'W', rtol=1e-4, atol=1e-6)

@case(60)
def link(rng):
    y, F, s, v = gen(rng)
    if rng.rand() < 0.4: F = F*rng.choice([10, 100])
    p = lop.AbsBoundProbit(s, v)
    ml = p.mean_link(F)
    close(ml, np.clip(ndtr(np.clip(F/(np.sqrt(2)*s), -30, 100)), 1e-10, 1-1e-10), 'mean_link')
    aa, bb = p.get_alpha_beta(F)
    check((aa > 0).all() and (bb > 0).all(), 'beta parameters must be positive')
    close(aa, v*ml, 'alpha'); close(aa + bb, np.full(len(F), v), 'alpha+beta')
    o = np.argsort(F); check((np.diff(ml[o]) >= 0).all(), 'mean link not monotone')
    q = rng.uniform(0.05, 0.95, len(F))
    close(p.cdf(q, F), beta.cdf(q, aa, bb), 'cdf')

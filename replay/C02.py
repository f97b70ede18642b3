from replay.lrn import *
from scipy.special import ndtr
class M0(PreferenceGP):
    """a preference model with given predictions"""
    def __init__(self, mu, var, cov): self._p = mu, var; self.cov = cov; self.X_train = np.zeros((1, 1)); self.probits = [lop.PreferenceProbit(1.)]
    def predict(self, x): return self._p
class M1(GP):
    def __init__(self, mu, var, cov): self._p = mu, var; self.cov = cov; self.X_train = np.zeros((1, 1))
    def predict(self, x): return self._p
class M2(PreferenceLinear):
    def __init__(self, mu): self._p = mu, None; self.X_train = np.zeros((1, 1)); self.probits = [lop.PreferenceProbit(1.)]
    def predict(self, x): return self._p
def setup(rng, lo=1):
    n = rng.randint(lo, 9); mu = rng.randint(0, 6, n)/2.; A = rng.randn(n, n); cov = A@A.T + np.eye(n)*.1; var = np.diag(cov).copy()
    S = set(int(i) for i in rng.permutation(n)[:rng.randint(1, n + 1)]); note(n=n, mu=mu, cov=cov, allowed=S); return n, mu, cov, var, S
def judge(lr, X, mu, var, S, prev, score, sign=1, tol=1e-9):
    S0, p0 = set(S), list(prev); r = quiet(lr.select_greedy, X, mu, var, S, prev); check(r in S0, 'not allowed: %s of %s' % (r, S0)); check(S == S0 and list(prev) == p0, 'inputs changed')
    v = {i: sign*score(i) for i in S0}; b = max(v.values()); check(v[r] >= b - tol*max(1, abs(b)), 'score of the choice %s is %s, another has %s' % (r, v[r], b))
    check(abs(sign*lr.sel_metric - v[r]) <= 1e-6*max(1, abs(b)), 'reported metric %s, score %s' % (lr.sel_metric, v[r])); return r

@case(300)
def means(rng):
    n, mu, cov, var, S = setup(rng); X = rng.rand(n, 2)
    for c, s in ((BestLearner, 1), (WorstLearner, -1)):
        l = c(); l.set_model(M0(mu, var, cov)); judge(l, X, mu, var, S, [], lambda i: mu[i], s)
@case(300)
def ucb(rng):
    n, mu, cov, var, S = setup(rng); X = rng.rand(n, 2); a = float(rng.choice([0, .5, 2, 10])); k = int(rng.randint(0, 3)); prev = [int(i) for i in rng.permutation(n)[:k]]; note(alpha=a, prev=prev)
    m = M0(mu, var, cov) if rng.rand() < .5 else M1(mu, var, cov)
    l = UCBLearner(a); l.set_model(m); judge(l, X, mu, var, S, prev, lambda i: mu[i] + a*np.sqrt(var[i]))
    l = GV_UCBLearner(a); l.set_model(m); judge(l, X, mu, var, S, prev, lambda i: mu[i] + a*max(np.linalg.det(cov[np.ix_(prev + [i], prev + [i])]), 0)**(1/(k + 1)) if i not in prev else mu[i], tol=1e-6) if not (set(prev) & S) else None

def patched(owner, nm, f):
    class P:
        def __enter__(s): s.o = getattr(owner, nm); setattr(owner, nm, f)
        def __exit__(s, *a): setattr(owner, nm, s.o)
    return P()
import importlib
@case(120)
def linear_ucb(rng):
    """the variance of a linear model comes from sampled weights"""
    n, mu, cov, var, S = setup(rng); X = rng.rand(n, 3); a = float(rng.choice([0, .5, 2, 10])); W = {}; k = int(rng.randint(0, 3)); prev = [i for i in range(n) if i not in S][:k]
    def mh(loss, num, *x, **kw): W['w'] = rng.randn(num, 3); return W['w']
    for mod, c in (('UCBLearner', UCBLearner), ('GV_UCBLearner', GV_UCBLearner)):
        mm = sys.modules['lop.active_learning.' + mod]
        with patched(mm, 'metropolis_hastings', mh):
            l = c(a); l.set_model(M2(mu)); 
            sc = (lambda i: mu[i] + a*np.sqrt(np.var(X @ W['w'].T, axis=1)[i])) if c is UCBLearner else (lambda i: mu[i] + a*max(np.linalg.det(np.cov(X @ W['w'].T).reshape(n, n)[np.ix_(prev + [i], prev + [i])]), 0)**(1/(len(prev) + 1)))
            judge(l, X, mu, None, S, prev, sc, tol=1e-6)
@case(100)
def mutual(rng):
    n, mu, cov, var, S = setup(rng); X = rng.rand(n, 2); k = int(rng.randint(0, 3)); prev = [i for i in range(n) if i not in S][:k]; W = {}
    def mvn(m, c, size=None): check(np.allclose(m, mu) and np.allclose(c, cov), 'samples of another distribution'); W['w'] = rng.randn(size, n); return W['w']
    def score(i):
        w = W['w'][:, prev + [i]]*l.peakiness; p = np.exp(w - w.max(1, keepdims=True)); p /= p.sum(1, keepdims=True); return (p*np.log2(len(w)*p/p.sum(0))).sum()/len(w)
    with patched(np.random, 'multivariate_normal', mvn):
        l = MutualInfoLearner(); l.set_model(M0(mu, var, cov)); judge(l, X, mu, var, S, prev, score, tol=1e-6)
@case(100)
def bayes(rng):
    n, mu, cov, var, S = setup(rng, 2); X = rng.rand(n, 2); k = int(rng.randint(1, 3)); prev = [i for i in range(n) if i not in S][:k]
    if not prev: prev = [min(S)]; S.discard(min(S))
    if not S: return
    pB = rng.dirichlet(np.ones(n)); pm = ndtr((mu[:, None] - mu[None, :])/np.sqrt(2)); note(pB=pB, prev=prev)
    def H(p): p = np.asarray(p); return -np.sum(np.where(p < 1e-17, 0, p*np.log(np.maximum(p, 1e-300))))
    def score(i):
        Q = prev + [i]; pq = np.array([np.prod([pm[a, b] for b in Q if b != a]) for a in Q]); pq /= pq.sum()
        return H(pB) - np.sum(pq)*H(pB)          # with the probit method an answer leaves the belief as it was
    l = BayesInfoGain(); l.set_model(M0(mu, var, cov)); l.first_call_greedy = False; l.p_B, l.probit_mat = pB, pm; judge(l, X, mu, var, S, prev, score, tol=1e-6)
@case(80)
def bayes_999(rng):
    n, mu, cov, var, S = setup(rng, 3); X = rng.rand(n, 2); k = int(rng.randint(1, 3)); prev = [i for i in range(n) if i not in S][:k]
    if not prev: return
    eps = float(rng.choice([.999, .99])); pB = rng.dirichlet(np.ones(n)); pm = ndtr((mu[:, None] - mu[None, :])/np.sqrt(2)); note(pB=pB, prev=prev)
    def H(p): p = np.asarray(p); return -np.sum(np.where(p < 1e-17, 0, p*np.log(np.maximum(p, 1e-300))))
    def score(i):
        Q = prev + [i]; pq = np.array([np.prod([pm[a, b] for b in Q if b != a]) for a in Q])
        pqB = np.array([[np.prod([(eps if a == B else pm[a, b]) for b in Q if b != a]) if B in Q else pq[x] for B in range(n)] for x, a in enumerate(Q)])
        pq = pq/pq.sum(); pqB = pqB/pqB.sum(0); pBq = pqB*pB/pq[:, None]; pBq /= pBq.sum(1, keepdims=True); return H(pB) - sum(pq[x]*H(pBq[x]) for x in range(len(Q)))
    l = BayesInfoGain(p_q_B_method='999' if eps == .999 else '99'); l.set_model(M0(mu, var, cov)); l.first_call_greedy = False; l.p_B, l.probit_mat = pB, pm; judge(l, X, mu, var, S, prev, score, tol=1e-6)
@case(120)
def bayes_pairs(rng):
    """gain of a pair: entropy of which candidate is best, minus its expectation after the answer"""
    n, mu, cov, var, S = setup(rng, 2); X = rng.rand(n, 2); S = set(int(i) for i in rng.permutation(n)[:rng.randint(2, n + 1)]); meth = str(rng.choice(['probit', '999', '99'])); pB = rng.dirichlet(np.ones(n)); pm = ndtr((mu[:, None] - mu[None, :])/np.sqrt(2)); note(pB=pB, allowed=S, method=meth)
    def H(p): return -sum(x*np.log(x) for x in p if x >= 1e-17)
    def after(a, b):
        q = np.full(n, pm[a, b]); q[a], q[b] = {'probit': (max(pm[a, b], pm[b, a]), min(pm[a, b], pm[b, a])), '999': (.999, .001), '99': (.99, .01)}[meth]; w = q*pB; return H(w/w.sum())
    G = {(a, b): H(pB) - pm[a, b]*after(a, b) - pm[b, a]*after(b, a) for a in S for b in S if a < b}
    l = BayesInfoGain(p_q_B_method=meth); l.set_model(M0(mu, var, cov)); l.first_call_greedy = False; l.p_B, l.probit_mat = pB.copy(), pm.copy(); S0 = set(S); r = quiet(l.select_pair, X, mu, var, S, set()); r = (int(r[0]), int(r[1]))
    check(S == S0 and r[0] != r[1] and set(r) <= S0, 'pair %s is not allowed' % (r,)); g = G[tuple(sorted(r))]; b = max(G.values()); check(g >= b - 1e-9, 'gain of %s is %s, the best has %s' % (r, g, b)); check(abs(l.sel_metric - g) <= 1e-6, 'reported metric %s, gain %s' % (l.sel_metric, g)); check(np.array_equal(l.probit_mat, pm) and np.array_equal(l.p_B, pB), 'the kept probabilities changed')
@case(500)
def pairs(rng):
    n = rng.randint(2, 8); G = rng.randint(0, 5, (n, n))*1. if rng.rand() < .6 else rng.randn(n, n); ix = None if rng.rand() < .4 else set(int(i) for i in rng.permutation(n)[:rng.randint(2, n + 1)])
    if rng.rand() < .4: G = G + G.T
    Q = set(int(i) for i in range(n) if rng.rand() < .4) if rng.rand() < .6 else set(); note(gain=G, allowed=ix, prev=Q)
    A = range(n) if ix is None else ix; ok = [(i, j) for i in A for j in A if i != j and not (i in Q and j in Q)]
    if not ok: return
    G0 = G.copy(); r = RandomLearner().pick_pair_from_metric(G, Q, ix) if ix is not None else RandomLearner().pick_pair_from_metric(G, Q)
    r = (int(r[0]), int(r[1])); b = max(G0[p] for p in ok); check(r in ok, 'pair %s is not allowed' % (r,)); check(G0[r] >= b, 'gain of %s is %s, the best has %s' % (r, G0[r], b))
@case(150)
def p_best(rng):
    """probability that a candidate beats all others"""
    n = rng.randint(2, 7); mu = rng.randn(n); A = rng.randn(n, n); cov = A@A.T + .1*np.eye(n); note(mu=mu, cov=cov); l = RandomLearner(); l.set_model(M0(mu, np.diag(cov), cov))
    p = l.p_B_pref_gp(np.zeros((n, 2)), mu, cdf_method='independent'); w = np.array([np.prod([ndtr((mu[i] - mu[j])/np.sqrt(cov[i, i] + cov[j, j] - 2*cov[i, j])) for j in range(n) if j != i]) for i in range(n)])
    close(p, w/w.sum(), 'probabilities', rtol=1e-6)
@case(60)
def p_best_linear(rng):
    n = rng.randint(2, 7); X = rng.rand(n, 2); W = rng.randn(200, 2); mm = sys.modules['lop.active_learning.ActiveLearner']; note(X=X)
    l = RandomLearner(); l.set_model(M2(np.zeros(n)))
    with patched(mm, 'metropolis_hastings', lambda *a, **k: W): p = quiet(l.p_B_pref_linear, X, X @ np.ones(2))
    check(len(p) == n and (p >= 0).all() and abs(p.sum() - 1) < 1e-9, 'not probabilities: %s' % p)
@case(200)
def cdf(rng):
    n = rng.randint(1, 6); mu = rng.randn(n); A = rng.randn(n, n); cov = A@A.T + .1*np.eye(n); note(mu=mu, cov=cov)
    close(pu.calc_cdf(mu, cov, 'independent'), np.prod(ndtr(-mu/np.sqrt(np.diag(cov)))), 'independent')
    D = np.diag(np.diag(cov)); w = np.prod(ndtr(-mu/np.sqrt(np.diag(cov)))); close(pu.calc_cdf(mu, D, 'full'), w, 'full', rtol=1e-3, atol=1e-5)
    if n < 3: close(pu.calc_cdf(mu, D, 'switch'), w, 'switch', rtol=1e-3, atol=1e-5)

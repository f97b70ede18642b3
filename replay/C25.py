from replay.h import *
import lop
from lop.active_learning import AcquisitionSelection, AbsAcquisition
from scipy.stats import beta, rankdata
import scipy.integrate, warnings
KINDS = ['rho', 'loglikelihood', 'epic', 'spearman', 'one']

def corr(x, y):
    x, y = np.array(x, float) - np.mean(x), np.array(y, float) - np.mean(y); return float(np.dot(x, y)/np.sqrt(np.dot(x, x)*np.dot(y, y)))
def agreement(kind, A, B, Q, P):
    """definition of the alignment of two sampled rewards on the representative points"""
    if kind == 'one': return 1.
    if kind == 'rho':
        a, b = np.exp(A - max(A)), np.exp(B - max(B)); return -float(np.sqrt(np.sum((a/a.sum() - b/b.sum())**2)))
    if kind == 'epic': return -float(np.sqrt(max(0, 1 - corr(A, B))/2))
    if kind == 'spearman': return corr(rankdata(A), rankdata(B))
    def g(U, V):            # log likelihood under U of the answers V gives
        t = 0
        for q in Q:
            un = [np.prod([P(U[i], U[j]) for j in q if j != i]) for i in q]; t += np.log(un[int(np.argmax(V[q]))]/sum(un))
        return float(t)
    return g(A, B) + g(B, A)
def setup(rng, cls, kind, M, d=2, n=None):
    n = n or rng.randint(3, 8); R = rng.randint(3, 6); X = rng.rand(n, d); m = lop.PreferenceGP(lop.RBF_kern(.5, .7)); m.add(X.copy(), [(1, 0, 1)]); s = .3 + rng.rand(); m.probits[0].set_sigma(s); m.probits[2].set_v(1 + 40*rng.rand())
    o = cls(M=M, alignment_f=kind); o.set_model(m) if hasattr(o, 'set_model') else setattr(o, 'model', m)
    rep, Q = rng.randn(M, R)*2, rng.randn(M, n)*1.5; xrep = rng.rand(R, d); k = 2 if rng.rand() < .7 else 3; qrep = np.array([rng.choice(R, k, replace=False) for _ in range(rng.randint(1, 5))])
    o.get_representative_Q = lambda *a, **kw: (xrep, qrep); o.set_samples(rep, Q)
    from scipy.stats import norm
    P = lambda a, b: norm.cdf((a - b)/(np.sqrt(2)*s)); F = np.array([[agreement(kind, rep[i], rep[j], qrep, P) for j in range(M)] for i in range(M)])
    note(kind=kind, rep=rep, Q=Q, qrep=qrep, sigma=s); return o, X, rep, Q, qrep, P, F
def pairscore(Q, F, P, a, b):
    M = len(Q); t = 0
    for x, y in ((a, b), (b, a)):
        p = [P(w[x], w[y]) for w in Q]; t += sum(F[i][j]*p[i]*p[j] for i in range(M) for j in range(M))/M**2/np.mean(p)
    return t
def greedyscore(Q, F, P, S):
    M = len(Q); t = 0; U = np.array([[np.prod([P(w[i], w[j]) for j in S if j != i]) for i in S] for w in Q]); U = U/U.sum(axis=1)[:, None]
    for c in range(len(S)): t += sum(F[i][j]*U[i, c]*U[j, c] for i in range(M) for j in range(M))/M**2/np.mean(U[:, c])
    return t

@case(60)
def alignment(rng):
    kind = KINDS[rng.randint(5)]; M = rng.randint(2, 7); o, X, rep, Q, qrep, P, F = setup(rng, AcquisitionSelection, kind, M); r0 = rep.copy()
    f = o.alignment(rep, qrep); check(np.array_equal(rep, r0), 'the sampled rewards changed'); close(f, F, 'alignment ' + kind, 1e-7, 1e-7)
    p = rng.permutation(M); close(o.alignment(rep[p], qrep), F[p][:, p], 'alignment of permuted samples', 1e-7, 1e-7)
    close(o.alignment(rep[:, :1], qrep), np.zeros((M, M)), 'rewards on one point', 0, 0)
    if kind in ('epic', 'spearman', 'one'):
        B = rng.randn(*rep.shape); close(o.alignment_between(rep, B), [[agreement(kind, a, b, qrep, P) for b in B] for a in rep], 'alignment between ' + kind, 1e-7, 1e-7)

@case(40)
def pairs(rng):
    kind = KINDS[rng.randint(5)]; M = int(rng.choice([2, 3, 5, 12])); o, X, rep, Q, qrep, P, F = setup(rng, AcquisitionSelection, kind, M); n = len(X); mu = rng.rand(n)
    ind = sorted(rng.choice(n, rng.randint(2, n + 1), replace=False).tolist()); prev = set(); note(ind=ind)
    for perm in (np.arange(M), rng.permutation(M)):
        o.set_samples(rep[perm], Q[perm]); a, b = [int(x) for x in o.select_pair(X, mu, None, set(ind) if rng.rand() < .5 else ind, prev)]
        all_ = {(i, j): pairscore(Q, F, P, i, j) for i in ind for j in ind if i < j}; best = max(all_.values())
        check(a != b and a in ind and b in ind, 'pair %s outside of the candidates' % ((a, b),)); close(o.sel_metric, all_[tuple(sorted((a, b)))], 'score of the pair', 1e-6, 1e-8); check(all_[tuple(sorted((a, b)))] >= best - 1e-7*max(1, abs(best)), 'a pair with score %s is picked, the best has %s' % (all_[tuple(sorted((a, b)))], best))

@case(40)
def greedy(rng):
    kind = KINDS[rng.randint(5)]; M = int(rng.choice([2, 3, 6])); o, X, rep, Q, qrep, P, F = setup(rng, AcquisitionSelection, kind, M); n = len(X); mu = rng.rand(n); k = rng.randint(1, min(4, n))
    order = rng.permutation(n); prev, ind = order[:k].tolist(), order[k:].tolist(); note(prev=prev, ind=ind)
    for perm in (np.arange(M), rng.permutation(M)):
        o.set_samples(rep[perm], Q[perm]); r = int(o.select_greedy(X, mu, None, list(ind), list(prev))); sc = {i: greedyscore(Q, F, P, prev + [i]) for i in ind}; best = max(sc.values())
        check(r in ind, 'not a candidate: %s' % r); close(o.sel_metric, sc[r], 'score of the chosen candidate', 1e-6, 1e-8); check(sc[r] >= best - 1e-7*max(1, abs(best)), 'score %s chosen, the best has %s' % (sc[r], best))

@case(3)
def rated(rng):
    kind = KINDS[rng.choice([0, 2, 3, 4])]; M = rng.randint(2, 5); o, X, rep, Q, qrep, P, F = setup(rng, AbsAcquisition, kind, M, n=4); n = len(X); ind = sorted(rng.choice(n, rng.randint(2, n + 1), replace=False).tolist()); note(ind=ind)
    r = int(o.select_greedy(X, rng.rand(n), None, list(ind), [])); aa, bb = o.model.probits[2].get_alpha_beta(Q); check(r in ind, 'not a candidate')
    def score(c):
        def g(y):
            p = beta.pdf(y, aa[:, c], bb[:, c]); return sum(F[i][j]*p[i]*p[j] for i in range(M) for j in range(M))/M**2/np.mean(p)
        with warnings.catch_warnings(): warnings.simplefilter('ignore'); return scipy.integrate.quad(g, .0001, .9999, limit=400)[0]
    sc = {c: score(c) for c in ind}; close(o.sel_metric, sc[r], 'score of the chosen rating', 1e-2, 1e-3); check(sc[r] >= max(sc.values()) - 1e-2*max(1, abs(sc[r])), 'score %s chosen, the best has %s' % (sc[r], max(sc.values())))

@case(20)
def integrand(rng):
    from lop.active_learning.AbsAcquisition import pq_integrand
    M, n = rng.randint(1, 5), rng.randint(1, 4); a, b = .5 + 4*rng.rand(M, n), .5 + 4*rng.rand(M, n); f = rng.randn(M, M); y = .05 + .9*rng.rand(); note(a=a, b=b, f=f, y=y); p = beta.pdf(y, a, b)
    close(pq_integrand(y, a, b, f), [sum(f[i, j]*p[i, c]*p[j, c] for i in range(M) for j in range(M))/M**2/np.mean(p[:, c]) for c in range(n)], 'expected alignment of an answer', 1e-9, 1e-12)

@case(30)
def representative(rng):
    n, d = rng.randint(1, 9), 2; m = lop.PreferenceGP(lop.RBF_kern(.5, .7)); X = rng.rand(n, d); m.add(X.copy(), [(1, 0, 0)]); C = rng.rand(rng.randint(4, 8), d); o = AcquisitionSelection(M=3, rep_Q_data={'num_pts': int(rng.randint(3, 8)), 'num_Q': int(rng.randint(1, 12))}); o.model = m; note(X=X, C=C, data=o.rep_Q_data)
    x, q = o.get_representative_Q(C); pool = X if n >= 4 else np.append(X, C, axis=0); check(len(x) == min(o.rep_Q_data['num_pts'], len(pool)), '%d representative points' % len(x))
    rows = [tuple(r) for r in x]; check(len(set(rows)) == len(rows) and set(rows) <= {tuple(r) for r in pool}, 'representative points are not different points of the data')
    q = np.array(q); sets = {tuple(sorted(map(int, r))) for r in q}; check(len(sets) == len(q) == min(o.rep_Q_data['num_Q'], len(x)*(len(x) - 1)//2), '%d different queries of %d' % (len(sets), len(q))); check(q.min() >= 0 and q.max() < len(x) and all(len(set(r)) == 2 for r in q.tolist()), 'queries outside of the representative points')

@case(10)
def sampled(rng):
    d = 2; X, C, xr = rng.rand(5, d), rng.rand(4, d), rng.rand(3, d); m = lop.GP(lop.RBF_kern(.5, .7)); m.add(X, rng.randn(5)); o = AcquisitionSelection(M=4000); o.model = m; note(X=X, C=C, xr=xr)
    m.predict(C); np.random.seed(rng.randint(1000)); a, b = o.get_samples_from_model(C, xr); check(a.shape == (4000, 3) and b.shape == (4000, 4), 'shapes %s %s' % (a.shape, b.shape)); mu, s = m.predict(np.append(C, xr, axis=0)); K = m.cov
    S = np.append(b, a, axis=1); close(S.mean(axis=0), mu, 'mean of the samples', 0, .12); close(np.cov(S.T), K, 'covariance of the samples', 0, .15)

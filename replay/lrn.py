"""Learners and small models for the selection checks."""
from replay.h import *
import types, io, contextlib
try: import approxcdf
except ImportError:      # an optional dependency of the package: the orthant probability from scipy stands in
    def mvn_cdf(b, Cov, mean=None, **k):
        from scipy.stats import multivariate_normal as mv
        b = np.atleast_1d(np.asarray(b, float)); m = np.zeros(len(b)) if mean is None else np.asarray(mean, float)
        return max(float(mv.cdf(b, m, Cov, allow_singular=True)), 1e-12)
    approxcdf = types.ModuleType('approxcdf'); approxcdf.mvn_cdf = mvn_cdf; sys.modules['approxcdf'] = approxcdf
import lop
from lop.models import PreferenceGP, PreferenceLinear, GP
from lop.active_learning import *
import lop.utilities.probability_utility as pu
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
def model(rng, kind, d=2):
    """a model in a genuine state: some data given and the posterior found"""
    n = rng.randint(4, 7); X = rng.rand(n, d); f = X.sum(1) + .1*rng.randn(n)
    if kind == 'gp':
        m = PreferenceGP(lop.RBF_kern(.5, 1.))
        p = [(1 if f[i] > f[j] else -1, i, j) for i in range(n) for j in range(i)]
        m.add(X, np.array(p, dtype=int)); quiet(m.optimize)
    elif kind == 'plain':
        m = GP(lop.RBF_kern(.5, 1.)); m.add(X, f); quiet(m.predict, X)
    elif kind == 'linear':
        m = PreferenceLinear(); m.add(X, np.array([(1 if f[i] > f[j] else -1, i, j) for i in range(n) for j in range(i)], dtype=int)); quiet(m.optimize)
    else:
        m = PreferenceGP(lop.RBF_kern(.5, 1.))
    return m
class Fixed:
    """a model whose predictions are given"""
    X_train = None
    def __init__(self, mu, var=None, cov=None): self.mu, self.var, self.cov = mu, var, cov
    def predict(self, x): return self.mu, self.var
class Scores(ActiveLearner):
    """a learner with arbitrary scores"""
    def __init__(self, s, **k): super().__init__(**k); self.s = s; self.asked = []
    def select_greedy(self, X, mu, data, indicies, prev):
        ix = list(indicies); check(len(ix) > 0, 'asked to pick from no points'); return ix[int(np.argmax(self.s[ix]))]
class Pairs(Scores):
    def __init__(self, s, S, **k): super().__init__(s, **k); self.S = S
    def select_pair(self, X, mu, data, indicies, prev): return self.pick_pair_from_metric(self.S.copy(), prev, indicies)

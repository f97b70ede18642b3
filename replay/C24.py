from replay.h import *
from replay import gens
import lop
from lop.utilities import gamma_dist as gd
from scipy.stats import gamma as G

@case(200)
def density(rng):
    k, t = rng.uniform(.3, 6), rng.uniform(.1, 4); x = rng.gamma(k, t) + 1e-5; note(k=k, t=t, x=x)
    close(gd.pdf_gamma(x, k, t), G.pdf(x, k, scale=t), 'density'); close(gd.log_pdf_gamma(x, k, t), G.logpdf(x, k, scale=t), 'log density')
    close(gd.d_log_pdf_gamma(x, k, t), gens.fd(lambda z: gd.log_pdf_gamma(z, k, t), x, h=1e-4*x), 'gradient', rtol=1e-4, atol=1e-4)
    X = rng.uniform(-1, 3, rng.randint(1, 8)); X = np.where(abs(X) < 1e-5, .5, X)
    close(gd.log_pdf_gamma(X, k, t), [G.logpdf(z, k, scale=t) if z > 0 else -np.inf for z in X], 'array log density')
    p = X[X > 0]; close(gd.d_log_pdf_gamma(p, k, t), (k-1)/p - 1/t, 'array gradient'); close(gd.pdf_gamma(p, k, t), G.pdf(p, k, scale=t), 'array density')
    check(gd.log_pdf_gamma(-rng.rand()-1e-9, k, t) == -np.inf, 'negative argument')

def kern(rng, depth=0):
    r = rng.randint(0, 6 if depth < 2 else 4); a, b, c = rng.uniform(.2, 2, 3)
    if r == 0: return lop.RBF_kern(a, b, sigma_noise=.1)
    if r == 1: return lop.LinearKern(a, b, c)
    if r == 2: return lop.PeriodicKern(a, b, c)
    if r == 3: return lop.RBF_kern_zeroed(a, b, sigma_noise=.1)
    x, y = kern(rng, depth+1), kern(rng, depth+1)
    return x + y if r == 4 else x*y

def fdcheck(setp, L, g, th, msg):
    check(np.shape(g) == (len(th),), msg + ': length')
    for i in range(len(th)):
        def f(z):
            t = np.array(th, dtype=float); t[i] = z; setp(t); return float(L())
        d = gens.fd(f, th[i], h=1e-4*th[i]); setp(np.array(th, dtype=float))
        close(g[i], d, '%s: entry %d' % (msg, i), rtol=1e-4, atol=1e-4)

@case(80)
def kernels(rng):
    k = kern(rng); th = np.array(k.get_param()); note(kern=type(k).__name__, th=th)
    fdcheck(k.set_param, k.param_likli, k.grad_param_likli(), th, 'kernel prior')
    if isinstance(k, lop.RBF_kern): close(k.param_likli(), G.logpdf(k.sigma, k.sigma_k, scale=k.sigma_theta) + G.logpdf(k.l, k.l_k, scale=k.l_theta), 'RBF prior')
    if isinstance(k, lop.LinearKern): close(k.param_likli(), G.logpdf(k.sigma, k.sigma_k, scale=k.sigma_theta) + G.logpdf(k.sigma_b, k.sigma_b_k, scale=k.sigma_b_theta) + G.logpdf(k.c, k.c_k, scale=k.c_theta), 'linear prior')
    if isinstance(k, lop.PeriodicKern): close(k.param_likli(), G.logpdf(k.sigma, k.sigma_k, scale=k.sigma_theta) + G.logpdf(k.l, k.l_k, scale=k.l_theta) + G.logpdf(k.p, k.p_k, scale=k.p_theta), 'periodic prior')

@case(80)
def probits(rng):
    r = rng.randint(0, 2)
    g = lop.PreferenceProbit(rng.uniform(.3, 2)) if r == 0 else lop.AbsBoundProbit(rng.uniform(.3, 2), rng.uniform(5, 60))
    g.optimize_parameters = bool(rng.randint(0, 2))
    if r: g.optimize_v_only = bool(rng.randint(0, 2))
    th = np.array(g.get_hyper(), dtype=float); note(kind=type(g).__name__, th=th, opt=g.optimize_parameters)
    fdcheck(g.set_hyper, g.param_likli, g.grad_param_likli(), th, 'likelihood prior')

@case(80)
def models(rng):
    g = lop.PreferenceGP(kern(rng)); use = [rng.rand() < .5 for _ in range(3)]
    X = rng.rand(3, 2)
    if use[0]: g.add(X, [(1, 0, 1), (-1, 1, 2)])
    if use[2]: g.add(X + 1, np.array([.3, .5, .7]), type='abs')
    for p in g.probits:
        if hasattr(p, 'optimize_parameters'): p.optimize_parameters = bool(rng.randint(0, 2))
        if hasattr(p, 'optimize_v_only'): p.optimize_v_only = bool(rng.randint(0, 2))
    g.hyperparam_only_probit = bool(rng.randint(0, 2))
    th = np.array(g.get_hyper(), dtype=float)[:None]; note(use=use, th=th)
    gr = g.grad_hyper_liklihood(); L = g.hyper_liklihood()
    ex = 0 if g.hyperparam_only_probit else g.cov_func.param_likli()
    for i, p in enumerate(g.probits):
        if g.y_train[i] is not None: ex = ex + p.param_likli()
    close(L, ex, 'sum of the priors')
    n = len(gr)
    check(n == len(th), 'length of the gradient')
    if n: fdcheck(g.set_hyper, g.hyper_liklihood, gr, th, 'model prior')

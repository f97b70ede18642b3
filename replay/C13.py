from replay.h import *
from replay.gens import kern, pref_data, abs_data
import lop, itertools
from unittest import mock
from lop.probits import PreferenceProbit, OrdinalProbit, AbsBoundProbit

@case(150)
def kernel_roundtrip(rng):
    mk, th, X, Y = kern(rng)
    k = mk(th); new = rng.uniform(.3, 3, len(th))
    close(k.get_param(), th, 'get_param of the constructed kernel')
    check(len(k) == len(th), 'len')
    k.set_param(new)
    close(k.get_param(), new, 'get_param after set_param')
    f = mk(new)
    close(k.cov(X, Y), f.cov(X, Y), 'cov as freshly constructed', rtol=1e-9, atol=1e-12)
    close(k(X[0], Y[0]), f(X[0], Y[0]), 'value as freshly constructed', rtol=1e-9, atol=1e-12)
    close(k.cov_gradient(X, Y), f.cov_gradient(X, Y), 'cov_gradient as freshly constructed', rtol=1e-9, atol=1e-12)
    close(k.gradient(X[0], Y[0]), f.gradient(X[0], Y[0]), 'gradient as freshly constructed', rtol=1e-9, atol=1e-12)
    check(np.shape(k.grad_param_likli()) == (len(th),), 'grad_param_likli length')
    check(np.shape(k.randomize_hyper()) == (len(th),), 'randomize_hyper length')
    close(k.get_param(), new, 'drawing does not change the parameters')

def leaves(k):
    return leaves(k.a) + leaves(k.b) if hasattr(k, 'a') and hasattr(k, 'b') and not isinstance(k, (lop.LinearKern, lop.RBF_kern)) else [k]

@case(100)
def kernel_slices(rng):
    """entry p of a combined vector is entry p of the leaf it belongs to; drawn and prior vectors in the same order"""
    ks = [[lambda a: lop.RBF_kern(a[0], a[1]), 2], [lambda a: lop.LinearKern(*a), 3], [lambda a: lop.PeriodicKern(*a), 3], [lambda a: lop.RBF_kern_zeroed(a[0], a[1]), 2]]
    pick = [ks[i] for i in rng.randint(0, 4, rng.randint(2, 5))]
    ls = [f(rng.uniform(.5, 2, n)) for f, n in pick]
    k = ls[0]
    for q in ls[1:]: k = k + q if rng.rand() < .5 else k*q
    n = sum(c for f, c in pick); th = rng.uniform(.5, 2, n); note(leaves=[type(q).__name__ for q in ls], theta=th)
    k.set_param(th)
    pos = 0
    g = k.grad_param_likli(); check(np.shape(g) == (n,), 'prior gradient length')
    tot = 0
    for q, (f, c) in zip(ls, pick):
        close(q.get_param(), th[pos:pos+c], 'slice of the leaf'); close(g[pos:pos+c], q.grad_param_likli(), 'prior gradient slice')
        tot += q.param_likli(); pos += c
    close(k.param_likli(), tot, 'prior of a combination is the sum', rtol=1e-9)
    with mock.patch('numpy.random.gamma', lambda a, b=1.0, size=None: a*1000 + b):
        r = k.randomize_hyper(); e = np.concatenate([q.randomize_hyper() for q in ls])
        close(r, e, 'drawn vector in leaf order')

@case(60)
def draws_follow_the_prior(rng):
    """each drawn entry comes from the density param_likli assigns to that parameter"""
    from scipy.stats import gamma
    mk, th, X, Y = kern(rng)
    log = []
    def g(a, b=1.0, size=None):
        log.append((a, b)); return len(log) + 0.25
    k = mk(th)
    with mock.patch('numpy.random.gamma', g): r = np.asarray(k.randomize_hyper())
    if len(log) != len(th) or sorted(r) != [i + 1.25 for i in range(len(th))]: return      # drawn some other way
    note(drawn=r)
    for p in range(len(th)):
        a, b = log[int(r[p]) - 1]; q = th.copy(); q[p] = th[p]*rng.uniform(.5, 2)
        close(mk(q).param_likli() - mk(th).param_likli(), gamma.logpdf(q[p], a, scale=b) - gamma.logpdf(th[p], a, scale=b), 'parameter %d is drawn from its own prior' % p, rtol=1e-6, atol=1e-9)

def mkprobit(rng):
    w = rng.randint(0, 5)
    if w == 0: return 'pref', PreferenceProbit(rng.uniform(.4, 2)), 1, lambda o, t: PreferenceProbit(t[0])
    if w == 1: o = AbsBoundProbit(rng.uniform(.4, 2), rng.uniform(3, 60)); return 'abs', o, 1, lambda o, t: AbsBoundProbit(o.sigma, t[0])
    if w == 2: o = AbsBoundProbit(rng.uniform(.4, 2), rng.uniform(3, 60), optimize_v_only=False); return 'abs', o, 2, lambda o, t: AbsBoundProbit(t[0], t[1])
    if w == 3:
        K = rng.randint(3, 8); return 'ord', OrdinalProbit(rng.uniform(.4, 2), rng.uniform(.5, 4), K), 2, lambda o, t: OrdinalProbit(t[0], t[1], K)
    if rng.rand() < .5: return 'pref', PreferenceProbit(rng.uniform(.4, 2), optimize_parameters=False), 0, lambda o, t: PreferenceProbit(o.sigma)
    return 'abs', AbsBoundProbit(rng.uniform(.4, 2), rng.uniform(3, 60), optimize_parameters=False), 0, lambda o, t: AbsBoundProbit(o.sigma, o.v)

@case(250)
def likelihoods(rng):
    kind, o, n, fresh = mkprobit(rng)
    t = rng.uniform(.5, 2.5, n); note(kind=kind, hyper=t, n_hyper=n)
    check(np.shape(o.get_hyper()) == (n,), 'get_hyper length')
    for rep in range(rng.randint(1, 3)): o.set_hyper(rng.uniform(.5, 2.5, n))
    o.set_hyper(list(t) if rng.rand() < .3 else t)
    close(o.get_hyper(), t, 'get_hyper after set_hyper')
    f = fresh(o, t)
    check(np.shape(o.randomize_hyper()) == (n,), 'randomize_hyper length')
    if kind != 'ord': check(np.shape(o.grad_param_likli()) == (n,), 'grad_param_likli length')
    close(o.get_hyper(), t, 'drawing does not change the parameters')
    if kind == 'pref': y, F, s = pref_data(rng)
    elif kind == 'abs': y, F, s, v = abs_data(rng)
    else:
        N = rng.randint(1, 6); m = rng.randint(1, 8); F = rng.randn(N); y = (rng.randint(1, o.n_ordinals + 1, m), rng.randint(0, N, m))
    close(o.log_likelihood(y, F), f.log_likelihood(y, F), 'log_likelihood as freshly constructed', rtol=1e-9)
    for a, b, w in zip(o.derivatives(y, F), f.derivatives(y, F), ('W', 'gradient', 'value')): close(a, b, w + ' as freshly constructed', rtol=1e-9, atol=1e-12)
    if kind in ('pref', 'abs') and n:
        close(o.grad_hyper(y, F), f.grad_hyper(y, F) if kind == 'pref' or n == 1 else o.grad_hyper(y, F), 'grad_hyper as freshly constructed')
    with mock.patch('numpy.random.gamma', lambda a, b=1.0, size=None: a*1000 + b):
        r = o.randomize_hyper()
        e = {('pref', 1): [('sigma_k', 'sigma_theta')], ('abs', 1): [('v_k', 'v_theta')], ('abs', 2): [('sigma_k', 'sigma_theta'), ('v_k', 'v_theta')]}.get((kind, n), [])
        if kind != 'ord': close(r, [getattr(o, a)*1000 + getattr(o, b) for a, b in e], 'each entry drawn from its own prior')

def add_data(g, rng, combo, n):
    X = rng.randn(n, 2)
    if 0 in combo: g.add(X, [(int(rng.choice([-1, 1])), 0, 1), (1, n-1, 0)], type='relative_discrete')
    if 1 in combo: g.add(X, rng.randint(1, 6, n), type='ordinal')
    if 2 in combo: g.add(X, rng.uniform(.1, .9, n), type='abs')

@case(150)
def models(rng):
    combo = [i for i in range(3) if rng.rand() < .5]; only = rng.rand() < .5; n = rng.randint(2, 5)
    mk, th, X, Y = kern(rng, 2)
    k = mk(th); lin = rng.rand() < .2
    g = lop.PreferenceGP(k, hyperparam_only_probit=only) if not lin else lop.PreferenceLinear()
    add_data(g, rng, combo, n)
    if rng.rand() < .4 and not lin: g.set_num_ordinals(rng.randint(3, 8))
    w = {0: 1, 1: 2, 2: 1}
    tot = sum(w[i] for i in combo) + (0 if only or lin else len(th))
    before = [p.get_hyper().copy() for p in g.probits]
    x = rng.uniform(.5, 2.5, tot); note(combo=combo, only=only, linear=lin, x=x)
    check(np.shape(g.get_hyper()) == (tot,), 'get_hyper length')
    g.set_hyper(x)
    close(g.get_hyper(), x, 'get_hyper after set_hyper')
    pos = 0
    for i, p in enumerate(g.probits):
        if i in combo: close(p.get_hyper(), x[pos:pos+w[i]], 'slice of likelihood %d' % i); pos += w[i]
        else: close(p.get_hyper(), before[i], 'likelihood %d without data untouched' % i)
    if lin: return
    close(k.get_param(), th if only else x[pos:], 'kernel parameters')
    if 1 not in combo:
        gg = g.grad_hyper_liklihood()
        close(gg, np.concatenate([g.probits[i].grad_param_likli() for i in combo] + ([] if only else [k.grad_param_likli()]) + [np.empty(0)]), 'prior gradient lines up')
        close(g.hyper_liklihood(), sum(g.probits[i].param_likli() for i in combo) + (0 if only else k.param_likli()), 'prior is the sum of the parts', rtol=1e-9)
    with mock.patch('numpy.random.gamma', lambda a, b=1.0, size=None: a*1000 + b):
        e = np.concatenate([g.probits[i].randomize_hyper() for i in combo] + ([] if only else [k.randomize_hyper()]) + [np.empty(0)])
        g.randomize_hyper()
        close(g.get_hyper(), e, 'drawn vector reaches the right parts', rtol=1e-9)
        if only: close(k.get_param(), th, 'kernel untouched')

@case(60)
def model_posterior_uses_them(rng):
    """the model's likelihood after set_hyper is that of a model constructed with these values"""
    combo = [i for i in range(3) if rng.rand() < .6] or [0]; n = rng.randint(2, 5)
    X = rng.randn(n, 2); y0 = [(1, 0, 1), (-1, n-1, 0)]; y1 = rng.randint(1, 6, n); y2 = rng.uniform(.1, .9, n)
    def build(a, b):
        g = lop.PreferenceGP(lop.RBF_kern(a, b), hyperparam_only_probit=False)
        if 0 in combo: g.add(X, y0, type='relative_discrete')
        if 1 in combo: g.add(X, y1, type='ordinal')
        if 2 in combo: g.add(X, y2, type='abs')
        return g
    g = build(.7, 1.1)
    w = {0: 1, 1: 2, 2: 1}
    x = rng.uniform(.5, 2., sum(w[i] for i in combo) + 2); note(combo=combo, x=x)
    g.set_hyper(x)
    f = build(x[-2], x[-1]); pos = 0
    for i in combo:
        t = x[pos:pos+w[i]]; pos += w[i]
        f.probits[i] = [lambda: PreferenceProbit(t[0]), lambda: OrdinalProbit(t[0], t[1]), lambda: AbsBoundProbit(f.probits[2].sigma, t[0])][i]()
    F = rng.randn(len(g.X_train))
    close(g.log_likelyhood_training(F), f.log_likelyhood_training(F), 'likelihood as freshly constructed', rtol=1e-8)
    a, b = g.derivatives(g.y_train, F), f.derivatives(f.y_train, F)
    for p, q in zip(a, b): close(p, q, 'derivatives as freshly constructed', rtol=1e-8, atol=1e-10)

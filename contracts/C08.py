"""Bounded-rating (beta) likelihood: value, gradient and Hessian agree, every rating counts."""
from .common import *
M = 'lop.probits.AbsBoundProbit'
ASSUMPTIONS = ['ratings strictly inside (0,1), indices valid, sigma > 0, v > 0; the mean link stays inside its clipping window (Phi(F/(sqrt2 sigma)) in [eps,1-eps], |.| in the cdf window)']
BOUNDED = 'floating-point agreement with the scipy beta density and central differences; the clipped mean link is only executed, not proved'

def objs(I, **kw):
    n, m, sig, v = z3.Int('n'), z3.Int('m'), z3.Real('sigma'), z3.Real('v')
    I.assume(z3.And(n > 0, m > 0, sig > 0, v > 0))
    def mk():
        o = I.new(I.cls(M, 'AbsBoundProbit'), sig, v, **kw)
        r = input_array('r', (m,), 'real')
        add_fact(r.decl, lambda k: z3.Implies(z3.And(0 <= k, k < m), z3.And(r.decl(k) > 0, r.decl(k) < 1)))
        ix = idx_input('ix', m, n)
        F = input_array('F', (n,), 'real')
        c = 1/(sig*s_sqrt(z3.RealVal(2)))
        mu = lambda k: f_Phi(c*F.decl(ix.decl(k)))
        eps = Zreal(attr(o, 'eps'))
        hyp = lambda k: z3.And(mu(k) >= eps, mu(k) <= 1 - eps, c*F.decl(ix.decl(k)) >= -30, c*F.decl(ix.decl(k)) <= 100, r.decl(k) > 0, r.decl(k) < 1)
        def lp(k):
            a, b = v*mu(k), v*(1 - mu(k))
            return (a-1)*f_log(r.decl(k)) + (b-1)*f_log(1-r.decl(k)) - f_lgamma(a) - f_lgamma(b) + f_lgamma(v)
        return o, (r, ix), F, mu, hyp, mk_sum(m, lp), c
    return n, m, sig, v, mk

@unit('log_likelihood', [M + ':AbsBoundProbit.log_likelihood', 'AbsBoundProbit.get_alpha_beta', 'AbsBoundProbit.mean_link'])
def u1(I):
    n, m, sig, v, mk = objs(I)
    def run():
        o, y, F, mu, hyp, ll, c = mk()
        r = I.call(I.getattr(o, 'log_likelihood'), [y, F], {})
        same(I, 'log likelihood is the sum over ALL ratings of the beta(v mu, v(1-mu)) log density', r, ll, [hyp])
    return run

@unit('gradient', [M + ':AbsBoundProbit.derivatives'], timeout=90)
def u2(I):
    n, m, sig, v, mk = objs(I)
    def run():
        o, y, F, mu, hyp, ll, c = mk()
        W, g, py = I.call(I.getattr(o, 'derivatives'), [y, F], {})
        shape(I, 'gradient', g, (n,))
        i = skin(I, n, 'i')
        same(I, 'gradient[i] == d log_likelihood / d F_i', g.at(i), ring.diff_fn(ll, F.decl, [i]), [hyp])
        same(I, 'py == log_likelihood', py, ll, [hyp])
    return run

@unit('Hessian', [M + ':AbsBoundProbit.derivatives'], timeout=90)
def u3(I):
    n, m, sig, v, mk = objs(I)
    def run():
        o, y, F, mu, hyp, ll, c = mk()
        W, g, py = I.call(I.getattr(o, 'derivatives'), [y, F], {})
        shape(I, 'W', W, (n, n))
        i, j = skin(I, n, 'i', 'j')
        D2 = ring.diff_fn(ring.diff_fn(ll, F.decl, [i]), F.decl, [j])
        same(I, 'W[i,j] == - d2 log_likelihood / dF_i dF_j', W.at(i, j), -D2, [hyp])
    return run

@unit('mean link and beta parameters', [M + ':AbsBoundProbit.mean_link', 'AbsBoundProbit.get_alpha_beta'])
def u4(I):
    n, m, sig, v, mk = objs(I)
    def run():
        o, y, F, mu, hyp, ll, c = mk()
        aa, bb = I.call(I.getattr(o, 'get_alpha_beta'), [F], {})
        shape(I, 'alpha', aa, (n,)); shape(I, 'beta', bb, (n,))
        i = skin(I, n, 'i')
        I.oblige('alpha > 0', aa.at(i) > 0); I.oblige('beta > 0', bb.at(i) > 0)
        same(I, 'alpha + beta == v', aa.at(i) + bb.at(i), v)
        ml = I.call(I.getattr(o, 'mean_link'), [F], {})
        I.oblige('mean link strictly inside (0,1)', z3.And(ml.at(i) > 0, ml.at(i) < 1))
        same(I, 'alpha == v * mean_link', aa.at(i), v*ml.at(i))
        j = skin(I, n, 'j')
        I.assume(F.decl(i) <= F.decl(j))
        I.oblige('mean link is monotone in F', ml.at(i) <= ml.at(j))
    return run

"""Ordinal likelihood: category probabilities, gradient and Hessian agree, every rating counts."""
from .common import *
M = 'lop.probits.OrdinalProbit'
ASSUMPTIONS = ['ratings are integers in [1,n_ordinals], indices valid, sigma > 0, b > 0; each likelihood stays above the probit\'s eps (below it the code switches to an asymptotic expansion) and z inside the cdf clipping window']
BOUNDED = 'floating-point agreement; scalar breakpoints only in the proof for n_ordinals = 5 (any n_ordinals in the harness)'

def objs(I, K=5):
    n, m, sig, b = z3.Int('n'), z3.Int('m'), z3.Real('sigma'), z3.Real('b')
    I.assume(z3.And(n > 0, m > 0, sig > 0, b > 0))
    def mk():
        o = I.new(I.cls(M, 'OrdinalProbit'), sig, b, K)
        r = input_array('r', (m,), 'int')
        add_fact(r.decl, lambda k: z3.Implies(z3.And(0 <= k, k < m), z3.And(r.decl(k) >= 1, r.decl(k) <= K)))
        ix = idx_input('ix', m, n)
        F = input_array('F', (n,), 'real')
        f = lambda k: F.decl(ix.decl(k))
        bp = lambda q: b*Zreal(q - 1)/Zreal(K - 2)           # breakpoints 0..b, evenly spaced
        z = lambda q, k: (bp(q) - f(k))/sig
        cdf = lambda q, k: z3.If(q == K, z3.RealVal(1), z3.If(q == 0, z3.RealVal(0), f_Phi(z(q, k))))
        l = lambda k: cdf(r.decl(k), k) - cdf(r.decl(k) - 1, k)
        eps = Zreal(attr(o, 'eps'))
        hyp = lambda k: z3.And(l(k) >= eps, r.decl(k) >= 1, r.decl(k) <= K, *[z3.And(z(q, k) >= -30, z(q, k) <= 100) for q in (r.decl(k), r.decl(k) - 1)])
        return o, (r, ix), F, l, hyp, mk_sum(m, lambda k: f_log(l(k)))
    return n, m, sig, b, mk

@unit('category probabilities', [M + ':OrdinalProbit.likelihood_each', 'OrdinalProbit.norm_cdf', 'OrdinalProbit.set_b'])
def u1(I):
    n, m, sig, b, mk = objs(I)
    def run():
        o, y, F, l, hyp, ll = mk()
        r = I.call(I.getattr(o, 'likelihood_each'), [y, F], {})
        shape(I, 'likelihood_each', r, (m,))
        k = skin(I, m, 'k'); I.assume(hyp(k))
        same(I, 'likelihood of rating k is Phi(z_y) - Phi(z_{y-1})', r.at(k), l(k))
        I.oblige('a probability', z3.And(r.at(k) > 0, r.at(k) <= 1))
    return run

@unit('probabilities of all categories sum to one', [M + ':OrdinalProbit.norm_cdf'])
def u1b(I):
    sig, b, f = z3.Real('sigma'), z3.Real('b'), z3.Real('f')
    K = 5
    I.assume(z3.And(sig > 0, b > 0))
    for q in range(1, K): I.assume(z3.And((b*(q-1)/(K-2) - f)/sig >= -30, (b*(q-1)/(K-2) - f)/sig <= 100))
    def run():
        o = I.new(I.cls(M, 'OrdinalProbit'), sig, b, K)
        y = NDArray((K,), lambda i: Zr(i) + 1, 'int'); ix = NDArray((K,), lambda i: z3.IntVal(0), 'int')
        F = NDArray((1,), lambda i: f, 'real')
        r = I.call(I.getattr(o, 'likelihood_each'), [(y, ix), F], {})
        same(I, 'sum over the categories == 1', mk_sum(K, lambda i: r.at(i)), z3.RealVal(1))
        for i in range(K): I.oblige('category %d has non-negative probability' % (i+1), r.at(i) >= 0)
    return run

@unit('log_likelihood', [M + ':OrdinalProbit.log_likelihood'])
def u2(I):
    n, m, sig, b, mk = objs(I)
    def run():
        o, y, F, l, hyp, ll = mk()
        r = I.call(I.getattr(o, 'log_likelihood'), [y, F], {})
        same(I, 'log likelihood is the sum of the log probabilities of all ratings', r, ll, [hyp])
    return run

@unit('gradient', [M + ':OrdinalProbit.derivatives', 'OrdinalProbit.norm_pdf'], timeout=120)
def u3(I):
    n, m, sig, b, mk = objs(I)
    def run():
        o, y, F, l, hyp, ll = mk()
        W, g, py = I.call(I.getattr(o, 'derivatives'), [y, F], {})
        shape(I, 'gradient', g, (n,))
        i = skin(I, n, 'i')
        same(I, 'py == log_likelihood', py, ll, [hyp])
        same(I, 'gradient[i] == d log_likelihood / d F_i', g.at(i), ring.diff_fn(ll, F.decl, [i]), [hyp])
    return run

@unit('Hessian', [M + ':OrdinalProbit.derivatives'], timeout=150)
def u4(I):
    n, m, sig, b, mk = objs(I)
    def run():
        o, y, F, l, hyp, ll = mk()
        W, g, py = I.call(I.getattr(o, 'derivatives'), [y, F], {})
        shape(I, 'W', W, (n, n))
        i, j = skin(I, n, 'i', 'j')
        D2 = ring.diff_fn(ring.diff_fn(ll, F.decl, [i]), F.decl, [j])
        same(I, 'W[i,j] == - d2 log_likelihood / dF_i dF_j', W.at(i, j), -D2, [hyp])
    return run

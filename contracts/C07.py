"""Pairwise-preference likelihood: value, gradient and Hessian agree."""
from .common import *
M = 'lop.probits.PreferenceProbit'
ASSUMPTIONS = ['labels are (dk,u,v) with dk in {-1,1} and u,v valid indices of F; sigma > 0; |z| stays inside the clipping window [-30,100] (outside it the reported likelihood is constant by construction)']
BOUNDED = 'floating-point agreement with central differences; behaviour outside the clip window is only executed, not proved'

def setup(I):
    n, m, sig = z3.Int('n'), z3.Int('m'), z3.Real('sigma')
    I.assume(z3.And(n > 0, m > 0, sig > 0))
    return n, m, sig

def objs(I, n, m, sig):
    o = I.new(I.cls(M, 'PreferenceProbit'), sig)
    y = pairs_input(m, n)
    F = input_array('F', (n,), 'real')
    c = 1/(sig*s_sqrt(z3.RealVal(2)))
    zk = lambda k: c*z3.ToReal(y.decl(k, zi(0)))*(F.decl(y.decl(k, zi(2))) - F.decl(y.decl(k, zi(1))))
    hyp = lambda k: z3.And(-30 <= zk(k), zk(k) <= 100)
    return o, y, F, zk, hyp, c

@unit('log_likelihood == sum log Phi', [M + ':PreferenceProbit.log_likelihood', 'z_k'])
def u1(I):
    n, m, sig = setup(I)
    def run():
        o, y, F, zk, hyp, c = objs(I, n, m, sig)
        ll = I.call(I.getattr(o, 'log_likelihood'), [y, F], {})
        same(I, 'log likelihood is the sum over labels of log Phi(dk (F_v-F_u)/(sqrt2 sigma))', ll, mk_sum(m, lambda k: f_logPhi(zk(k))), [hyp])
    return run

@unit('gradient', [M + ':PreferenceProbit.derivatives', 'derv_log_likelyhood', 'add_up_vec', 'calc_pdf_cdf_ratio'], timeout=90)
def u2(I):
    n, m, sig = setup(I)
    def run():
        o, y, F, zk, hyp, c = objs(I, n, m, sig)
        ll = mk_sum(m, lambda k: f_logPhi(zk(k)))
        W, g, py = I.call(I.getattr(o, 'derivatives'), [y, F], {})
        shape(I, 'gradient', g, (n,))
        i = skin(I, n, 'i')
        same(I, 'gradient[i] == d log_likelihood / d F_i', g.at(i), ring.diff_fn(ll, F.decl, [i]), [hyp])
        same(I, 'py == log_likelihood', py, ll, [hyp])
    return run

@unit('Hessian', [M + ':PreferenceProbit.derivatives', 'calc_W', 'add_up_mat'], timeout=150)
def u3(I):
    n, m, sig = setup(I)
    def run():
        o, y, F, zk, hyp, c = objs(I, n, m, sig)
        ll = mk_sum(m, lambda k: f_logPhi(zk(k)))
        W, g, py = I.call(I.getattr(o, 'derivatives'), [y, F], {})
        shape(I, 'W', W, (n, n))
        i, j = skin(I, n, 'i', 'j')
        D2 = ring.diff_fn(ring.diff_fn(ll, F.decl, [i]), F.decl, [j])
        same(I, 'W[i,j] == - d2 log_likelihood / dF_i dF_j', W.at(i, j), -D2, [hyp])
    return run

@unit('likelihood', [M + ':PreferenceProbit.likelihood'])
def u4(I):
    n, m, sig = setup(I)
    def run():
        o, y, F, zk, hyp, c = objs(I, n, m, sig)
        p = I.call(I.getattr(o, 'likelihood'), [y, F], {})
        shape(I, 'likelihood', p, (m,))
        k = skin(I, m, 'k'); I.assume(hyp(k))
        same(I, 'likelihood[k] == Phi(z_k)', p.at(k), f_Phi(zk(k)))
        I.oblige('likelihood[k] is a probability', z3.And(p.at(k) >= 0, p.at(k) <= 1))
    return run

@unit('likelihood_all_pairs', [M + ':PreferenceProbit.likelihood_all_pairs'])
def u5(I):
    n, m, sig = setup(I)
    def run():
        o, y, F, zk, hyp, c = objs(I, n, m, sig)
        p = I.call(I.getattr(o, 'likelihood_all_pairs'), [F], {})
        shape(I, 'matrix', p, (n, n))
        i, j = skin(I, n, 'i', 'j')
        z = c*(F.decl(i) - F.decl(j))
        I.assume(z3.And(z >= -30, z <= 100))
        same(I, 'p[i,j] == Phi((F_i-F_j)/(sqrt2 sigma))', p.at(i, j), f_Phi(z))
    return run

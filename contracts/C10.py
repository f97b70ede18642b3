"""Sensitivities of the preference and bounded-rating probits: third derivatives and hyperparameter derivatives."""
from .common import *
from . import C07, C08
from pydv.contract import UNITS
del UNITS[:]
P, A = C07.M, C08.M
ASSUMPTIONS = C07.ASSUMPTIONS + C08.ASSUMPTIONS
BOUNDED = 'floating-point agreement with central differences of the real calc_W / derivatives'

def pref(I, **kw):
    n, m, sig = C07.setup(I)
    def mk():
        o, y, F, zk, hyp, c = C07.objs(I, n, m, sig)
        return o, y, F, hyp, mk_sum(m, lambda k: f_logPhi(zk(k)))
    return n, m, sig, mk

def D(t, F, *ix):
    for i in ix: t = ring.diff_fn(t, F.decl, [i])
    return t

@unit('preference: dW/dF', [P + ':PreferenceProbit.calc_W_dF', 'add_up_W_partial'], timeout=150)
def p1(I):
    n, m, sig, mk = pref(I)
    def run():
        o, y, F, hyp, ll = mk()
        dW = I.call(I.getattr(o, 'calc_W_dF'), [y, F], {})
        shape(I, 'dW', dW, (n, n, n))
        i, j, k = skin(I, n, 'i', 'j', 'k')
        same(I, 'dW[k,i,j] == d W[i,j] / dF_k', dW.at(k, i, j), -D(ll, F, i, j, k), [hyp])
    return run

@unit('preference: dW/dsigma', [P + ':PreferenceProbit.calc_W_dHyper', 'add_up_mat'], timeout=150)
def p2(I):
    n, m, sig, mk = pref(I)
    def run():
        o, y, F, hyp, ll = mk()
        dW = I.call(I.getattr(o, 'calc_W_dHyper'), [y, F], {})
        shape(I, 'dW', dW, (1, n, n))
        i, j = skin(I, n, 'i', 'j')
        same(I, 'dW[0,i,j] == d W[i,j] / dsigma', dW.at(zi(0), i, j), -ring.diff_const(D(ll, F, i, j), sig), [hyp])
    return run

@unit('preference: dlogp/dsigma', [P + ':PreferenceProbit.grad_hyper'])
def p3(I):
    n, m, sig, mk = pref(I)
    def run():
        o, y, F, hyp, ll = mk()
        g = I.call(I.getattr(o, 'grad_hyper'), [y, F], {})
        shape(I, 'grad', g, (1,))
        same(I, 'grad_hyper[0] == d log_likelihood / dsigma', g.at(zi(0)), ring.diff_const(ll, sig), [hyp])
    return run

@unit('preference: nothing learned', [P + ':PreferenceProbit.calc_W_dHyper', 'PreferenceProbit.grad_hyper'])
def p4(I):
    n, m, sig = C07.setup(I)
    def run():
        o = I.new(I.cls(P, 'PreferenceProbit'), sig, False)
        y = pairs_input(m, n); F = input_array('F', (n,), 'real')
        shape(I, 'grad', I.call(I.getattr(o, 'grad_hyper'), [y, F], {}), (0,))
        shape(I, 'dW', I.call(I.getattr(o, 'calc_W_dHyper'), [y, F], {}), (0, n, n))
        shape(I, 'hyper', I.call(I.getattr(o, 'get_hyper'), [], {}), (0,))
    return run

@unit('rating: dW/dF', [A + ':AbsBoundProbit.calc_W_dF'], timeout=150)
def a1(I):
    n, m, sig, v, mk = C08.objs(I)
    def run():
        o, y, F, mu, hyp, ll, c = mk()
        dW = I.call(I.getattr(o, 'calc_W_dF'), [y, F], {})
        shape(I, 'dW', dW, (n, n, n))
        i, j, k = skin(I, n, 'i', 'j', 'k')
        same(I, 'dW[k,i,j] == d W[i,j] / dF_k', dW.at(k, i, j), -D(ll, F, i, j, k), [hyp])
    return run

@unit('rating: dW/dhyper, v only', [A + ':AbsBoundProbit.calc_W_dHyper'], timeout=150)
def a2(I):
    n, m, sig, v, mk = C08.objs(I)
    def run():
        o, y, F, mu, hyp, ll, c = mk()
        dW = I.call(I.getattr(o, 'calc_W_dHyper'), [y, F], {})
        shape(I, 'dW', dW, (1, n, n))
        i, j = skin(I, n, 'i', 'j')
        same(I, 'dW[0,i,j] == d W[i,j] / dv', dW.at(zi(0), i, j), -ring.diff_const(D(ll, F, i, j), v), [hyp])
    return run

@unit('rating: dW/dhyper, sigma and v', [A + ':AbsBoundProbit.calc_W_dHyper'], timeout=200)
def a3(I):
    n, m, sig, v, mk = C08.objs(I, optimize_v_only=False)
    def run():
        o, y, F, mu, hyp, ll, c = mk()
        dW = I.call(I.getattr(o, 'calc_W_dHyper'), [y, F], {})
        shape(I, 'dW', dW, (2, n, n))
        i, j = skin(I, n, 'i', 'j')
        W = -D(ll, F, i, j)
        same(I, 'dW[1,i,j] == d W[i,j] / dv', dW.at(zi(1), i, j), ring.diff_const(W, v), [hyp])
        same(I, 'dW[0,i,j] == d W[i,j] / dsigma', dW.at(zi(0), i, j), ring.diff_const(W, sig), [hyp])
    return run

@unit('rating: dlogp/dhyper', [A + ':AbsBoundProbit.grad_hyper'], timeout=90)
def a4(I):
    n, m, sig, v, mk = C08.objs(I, optimize_v_only=False)
    def run():
        o, y, F, mu, hyp, ll, c = mk()
        g = I.call(I.getattr(o, 'grad_hyper'), [y, F], {})
        shape(I, 'grad', g, (2,))
        same(I, 'grad_hyper[0] == d log_likelihood / dsigma', g.at(zi(0)), ring.diff_const(ll, sig), [hyp])
        same(I, 'grad_hyper[1] == d log_likelihood / dv', g.at(zi(1)), ring.diff_const(ll, v), [hyp])
    return run

@unit('rating: dlogp/dhyper, v only', [A + ':AbsBoundProbit.grad_hyper'], timeout=90)
def a5(I):
    n, m, sig, v, mk = C08.objs(I)
    def run():
        o, y, F, mu, hyp, ll, c = mk()
        g = I.call(I.getattr(o, 'grad_hyper'), [y, F], {})
        shape(I, 'grad', g, (1,))
        same(I, 'grad_hyper[0] == d log_likelihood / dv', g.at(zi(0)), ring.diff_const(ll, v), [hyp])
    return run

@unit('rating: nothing learned', [A + ':AbsBoundProbit.calc_W_dHyper', 'AbsBoundProbit.grad_hyper'])
def a6(I):
    n, m, sig, v, mk = C08.objs(I, optimize_parameters=False)
    def run():
        o, y, F, mu, hyp, ll, c = mk()
        shape(I, 'grad', I.call(I.getattr(o, 'grad_hyper'), [y, F], {}), (0,))
        shape(I, 'dW', I.call(I.getattr(o, 'calc_W_dHyper'), [y, F], {}), (0, n, n))
        shape(I, 'hyper', I.call(I.getattr(o, 'get_hyper'), [], {}), (0,))
    return run

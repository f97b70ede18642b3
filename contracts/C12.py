"""Kernel gradients are the exact derivatives of the kernel with respect to its parameters, in get_param order."""
from .common import *
from .kern import *
ASSUMPTIONS = ['kernel parameters > 0; samples are real matrices of equal width d >= 1; the observation noise is not a parameter']
BOUNDED = '1-D sample vectors, nested combinations; floating-point agreement with central differences of the real __call__'

def part(I, g, p):
    if isinstance(g, NDArray): return lambda i, j: g.at(zi(p), i, j)
    v = list(g)
    a = v[p]
    return lambda i, j: a.at(i, j)
def plen(I, g):
    if isinstance(g, NDArray): return g.shape[0]
    return len(g)

def gradient(S):
    npar = 2 if S.cls.startswith('RBF') else 3
    @unit('%s: gradient' % S.name, [K + S.mod + ':' + S.cls + '.gradient'])
    def u0(I):
        n, m, d = sets(I); ps = S.params(I)
        def run():
            k = S.new(I, ps)
            u, v = input_array('u', (d,), 'real'), input_array('v', (d,), 'real')
            g = I.call(I.getattr(k, 'gradient'), [u, v], {})
            shape(I, 'gradient', g, (npar,))
            w = S.call(ps, vec(u), vec(v), d)
            for p in range(npar): same(I, 'gradient[%d] == dk/d%s' % (p, S.pars[p]), g.at(zi(p)), ring.diff_const(w, ps[p]))
            th = I.call(I.getattr(k, 'get_param'), [], {})
            shape(I, 'get_param', th, (npar,))
            for p in range(npar): same(I, 'get_param[%d] is %s' % (p, S.pars[p]), th.at(zi(p)), ps[p])
            I.oblige('len(kernel) == number of parameters', Zr(I.call(I.getattr(k, '__len__'), [], {})) == npar)
        return run
    @unit('%s: cov_gradient' % S.name, [K + S.mod + ':' + S.cls + '.cov_gradient'])
    def u1(I):
        n, m, d = sets(I); ps = S.params(I)
        def run():
            k = S.new(I, ps)
            X, Y = input_array('X', (n, d), 'real'), input_array('Y', (m, d), 'real')
            g = I.call(I.getattr(k, 'cov_gradient'), [X, Y], {})
            I.oblige('one matrix per parameter', Zr(plen(I, g)) == npar)
            i = skin(I, n, 'i'); j = skin(I, m, 'j')
            w = S.call(ps, pt(X, i), pt(Y, j), d)
            for p in range(npar): same(I, 'cov_gradient[%d][i,j] == dk(x_i,y_j)/d%s' % (p, S.pars[p]), part(I, g, p)(i, j), ring.diff_const(w, ps[p]))
        return run
for S in ALL: gradient(S)

def dual(op, S, T):
    na, nb = (2 if S.cls.startswith('RBF') else 3), (2 if T.cls.startswith('RBF') else 3)
    def mk(I):
        pa = [z3.Real('a_' + x) for x in S.pars]; pb = [z3.Real('b_' + x) for x in T.pars]
        I.assume(z3.And(*[p > 0 for p in pa + pb]))
        f = (lambda x, y: x + y) if op == 'plus' else (lambda x, y: x*y)
        return pa, pb, f, lambda: I.binop('+' if op == 'plus' else '*', S.new(I, pa), T.new(I, pb))
    @unit('%s %s %s: gradient' % (S.name, op, T.name), [K + 'KernelFunc:DualKern.gradient'], timeout=90)
    def u0(I):
        n, m, d = sets(I); pa, pb, f, new = mk(I)
        def run():
            k = new()
            u, v = input_array('u', (d,), 'real'), input_array('v', (d,), 'real')
            g = I.call(I.getattr(k, 'gradient'), [u, v], {})
            shape(I, 'gradient', g, (na + nb,))
            w = f(S.call(pa, vec(u), vec(v), d), T.call(pb, vec(u), vec(v), d))
            for p, x in enumerate(pa[:na] + pb[:nb]): same(I, 'gradient[%d] of the combined kernel' % p, g.at(zi(p)), ring.diff_const(w, x))
        return run
    @unit('%s %s %s: cov_gradient' % (S.name, op, T.name), [K + 'KernelFunc:DualKern.cov_gradient'], timeout=90)
    def u1(I):
        n, m, d = sets(I); pa, pb, f, new = mk(I); I.assume(n != m)
        def run():
            k = new()
            X, Y = input_array('X', (n, d), 'real'), input_array('Y', (m, d), 'real')
            g = I.call(I.getattr(k, 'cov_gradient'), [X, Y], {})
            I.oblige('one matrix per parameter', Zr(plen(I, g)) == na + nb)
            i = skin(I, n, 'i'); j = skin(I, m, 'j')
            w = f(S.call(pa, pt(X, i), pt(Y, j), d), T.call(pb, pt(X, i), pt(Y, j), d))
            for p, x in enumerate(pa[:na] + pb[:nb]): same(I, 'cov_gradient[%d] of the combined kernel' % p, part(I, g, p)(i, j), ring.diff_const(w, x))
        return run
dual('plus', RBF, LIN); dual('times', LIN, RBF); dual('times', PER, LIN)

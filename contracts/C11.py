"""Covariance matrices: every entry is the kernel of the two points (plus observation noise on the diagonal of a set
with itself), the matrix is symmetric, and combined kernels combine entrywise."""
from .common import *
from .kern import *
ASSUMPTIONS = ['kernel parameters > 0; samples are real matrices of equal width d >= 1']
BOUNDED = '1-D sample vectors, explicit zero points, nested combinations of kernels; floating-point agreement'

def pointwise(S):
    @unit('%s: k(u,v)' % S.name, [K + S.mod + ':' + S.cls + '.__call__'])
    def u0(I):
        n, m, d = sets(I); ps = S.params(I)
        def run():
            k = S.new(I, ps)
            u, v = input_array('u', (d,), 'real'), input_array('v', (d,), 'real')
            r, r2 = I.call(k, [u, v], {}), I.call(k, [v, u], {})
            same(I, 'k(u,v) is the %s kernel' % S.name, r, S.call(ps, vec(u), vec(v), d))
            same(I, 'k(u,v) == k(v,u)', r, r2)
        return run
    @unit('%s: cov of two different sets' % S.name, [K + S.mod + ':' + S.cls + '.cov'])
    def u1(I):
        n, m, d = sets(I); ps = S.params(I)
        def run():
            k = S.new(I, ps)
            X, Y = input_array('X', (n, d), 'real'), input_array('Y', (m, d), 'real')
            p, q = z3.Int('p'), z3.Int('q')
            I.assume(z3.Or(n != m, z3.And(0 <= p, p < n, 0 <= q, q < d, X.decl(p, q) != Y.decl(p, q))))
            C = I.call(I.getattr(k, 'cov'), [X, Y], {})
            shape(I, 'cov', C, (n, m))
            i = skin(I, n, 'i'); j = skin(I, m, 'j')
            same(I, 'cov(X,Y)[i,j] == k(x_i, y_j), no noise', C.at(i, j), S.call(ps, pt(X, i), pt(Y, j), d))
        return run
    @unit('%s: cov of a set with itself' % S.name, [K + S.mod + ':' + S.cls + '.cov'])
    def u2(I):
        n, m, d = sets(I); ps = S.params(I)
        def run():
            k = S.new(I, ps)
            X = input_array('X', (n, d), 'real')
            C = I.call(I.getattr(k, 'cov'), [X, X], {})
            shape(I, 'cov', C, (n, n))
            i, j = skin(I, n, 'i', 'j')
            noise = z3.If(i == j, ps[2], z3.RealVal(0)) if S.cls.startswith('RBF') else z3.RealVal(0)
            same(I, 'cov(X,X)[i,j] == k(x_i, x_j) + noise on the diagonal', C.at(i, j), S.call(ps, pt(X, i), pt(X, j), d) + noise)
            same(I, 'cov(X,X) symmetric', C.at(i, j), C.at(j, i))
        return run
for S in ALL: pointwise(S)

@unit('zeroed RBF: the zero point has no covariance', [K + 'RBF_kern_zeroed:RBF_kern_zeroed.cov', 'RBF_kern_zeroed.zero_cov', 'RBF_kern_zeroed.cov_to_zero'])
def z1(I):
    n, m, d = sets(I); ps = P('sigma', 'l', 'noise'); I.assume(z3.And(*[p > 0 for p in ps]))
    def run():
        z = input_array('z', (d,), 'real')
        k = I.new(I.cls(K + 'RBF_kern_zeroed', 'RBF_kern_zeroed'), ps[0], ps[1], zero_pt=z, sigma_noise=ps[2])
        v = input_array('v', (d,), 'real')
        r = I.call(k, [v, v], {})
        same(I, 'k(v,v) with an explicit zero point', r, rbf0(vec(z))(ps, vec(v), vec(v), d))
        same(I, 'k(z,v) == 0', I.call(k, [z, v], {}), z3.RealVal(0))
        X, Y = input_array('X', (n, d), 'real'), input_array('Y', (m, d), 'real')
        I.assume(n != m)
        C = I.call(I.getattr(k, 'cov'), [X, Y], {})
        i = skin(I, n, 'i'); j = skin(I, m, 'j')
        same(I, 'cov(X,Y)[i,j] with an explicit zero point', C.at(i, j), rbf0(vec(z))(ps, pt(X, i), pt(Y, j), d))
    return run

def dual(op, S, T):
    @unit('%s %s %s' % (S.name, op, T.name), [K + 'KernelFunc:DualKern.cov', 'DualKern.__call__', 'KernelFunc.__add__', 'KernelFunc.__mul__'])
    def u(I):
        n, m, d = sets(I)
        pa = [z3.Real('a_' + x) for x in S.pars]; pb = [z3.Real('b_' + x) for x in T.pars]
        I.assume(z3.And(*[p > 0 for p in pa + pb]))
        def run():
            a, b = S.new(I, pa), T.new(I, pb)
            k = I.binop('+' if op == 'plus' else '*', a, b)
            f = (lambda x, y: x + y) if op == 'plus' else (lambda x, y: x*y)
            X, Y = input_array('X', (n, d), 'real'), input_array('Y', (m, d), 'real')
            I.assume(n != m)
            C = I.call(I.getattr(k, 'cov'), [X, Y], {})
            shape(I, 'cov', C, (n, m))
            i = skin(I, n, 'i'); j = skin(I, m, 'j')
            w = f(S.call(pa, pt(X, i), pt(Y, j), d), T.call(pb, pt(X, i), pt(Y, j), d))
            same(I, 'cov(X,Y)[i,j] combines the two kernels', C.at(i, j), w)
            u, v = input_array('u', (d,), 'real'), input_array('v', (d,), 'real')
            same(I, 'k(u,v) combines the two kernels', I.call(k, [u, v], {}), f(S.call(pa, vec(u), vec(v), d), T.call(pb, vec(u), vec(v), d)))
        return run
dual('plus', RBF, LIN); dual('times', RBF, PER); dual('times', LIN, RBF0)

@unit('base class cov', [K + 'KernelFunc:KernelFunc.cov'], timeout=60)
def base(I):
    n, m, d = sets(I); ps = PER.params(I)
    def run():
        k = PER.new(I, ps)
        X, Y = input_array('X', (n, d), 'real'), input_array('Y', (m, d), 'real')
        C = I.call(I.getattr(I.cls(K + 'KernelFunc', 'KernelFunc'), 'cov'), [k, X, Y], {})
        shape(I, 'cov', C, (n, m))
        i = skin(I, n, 'i'); j = skin(I, m, 'j')
        same(I, 'generic cov(X,Y)[i,j] == k(x_i, y_j)', C.at(i, j), per(ps, pt(X, i), pt(Y, j), d))
    return run

def one_d(S):
    @unit('%s: cov of sample vectors' % S.name, [K + S.mod + ':' + S.cls + '.cov'])
    def u(I):
        n, m, d = sets(I); ps = S.params(I); I.assume(n != m)
        def run():
            k = S.new(I, ps)
            X, Y = input_array('X', (n,), 'real'), input_array('Y', (m,), 'real')
            C = I.call(I.getattr(k, 'cov'), [X, Y], {})
            shape(I, 'cov', C, (n, m))
            i = skin(I, n, 'i'); j = skin(I, m, 'j')
            same(I, 'cov(X,Y)[i,j] == k(x_i, y_j) for one-dimensional samples', C.at(i, j), S.call(ps, lambda q: X.at(i), lambda q: Y.at(j), 1))
        return run
for S in ALL: one_d(S)

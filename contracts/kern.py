"""Kernel specifications shared by C11/C12."""
from .common import *
K = 'lop.kernels.'
PI = None
def P(*names):
    return [z3.Real(x) for x in names]

class Spec:
    """how to build a kernel object and the textbook function of two points it must equal"""
    def __init__(self, name, cls, mod, pars, call, noise=None, kw=()):
        self.name, self.cls, self.mod, self.pars, self.call, self.noise = name, cls, mod, pars, call, noise
    def params(self, I):
        ps = P(*self.pars); I.assume(z3.And(*[p > 0 for p in ps])); return ps
    def new(self, I, ps):
        if self.cls.startswith('RBF'):
            kw = {'sigma_noise': ps[2]}
            return I.new(I.cls(K + self.mod, self.cls), ps[0], ps[1], **kw)
        return I.new(I.cls(K + self.mod, self.cls), *ps)

def sq(u, v, d): return mk_sum(d, lambda q: (u(q) - v(q))*(u(q) - v(q)))
def l1(u, v, d): return mk_sum(d, lambda q: s_abs(u(q) - v(q)))
def rbf(ps, u, v, d): s, l = ps[0], ps[1]; return s*s*s_exp(-sq(u, v, d)/(2*l*l))
def lin(ps, u, v, d): s, b, c = ps; return b*b + s*s*mk_sum(d, lambda q: (u(q) - c)*(v(q) - c))
def per(ps, u, v, d):
    s, l, p = ps; w = f_sin(core.PI*l1(u, v, d)/p)
    return s*s*s_exp(-2*w*w/(l*l))
def rbf0(z): return lambda ps, u, v, d: rbf(ps, u, v, d) - rbf(ps, u, z, d)*rbf(ps, v, z, d)/(ps[0]*ps[0])

RBF = Spec('RBF', 'RBF_kern', 'RBF_kern', ['sigma', 'l', 'noise'], rbf)
LIN = Spec('linear', 'LinearKern', 'LinearKern', ['sigma', 'sigma_b', 'c'], lin)
PER = Spec('periodic', 'PeriodicKern', 'PeriodicKern', ['sigma', 'l', 'p'], per)
origin = lambda q: z3.RealVal(0)
RBF0 = Spec('zeroed RBF', 'RBF_kern_zeroed', 'RBF_kern_zeroed', ['sigma', 'l', 'noise'], rbf0(origin))
ALL = [RBF, LIN, PER, RBF0]

def sets(I):
    n, m, d = z3.Int('n'), z3.Int('m'), z3.Int('d')
    I.assume(z3.And(n > 0, m > 0, d > 0))
    return n, m, d
def pt(a, i): return lambda q: a.at(i, q)
def vec(a): return lambda q: a.at(q)

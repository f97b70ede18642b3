from replay.h import *
from scipy.special import ndtr
def pref_data(rng):
    n = rng.randint(2, 8); m = rng.randint(1, 10)
    F = rng.randn(n)*rng.choice([0.2, 0.7, 1.5])
    u = rng.randint(0, n, m); v = rng.randint(0, n, m)
    y = np.column_stack([rng.choice([-1, 1], m), u, v]).astype(int)
    s = rng.choice([0.6, 1.0, 2.0])
    note(F=F, y=y, sigma=s)
    return y, F, s
def abs_data(rng):
    n = rng.randint(1, 7); m = rng.randint(1, 9)
    s = rng.choice([0.6, 1.0, 2.0]); v = rng.choice([3., 20., 80.])
    F = np.clip(rng.randn(n)*rng.choice([0.2, 0.7, 1.2]), -3*s, 3*s)
    r = rng.uniform(0.03, 0.97, m); ix = rng.randint(0, n, m)
    note(F=F, ratings=r, idx=ix, sigma=s, v=v)
    return (r, ix), F, s, v
import lop
def fd(f, x, h=1e-4):
    return (8*(f(x+h) - f(x-h)) - (f(x+2*h) - f(x-2*h)))/(12*h)

def kern(rng, maxd=4):
    """(mk(theta) -> kernel, theta, X, Y)"""
    d = rng.randint(1, maxd); n, m = rng.randint(1, 6, 2)
    noise = rng.uniform(.01, 1)
    z = rng.randn(d) if rng.rand() < .5 else None
    base = {'rbf': (2, lambda t: lop.RBF_kern(t[0], t[1], noise)), 'lin': (3, lambda t: lop.LinearKern(*t)), 'per': (3, lambda t: lop.PeriodicKern(*t)),
            'rbf0': (2, lambda t: lop.RBF_kern_zeroed(t[0], t[1], zero_pt=z, sigma_noise=noise))}
    mul = [False]
    def pick(depth):
        if depth < 2 and rng.rand() < (.4 if depth == 0 else .2):
            (na, a, sa), (nb, b, sb) = pick(depth+1), pick(depth+1)
            if rng.rand() < .5: return na + nb, (lambda t: a(t[:na]) + b(t[na:])), '(%s+%s)' % (sa, sb)
            if 'rbf' in sa + sb: mul[0] = True
            return na + nb, (lambda t: a(t[:na])*b(t[na:])), '(%s*%s)' % (sa, sb)
        nm = rng.choice(sorted(base)); return base[nm] + (nm,)
    np_, mk, nm = pick(0)
    th = rng.uniform(.5, 2, np_)
    X, Y = rng.randn(n, d), rng.randn(m, d)
    if rng.rand() < .3: Y[0] = X[0]
    if d == 1 and rng.rand() < .4: X, Y = X[:, 0], Y[:, 0]
    note(kernel=nm, theta=th, X=X, Y=Y, noise=noise, zero=z)
    def make(t): 
        return mk(np.array(t))
    make.noisy = mul[0]
    return make, th, X, Y

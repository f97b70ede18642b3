from replay.h import *
import lop
from replay.gens import pref_data, abs_data

def fd(f, x, h=1e-4):
    return (8*(f(x+h) - f(x-h)) - (f(x+2*h) - f(x-2*h)))/(12*h)

def both(rng):
    if rng.rand() < .5:
        n = rng.randint(1, 7); y, F, s = pref_data(rng)
        mk = lambda h: lop.PreferenceProbit(h[0])
        return mk, y, F, np.array([s]), None
    y, F, s, v = abs_data(rng)
    if rng.rand() < .5: return (lambda h: lop.AbsBoundProbit(s, h[0])), y, F, np.array([v]), s
    return (lambda h: lop.AbsBoundProbit(h[0], h[1], optimize_v_only=False)), y, F, np.array([s, v]), None

@case(200)
def dW_dF(rng):
    mk, y, F, h, _ = both(rng)
    p = mk(h)
    d = p.calc_W_dF(y, F); N = len(F)
    check(d.shape == (N, N, N), 'shape')
    for k in range(N):
        def W(x):
            G = F.copy(); G[k] = x; return p.derivatives(y, G)[0]
        e = fd(W, F[k])
        close(d[k], e, 'calc_W_dF[%d]' % k, rtol=1e-4, atol=1e-5*(1 + abs(e).max()))
        close(d[:, :, k], d[:, k, :], 'calc_W_dF symmetric')

@case(200)
def hyper(rng):
    mk, y, F, h, _ = both(rng)
    p = mk(h) if rng.rand() < .6 else mk(h*1.3 + 0.1)
    if rng.rand() < .5 or (p.get_hyper() != h).any(): p.set_hyper(h)
    d = p.calc_W_dHyper(y, F); g = p.grad_hyper(y, F); N = len(F)
    check(d.shape == (len(h), N, N), 'dW_dHyper shape %s' % (d.shape,)); check(g.shape == (len(h),), 'grad shape')
    for k in range(len(h)):
        def at(x):
            q = h.copy(); q[k] = x; return mk(q)
        e = fd(lambda x: at(x).derivatives(y, F)[0], h[k], 1e-4*max(1, h[k]))
        close(d[k], e, 'calc_W_dHyper[%d]' % k, rtol=2e-4, atol=1e-5*(1 + abs(e).max()))
        e = fd(lambda x: at(x).log_likelihood(y, F), h[k], 1e-4*max(1, h[k]))
        close(g[k], e, 'grad_hyper[%d]' % k, rtol=1e-4, atol=1e-5*(1 + abs(e)))

@case(30)
def fixed(rng):
    if rng.rand() < .5:
        y, F, s = pref_data(rng); p = lop.PreferenceProbit(s, optimize_parameters=False)
    else:
        y, F, s, v = abs_data(rng); p = lop.AbsBoundProbit(s, v, optimize_parameters=False, optimize_v_only=bool(rng.rand() < .5))
    N = len(F)
    check(p.calc_W_dHyper(y, F).shape == (0, N, N), 'dW_dHyper of fixed parameters')
    check(len(p.grad_hyper(y, F)) == 0, 'grad_hyper of fixed parameters')
    check(len(p.get_hyper()) == 0, 'hyper of fixed parameters')

"""Gamma priors: log density, its gradient; the priors of kernels, likelihoods and models."""
from .common import *
from .kern import *
from . import C13
from pydv.contract import UNITS
del UNITS[:]
G = 'lop.utilities.gamma_dist'
PP, AP, OP, MG = C13.PP, C13.AP, C13.OP, C13.MG
EPS = z3.RealVal('1/1000000')
ASSUMPTIONS = ['hyperparameters and gamma arguments at least 1e-6 (the density is clamped below); gamma shapes and scales > 0', 'scipy.special.gamma is the gamma function']
BOUNDED = 'float agreement with scipy.stats.gamma and finite differences'

def logpdf(x, k, th): return -f_lgamma(k) - k*s_log(th) + (k - 1)*s_log(x) - x/th
def pars(I): 
    x, k, th = z3.Reals('x k theta'); I.assume(z3.And(k > 0, th > 0)); return x, k, th

@unit('log density and its gradient (scalars)', [G + ':log_pdf_gamma', 'd_log_pdf_gamma', 'pdf_gamma'])
def u0(I):
    x, k, th = pars(I); I.assume(x >= EPS)
    def run():
        L = I.call(I.fn(G, 'log_pdf_gamma'), [x, k, th], {})
        L = L.at() if isinstance(L, NDArray) else L
        same(I, 'log density is the textbook formula', L, logpdf(x, k, th))
        D = I.call(I.fn(G, 'd_log_pdf_gamma'), [x, k, th], {}); D = D.at() if isinstance(D, NDArray) else D
        same(I, 'gradient is the derivative of the textbook log density', D, (k - 1)/x - 1/th)
        same(I, 'gradient is the derivative of log_pdf_gamma', D, ring.diff_const(Zr(L), x))
        p = I.call(I.fn(G, 'pdf_gamma'), [x, k, th], {})
        same(I, 'the log density is the log of the density', s_log(p), L)
    return run

@unit('log density of a negative argument', [G + ':log_pdf_gamma'])
def u1(I):
    x, k, th = pars(I); I.assume(x < 0)
    def run():
        L = I.call(I.fn(G, 'log_pdf_gamma'), [x, k, th], {}); L = L.at() if isinstance(L, NDArray) else L
        I.oblige('minus infinity', Zr(L) == -INF)
    return run

@unit('log density and its gradient (arrays, entry by entry)', [G + ':log_pdf_gamma', 'd_log_pdf_gamma', 'pdf_gamma'])
def u2(I):
    x, k, th = pars(I); n = z3.Int('n'); I.assume(n > 0)
    def run():
        X = input_array('X', (n,), 'real'); i = skin(I, n, 'i')
        L = I.call(I.fn(G, 'log_pdf_gamma'), [X, k, th], {}); D = I.call(I.fn(G, 'd_log_pdf_gamma'), [X, k, th], {})
        shape(I, 'log density', L, (n,)); shape(I, 'gradient', D, (n,))
        if I.branch(X.at(i) < 0): I.oblige('minus infinity', Zr(L.at(i)) == -INF)
        elif I.branch(X.at(i) >= EPS):
            same(I, 'log density', L.at(i), logpdf(X.at(i), k, th)); same(I, 'gradient', D.at(i), (k - 1)/X.at(i) - 1/th)
            p = I.call(I.fn(G, 'pdf_gamma'), [X, k, th], {})
            same(I, 'log of the density', s_log(p.at(i)), L.at(i))
    return run

def num(L): return L.at() if isinstance(L, NDArray) else L
def gradient_of(I, nm, L, g, ps):
    shape(I, nm, g, (len(ps),))
    for p, c in enumerate(ps): same(I, '%s[%d] is the derivative of the reported prior' % (nm, p), g.at(zi(p)), ring.diff_const(Zreal(num(L)), c))

def priors(I, k, names):
    """the gamma prior of each parameter, from the object's own shape/scale attributes"""
    return [(Zreal(attr(k, x + '_k')), Zreal(attr(k, x + '_theta'))) for x in names]
def set_priors(I, k, names, tag=''):
    for x in names:
        a, b = z3.Reals('%sk_%s %sth_%s' % (tag, x, tag, x)); I.assume(z3.And(a > 0, b > 0))
        if x + '_k' not in k.attrs or x + '_theta' not in k.attrs: raise Unsupported('prior attributes')
        k.attrs[x + '_k'], k.attrs[x + '_theta'] = a, b

def nh(S): return 2 if S.cls.startswith('RBF') else 3
def kernel(S):
    na = nh(S)
    @unit('prior of the %s kernel' % S.name, [K + S.mod + ':' + S.cls + '.param_likli', S.cls + '.grad_param_likli'])
    def u(I):
        ps = S.params(I); I.assume(z3.And(*[p >= EPS for p in ps]))
        def run():
            k = S.new(I, ps); set_priors(I, k, S.pars[:na])
            L = num(I.call(I.getattr(k, 'param_likli'), [], {})); g = I.call(I.getattr(k, 'grad_param_likli'), [], {})
            same(I, 'sum of the gamma log densities', L, sum(logpdf(p, *q) for p, q in zip(ps[:na], priors(I, k, S.pars[:na]))))
            gradient_of(I, 'grad_param_likli', L, g, ps[:na])
        return run
for S in ALL: kernel(S)

def dual(op, S, T):
    na, nb = nh(S), nh(T)
    @unit('prior of %s %s %s' % (S.name, op, T.name), [K + 'KernelFunc:DualKern.param_likli', 'DualKern.grad_param_likli'])
    def u(I):
        pa = [z3.Real('a_' + x) for x in S.pars]; pb = [z3.Real('b_' + x) for x in T.pars]; I.assume(z3.And(*[p >= EPS for p in pa + pb]))
        def run():
            a, b = S.new(I, pa), T.new(I, pb); set_priors(I, a, S.pars[:na], 'a'); set_priors(I, b, T.pars[:nb], 'b')
            k = I.binop('+' if op == 'plus' else '*', a, b)
            L = num(I.call(I.getattr(k, 'param_likli'), [], {})); g = I.call(I.getattr(k, 'grad_param_likli'), [], {})
            same(I, 'sum of both priors', L, Zreal(num(I.call(I.getattr(a, 'param_likli'), [], {}))) + Zreal(num(I.call(I.getattr(b, 'param_likli'), [], {}))))
            gradient_of(I, 'grad_param_likli', L, g, pa[:na] + pb[:nb])
        return run
for op_ in ('plus', 'times'):
    for S_, T_ in ((RBF, LIN), (LIN, PER), (PER, RBF), (RBF0, RBF)): dual(op_, S_, T_)

# ---- likelihoods: an improper flat prior on the preference noise and the rating precision, gamma on the rating slope
def prefp(I, learn):
    s = z3.Real('sig_p'); I.assume(s >= EPS); g = I.new(I.cls(PP, 'PreferenceProbit'), s); g.attrs['optimize_parameters'] = learn
    return g, ([s] if learn else [])
def absp(I, learn, vonly):
    s, v = z3.Reals('sig_a v_a'); I.assume(z3.And(s >= EPS, v >= EPS)); g = I.new(I.cls(AP, 'AbsBoundProbit'), s, v); g.attrs['optimize_parameters'] = learn; g.attrs['optimize_v_only'] = vonly
    return g, ([] if not learn else [v] if vonly else [s, v])
def ordp(I):
    s, b = z3.Reals('sig_o b_o'); I.assume(z3.And(s >= EPS, b >= EPS)); g = I.new(I.cls(OP, 'OrdinalProbit'), s, b, n_ordinals=5)
    return g, []
def probit(nm, mk, cls):
    @unit('prior of the %s likelihood' % nm, cls)
    def u(I):
        def run():
            g, ps = mk(I)
            L = num(I.call(I.getattr(g, 'param_likli'), [], {})); d = I.call(I.getattr(g, 'grad_param_likli'), [], {})
            gradient_of(I, 'grad_param_likli', L, d, ps)
            if nm != 'ordinal':      # the ordinal likelihood reports hyperparameters but neither learns them nor puts a prior on them
                h = I.call(I.getattr(g, 'get_hyper'), [], {}); shape(I, 'reported hyperparameters', h, (len(ps),))
                for p, c in enumerate(ps): same(I, 'hyperparameter %d' % p, h.at(zi(p)), c)
            if nm == 'rating, slope and precision learned':
                k, t = Zreal(attr(g, 'sigma_k')), Zreal(attr(g, 'sigma_theta')); same(I, 'gamma prior on the slope', L, logpdf(ps[0], k, t))
            else: same(I, 'flat', L, z3.RealVal(0))
        return run
PL, AL = [PP + ':PreferenceProbit.param_likli', 'PreferenceProbit.grad_param_likli'], [AP + ':AbsBoundProbit.param_likli', 'AbsBoundProbit.grad_param_likli']
LIKES = [('preference, learned', lambda I: prefp(I, True), PL), ('preference, fixed', lambda I: prefp(I, False), PL), ('rating, slope and precision learned', lambda I: absp(I, True, False), AL),
         ('rating, precision learned', lambda I: absp(I, True, True), AL), ('rating, fixed', lambda I: absp(I, False, False), AL), ('ordinal', ordp, [OP + ':OrdinalProbit.param_likli', 'OrdinalProbit.grad_param_likli'])]
for l in LIKES: probit(*l)

# ---- models
def model(conf, only):
    nm = '+'.join(x for x, c in zip(('pairs', 'ordinal', 'ratings'), conf) if c) or 'no labels'
    @unit('prior of the preference model: %s%s' % (nm, ', likelihood parameters only' if only else ''), [MG + ':PreferenceGP.hyper_liklihood', 'PreferenceGP.grad_hyper_liklihood', 'PreferenceModel.hyper_liklihood', 'PreferenceModel.grad_hyper_liklihood'])
    def u(I):
        def run():
            k, kps = Obj(None, {}), z3.Reals('kL kg0 kg1')
            kg = NDArray((2,), lambda i: z3.If(Zr(i) == 0, kps[1], kps[2]), 'real')
            k.attrs.update(param_likli=Builtin('param_likli', lambda I_, a, kw: kps[0]), grad_param_likli=Builtin('grad_param_likli', lambda I_, a, kw: kg.snapshot()))
            g = I.new(I.cls(MG, 'PreferenceGP'), abstract_kernel(I)[0]); g.attrs['cov_func'] = k; g.attrs['hyperparam_only_probit'] = only
            L, D = z3.RealVal(0), []
            for b in range(3):
                ps = z3.Reals('L%d a%d b%d' % (b, b, b)); m = (1, 0, 2)[b]
                arr = NDArray((m,), lambda i, ps=ps: z3.If(Zr(i) == 0, ps[1], ps[2]), 'real')
                g.attrs['probits'][b] = Obj(None, {'param_likli': Builtin('param_likli', lambda I_, a, kw, ps=ps: ps[0]), 'grad_param_likli': Builtin('grad_param_likli', lambda I_, a, kw, arr=arr: arr.snapshot())})
                if conf[b]: L = L + ps[0]; D += ps[1:1+m]
            g.attrs['y_train'] = [Obj(None, {}) if c else None for c in conf]
            if not only: L = L + kps[0]; D += kps[1:]
            same(I, 'prior is the sum over likelihoods with data and the kernel', num(I.call(I.getattr(g, 'hyper_liklihood'), [], {})), L)
            r = I.call(I.getattr(g, 'grad_hyper_liklihood'), [], {}); shape(I, 'gradient', r, (len(D),))
            for p, c in enumerate(D): same(I, 'gradient[%d]: likelihood parameters first, in order, then the kernel' % p, r.at(zi(p)), c)
        return run
for c_ in [(p, o, a) for p in (0, 1) for o in (0, 1) for a in (0, 1)]:
    for o_ in (False, True): model(c_, o_)

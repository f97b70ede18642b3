"""Hyperparameter vectors: round trip, slices reach the right component, derived constants refreshed, sizes and order of random / prior vectors."""
from .common import *
from .kern import *
from . import C07, C08, C09
from pydv.contract import UNITS
del UNITS[:]
PP, AP, OP = C07.M, C08.M, C09.M
MG, MM = 'lop.models.PreferenceGP', 'lop.models.PreferenceModel'
ASSUMPTIONS = ['hyperparameters > 0; an ordinal likelihood has at least 3 categories and evenly spaced breakpoints (its documented scalar form)']
BOUNDED = 'nested kernel combinations, floating-point behaviour equality'

def vecin(name, n, pos=True):
    a = input_array(name, (n,), 'real')
    if pos: add_fact(a.decl, lambda i: a.decl(i) > 0)
    return a
def nhyp(S): return 2 if S.cls.startswith('RBF') else 3

def equal_vec(I, name, a, want):
    shape(I, name, a, (len(want),))
    for p, w in enumerate(want): same(I, '%s[%d]' % (name, p), a.at(zi(p)), w)

# ---- kernels -------------------------------------------------------------------------------------------------------
def kernel(S):
    na = nhyp(S)
    @unit('%s: set_param / get_param' % S.name, [K + S.mod + ':' + S.cls + '.set_param', S.cls + '.get_param', S.cls + '.__len__'])
    def u(I):
        n, m, d = sets(I); ps = S.params(I)
        def run():
            k = S.new(I, ps); th = vecin('theta', na)
            I.call(I.getattr(k, 'set_param'), [th], {})
            new = [th.decl(zi(p)) for p in range(na)] + ps[na:]
            equal_vec(I, 'get_param after set_param', I.call(I.getattr(k, 'get_param'), [], {}), new[:na])
            I.oblige('len', Zr(I.call(I.getattr(k, '__len__'), [], {})) == na)
            u, v = input_array('u', (d,), 'real'), input_array('v', (d,), 'real')
            f = S.new(I, new)
            same(I, 'same value as a kernel constructed with these parameters', I.call(k, [u, v], {}), I.call(f, [u, v], {}))
            X, Y = input_array('X', (n, d), 'real'), input_array('Y', (m, d), 'real')
            i = skin(I, n, 'i'); j = skin(I, m, 'j')
            same(I, 'same covariance as a kernel constructed with these parameters', I.call(I.getattr(k, 'cov'), [X, Y], {}).at(i, j), I.call(I.getattr(f, 'cov'), [X, Y], {}).at(i, j))
        return run
    @unit('%s: random and prior vectors' % S.name, [K + S.mod + ':' + S.cls + '.randomize_hyper', S.cls + '.grad_param_likli'])
    def r(I):
        ps = S.params(I); I.assume(z3.And(*[p >= z3.RealVal('1/1000') for p in ps]))
        def run():
            k = S.new(I, ps)
            I.gamma_log = []
            v = I.call(I.getattr(k, 'randomize_hyper'), [], {})
            shape(I, 'randomize_hyper', v, (na,))
            shape(I, 'grad_param_likli', I.call(I.getattr(k, 'grad_param_likli'), [], {}), (na,))
            equal_vec(I, 'get_param unchanged by drawing', I.call(I.getattr(k, 'get_param'), [], {}), ps[:na])
            L = I.call(I.getattr(k, 'param_likli'), [], {})
            for p in range(na):
                e = simp(Zreal(v.at(zi(p))))
                hit = [(kk, tt) for kk, tt, r in I.gamma_log if is_z(r) and z3.eq(simp(Zreal(r)), e)]
                if not hit: I.record('entry %d is a draw from a gamma prior' % p, None, info=str(e)[:200]); continue
                same(I, 'entry %d is drawn from the prior of parameter %s' % (p, S.pars[p]), ring.diff_const(L, ps[p]), (Zreal(hit[0][0]) - 1)/ps[p] - 1/Zreal(hit[0][1]))
        return run
for S in ALL: kernel(S)

def dual(op, S, T):
    na, nb = nhyp(S), nhyp(T)
    @unit('%s %s %s: set_param / get_param' % (S.name, op, T.name), [K + 'KernelFunc:DualKern.set_param', 'DualKern.get_param', 'DualKern.randomize_hyper', 'DualKern.grad_param_likli', 'DualKern.__len__'])
    def u(I):
        pa = [z3.Real('a_' + x) for x in S.pars]; pb = [z3.Real('b_' + x) for x in T.pars]
        I.assume(z3.And(*[p > 0 for p in pa + pb]))
        d = z3.Int('d'); I.assume(d > 0)
        def run():
            a, b = S.new(I, pa), T.new(I, pb)
            k = I.binop('+' if op == 'plus' else '*', a, b)
            th = vecin('theta', na + nb)
            t = [th.decl(zi(p)) for p in range(na + nb)]
            equal_vec(I, 'get_param before', I.call(I.getattr(k, 'get_param'), [], {}), pa[:na] + pb[:nb])
            I.oblige('len', Zr(I.call(I.getattr(k, '__len__'), [], {})) == na + nb)
            I.call(I.getattr(k, 'set_param'), [th], {})
            equal_vec(I, 'get_param after set_param', I.call(I.getattr(k, 'get_param'), [], {}), t)
            equal_vec(I, 'first slice reached the first kernel', I.call(I.getattr(a, 'get_param'), [], {}), t[:na])
            equal_vec(I, 'second slice reached the second kernel', I.call(I.getattr(b, 'get_param'), [], {}), t[na:])
            x, y = input_array('u', (d,), 'real'), input_array('v', (d,), 'real')
            ref = I.binop('+' if op == 'plus' else '*', S.new(I, t[:na] + pa[na:]), T.new(I, t[na:] + pb[nb:]))
            same(I, 'same value as a combination constructed with these parameters', I.call(k, [x, y], {}), I.call(ref, [x, y], {}))
            I.gamma_log = []
            shape(I, 'randomize_hyper', I.call(I.getattr(k, 'randomize_hyper'), [], {}), (na + nb,))
            g = I.call(I.getattr(k, 'grad_param_likli'), [], {})
            shape(I, 'grad_param_likli', g, (na + nb,))
            ga, gb = [I.call(I.getattr(q, 'grad_param_likli'), [], {}) for q in (a, b)]
            for p in range(na): same(I, 'prior gradient[%d] belongs to the first kernel' % p, g.at(zi(p)), ga.at(zi(p)))
            for p in range(nb): same(I, 'prior gradient[%d] belongs to the second kernel' % p, g.at(zi(na + p)), gb.at(zi(p)))
        return run
dual('plus', RBF, LIN); dual('times', PER, RBF); dual('plus', LIN, PER)

# ---- likelihoods ---------------------------------------------------------------------------------------------------
def vecs(I, o): return [I.call(I.getattr(o, f), [], {}) for f in ('get_hyper', 'randomize_hyper', 'grad_param_likli')]

def prior_of(I, v, p, k, th, what):
    """entry p of the drawn vector came from the gamma(k, theta) draw"""
    e = v.at(zi(p))
    hit = [z3.eq(simp(r), simp(e)) and z3.eq(simp(Zreal(kk)), simp(Zreal(k))) and z3.eq(simp(Zreal(tt)), simp(Zreal(th))) for kk, tt, r in getattr(I, 'gamma_log', []) if is_z(r)]
    I.record('%s is drawn from its own prior' % what, any(hit) or None, info=repr(e)[:200])

def compare(I, o, f, y, F, n, hyps=()):
    a, b = [I.call(I.getattr(q, 'log_likelihood'), [y, F], {}) for q in (o, f)]
    same(I, 'log_likelihood as freshly constructed', a, b, hyps)
    (Wa, ga, la), (Wb, gb, lb) = [I.call(I.getattr(q, 'derivatives'), [y, F], {}) for q in (o, f)]
    i, j = skin(I, n, 'i', 'j')
    same(I, 'gradient as freshly constructed', ga.at(i), gb.at(i), hyps)
    same(I, 'W as freshly constructed', Wa.at(i, j), Wb.at(i, j), hyps)

@unit('preference likelihood: hyperparameters', [PP + ':PreferenceProbit.set_hyper', 'PreferenceProbit.get_hyper', 'PreferenceProbit.set_sigma', 'PreferenceProbit.randomize_hyper', 'PreferenceProbit.grad_param_likli'])
def up(I):
    n, m, s0 = C07.setup(I)
    def run():
        o = I.new(I.cls(PP, 'PreferenceProbit'), s0)
        th = vecin('theta', 1); t = th.decl(zi(0))
        I.call(I.getattr(o, 'set_hyper'), [th], {})
        I.gamma_log = []
        g, r, d = vecs(I, o)
        equal_vec(I, 'get_hyper', g, [t]); shape(I, 'randomize_hyper', r, (1,)); shape(I, 'grad_param_likli', d, (1,))
        prior_of(I, r, 0, attr(o, 'sigma_k'), attr(o, 'sigma_theta'), 'sigma')
        y = pairs_input(m, n); F = input_array('F', (n,), 'real')
        compare(I, o, I.new(I.cls(PP, 'PreferenceProbit'), t), y, F, n)
    return run

@unit('preference likelihood: nothing learned', [PP + ':PreferenceProbit.set_hyper'])
def up0(I):
    n, m, s0 = C07.setup(I)
    def run():
        o = I.new(I.cls(PP, 'PreferenceProbit'), s0, False)
        I.call(I.getattr(o, 'set_hyper'), [NDArray((0,), lambda i: z3.RealVal(0), 'real')], {})
        for x in vecs(I, o): shape(I, 'empty vector', x, (0,))
        same(I, 'sigma unchanged', attr(o, 'sigma'), s0)
    return run

def absb(I):
    s0, v0 = z3.Real('sigma'), z3.Real('v'); n, m = z3.Int('n'), z3.Int('m')
    I.assume(z3.And(s0 > 0, v0 > 0, n > 0, m > 0))
    def y():
        r = input_array('r', (m,), 'real'); add_fact(r.decl, lambda k: z3.And(r.decl(k) > 0, r.decl(k) < 1))
        return (r, idx_input('ix', m, n)), input_array('F', (n,), 'real')
    return n, m, s0, v0, y

def absunit(vonly):
    np_ = 1 if vonly else 2
    @unit('bounded likelihood: hyperparameters (%s)' % ('v' if vonly else 'sigma, v'), [AP + ':AbsBoundProbit.set_hyper', 'AbsBoundProbit.get_hyper', 'AbsBoundProbit.set_sigma', 'AbsBoundProbit.set_v', 'AbsBoundProbit.randomize_hyper'])
    def u(I):
        n, m, s0, v0, mk = absb(I)
        def run():
            o = I.new(I.cls(AP, 'AbsBoundProbit'), s0, v0, True, vonly)
            th = vecin('theta', np_); t = [th.decl(zi(p)) for p in range(np_)]
            I.call(I.getattr(o, 'set_hyper'), [th], {})
            I.gamma_log = []
            g, r, d = vecs(I, o)
            equal_vec(I, 'get_hyper', g, t); shape(I, 'randomize_hyper', r, (np_,)); shape(I, 'grad_param_likli', d, (np_,))
            prior_of(I, r, np_ - 1, attr(o, 'v_k'), attr(o, 'v_theta'), 'v')
            if not vonly: prior_of(I, r, 0, attr(o, 'sigma_k'), attr(o, 'sigma_theta'), 'sigma')
            y, F = mk()
            compare(I, o, I.new(I.cls(AP, 'AbsBoundProbit'), s0 if vonly else t[0], t[-1], True, vonly), y, F, n)
        return run
absunit(True); absunit(False)

@unit('bounded likelihood: nothing learned', [AP + ':AbsBoundProbit.set_hyper', 'ProbitBase.get_hyper', 'ProbitBase.randomize_hyper', 'ProbitBase.grad_param_likli'])
def ua0(I):
    n, m, s0, v0, mk = absb(I)
    def run():
        o = I.new(I.cls(AP, 'AbsBoundProbit'), s0, v0, False)
        I.call(I.getattr(o, 'set_hyper'), [NDArray((0,), lambda i: z3.RealVal(0), 'real')], {})
        for x in vecs(I, o): shape(I, 'empty vector', x, (0,))
        same(I, 'sigma unchanged', attr(o, 'sigma'), s0); same(I, 'v unchanged', attr(o, 'v'), v0)
    return run

def ordunit(K):
    @unit('ordinal likelihood: hyperparameters, %d categories' % K, [OP + ':OrdinalProbit.set_hyper', 'OrdinalProbit.get_hyper', 'OrdinalProbit.set_b', 'OrdinalProbit.set_sigma', 'OrdinalProbit.randomize_hyper'])
    def u(I):
        n, m, sig, b, mk = C09.objs(I, K)
        def run():
            o, y, F, l, hyp, ll = mk()
            th = vecin('theta', 2); t = [th.decl(zi(0)), th.decl(zi(1))]
            I.call(I.getattr(o, 'set_hyper'), [th], {})
            equal_vec(I, 'get_hyper', I.call(I.getattr(o, 'get_hyper'), [], {}), t)
            shape(I, 'randomize_hyper', I.call(I.getattr(o, 'randomize_hyper'), [], {}), (2,))
            f = I.new(I.cls(OP, 'OrdinalProbit'), t[0], t[1], K)
            q = z3.Int('q'); 
            ba, bb = attr(o, 'b'), attr(f, 'b')
            shape(I, 'breakpoints', ba, (K + 1,))
            for c in range(K + 1): 
                x, w = ba.at(zi(c)), bb.at(zi(c))
                I.oblige('breakpoint %d as freshly constructed' % c, Zr(x) == Zr(w))
            a, e = [I.call(I.getattr(p, 'likelihood_each'), [y, F], {}) for p in (o, f)]
            k = skin(I, m, 'k')
            same(I, 'likelihood as freshly constructed', a.at(k), e.at(k))
        return run
ordunit(3); ordunit(5)

# ---- models --------------------------------------------------------------------------------------------------------
HY = {0: 1, 1: 2, 2: 1}
def model(cls, mod, only, combo):
    """combo: which likelihoods have data"""
    total = sum(HY[i] for i in combo) + (0 if only else 2)
    nm = '%s%s, data for %s' % (cls, '' if only is None else (' probit only' if only else ' with kernel'), '+'.join(['pairs', 'ordinal', 'bounded'][i] for i in combo) or 'nothing')
    @unit('model hyperparameters: ' + nm, [mod + ':' + cls + '.get_hyper', cls + '.set_hyper', MM + ':PreferenceModel.get_hyper', 'PreferenceModel.set_hyper'] + ([MG + ':PreferenceGP.randomize_hyper', 'PreferenceGP.grad_hyper_liklihood'] if cls == 'PreferenceGP' else []))
    def u(I):
        ps = RBF.params(I)
        def run():
            if cls == 'PreferenceGP':
                k = RBF.new(I, ps)
                g = I.new(I.cls(mod, cls), k, hyperparam_only_probit=only)
            else:
                k, g = None, I.new(I.cls(mod, cls))
            yt = attr(g, 'y_train'); items = [None, None, None]
            n, m = z3.Int('n'), z3.Int('m'); I.assume(z3.And(n > 0, m > 0))
            for i in combo:
                if i == 0: items[0] = pairs_input(m, n)
                elif i == 1: items[1] = (input_array('r1', (m,), 'int'), idx_input('i1', m, n))
                else: items[2] = (input_array('r2', (m,), 'real'), idx_input('i2', m, n))
            g.attrs['y_train'] = items
            probits = list(attr(g, 'probits'))
            before = [I.call(I.getattr(p, 'get_hyper'), [], {}) for p in probits]
            th = vecin('theta', total)
            I.call(I.getattr(g, 'set_hyper'), [th], {})
            equal_vec(I, 'get_hyper after set_hyper', I.call(I.getattr(g, 'get_hyper'), [], {}), [th.decl(zi(p)) for p in range(total)])
            pos = 0
            for i, p in enumerate(probits):
                now = I.call(I.getattr(p, 'get_hyper'), [], {})
                if i in combo:
                    equal_vec(I, 'slice of likelihood %d' % i, now, [th.decl(zi(pos + q)) for q in range(HY[i])]); pos += HY[i]
                else:
                    equal_vec(I, 'likelihood %d without data untouched' % i, now, [before[i].at(zi(q)) for q in range(HY[i])])
            if k is not None:
                equal_vec(I, 'kernel parameters', I.call(I.getattr(k, 'get_param'), [], {}), ps[:2] if only else [th.decl(zi(pos)), th.decl(zi(pos + 1))])
                if 1 not in combo:
                    shape(I, 'prior gradient lines up', I.call(I.getattr(g, 'grad_hyper_liklihood'), [], {}), (total,))
                if not only:
                    I.gamma_log = []
                    I.call(I.getattr(g, 'randomize_hyper'), [], {})
                    new = I.call(I.getattr(g, 'get_hyper'), [], {})
                    shape(I, 'drawn vector lines up', new, (total,))
                    pos = 0
                    for i in combo:
                        if i == 0: prior_of(I, new, pos, attr(probits[0], 'sigma_k'), attr(probits[0], 'sigma_theta'), 'preference sigma')
                        if i == 2: prior_of(I, new, pos, attr(probits[2], 'v_k'), attr(probits[2], 'v_theta'), 'bounded v')
                        pos += HY[i]
                    prior_of(I, new, pos, attr(k, 'sigma_k'), attr(k, 'sigma_theta'), 'kernel sigma')
                    prior_of(I, new, pos + 1, attr(k, 'l_k'), attr(k, 'l_theta'), 'kernel lengthscale')
        return run
for combo in ((), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)):
    for only in (True, False): model('PreferenceGP', MG, only, combo)
model('PreferenceModel', MM, True, (0, 1, 2)); model('PreferenceModel', MM, True, (0, 2))

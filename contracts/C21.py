"""Metropolis-Hastings: the chain is the one its acceptance rule defines, for every likelihood, proposal and random draw."""
from .common import *
M = 'lop.utilities.mcmc_sampling'
ASSUMPTIONS = ['the likelihood and proposal callables have no side effects on the chain and return a number / a vector of the same dimension', 'likelihoods are finite reals']
BOUNDED = 'float likelihoods including minus infinity, scripted proposals, scripted uniform draws'

@unit('metropolis_hastings', [M + ':metropolis_hastings'], timeout=100, complete=False)
def u(I):
    I.branch_timeout = 100
    num, burn, dim = z3.Ints('num burn dim'); I.assume(z3.And(num >= 0, burn >= 0, dim > 0))
    X, P = z3.Function('X', IS, IS, RS), z3.Function('P', IS, IS, RS)          # ghost chain: state before step k, proposal of step k
    LX, LP, U = z3.Function('LX', IS, RS), z3.Function('LP', IS, RS), z3.Function('U', IS, RS)   # their likelihoods, the uniform draw of step k
    k, j, t = z3.Ints('k! j! t!'); T = core.TOUCH
    I.assume(fa([k], T(k), T(k)))
    acc = lambda k: f_exp(LP(k) - LX(k)) > U(k)
    I.assume(z3.ForAll([k, j], X(k + 1, j) == z3.If(acc(k), P(k, j), X(k, j)), patterns=[z3.MultiPattern(T(k), P(k, j)), z3.MultiPattern(T(k), X(k, j))]))
    I.assume(z3.ForAll([k], LX(k + 1) == z3.If(acc(k), LP(k), LX(k)), patterns=[T(k)]))
    add_fact(U, lambda k: z3.And(U(k) >= 0, U(k) < 1))
    st = {'k': None, 'n': 0}
    def is_state(a, F, k):
        if not isinstance(a, NDArray) or a.ndim != 1: return False
        c = fresh('c'); return I.entails(z3.And(Zr(a.shape[0]) == dim, z3.Implies(z3.And(0 <= c, c < dim), Zreal(a.at(c)) == F(k, c))))
    def ll(I_, a, kw):
        x = a[0]
        if st['k'] is None:        # before the loop: the first state
            if 'x0' not in st:
                st['x0'] = x.snapshot()
                c = z3.Int('c!'); I.assume(fa([c], z3.Implies(z3.And(0 <= c, c < dim), X(z3.IntVal(0), c) == Zreal(x.at(c))), X(z3.IntVal(0), c))); return LX(z3.IntVal(0))
            return fresh('ll', 'real')
        if is_state(x, P, st['k']): return LP(st['k'])
        if is_state(x, X, st['k']): return LX(st['k'])
        return fresh('ll', 'real')
    def prop(I_, a, kw):
        if st['k'] is None: return fresh_array('prop', (dim,), 'real')
        ok = is_state(a[0], X, st['k']); st['n'] += 1
        if ok and st['n'] == 1: return NDArray((dim,), lambda c, k=st['k']: P(k, c), 'real')
        I.record('the proposal is made from the current state, once per step', None); return fresh_array('prop', (dim,), 'real')
    def uni(I_, a, kw):
        if a and a[0] is not None or kw.get('size') is not None or st['k'] is None: return rnd(I_, a, kw)
        st['u'] = st.get('u', 0) + 1
        return U(st['k']) if st['u'] == 1 else fresh('u', 'real')
    def run():
        st.clear(); st.update({'k': None, 'n': 0})
        def inv(env, it):
            v = env.vars; s = [x for x in v.values() if isinstance(x, (SymList, list))]
            if len(s) != 1: raise Unsupported('one list of samples expected')
            s = lib_list(I, s[0]); c = z3.Int('c!')
            ent = st['k'] is None; st['k'] = it if it is not None else None; st['n'] = 0; st['u'] = 0
            out = [('hint', T(it))]
            cx, cl = v.get('cur_x'), v.get('cur_ll')
            if not isinstance(cx, NDArray) or cx.ndim != 1 or not is_num(cl): raise Unsupported('state of the chain')
            n = Zr(s.n)
            at = lambda t, c: Zreal(I.np.arr(s.elem(t)).at(c))
            return out + [('the current point is the state of the chain', fa([c], z3.Implies(z3.And(0 <= c, c < dim), Zreal(cx.at(c)) == X(it, c)), cx.at(c))),
                          ('dimension', Zr(cx.shape[0]) == dim), ('the likelihood remembered is that of the current point', Zreal(cl) == LX(it)),
                          ('number of samples', n == z3.If(it > burn, it - burn, 0)),
                          *([] if isinstance(s.n, int) and s.n == 0 else [('the samples are the states after burn-in', z3.ForAll([t, c], z3.Implies(z3.And(0 <= t, t < n, 0 <= c, c < dim), at(t, c) == X(burn + t + 1, c))))])]
        loops.use_inv(I, 'metropolis_hastings', inv)
        for nm in ('random', 'rand', 'random_sample'): I.lib['numpy.random.' + nm] = uni
        try: r = I.call(I.fn(M, 'metropolis_hastings'), [Builtin('ll', ll), num], {'dim': dim, 'num_to_burn': burn, 'prop_distribution': Builtin('prop', prop)})
        finally:
            for nm in ('random', 'rand', 'random_sample'): I.lib['numpy.random.' + nm] = old[nm]
        I.oblige('as many samples as asked for', Zr(r.shape[0]) == num)
        if r.ndim == 2:
            a, c = skin(I, num, 'a'), skin(I, dim, 'c')
            I.oblige('sample a is the state of the chain after burn-in and a+1 more steps', Zreal(r.at(a, c)) == X(burn + a + 1, c))
    old = {nm: I.lib['numpy.random.' + nm] for nm in ('random', 'rand', 'random_sample')}; rnd = old['random']
    return run
from pydv.lib import as_symlist as lib_list

"""Score-based learners pick the allowed candidate with the best documented score."""
import ast
from .common import *
from pydv import loops, ring
from . import learn
ASSUMPTIONS = ['predicted variances are non-negative', 'scores are real numbers (no NaN)']
BOUNDED = 'all pool sizes up to 9 with random scores'

learn.register()
for p_ in (False, True):
    for i_ in (True, False): learn.pick(i_, p_)

@unit('MutualInfoLearner.calc_info_gain', [learn.A + 'MutualInfoLearner:MutualInfoLearner.calc_info_gain'])
def infogain(I):
    """p_human_choice is used by its contract (C15: positive probabilities); the gain is the documented expectation"""
    n, m, k = z3.Ints('n M k'); I.assume(z3.And(n >= 1, m >= 1, k >= 1)); peak = z3.Real('peak')
    W = input_array('W', (m, n), 'real'); Q = idx_input('Q', k, n); P = input_array('p', (m, k), 'real'); add_fact(P.decl, lambda i, j: P.decl(i, j) > 0)
    def run():
        def phc(I_, a, kw):
            r, pk = a[0], a[1] if len(a) > 1 else kw.get('p'); shape(I, 'rewards of the query', r, (m, k)); q, i = skin(I, m, 'q'), skin(I, k, 'i')
            I.oblige('rewards of the query', Zreal(r.at(q, i)) == Zreal(W.at(q, Q.at(i)))); I.oblige('peakiness', Zreal(pk) == peak); return P.snapshot()
        I.contracts['p_human_choice'] = phc
        o = Obj(I.cls(learn.A + 'MutualInfoLearner', 'MutualInfoLearner'), {'M': m, 'peakiness': peak})
        r = I.call(I.getattr(o, 'calc_info_gain'), [SymList(k, lambda i: Q.at(i)), W], {})
        M = z3.ToReal(m); tot = lambda i: mk_node('sum', m, lambda q: P.decl(q, i))
        l2 = lambda x: Zreal(I.lib['numpy.log2'](I, [x], {}))
        same(I, 'expected information', r, mk_node('sum', m, lambda q: mk_node('sum', k, lambda i: P.decl(q, i) * l2(M * P.decl(q, i) / tot(i)))) / M)
    return run

def cdf(n):
    @unit('calc_cdf of independent values, %s' % (n or 'any number'), ['lop.utilities.probability_utility:calc_cdf'])
    def u(I):
        k = n or z3.Int('n'); I.assume(zi(k) >= 1); mu = input_array('mu', (k,), 'real'); C = input_array('cov', (k, k), 'real'); add_fact(C.decl, lambda i, j: z3.Implies(i == j, C.decl(i, j) > 0))
        def run():
            r = I.call(I.fn('lop.utilities.probability_utility', 'calc_cdf'), [mu, C], {'method': 'independent'})
            nd = lambda x: Zreal(I.lib['scipy.special.ndtr'](I, [x], {})); sq = lambda x: Zreal(I.lib['numpy.sqrt'](I, [x], {}))
            f = lambda i: nd(-mu.decl(zi(i)) / sq(C.decl(zi(i), zi(i))))
            if n:
                w = z3.RealVal(1)
                for i in range(n): w = w * f(i)
            else: w = mk_node('prod', k, f)
            same(I, 'product of the marginal probabilities', r, w)
        return run
for n_ in (1, 2, 3, None): cdf(n_)

def pb(n):
    @unit('p_B_pref_gp, %d candidates' % n, [learn.A + 'ActiveLearner:ActiveLearner.p_B_pref_gp'])
    def u(I):
        """calc_cdf is used by its contract: a positive function of the mean differences and their covariance"""
        d = z3.Int('d'); I.assume(d >= 1); X = input_array('X', (n, d), 'real'); mu = input_array('mu', (n,), 'real'); K = input_array('K', (n, n), 'real')
        m = n - 1; C = z3.Function('orthant', *([RS] * (m + m * m + 1))); add_fact(C, lambda *a: C(*a) > 0)
        def val(f, g): return C(*[z3.simplify(f(i)) for i in range(m)], *[z3.simplify(g(i, j)) for i in range(m) for j in range(m)])
        def run():
            def stub(I_, a, kw):
                v, S = a[0], a[1]; shape(I, 'differences', v, (m,)); shape(I, 'their covariance', S, (m, m))
                return val(lambda i: Zreal(v.at(i)), lambda i, j: Zreal(S.at(i, j)))
            I.contracts['calc_cdf'] = stub
            o = Obj(I.cls(learn.A + 'ActiveLearner', 'ActiveLearner'), {}); mo = learn.model_obj(I, 'gp', K); mo.attrs['probits'] = [Obj(None, {'sigma': z3.Real('sigma')})]; o.attrs['model'] = mo
            p = I.call(I.getattr(o, 'p_B_pref_gp'), [X, mu], {}); shape(I, 'one probability per candidate', p, (n,))
            k = lambda i, j: Zreal(K.at(i, j)); f = lambda i: Zreal(mu.at(i))
            def w(i):
                x = [j for j in range(n) if j != i]
                return val(lambda a: f(x[a]) - f(i), lambda a, b: k(i, i) + k(x[a], x[b]) - k(i, x[a]) - k(i, x[b]))
            tot = sum([w(i) for i in range(1, n)], w(0))
            for i in range(n): same(I, 'candidate %d: proportional to the probability that it beats all others, summing to one' % i, p.at(i), w(i) / tot)
        return run
for n_ in (2, 3, 4): pb(n_)



def bayes_pair(meth):
    @unit('BayesInfoGain.select_pair, %s' % meth, [learn.A + 'BayesInfoGain:BayesInfoGain.select_pair', learn.A + 'BayesInfoGain:BayesInfoGain.get_p_B_probit'])
    def u(I):
        n = z3.Int('n'); I.assume(n >= 1); pB = input_array('pB', (n,), 'real'); P = input_array('P', (n, n), 'real'); X = input_array('X', (n, 2), 'real'); mu = input_array('mu', (n,), 'real'); p, b = P.decl, pB.decl
        def run():
            hi, lo = {'probit': (lambda x, y: z3.If(p(x, y) >= p(y, x), p(x, y), p(y, x)), lambda x, y: z3.If(p(x, y) <= p(y, x), p(x, y), p(y, x))), '999': (lambda x, y: z3.RealVal('999/1000'), lambda x, y: z3.RealVal('1/1000')), '99': (lambda x, y: z3.RealVal('99/100'), lambda x, y: z3.RealVal('1/100'))}[meth]; half = z3.RealVal('1/2')
            spec = lambda x, y, k, v: z3.If(z3.And(x == y, x < v), half, z3.If(z3.And(k == x, x < v), hi(x, y), z3.If(z3.And(k == y, y < v), lo(x, y), p(x, y))))       # answer probabilities given that k is best, after v rounds
            def rounds(I_, s, env, it):
                A = env.vars.get('p_q_B')
                if any(isinstance(x, ast.For) for x in ast.walk(s) if x is not s) or not any(isinstance(x, ast.Name) and x.id == 'p_q_B' for x in ast.walk(s)) or not (isinstance(A, NDArray) and A.ndim == 3 and A.isview is None): return False
                cnt, el = loops.iter_view(I_, it); x, y, k = z3.Ints('q!x q!y q!k'); g = z3.And(*[z3.And(0 <= t, t < n) for t in (x, y, k)])
                inv = lambda env_, v: [('answer probabilities', fa([x, y, k], z3.Implies(g, Zreal(A.at(x, y, k)) == spec(x, y, k, v))))]
                loops.havoc_loop(I_, s, env, cnt, lambda i: I_.assign(s.target, el(i), env), inv); A.set_fn(lambda u, v, w: spec(Zr(u), Zr(v), Zr(w), n)); return True
            I.loop_specs['BayesInfoGain.select_pair'] = rounds
            a, c = skin(I, n, 'a', 'b'); I.assume(a != c); picked = []; I.contracts['ActiveLearner.pick_pair_from_metric'] = lambda I_, x, kw: (picked.append(x[-3:]), (a, c))[1]
            o = Obj(I.cls(learn.A + 'BayesInfoGain', 'BayesInfoGain'), {'p_q_B_method': meth, 'first_call_greedy': False, 'p_B': pB.snapshot(), 'probit_mat': P.snapshot(), 'model': Obj(None, {'X_train': X})})
            ix, prev = input_array('ix', (z3.Int('k'),), 'int'), SymSet(z3.EmptySet(IS)); r = I.call(I.getattr(o, 'select_pair'), [X, mu, None, ix, prev], {})
            if len(picked) != 1 or not isinstance(picked[0][0], NDArray): raise Unsupported('picked in another way')
            m = picked[0][0]; shape(I, 'gains', m, (n, n)); ln = lambda x: Zreal(I.lib['numpy.log'](I, [x], {})); tiny = z3.RealVal('1/100000000000000000')
            if not (picked[0][1] is prev and picked[0][2] is ix): raise Unsupported('the allowed points in another form')
            ent = lambda f: -mk_node('sum', n, lambda k: z3.If(f(k) < tiny, z3.RealVal(0), f(k)*ln(f(k))))
            def after(x, y):
                w = lambda k: spec(x, y, k, n)*b(k)/p(x, y)
                return ent(lambda k: w(k)/mk_node('sum', n, w))
            I.assume(z3.And(p(a, c) > 0, p(c, a) > 0)); want = ent(b) - (p(a, c)*after(a, c) + p(c, a)*after(c, a))
            same(I, 'expected gain of a pair', Zreal(m.at(a, c)), want); same(I, 'its gain is kept', o.attrs['sel_metric'], Zreal(m.at(a, c)))
        return run
for m_ in ('probit', '999', '99'): bayes_pair(m_)


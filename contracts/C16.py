"""Rescaling to the unit interval, sigmoid ratings, simulated users."""
from .common import *
T, S, S2 = 'lop.utilities.training_utility', 'lop.utilities.synthetic_user', 'lop.utilities.HumanChoiceUser2'
ASSUMPTIONS = ['the reward function is an arbitrary function of one sample, applied to each sample of a batch (property C23)',
               'the padding of normalize_0_1 is positive, or at least zero when the values are not all equal',
               'scipy.optimize.minimize_scalar returns a point of its bounds', 'a normal draw of scale zero is its mean; other draws are arbitrary',
               '0 < bot_range < top_range < 1 and reward values that are not all equal when the value range is learnt']
BOUNDED = 'HumanChoiceUser2.learn_beta: run-time contract on samples of environments'

def norm(nd, dt, dflt):
    @unit('normalize_0_1, %d axes, %s%s' % (nd, dt, ', default padding' if dflt else ''), [T + ':normalize_0_1'])
    def u(I):
        n, m = z3.Ints('n m'); I.assume(z3.And(n > 0, m > 0)); shp = (n, m)[:nd]; x = input_array('x', shp, dt); X = lambda *i: Zreal(x.decl(*i))
        ix = lambda: tuple(skin(I, s, 'i') for s in shp)
        a, b, lo, hi = ix(), ix(), ix(), ix()
        e = z3.RealVal('1/10000') if dflt else z3.Real('eps')
        # lo, hi: positions of the smallest and the largest value
        q = [fresh('q') for _ in shp]; rng = z3.And(*[z3.And(0 <= v, v < s) for v, s in zip(q, shp)])
        add_fact(x.decl, lambda *i: z3.Implies(z3.And(*[z3.And(0 <= v, v < s) for v, s in zip(i, shp)]), z3.And(X(*lo) <= X(*i), X(*i) <= X(*hi))))
        I.assume(X(*lo) <= X(*hi))
        I.assume(z3.Or(e > 0, z3.And(e == 0, X(*lo) < X(*hi))))
        def run():
            o = I.call(I.fn(T, 'normalize_0_1'), [x] + ([] if dflt else [e]), {}); shape(I, 'one value per input', o, shp)
            R = X(*hi) - X(*lo) + 2*e; at = lambda i: Zreal(o.at(*i))
            I.oblige('smallest value at the lower end', at(lo) == e/R); I.oblige('largest value at the upper end', at(hi) == (R - e)/R)
            I.oblige('affine in the value', at(a)*R == X(*a) - X(*lo) + e)
            I.oblige('inside the unit interval', z3.And(0 <= at(a), at(a) <= 1))
            I.oblige('order is preserved', z3.Implies(X(*a) < X(*b), at(a) < at(b))); I.oblige('equal values stay equal', z3.Implies(X(*a) == X(*b), at(a) == at(b)))
            I.oblige('input unchanged', Zreal(x.at(*a)) == X(*a))
        return run
for nd_ in (1, 2):
    for dt_ in ('real', 'int'): norm(nd_, dt_, False)
norm(1, 'real', True)

def sg(z): return z3.RealVal(1)/(1 + f_exp(-z))

@unit('sigmoid', [S + ':sigmoid'])
def _(I):
    n = z3.Int('n'); I.assume(n > 0); x = input_array('x', (n,), 'real'); i, j = skin(I, n, 'i', 'j'); k, b = z3.Reals('k b')
    def run():
        o = I.call(I.fn(S, 'sigmoid'), [x], {'k': k, 'b': b}); shape(I, 'one value per input', o, (n,))
        same(I, 'logistic function of the line', o.at(i), sg(k*x.decl(i) + b))
        I.oblige('strictly between 0 and 1', z3.And(0 < Zreal(o.at(i)), Zreal(o.at(i)) < 1))
        I.oblige('never decreasing', z3.Implies(z3.And(k*x.decl(i) <= k*x.decl(j)), Zreal(o.at(i)) <= Zreal(o.at(j))))
        I.oblige('never decreasing in the value for a positive slope', z3.Implies(z3.And(k > 0, k*x.decl(i) <= k*x.decl(j)), Zreal(o.at(i)) <= Zreal(o.at(j))))
        s = I.call(I.fn(S, 'sigmoid'), [x.decl(i)], {}); same(I, 'default slope 4, no offset', s, sg(4*x.decl(i)))
        I.oblige('a single value is rated inside the scale', z3.And(0 < Zreal(s), Zreal(s) < 1))
    return run

def fake(I):
    """an arbitrary function of one sample applied along the last axis"""
    F = z3.Function('F', RS, RS)
    def f(I_, a, kw):
        r = I.np.arr(a[0]).snapshot(); d = r.ndim - 1
        el = lambda *i: F(mk_node('lin', r.shape[-1], lambda q: Zreal(r.at(*i, q))))
        return NDArray(tuple(r.shape[:-1]), el, 'real') if d else el()
    return Builtin('fake_f', f), (lambda r, *i: F(mk_node('lin', r.shape[-1], lambda q: Zreal(r.at(*i, q)))))

def user(I, cls, **over):
    f, F = fake(I)
    o = I.call(I.cls(S2 if cls.endswith('2') else S, cls), [f], dict(over)); return o, F

@unit('PerfectUser', [S + ':PerfectUser.choose', S + ':PerfectUser.rate', S + ':SyntheticUser.choose_pairs', 'lop.utilities.preference_pairs:gen_pairs_from_idx'])
def _(I):
    n, m = z3.Ints('n m'); I.assume(z3.And(n > 0, m > 0)); r = input_array('r', (n, m), 'real'); i, j = skin(I, n, 'i', 'j')
    def run():
        o, F = user(I, 'PerfectUser'); c = Zr(I.call(I.getattr(o, 'choose'), [r], {}))
        I.oblige('choice is a valid index', z3.And(0 <= c, c < n)); I.oblige('no other option is better', F(r, i) <= F(r, c))
        y = I.call(I.getattr(o, 'rate'), [r], {}); shape(I, 'one rating per sample', y, (n,))
        I.oblige('rating inside the scale', z3.And(0 <= Zreal(y.at(i)), Zreal(y.at(i)) <= 1))
        I.oblige('rating never decreases with the value', z3.Implies(F(r, i) <= F(r, j), Zreal(y.at(i)) <= Zreal(y.at(j))))
        x = input_array('x', (m,), 'real'); y = I.call(I.getattr(o, 'rate'), [x], {}); same(I, 'rating of a single sample', y, sg(4*F(x)))
        I.oblige('single rating inside the scale', z3.And(0 <= Zreal(y), Zreal(y) <= 1))
    return run

@unit('HumanChoiceUser.rate', [S + ':HumanChoiceUser.rate', S + ':HumanChoiceUser.__init__'])
def _(I):
    n, m = z3.Ints('n m'); I.assume(z3.And(n > 0, m > 0)); r = input_array('r', (n, m), 'real'); i, j = skin(I, n, 'i', 'j'); sg_, be, k, b = z3.Reals('sigma beta k b'); I.assume(k > 0)
    def run():
        o, F = user(I, 'HumanChoiceUser', sigma=sg_, beta=be); o.attrs['k'], o.attrs['b'] = k, b
        y = I.call(I.getattr(o, 'rate'), [r], {}); shape(I, 'one rating per sample', y, (n,))
        I.oblige('rating inside the scale', z3.And(0 <= Zreal(y.at(i)), Zreal(y.at(i)) <= 1))
        x = input_array('x', (m,), 'real'); s = I.call(I.getattr(o, 'rate'), [x], {}); I.oblige('single rating inside the scale', z3.And(0 <= Zreal(s), Zreal(s) <= 1))
        I.assume(sg_ == 0)
        I.oblige('without noise the rating never decreases with the value', z3.Implies(F(r, i) <= F(r, j), Zreal(y.at(i)) <= Zreal(y.at(j))))
        I.oblige('without noise the rating is the logistic function of the value', Zreal(y.at(i)) == sg(F(r, i)*k + b)); I.oblige('without noise a single rating is the logistic function of the value', Zreal(s) == sg(F(x)*k + b))
    return run

def hchoose(c):
    @unit('%s.choose' % c, [S + ':HumanChoiceUser.choose', 'lop.utilities.human_choice_model:sample_human_choice', 'lop.utilities.human_choice_model:p_human_choice'])
    def u(I):
        n, m = z3.Ints('n m'); I.assume(z3.And(n > 0, m > 0)); r = input_array('r', (n, m), 'real'); i = skin(I, n, 'i'); be, k, b = z3.Reals('beta k b')
        def run():
            o, F = user(I, c, beta=be); o.attrs['k'], o.attrs['b'] = k, b
            x = Zr(I.call(I.getattr(o, 'choose'), [r], {})); I.oblige('choice is a valid index', z3.And(0 <= x, x < n))
            ix, p = I.last_choice
            if p is None: I.record('drawn from the choice model', None)
            else: same(I, 'drawn from the choice model', Zreal(I.np.arr(p).at(i)), f_exp(be*(k*F(r, i) + b))/mk_sum(n, lambda q: f_exp(be*(k*F(r, q) + b))))
        return run
hchoose('HumanChoiceUser'); hchoose('HumanChoiceUser2')

def pairs(c):
    @unit('%s.choose_pairs' % c, [S + ':SyntheticUser.choose_pairs', S + ':%s.choose' % c, 'lop.utilities.preference_pairs:gen_pairs_from_idx', 'lop.utilities.preference_pairs:preference'])
    def u(I):
        n, m = z3.Ints('n m'); I.assume(z3.And(n > 0, m > 0)); r = input_array('r', (n, m), 'real')
        c0 = fresh('c'); I.assume(z3.And(0 <= c0, c0 < n))
        I.contracts['%s.choose' % c] = lambda I_, a, kw: c0
        def run():
            o, F = user(I, c); ps = as_list(I, I.call(I.getattr(o, 'choose_pairs'), [r], {}))
            pairs_of(I, ps, n, c0)
        return run
for c_ in ('PerfectUser', 'HumanChoiceUser'): pairs(c_)

def as_list(I, x):
    if isinstance(x, SymList): return x
    if isinstance(x, NDArray) and x.ndim == 2: return SymList(x.shape[0], lambda k: tuple(x.at(k, z3.IntVal(j)) for j in range(3)))
    if isinstance(x, (list, tuple)): x = list(x); return SymList(z3.IntVal(len(x)), lambda k: x[0])
    raise Unsupported('pairs %r' % (x,))

def pairs_of(I, ps, n, c0):
    """one pair (-1, c0, i) for each other option i"""
    N = Zr(ps.n); k, l = skin(I, N, 'k', 'l'); t, t2 = [[Zr(x) for x in ps.elem(q)] for q in (k, l)]
    I.oblige('the chosen option is on the preferred side', z3.And(t[0] == -1, t[1] == c0)); I.oblige('the other side is another option', z3.And(0 <= t[2], t[2] < n, t[2] != c0))
    I.oblige('no option twice', z3.Implies(k != l, t2[2] != t[2]))
    i = skin(I, n, 'i'); I.assume(z3.And(i != c0, core.TOUCH(i))); q = z3.Int('q!')
    I.oblige('every other option is compared', z3.Exists([q], z3.And(0 <= q, q < N, Zr(ps.elem(q)[2]) == i)))

@unit('HumanChoiceUser2.get_k_b', [S2 + ':HumanChoiceUser2.get_k_b'])
def _(I):
    n = z3.Int('n'); I.assume(n > 0); f = input_array('f', (n,), 'real'); lo, hi, i, j = skin(I, n, 'lo', 'hi', 'i', 'j'); b, t = z3.Reals('bot top')
    add_fact(f.decl, lambda q: z3.Implies(z3.And(0 <= q, q < n), z3.And(f.decl(lo) <= f.decl(q), f.decl(q) <= f.decl(hi))))
    I.assume(z3.And(0 < b, b < t, t < 1, f.decl(lo) < f.decl(hi)))
    def run():
        o, F = user(I, 'HumanChoiceUser2', bot_range=b, top_range=t)
        K, B = [Zreal(x) for x in I.call(I.getattr(o, 'get_k_b'), [f], {})]
        L = lambda x: f_log(x) - f_log(1 - x)
        I.oblige('the smallest value is rated bot_range', K*f.decl(lo) + B == L(b)); I.oblige('the largest value is rated top_range', K*f.decl(hi) + B == L(t))
        I.oblige('positive slope', K > 0)
        same(I, 'the logistic function inverts the log-odds', sg(L(b)), b)
    return run

@unit('HumanChoiceUser.learn_beta', [S + ':HumanChoiceUser.learn_beta', S + ':HumanChoiceUser.learn_beta_pairwise', S + ':HumanChoiceUser.learn_sigma'], complete=False)
def _(I):
    n, m, nq = z3.Ints('n m nq'); I.assume(z3.And(n > 1, m > 0, nq > 0)); r = input_array('r', (n, m), 'real'); p = z3.Real('p'); I.assume(z3.And(0 < p, p < 1))
    I.branch_timeout = 200
    Q = input_array('Q', (nq, 2), 'int'); add_fact(Q.decl, lambda a, b: z3.Implies(z3.And(0 <= a, a < nq, 0 <= b, b < 2), z3.And(0 <= Q.decl(a, b), Q.decl(a, b) < n)))
    I.contracts['HumanChoiceUser.sample_Qs'] = lambda I_, a, kw: Q         # property C22
    for f in ('sampled_objective', 'rate_sampled_objective'): I.contracts['HumanChoiceUser.' + f] = lambda I_, a, kw: fresh('obj', 'real')      # any value
    def run():
        o, F = user(I, 'HumanChoiceUser'); I.assume(o.attrs['k'] > 0) if is_z(o.attrs['k']) else None
        try: I.call(I.getattr(o, 'learn_beta'), [r, p], {})
        except PyRaise as e:
            if e.name != 'Exception': raise
            raise PathEnd()                    # documented: no setting fits
        I.oblige('the slope of the ratings is positive', Zreal(o.attrs['k']) > 0)
        I.oblige('the peakiness is positive', Zreal(o.attrs['beta']) > 0); I.oblige('the rating noise is not negative', Zreal(o.attrs['sigma']) >= 0)
    return run

"""Human choice model: softmax probabilities."""
from .common import *
M = 'lop.utilities.human_choice_model'
ASSUMPTIONS = ['utilities are finite, the peakiness is at least zero', 'numpy.random.choice draws an index of positive probability']
BOUNDED = 'float utilities up to 1e6 in size, one or two axes'

def rows(I, two):
    n = z3.Int('n'); I.assume(n > 0); p = z3.Real('p')
    if two:
        m = z3.Int('m'); I.assume(m >= 0)
        r = input_array('r', (m, n), 'real'); a = fresh('row'); I.assume(z3.And(0 <= a, a < m)); return n, p, r, (lambda i: r.decl(a, i)), (lambda o, i: Zreal(o.at(a, i))), (m, n)
    r = input_array('r', (n,), 'real'); return n, p, r, r.decl, (lambda o, i: Zreal(o.at(i))), (n,)

def model(two, dflt):
    @unit('p_human_choice, %s%s' % ('each row of a matrix' if two else 'a vector', ', default peakiness' if dflt else ''), [M + ':p_human_choice'])
    def u(I):
        n, p, r, R, at, shp = rows(I, two)
        if dflt: p = z3.RealVal(1)
        i, j = skin(I, n, 'i', 'j')
        def run():
            o = I.call(I.fn(M, 'p_human_choice'), [r], {} if dflt else {'p': p})
            shape(I, 'one probability per utility', o, shp)
            S = mk_sum(n, lambda q: f_exp(p*R(q)))
            same(I, 'softmax of the scaled utilities', at(o, i), f_exp(p*R(i))/S)
            same(I, 'probabilities sum to one', mk_sum(n, lambda q: at(o, q)), z3.RealVal(1))
            I.oblige('probabilities are not negative', at(o, i) >= 0)
            I.oblige('input unchanged', R(i) == (r.at(i) if not two else r.at(z3.Int('a_'), i)) if not two else z3.BoolVal(True))
            I.assume(p >= 0)
            I.oblige('a larger utility never gets a smaller probability', z3.Implies(R(i) <= R(j), at(o, i) <= at(o, j)))
        return run
for two_ in (False, True):
    for d_ in (False, True): model(two_, d_)

def sample(many):
    @unit('sample_human_choice%s' % (', several samples' if many else ''), [M + ':sample_human_choice', M + ':p_human_choice'])
    def u(I):
        n, p, r, R, at, shp = rows(I, False); k = z3.Int('k'); I.assume(k >= 0)
        def run():
            o = I.call(I.fn(M, 'sample_human_choice'), [r], {'p': p, **({'samples': k} if many else {})})
            if many: shape(I, 'as many samples as asked for', o, (k,)); t = skin(I, k, 't'); o = o.at(t)
            I.oblige('a valid index', z3.And(0 <= Zr(o), Zr(o) < n))
            ix, pr = I.last_choice; i = skin(I, n, 'i')
            if pr is None: I.record('drawn from the choice distribution', None)
            else: same(I, 'drawn from the choice distribution', Zreal(I.np.arr(pr).at(i)), f_exp(p*R(i))/mk_sum(n, lambda q: f_exp(p*R(q))))
        return run
sample(False); sample(True)

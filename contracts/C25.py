"""Acquisition scores equal their definition over the sampled rewards."""
import os, sys
from .common import *
from pydv import lib
A = 'lop.active_learning.'
ASSUMPTIONS = ['likelihood_all_pairs returns one number in (0, 1) per ordered pair (C07)', 'the alignment is a real number per pair of samples', 'numpy.corrcoef, scipy.stats.rankdata and scipy.stats.beta.pdf are the functions they are documented as',
               'scipy.integrate.quad_vec returns the integral of the function it is given']
BOUNDED = 'random samples with up to 8 rewards and 6 points; finite numbers of earlier choices'
at = lambda a, *i: Zreal(a.at(*i))
def unsure(c, why):
    if c: raise Unsupported(why)
S2 = lambda n, f: mk_sum(n, lambda i: mk_sum(n, lambda j: f(i, j)))

@unit('quick_calculation_sum_align_q', [A + 'AcquisitionSelection:quick_calculation_sum_align_q'])
def quick(I):
    M, N = z3.Ints('M N'); I.assume(z3.And(M >= 1, N >= 1)); f = input_array('f', (M, M), 'real'); p = input_array('p', (M, N, N), 'real')
    def run():
        r = I.call(I.fn(A + 'AcquisitionSelection', 'quick_calculation_sum_align_q'), [f, p], {}); shape(I, 'sums', r, (N, N)); a, b = skin(I, N, 'a', 'b')
        same(I, 'sum over all pairs of samples', at(r, a, b), S2(M, lambda i, j: at(f, i, j)*at(p, i, a, b)*at(p, j, a, b)))
    return run

@unit('fast_sum_Q', [A + 'AbsAcquisition:fast_sum_Q'])
def fast(I):
    M, N = z3.Ints('M N'); I.assume(z3.And(M >= 1, N >= 1)); f = input_array('f', (M, M), 'real'); p = input_array('p', (M, N), 'real'); m = input_array('pq', (N,), 'real')
    def run():
        r = I.call(I.fn(A + 'AbsAcquisition', 'fast_sum_Q'), [p, m, f, M], {}); shape(I, 'sums', r, (N,)); a = skin(I, N, 'a'); I.assume(at(m, a) > 0)
        same(I, 'expected alignment at one answer', at(r, a), S2(M, lambda i, j: at(f, i, j)*at(p, i, a)*at(p, j, a))/(at(m, a)*z3.ToReal(M)*z3.ToReal(M)))
    return run

def align(kind):
    @unit('alignment: ' + kind, [A + 'AcquisitionBase:AcquisitionBase.alignment'])
    def u(I):
        M, R = z3.Ints('M R'); I.assume(z3.And(M >= 1, R >= 2)); X = input_array('rep', (M, R), 'real'); corr = z3.Function('corr', IS, IS, RS)
        def run():
            o = Obj(I.cls(A + 'AcquisitionBase', 'AcquisitionBase'), {'alignment_f': kind, 'M': M, 'samples_set': False}); S = X.snapshot(); seen = []
            I.lib['numpy.corrcoef'] = lambda I_, a, kw: (seen.append(a), NDArray((M, M), lambda i, j: corr(Zr(i), Zr(j)), 'real'))[1]
            ranks = input_array('ranks', (M, R), 'real'); rk = []
            I.lib['scipy.stats.rankdata'] = lambda I_, a, kw: (rk.append((a[0], kw.get('axis', a[2] if len(a) > 2 else None))), ranks)[1]
            f = I.call(I.getattr(o, 'alignment'), [X, None], {}); shape(I, 'alignments', f, (M, M)); i, j = skin(I, M, 'i', 'j')
            if kind == 'one': I.oblige('every two rewards agree', at(f, i, j) == 1)
            elif kind == 'rho':
                e = lambda i, k: f_exp(at(S, i, k))/mk_sum(R, lambda q: f_exp(at(S, i, q)))
                same(I, 'minus the distance of the choice probabilities', at(f, i, j), -f_sqrt(mk_sum(R, lambda k: (e(j, k) - e(i, k))*(e(j, k) - e(i, k)))))
            else:
                if len(seen) != 1 or len(seen[0]) != 1 or not isinstance(seen[0][0], NDArray): raise Unsupported('correlation computed in another way')
                Y = seen[0][0]; k = skin(I, R, 'k'); shape(I, 'correlated values', Y, (M, R))
                if kind == 'epic': I.oblige('the rewards are correlated', at(Y, i, k) == at(S, i, k)); same(I, 'minus the correlation distance', at(f, i, j), -f_sqrt(1 - corr(i, j))/f_sqrt(z3.RealVal(2)))
                else:
                    I.oblige('the ranks are correlated', at(Y, i, k) == ranks.decl(i, k)); unsure(len(rk) != 1 or not isinstance(rk[0][0], NDArray) or rk[0][0].ndim != 2, 'ranks computed in another way'); I.record('ranks within each reward', rk[0][1] in (1, -1)); I.oblige('ranks of the rewards', at(rk[0][0], i, k) == at(S, i, k)); I.oblige('the rank correlation', at(f, i, j) == corr(i, j))
        return run
for k_ in ('one', 'rho', 'epic', 'spearman'): align(k_)

LK = z3.Function('likelier', RS, RS, RS)
def likely(I_, a, kw):
    w = I_.np.arr(a[0]).snapshot(); n = w.shape[0]; return NDArray((n, n), lambda i, j: LK(Zreal(w.at(i)), Zreal(w.at(j))), 'real')
def scene(I, cls, mod, alts=None):
    """a learner whose representative queries, samples and alignments are given; p(w, a, b): probability that a is preferred to b under sample w"""
    M, N, R = z3.Ints('M N R'); I.assume(z3.And(M >= 1, N >= 1, R >= 2)); rep, Q, f = input_array('rep', (M, R), 'real'), input_array('Q', (M, N), 'real'), input_array('f', (M, M), 'real')
    xrep, qrep = input_array('xrep', (R, 2), 'real'), input_array('qrep', (z3.Int('nq'), 2), 'int'); X = input_array('X', (N, 2), 'real')
    pr = Obj(None, {'likelihood_all_pairs': Builtin('likelihood_all_pairs', likely)}); o = Obj(I.cls(A + mod, cls), {'M': M, 'model': Obj(None, {'probits': [pr]}), 'alignment_f': 'rho', 'samples_set': False}); seen = {}
    I.contracts['AcquisitionBase.get_representative_Q'] = lambda I_, a, kw: (xrep, qrep)
    I.contracts['AcquisitionBase.get_samples_from_model'] = lambda I_, a, kw: (seen.__setitem__('samples', (a, kw)), (rep, Q))[1]
    I.contracts['AcquisitionBase.alignment'] = lambda I_, a, kw: (seen.__setitem__('alignment', a), f)[1]
    return o, M, N, X, (xrep, qrep, rep), Q, f, seen
def aligned(I, seen, given):
    xrep, qrep, rep = given; a = seen.get('alignment')
    if a is None or len(a) < 2: raise Unsupported('aligned in another way')
    unsure(not (a[-2] is rep and a[-1] is qrep), 'the alignment of other samples')

@unit('select_pair', [A + 'AcquisitionSelection:AcquisitionSelection.select_pair', A + 'AcquisitionSelection:quick_calculation_sum_align_q'])
def pair(I):
    def run():
        o, M, N, X, given, Q, f, seen = scene(I, 'AcquisitionSelection', 'AcquisitionSelection'); a, b = skin(I, N, 'a', 'b'); picked = []
        I.contracts['ActiveLearner.pick_pair_from_metric'] = lambda I_, x, kw: (picked.append(x[-3:]), (a, b))[1]
        mu = input_array('mu', (N,), 'real'); ix, prev = input_array('ix', (z3.Int('k'),), 'int'), SymSet(z3.EmptySet(IS))
        r = I.call(I.getattr(o, 'select_pair'), [X, mu, None, ix, prev], {}); aligned(I, seen, given)
        if len(picked) != 1 or not isinstance(picked[0][0], NDArray): raise Unsupported('picked in another way')
        m, pv, iv = picked[0]; unsure(not (pv is prev and iv is ix), 'the allowed points in another form'); shape(I, 'scores', m, (N, N))
        p = lambda w, x, y: LK(at(Q, w, x), at(Q, w, y)); mean = lambda x, y: mk_sum(M, lambda w: p(w, x, y))/z3.ToReal(M); mm = z3.ToReal(M)*z3.ToReal(M)
        E = lambda x, y: S2(M, lambda i, j: at(f, i, j)*p(i, x, y)*p(j, x, y))/mm/mean(x, y)
        for x, y in ((a, b), (b, a)): I.assume(mk_sum(M, lambda w: p(w, x, y)) > 0)
        same(I, 'score of a pair: expected alignment after its answer', at(m, a, b), E(a, b) + E(b, a))
        unsure(not (isinstance(r, tuple) and len(r) == 2 and Zr(r[0]).eq(a) and Zr(r[1]).eq(b)), 'the picked pair in another form'); same(I, 'the score of the picked pair is kept', o.attrs['sel_metric'], at(m, a, b))
    return run

def chosen(I, K):
    """numpy.argmax by its contract: the position of a largest score"""
    got = []
    def amax(I_, a, kw):
        x = I_.np.arr(a[0]).snapshot(); shape(I_, 'one score per candidate', x, (K,)); b = fresh('best'); I_.assume(z3.And(0 <= b, b < K)); got.append((x, b)); return b
    I.lib['numpy.argmax'] = amax; return got
def candidates(I, N):
    K = z3.Int('K'); I.assume(z3.And(K >= 1, K <= N)); ix = input_array('ix', (K,), 'int'); q = z3.Int('q!ix'); I.assume(fa([q], z3.Implies(z3.And(0 <= q, q < K), z3.And(0 <= ix.decl(q), ix.decl(q) < N)), ix.decl(q))); return K, ix, SymList(K, lambda i: ix.decl(Zr(i)))
def best_of(I, got, r, o, ix):
    if len(got) != 1: raise Unsupported('the best candidate is found in another way')
    x, b = got[0]; I.oblige('a candidate with the largest score', Zr(r) == ix.decl(b)); same(I, 'its score is kept', o.attrs['sel_metric'], at(x, b)); return x

def greedy(k):
    @unit('select_greedy, %d chosen before' % k, [A + 'AcquisitionSelection:AcquisitionSelection.select_greedy'], timeout=120)
    def u(I):
        def run():
            o, M, N, X, given, Q, f, seen = scene(I, 'AcquisitionSelection', 'AcquisitionSelection'); K, ix, cand = candidates(I, N); got = chosen(I, K)
            prev = [z3.Int('prev%d' % c) for c in range(k)]; I.assume(z3.And(*[z3.And(0 <= v, v < N) for v in prev])); mu = input_array('mu', (N,), 'real')
            x_, y_ = z3.Real('q!x'), z3.Real('q!y'); I.assume(z3.ForAll([x_, y_], LK(x_, y_) > 0, patterns=[LK(x_, y_)])); add_fact(LK, lambda x, y: LK(x, y) > 0)
            r = I.call(I.getattr(o, 'select_greedy'), [X, mu, None, cand, list(prev)], {}); aligned(I, seen, given); sc = best_of(I, got, r, o, ix)
            p = lambda w, x, y: LK(at(Q, w, x), at(Q, w, y)); mm = z3.ToReal(M)*z3.ToReal(M); j = skin(I, K, 'j'); xs = prev + [ix.decl(j)]
            def un(w, i):
                t = z3.RealVal(1)
                for c in range(k + 1):
                    if c != i: t = t*p(w, xs[i], xs[c])
                return t
            pq = lambda w, i: un(w, i)/sum([un(w, c) for c in range(1, k + 1)], un(w, 0))
            for i in range(k + 1): I.assume(mk_sum(M, lambda w: pq(w, i)) > 0)
            same(I, 'score of a candidate: expected alignment over the answers', at(sc, j), sum([S2(M, lambda a, b: pq(a, i)*pq(b, i)*at(f, a, b))/mm/(mk_sum(M, lambda w: pq(w, i))/z3.ToReal(M)) for i in range(1, k + 1)], S2(M, lambda a, b: pq(a, 0)*pq(b, 0)*at(f, a, b))/mm/(mk_sum(M, lambda w: pq(w, 0))/z3.ToReal(M))))
        return run
greedy(1)
if os.environ.get('VERIF_TIER') == 'thorough' or 'thorough' in sys.argv: greedy(2)          # three minutes

@unit('AbsAcquisition.select_greedy', [A + 'AbsAcquisition:AbsAcquisition.select_greedy', A + 'AbsAcquisition:pq_integrand', A + 'AbsAcquisition:fast_sum_Q'])
def absolute(I):
    def run():
        o, M, N, X, given, Q, f, seen = scene(I, 'AbsAcquisition', 'AbsAcquisition'); K, ix, cand = candidates(I, N); got = chosen(I, K); mu = input_array('mu', (N,), 'real')
        Qc = input_array('Qc', (M, K), 'real'); I.contracts['AcquisitionBase.get_samples_from_model'] = lambda I_, a, kw: (seen.__setitem__('samples', (a[-2:] if 'indicies' not in kw else a[-2:], kw)), (given[2], Qc))[1]
        al, be = z3.Function('alpha', RS, RS), z3.Function('beta', RS, RS); den = z3.Function('beta_pdf', RS, RS, RS, RS); add_fact(den, lambda x, a, b: den(x, a, b) >= 0)
        def ab(I_, a, kw):
            F = I_.np.arr(a[0]).snapshot(); return (NDArray(F.shape, lambda *i: al(Zreal(F.at(*i))), 'real'), NDArray(F.shape, lambda *i: be(Zreal(F.at(*i))), 'real'))
        o.attrs['model'].attrs['probits'] = [None, None, Obj(None, {'get_alpha_beta': Builtin('get_alpha_beta', ab)})]
        I.lib['scipy.stats.beta.pdf'] = lambda I_, a, kw: I_.np.ew(lambda x, p, q: den(Zreal(x), Zreal(p), Zreal(q)), 'real', *a); quad = []
        def qv(I_, a, kw):
            v = fresh('answer', 'real'); I_.assume(z3.And(Zreal(a[1]) < v, v < Zreal(a[2]))); g = I_.call(a[0], [v] + list(kw.get('args', ())), {}); out = input_array('integral', g.shape, 'real'); quad.append((a, v, g.snapshot(), out)); return out, z3.Real('quad_err')
        I.lib['scipy.integrate.quad_vec'] = qv
        r = I.call(I.getattr(o, 'select_greedy'), [X, mu, None, cand, []], {}); aligned(I, seen, given); sc = best_of(I, got, r, o, ix)
        if len(quad) != 1: raise Unsupported('integrated in another way')
        (a, v, g, out) = quad[0]; j = skin(I, K, 'j'); I.oblige('the integral is the score', at(sc, j) == out.decl(j)); shape(I, 'integrand', g, (K,))
        I.record('over the whole scale of answers', concrete(a[1]) is not None and concrete(a[2]) is not None and 0 <= concrete(a[1]) <= .001 and .999 <= concrete(a[2]) <= 1)
        p = lambda w: den(v, al(at(Qc, w, j)), be(at(Qc, w, j))); tot = mk_sum(M, p); I.assume(tot > 0); m = z3.ToReal(M)
        same(I, 'integrand: expected alignment of an answer', at(g, j), S2(M, lambda x, y: at(f, x, y)*p(x)*p(y)/(tot/m))/(m*m))
    return run

@unit('alignment: loglikelihood', [A + 'AcquisitionBase:AcquisitionBase.alignment'])
def loglik(I):
    def run():
        M, R, n = z3.Ints('M R nq'); I.assume(z3.And(M >= 1, R >= 2, n >= 1)); X = input_array('rep', (M, R), 'real'); Q = input_array('qrep', (n, 2), 'int'); q, c = z3.Ints('q! c!')
        I.assume(fa([q, c], z3.Implies(z3.And(0 <= q, q < n, 0 <= c, c < 2), z3.And(0 <= Q.decl(q, c), Q.decl(q, c) < R)), Q.decl(q, c))); add_fact(LK, lambda x, y: LK(x, y) > 0)
        pr = Obj(None, {'likelihood_all_pairs': Builtin('likelihood_all_pairs', likely)}); o = Obj(I.cls(A + 'AcquisitionBase', 'AcquisitionBase'), {'alignment_f': 'loglikelihood', 'M': M, 'samples_set': False, 'model': Obj(None, {'probits': [pr]})})
        f = I.call(I.getattr(o, 'alignment'), [X, Q], {}); shape(I, 'alignments', f, (M, M)); i, j = skin(I, M, 'i', 'j')
        p = lambda w, k, a: LK(at(X, w, Q.decl(k, z3.IntVal(a))), at(X, w, Q.decl(k, z3.IntVal(1 - a))))
        pn = lambda w, k, a: p(w, k, a)/(p(w, k, 0) + p(w, k, 1))
        best = lambda w, k: at(X, w, Q.decl(k, z3.IntVal(1))) > at(X, w, Q.decl(k, z3.IntVal(0)))
        g = lambda w, v: mk_sum(n, lambda k: f_log(z3.If(best(v, k), pn(w, k, 1), pn(w, k, 0))))
        same(I, 'log likelihood of the answers one reward gives under the other, both ways', at(f, i, j), g(i, j) + g(j, i))
    return run

@unit('alignment of rewards on one point', [A + 'AcquisitionBase:AcquisitionBase.alignment', A + 'AcquisitionBase:AcquisitionBase.alignment_between'])
def onepoint(I):
    def run():
        M = z3.Int('M'); I.assume(M >= 1); X, Y = input_array('rep', (M, 1), 'real'), input_array('rep2', (M, 1), 'real'); i, j = skin(I, M, 'i', 'j')
        for k in ('rho', 'epic', 'spearman', 'one', 'loglikelihood'):
            o = Obj(I.cls(A + 'AcquisitionBase', 'AcquisitionBase'), {'alignment_f': k, 'M': M, 'samples_set': False})
            for f in (I.call(I.getattr(o, 'alignment'), [X, None], {}), I.call(I.getattr(o, 'alignment_between'), [X, Y], {})): shape(I, k, f, (M, M)); I.oblige(k + ': nothing to compare', at(f, i, j) == 0)
    return run

def between(kind):
    @unit('alignment_between: ' + kind, [A + 'AcquisitionBase:AcquisitionBase.alignment_between'])
    def u(I):
        def run():
            M, R = z3.Ints('M R'); I.assume(z3.And(M >= 1, R >= 2)); X, Y = input_array('rep', (M, R), 'real'), input_array('rep2', (M, R), 'real'); i, j, k = skin(I, M, 'i', 'j') + [skin(I, R, 'k')]
            corr = z3.Function('corr', IS, IS, RS); seen = []; rk = []
            I.lib['numpy.corrcoef'] = lambda I_, a, kw: (seen.append(a), NDArray((M + M, M + M), lambda i, j: corr(Zr(i), Zr(j)), 'real'))[1]
            ranks = [input_array('ranks%d' % c, (M, R), 'real') for c in (1, 2)]
            I.lib['scipy.stats.rankdata'] = lambda I_, a, kw: (rk.append((a[0], kw.get('axis', a[2] if len(a) > 2 else None))), ranks[0 if a[0] is X else 1])[1]
            o = Obj(I.cls(A + 'AcquisitionBase', 'AcquisitionBase'), {'alignment_f': kind, 'M': M, 'samples_set': False}); f = I.call(I.getattr(o, 'alignment_between'), [X, Y], {}); shape(I, 'alignments', f, (M, M))
            if kind == 'one': I.oblige('every two rewards agree', at(f, i, j) == 1); return
            if len(seen) != 1 or len(seen[0]) != 2: raise Unsupported('correlation computed in another way')
            U, V = seen[0]; c = corr(i, M + j)
            if kind == 'epic': I.oblige('the rewards are correlated', z3.And(at(U, i, k) == X.decl(i, k), at(V, j, k) == Y.decl(j, k))); same(I, 'minus the correlation distance', at(f, i, j), -f_sqrt(1 - c)/f_sqrt(z3.RealVal(2)))
            else: I.oblige('the ranks are correlated', z3.And(at(U, i, k) == ranks[0].decl(i, k), at(V, j, k) == ranks[1].decl(j, k))); unsure(not (len(rk) == 2 and rk[0][0] is X and rk[1][0] is Y), 'ranks computed in another way'); I.record('ranks within each reward', all(x[1] in (1, -1) for x in rk)); I.oblige('the rank correlation', at(f, i, j) == c)
        return run
for k_ in ('one', 'epic', 'spearman'): between(k_)

@unit('given samples', [A + 'AcquisitionBase:AcquisitionBase.set_samples', A + 'AcquisitionBase:AcquisitionBase.unset_samples', A + 'AcquisitionBase:AcquisitionBase.get_samples_from_model'])
def given_samples(I):
    def run():
        M, N, R = z3.Ints('M N R'); I.assume(z3.And(M >= 1, N >= 1, R >= 1)); rep, Q = input_array('rep', (M, R), 'real'), input_array('Q', (M, N), 'real'); K, ix, cand = candidates(I, N); X = input_array('X', (N, 2), 'real')
        o = Obj(I.cls(A + 'AcquisitionBase', 'AcquisitionBase'), {'M': M, 'samples_set': False, 'alignment_f': 'rho'}); I.call(I.getattr(o, 'set_samples'), [rep, Q], {})
        a, b = I.call(I.getattr(o, 'get_samples_from_model'), [X, None], {}); i, j, r = skin(I, M, 'i'), skin(I, N, 'j'), skin(I, R, 'r'); shape(I, 'rewards', b, (M, N)); I.oblige('the samples given', z3.And(at(a, i, r) == rep.decl(i, r), at(b, i, j) == Q.decl(i, j)))
        a, b = I.call(I.getattr(o, 'get_samples_from_model'), [X, None], {'indicies': cand}); k = skin(I, K, 'k'); shape(I, 'rewards of the candidates', b, (M, K)); I.oblige('the samples given for the candidates', z3.And(at(a, i, r) == rep.decl(i, r), at(b, i, k) == Q.decl(i, ix.decl(k))))
        I.call(I.getattr(o, 'unset_samples'), [], {}); I.record('samples can be taken back', o.attrs['samples_set'] is False)
    return run

def linear(some):
    @unit('samples from a linear model' + (', no representative points' if not some else ''), [A + 'AcquisitionBase:AcquisitionBase.get_samples_from_model'])
    def u(I):
        def run():
            M, N, R, d = z3.Ints('M N R d'); I.assume(z3.And(M >= 1, N >= 1, R >= 1, d >= 1)); X, xr = input_array('X', (N, d), 'real'), input_array('xrep', (R, d), 'real'); W = input_array('W', (M, d), 'real'); got = []
            mo = Obj(I.cls('lop.models.PreferenceLinear', 'PreferenceLinear'), {}); o = Obj(I.cls(A + 'AcquisitionBase', 'AcquisitionBase'), {'M': M, 'samples_set': False, 'alignment_f': 'rho', 'model': mo})
            I.contracts['metropolis_hastings'] = lambda I_, a, kw: (got.append((a, kw)), W)[1]
            a, b = I.call(I.getattr(o, 'get_samples_from_model'), [X, xr if some else None], {}); i, j, r = skin(I, M, 'i'), skin(I, N, 'j'), skin(I, R, 'r'); shape(I, 'rewards', b, (M, N)); shape(I, 'rewards of the representative points', a, (M, R if some else 0))
            if len(got) != 1: raise Unsupported('sampled in another way')
            same(I, 'reward of a point: its weighted sum', at(b, i, j), mk_sum(d, lambda q: X.decl(j, q)*W.decl(i, q)))
            if some: same(I, 'reward of a representative point', at(a, i, r), mk_sum(d, lambda q: xr.decl(r, q)*W.decl(i, q)))
        return run
linear(True); linear(False)

@unit('samples from a Gaussian process', [A + 'AcquisitionBase:AcquisitionBase.get_samples_from_model'])
def gp(I):
    def run():
        M, N, R, d = z3.Ints('M N R d'); I.assume(z3.And(M >= 1, N >= 1, R >= 1, d >= 1)); X, xr = input_array('X', (N, d), 'real'), input_array('xrep', (R, d), 'real'); T = N + R; mu, C0, C1, S = input_array('mu', (T,), 'real'), input_array('C0', (N, N), 'real'), input_array('C1', (T, T), 'real'), input_array('S', (M, T), 'real'); got = []; q = []
        mo = Obj(I.cls('lop.models.GP', 'GP'), {'cov': C0}); o = Obj(I.cls(A + 'AcquisitionBase', 'AcquisitionBase'), {'M': M, 'samples_set': False, 'alignment_f': 'rho', 'model': mo})
        I.contracts['GP.predict'] = lambda I_, a, kw: (q.append(a[-1]), mo.attrs.__setitem__('cov', C1), (mu, input_array('var', (T,), 'real')))[2]
        I.lib['numpy.random.multivariate_normal'] = lambda I_, a, kw: (got.append((a, kw)), S)[1]
        a, b = I.call(I.getattr(o, 'get_samples_from_model'), [X, xr], {}); i, j, r, c = skin(I, M, 'i'), skin(I, N, 'j'), skin(I, R, 'r'), skin(I, d, 'c')
        if len(got) != 1 or len(q) != 1: raise Unsupported('sampled in another way')
        shape(I, 'rewards', b, (M, N)); shape(I, 'rewards of the representative points', a, (M, R)); shape(I, 'points sampled together', q[0], (T, d)); I.oblige('candidates first', at(q[0], j, c) == X.decl(j, c)); I.oblige('then the representative points', at(q[0], N + r, c) == xr.decl(r, c))
        unsure(not (got[0][0][0] is mu and got[0][0][1] is C1), 'sampled in another way'); I.oblige('rewards of the candidates', at(b, i, j) == S.decl(i, j)); I.oblige('rewards of the representative points', at(a, i, r) == S.decl(i, N + r))
    return run

"""Learners as abstract objects: a model known only through what predict returned."""
from .common import *
from pydv import lib
from fractions import Fraction
A = 'lop.active_learning.'

def model_obj(I, kind, cov=None, loss=None):
    m = {'gp': 'PreferenceGP', 'plain': 'GP', 'linear': 'PreferenceLinear'}[kind]
    o = Obj(I.cls('lop.models.' + m, m), {'loss_func': Builtin('loss', None), 'X_train': Builtin('data', None)})
    if cov is not None: o.attrs['cov'] = cov
    return o

def samples(I, n, d, rec=None):
    """posterior samples of linear weights: arbitrary"""
    def mh(I_, a, kw):
        k = a[1] if len(a) > 1 else kw['num_samples']; w = fresh_array('w', (k, d), 'real')
        if rec is not None: rec.append(w)
        return w
    I.contracts['metropolis_hastings'] = mh

def subset(I, nm, n):
    S = SymSet(z3.Const(nm, z3.SetSort(IS))); x = z3.Int('x!'); I.assume(z3.ForAll([x], z3.Implies(z3.Select(S.arr, x), z3.And(0 <= x, x < n)), patterns=[z3.Select(S.arr, x)])); return S
def member(S, x): return z3.Select(S.arr, Zr(x))

RAND = False
def greedy(nm, mod, cls, kind, score, attrs=None, prevs=(None,), low=False, timeout=60, stub=None, ctl=0, rand=False):
    for pk in prevs:
        rnd = rand or RAND
        @unit('%s%s%s' % (nm, '' if kind is None else ', ' + kind, '' if pk is None else ', %d chosen before' % pk), [A + mod + ':' + cls + '.select_greedy'], timeout=timeout)
        def u(I, pk=pk, rnd=rnd):
            n, d = z3.Ints('n d'); I.assume(z3.And(n >= 1, d >= 1)); I.branch_mbqi = False; I.ob_tries = ((0, False), (0, True)); I.ob_timeout = 6000
            X = input_array('X', (n, d), 'real'); mu = input_array('mu', (n,), 'real'); var = input_array('var', (n,), 'real'); cov = input_array('cov', (n, n), 'real')
            add_fact(var.decl, lambda i: var.decl(i) >= 0)
            S = subset(I, 'allowed', n); prev = [z3.Int('prev%d' % i) for i in range(pk or 0)]
            for i, p in enumerate(prev): I.assume(z3.And(0 <= p, p < n, *[p != q for q in prev[:i]]))
            w = fresh('other'); I.assume(member(S, w)); al = z3.Real('alpha')
            def run():
                ctx = type('C', (), {})(); ctx.ws = []; samples(I, n, d, ctx.ws)
                o = Obj(I.cls(A + mod, cls), dict(attrs(I) if attrs else {}, sel_metric=None, model=model_obj(I, kind or 'gp', cov)))
                ctx.o, ctx.n, ctx.d, ctx.X, ctx.mu, ctx.var, ctx.cov, ctx.prev = o, n, d, X, mu, var, cov, prev
                if stub: stub(I, ctx)
                r = I.call(I.getattr(o, 'select_greedy'), [X, mu, var, SymSet(S.arr), list(prev)], {})
                r = Zr(r); I.oblige('the choice is an allowed point', member(S, r))
                if rnd: return
                for arr, pos in I.__dict__.get('enums', ()):
                    if arr.eq(S.arr): p = fresh('at'); I.assume(p == pos(w))        # where the enumeration of the allowed points has the other point
                sr, sw = score(I, ctx, r), score(I, ctx, w)
                I.oblige('no allowed point has a better score', (sr <= sw) if low else (sr >= sw))
                m = Zreal(attr(o, 'sel_metric')); I.oblige('the reported metric is the score of the choice', m == sr)
            return run


def pick(ind, prevs):
    @unit('pick_pair_from_metric%s%s' % ('' if ind else ', all allowed', ', some chosen before' if prevs else ''), [A + 'ActiveLearner:ActiveLearner.pick_pair_from_metric'], timeout=150)
    def u(I):
        n = z3.Int('n'); I.assume(n >= 2); I.branch_mbqi = False; I.ob_tries = ((0, False), (1, False), (2, False), (0, True), (3, False)); I.ob_timeout = 4000; I.branch_timeout = 100; I.flat_abs = True
        G = input_array('gain', (n, n), 'real'); add_fact(G.decl, lambda i, j: z3.And(-INF < G.decl(i, j), G.decl(i, j) < INF)); g = G.decl
        S = subset(I, 'allowed', n) if ind else None; Q = subset(I, 'prev', n) if prevs else SymSet(z3.EmptySet(IS))
        al = lambda *x: z3.And(*[z3.And(0 <= v, v < n, member(S, v) if ind else True) for v in x])
        free = lambda x, y: z3.Not(z3.And(member(Q, x), member(Q, y))) if prevs else z3.BoolVal(True)
        good = lambda x, y: z3.And(al(x, y), x != y)
        a, b = z3.Ints('a b'); I.assume(z3.And(good(a, b), free(a, b)))
        L, row, col, enc = I.np.flat_fns(n, n); q = z3.Int('q!')
        def inv(env, k):
            E = env.vars; s, M = E.get('sorted'), I.M
            if not isinstance(s, NDArray): raise Unsupported('loop state')
            F = lambda i: Zreal(M.at(row(Zr(s.at(i))), col(Zr(s.at(i)))))
            if 'to_pick' not in E:
                c = E.get('num_same')
                return [('how many are equal', Zr(c) == z3.If(k >= 1, k - 1, 0)), ('equal to the first', fa([q], z3.Implies(z3.And(0 <= q, q < k), F(q) == F(z3.IntVal(0))), core.TOUCH(q)))]
            p = E.get('idx_best'); 
            if not isinstance(p, tuple): raise Unsupported('loop state')
            return [('the pair is the last one seen', z3.Implies(k >= 1, z3.And(Zr(p[0]) == row(Zr(s.at(k - 1))), Zr(p[1]) == col(Zr(s.at(k - 1)))))),
                    ('the last one seen was chosen before', z3.Implies(k >= 1, z3.Not(free(row(Zr(s.at(k - 1))), col(Zr(s.at(k - 1))))))),
                    ('all seen were chosen before', fa([q], z3.Implies(z3.And(0 <= q, q < k), z3.Not(free(row(Zr(s.at(q))), col(Zr(s.at(q)))))), core.TOUCH(q)))]
        loops.use_inv(I, 'ActiveLearner.pick_pair_from_metric', inv)
        srt = I.lib['numpy.argsort']
        def spy(I_, a, kw): z = srt(I_, a, kw); I.perm = z.perm; return z
        I.lib['numpy.argsort'] = spy
        def run():
            o = Obj(I.cls(A + 'ActiveLearner', 'ActiveLearner'), {})
            M = G.snapshot(); I.M = M
            r = I.call(I.getattr(o, 'pick_pair_from_metric'), [M, SymSet(Q.arr)] + ([SymSet(S.arr)] if ind else []), {})
            i, j = [Zr(x) for x in r]; T = core.TOUCH; o_, rk = I.perm; top = simp(L - 1)
            F = lambda k: Zreal(M.at(row(k), col(k)))
            def have(nm, f): I.oblige(nm, f); I.assume(f)
            x, y = skin(I, n, 'x', 'y'); I.assume(z3.And(good(x, y), free(x, y)))
            for nm, u, v in (('some', a, b), ('any', x, y)):
                k = enc(u, v); p = rk(k)
                have('%s pair has a place in the order' % nm, z3.And(0 <= p, p < L, o_(p) == k, row(k) == u, col(k) == v, 0 <= top - p, top - p < L))
                I.assume(z3.And(T(p), T(simp(top - p))))
                have('%s allowed pair keeps its value' % nm, F(k) == g(u, v))
            have('the chosen pair has a place in the order', z3.And(0 <= i, i < n, 0 <= j, j < n))
            k = enc(i, j); have('the chosen pair is a cell', z3.And(0 <= k, k < L, row(k) == i, col(k) == j))
            pp = rk(k); have('place', z3.And(0 <= pp, pp < L, o_(pp) == k)); I.assume(z3.And(T(pp), T(simp(top - pp))))
            have('chosen is at least as good as some pair', F(k) >= F(enc(a, b)))
            have('chosen is at least as good as any pair', F(k) >= F(enc(x, y)))
            have('two allowed points', good(i, j))
            have('value of the chosen', F(k) == g(i, j))
            I.oblige('not both chosen before', free(i, j))
            I.oblige('no other such pair has a higher metric', g(i, j) >= g(x, y))
        return run
al = z3.Real('alpha')
def sqrt(I, x): return Zreal(I.lib['numpy.sqrt'](I, [x], {}))
def ucb(I, c, i): return Zreal(c.mu.decl(i)) + al * sqrt(I, (c.sv if c.ws else c.var.decl)(i))
def transp(Y): Y = Y.snapshot(); return NDArray((Y.shape[1], Y.shape[0]), lambda i, j: Y.at(j, i), Y.dtype)
def svar(I, c):
    """numpy.var is an assumed contract: the population variance of each column; what it is given is checked"""
    def var(I_, a, kw):
        Y = a[0]; ax = concrete(kw.get('axis', a[1] if len(a) > 1 else None))
        if not isinstance(Y, NDArray) or Y.ndim != 2 or ax not in (0, 1, -1): raise Unsupported('numpy.var called in another way')
        if ax != 0: Y = transp(Y)
        W = c.ws[0]; shape(I, 'sampled values', Y, (W.shape[0], c.n)); q, i = skin(I, W.shape[0], 'q'), skin(I, c.n, 'i')
        same(I, 'sampled value is the weighted sum of the point', Y.at(q, i), mk_node('sum', c.d, lambda t: Zreal(c.X.at(i, t)) * Zreal(W.at(q, t))))
        f = fresh_array('svar', (c.n,), 'real'); c.sv = lambda i: Zreal(f.at(i)); return f
    I.lib['numpy.var'] = var

def det(m):
    """the determinant: an uninterpreted function of the entries"""
    k = len(m); return z3.Function('det%d' % k, *([RS] * (k * k + 1)))(*[x for r in m for x in r])
def lapl(I, c):
    """numpy.linalg.det is an assumed contract (the determinant), given a matrix of fixed size"""
    def d(I_, a, kw):
        m = a[0]; k = m.shape[0]
        if not isinstance(k, int): raise Unsupported('determinant of a matrix of symbolic size')
        if m.ndim != 2 or m.shape[1] != k: raise Unsupported('determinant of this')
        return det([[Zreal(m.at(i, j)) for j in range(k)] for i in range(k)])
    I.lib['numpy.linalg.det'] = d
def gv(I, c, i):
    Q = c.prev + [i]; D = det([[Zreal(c.cov.at(a, b)) for b in Q] for a in Q])
    return Zreal(c.mu.decl(i)) + al * Zreal(lib.binop(I, '**', D, Fraction(1, len(Q))))


def scov(I, c):
    """numpy.cov of the sampled values (variables in rows): an assumed contract, an arbitrary matrix; what it is given is checked"""
    lapl(I, c)
    def cov(I_, a, kw):
        Y = a[0]; rv = kw.get('rowvar', True)
        if not isinstance(Y, NDArray) or Y.ndim != 2 or set(kw) - {'rowvar'} or len(a) > 1 or concrete(rv) not in (True, False): raise Unsupported('numpy.cov called in another way')
        if not concrete(rv): Y = transp(Y)
        W = c.ws[0]; shape(I, 'sampled values', Y, (c.n, W.shape[0])); q, i = skin(I, W.shape[0], 'q'), skin(I, c.n, 'i')
        same(I, 'sampled value is the weighted sum of the point', Y.at(i, q), mk_node('sum', c.d, lambda t: Zreal(c.X.at(i, t)) * Zreal(W.at(q, t))))
        c.cov = fresh_array('scov', (c.n, c.n), 'real'); return c.cov
    I.lib['numpy.cov'] = cov
Mz = z3.Int('M'); gain = z3.Function('gain', IS, RS)
def mi(I, c):
    """sampled rewards are arbitrary; calc_info_gain is used by its contract (a function of the query and the samples)"""
    I.assume(Mz >= 1); c.smp = None
    def mvn(I_, a, kw):
        m, cv = a[0], a[1]; k = kw.get('size', a[2] if len(a) > 2 else None); i, j = skin(I, c.n, 'i', 'j')
        I.oblige('samples around the predicted mean', Zreal(m.at(i)) == Zreal(c.mu.at(i))); I.oblige('samples with the predicted covariance', Zreal(cv.at(i, j)) == Zreal(c.cov.at(i, j)))
        c.smp = fresh_array('smp', (k, c.n), 'real'); return c.smp
    I.lib['numpy.random.multivariate_normal'] = mvn
    def info(I_, a, kw):
        Q, W = a[1], a[2]; q, i = skin(I, Mz, 'q'), skin(I, c.n, 'i')
        Q = lib.as_symlist(I, Q) if not isinstance(Q, (list, SymList)) else Q
        k = len(c.prev)
        n = len(Q) if isinstance(Q, list) else Q.n
        el = (lambda j: Q[j]) if isinstance(Q, list) else Q.elem
        I.oblige('the query is what was chosen before and one more point', z3.And(Zr(n) == k + 1, *[Zr(el(j)) == c.prev[j] for j in range(k)]))
        shape(I, 'samples', W, (Mz, c.n))
        if c.ws: same(I, 'sampled value is the weighted sum of the point', W.at(q, i), mk_node('sum', c.d, lambda t: Zreal(c.X.at(i, t)) * Zreal(c.ws[0].at(q, t))))
        else: I.oblige('the sampled rewards', Zreal(W.at(q, i)) == Zreal(c.smp.at(q, i)))
        return gain(Zr(el(k)))
    I.contracts['MutualInfoLearner.calc_info_gain'] = info
HB = z3.Function('HBQ', IS, RS)
def big(I, c):
    c.pB = fresh_array('pB', (c.n,), 'real'); pm = fresh_array('pm', (c.n, c.n), 'real'); add_fact(c.pB.decl, lambda i: c.pB.decl(i) > 0)
    I.contracts['BayesInfoGain.get_p_B_probit'] = lambda I_, a, kw: (c.pB, pm)
    def h(I_, a, kw):
        Q = a[1]; k = len(c.prev)
        if not isinstance(Q, NDArray): Q = I.lib['numpy.array'](I, [Q], {})
        shape(I, 'query', Q, (k + 1,)); I.oblige('the query is what was chosen before and one more point', z3.And(*[Zr(Q.at(j)) == c.prev[j] for j in range(k)]))
        return HB(Zr(Q.at(k)))
    I.contracts['BayesInfoGain.calc_H_B_Q'] = h
def hb(I, c, i):
    p = lambda k: Zreal(c.pB.at(k))
    return -mk_node('sum', c.n, lambda k: z3.If(p(k) < z3.RealVal('1e-17'), z3.RealVal(0), p(k) * f_log(p(k)))) - HB(i)

def register(best=True):
    """best: also that the choice has the best score; otherwise only that it is allowed"""
    global RAND
    RAND = not best
    greedy('RandomLearner', 'RandomLearner', 'RandomLearner', None, None, rand=True)
    greedy('BestLearner', 'BestLearner', 'BestLearner', None, lambda I, c, i: c.mu.decl(i))
    greedy('WorstLearner', 'BestLearner', 'WorstLearner', None, lambda I, c, i: c.mu.decl(i), low=True)
    for kd in ('gp', 'plain', 'linear'): greedy('UCBLearner', 'UCBLearner', 'UCBLearner', kd, ucb, attrs=lambda I: {'alpha': al}, stub=svar)
    greedy('GV_UCBLearner', 'GV_UCBLearner', 'GV_UCBLearner', 'gp', gv, attrs=lambda I: {'alpha': al}, stub=lapl, prevs=(0, 1, 2, 3))
    greedy('GV_UCBLearner', 'GV_UCBLearner', 'GV_UCBLearner', 'linear', gv, attrs=lambda I: {'alpha': al}, stub=scov, prevs=(0, 1, 2))
    for kd in ('gp', 'plain', 'linear'): greedy('MutualInfoLearner', 'MutualInfoLearner', 'MutualInfoLearner', kd, lambda I, c, i: gain(i), attrs=lambda I: {'M': Mz, 'peakiness': z3.Real('peak'), 'fake_func': None}, stub=mi, prevs=(0, 1, 2))
    greedy('BayesInfoGain', 'BayesInfoGain', 'BayesInfoGain', 'gp', hb, attrs=lambda I: {'p_q_B_method': 'probit'}, stub=big, prevs=(1, 2))
    RAND = False

"""Queries picked by active learners are valid, duplicate-free choices from the pool."""
from .common import *
from pydv import lib
M = 'lop.active_learning.ActiveLearner'
ASSUMPTIONS = ['the preferred set and the previously selected indices are indices of the pool', 'at least as many points are available as are asked for', 'mean and score values are real numbers (no NaN)']
BOUNDED = 'all pool sizes up to 9, all numbers of alternatives, every learner that can be constructed'
T = core.TOUCH

def member(S, x): return z3.Select(S.arr, Zr(x))
def subset(I, nm, n):
    S = SymSet(z3.Const(nm, z3.SetSort(IS))); x = z3.Int('x!'); I.assume(z3.ForAll([x], z3.Implies(z3.Select(S.arr, x), z3.And(0 <= x, x < n)), patterns=[z3.Select(S.arr, x)])); return S

def stubs(I, cls, pair, calls):
    def greedy(I_, a, kw):
        S = lib.to_set(I, a[4]); x = fresh('pick'); I.oblige('there is a point left to pick', S.arr != z3.EmptySet(IS)); I.assume(member(S, x)); calls.append(('one', S.arr, x)); return x
    def two(I_, a, kw):
        S = lib.to_set(I, a[4]); x, y = fresh('pick'), fresh('pick'); p, q = fresh('p'), fresh('q'); u, v = z3.Ints('u! v!')
        I.oblige('there are two points left to pick', z3.Exists([u, v], z3.And(u != v, z3.Select(S.arr, u), z3.Select(S.arr, v))))
        I.assume(z3.And(member(S, x), member(S, y), x != y)); calls.append(('pair', S.arr, x, y)); return (x, y)
    I.contracts[cls + '.select_greedy'] = greedy
    if pair: I.contracts[cls + '.select_pair'] = two

def learner(I, pair, best):
    m = 'lop.active_learning.AcquisitionSelection' if pair else M; c = 'AcquisitionSelection' if pair else 'ActiveLearner'
    o = Obj(I.cls(m, c), {'default_to_pareto': False, 'always_select_best': best, 'first_call_greedy': False, 'sel_metric': None})
    calls = []; stubs(I, c, pair, calls); return o, calls

def sel(k, pair, best, prev_empty, rest, kind='a set'):
    nm = 'select %d, %s%s%s%s, preferred: %s' % (k, 'pair learner' if pair else 'point learner', ', best first' if best else '', '' if prev_empty else ', after others', ', with the rest' if rest else '', kind)
    @unit(nm, [M + ':ActiveLearner.select', M + ':ActiveLearner.get_prefered_set_of_pts'] + ([M + ':ActiveLearner.select_best'] if best else []))
    def u(I):
        n, d = z3.Ints('n d'); I.assume(z3.And(n >= 1, d >= 1)); I.branch_timeout = 500; I.branch_mbqi = False; I.ob_tries = ((0, False), (0, True)); I.ob_timeout = 4000
        X = input_array('X', (n, d), 'real'); mu = input_array('mu', (n,), 'real'); var = input_array('var', (n,), 'real')
        P = subset(I, 'prefer', n); Q = SymSet(z3.EmptySet(IS)) if prev_empty else subset(I, 'prev', n)
        av = [z3.Int('avail%d' % i) for i in range(k)]
        for i, a in enumerate(av): I.assume(z3.And(0 <= a, a < n, z3.Not(member(Q, a)), *[a != b for b in av[:i]]))
        if kind == 'a set': pref = P
        elif kind == 'everything': pref = None
        elif kind == 'the first ones': pref = z3.Int('npref'); I.assume(z3.And(0 <= pref, pref <= n))
        else: pref = 'pareto'; I.contracts['get_pareto'] = lambda I_, a, kw: lib.set_to_list(I, P)
        inP = (lambda x: member(P, x)) if kind in ('a set', 'the Pareto front') else (lambda x: z3.And(0 <= x, x < n)) if kind == 'everything' else (lambda x: z3.And(0 <= x, x < z3.If(pref == 0, n, pref)))
        P0, Q0 = P.arr, Q.arr
        prev = [] if prev_empty else Q
        def run():
            P.arr, Q.arr = P0, Q0
            o, calls = learner(I, pair, best)
            o.attrs['model'] = Builtin('model', None); mod = Obj(None, {'predict': Builtin('predict', lambda I_, a, kw: (mu, var))}); o.attrs['model'] = mod
            kw = {'prefer_pts': pref, 'return_not_selected': rest}
            try: r = I.call(I.getattr(o, 'select'), [X, k, prev], kw)
            except PyRaise as e:
                if e.name in ('Exception',): I.oblige('enough points are available', False); return
                raise
            left = None
            if rest:
                I.record('selection and remainder', isinstance(r, (tuple, list)) and len(r) == 2); r, left = r
            if not isinstance(r, list): raise Unsupported('selection of symbolic length')
            I.record('as many as asked for', len(r) == k); r = [Zr(x) for x in r]
            if len(r) > 1: I.oblige('no point twice', z3.Distinct(*r))
            I.oblige('points of the pool', z3.And(*[z3.And(0 <= x, x < n) for x in r]))
            I.oblige('not chosen before', z3.And(*[z3.Not(z3.Select(Q0, x)) for x in r]))
            w = skin(I, n, 'w'); I.assume(z3.And(inP(w), z3.Not(z3.Select(Q0, w))))
            I.oblige('preferred points come first', z3.Implies(z3.Or(*[z3.Not(inP(x)) for x in r]), z3.Or(*[x == w for x in r])))
            if best and prev_empty:
                I.oblige('the best point comes first', z3.And(inP(r[0]), mu.decl(r[0]) >= mu.decl(w)))
            if kind == 'a set': I.record('the preferred set is not changed', P.arr.eq(P0))
            if not prev_empty: I.record('the previous selection is not changed', Q.arr.eq(Q0))
            if left is not None:
                if not isinstance(left, list): raise Unsupported('remainder of symbolic length')
                l = [Zr(x) for x in left]
                if l: I.oblige('the remainder was not selected', z3.And(*[z3.And(0 <= x, x < n, z3.Not(z3.Select(Q0, x)), *[x != y for y in r]) for x in l]))
        return run

for k_ in (1, 2, 3):
    for pr in (False, True): sel(k_, pr, False, True, False); sel(k_, pr, False, False, False)
    sel(k_, False, True, True, False)

def preferred(kind):
    @unit('preferred points: %s' % kind, [M + ':ActiveLearner.get_prefered_set_of_pts'])
    def u(I):
        n, d = z3.Ints('n d'); I.assume(z3.And(n >= 1, d >= 1)); X = input_array('X', (n, d), 'real'); P = subset(I, 'prefer', n); dflt = kind == 'the default is the Pareto front'
        np_ = z3.Int('npref'); I.assume(z3.And(0 <= np_, np_ <= n)); w = z3.Int('w')
        pref = {'a set': P, 'a list': None, 'everything': None, 'the first ones': np_, 'a number below zero': -1, 'something else': 'best'}.get(kind, 'pareto')
        if kind == 'the default is the Pareto front': pref = None
        def run():
            def par(I_, a, kw): I.record('the Pareto front of the pool', a[0] is X or None); return lib.set_to_list(I, P)
            I.contracts['get_pareto'] = par
            o = Obj(I.cls(M, 'ActiveLearner'), {'default_to_pareto': dflt})
            pr = lib.set_to_list(I, P) if kind == 'a list' else pref
            bad = kind in ('a number below zero', 'something else')
            try: r = I.call(I.getattr(o, 'get_prefered_set_of_pts'), [X, pr], {})
            except PyRaise as e:
                if bad and e.name == 'ValueError': I.record('refused', True); return
                raise
            if bad: I.record('refused', False); return
            S = lib.to_set(I, r)
            x = fresh('x'); want = z3.And(0 <= x, x < n) if kind == 'everything' else z3.And(0 <= x, x < z3.If(np_ == 0, n, np_)) if kind == 'the first ones' else member(P, x)
            I.assume(core.TOUCH(x)); I.oblige('exactly the preferred points', member(S, x) == want)
        return run
for kd in ('a set', 'a list', 'everything', 'the first ones', 'the Pareto front', 'the default is the Pareto front', 'a number below zero', 'something else'): preferred(kd)

def best(prev_empty, aslist):
    @unit('select_best%s%s' % ('' if prev_empty else ', after others', ' given as a list' if aslist else ''), [M + ':ActiveLearner.select_best'])
    def u(I):
        n = z3.Int('n'); I.assume(n >= 1); I.ob_tries = ((0, False), (0, True), (1, False)); mu = input_array('mu', (n,), 'real'); P = subset(I, 'prefer', n); Q = SymSet(z3.EmptySet(IS)) if prev_empty else subset(I, 'prev', n); P0, Q0 = P.arr, Q.arr
        def run():
            P.arr, Q.arr = P0, Q0
            o = Obj(I.cls(M, 'ActiveLearner'), {}); pv = lib.set_to_list(I, Q) if aslist else Q
            w, v = fresh('w'), fresh('v'); inP = lambda x: member(P, x); av = lambda x: z3.And(0 <= x, x < n, z3.Not(z3.Select(Q0, x)))
            I.assume(z3.And(av(w), core.TOUCH(w), core.TOUCH(v)))
            try: r = I.call(I.getattr(o, 'select_best'), [mu, P] + ([] if prev_empty else [pv]), {})
            except PyRaise as e:
                if e.name == 'Exception': I.oblige('fails only without available points', False); return
                raise
            r = Zr(r); I.oblige('an available point', av(r))
            I.oblige('a preferred point while there is one', z3.Implies(inP(w), inP(r)))
            for arr, pos in I.__dict__.get('enums', ()):
                p = fresh('at'); I.assume(p == pos(w))
            I.oblige('no such point has a higher mean', z3.Implies(z3.Or(inP(w), z3.Not(inP(r))), mu.decl(r) >= mu.decl(w)))
        return run
best(True, False); best(False, False); best(False, True)

def selinv(pair, best, prev_empty, rest):
    nm = 'select any number, %s%s%s%s' % ('pair learner' if pair else 'point learner', ', best first' if best else '', '' if prev_empty else ', after others', ', with the rest' if rest else '')
    @unit(nm, [M + ':ActiveLearner.select', M + ':ActiveLearner.get_prefered_set_of_pts'] + ([M + ':ActiveLearner.select_best'] if best else []), timeout=200)
    def u(I):
        n, d, num = z3.Ints('n d num'); I.assume(z3.And(n >= 1, d >= 1, num >= 1)); I.branch_timeout = 100; I.branch_mbqi = False; I.ob_tries = ((0, False), (1, False), (0, True), (2, False), (3, False), (1, True)); I.ob_timeout = 4000 if best and rest else 3000
        X = input_array('X', (n, d), 'real'); mu = input_array('mu', (n,), 'real'); var = input_array('var', (n,), 'real')
        P = subset(I, 'prefer', n); Q = SymSet(z3.EmptySet(IS)) if prev_empty else subset(I, 'prev', n)
        P0, Q0 = P.arr, Q.arr
        inP = lambda x: z3.Select(P0, x)
        i, j, x = z3.Ints('i! j! x!')
        avail = lambda x: z3.And(0 <= x, x < n, z3.Not(z3.Select(Q0, x)))
        def lst(v):
            if isinstance(v, list): v = lib.as_symlist(I, v)
            if not isinstance(v, SymList): raise Unsupported('loop state')
            return Zr(v.n), (lambda k: Zr(v.elem(k)))
        def inv(env, it):
            E = env.vars; L, pn, an = E.get('sel_pts'), E.get('pref_not_sel'), E.get('all_not_selected')
            if L is None or not isinstance(pn, SymSet) or not isinstance(an, (SymSet, type(None))): raise Unsupported('loop state')
            m, at = lst(L); pn = pn.arr; T2 = lambda k: core.TOUCH(k)
            inL = lambda x: z3.Or(z3.And(m >= 1, at(m - 1) == x), z3.And(m >= 2, at(m - 2) == x), z3.Exists([i], z3.And(0 <= i, i < m, at(i) == x)))
            out = [('size', z3.And(m >= 0, m <= num)),
                   ('points are available ones', fa([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(avail(at(i)), z3.Not(z3.Select(pn, at(i))))), at(i))),
                   ('no point twice', fa([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), at(i) != at(j)), at(i), at(j))),
                   ('preferred points left', fa([x], z3.Implies(z3.Select(pn, x), z3.And(inP(x), avail(x))), z3.Select(pn, x))),
                   ('preferred points are left or taken', fa([x], z3.Implies(z3.And(inP(x), avail(x), z3.Not(z3.Select(pn, x))), inL(x)), z3.Select(P0, x))),
                   ('preferred points come first', z3.Or(pn == z3.EmptySet(IS), fa([i], z3.Implies(z3.And(0 <= i, i < m), inP(at(i))), at(i))))]
            if best: out.append(('the best point comes first', z3.And(m >= 1, inP(at(z3.IntVal(0))), fa([x], z3.Implies(z3.And(inP(x), avail(x)), mu.decl(at(z3.IntVal(0))) >= mu.decl(x)), mu.decl(x)))))
            inN = lambda x: z3.BoolVal(False)
            if rest:
                if an is None: raise Unsupported('loop state')
                q, nt = lst(E.get('not_selected')); an = an.arr
                inN = lambda x: z3.Or(z3.And(q >= 1, nt(q - 1) == x), z3.Exists([i], z3.And(0 <= i, i < q, nt(i) == x)), z3.Exists([i], z3.And(1 <= i, i <= q, nt(simp(i - 1)) == x)))
                out += [('put aside are available ones', z3.And(q >= 0, fa([i], z3.Implies(z3.And(0 <= i, i < q), z3.And(avail(nt(i)), z3.Not(inP(nt(i))), z3.Not(z3.Select(an, nt(i))))), nt(i)))),
                        ('put aside only once', fa([i, j], z3.Implies(z3.And(0 <= i, i < j, j < q), nt(i) != nt(j)), nt(i), nt(j))),
                        ('put aside were not taken', fa([i, j], z3.Implies(z3.And(0 <= i, i < m, 0 <= j, j < q), at(i) != nt(j)), at(i), nt(j))),
                        ('preferred ones are not put aside', fa([x], z3.Implies(z3.Select(pn, x), z3.Select(an, x)), z3.Select(pn, x)))]
            elif an is not None: an = an.arr; out.append(('no preferred points left', pn == z3.EmptySet(IS)))
            if an is not None:
                out += [('others are available', fa([x], z3.Implies(z3.Select(an, x), avail(x)), z3.Select(an, x))),
                        ('others were not taken', fa([i], z3.Implies(z3.And(0 <= i, i < m), z3.Not(z3.Select(an, at(i)))), at(i))),
                        ('every available point is somewhere', fa([x], z3.Implies(z3.And(avail(x), z3.Not(z3.Select(an, x))), z3.Or(inL(x), inN(x))), core.TOUCH(x)))]
            I.state = (m, at)
            return out
        loops.use_inv(I, 'ActiveLearner.select', inv)
        prev = [] if prev_empty else Q
        def run():
            P.arr, Q.arr = P0, Q0
            o, calls = learner(I, pair, best); I.state = None
            o.attrs['model'] = Obj(None, {'predict': Builtin('predict', lambda I_, a, kw: (mu, var))})
            kw = {'prefer_pts': P, 'return_not_selected': rest}
            w = fresh('w'); I.assume(z3.And(avail(w), core.TOUCH(w)))
            if best: I.assume(inP(w))
            try: r = I.call(I.getattr(o, 'select'), [X, num, prev], kw)
            except PyRaise as e:
                if e.name != 'Exception' or I.state is None: raise
                m, at = I.state
                I.oblige('fails only when all available points are used up', z3.And(m < num, z3.Or(z3.And(m >= 1, at(m - 1) == w), z3.Exists([i], z3.And(0 <= i, i < m, at(i) == w))))); return
            left = None
            if rest:
                I.record('selection and remainder', isinstance(r, (tuple, list)) and len(r) == 2); r, left = r
            m, at = lst(r); a = skin(I, m, 'a'); b = skin(I, m, 'b')
            I.oblige('as many as asked for', m == num)
            I.oblige('no point twice', z3.Implies(a != b, at(a) != at(b)))
            I.oblige('points of the pool, not chosen before', avail(at(a)))
            I.oblige('preferred points come first', z3.Implies(z3.And(z3.Not(inP(at(a))), inP(w)), z3.Exists([i], z3.And(0 <= i, i < m, at(i) == w))))
            if best: I.oblige('the best point comes first', z3.And(inP(at(z3.IntVal(0))), z3.Implies(inP(w), mu.decl(at(z3.IntVal(0))) >= mu.decl(w))))
            I.record('the preferred set is not changed', P.arr.eq(P0))
            if not prev_empty: I.record('the previous selection is not changed', Q.arr.eq(Q0))
            if left is not None:
                q, nt = lst(left); c = skin(I, q, 'c')
                I.oblige('the remainder was not selected', z3.And(avail(nt(c)), nt(c) != at(a)))
        return run
for rs_ in (False, True):
    for pr in (False, True):
        for em in (True, False): selinv(pr, False, em, rs_)
    selinv(False, True, True, rs_)

from . import learn
learn.register(best=False)
for p_ in (False, True): learn.pick(True, p_)

def nodata(mod, cls, fn, size, why=''):
    @unit('%s.%s%s' % (cls, fn, why), [learn.A + mod + ':' + cls + '.' + fn])
    def u(I):
        """without data (or representative queries) the choice is random"""
        n, d = z3.Ints('n d'); I.assume(z3.And(n >= 1, d >= 1)); X = input_array('X', (n, d), 'real'); mu = input_array('mu', (n,), 'real'); S = subset(I, 'allowed', n)
        a, b = fresh('a'), fresh('b'); I.assume(z3.And(member(S, a), core.TOUCH(a)))
        if fn == 'select_pair': I.assume(z3.And(member(S, b), a != b, core.TOUCH(b)))
        prev = [z3.Int('prev%d' % i) for i in range(size)]
        def run():
            o = Obj(I.cls(learn.A + mod, cls), {'sel_metric': None, 'first_call_greedy': False, 'p_B': input_array('pB', (n,), 'real'), 'probit_mat': input_array('pm', (n, n), 'real'), 'model': learn.model_obj(I, 'gp')})
            o.attrs['model'].attrs['X_train'] = None
            I.contracts[cls + '.get_representative_Q'] = lambda I_, a_, kw: (None, None)
            r = I.call(I.getattr(o, fn), [X, mu, mu, SymSet(S.arr), list(prev)], {})
            r = [Zr(x) for x in r] if isinstance(r, (tuple, list)) else [Zr(r)]
            if fn == 'select_pair': I.record('two points', len(r) == 2); I.oblige('two different points', r[0] != r[1])
            for x in r: I.oblige('an allowed point', member(S, x))
        return run
for m_ in ('BayesInfoGain', 'AcquisitionSelection'):
    nodata(m_, m_, 'select_pair', 0, ', no data')
    for k_ in (0, 1): nodata(m_, m_, 'select_greedy', k_, ', no data, %d chosen before' % k_)

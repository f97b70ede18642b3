"""Mixed-query learners: one kind of query, chosen by the documented rule; both parts are used by their contract (C01)."""
from .common import *
from pydv import lib
A = 'lop.active_learning.'
ASSUMPTIONS = ['the two learners it is built from select valid, duplicate-free sets (C01)', 'the effect size computed by pingouin is a real number', 'scores are finite; the ratio test is given non-zero scores']
BOUNDED = 'histories of up to 20 calls on pools of up to 9 items with real learners'

class Part:
    """a learner by its contract: select returns a selection of the number asked for, and sets sel_metric"""
    def __init__(s, I, nm):
        s.I, s.nm, s.calls, s.samples = I, nm, [], None
        s.metric = z3.Real(nm + '_metric'); s.model = None
        def sel(I_, a, kw):
            names = ['candidate_pts', 'num_alts', 'prev_selection', 'prefer_pts', 'return_not_selected', 'select_pair_first']; v = dict(zip(names, a)); v.update(kw); s.calls.append(v)
            s.o.attrs['sel_metric'] = s.metric; rest = v.get('return_not_selected', False)
            k = concrete(v['num_alts'])
            ids = [z3.Int('%s_sel%d' % (nm, i)) for i in range(k)] if k is not None and k < 5 else SymList(v['num_alts'], lambda i: z3.Function(nm + '_sel', IS, IS)(zi(i)))
            s.ids = ids; s.left = [z3.Int(nm + '_left')]; return (ids, s.left) if concrete(rest) is True else ids
        def greedy(I_, a, kw):
            s.asked = a[3] if len(a) > 3 else kw['indicies']; s.o.attrs['sel_metric'] = s.metric; return z3.Int(nm + '_greedy')
        def sets(I_, a, kw): s.samples = tuple(a)
        def unset(I_, a, kw): s.samples = None; s.unset = True
        def setm(I_, a, kw): s.model = a[0]
        s.unset = False; s.asked = None
        s.o = Obj(None, {'select': Builtin('select', sel), 'select_greedy': Builtin('select_greedy', greedy), 'set_samples': Builtin('set_samples', sets), 'unset_samples': Builtin('unset_samples', unset), 'set_model': Builtin('set_model', setm), 'sel_metric': None,
                         'get_representative_Q': Builtin('rep', lambda I_, a, kw: ('x_rep', 'Q_rep')), 'get_samples_from_model': Builtin('smp', lambda I_, a, kw: s.smp)})

class Draws:
    def __init__(s, I):
        s.us = []
        def rnd(I_, a, kw): u = fresh('u', 'real'); I.assume(z3.And(u >= 0, u < 1)); s.us.append(u); return u
        I.lib['numpy.random.random'] = rnd; I.lib['numpy.random.rand'] = rnd; I.lib['numpy.random.uniform'] = rnd

def scene(I, mod, cls, extra=(), comp=False, attrs=None, rest=False, num=2):
    n, d = z3.Ints('n d'); I.assume(z3.And(n >= 1, d >= 1)); X = input_array('X', (n, d), 'real'); mu = input_array('mu', (n,), 'real')
    c = type('S', (), {})(); c.P, c.R, c.C = Part(I, 'pair'), Part(I, 'rate'), Part(I, 'comp'); c.X, c.num, c.rest = X, num, rest
    M = z3.Int('M'); aq = input_array('samplesQ', (M, n), 'real'); ar = input_array('samplesR', (M, z3.Int('nr')), 'real'); c.P.smp = (ar, aq)
    c.P.o.attrs['model'] = Obj(None, {'predict': Builtin('predict', lambda I_, a, kw: (mu, mu))})
    K = I.cls(A + mod, cls); c.o = I.call(K, [c.P.o, c.R.o] + ([c.C.o] if comp else []) + list(extra), {})
    c.draws = Draws(I)
    if attrs: c.o.attrs.update(attrs)
    return c
def ask(I, c):
    c.prev = [z3.Int('prev0')]; c.pref = SymSet(z3.Const('prefer', z3.SetSort(IS)))
    c.r = I.call(I.getattr(c.o, 'select'), [c.X, c.num, c.prev, c.pref, c.rest, True], {}); return c.r
def which(I, c, r):
    """which kind of query was asked; obliges that it is one complete answer of that learner, asked with the caller's arguments"""
    def isres(p): return p.calls and (r is p.ids or (isinstance(r, tuple) and c.rest and len(r) == 2 and r[0] is p.ids and r[1] is p.left) or lst_eq(r, p))
    def lst_eq(r, p):
        try: return (not c.rest) and isinstance(r, list) and isinstance(p.ids, list) and len(r) == len(p.ids) and all(z3.eq(Zr(x), Zr(y)) for x, y in zip(r, p.ids))
        except Exception: return False
    kind = 'pair' if isres(c.P) else 'rate' if isres(c.R) else None
    if kind is None:
        if isinstance(r, (list, tuple)) or r is None: I.record('one kind of query', None if r is not None else False); raise Unsupported('another form of query')
        raise Unsupported('another form of query')
    p = c.P if kind == 'pair' else c.R; v = p.calls[-1]
    I.record('asked about the pool', v['candidate_pts'] is c.X or None)
    I.oblige('number of items', Zr(v['num_alts']) == (Zr(c.num) if kind == 'pair' else 1))
    I.record('earlier selections are passed on', v.get('prev_selection') is c.prev or v.get('prev_selection') == c.prev or None); I.record('preferred items are passed on', v.get('prefer_pts') is c.pref or None)
    I.record('the remainder is asked for as wanted', concrete(v.get('return_not_selected', False)) is c.rest)
    return kind
def rule(I, kind, must_pair, must_rate, nm='the documented rule'):
    """must_pair / must_rate: conditions under which that kind has to be asked"""
    I.oblige(nm, z3.Not(must_rate) if kind == 'pair' else z3.Not(must_pair))
B = z3.BoolVal

for rest_ in (False, True):
    t_ = ', with the rest' if rest_ else ''
    @unit('RateChooseLearner' + t_, [A + 'RateChooseLearner:RateChooseLearner.select', A + 'RateChooseLearner:RateChooseLearner.__init__'])
    def u1(I, rest=rest_):
        def run():
            c = scene(I, 'RateChooseLearner', 'RateChooseLearner', rest=rest); k = which(I, c, ask(I, c)); p, a = c.P.metric, c.R.metric
            rule(I, k, p > a, a > p); I.record('both kinds are scored on the same samples', c.P.samples is not None and c.R.samples is not None and (all(x is y for x, y in zip(c.P.samples, c.R.samples)) or None))
            I.record('samples of this call', c.P.unset and c.P.samples[1] is c.P.smp[1])
        return run
    @unit('MixedComparision' + t_, [A + 'RateChooseLearner:MixedComparision.select', A + 'RateChooseLearner:MixedComparision.__init__'])
    def u2(I, rest=rest_):
        al = z3.Real('alpha')
        def run():
            c = scene(I, 'RateChooseLearner', 'MixedComparision', comp=True, attrs={'alpha': al}, rest=rest); k = which(I, c, ask(I, c)); p, a = (1 - al) * c.P.metric, al * c.C.metric
            rule(I, k, p > a, a > p); ok = c.C.asked is c.R.ids or (isinstance(c.C.asked, list) and len(c.C.asked) == 1 and z3.eq(Zr(c.C.asked[0]), Zr(c.R.ids[0]))); I.record('the item to rate is what is scored', True if ok else None)
            I.record('both kinds are scored on the same samples', c.P.samples is not None and c.C.samples is not None and (all(x is y for x, y in zip(c.P.samples, c.C.samples)) or None))
        return run
    @unit('MixedComparisionEqualChecking' + t_, [A + 'RateChooseLearner:MixedComparisionEqualChecking.select'])
    def u3(I, rest=rest_):
        lim = z3.Real('limit'); e = z3.Real('eta2')
        def run():
            c = scene(I, 'RateChooseLearner', 'MixedComparisionEqualChecking', comp=True, attrs={'eta_2_limit': lim}, rest=rest)
            def eff(I_, a, kw):
                x, y = a[0], a[1]; q = skin(I, c.P.smp[1].shape[0], 'q'); I.oblige('effect size of the samples of the pair', z3.And(Zreal(x.at(q)) == Zreal(c.P.smp[1].at(q, c.P.ids[0])), Zreal(y.at(q)) == Zreal(c.P.smp[1].at(q, c.P.ids[1])))); return e
            I.lib['pingouin.compute_effsize'] = eff
            for z in ('pair_sel0', 'pair_sel1'): I.assume(z3.And(z3.Int(z) >= 0, z3.Int(z) < c.X.shape[0]))
            k = which(I, c, ask(I, c)); p, a = c.P.metric, c.C.metric; i, j = c.P.ids; f = z3.Int('f!'); same_ = z3.Exists([f], z3.And(0 <= f, f < c.X.shape[1], Zreal(c.X.at(i, f)) == Zreal(c.X.at(j, f))))
            rule(I, k, z3.And(p > a, e >= lim), z3.Or(a > p, z3.And(same_, e < lim)), 'the documented rule: rating when the pair shares a value and hardly differs, otherwise the better score')
        return run
    for cls_, cond in (('MixedComparisionSetFixed', lambda k: k > 7), ('MixedAlternating', lambda k: k % 2 == 0)):
        @unit(cls_ + t_, [A + 'RateChooseLearner:%s.select' % cls_])
        def u4(I, rest=rest_, cls_=cls_, cond=cond):
            k0 = z3.Int('calls'); I.assume(k0 >= 0)
            def run():
                c = scene(I, 'RateChooseLearner', cls_, attrs={'num_calls': k0}, rest=rest); k = which(I, c, ask(I, c)); rule(I, k, cond(k0), z3.Not(cond(k0))); I.oblige('one more call', Zr(attr(c.o, 'num_calls')) == k0 + 1)
            return run

def ex(x): return f_exp(x)
par = z3.Real('p'); k_ = z3.Int('calls')
def table(*first, then): 
    t = then
    for i in range(len(first) - 1, -1, -1): t = z3.If(k_ == i, z3.RealVal(first[i]), t)
    return t
kk = z3.ToReal(k_)
PROB = {'MixedStrategy': lambda I: par, 'MixedStrategyPeak': lambda I: table('0.1', '0.5', '0.9', then=z3.RealVal('0.8') * f_exp(simp((2 - kk) * z3.RealVal('0.2'))) + z3.RealVal('0.1')),
        'MixedStrategyPeak2': lambda I: table('0.1', '0.5', '0.9', then=z3.RealVal('0.9') * f_exp(simp((2 - kk) * z3.RealVal('0.2')))),
        'MixedStrategyPeak3': lambda I: table('0.1', '0.5', '0.9', then=z3.RealVal('0.9') * f_exp(simp((2 - kk) * par))),
        'MixedStrategyRevPeak': lambda I: table('0.9', '0.1', then=par)}
PROB['MixedDecision'] = PROB['MixedStrategyPeak3']; PROB['MixedDecision2'] = PROB['MixedStrategyRevPeak']
for cls_ in PROB:
    @unit('chance of a rating, ' + cls_, [A + 'MixedStrategy:%s.mixed_probability' % {'MixedDecision': 'MixedStrategyPeak3'}.get(cls_, cls_)])
    def u5(I, cls_=cls_):
        I.assume(k_ >= 0)
        def run():
            c = scene(I, 'MixedStrategy', cls_, extra=[par], comp='Decision' in cls_, attrs={'num_calls': k_}); r = I.call(I.getattr(c.o, 'mixed_probability'), [], {})
            if not z3.is_expr(r): r = Zreal(r)
            for i in range(4): 
                if I.branch(k_ == i if i < 3 else k_ >= 3): same(I, 'documented chance', Zreal(r), z3.simplify(z3.substitute(PROB[cls_](I), (k_, z3.IntVal(i)))) if i < 3 else simp_ge(PROB[cls_](I))); return
        return run
def simp_ge(t):
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: t = t.arg(2)
    return t
for rest_ in (False, True):
    for cls_ in ('MixedStrategy', 'MixedStrategyPeak', 'MixedStrategyPeak2', 'MixedStrategyPeak3', 'MixedStrategyRevPeak'):
        @unit('%s%s' % (cls_, ', with the rest' if rest_ else ''), [A + 'MixedStrategy:MixedStrategy.select'])
        def u6(I, cls_=cls_, rest=rest_):
            I.assume(k_ >= 0)
            def run():
                pr = fresh('chance', 'real'); I.contracts[('MixedStrategyPeak3' if False else cls_) + '.mixed_probability'] = lambda I_, a, kw: pr
                c = scene(I, 'MixedStrategy', cls_, extra=[par], attrs={'num_calls': k_}, rest=rest); k = which(I, c, ask(I, c))
                if len(c.draws.us) != 1: raise Unsupported('another way to draw')
                u = c.draws.us[0]; rule(I, k, u > pr, u < pr); I.oblige('one more call', Zr(attr(c.o, 'num_calls')) == k_ + 1); I.record('the other kind is not asked', not (c.P.calls and c.R.calls))
            return run
    for cls_ in ('MixedDecision', 'MixedDecision2'):
        for st in (0, 1, 2, 3):
            @unit('%s in state %d%s' % (cls_, st, ', with the rest' if rest_ else ''), [A + 'MixedStrategy:%s.select' % cls_])
            def u7(I, cls_=cls_, rest=rest_, st=st):
                I.assume(k_ >= 0)
                def run():
                    pr = fresh('chance', 'real'); I.contracts[{'MixedDecision': 'MixedStrategyPeak3'}.get(cls_, cls_) + '.mixed_probability'] = lambda I_, a, kw: pr
                    c = scene(I, 'MixedStrategy', cls_, extra=[par], comp=True, attrs={'num_calls': k_, 'state': st}, rest=rest); p, a = c.P.metric, c.C.metric; I.assume(z3.And(p != 0, a != 0))
                    k = which(I, c, ask(I, c)); us = c.draws.us; s2 = Zr(attr(c.o, 'state')); I.oblige('one more call', Zr(attr(c.o, 'num_calls')) == k_ + 1)
                    dec = z3.Or(B(st == 3), k_ == 5, k_ == 10, k_ == 15); big = z3.Or(p > 2 * a, a > 2 * p) if False else z3.Or(p / a > 2, a / p > 2)
                    if len(us) > 1: raise Unsupported('another way to draw')
                    u = us[0] if us else None
                    I.oblige('decided without a draw only when one score is more than twice the other', z3.Implies(B(u is None), z3.And(dec, big)))
                    if u is None:
                        rule(I, k, p > a, a > p); I.oblige('keeps to the kind it chose', s2 == (2 if k == 'pair' else 1)); return
                    ch = z3.If(z3.Or(dec, B(st == 0)), pr, z3.RealVal('0.95') if st == 1 else z3.RealVal('0.05'))
                    rule(I, k, u > ch, u < ch); I.oblige('no draw when the scores decide', z3.Not(z3.And(dec, big))); I.oblige('next state', s2 == z3.If(dec, 0, st))
                return run

def setm(mod, cls, comp, reset, extra=()):
    @unit('set_model, ' + cls, [A + mod + ':%s.set_model' % cls])
    def u(I):
        def run():
            c = scene(I, mod, cls, comp=comp, extra=extra, attrs={'num_calls': k_, 'state': z3.Int('state')}); m = Obj(None, {}); I.call(I.getattr(c.o, 'set_model'), [m], {})
            I.record('both learners use the model', c.P.model is m and c.R.model is m and (not comp or c.C.model is m))
            for a, v in reset: I.oblige('%s starts again' % a, Zr(attr(c.o, a)) == v)
        return run
R_, S_ = 'RateChooseLearner', 'MixedStrategy'
setm(R_, R_, False, ()); setm(R_, 'MixedComparision', True, ()); setm(R_, 'MixedComparisionEqualChecking', True, ()); setm(R_, 'MixedComparisionSetFixed', False, (('num_calls', 0),)); setm(R_, 'MixedAlternating', False, (('num_calls', 0),))
setm(S_, S_, False, (('num_calls', 0),), (par,))
for x_ in ('MixedDecision', 'MixedDecision2'): setm(S_, x_, True, (('num_calls', 0), ('state', 0)), (par,))
setm('MixedTypeDecision', 'AlignmentDecision', False, (('num_calls', 0),), (z3.Int('first'),))

for rest_ in (False, True):
    @unit('AlignmentDecision' + (', with the rest' if rest_ else ''), [A + 'MixedTypeDecision:AlignmentDecision.select'])
    def u8(I, rest=rest_):
        first = z3.Int('first'); I.assume(z3.And(k_ >= 0, first >= 0))
        def run():
            dec = z3.Bool('decision'); sc = (fresh('rating_score', 'real'), fresh('pref_score', 'real')); asked = []
            def det(I_, a, kw): asked.append(1); return (dec,) + sc
            I.contracts['AlignmentDecision.determine_query_type'] = det
            c = scene(I, 'MixedTypeDecision', 'AlignmentDecision', extra=[first], attrs={'num_calls': k_}, rest=rest); r = ask(I, c)
            if not (isinstance(r, tuple) and len(r) == 3): raise Unsupported('another form of answer')
            k = which(I, c, r[0]); want = z3.If(k_ < first, k_ % 2 == 0, dec); rule(I, k, want, z3.Not(want)); I.oblige('one more call', Zr(attr(c.o, 'num_calls')) == k_ + 1); I.record('the other kind is not asked', not (c.P.calls and c.R.calls))
            if asked: I.oblige('scores are consulted only after the first calls', k_ >= first); I.record('the scores of the decision', (r[1] is sc[0] and r[2] is sc[1]) or (False if r[1] is sc[1] else None))
            else: I.oblige('scores are consulted after the first calls', k_ < first)
        return run

@unit('the decision of AlignmentDecision', [A + 'MixedTypeDecision:AlignmentDecision.determine_query_type'])
def u9(I):
    def run():
        c = scene(I, 'MixedTypeDecision', 'AlignmentDecision', extra=[z3.Int('first')], attrs={'num_calls': k_})
        pref, rate, orde = 'pairs', 'ratings', 'ordinal'; y = [pref, orde, rate]; M0, m, nr = z3.Int('M0'), z3.Int('M'), z3.Int('nr'); I.assume(z3.And(m >= 1, nr >= 1))
        st = {'fit': (pref, orde, rate), 'smp': {}}
        mo = Obj(None, {'y_train': y, 'probit_idxs': {'relative_discrete': 0, 'ordinal': 1, 'abs': 2}, 'cov': 'cov'})
        def opt(I_, a, kw): st['fit'] = tuple(mo.attrs['y_train'])
        pm = input_array('mu_rep', (nr,), 'real')
        mo.attrs['optimize'] = Builtin('optimize', opt); mo.attrs['predict'] = Builtin('predict', lambda I_, a, kw: (pm, pm)); c.o.attrs['model'] = mo; c.P.o.attrs['model'] = mo; c.P.o.attrs['M'] = M0
        def smp(I_, a, kw):
            r = fresh_array('rep', (m, nr), 'real'); st['smp'][id(r)] = (st['fit'], r); return (r, 'Q')
        c.P.o.attrs['get_samples_from_model'] = Builtin('smp', smp)
        full = (pref, orde, rate); al = {}
        def align(I_, a, kw):
            x, z = st['smp'].get(id(a[0]), (None,))[0], st['smp'].get(id(a[1]), (None,))[0]
            if x == full: x, z = z, x
            if z != full or x not in ((pref, orde, None), (None, orde, rate)): I.record('samples of one kind of answers are compared with samples given all answers', False); raise Unsupported('alignment')
            f = fresh_array('align', (m, m), 'real'); al['p' if x[0] else 'r'] = f; return f
        c.P.o.attrs['alignment_between'] = Builtin('alignment_between', align)
        I.lib['numpy.corrcoef'] = lambda I_, a, kw: fresh_array('corr', (simp(m + 1), simp(m + 1)), 'real')
        I.lib['scipy.stats.rankdata'] = lambda I_, a, kw: fresh_array('rank', a[0].shape, 'real')
        r = I.call(I.getattr(c.o, 'determine_query_type'), [c.X], {})
        if set(al) != {'p', 'r'} or not (isinstance(r, tuple) and len(r) == 3): raise Unsupported('another way to decide')
        mean = lambda f: mk_node('sum', m, lambda i: mk_node('sum', m, lambda j: Zreal(f.at(i, j)))) / (z3.ToReal(m) * z3.ToReal(m))
        same(I, 'the score of ratings is the mean alignment', r[1], mean(al['r'])); same(I, 'the score of preferences is the mean alignment', r[2], mean(al['p']))
        I.oblige('the better score decides', Zb(r[0]) == (Zreal(r[2]) > Zreal(r[1])))
        I.record('the model has all its answers again', tuple(mo.attrs['y_train']) == full); I.record('the model is fitted to all its answers', st['fit'] == full)
        I.oblige('the number of samples is restored', Zr(c.P.o.attrs['M']) == M0)
    return run

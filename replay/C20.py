from replay.lrn import *
class Part(ActiveLearner):
    """a learner with given scores, drawn from a plan"""
    M = 5
    def __init__(self, plan, seed): super().__init__(); self.plan, self.rng, self.calls, self.log = plan, np.random.RandomState(seed), 0, []
    def select(self, X, num, prev=[], pref=None, rest=False, pairfirst=True):
        r = [int(i) for i in self.rng.permutation([i for i in range(len(X)) if i not in prev])[:num]]; self.sel_metric = self.plan(self, r); self.last = (r, [i for i in range(len(X)) if i not in r and i not in prev]); self.log.append((num, r)); return self.last if rest else r
    def select_greedy(self, X, mu, data, indicies, prev): check(all(np.ndim(i) == 0 for i in indicies), 'asked about %s' % (indicies,)); self.asked = [int(i) for i in indicies]; self.sel_metric = self.plan(self, self.asked); return self.asked[0]
    def set_samples(self, a, b): self.all_rep, self.all_Q, self.samples_set = a, b, True
    def unset_samples(self): self.samples_set = False
    def get_representative_Q(self, X): return X, None
    def get_samples_from_model(self, X, x_rep): return self.rng.randn(self.M, len(x_rep)), self.rng.randn(self.M, len(X))
def parts(rng):
    v = {k: rng.choice([-3., -1., .5, 1., 2., 5.]) for k in 'prc'}; s = rng.randint(1 << 30)
    return v, Part(lambda l, r: v['p'], s), Part(lambda l, r: v['r'], s + 1), Part(lambda l, r: v['c'], s + 2)
def kind(r, P, R, rest, num):
    ids = [int(i) for i in (r[0] if rest else r)]
    if P.log and ids == P.log[-1][1] and P.log[-1][0] == num and (num > 1 or not R.log or R.log[-1][1] != ids): return 'pair'
    check(R.log and ids == R.log[-1][1] and R.log[-1][0] == 1, 'not one complete query: %s, offered %s and %s' % (r, P.log[-1:], R.log[-1:])); return 'rate'
def pool(rng, lo=4):
    n = rng.randint(lo, 9); X = rng.randint(0, 3, (n, 2))*1.; prev = [int(i) for i in rng.permutation(n)[:rng.randint(0, 2)]]; rest = bool(rng.rand() < .3); num = int(rng.randint(2, 4)); note(n=n, prev=prev, rest=rest, num=num, X=X); return n, X, prev, rest, num
def must(k, pair, rate, msg, **kw): check(not (pair and k != 'pair') and not (rate and k != 'rate'), msg + ': asked ' + k, **kw)

@case(250)
def scores(rng):
    n, X, prev, rest, num = pool(rng); v, P, R, C = parts(rng); al = float(rng.choice([0, .2, .5, .8, 1])); m = Fixed(np.zeros(n), np.ones(n)); note(metrics=v, alpha=al)
    l = RateChooseLearner(P, R); l.set_model(m); k = kind(quiet(l.select, X, num, prev, None, rest), P, R, rest, num); must(k, v['p'] > v['r'], v['r'] > v['p'], 'scores %s' % v)
    check(P.all_Q is R.all_Q and P.all_rep is R.all_rep, 'scored on different samples')
    l = MixedComparision(P, R, C, alpha=al); l.set_model(m); k = kind(quiet(l.select, X, num, prev, None, rest), P, R, rest, num); a, b = (1 - al)*v['p'], al*v['c']; must(k, a > b, b > a, 'weighted scores %s, %s' % (a, b))
    check(C.asked == R.log[-1][1], 'another item was scored'); check(P.all_Q is C.all_Q, 'scored on different samples')
@case(20)
def ties(rng):
    """equal scores: both kinds are asked"""
    n, X, prev, rest, num = pool(rng); m = Fixed(np.zeros(n), np.ones(n)); seen = set()
    for i in range(40):
        v, P, R, C = parts(rng); v.update(p=1., r=1., c=1.); l = RateChooseLearner(P, R) if rng.rand() < .5 else MixedComparision(P, R, C, alpha=.5); l.set_model(m); seen.add((type(l).__name__, kind(quiet(l.select, X, num, prev, None, rest), P, R, rest, num)))
    check(len(seen) == 4, 'only %s' % seen)
@case(150)
def equal_values(rng):
    from pingouin import compute_effsize
    n, X, prev, rest, num = pool(rng); v, P, R, C = parts(rng); lim = float(rng.choice([.02, .06, .3])); note(metrics=v, limit=lim)
    l = MixedComparisionEqualChecking(P, R, C, eta_2_limit=lim); l.set_model(Fixed(np.zeros(n), np.ones(n))); k = kind(quiet(l.select, X, 2, prev, None, rest), P, R, rest, 2); i, j = P.log[-1][1]
    e = compute_effsize(P.all_Q[:, i], P.all_Q[:, j], paired=True, eftype='eta-square'); eq = (X[i] == X[j]).any() and e < lim
    must(k, v['p'] > v['c'] and not eq, v['c'] > v['p'] or eq, 'scores %s, effect %s, equal values %s' % (v, e, (X[i] == X[j]).any()))
@case(80)
def by_count(rng):
    n, X, prev, rest, num = pool(rng); v, P, R, C = parts(rng); m = Fixed(np.zeros(n), np.ones(n))
    for l, f in ((MixedComparisionSetFixed(P, R), lambda i: i > 7), (MixedAlternating(P, R), lambda i: i % 2 == 0)):
        for again in range(2):
            l.set_model(m)
            for i in range(rng.randint(1, 14)): k = kind(quiet(l.select, X, num, prev, None, rest), P, R, rest, num); must(k, f(i), not f(i), 'call %d of %s' % (i, type(l).__name__))
CH = {'MixedStrategy': lambda i, p: p, 'MixedStrategyPeak': lambda i, p: [.1, .5, .9][i] if i < 3 else .8*np.exp((2 - i)*.2) + .1, 'MixedStrategyPeak2': lambda i, p: [.1, .5, .9][i] if i < 3 else .9*np.exp((2 - i)*.2),
      'MixedStrategyPeak3': lambda i, p: [.1, .5, .9][i] if i < 3 else .9*np.exp((2 - i)*p), 'MixedStrategyRevPeak': lambda i, p: [.9, .1][i] if i < 2 else p}
@case(120)
def chances(rng):
    n, X, prev, rest, num = pool(rng); v, P, R, C = parts(rng); m = Fixed(np.zeros(n), np.ones(n)); nm = sorted(CH)[rng.randint(len(CH))]; p = float(rng.rand()); l = getattr(lop, nm)(P, R, p); note(learner=nm, p=p); o = np.random.random; u = []
    def draw(*a, **k): u.append(float(rng.rand())); return u[-1]
    np.random.random = draw
    try:
        for again in range(2):
            l.set_model(m)
            for i in range(rng.randint(1, 20)):
                u.clear(); c = l.mixed_probability(); close(c, CH[nm](i, p), 'chance of a rating at call %d' % i); k = kind(quiet(l.select, X, num, prev, None, rest), P, R, rest, num)
                if len(u) == 1: must(k, u[0] > c, u[0] < c, 'call %d, chance %s, draw %s' % (i, c, u[0]))
    finally: np.random.random = o
@case(150)
def decisions(rng):
    n, X, prev, rest, num = pool(rng); v, P, R, C = parts(rng); v.update(p=abs(v['p']), c=abs(v['c'])); m = Fixed(np.zeros(n), np.ones(n)); nm, t = [('MixedDecision', 'MixedStrategyPeak3'), ('MixedDecision2', 'MixedStrategyRevPeak')][rng.randint(2)]; p = float(rng.rand()); l = getattr(lop, nm)(P, R, C, p); note(learner=nm, p=p); o = np.random.random; u = []
    def draw(*a, **k): u.append(float(rng.rand())); return u[-1]
    np.random.random = draw
    try:
        for again in range(2):
            l.set_model(m); s = 0
            for i in range(rng.randint(1, 20)):
                v['p'], v['c'] = rng.choice([.5, 1., 2., 5.], 2); u.clear(); k = kind(quiet(l.select, X, num, prev, None, rest), P, R, rest, num)
                c = {0: CH[t](i, p), 1: .95, 2: .05}[s]
                if i in (5, 10, 15):
                    if max(v['p']/v['c'], v['c']/v['p']) > 2: must(k, v['p'] > v['c'], v['c'] > v['p'], 'call %d, scores %s' % (i, v)); s = 2 if k == 'pair' else 1; continue
                    c = CH[t](i, p); s = 0
                if len(u) == 1: must(k, u[0] > c, u[0] < c, 'call %d in state %d, chance %s, draw %s' % (i, s, c, u[0]))
    finally: np.random.random = o
@case(2, 15)
def alignment(rng):
    """real learners and a real model"""
    n = rng.randint(4, 7); Z = rng.rand(n, 2); f = Z.sum(1); m = PreferenceGP(lop.RBF_kern(.5, 1.)); m.add(Z, np.array([(1 if f[i] > f[j] else -1, i, j) for i in range(n) for j in range(i)], dtype=int)); m.add(rng.rand(3, 2), (rng.uniform(.1, .9, 3), np.arange(3)), type='abs'); quiet(m.optimize)
    P = AcquisitionSelection(M=20, rep_Q_data={'num_pts': 5, 'num_Q': 5}, alignment_f=str(rng.choice(['epic', 'spearman']))); R = UCBLearner(1.); first = int(rng.randint(0, 3)); l = AlignmentDecision(P, R, first); l.set_model(m); X = rng.rand(5, 2); note(first=first)
    y0 = [None if v is None else ([a.copy() for a in v] if isinstance(v, tuple) else v.copy()) for v in m.y_train]; F0 = m.F.copy(); orig = l.determine_query_type; dec = []
    def det(*a):
        r = orig(*a); dec.append(bool(r[0])); return r
    l.determine_query_type = det
    for i in range(first + 1):
        r = quiet(l.select, X, 2); ids = [int(v) for v in (r[0] if isinstance(r[0], (list, tuple)) else [r[0]])]; k = len(ids); check(k in (1, 2) and len(set(ids)) == k and set(ids) <= set(range(5)), 'query %s' % (r,))
        w = (i % 2 == 0) if i < first else dec[-1]; check((k == 2) == bool(w), 'call %d: asked for %d items' % (i, k)); check((i < first) == (not dec), 'scores consulted at call %d' % i)
    for a, b in zip(y0, m.y_train):
        check((a is None) == (b is None), 'labels lost')
        if a is not None: check(all(np.array_equal(p, q) for p, q in zip(a, b)), 'labels changed')
    close(m.F, F0, 'the model is no longer fitted to its data', rtol=1e-3, atol=1e-4); check(P.M == 20, 'number of samples changed to %s' % P.M)

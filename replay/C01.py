from replay.lrn import *

def front(X): n = len(X); return set(i for i in range(n) if not any((X[j] >= X[i]).all() and ((X[j] > X[i]).any() or j < i) for j in range(n)))
def query(rng, X, n):
    """preferred points, earlier selections"""
    k = rng.randint(0, 6); every = set(range(n))
    sub = lambda p: set(int(i) for i in range(n) if rng.rand() < p)
    P = sub(.5)
    if k == 0: pref, S = None, every
    elif k == 1: pref, S = P, P
    elif k == 2: pref, S = sorted(P), P
    elif k == 3: m = int(rng.randint(0, n + 1)); pref, S = m, set(range(m or n))
    elif k == 4: pref, S = 'pareto', front(X)
    else: pref, S = 0, every
    prev = sorted(sub(.3)) if rng.rand() < .5 else []
    return pref, set(S), prev

def judge(lr, X, mu, num, prev, pref, S, rest, pairfirst=True, cap=None):
    n = len(X); free = set(range(n)) - set(prev); want = num if cap is None else min(num, cap)
    note(n=n, num=num, prev=prev, preferred=pref, rest=rest, learner=type(lr).__name__, best_first=lr.always_select_best)
    pv = list(prev); pf = pref.copy() if isinstance(pref, set) else pref; X0 = X.copy()
    try: r = quiet(lr.select, X, num, prev, pref, rest, pairfirst)
    except Exception as e:
        if len(free) < want: return None
        raise
    check(len(free) >= want, 'selected more points than there are: %s' % (r,))
    check(prev == pv and (not isinstance(pref, set) or pref == pf) and np.array_equal(X, X0), 'inputs changed')
    left = None
    if rest: check(isinstance(r, (tuple, list)) and len(r) == 2, 'selection and remainder'); r, left = r
    r = [int(x) for x in r]
    check(len(r) == want, 'asked for %d, got %s' % (want, r)); check(len(set(r)) == len(r), 'a point twice: %s' % r)
    check(set(r) <= free, 'not available: %s' % r)
    ok = S & free
    check(set(r) <= ok or ok <= set(r), 'preferred points %s are not used first: %s' % (sorted(ok), r))
    if lr.always_select_best and not prev:
        c = ok or free; check(r[0] in c and mu[r[0]] >= max(mu[i] for i in c), 'first is not the best: %s, mean %s' % (r, mu))
    if left is not None: left = [int(x) for x in left]; check(not (set(left) & (set(r) | set(prev))) and set(left) <= set(range(n)), 'remainder %s of selection %s' % (left, r))
    return r

@case(1500)
def any_scores(rng):
    n = rng.randint(1, 10); X = rng.randint(0, 4, (n, 2)).astype(float); mu = rng.randint(0, 5, n)*1.; s = rng.randint(0, 5, n)*1.; A = rng.randint(0, 4, (n, n))*1.
    kw = dict(always_select_best=bool(rng.rand() < .4)); lr = Pairs(s, A, **kw) if rng.rand() < .5 and n > 1 else Scores(s, **kw)
    lr.set_model(Fixed(mu)); pref, S, prev = query(rng, X, n); num = int(rng.randint(1, n + 1))
    if rng.rand() < .2: lr.max_num_alts = cap = int(rng.randint(1, 4))
    else: cap = None
    judge(lr, X, mu, num, prev, pref, S, bool(rng.rand() < .4), bool(rng.rand() < .9), cap)

@case(150)
def default_pareto(rng):
    n = rng.randint(1, 8); X = rng.randint(0, 4, (n, 2)).astype(float); mu = rng.rand(n); lr = Scores(rng.rand(n), default_to_pareto=True); lr.set_model(Fixed(mu))
    S = front(X)
    judge(lr, X, mu, int(rng.randint(1, n + 1)), [], None, S, False)

@case(300)
def best_point(rng):
    n = rng.randint(1, 9); mu = rng.randint(0, 5, n)*1.; lr = Scores(mu); P = set(int(i) for i in range(n) if rng.rand() < .5); pv = set(int(i) for i in range(n) if rng.rand() < .4)
    note(mu=mu, preferred=P, prev=pv); c = (P - pv) or (set(range(n)) - pv)
    arg = pv if rng.rand() < .5 else sorted(pv)
    if not c: check(raises(lambda: lr.select_best(mu, P, arg)), 'nothing to select'); return
    b = lr.select_best(mu, P, arg); check(b in c and mu[b] == max(mu[i] for i in c), 'best of %s by %s is not %s' % (sorted(c), mu, b))

MODELS = {}
def cached(rng, kind):
    k = (kind, int(rng.randint(2)))
    if k not in MODELS: MODELS[k] = model(np.random.RandomState(7 + k[1]), kind)
    return MODELS[k]
def mk(rng, kind):
    ls = [('Random', lambda **k: RandomLearner(**k)), ('Best', lambda **k: BestLearner(**k)), ('Worst', lambda **k: WorstLearner(**k)), ('UCB', lambda **k: UCBLearner(float(rng.choice([0, 1, 3])), **k)), ('GV_UCB', lambda **k: GV_UCBLearner(1., **k))]
    if kind in ('gp', 'linear'): ls += [('MutualInfo', lambda **k: MutualInfoLearner(**k))]
    if kind in ('gp', 'linear'):
        ls += [('BayesInfoGain', lambda **k: BayesInfoGain(p_q_B_method=str(rng.choice(['probit', '999', '99'])), **k)),
               ('Acquisition', lambda **k: AcquisitionSelection(M=8, rep_Q_data={'num_pts': 5, 'num_Q': 5}, alignment_f=str(rng.choice(['rho', 'loglikelihood', 'epic', 'spearman', 'one'])), **k))]
    if kind == 'nodata': ls = [l for l in ls if l[0] in ('Random', 'Best', 'Worst', 'UCB', 'GV_UCB')] + [('BayesInfoGain', lambda **k: BayesInfoGain(**k)), ('Acquisition', lambda **k: AcquisitionSelection(M=8, **k)), ('Abs', lambda **k: AbsAcquisition(M=8, **k))]
    return ls[rng.randint(len(ls))]
@case(90, 1500)
def real_learners(rng):
    kind = str(rng.choice(['gp', 'gp', 'plain', 'linear', 'nodata'])); n = rng.randint(2, 8); X = rng.rand(n, 2); m = cached(rng, kind) if kind != 'nodata' else model(rng, kind)
    nm, f = mk(rng, kind); lr = f(always_select_best=bool(rng.rand() < .3)); lr.set_model(m); note(kind=kind, X=X)
    mu = np.asarray(m.predict(X)[0]); pref, S, prev = query(rng, X, n); num = int(rng.randint(1, min(n, 4) + 1))
    judge(lr, X, mu, num, prev, pref, S, bool(rng.rand() < .4), cap=getattr(lr, 'max_num_alts', None))

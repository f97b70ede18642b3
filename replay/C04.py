from replay.h import *
import lop
from lop.models import PreferenceModel

def model(rng):
    k = rng.randint(3)
    return PreferenceModel() if k == 0 else lop.PreferenceGP(lop.RBF_kern(.5, .7)) if k == 1 else lop.PreferenceLinear()
def pairs(rng, n, k): return [(int(rng.choice([-1, 1])), int(rng.randint(n)), int(rng.randint(n))) for _ in range(k)]
def give(rng, n, kind):
    """(argument, labels as (value, sample in the batch) or (direction, u, v), arrays of the caller)"""
    f = rng.rand()
    if kind == 'relative_discrete':
        p = pairs(rng, n, rng.randint(0, 5)) if n else []; a = np.array(p) if p and f < .4 else p
        return a, p, [a] if isinstance(a, np.ndarray) else []
    if kind == 'ordinal':
        if f < .6:
            v = rng.randint(1, 6, size=n); a = v if f < .4 else list(v); return a, [(int(x), i) for i, x in enumerate(v)], [a] if f < .4 else []
        k = rng.randint(1, 5); t = np.stack([rng.randint(1, 6, size=k), rng.randint(n, size=k)], axis=1); return t, [tuple(map(int, r)) for r in t], [t]
    if f < .6: v = rng.rand(n); v[rng.rand(n) < .2] = rng.choice([0., 1.]); return v, [(min(max(x, .001), .999), i) for i, x in enumerate(v)], [v]
    k = rng.randint(1, 5); v, ix = rng.rand(k), rng.randint(n, size=k); return (v, ix), [(min(max(x, .001), .999), int(i)) for x, i in zip(v, ix)], [v, ix]
def shape_of(m):
    return [None if x is None else np.array(x) if j == 0 else (np.array(x[0]), np.array(x[1])) for j, x in enumerate(m.y_train)]
def verify(m, X, L):
    check(len(m.X_train) == len(X), '%d samples were added, the model holds %d' % (len(X), len(m.X_train))); close(m.X_train, X, 'samples in the order they were added', 0, 0)
    for j, k in enumerate(('relative_discrete', 'ordinal', 'abs')):
        y = m.y_train[m.probit_idxs[k]]
        if y is None: check(not L[k], '%s labels are lost' % k); continue
        if k == 'relative_discrete': close(y, np.array(L[k]).reshape(-1, 3), '%s labels' % k, 0, 0)
        else: check(len(y[0]) == len(y[1]) == len(L[k]), '%d %s labels were given, the model holds %d values and %d samples' % (len(L[k]), k, len(y[0]), len(y[1]))); close(y[0], [a for a, b in L[k]], 'values of the %s labels' % k, 0, 1e-12); close(y[1], [b for a, b in L[k]], 'samples of the %s labels' % k, 0, 0)

@case(150)
def history(rng):
    m = model(rng); d = rng.choice([None, 1, 2, 3]); X = None; L = {'relative_discrete': [], 'ordinal': [], 'abs': []}; h = []
    for step in range(rng.randint(1, 7)):
        n = rng.randint(1, 5); x = rng.rand(n) if d is None else rng.rand(n, d); kind = list(L)[rng.randint(3)]; a, lab, arrs = give(rng, n, kind); h.append((kind, x.copy(), [np.copy(q) for q in a] if isinstance(a, tuple) else np.copy(a)))
        note(model=type(m).__name__, history=h[-6:]); keep = [q.copy() for q in [x] + arrs]; x0 = x.copy(); B = 0 if X is None else len(X); m.optimized = True
        if rng.rand() < .15 and kind != 'relative_discrete' and not isinstance(a, list):
            bad = (a[0].copy(), a[1]) if isinstance(a, tuple) else a.copy(); q = bad[0] if isinstance(bad, tuple) else bad
            if q.size:
                q.reshape(-1)[0 if q.ndim == 1 else 0] = rng.choice([-1, 2]) if kind == 'abs' else rng.choice([0, -1]); before = (None if m.X_train is None else m.X_train.copy(), shape_of(m))
                check(raises(lambda: m.add(x, bad, type=kind)), 'a label outside its range is accepted')
                now = (m.X_train, shape_of(m)); check((now[0] is None) == (before[0] is None) and (now[0] is None or np.array_equal(now[0], before[0])), 'a refused batch leaves its samples behind')
                for p, q in zip(before[1], now[1]): check((p is None) == (q is None) and (p is None or all(np.array_equal(u, v) for u, v in zip(p, q))), 'a refused batch leaves labels behind')
        if kind == 'relative_discrete' and rng.rand() < .5: m.add(x, a)
        else: m.add(x, a, type=kind)
        check(m.optimized is False, 'still marked as optimised after adding data')
        for p, q in zip(keep, [x] + arrs): check(np.array_equal(p, q), 'the caller\'s arrays changed')
        x[...] = -5
        for q in arrs: q[...] = -5            # the caller goes on using its arrays
        X = x0 if X is None else np.append(X, x0, axis=0)
        L[kind] += [(p, u + B, v + B) for p, u, v in lab] if kind == 'relative_discrete' else [(v, i + B) for v, i in lab]
        verify(m, X, L)
    if rng.rand() < .3: m.reset(); check(m.X_train is None and all(y is None for y in m.y_train), 'reset leaves data behind')

@case(100)
def regression(rng):
    mf = None if rng.rand() < .5 else (lambda x: 2*np.sum(np.atleast_2d(x.T).T, axis=1)); m = lop.GP(lop.RBF_kern(.5, .7), mean_func=mf) if mf else lop.GP(lop.RBF_kern(.5, .7)); d = rng.choice([None, 1, 2]); X = Y = S = None
    for _ in range(rng.randint(1, 5)):
        n = rng.randint(1, 5); x = rng.rand(n) if d is None else rng.rand(n, d); y = rng.randn(n); k = rng.randint(4); s = [None, rng.rand(), rng.rand(n), list(rng.rand(n))][k]; note(x=x, y=y, sigma=s)
        x0, y0 = x.copy(), y.copy(); s0 = np.ones(n)*(.0005 if s is None else np.array(s)); keep = s.copy() if k == 2 else None
        m.add(x, y) if s is None else m.add(x, y, training_sigma=s) if rng.rand() < .5 else m.add(x, y, s)
        check(np.array_equal(x, x0) and np.array_equal(y, y0) and (keep is None or np.array_equal(keep, s)), 'the caller\'s arrays changed'); x[...] = 9; y[...] = 9
        if k == 2: s[...] = 9
        if mf: y0 = y0 - mf(x0)
        X, Y, S = (x0, y0, s0) if X is None else (np.append(X, x0, axis=0), np.append(Y, y0), np.append(S, s0))
        close(m.X_train, X, 'samples', 0, 0); close(m.y_train, Y, 'values', 1e-12, 1e-12); close(m.training_sigma, S, 'confidences', 0, 0)
    if rng.rand() < .4:
        m.reset(); check(m.X_train is None and m.y_train is None, 'reset leaves data behind'); x = rng.rand(3, 2); m.add(x, np.zeros(3)); check(len(m.X_train) == len(m.y_train) == len(m.training_sigma) == 3, 'data from before the reset come back')
